package run

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"github.com/grafana/thema/encoding/typescript"

	"verif/harness/abs"
)

func init() { ops["tstypes"] = opTSTypes }

//go:embed tsjudge.cjs
var tsJudge string

var tsc struct {
	sync.Mutex
	in  io.Writer
	out *bufio.Reader
}

type tsAnswer struct {
	Crash  string
	Errs   []string
	Decls  []string
	OK     bool
	Why    []string
	Consts map[string]json.RawMessage
}

// askTS asks the TypeScript compiler about a source.
func askTS(src, root, doc string) tsAnswer {
	tsc.Lock()
	defer tsc.Unlock()
	if tsc.in == nil {
		c := exec.Command("node", "-e", tsJudge)
		c.Stderr = os.Stderr
		in, err := c.StdinPipe()
		if err == nil {
			var out io.Reader
			out, err = c.StdoutPipe()
			tsc.in, tsc.out = in, bufio.NewReader(out)
		}
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	b, _ := json.Marshal(map[string]string{"src": src, "root": root, "json": doc})
	var a tsAnswer
	_, err := tsc.in.Write(append(b, '\n'))
	if err == nil {
		b, err = tsc.out.ReadBytes('\n')
	}
	if err == nil {
		err = json.Unmarshal(b, &a)
	}
	if err != nil || a.Crash != "" {
		panic("harness: TypeScript compiler: " + a.Crash)
	}
	return a
}

// opTSTypes generates TypeScript types from a schema, and asks the TypeScript
// compiler what they are and whether they admit some data.
func opTSTypes(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	has := map[string]bool{}
	for _, o := range strings.Fields(op.K) {
		has[o] = true
	}
	var cfg *typescript.TypeConfig
	if !has["none"] {
		cfg = config(e, "ts "+strings.ReplaceAll(op.K, "reuse", ""), has["reuse"], func() *typescript.TypeConfig {
			c := &typescript.TypeConfig{Group: has["group"], RootAsType: has["alias"]}
			if has["root"] {
				c.RootName = "Another"
			}
			return c
		})
	}
	for _, o := range []string{"group", "alias", "root"} {
		ev[o] = has[o]
	}
	f, err := typescript.GenerateTypes(s, cfg)
	if err != nil {
		fail(ev, err)
		return true
	}
	src := f.String()
	if os.Getenv("VH_DEBUG") != "" {
		os.Stderr.WriteString(src)
	}
	a := askTS(src, "", "")
	if len(a.Errs) > 0 {
		ev["r"] = "broken"
		ev["msg"] = clip(strings.Join(a.Errs, "; ") + " in " + src)
		return true
	}
	ev["r"] = "ok"
	sort.Strings(a.Decls)
	decls := []string{}
	for _, d := range a.Decls {
		decls = append(decls, abs.Escape(d))
	}
	ev["decls"] = decls
	consts := map[string]any{}
	for n, b := range a.Consts {
		d, err := abs.FromJSON(b)
		if err != nil {
			panic("harness: " + err.Error())
		}
		consts[abs.Escape(n)] = d
	}
	ev["consts"] = consts
	if len(consts) == 0 {
		ev["consts"] = []int{}
	}
	ask := op.S // the declaration that the data is for
	if ask == "" {
		n := s.Lineage().Name()
		ask = strings.ToUpper(n[:1]) + n[1:]
		if has["root"] {
			ask = "Another"
		}
	}
	declared := false
	for _, d := range decls {
		declared = declared || d == "interface "+ask || d == "type "+ask
	}
	if declared {
		a = askTS(src, ask, op.D.JSON())
		ev["acc"] = a.OK
		ev["msg"] = clip(strings.Join(a.Why, "; "))
	}
	return true
}

// config gives a config for a generator: a new one, or one that was used before.
func config[T any](e *Env, key string, reuse bool, mk func() *T) *T {
	if reuse {
		if c, is := e.cfgs[key].(*T); is {
			return c
		}
	}
	c := mk()
	e.cfgs[key] = c
	return c
}
