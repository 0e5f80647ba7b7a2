// Package run executes scenarios against the real Thema code through its
// public interface, and records what it observes as a trace of events.
package run

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/build"
	"cuelang.org/go/cue/cuecontext"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	tload "github.com/grafana/thema/load"
	"github.com/grafana/thema/vmux"

	"verif/harness/abs"
)

// Op is one step of a scenario.
type Op struct {
	E  string    `json:"e"`
	L  string    `json:"L,omitempty"`  // name of a lineage
	L2 string    `json:"L2,omitempty"` // name of another lineage
	H  string    `json:"h,omitempty"`  // handle of an instance to use
	H2 string    `json:"h2,omitempty"` // handle to give to the resulting instance
	V  *abs.V    `json:"v,omitempty"`
	D  *abs.Data `json:"d,omitempty"`
	In string    `json:"in,omitempty"` // how data is handed over, see Decode
	K  string    `json:"k,omitempty"`  // kind of muxer
	// text for operations on text
	S  string `json:"s,omitempty"`
	S2 string `json:"s2,omitempty"`
	// Go type
	G *abs.GoT `json:"G,omitempty"`
	// lineage to bind
	Lin *abs.Lin `json:"lin,omitempty"`
	// files to load from
	Files []File `json:"files,omitempty"`
	// number of the goroutine, if operations are to run at the same time
	P int `json:"p,omitempty"`
}

// Scenario is a history of operations on one runtime.
type Scenario struct {
	ID  string `json:"id"`
	Ops []Op   `json:"ops"`
}

// Event is an operation together with what was observed.
type Event map[string]any

// Env is the real system a scenario runs against.
type Env struct {
	Ctx  *cue.Context
	RT   *thema.Runtime
	lins map[string]thema.Lineage
	spec map[string]*abs.Lin
	hs   map[string]*thema.Instance
	ts   map[string]typed
	// configs of generators
	cfgs map[string]any
	// lens calls made since the last reset
	calls *callLog
	// muxes, which are made once and used again
	muxes sync.Map
	// what was observed when the operations ran one after another
	solo map[int]string
	// values prepared for operations
	pre  map[*Op]cue.Value
	Emit func(Event)
	// scratch directory, if any
	dir string
	sid string
	// the operation under way
	mu    sync.Mutex
	cur   Event
	since time.Time
	done  bool
}

// Close tells that nothing more will be run.
func (e *Env) Close() {
	e.mu.Lock()
	e.done = true
	e.mu.Unlock()
	e.clean()
}

func NewEnv() *Env {
	ctx := cuecontext.New()
	return &Env{Ctx: ctx, RT: thema.NewRuntime(ctx), calls: &callLog{m: map[string][]string{}}}
}

// clean removes the files of a scenario.
func (e *Env) clean() {
	if e.dir != "" {
		os.RemoveAll(e.dir) //nolint:errcheck
		e.dir = ""
	}
}

func (e *Env) reset(sid string) {
	e.clean()
	e.sid = sid
	e.lins = map[string]thema.Lineage{}
	e.spec = map[string]*abs.Lin{}
	e.hs = map[string]*thema.Instance{}
	e.ts = map[string]typed{}
	e.cfgs = map[string]any{}
}

// Run executes a scenario.  It is abandoned, and false returned, when an
// operation panics.
func (e *Env) Run(s *Scenario) bool {
	e.reset(s.ID)
	e.solo = alone(s)
	for i := 0; i < len(s.Ops); i++ {
		if s.Ops[i].P > 0 {
			j := i
			for j < len(s.Ops) && s.Ops[j].P > 0 {
				j++
			}
			if !e.together(s, i, j) {
				return false
			}
			i = j - 1
			continue
		}
		ev := e.event(s, i)
		e.mu.Lock()
		e.cur, e.since = ev, time.Now()
		e.mu.Unlock()
		rec := e.do(&s.Ops[i], ev)
		e.mu.Lock()
		e.cur = nil
		e.mu.Unlock()
		if rec {
			e.Emit(ev)
			if ev["r"] == "panic" {
				return false
			}
		}
	}
	return true
}

// event starts the record of an operation.
func (e *Env) event(s *Scenario, i int) Event {
	op := &s.Ops[i]
	ev := Event{"e": op.E, "sid": s.ID, "i": i}
	for _, x := range []struct{ k, v string }{{"L", op.L}, {"L2", op.L2}, {"h", op.H}, {"h2", op.H2}, {"in", op.In}, {"k", op.K}, {"s", op.S}} {
		if x.v != "" {
			ev[x.k] = x.v
		}
	}
	if op.V != nil {
		ev["v"] = *op.V
	}
	if op.D != nil {
		ev["d"] = op.D
	}
	if op.Lin != nil {
		ev["lin"] = op.Lin
	}
	return ev
}

// Watch ends the process, after recording it, when an operation takes longer
// than any operation should.
func (e *Env) Watch(limit time.Duration, stop func(Event)) {
	for range time.Tick(time.Second) {
		e.mu.Lock()
		if e.done {
			e.mu.Unlock()
			return
		}
		if e.cur != nil && time.Since(e.since) > limit {
			ev := Event{"r": "panic", "msg": "did not return"}
			for k, v := range e.cur {
				if _, has := ev[k]; !has {
					ev[k] = v
				}
			}
			stop(ev)
		}
		e.mu.Unlock()
	}
}

// do runs one operation and reports whether there is something to record.
func (e *Env) do(op *Op, ev Event) (rec bool) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(string); ok && strings.HasPrefix(m, "harness:") {
				fmt.Fprintln(os.Stderr, m)
				os.Exit(3)
			}
			ev["r"] = "panic"
			ev["msg"] = clip(fmt.Sprint(r))
			rec = true
		}
	}()
	f, ok := ops[op.E]
	if !ok {
		panic("harness: no such operation " + op.E)
	}
	return f(e, op, ev)
}

var ops = map[string]func(e *Env, op *Op, ev Event) bool{}

func init() {
	for k, f := range map[string]func(e *Env, op *Op, ev Event) bool{
		"bind": opBind, "validate": opValidate, "any": opAny, "translate": opTranslate,
		"succ": opSucc, "pred": opPred, "hydrate": opHydrate, "dehydrate": opDehydrate,
		"observe": opObserve, "nav": opNav, "lookup": opLookup, "append": opAppend,
		"reval": opReval, "mux": opMux, "examples": opExamples, "drop": opDrop,
	} {
		ops[k] = f
	}
}

func clip(s string) string {
	s = abs.Escape(s)
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

var classes = []struct {
	n string
	e error
}{
	{"ErrInvalidData", terrors.ErrInvalidData},
	{"ErrInvalidLens", terrors.ErrInvalidLens},
	{"ErrLensIncomplete", terrors.ErrLensIncomplete},
	{"ErrLensResultIsInvalidData", terrors.ErrLensResultIsInvalidData},
	{"ErrValueNotExist", terrors.ErrValueNotExist},
	{"ErrValueNotALineage", terrors.ErrValueNotALineage},
	{"ErrInvalidLineage", terrors.ErrInvalidLineage},
	{"ErrInvalidSchemasOrder", terrors.ErrInvalidSchemasOrder},
	{"ErrInvalidLensesOrder", terrors.ErrInvalidLensesOrder},
	{"ErrDuplicateLenses", terrors.ErrDuplicateLenses},
	{"ErrMissingLenses", terrors.ErrMissingLenses},
	{"ErrErroneousLenses", terrors.ErrErroneousLenses},
	{"ErrVersionNotExist", terrors.ErrVersionNotExist},
	{"ErrMalformedSyntacticVersion", terrors.ErrMalformedSyntacticVersion},
}

// ClassesOf tells which of the error classes an error belongs to.
func ClassesOf(err error) []string {
	cs := []string{}
	for _, c := range classes {
		if errors.Is(err, c.e) {
			cs = append(cs, c.n)
		}
	}
	return cs
}

func fail(ev Event, err error) {
	ev["r"] = "fail"
	ev["cls"] = ClassesOf(err)
	ev["msg"] = clip(err.Error())
	ev["said"] = strings.TrimSpace(err.Error()) != ""
}

func sv(v abs.V) thema.SyntacticVersion { return thema.SV(v[0], v[1]) }
func vs(v thema.SyntacticVersion) abs.V { return abs.V{v[0], v[1]} }
func vsch(s thema.Schema) []uint {
	if s == nil {
		return []uint{}
	}
	return []uint{s.Version()[0], s.Version()[1]}
}

// Decode turns abstract data into a cue.Value by one of several routes.
func (e *Env) Decode(d *abs.Data, in string) (cue.Value, error) {
	txt := d.JSON()
	switch in {
	case "", "json":
		return vmux.NewJSONCodec("data.json").Decode(e.Ctx, []byte(txt))
	case "yaml":
		return vmux.NewYAMLCodec("data.yaml").Decode(e.Ctx, []byte(txt))
	case "cue":
		v := e.Ctx.CompileString(txt, cue.Filename("data"))
		return v, v.Err()
	case "go":
		dec := json.NewDecoder(strings.NewReader(txt))
		dec.UseNumber()
		var x any
		if err := dec.Decode(&x); err != nil {
			return cue.Value{}, err
		}
		v := e.Ctx.Encode(fixNumbers(x))
		return v, v.Err()
	}
	return cue.Value{}, fmt.Errorf("bad route %q", in)
}

func fixNumbers(x any) any {
	switch v := x.(type) {
	case json.Number:
		if i, err := v.Int64(); err == nil {
			return i
		}
		f, _ := v.Float64()
		return f
	case []any:
		for i := range v {
			v[i] = fixNumbers(v[i])
		}
	case map[string]any:
		for k := range v {
			v[k] = fixNumbers(v[k])
		}
	}
	return x
}

// Abstract reads the data of a value back.
func Abstract(v cue.Value) (*abs.Data, error) {
	b, err := v.MarshalJSON()
	if err != nil {
		return nil, err
	}
	return abs.FromJSON(b)
}

// project records the observable state of an instance.
func project(ev Event, inst *thema.Instance) {
	if ev["par"] != nil {
		// nobody looks into instances while others are at work
		ev["par"] = inst
		return
	}
	ev["ov"] = vs(inst.Schema().Version())
	d, err := Abstract(inst.Underlying())
	if err != nil {
		ev["od"] = abs.Atom("?:" + clip(err.Error()))
		return
	}
	ev["od"] = d
}

const modfile = "-- cue.mod/module.cue\nmodule: \"verif.test/lin\"\n"
const themaImport = "import \"github.com/grafana/thema\"\nIMPORTS"

// packaged lists ways to write a lineage down as a package: files, and where
// the lineage is found.
var packaged = map[string]string{
	"embed":    modfile + "-- lin.cue\npackage lin\n" + themaImport + "thema.#Lineage\nBODY",
	"pkgpath":  modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage\nlin: {\nBODY}\n",
	"amp":      modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage & {\nBODY}\n",
	"amprev":   modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: {\nBODY} & thema.#Lineage\n",
	"amppath":  modfile + "-- at schemas.lin\n-- lin.cue\npackage lin\n" + themaImport + "schemas: lin: thema.#Lineage & {\nBODY}\n",
	"ampsplit": modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage & {\nPARTA} & {\nPARTB}\n",
	"ampbase":  modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "baseLineage: {\nPARTA}\nlin: thema.#Lineage & baseLineage & {\nPARTB}\n",
	"ampref":   modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "whole: {\nBODY}\nlin: thema.#Lineage & whole\n",
	"alias":    modfile + "-- at lin\n-- lin.cue\npackage lin\nimport th \"github.com/grafana/thema\"\nIMPORTSlin: th.#Lineage & {\nBODY}\n",
	"twice":    modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage & {\nPARTA} & thema.#Lineage & {\nPARTB}\n",
	"files":    modfile + "-- at lin\n-- a.cue\npackage lin\nimport \"github.com/grafana/thema\"\nlin: thema.#Lineage\n-- b.cue\npackage lin\nIMPORTSlin: {\nPARTB}\nlin: {\nPARTA}\n",
	"subdir":   modfile + "-- dir some/sub\n-- some/sub/lin.cue\npackage sub\n" + themaImport + "thema.#Lineage\nBODY",
	"pkgname":  "-- dir some/sub\n-- package other\n-- some/sub/lin.cue\npackage other\n" + themaImport + "thema.#Lineage\nBODY-- some/sub/more.cue\npackage sub\nname: 7\n",
	"imported": modfile + "-- at lin\n-- base/base.cue\npackage base\n" + themaImport + "lin: thema.#Lineage & {\nBODY}\n-- lin.cue\npackage lin\nimport \"verif.test/lin/base\"\nlin: base.lin\n",
	"asmod":    "-- lin.cue\npackage lin\n" + themaImport + "thema.#Lineage\nBODY",
}

// Forms lists all the ways to write a lineage down.
func Forms() []string {
	fs := []string{"path", "unify", "parts", "basepart", "ownname"}
	for f := range packaged {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

// CompileLin renders a lineage and evaluates it in the form asked for.
func (e *Env) CompileLin(l *abs.Lin) (cue.Value, error) {
	body := l.Body()
	imp := ""
	if abs.NeedsStrings(body) {
		imp = "import \"strings\"\n"
	}
	switch l.Form {
	case "", "plain":
		v := e.Ctx.CompileString(imp+body, cue.Filename("lin.cue"))
		return v, v.Err()
	case "attrs":
		v := e.Ctx.CompileString(imp+l.BodyAttrs(), cue.Filename("lin.cue"))
		return v, v.Err()
	case "path":
		v := e.Ctx.CompileString(imp+"a: b: {\n"+body+"}\n", cue.Filename("lin.cue"))
		return v.LookupPath(cue.ParsePath("a.b")), v.Err()
	case "unify":
		v := e.Ctx.CompileString(imp+body, cue.Filename("lin.cue"))
		if v.Err() != nil {
			return v, v.Err()
		}
		return e.RT.Underlying().LookupPath(cue.ParsePath("#Lineage")).Unify(v), nil
	case "parts", "basepart", "ownname":
		// several parts, none of which is the lineage definition of Thema
		i := strings.Index(body, "schemas: [")
		a, b := body[:i], body[i:]
		src := ""
		switch l.Form {
		case "parts":
			src = "lin: {\n" + a + "} & {\n" + b + "}\n"
		case "basepart":
			src = "baseLineage: {\n" + a + "}\nlin: baseLineage & {\n" + b + "}\n"
		case "ownname":
			i = strings.Index(body, "\n") + 1
			src = "#Lineage: {\n" + body[:i] + "...\n}\nlin: #Lineage & {\n" + body[i:] + "}\n"
		}
		v := e.Ctx.CompileString(imp+src, cue.Filename("lin.cue"))
		return v.LookupPath(cue.ParsePath("lin")), v.Err()
	}
	if src, ok := packaged[l.Form]; ok {
		i := strings.Index(body, "schemas: [")
		p := unpack(strings.NewReplacer("BODY", body, "PARTA", body[:i], "PARTB", body[i:], "IMPORTS", imp).Replace(src))
		bi, err := p.load()
		if err != nil {
			return cue.Value{}, err
		}
		return p.value(e.Ctx.BuildInstance(bi)), nil
	}
	return cue.Value{}, fmt.Errorf("bad form %q", l.Form)
}

// pack is a lineage as the files of a CUE package.
type pack struct {
	fs      fstest.MapFS
	dir, at string
	opts    []tload.Option
}

func unpack(src string) *pack {
	p := &pack{fs: fstest.MapFS{}, dir: "."}
	for _, f := range strings.Split("\n"+src, "\n-- ")[1:] {
		name, text, _ := strings.Cut(f, "\n")
		switch {
		case strings.HasPrefix(name, "at "):
			p.at = name[3:]
		case strings.HasPrefix(name, "dir "):
			p.dir = name[4:]
		case strings.HasPrefix(name, "package "):
			p.opts = append(p.opts, tload.Package(name[8:]))
		default:
			p.fs[name] = &fstest.MapFile{Data: []byte(text + "\n")}
		}
	}
	return p
}

func (p *pack) load() (*build.Instance, error) {
	if _, has := p.fs["cue.mod/module.cue"]; !has {
		return tload.InstanceWithThema(tload.AsModFS(p.fs, "verif.test/lin"), p.dir, p.opts...)
	}
	return tload.InstanceWithThema(p.fs, p.dir, p.opts...)
}

func (p *pack) value(v cue.Value) cue.Value {
	if p.at != "" {
		v = v.LookupPath(cue.ParsePath(p.at))
	}
	return v
}

func opBind(e *Env, op *Op, ev Event) bool {
	delete(e.lins, op.L)
	e.spec[op.L] = op.Lin
	var v cue.Value
	var err error
	if strings.HasPrefix(op.Lin.Form, "old") || strings.HasPrefix(op.Lin.Form, "new") {
		v, err = e.made(op.Lin, ev)
	} else {
		v, err = e.compiled(op)
	}
	if err != nil && os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "compile:", op.L, err)
	}
	// A value that does not even compile is handed over as it is.
	opts := []thema.BindOption{}
	if op.Lin.Skip {
		opts = append(opts, thema.SkipBuggyChecks())
	}
	if len(op.Lin.GL) > 0 {
		var ils []thema.ImperativeLens
		for _, g := range op.Lin.GL {
			ils = append(ils, e.goLens(op.Lin, g))
		}
		if len(ils) > 2 {
			// the option may also be given several times
			opts = append(opts, thema.ImperativeLenses(ils[:1]...), thema.ImperativeLenses(ils[1:]...))
		} else {
			opts = append(opts, thema.ImperativeLenses(ils...))
		}
	}
	lin, err := thema.BindLineage(v, e.RT, opts...)
	if err != nil {
		fail(ev, err)
		ev["nilres"] = lin == nil
		return true
	}
	ev["r"] = "ok"
	ev["name"] = abs.Escape(lin.Name())
	var vl []abs.V
	for _, s := range lin.All() {
		vl = append(vl, vs(s.Version()))
	}
	ev["all"] = vl
	e.lins[op.L] = lin
	return true
}

// goLens makes a lens in Go with the behaviour g calls for.
func (e *Env) goLens(l *abs.Lin, g abs.GoLens) thema.ImperativeLens {
	il := thema.ImperativeLens{From: sv(g.From), To: sv(g.To)}
	if g.Beh == "nilfn" {
		return il
	}
	il.Mapper = func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
		call := g.From.Dotted() + ">" + g.To.Dotted()
		if inst == nil || to == nil {
			call += "!nil"
		} else if inst.Schema().Version() != sv(g.From) || to.Version() != sv(g.To) {
			call += "!got " + inst.Schema().Version().String() + ">" + to.Version().String()
		}
		e.calls.add(call)
		switch g.Beh {
		case "err":
			return nil, fmt.Errorf("lens refuses")
		case "nil":
			return nil, nil
		case "wrong":
			return inst, nil
		case "zero":
			return &thema.Instance{}, nil
		}
		d, err := Abstract(inst.Underlying())
		if err != nil {
			return nil, err
		}
		r, ok := abs.EvalMap(g.Map, d)
		if !ok {
			return nil, fmt.Errorf("lens lacks input")
		}
		v, err := e.Decode(r, "json")
		if err != nil {
			return nil, err
		}
		if g.Beh == "foreign" {
			// the right version, of a lineage that looks the same
			lv, err := e.CompileLin(l)
			if err != nil {
				return nil, err
			}
			lin, err := thema.BindLineage(lv, e.RT, thema.SkipBuggyChecks())
			if err != nil {
				return nil, err
			}
			s, err := lin.Schema(to.Version())
			if err != nil {
				return nil, err
			}
			return s.Validate(v)
		}
		return to.Validate(v)
	}
	return il
}

var coordRe = regexp.MustCompile(`(?m)^<[^>\n]*@v[0-9]+\.[0-9]+>\.?([^:\n]*):`)

// FaultPaths reads the places an error of validation names.
func FaultPaths(msg string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, m := range coordRe.FindAllStringSubmatch(msg, -1) {
		p := abs.Escape(strings.ReplaceAll(m[1], "\"", ""))
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (e *Env) schema(l string, v abs.V) thema.Schema {
	lin := e.lins[l]
	if lin == nil {
		return nil
	}
	s, err := lin.Schema(sv(v))
	if err != nil {
		// scenarios only ask for schemas that exist
		panic("no schema " + v.Dotted() + ": " + err.Error())
	}
	return s
}

func opValidate(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	val, err := e.decoded(op)
	if err != nil {
		fail(ev, err)
		ev["stage"], ev["fp"] = "decode", []string{}
		return true
	}
	inst, err := s.Validate(val)
	if err != nil {
		fail(ev, err)
		ev["nilres"] = inst == nil
		ev["stage"], ev["fp"] = "validate", FaultPaths(err.Error())
		return true
	}
	ev["r"] = "ok"
	project(ev, inst)
	e.keep(op.H2, inst)
	return true
}

// opReval hands the data of an instance to another schema of the lineage.
func opReval(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil {
		return false
	}
	s := e.schema(op.L, *op.V)
	// as it would arrive after having been stored
	b, err := in.Underlying().MarshalJSON()
	if err != nil {
		fail(ev, err)
		return true
	}
	val, err := vmux.NewJSONCodec("stored.json").Decode(e.Ctx, b)
	if err != nil {
		fail(ev, err)
		return true
	}
	inst, err := s.Validate(val)
	if err != nil {
		fail(ev, err)
		ev["nilres"] = inst == nil
		return true
	}
	ev["r"] = "ok"
	project(ev, inst)
	return true
}

func (e *Env) keep(h string, inst *thema.Instance) {
	if h != "" {
		e.hs[h] = inst
	}
}

func opAny(e *Env, op *Op, ev Event) bool {
	lin := e.lins[op.L]
	if lin == nil {
		return false
	}
	val, err := e.decoded(op)
	if err != nil {
		ev["r"], ev["stage"] = "none", "decode"
		return true
	}
	inst := lin.ValidateAny(val)
	if inst == nil {
		ev["r"] = "none"
		return true
	}
	ev["r"] = "ok"
	project(ev, inst)
	e.keep(op.H2, inst)
	return true
}

// lacunas records lacunas in the order given.
func lacunas(ev Event, lac thema.TranslationLacunas) {
	out := []any{}
	if lac != nil {
		for _, l := range lac.AsList() {
			out = append(out, map[string]any{
				"ty": int(l.Type), "msg": abs.Escape(l.Message),
				"src": refs(l.SourceFields), "tgt": refs(l.TargetFields),
			})
		}
	}
	ev["lac"] = out
	// the versions the lacunas belong to, where the result tells
	ev["lacv"] = []any{}
	if b, err := json.Marshal(lac); err == nil {
		var x []struct {
			V       []uint            `json:"v"`
			Lacunas []json.RawMessage `json:"lacunas"`
		}
		if json.Unmarshal(b, &x) == nil {
			lv := []any{}
			for _, s := range x {
				for range s.Lacunas {
					lv = append(lv, s.V)
				}
			}
			ev["lacv"] = lv
		}
	}
}

func refs(fs []thema.FieldRef) []any {
	out := []any{}
	for _, f := range fs {
		out = append(out, map[string]any{"p": abs.Escape(f.Path), "d": abs.FromGo(f.Value)})
	}
	return out
}

// transform records the outcome of something that maps an instance to another.
func (e *Env) transform(op *Op, ev Event, in *thema.Instance, f func() (*thema.Instance, thema.TranslationLacunas, error)) bool {
	e.calls.reset()
	look := func() (*abs.Data, error) {
		if ev["par"] != nil {
			return abs.Atom("null"), nil
		}
		return Abstract(in.Underlying())
	}
	before, berr := look()
	bv := in.Schema().Version()
	inst, lac, err := f()
	after, aerr := look()
	// the input must be left alone
	ev["kept"] = berr == nil && aerr == nil && before.JSON() == after.JSON() && bv == in.Schema().Version()
	ev["calls"] = e.calls.made()
	if err != nil {
		fail(ev, err)
		ev["nilres"] = inst == nil
		return true
	}
	if inst == nil {
		ev["r"] = "nil"
		return true
	}
	ev["r"] = "ok"
	project(ev, inst)
	lacunas(ev, lac)
	ev["samelin"] = inst.Schema().Lineage() == in.Schema().Lineage()
	e.keep(op.H2, inst)
	return true
}

func opTranslate(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil {
		return false
	}
	return e.transform(op, ev, in, func() (*thema.Instance, thema.TranslationLacunas, error) {
		return in.Translate(sv(*op.V))
	})
}

func opSucc(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil || in.Schema().Successor() == nil {
		return false
	}
	return e.transform(op, ev, in, in.AsSuccessor)
}

func opPred(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil || in.Schema().Predecessor() == nil {
		return false
	}
	return e.transform(op, ev, in, in.AsPredecessor)
}

func opHydrate(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil {
		return false
	}
	return e.transform(op, ev, in, func() (*thema.Instance, thema.TranslationLacunas, error) { return in.Hydrate(), nil, nil })
}

func opDehydrate(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil {
		return false
	}
	return e.transform(op, ev, in, func() (*thema.Instance, thema.TranslationLacunas, error) { return in.Dehydrate(), nil, nil })
}

func opObserve(e *Env, op *Op, ev Event) bool {
	in := e.hs[op.H]
	if in == nil {
		return false
	}
	ev["r"] = "ok"
	project(ev, in)
	return true
}

func opDrop(e *Env, op *Op, ev Event) bool {
	delete(e.hs, op.H)
	return false
}

// opNav records everything there is to see about the order of schemas.
func opNav(e *Env, op *Op, ev Event) bool {
	lin := e.lins[op.L]
	if lin == nil {
		return false
	}
	ev["r"] = "ok"
	ev["name"] = abs.Escape(lin.Name())
	ev["first"] = vsch(lin.First())
	ev["latest"] = vsch(lin.Latest())
	ev["latestver"] = vs(thema.LatestVersion(lin))
	per := []any{}
	same := true
	// the caller owns the list it is given
	all := lin.All()
	for i := range all {
		all[i] = all[len(all)-1]
	}
	for _, s := range lin.All() {
		per = append(per, map[string]any{
			"v": vs(s.Version()), "succ": vsch(s.Successor()), "pred": vsch(s.Predecessor()), "lim": vsch(s.LatestInMajor()),
		})
		g, err := lin.Schema(s.Version())
		same = same && err == nil && g == s && thema.SchemaP(lin, s.Version()) == s && s.Lineage() == lin
		if n := s.Successor(); n != nil {
			same = same && n.Predecessor() == s
		}
	}
	ev["per"] = per
	ev["same"] = same && lin.Runtime() == e.RT
	seqs := []any{}
	for m := uint(0); m <= lin.Latest().Version()[0]+1; m++ {
		v, err := thema.LatestVersionInSequence(lin, m)
		if err != nil {
			seqs = append(seqs, []uint{})
		} else {
			seqs = append(seqs, v)
		}
	}
	ev["seqs"] = seqs
	ev["far"] = farVersions(lin)
	return true
}

// farVersions looks up versions far beyond those of the lineage, which
// differ from those it has in high bits only, and gives the ones it finds.
func farVersions(lin thema.Lineage) []string {
	found := []string{}
	for _, s := range lin.All() {
		v := s.Version()
		for _, bit := range []uint{8, 15, 16, 31, 32, 48, 62, 63} {
			maj, min := v, v
			maj[0] += 1 << bit
			min[1] += 1 << bit
			for _, w := range []thema.SyntacticVersion{maj, min} {
				sch, err := lin.Schema(w)
				if err == nil || sch != nil || !errors.Is(err, terrors.ErrVersionNotExist) {
					found = append(found, w.String())
				}
			}
			if x, err := thema.LatestVersionInSequence(lin, maj[0]); err == nil {
				found = append(found, fmt.Sprint("latest in ", maj[0], " is ", x))
			}
		}
	}
	if len(found) > 5 {
		found = found[:5]
	}
	return found
}

func opLookup(e *Env, op *Op, ev Event) bool {
	lin := e.lins[op.L]
	if lin == nil {
		return false
	}
	s, err := lin.Schema(sv(*op.V))
	if err != nil {
		fail(ev, err)
		ev["nilres"] = s == nil
		return true
	}
	ev["r"] = "ok"
	ev["ov"] = vs(s.Version())
	return true
}

func opAppend(e *Env, op *Op, ev Event) bool {
	a, b := e.lins[op.L], e.lins[op.L2]
	if a == nil || b == nil {
		return false
	}
	if err := thema.IsAppendOnly(a, b); err != nil {
		fail(ev, err)
		return true
	}
	ev["r"] = "ok"
	return true
}

func opExamples(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	out := map[string]any{}
	names := []string{}
	okv := true
	// the caller owns the map it is given
	for m := s.Examples(); len(m) > 0; {
		for k := range m {
			delete(m, k)
		}
		m["scribble"] = nil
		break
	}
	got := s.Examples()
	look := func() {
		for k, inst := range got {
			if inst == nil {
				names = append(names, abs.Escape(k))
				continue
			}
			d, err := Abstract(inst.Underlying())
			if err != nil {
				d = abs.Atom("?:" + clip(err.Error()))
			}
			out[abs.Escape(k)] = d
			names = append(names, abs.Escape(k))
			okv = okv && inst.Schema().Version() == sv(*op.V) && inst.Schema() == s
		}
		sort.Strings(names)
		exs := []any{}
		for _, k := range names {
			exs = append(exs, map[string]any{"n": k, "d": out[k]})
		}
		ev["ex"] = exs
		ev["okv"] = okv
	}
	ev["r"] = "ok"
	if ev["par"] != nil {
		// nobody looks into instances while others are at work
		ev["par"] = look
		return true
	}
	look()
	return true
}

func opMux(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	format, flaw, _ := strings.Cut(op.In, "!")
	json, yaml := vmux.NewJSONCodec("in.json"), vmux.NewYAMLCodec("in.yaml")
	codec, in := json, []byte(op.D.JSON())
	if format == "yaml" {
		codec, in = yaml, []byte(yamlText(op.D))
	}
	ev["flaw"] = flaw
	switch flaw {
	case "junk":
		in = append([]byte("{\"a\": ["), in...)
	case "encode":
		codec = codecOf{codec, noEncoder{}}
	case "cross":
		// reads one format and writes the other
		if format == "yaml" {
			codec, format = codecOf{yaml, json}, "json"
		} else {
			codec, format = codecOf{json, yaml}, "yaml"
		}
	}
	keep := string(in)
	e.calls.reset()
	switch op.K {
	case "untyped":
		inst, lac, err := again(&e.muxes, s, op, func() vmux.UntypedMux { return vmux.NewUntypedMux(s, codec) })(in)
		ev["calls"] = e.calls.made()
		ev["kept"] = keep == string(in)
		if err != nil {
			fail(ev, err)
			ev["nilres"] = inst == nil
			return true
		}
		if inst == nil {
			ev["r"] = "nil"
			return true
		}
		ev["r"] = "ok"
		project(ev, inst)
		lacunas(ev, lac)
	case "byte":
		b, lac, err := again(&e.muxes, s, op, func() vmux.ByteMux { return vmux.NewByteMux(s, codec) })(in)
		ev["calls"] = e.calls.made()
		ev["kept"] = keep == string(in)
		if err != nil {
			fail(ev, err)
			ev["nilres"], ev["noenc"] = b == nil, errors.Is(err, errNoEncoder)
			return true
		}
		ev["r"] = "ok"
		ev["ov"] = *op.V
		d, derr := e.readBytes(b, format)
		if derr != nil {
			d = abs.Atom("?:" + clip(derr.Error()))
		}
		ev["od"] = d
		lacunas(ev, lac)
	case "typed", "value":
		t := e.typedFor(op)
		if t == nil {
			return false
		}
		ev["G"] = goOf(op)
		return t.mux(e, op, ev, codec, in)
	default:
		panic("harness: no such mux " + op.K)
	}
	return true
}

// again gives the mux for a schema that was made before, if any.
func again[M any](ms *sync.Map, s thema.Schema, op *Op, make func() M) M {
	type key struct {
		s     thema.Schema
		k, in string
	}
	m, ok := ms.Load(key{s, op.K, op.In})
	if !ok {
		m, _ = ms.LoadOrStore(key{s, op.K, op.In}, make())
	}
	return m.(M)
}

type codecOf struct {
	vmux.Decoder
	vmux.Encoder
}

var errNoEncoder = errors.New("nothing can be written")

type noEncoder struct{}

func (noEncoder) Encode(cue.Value) ([]byte, error) { return nil, errNoEncoder }

// readBytes reads encoded data without the help of the code under test.
func (e *Env) readBytes(b []byte, format string) (*abs.Data, error) {
	if format != "yaml" {
		return abs.FromJSON(b)
	}
	return yamlData(b)
}
