package run

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"cuelang.org/go/cue"
	"github.com/dave/dst"

	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"

	"verif/harness/abs"
)

func init() { ops["gobind"] = opGoBind }

// placing says where things are in a Go module: the lineage's directory, and the
// CUE module's, if any, in directories below the root; the CUE package.
type placing struct {
	lin, cue int // depth; cue is -1 if there is no CUE module
	pkg      string
	dir, at  bool // pointed at by its directory; at a path within
}

var steps = []string{"", "some", "some/lin"}

// opGoBind generates Go bindings in a project, and runs a program that uses
// them: S2 describes the project, K has options, V is the version to bind.
func opGoBind(e *Env, op *Op, ev Event) bool {
	lin := e.lins[op.L]
	if lin == nil {
		return false
	}
	p := placing{cue: -1}
	for _, o := range strings.Fields(op.S2) {
		switch k, v, _ := strings.Cut(o, "="); k {
		case "lin":
			p.lin = int(v[0] - '0')
		case "cue":
			p.cue = int(v[0] - '0')
		case "pkg":
			p.pkg = v
		case "dir":
			p.dir = true
		case "at":
			p.at = true
		default:
			panic("harness: no such place " + o)
		}
	}
	opt := map[string]bool{}
	for _, o := range strings.Fields(op.K) {
		opt[o] = true
	}
	ev["typed"], ev["lib"] = opt["typed"], opt["lib"]

	root, err := os.MkdirTemp(e.scratch(), "app-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	if os.Getenv("VH_DEBUG") == "" {
		defer os.RemoveAll(root) //nolint:errcheck
	}
	mod := os.Getenv("VH_MOD")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(mod, f))
		if err != nil {
			panic("harness: " + err.Error())
		}
		write(filepath.Join(root, f), strings.Replace(string(b), "module verif/harness\n", "module verif.test/app\n", 1))
	}
	if p.cue >= 0 {
		write(filepath.Join(root, steps[p.cue], "cue.mod", "module.cue"), "module: \"verif.test/mod\"\n")
	}
	src, imp := e.spec[op.L].Body(), ""
	if abs.NeedsStrings(src) {
		imp = "import \"strings\"\n"
	}
	if p.at {
		src = "a: b: thema.#Lineage\na: b: {\n" + src + "}\n"
	} else {
		src = "thema.#Lineage\n" + src
	}
	src = "import \"github.com/grafana/thema\"\n" + imp + src
	if p.pkg != "" {
		src = "package " + p.pkg + "\n" + src
	}
	there := filepath.Join(root, steps[p.lin])
	write(filepath.Join(there, "the.cue"), src)

	name := lin.Name()
	title := strings.Title(name) //nolint:staticcheck
	pkg := strings.ToLower(name)
	st := stored{root: root, cd: ".", args: []string{"-l", filepath.Join(there, "the.cue")}}
	if p.dir {
		st.args[1] = there
	}
	if p.at {
		st.args = append(st.args, "-p", "a.b")
	}
	broken := func(r, msg string) bool {
		ev["r"], ev["msg"] = r, clip(msg)
		return true
	}
	gen := func(what string, args ...string) (string, bool) {
		out, msg, code := e.themaCmd(st, e.spec[op.L].Skip, append([]string{"lineage", "gen", what}, args...), nil)
		switch code {
		case 0:
			return out, true
		case 1:
			return "", !broken("fail", msg)
		}
		return "", !broken("panic", msg)
	}
	var common []string
	if opt["pkg"] {
		pkg = "somewhere"
		common = []string{"--pkgname", pkg}
	}
	if op.V != nil {
		common = append(common, "-v", op.V.Dotted())
	}
	types := "package " + pkg + "\n"
	if opt["typed"] {
		if _, ok := gen("gotypes", common...); !ok {
			return true
		}
		b, err := os.ReadFile(filepath.Join(there, strings.ToLower(name)+"_types_gen.go"))
		if err != nil {
			return broken("broken", "no types: "+err.Error())
		}
		types = string(b)
	}
	gs, err := readGo([]byte(types))
	if err != nil {
		return broken("broken", err.Error())
	}
	if opt["typed"] {
		ev["G"] = map[string]any{"g": "ptr", "e": gs.find(title)}
	}

	// what the generator leaves to its user
	var left string
	file := filepath.Join(there, strings.ToLower(name)+"_bindings_gen.go")
	if opt["lib"] {
		cfg := &gocode.BindingConfig{FactoryNameSuffix: opt["suffix"], PrivateFactory: opt["private"]}
		if opt["pkg"] {
			cfg.PackageName = pkg
		}
		if opt["title"] {
			title = "Another"
			cfg.TitleName = title
		}
		if p.at {
			cfg.CuePath = cue.ParsePath("a.b")
		}
		if opt["typed"] {
			cfg.Assignee = dst.NewIdent("*" + strings.Title(name)) //nolint:staticcheck
			cfg.TargetSchemaVersion = lin.Latest().Version()
			if op.V != nil {
				cfg.TargetSchemaVersion = thema.SyntacticVersion(*op.V)
			}
		}
		if !opt["noembed"] {
			cfg.EmbedPath = "the.cue"
			cfg.LoadDir = "."
			cfg.CueModName = "verif.test/other/" + p.pkg
		}
		if cfg.LoadDir == "" || p.pkg == "" {
			cfg.LoadDir = ""
			left = "load"
		}
		b, err := gocode.GenerateLineageBinding(lin, cfg)
		if err != nil {
			return broken("fail", err.Error())
		}
		write(file, string(b))
	} else {
		args := common
		for _, o := range []string{"suffix", "private"} {
			if opt[o] {
				args = append(args, "--"+o)
			}
		}
		if opt["typed"] {
			args = append(args, "--bind-type", "*"+title)
		}
		switch {
		case opt["stdout"]:
			args, left = append(args, "--stdout"), "load"
		case opt["nofs"]:
			args, left = append(args, "--no-fs-func"), "load"
		case opt["noembed"]:
			args, left = append(args, "--no-embed"), "fs"
		}
		out, ok := gen("gobindings", args...)
		if !ok {
			return true
		}
		if opt["stdout"] {
			write(file, out)
		}
	}

	factory := "Lineage"
	if opt["suffix"] {
		factory += title
	}
	if opt["private"] {
		factory = "do" + factory
	}
	glue := fmt.Sprintf("package %s\n\nimport (\n\t_ \"embed\"\n\t\"github.com/grafana/thema\"\nIMPORTS)\n\nfunc Verif(rt *thema.Runtime) (thema.Lineage, thema.SyntacticVersion, error) {\n", pkg)
	if opt["typed"] {
		glue += fmt.Sprintf("\tl, err := %s(rt)\n\tif err != nil {\n\t\treturn nil, thema.SV(0, 0), err\n\t}\n\treturn l, l.TypedSchema().Version(), nil\n}\n", factory)
	} else {
		glue += fmt.Sprintf("\tl, err := %s(rt)\n\treturn l, thema.SV(0, 0), err\n}\n", factory)
	}
	base := p.pkg
	if base == "" {
		base = "_"
	}
	switch left {
	case "load":
		glue += fmt.Sprintf("\n//go:embed the.cue\nvar own embed.FS\n\nfunc loadInstanceFor%s() (*build.Instance, error) {\n\treturn load.InstanceWithThema(load.AsModFS(own, \"verif.test/other/one\"), \".\", load.Package(%q))\n}\n", name, base)
		glue = strings.Replace(glue, "IMPORTS", "\t\"embed\"\n\t\"cuelang.org/go/cue/build\"\n\t\"github.com/grafana/thema/load\"\n", 1)
	case "fs":
		glue += fmt.Sprintf("\n//go:embed the.cue\nvar own embed.FS\n\nfunc getThemaFSFor%s() fs.FS { return load.AsModFS(own, \"verif.test/%s\") }\n", name, strings.Replace(base, "_", "one", 1))
		glue = strings.Replace(glue, "IMPORTS", "\t\"embed\"\n\t\"io/fs\"\n\t\"github.com/grafana/thema/load\"\n", 1)
	}
	glue = strings.Replace(glue, "IMPORTS", "", 1)
	write(filepath.Join(there, "glue.go"), glue)
	path := "verif.test/app"
	if p.lin > 0 {
		path += "/" + steps[p.lin]
	}
	write(filepath.Join(root, "prog", "main.go"), strings.Replace(bindProgram, "PATH", path, 1))

	cmd := exec.Command("go", "build", "-ldflags", "-s -w", "-o", filepath.Join(root, "prog", "prog"), "./prog")
	cmd.Dir = root
	if out, err := cmd.CombinedOutput(); err != nil {
		if cmd.ProcessState == nil || !strings.Contains(string(out), ".go:") {
			panic("harness: " + string(out) + err.Error())
		}
		return broken("broken", string(out))
	}
	cmd = exec.Command(filepath.Join(root, "prog", "prog"))
	cmd.Dir = e.scratch()
	cmd.Stdin = strings.NewReader(op.D.JSON())
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() }) //nolint:errcheck
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		return broken("panic", msg.String())
	}
	var res struct {
		Err, Name string
		Vers, Acc [][]uint
		Typed     []uint
	}
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return broken("panic", out.String()+msg.String())
	}
	if res.Err != "" {
		return broken("unbound", res.Err)
	}
	ev["r"] = "ok"
	ev["name"], ev["tv"] = abs.Escape(res.Name), res.Typed
	ev["vers"], ev["acc"] = lists(res.Vers), lists(res.Acc)
	return true
}

func lists(vs [][]uint) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, v)
	}
	return r
}

const bindProgram = `package main

import (
	"encoding/json"
	"io"
	"os"

	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	"github.com/grafana/thema/vmux"

	bound "PATH"
)

func main() {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var res struct {
		Err, Name string
		Vers, Acc []thema.SyntacticVersion
		Typed     thema.SyntacticVersion
	}
	rt := thema.NewRuntime(cuecontext.New())
	lin, tv, err := bound.Verif(rt)
	if err != nil {
		res.Err = err.Error()
	} else {
		res.Name, res.Typed = lin.Name(), tv
		d, err := vmux.NewJSONCodec("x.json").Decode(rt.Context(), in)
		if err != nil {
			panic(err)
		}
		for s := lin.First(); s != nil; s = s.Successor() {
			res.Vers = append(res.Vers, s.Version())
			if _, err := s.Validate(d); err == nil {
				res.Acc = append(res.Acc, s.Version())
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
`
