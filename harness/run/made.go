package run

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	"cuelang.org/go/cue/format"
	"cuelang.org/go/cue/parser"
	tcue "github.com/grafana/thema/encoding/cue"

	"verif/harness/abs"
)

// legacy lists ways to write down a lineage of the old form.
var legacy = map[string]string{
	"old-embed": modfile + "-- lin.cue\npackage lin\n" + themaImport + "thema.#Lineage\nBODY",
	"old-basic": modfile + "-- lin.cue\npackage lin\nIMPORTSBODY",
	"old-path":  modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage\nlin: {\nBODY}\n",
	"old-bare":  modfile + "-- at a.b\n-- lin.cue\npackage lin\nIMPORTSa: b: {\nBODY}\n",
	"old-amp":   modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage & {\nBODY}\n",
	"old-rev":   modfile + "-- at lin\n-- lin.cue\npackage lin\n" + themaImport + "lin: {\nBODY} & thema.#Lineage\n",
	"old-deep":  modfile + "-- at a.lin\n-- lin.cue\npackage lin\n" + themaImport + "a: lin: thema.#Lineage & {\nBODY}\na: other: 3\n",
	"old-files": modfile + "-- at lin\n-- a.cue\npackage lin\nother: 3\n-- lin.cue\npackage lin\n" + themaImport + "lin: thema.#Lineage & {\nBODY}\n-- z.cue\npackage lin\nmore: other\n",
}

// MadeForms lists the ways in which a lineage is made by Thema itself.
func MadeForms() (old, fresh []string) {
	for f := range legacy {
		old = append(old, f, f+" cli")
	}
	sort.Strings(old)
	return old, []string{"new", "new-nopkg"}
}

// InitForms lists the ways in which a lineage is made on the command line.
func InitForms() []string {
	return []string{"new-json", "new-json nopkg", "new-json pkg", "new-json stdin", "new-json stdin pkg", "new-openapi", "new-openapi nopkg", "new-openapi pkg", "new-openapi yaml", "new-openapi stdin", "new-openapi stdin yaml"}
}

// initialized has a lineage made on the command line.
func (e *Env) initialized(l *abs.Lin, form []string) ([]byte, error) {
	root, err := os.MkdirTemp(e.scratch(), "new-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(root) //nolint:errcheck
	args := []string{"lineage", "init", strings.TrimPrefix(form[0], "new-"), "--name", abs.Unescape(l.Name)}
	if args[2] == "json" {
		args[2] += "schema"
	}
	doc := l.Schemas[0].T.JSONSchema()
	file := "in.json"
	if form[0] == "new-openapi" {
		doc = `{"openapi": "3.0.0", "info": {"title": "t", "version": "1.0"}, "paths": {}, "components": {"schemas": {"It": ` + doc + `, "Other": {"type": "string"}}}}`
		args = append(args, "--src-subpath", "#It")
	}
	stdin, want := false, abs.Unescape(l.Name)
	for _, o := range form[1:] {
		switch o {
		case "nopkg":
			args, want = append(args, "--no-package"), ""
		case "pkg":
			args, want = append(args, "--package-name", "other"), "other"
		case "yaml":
			// all JSON is YAML
			file = "in.yaml"
		case "stdin":
			stdin = true
		}
	}
	st := stored{root: root, cd: "."}
	file = filepath.Join(root, file)
	write(file, doc)
	var in *os.File
	if stdin {
		if in, err = os.Open(file); err != nil {
			panic("harness: " + err.Error())
		}
		defer in.Close() //nolint:errcheck
	} else if form[0] != "new-empty" {
		st.args = []string{file}
	}
	out, msg, code := e.themaCmd(st, false, args, in)
	if code == 1 {
		return nil, errors.New(msg)
	}
	if code != 0 {
		panic(fmt.Sprintf("exit %d: %s", code, msg))
	}
	f, err := parser.ParseFile("lin.cue", out)
	if err != nil {
		return nil, err
	}
	if f.PackageName() != want {
		return nil, fmt.Errorf("package is called %q", f.PackageName())
	}
	if want == "" {
		out = "package lin\n" + out
	} else {
		out = strings.Replace(out, "package "+want, "package lin", 1)
	}
	return []byte(out), nil
}

// made has Thema make a lineage, and reads back what it wrote.
func (e *Env) made(l *abs.Lin, ev Event) (cue.Value, error) {
	form := strings.Fields(l.Form)
	cli := len(form) > 1
	var p *pack
	if src, ok := legacy[form[0]]; ok {
		body, imp := l.Legacy(), ""
		if abs.NeedsStrings(body) {
			imp = "import \"strings\"\n"
		}
		p = unpack(strings.NewReplacer("BODY", body, "IMPORTS", imp).Replace(src))
		if err := e.rewrite(p, cli); err != nil {
			return cue.Value{}, err
		}
		text, err := inspect(p.fs["lin.cue"].Data, l, ev)
		if err != nil {
			return cue.Value{}, err
		}
		p.fs["lin.cue"].Data = text
	} else if form[0] == "new-json" || form[0] == "new-openapi" || form[0] == "new-empty" {
		b, err := e.initialized(l, form)
		if err != nil {
			return cue.Value{}, err
		}
		p = unpack(modfile)
		p.fs["lin.cue"] = &fstest.MapFile{Data: b}
	} else {
		src := l.Schemas[0].T.CUE()
		if abs.NeedsStrings(src) {
			src = "import \"strings\"\n" + src
		}
		pkg := "lin"
		if form[0] == "new-nopkg" {
			pkg = ""
		}
		f, err := tcue.NewLineage(e.Ctx.CompileString(src), abs.Unescape(l.Name), pkg)
		if err != nil {
			return cue.Value{}, err
		}
		b, err := format.Node(f)
		if err != nil {
			return cue.Value{}, err
		}
		if form[0] == "new-nopkg" {
			b = append([]byte("package lin\n"), b...)
		}
		p = unpack(modfile)
		p.fs["lin.cue"] = &fstest.MapFile{Data: b}
	}
	bi, err := p.load()
	if err != nil {
		return cue.Value{}, err
	}
	v := p.value(e.Ctx.BuildInstance(bi))
	return v, v.Err()
}

// rewrite has the lineage rewritten.
func (e *Env) rewrite(p *pack, cli bool) error {
	if !cli {
		bi, err := p.load()
		if err != nil {
			return err
		}
		f, err := tcue.RewriteLegacyLineage(e.Ctx.BuildInstance(bi), cue.ParsePath(p.at))
		if err != nil {
			return err
		}
		if filepath.Base(f.Filename) != "lin.cue" {
			return fmt.Errorf("file %s was rewritten", f.Filename)
		}
		b, err := format.Node(f)
		p.fs["lin.cue"].Data = b
		return err
	}
	root, err := os.MkdirTemp(e.scratch(), "old-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(root) //nolint:errcheck
	for n, f := range p.fs {
		write(filepath.Join(root, n), string(f.Data))
	}
	st := stored{root: root, cd: ".", args: []string{"-l", root}}
	if p.at != "" {
		st.args = append(st.args, "-p", p.at)
	}
	_, msg, code := e.themaCmd(st, false, []string{"lineage", "fix"}, nil)
	if code == 1 {
		return errors.New(msg)
	}
	if code != 0 {
		panic(fmt.Sprintf("exit %d: %s", code, msg))
	}
	for n, f := range p.fs {
		b, err := os.ReadFile(filepath.Join(root, n))
		if err != nil {
			return err
		}
		if n != "lin.cue" && string(b) != string(f.Data) {
			return fmt.Errorf("file %s was changed", n)
		}
		f.Data = b
	}
	return nil
}

// inspect records the versions and lenses of a lineage as it was rewritten,
// and does what is left to be done by hand: writing the lenses that the old
// form had no place for.
func inspect(text []byte, l *abs.Lin, ev Event) ([]byte, error) {
	f, err := parser.ParseFile("lin.cue", text, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	version := func(x ast.Expr) []string {
		out := []string{}
		if ll, ok := x.(*ast.ListLit); ok {
			for _, y := range ll.Elts {
				if b, ok := y.(*ast.BasicLit); ok {
					out = append(out, b.Value)
				}
			}
		}
		return out
	}
	field := func(x ast.Expr, name string) *ast.Field {
		if s, ok := x.(*ast.StructLit); ok {
			for _, d := range s.Elts {
				if fl, ok := d.(*ast.Field); ok {
					if n, _, err := ast.LabelName(fl.Label); err == nil && n == name {
						return fl
					}
				}
			}
		}
		return &ast.Field{}
	}
	vers, lens := []any{}, []any{}
	ast.Walk(f, func(n ast.Node) bool {
		fl, ok := n.(*ast.Field)
		if !ok {
			return true
		}
		name, _, _ := ast.LabelName(fl.Label)
		ll, ok := fl.Value.(*ast.ListLit)
		if !ok || name != "schemas" && name != "lenses" {
			return true
		}
		for _, x := range ll.Elts {
			if name == "schemas" {
				vers = append(vers, version(field(x, "version").Value))
				continue
			}
			from, to, res := version(field(x, "from").Value), version(field(x, "to").Value), field(x, "result")
			todo := false
			if s, ok := res.Value.(*ast.StructLit); ok && len(s.Elts) == 1 {
				if em, ok := s.Elts[0].(*ast.EmbedDecl); ok {
					_, todo = em.Expr.(*ast.BottomLit)
				}
			}
			lens = append(lens, map[string]any{"from": from, "to": to, "todo": todo})
			for _, y := range l.Lenses {
				if todo && strings.Join(from, ".") == y.From.Dotted() && strings.Join(to, ".") == y.To.Dotted() {
					// by hand
					res.Value, _ = parser.ParseExpr("lens.cue", y.LensResult())
				}
			}
		}
		return false
	}, nil)
	ev["made"] = map[string]any{"vers": vers, "lens": lens}
	return format.Node(f)
}
