package run

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/openapi"

	"verif/harness/abs"
)

func init() { ops["gotypes"] = opGoTypes }

// opGoTypes generates Go types from a schema, and reads them back.
func opGoTypes(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	cfg := config(e, "go "+op.K, op.In == "reuse", func() *gocode.TypeConfigOpenAPI {
		cfg := &gocode.TypeConfigOpenAPI{Config: &openapi.Config{}}
		for _, o := range strings.Fields(op.K) {
			switch o {
			case "flat":
				cfg.NoOptionalPointers = true
			case "root":
				cfg.Config.RootName = "Other"
			case "pkg":
				cfg.PackageName = "somewhere"
			case "group":
				cfg.Config.Group = true
			case "decl":
				cfg.UseGoDeclInComments = true
			case "none":
				cfg.Config = nil
			default:
				panic("harness: no such option " + o)
			}
		}
		return cfg
	})
	ev["flat"], ev["group"] = cfg.NoOptionalPointers, strings.Contains(op.K, "group")
	pkg := strings.ToLower(s.Lineage().Name())
	if strings.Contains(op.K, "pkg") {
		pkg = "somewhere"
	}
	var src []byte
	var err error
	if strings.HasPrefix(op.In, "cli ") {
		var args []string
		if cfg.PackageName != "" {
			args = []string{"--pkgname", cfg.PackageName}
		}
		src, err = e.generated(op, "gotypes", args...)
	} else {
		src, err = gocode.GenerateTypesOpenAPI(s, cfg)
	}
	if err != nil {
		fail(ev, err)
		return true
	}
	broken := func(err error) bool {
		ev["r"] = "broken"
		ev["msg"] = clip(err.Error())
		return true
	}
	gs, err := readGo(src)
	if err != nil {
		return broken(err)
	}
	ev["r"] = "ok"
	ev["pkgok"] = gs.pkg == pkg
	find := gs.find
	if !strings.Contains(op.K, "group") {
		n := s.Lineage().Name()
		if cfg.Config != nil && cfg.Config.RootName != "" {
			n = cfg.Config.RootName
		}
		ev["G"] = find(strings.Title(n)) //nolint:staticcheck
		return true
	}
	fs := map[string]any{}
	for n := range e.typeOf(op.L, *op.V).F {
		fs[n] = find(strings.Title(abs.Unescape(n))) //nolint:staticcheck
	}
	ev["fields"] = fs
	return true
}

// goSource is Go source that has types.
type goSource struct {
	pkg    string
	types  map[string]types.Type
	consts map[*types.TypeName][]string
}

func readGo(src []byte) (*goSource, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "types.go", src, 0)
	if err != nil {
		return nil, err
	}
	p, err := (&types.Config{}).Check(f.Name.Name, fset, []*ast.File{f}, nil)
	if err != nil {
		return nil, err
	}
	g := &goSource{pkg: f.Name.Name, types: map[string]types.Type{}, consts: map[*types.TypeName][]string{}}
	for _, n := range p.Scope().Names() {
		switch x := p.Scope().Lookup(n).(type) {
		case *types.Const:
			if t, is := x.Type().(*types.Named); is {
				g.consts[t.Obj()] = append(g.consts[t.Obj()], atomOf(x.Val()))
			}
		case *types.TypeName:
			g.types[n] = x.Type()
		}
	}
	return g, nil
}

// find describes the type of a name, however its letters are capitalised.
func (g *goSource) find(n string) map[string]any {
	var hit types.Type
	for m, t := range g.types {
		if m == n || hit == nil && strings.EqualFold(m, n) {
			hit = t
		}
	}
	if hit == nil {
		return map[string]any{"g": "missing"}
	}
	return goView(hit, g.consts, 0)
}

func atomOf(v constant.Value) string {
	switch v.Kind() {
	case constant.Bool:
		return "b:" + v.String()
	case constant.String:
		return "s:" + abs.Escape(constant.StringVal(v))
	}
	return "n:" + v.ExactString()
}

// goView describes a Go type: see GoTypes.tla.
func goView(t types.Type, consts map[*types.TypeName][]string, depth int) map[string]any {
	if depth > 20 {
		return map[string]any{"g": "endless"}
	}
	sub := func(t types.Type) map[string]any { return goView(t, consts, depth+1) }
	switch x := t.(type) {
	case *types.Named:
		m := goView(x.Underlying(), consts, depth+1)
		if cs := consts[x.Obj()]; cs != nil {
			sort.Strings(cs)
			m["cs"] = cs
		}
		return m
	case *types.Alias:
		return goView(types.Unalias(x), consts, depth)
	case *types.Basic:
		return map[string]any{"g": x.Name()}
	case *types.Interface:
		if x.Empty() {
			return map[string]any{"g": "any"}
		}
	case *types.Pointer:
		return map[string]any{"g": "ptr", "e": sub(x.Elem())}
	case *types.Slice:
		return map[string]any{"g": "slice", "e": sub(x.Elem())}
	case *types.Array:
		return map[string]any{"g": "array", "n": x.Len(), "e": sub(x.Elem())}
	case *types.Map:
		return map[string]any{"g": "map", "e": sub(x.Elem())}
	case *types.Struct:
		fs := map[string]any{}
		for i := 0; i < x.NumFields(); i++ {
			tag, _, _ := strings.Cut(reflect.StructTag(x.Tag(i)).Get("json"), ",")
			if tag == "" {
				tag = x.Field(i).Name()
			}
			n := abs.Escape(tag)
			for fs[n] != nil {
				n += "!" // two fields of the same name
			}
			fs[n] = map[string]any{"t": sub(x.Field(i).Type()), "oe": strings.Contains(reflect.StructTag(x.Tag(i)).Get("json"), ",omitempty")}
		}
		return map[string]any{"g": "struct", "f": fs}
	}
	return map[string]any{"g": "other"}
}

// typeOf is the abstract type of a schema.
func (e *Env) typeOf(lin string, v abs.V) *abs.Type {
	l := e.spec[lin]
	for _, s := range l.Schemas {
		if s.V == v {
			return abs.JoinOf(l.Join, s.T)
		}
	}
	panic("harness: no such schema")
}
