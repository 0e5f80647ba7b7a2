package gen

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/abs"
	"verif/harness/run"
)

func goB(n string) *abs.GoT { return &abs.GoT{G: n} }

var fitting = map[string][]string{
	"u8":  {"uint8", "uint16", "uint32", "uint64", "uint", "int16", "int32", "int64", "int"},
	"u16": {"uint16", "uint32", "uint64", "uint", "int32", "int64", "int"}, "u32": {"uint32", "uint64", "uint", "int64", "int"},
	"i8": {"int8", "int16", "int32", "int64", "int"}, "i16": {"int16", "int32", "int64", "int"}, "i32": {"int32", "int64", "int"},
}

// GoFor makes a Go type for a type; Natural ones are what one would write.
func (g *G) GoFor(t *abs.Type, natural bool) *abs.GoT {
	if !natural && g.P(20) {
		return goB("any")
	}
	switch t.K {
	case "b":
		switch t.N {
		case "str", "rex", "min1":
			return goB("string")
		case "bool":
			return goB("bool")
		}
		if f := fitting[t.N]; f != nil {
			if natural {
				// a list of uint8 would be bytes
				return goB(f[1])
			}
			return goB(pick(g, f))
		}
	case "e":
		k := ""
		for _, a := range t.S {
			x := a[:2]
			if strings.Contains(a, ".") {
				x = "f"
			}
			if k != "" && k != x {
				return goB("any")
			}
			k = x
		}
		switch k {
		case "s:":
			return goB("string")
		case "b:":
			return goB("bool")
		case "n:":
			return goB("int64")
		}
	case "df":
		return g.GoFor(t.T, natural)
	case "st":
		fs := abs.GoFs{}
		for _, k := range abs.SortedKeys(t.F) {
			f := t.F[k]
			ft := g.GoFor(f.T, natural)
			if (f.P == "o" || !natural && g.P(6)) && ft.G != "any" && (ft.G == "struct" || ft.G == "array" || !g.P(3)) {
				ft = &abs.GoT{G: "ptr", E: ft}
			}
			fs[k] = &abs.GoF{T: ft, OE: f.P == "o"}
		}
		return &abs.GoT{G: "struct", F: fs}
	case "ol":
		return &abs.GoT{G: "slice", E: g.GoFor(t.E, natural)}
	case "cl":
		for _, e := range t.Es {
			if e.CUE() != t.Es[0].CUE() {
				if natural || g.P(2) {
					return goB("any")
				}
				return &abs.GoT{G: "array", N: len(t.Es), E: g.GoFor(pick(g, t.Es), natural)}
			}
		}
		if len(t.Es) > 0 {
			return &abs.GoT{G: "array", N: len(t.Es), E: g.GoFor(t.Es[0], natural)}
		}
	}
	return goB("any")
}

var goNames = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float64", "any"}

// otherGo changes a Go type in one place.
func (g *G) otherGo(t *abs.GoT) *abs.GoT {
	c := *t
	switch t.G {
	case "struct":
		c.F = abs.GoFs{}
		for k, f := range t.F {
			x := *f
			c.F[k] = &x
		}
		ks := abs.SortedKeys(t.F)
		switch {
		case len(ks) == 0 || g.P(8):
			c.F[fmt.Sprintf("x%d", g.n(3))] = &abs.GoF{T: goB("string"), OE: g.P(2)}
		case g.P(8):
			delete(c.F, pick(g, ks))
		case g.P(20):
			return goB(pick(g, goNames))
		default:
			k := pick(g, ks)
			c.F[k].T = g.otherGo(c.F[k].T)
		}
		return &c
	case "slice":
		if g.P(3) {
			return &abs.GoT{G: "array", N: g.n(3), E: t.E}
		}
		c.E = g.otherGo(t.E)
		return &c
	case "array":
		switch g.n(4) {
		case 0:
			return &abs.GoT{G: "slice", E: t.E}
		case 1:
			c.N++
			return &c
		}
		c.E = g.otherGo(t.E)
		return &c
	case "ptr":
		if g.P(3) {
			return t.E
		}
		c.E = g.otherGo(t.E)
		return &c
	}
	if g.P(6) {
		return &abs.GoT{G: "slice", E: &c}
	}
	return goB(pick(g, goNames))
}

// assignProfile: Go types that fit a schema, and ones that do not quite.
func assignProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1+g.n(3), 4
	l := g.Lineage("lin", LinCfg{Min: 1, Max: 3, Join: true, Major: 50, NoLens: true})
	s.Ops = append(s.Ops, run.Op{E: "bind", L: "L", Lin: l})
	for _, x := range l.Schemas {
		t := abs.JoinOf(l.Join, x.T)
		if !abs.Taggable(t) {
			continue
		}
		v := x.V
		for k := 0; k < 14; k++ {
			G := g.GoFor(t, k < 2)
			if k > 4 {
				G = g.otherGo(G)
			}
			if g.P(3) {
				G = &abs.GoT{G: "ptr", E: G}
			}
			s.Ops = append(s.Ops, run.Op{E: "assign", L: "L", V: &v, G: G})
		}
	}
	return s
}

// goish replaces most types that Go has no type for.
func (g *G) goish(t *abs.Type) {
	switch t.K {
	case "b":
		switch t.N {
		case "int", "lt10", "pos", "num", "float":
			if !g.P(8) {
				t.N = pick(g, []string{"i32", "u16", "i8", "u32", "u8"})
			}
		case "si", "sib", "ns", "any", "null":
			if !g.P(5) {
				t.N = pick(g, []string{"str", "bool", "rex"})
			}
		}
	case "df":
		g.goish(t.T)
		t.DV = g.Sample(t.T)
	case "st":
		for _, k := range abs.SortedKeys(t.F) {
			g.goish(t.F[k].T)
			if f := t.F[k].T; (f.K == "mp" || f.K == "u" || f.K == "cl") && !g.P(3) {
				*f = *abs.St(abs.Fields{"b": abs.R(abs.Def(abs.B("str"), abs.Atom("s:bb"))), "c": abs.R(abs.B("i16")), "d": abs.O(abs.B("bool"))})
			}
		}
	case "ol":
		g.goish(t.E)
	case "cl":
		if len(t.Es) > 0 && !g.P(3) {
			g.goish(t.Es[0])
			for i := range t.Es {
				t.Es[i] = t.Es[0]
			}
		}
	}
}

// Statics writes Go types for random types down.
func Statics(n int, seed int64) string {
	var b strings.Builder
	b.WriteString("// Code generated by \"vh statics\". DO NOT EDIT.\n\npackage run\n\nfunc init() {\n\tStatics = []Static{\n")
	for i := 0; i < n; i++ {
		g := &G{R: rand.New(rand.NewSource(seed*1000 + int64(i))), Deep: 1 + i%3, MaxFields: 2 + i%5, Dflt: i%3 == 0}
		var t *abs.Type
		for {
			t = g.Struct(g.Deep, 1+g.n(g.MaxFields+1))
			g.goish(t)
			if len(t.F) > 0 && abs.Taggable(t) {
				break
			}
		}
		G := g.GoFor(t, true)
		tj, _ := json.Marshal(t)
		gj, _ := json.Marshal(G)
		fmt.Fprintf(&b, "\t\tstatic[%s](%q, %q),\n", G.Go(), tj, gj)
	}
	b.WriteString("\t}\n}\n")
	return b.String()
}

// typedProfile: a lineage with a schema that has a Go type, and everything
// that can be done with that.
var muxIn = []string{"json", "json", "yaml", "yaml", "json!junk", "yaml!junk", "json!cross", "json!encode"}

func typedProfile(g *G, id string, i int) *run.Scenario {
	g.Deep, g.MaxFields = 2, 3
	k := g.n(len(run.Statics))
	t := run.Statics[k].T
	l := &abs.Lin{Name: "lin", Skip: true}
	before, after := g.n(3), g.n(3)
	for j := 0; j < before; j++ {
		l.Schemas = append(l.Schemas, abs.Schema{T: g.Broken(t)})
	}
	l.Schemas = append(l.Schemas, abs.Schema{T: t})
	for j := 0; j < after; j++ {
		x := l.Schemas[len(l.Schemas)-1].T
		if g.P(2) {
			x = g.Broken(x)
		} else {
			x = g.Widened(x)
		}
		l.Schemas = append(l.Schemas, abs.Schema{T: x})
	}
	for j := range l.Schemas {
		l.Schemas[j].V = abs.V{uint(j), 0}
	}
	if g.P(4) {
		l.Join = &abs.Join{T: abs.St(abs.Fields{})}
	}
	g.AddLenses(l, LinCfg{Lac: 1, Go: g.P(4), Bad: []int{0, 0, 5}[g.n(3)]})
	s := &run.Scenario{ID: id, Ops: []run.Op{{E: "bind", L: "L", Lin: l}}}
	v := l.Schemas[before].V
	S := fmt.Sprint(k)
	s.Ops = append(s.Ops, run.Op{E: "bindtype", L: "L", V: &v, S: S})
	// other schemas may have the same Go type, or not
	for j := range l.Schemas {
		if j != before && g.P(2) {
			w := l.Schemas[j].V
			s.Ops = append(s.Ops, run.Op{E: "bindtype", L: "L", V: &w, S: S})
		}
	}
	if g.P(3) {
		s.Ops = append(s.Ops, run.Op{E: "bindtype", L: "L", V: &v, S: fmt.Sprint(g.n(len(run.Statics)))})
	}
	// a lineage that looks the same is another one
	twin := g.P(3)
	if twin {
		s.Ops = append(s.Ops, run.Op{E: "bind", L: "M", Lin: l})
	}
	data := func(j int) *abs.Data {
		d := g.Sample(l.Schemas[j].T)
		if g.P(5) {
			d = g.Mutate(d)
		}
		return d
	}
	var hs []string
	for n := 0; n < 16; n++ {
		h := fmt.Sprintf("h%d", n)
		j := before
		if g.P(4) {
			j = g.n(len(l.Schemas))
		}
		w := l.Schemas[j].V
		switch g.n(6) {
		case 0:
			s.Ops = append(s.Ops, run.Op{E: "vtyped", L: "L", V: &v, S: S, D: data(j), In: pick(g, allIn)})
		case 1:
			s.Ops = append(s.Ops, run.Op{E: "mux", L: "L", V: &v, S: S, D: data(g.n(len(l.Schemas))), K: "typed", In: pick(g, muxIn)})
		case 2, 3:
			s.Ops = append(s.Ops, run.Op{E: "mux", L: "L", V: &v, S: S, D: data(g.n(len(l.Schemas))), K: "value", In: pick(g, muxIn)})
		default:
			of := "L"
			if twin && g.P(3) {
				of = "M"
			}
			s.Ops = append(s.Ops, run.Op{E: "validate", L: of, V: &w, D: data(j), In: pick(g, allIn), H2: h})
			hs = append(hs, h)
			if g.P(3) {
				s.Ops = append(s.Ops, run.Op{E: "hydrate", L: of, H: h, H2: h + "y"})
				h += "y"
			} else if g.P(4) {
				s.Ops = append(s.Ops, run.Op{E: "translate", L: of, H: h, V: &v, H2: h + "t"})
				h += "t"
			}
			s.Ops = append(s.Ops, run.Op{E: "value", L: "L", V: &v, S: S, H: h}, run.Op{E: "observe", H: h})
		}
	}
	return s
}
