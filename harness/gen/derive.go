package gen

import (
	"strings"

	"verif/harness/abs"
	"verif/harness/run"
)

// Fill makes data with all required fields for a type.
func (g *G) fill(t *abs.Type) *abs.Data {
	o := g.All
	g.All = true
	d := g.Sample(t)
	g.All = o
	return d
}

// deriveProfile: documents for other tools that are derived from schemas.
func deriveProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1+g.n(3), 5
	if g.P(2) {
		g.Names = []string{"type", "example", "default", "items", "nullable", "properties", "required", "enum", "oneOf", "deprecated", "readOnly", "xml", "format", "additionalProperties"}
	}
	g.Nulls = g.P(3)
	reuse := g.P(3)
	g.derived(s, "lin", "L", reuse)
	if reuse {
		g.derived(s, "other", "M", reuse)
	}
	return s
}

func (g *G) derived(s *run.Scenario, name, L string, reuse bool) {
	l := g.Lineage(name, LinCfg{Min: 1, Max: 3, Join: true, Major: 50, NoLens: true, Forms: g.P(4)})
	s.Ops = append(s.Ops, run.Op{E: "bind", L: L, Lin: l})
	for _, x := range l.Schemas {
		t := abs.JoinOf(l.Join, x.T)
		v := x.V
		for k := 0; k < 12; k++ {
			d := g.fill(t)
			if k%4 >= 2 {
				d = g.Mutate(d)
			}
			op := run.Op{E: "derive", L: L, V: &v, K: pick(g, []string{"json", "json", "json", "openapi", "openapi", "group", "expand", "sub"}), D: d}
			if op.K == "openapi" && g.P(3) {
				op.S2 = "Root"
			}
			for n := range t.F {
				if op.K == "group" && !simple(n) {
					op.K = "json"
				}
			}
			if op.K == "sub" {
				at, p := t, []string{}
				for at.K == "st" && len(at.F) > 0 && (len(p) == 0 || g.P(2)) {
					n := pick(g, abs.SortedKeys(at.F))
					if !simple(n) {
						break
					}
					if g.P(10) {
						n = "nothere"
						p = append(p, n)
						break
					}
					p = append(p, n)
					at = at.F[n].T
				}
				if len(p) == 0 {
					op.K = "json"
				} else {
					op.S = strings.Join(p, "/")
					op.D = g.fill(at)
					if g.P(2) && op.D.K == 'm' {
						op.D = g.Mutate(op.D)
					} else if g.P(2) {
						op.D = g.AnyData(1)
					}
				}
			}
			if reuse && op.K != "json" {
				op.In = "reuse"
			}
			s.Ops = append(s.Ops, op)
		}
	}
}

func simple(n string) bool {
	for _, r := range n {
		if r < 'A' || r > 'z' || r > 'Z' && r < 'a' {
			return false
		}
	}
	return n != ""
}

// gotypesProfile: Go types that are generated from schemas.
func gotypesProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1+g.n(3), 5
	g.Plain, g.Words = g.P(2), !g.P(20)
	g.Names = []string{"snake_case", "snake_cases", "lowerUpper"}
	names := []string{"lin", "fooBar", "other"}
	g.R.Shuffle(3, func(i, j int) { names[i], names[j] = names[j], names[i] })
	in := ""
	if g.P(3) {
		in = "reuse"
		g.gotypes(s, names[1], "M", in)
	}
	g.gotypes(s, names[0], "L", in)
	return s
}

func (g *G) gotypes(s *run.Scenario, name, L, in string) {
	l := g.Lineage(name, LinCfg{Min: 1, Max: 3, Join: true, Major: 50, NoLens: true, Forms: g.P(4)})
	s.Ops = append(s.Ops, run.Op{E: "bind", L: L, Lin: l})
	for _, x := range l.Schemas {
		t := abs.JoinOf(l.Join, x.T)
		v := x.V
		plain := true
		for n := range t.F {
			plain = plain && simple(n)
		}
		for k := 0; k < 3; k++ {
			o := []string{"", "flat", "root", "none", "pkg", "decl flat", "decl"}[g.n(7)]
			if plain && o != "none" && g.P(3) {
				o += " group"
			}
			s.Ops = append(s.Ops, run.Op{E: "gotypes", L: L, V: &v, K: o, In: in})
		}
	}
}

// tstypesProfile: TypeScript types that are generated from schemas.
func tstypesProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1+g.n(3), 5
	g.Plain, g.Words = true, !g.P(20)
	names := []string{"lin", "other", "fooBar"}
	g.R.Shuffle(3, func(i, j int) { names[i], names[j] = names[j], names[i] })
	for li := 0; li < 2; li++ {
		l := g.Lineage(names[li], LinCfg{Min: 1, Max: 2, Join: true, Major: 50, NoLens: true})
		attrs := l.Form == "" && g.P(3)
		L := "L" + names[li]
		if attrs {
			l.Form = "attrs"
		}
		s.Ops = append(s.Ops, run.Op{E: "bind", L: L, Lin: l})
		for _, x := range l.Schemas {
			t := abs.JoinOf(l.Join, x.T)
			v := x.V
			o := pick(g, []string{"", "none", "root", "alias", "root alias", "reuse", "root reuse", "alias reuse"})
			if attrs && g.P(2) {
				o = "group"
			}
			for k := 0; k < 4; k++ {
				op := run.Op{E: "tstypes", L: L, V: &v, K: o}
				at := t
				if attrs && (o == "group" || g.P(3)) {
					for _, n := range abs.SortedKeys(x.T.F) {
						if f := t.F[n]; f.T.K == "st" && g.P(2) {
							op.S, at = n, f.T
						}
					}
				}
				op.D = g.fill(at)
				if k%2 == 1 {
					op.D = g.Mutate(op.D)
				}
				s.Ops = append(s.Ops, op)
			}
		}
	}
	return s
}
