package gen

import (
	"fmt"

	"verif/harness/abs"
	"verif/harness/run"
)

// parProfile: several goroutines, on one runtime or each on its own.
func parProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1+g.n(3), 4
	all := Weights{"validate": 8, "any": 4, "translate": 8, "succ": 3, "pred": 3, "hydrate": 4, "dehydrate": 4, "observe": 8, "reval": 4, "nav": 2, "lookup": 2, "mux": 4}
	cfg := func(w Weights, n int) HistCfg {
		return HistCfg{
			Lin: LinCfg{Min: 1 + g.n(2), Max: 4, Bad: 10, Lac: 1, Join: true, Ex: true, Forms: g.P(3), Major: 45},
			W:   w,
			N:   n, Good: 80, In: allIn, Mux: uMux,
		}
	}
	ths := 2 + g.n(4)
	// own gives a goroutine a lineage of its own.
	own := func(p int, w Weights) []run.Op {
		h := g.History(id, cfg(w, 4+g.n(6)))
		for j := range h.Ops {
			o := &h.Ops[j]
			o.P = p
			if o.L != "" {
				o.L = fmt.Sprintf("L%d", p)
			}
			if o.H != "" {
				o.H = fmt.Sprintf("p%d%s", p, o.H)
			}
			if o.H2 != "" {
				o.H2 = fmt.Sprintf("p%d%s", p, o.H2)
			}
		}
		return h.Ops
	}
	if g.P(3) {
		return parTyped(g, id, ths)
	}
	if g.P(2) {
		for p := 1; p <= ths; p++ {
			s.Ops = append(s.Ops, run.Op{E: "fresh", P: p})
			s.Ops = append(s.Ops, own(p, all)...)
		}
		return s
	}
	// On one runtime, lineages are bound, data is validated and schemas are
	// looked up.
	some := Weights{"validate": 8, "any": 4, "translate": 8, "succ": 3, "pred": 3, "hydrate": 4, "dehydrate": 4, "nav": 2, "lookup": 2, "examples": 2}
	h := g.History(id, cfg(some, 5+ths*(3+g.n(5))))
	where := map[string]int{}
	for j := range h.Ops {
		o := h.Ops[j]
		if j > 5 {
			o.P = 1 + g.n(ths)
			if w := where[o.H]; w > 0 {
				o.P = w
			}
			where[o.H2] = o.P
			delete(where, "")
		}
		s.Ops = append(s.Ops, o)
	}
	for p := 1; p <= ths; p++ {
		if g.P(3) {
			s.Ops = append(s.Ops, own(p, some)...)
		}
	}
	// and afterwards all is as it was
	for j := range h.Ops {
		if o := h.Ops[j]; o.H2 != "" && g.P(2) {
			v := abs.V{0, 0}
			s.Ops = append(s.Ops, run.Op{E: "observe", L: "L", H: o.H2}, run.Op{E: "translate", L: "L", H: o.H2, V: &v, H2: "x" + o.H2})
		}
	}
	return s
}

// parTyped: goroutines that bind Go types to schemas of one lineage, and use them.
func parTyped(g *G, id string, ths int) *run.Scenario {
	k := g.n(len(run.Statics))
	t := run.Statics[k].T
	l := &abs.Lin{Name: "lin", Skip: true, Schemas: []abs.Schema{{V: abs.V{0, 0}, T: t}}}
	if g.P(2) {
		l.Schemas = append(l.Schemas, abs.Schema{V: abs.V{1, 0}, T: g.Broken(t)})
	}
	g.AddLenses(l, LinCfg{Lac: 1})
	s := &run.Scenario{ID: id, Ops: []run.Op{{E: "bind", L: "L", Lin: l}}}
	v, S := abs.V{0, 0}, fmt.Sprint(k)
	before := g.P(2)
	if before {
		s.Ops = append(s.Ops, run.Op{E: "bindtype", L: "L", V: &v, S: S})
	}
	var hs []string
	for n := 0; n < 3; n++ {
		h := fmt.Sprintf("h%d", n)
		s.Ops = append(s.Ops, run.Op{E: "validate", L: "L", V: &v, D: g.Sample(t), In: pick(g, allIn), H2: h})
		hs = append(hs, h)
	}
	for p := 1; p <= ths; p++ {
		if !before || g.P(3) {
			s.Ops = append(s.Ops, run.Op{E: "bindtype", L: "L", V: &v, S: S, P: p})
		}
		for n := 0; n < 2+g.n(5); n++ {
			j := g.n(len(l.Schemas))
			w := l.Schemas[j].V
			d := g.Sample(l.Schemas[j].T)
			if g.P(5) {
				d = g.Mutate(d)
			}
			switch g.n(6) {
			case 0:
				s.Ops = append(s.Ops, run.Op{E: "vtyped", L: "L", V: &v, S: S, D: d, In: pick(g, allIn), P: p})
			case 1:
				s.Ops = append(s.Ops, run.Op{E: "bindtype", L: "L", V: &w, S: fmt.Sprint(g.n(len(run.Statics))), P: p})
			case 2:
				s.Ops = append(s.Ops, run.Op{E: "assign", L: "L", V: &w, G: g.GoFor(t, true), P: p})
			case 3:
				s.Ops = append(s.Ops, run.Op{E: "validate", L: "L", V: &w, D: d, In: pick(g, allIn), H2: fmt.Sprintf("p%dn%d", p, n), P: p})
			case 4:
				s.Ops = append(s.Ops, run.Op{E: "translate", L: "L", H: pick(g, hs), V: &w, H2: fmt.Sprintf("p%dn%d", p, n), P: p})
			default:
				s.Ops = append(s.Ops, run.Op{E: "value", L: "L", V: &v, S: S, H: pick(g, hs), P: p})
			}
		}
	}
	for _, h := range hs {
		s.Ops = append(s.Ops, run.Op{E: "observe", L: "L", H: h}, run.Op{E: "value", L: "L", V: &v, S: S, H: h})
	}
	return s
}
