package gen

import (
	"fmt"

	"verif/harness/abs"
	"verif/harness/run"
)

// Weights says how often each operation occurs in a history.
type Weights map[string]int

// OpOrder fixes the order in which weights are looked at.
var opOrder = []string{"validate", "any", "translate", "succ", "pred", "hydrate", "dehydrate", "observe", "reval", "nav", "lookup", "mux", "examples"}

// HistCfg says what kind of history to make.
type HistCfg struct {
	Lin  LinCfg
	W    Weights
	N    int  // operations
	Good int  // percentage of data that is meant to be valid
	Odd  bool // data may also be something else than an object
	In   []string
	Eq   bool // instances of one schema are also tried on others
	Mux  []string
}

// History makes a history of operations on one lineage.
func (g *G) History(id string, c HistCfg) *run.Scenario {
	s := &run.Scenario{ID: id}
	l := g.Lineage("lin", c.Lin)
	s.Ops = append(s.Ops, run.Op{E: "bind", L: "L", Lin: l})
	tot := 0
	for _, k := range opOrder {
		tot += c.W[k]
	}
	var hs []string
	ti := func(i int) *abs.Type { return abs.JoinOf(l.Join, l.Schemas[i].T) }
	data := func(i int) *abs.Data {
		if c.Odd && g.P(25) {
			return g.AnyData(2)
		}
		d := g.Sample(ti(i))
		if g.n(100) >= c.Good {
			d = g.Mutate(d)
			if g.P(4) {
				d = g.Mutate(d)
			}
		}
		return d
	}
	in := func() string {
		if len(c.In) == 0 {
			return "json"
		}
		return pick(g, c.In)
	}
	for n := 0; n < c.N; n++ {
		x := g.n(tot)
		e := ""
		for _, k := range opOrder {
			if x < c.W[k] {
				e = k
				break
			}
			x -= c.W[k]
		}
		op := run.Op{E: e, L: "L"}
		i := g.n(len(l.Schemas))
		v := l.Schemas[i].V
		newh := fmt.Sprintf("h%d", n)
		switch e {
		case "validate":
			op.V, op.In, op.H2 = &v, in(), newh
			op.D = data(i)
			if g.P(5) {
				op.D = data(g.n(len(l.Schemas)))
			}
			hs = append(hs, newh)
		case "any":
			op.In, op.D, op.H2 = in(), data(i), newh
			hs = append(hs, newh)
		case "translate":
			if len(hs) == 0 {
				n--
				if c.W["validate"] == 0 && c.W["any"] == 0 {
					return s
				}
				continue
			}
			op.H, op.V, op.H2 = recent(g, hs), &v, newh
			hs = append(hs, newh)
		case "succ", "pred", "hydrate", "dehydrate":
			if len(hs) == 0 {
				continue
			}
			op.H, op.H2 = recent(g, hs), newh
			hs = append(hs, newh)
		case "observe":
			if len(hs) == 0 {
				continue
			}
			op.H = pick(g, hs)
		case "reval":
			if len(hs) == 0 {
				continue
			}
			op.H, op.V = recent(g, hs), &v
		case "nav":
		case "lookup":
			w := abs.V{uint(g.n(7)), uint(g.n(6))}
			if g.P(2) {
				w = v
			}
			op.V = &w
		case "mux":
			op.V, op.D, op.K = &v, data(g.n(len(l.Schemas))), pick(g, c.Mux)
			op.In = pick(g, []string{"json", "json", "yaml"})
			if g.P(6) {
				op.In += pick(g, []string{"!junk", "!encode", "!cross"})
			}
		case "examples":
			op.V = &v
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func recent(g *G, hs []string) string {
	if len(hs) > 6 && g.P(2) {
		return hs[len(hs)-1-g.n(6)]
	}
	return pick(g, hs)
}
