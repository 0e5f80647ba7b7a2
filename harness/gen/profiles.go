package gen

import (
	"fmt"
	"hash/fnv"
	"math/rand"

	"verif/harness/abs"
	"verif/harness/run"
)

// Profile makes the i-th scenario of a kind.
type Profile func(g *G, id string, i int) *run.Scenario

var allIn = []string{"json", "json", "yaml", "cue", "go"}
var uMux = []string{"untyped", "byte"}

func hist(c HistCfg, tweak func(g *G, c *HistCfg)) Profile {
	return func(g *G, id string, i int) *run.Scenario {
		c := c
		if tweak != nil {
			tweak(g, &c)
		}
		return g.History(id, c)
	}
}

var Profiles = map[string]Profile{
	// everything at once
	"core": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 6, Bad: 8, Lac: 2, Join: true, Ex: true, Forms: true, Major: 45},
		W:   Weights{"validate": 20, "any": 6, "translate": 14, "succ": 5, "pred": 5, "hydrate": 5, "dehydrate": 5, "observe": 4, "reval": 3, "nav": 1, "lookup": 2, "mux": 6, "examples": 1},
		N:   30, Good: 75, In: allIn, Mux: uMux,
	}, func(g *G, c *HistCfg) { c.Lin.Go = g.P(4) }),
	// which data is accepted, and what is said about data that is not
	"validate": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 3, Join: true, Forms: true, Major: 50, NoLens: true},
		W:   Weights{"validate": 10, "observe": 1}, N: 24, Good: 35, In: allIn, Odd: true,
	}, func(g *G, c *HistCfg) {
		g.Deep, g.MaxFields, g.Long = 4, 5, 8
		if g.P(6) {
			// wide
			g.Deep, g.MaxFields = 2, 25
		}
	}),
	// which version untagged data is attributed to
	"any": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 8, Join: true, Major: 35, NoLens: true},
		W:   Weights{"any": 10, "validate": 2, "observe": 1}, N: 24, Good: 75, In: allIn, Odd: true,
	}, func(g *G, c *HistCfg) { g.Deep, g.MaxFields = 2, 3 }),
	// data of older versions stays acceptable within a major version
	"backward": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 6, Join: true, Major: 10, NoLens: true},
		W:   Weights{"validate": 8, "hydrate": 6, "reval": 12, "any": 1}, N: 28, Good: 95, In: allIn,
	}, nil),
	// translation with lenses in CUE
	"translate": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 7, Join: true, Forms: true, Major: 55},
		W:   Weights{"validate": 9, "any": 1, "translate": 14, "succ": 3, "pred": 3, "observe": 2}, N: 22, Good: 98, In: allIn,
	}, nil),
	"badlens": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 4, Bad: 2, Lac: 1, Join: true, Major: 55},
		W:   Weights{"validate": 9, "translate": 12, "succ": 5, "pred": 5, "observe": 1, "mux": 3}, N: 22, Good: 98, In: allIn, Mux: uMux,
	}, func(g *G, c *HistCfg) { c.Lin.Go = g.P(3); g.Deep, g.MaxFields = 2, 3 }),
	"lacunas": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 7, Lac: 4, Join: true, Major: 55},
		W:   Weights{"validate": 9, "translate": 16, "succ": 3, "pred": 3, "mux": 4}, N: 18, Good: 99, In: allIn, Mux: uMux,
	}, func(g *G, c *HistCfg) { g.Plain, g.Deep, g.MaxFields = true, 2, 3 }),
	"golens": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 7, Go: true, Join: true, Forms: true, Major: 50},
		W:   Weights{"validate": 9, "translate": 14, "succ": 3, "pred": 3, "observe": 2, "mux": 2}, N: 24, Good: 97, In: allIn, Mux: uMux,
	}, func(g *G, c *HistCfg) { c.Lin.Bad = []int{0, 5}[g.n(2)] }),
	"nav": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 14, Major: 40, NoLens: true, Forms: true},
		W:   Weights{"nav": 2, "lookup": 10}, N: 14,
	}, func(g *G, c *HistCfg) {
		g.Deep, g.MaxFields = 1, 2
		c.Lin.Major = g.n(100)
		if g.P(8) {
			c.Lin.Min, c.Lin.Max, c.Lin.Major, c.Lin.Steady = 13, 30, g.n(12), true
			if g.P(3) {
				c.Lin.Major = 90
			}
		}
	}),
	"hydrate": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 3, Join: true, Major: 50},
		W:   Weights{"validate": 8, "hydrate": 10, "dehydrate": 10, "observe": 2, "reval": 2, "translate": 2}, N: 30, Good: 98, In: allIn,
	}, func(g *G, c *HistCfg) { g.Dflt = true; g.Deep, g.MaxFields, g.Long = 4, 5, 20 }),
	"mux": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 5, Lac: 1, Join: true, Forms: true, Major: 45},
		W:   Weights{"mux": 10, "observe": 0}, N: 16, Good: 75, Mux: uMux,
	}, func(g *G, c *HistCfg) {
		c.Lin.Go = g.P(3)
		c.Lin.Bad = []int{0, 0, 4}[g.n(3)]
		g.Deep, g.MaxFields = 2, 3
	}),
	"examples": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 5, Join: true, Ex: true, Forms: true, Major: 45, NoLens: true},
		W:   Weights{"examples": 8, "validate": 1}, N: 9, Good: 90, In: allIn,
	}, nil),
	"forms": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 5, Lac: 1, Join: true, Ex: true, Forms: true, Major: 45, AllForms: true},
		W:   Weights{"validate": 9, "any": 3, "translate": 8, "hydrate": 3, "nav": 1, "lookup": 2, "examples": 1}, N: 14, Good: 80, In: allIn,
	}, func(g *G, c *HistCfg) { g.Deep, g.MaxFields = 2, 3 }),
	// lineages that Thema wrote itself
	"made": hist(HistCfg{
		Lin: LinCfg{Min: 1, Max: 6, Lac: 1, Join: true, Major: 60, Made: true},
		W:   Weights{"validate": 9, "any": 2, "translate": 10, "hydrate": 2, "nav": 1, "lookup": 1}, N: 14, Good: 80, In: allIn,
	}, func(g *G, c *HistCfg) {
		g.Deep, g.MaxFields = 2, 3
		c.Lin.Bad = 0
		if g.P(3) {
			c.Lin.Min, c.Lin.Max, c.Lin.Join = 1, 1, false
			g.Deep, g.MaxFields = 3, 5
		}
	}),
	// long histories that come back to the same instances again and again
	"history": hist(HistCfg{
		Lin: LinCfg{Min: 2, Max: 5, Bad: 10, Lac: 1, Join: true, Ex: true, Major: 45},
		W:   Weights{"validate": 10, "any": 3, "translate": 14, "succ": 5, "pred": 5, "hydrate": 6, "dehydrate": 6, "observe": 20, "reval": 4, "nav": 1, "lookup": 1, "mux": 5, "examples": 1},
		N:   120, Good: 85, In: allIn, Mux: uMux,
	}, func(g *G, c *HistCfg) { c.Lin.Go = g.P(3); g.Deep, g.MaxFields = 3, 4 }),
	"compat":    compatProfile,
	"numbering": numberingProfile,
	"append":    appendProfile,
	"goset":     gosetProfile,
	"lensorder": lensorderProfile,
	"assign":    assignProfile,
	"typed":     typedProfile,
	"derive":    deriveProfile,
	"gotypes":   gotypesProfile,
	"tstypes":   tstypesProfile,
	"par":       parProfile,
	"cli":       cliProfile,
	"gobind":    gobindProfile,
	"load":      loadProfile,
	"version":   versionProfile,
}

// Make makes the i-th scenario of a profile for a seed.
func Make(profile string, seed int64, i int) *run.Scenario {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", profile, seed, i)
	g := &G{R: rand.New(rand.NewSource(int64(h.Sum64()))), Nulls: h.Sum64()%4 == 1, Deep: 3, MaxFields: 4}
	return Profiles[profile](g, fmt.Sprintf("%s-%d-%d", profile, seed, i), i)
}

// compatProfile: pairs of schemas, each numbered as a minor and as a major
// change, somewhere in a lineage.
func compatProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	if g.P(2) {
		g.Deep, g.MaxFields = 2, 3
	}
	for k := 0; k < 6; k++ {
		c := LinCfg{Min: 1, Max: 4, Join: g.P(4), Major: 50, NoLens: true}
		if g.P(3) {
			// several minor versions, each with something new that may change later
			c.Min, c.Max, c.Major, c.Steady = 3, 8, 8, true
		}
		l := g.Lineage("lin", c)
		last := l.Schemas[len(l.Schemas)-1]
		var t *abs.Type
		switch g.n(6) {
		case 0, 1:
			t = g.Widened(last.T)
		case 2, 3:
			t = g.Broken(last.T)
		case 4:
			t = last.T
		default:
			// the other way around
			t = last.T
			prev := g.Widened(t)
			if g.P(2) {
				prev = g.Broken(t)
			}
			l.Schemas = l.Schemas[:1]
			l.Schemas[0] = abs.Schema{V: abs.V{0, 0}, T: prev}
			last = l.Schemas[0]
		}
		if l.Join != nil {
			t = cloneT(t)
			delete(t.F, "kind")
			delete(t.F, "opt")
			for j := range l.Schemas {
				l.Schemas[j].T = cloneT(l.Schemas[j].T)
				delete(l.Schemas[j].T.F, "kind")
				delete(l.Schemas[j].T.F, "opt")
			}
		}
		for _, v := range []abs.V{{last.V[0], last.V[1] + 1}, {last.V[0] + 1, 0}} {
			c := *l
			c.Schemas = append(append([]abs.Schema{}, l.Schemas...), abs.Schema{V: v, T: t})
			s.Ops = append(s.Ops, run.Op{E: "bind", L: fmt.Sprintf("L%d%d", k, v[0]), Lin: &c})
		}
		if g.P(5) {
			c := *l
			c.Skip = true
			v := abs.V{last.V[0], last.V[1] + 1}
			if g.P(2) {
				v = abs.V{last.V[0] + 1, 0}
			}
			c.Schemas = append(append([]abs.Schema{}, l.Schemas...), abs.Schema{V: v, T: t})
			s.Ops = append(s.Ops, run.Op{E: "bind", L: fmt.Sprintf("S%d", k), Lin: &c})
		}
	}
	return s
}

// numberingProfile: correct lineages in which one version number is off.
func numberingProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1, 2
	for k := 0; k < 8; k++ {
		c := LinCfg{Min: 1, Max: 9, Major: g.n(100), NoLens: true, Forms: true}
		if k == 0 && g.P(4) {
			// long, so that there are versions with more than one digit
			c = LinCfg{Min: 13, Max: 30, Major: g.n(12), NoLens: true, Steady: true}
			if g.P(3) {
				c.Major = 90
			}
		}
		l := g.Lineage("lin", c)
		l.Skip = g.P(4)
		switch g.n(6) {
		case 0:
		case 1:
			j := g.n(len(l.Schemas))
			l.Schemas[j].V[1] += uint(1 + g.n(3))
		case 2:
			j := g.n(len(l.Schemas))
			l.Schemas[j].V[0] += uint(1 + g.n(2))
		case 3: // shift everything from some point on
			j := g.n(len(l.Schemas))
			for x := j; x < len(l.Schemas); x++ {
				l.Schemas[x].V[0]++
			}
		case 4: // remove one
			if len(l.Schemas) > 1 {
				j := g.n(len(l.Schemas))
				l.Schemas = append(l.Schemas[:j:j], l.Schemas[j+1:]...)
			}
		case 5: // swap or repeat
			j, x := g.n(len(l.Schemas)), g.n(len(l.Schemas))
			if g.P(2) {
				l.Schemas[j].V, l.Schemas[x].V = l.Schemas[x].V, l.Schemas[j].V
			} else {
				l.Schemas[j].V = l.Schemas[x].V
			}
		}
		L := fmt.Sprintf("L%d", k)
		s.Ops = append(s.Ops, run.Op{E: "bind", L: L, Lin: l}, run.Op{E: "nav", L: L})
	}
	return s
}

// appendProfile: a lineage and what became of it.
func appendProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 2+g.n(2), 3
	l := g.Lineage("lin", LinCfg{Min: 1, Max: 5, Major: 50, NoLens: true, Join: true})
	s.Ops = append(s.Ops, run.Op{E: "bind", L: "L", Lin: l})
	for k := 0; k < 5; k++ {
		c := *l
		c.Schemas = append([]abs.Schema{}, l.Schemas...)
		switch g.n(6) {
		case 0: // the same, written down anew
		case 1, 2: // schemas added
			for x := g.n(3); x >= 0; x-- {
				last := c.Schemas[len(c.Schemas)-1]
				if g.P(2) || !steady(last.T) {
					c.Schemas = append(c.Schemas, abs.Schema{V: abs.V{last.V[0] + 1, 0}, T: g.Broken(last.T)})
				} else {
					c.Schemas = append(c.Schemas, abs.Schema{V: abs.V{last.V[0], last.V[1] + 1}, T: g.Widened(last.T)})
				}
			}
		case 3: // schemas taken away
			if len(c.Schemas) > 1 {
				c.Schemas = c.Schemas[:1+g.n(len(c.Schemas)-1)]
			}
		case 4, 5: // one changed
			j := g.n(len(c.Schemas))
			if g.P(2) {
				c.Schemas[j].T = g.Widened(c.Schemas[j].T)
			} else {
				c.Schemas[j].T = g.Broken(c.Schemas[j].T)
			}
			c.Skip = true
			if g.P(2) {
				last := c.Schemas[len(c.Schemas)-1]
				c.Schemas = append(c.Schemas, abs.Schema{V: abs.V{last.V[0] + 1, 0}, T: g.Broken(last.T)})
			}
		}
		if g.P(8) {
			// another joinSchema
			c.Skip = true
			switch {
			case l.Join == nil:
				c.Join = &abs.Join{T: abs.St(abs.Fields{g.fresh(c.Schemas[0].T): abs.O(g.Scalar())})}
			case g.P(2):
				c.Join = nil
			default:
				c.Join = &abs.Join{T: g.Widened(l.Join.T)}
			}
			for j := range c.Schemas {
				c.Schemas[j].T = cloneT(c.Schemas[j].T)
				if c.Join != nil {
					for k := range c.Join.T.F {
						delete(c.Schemas[j].T.F, k)
					}
				}
			}
		}
		if g.P(5) && len(c.Schemas) > 1 {
			// another version number for the same schema, from some point on
			j := 1 + g.n(len(c.Schemas)-1)
			v := c.Schemas[j].V
			d := abs.V{c.Schemas[j-1].V[0], c.Schemas[j-1].V[1] + 1}
			if v == d {
				d = abs.V{c.Schemas[j-1].V[0] + 1, 0}
			}
			for x := j; x < len(c.Schemas); x++ {
				w := c.Schemas[x].V
				if w[0] == v[0] {
					c.Schemas[x].V = abs.V{d[0], d[1] + w[1] - v[1]}
				} else {
					c.Schemas[x].V = abs.V{d[0] + w[0] - v[0], w[1]}
				}
			}
			c.Skip = true
		}
		L := fmt.Sprintf("M%d", k)
		s.Ops = append(s.Ops, run.Op{E: "bind", L: L, Lin: &c},
			run.Op{E: "append", L: "L", L2: L}, run.Op{E: "append", L: L, L2: "L"})
	}
	return s
}

// gosetProfile: sets of lenses in Go that are not quite right.
func gosetProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1, 2
	for k := 0; k < 6; k++ {
		l := g.Lineage("lin", LinCfg{Min: 1, Max: 6, Major: 50, Go: true})
		vs := []abs.V{{9, 9}, {0, 7}}
		for _, x := range l.Schemas {
			vs = append(vs, x.V)
		}
		switch g.n(7) {
		case 0:
		case 1, 2:
			if len(l.GL) > 0 {
				j := g.n(len(l.GL))
				l.GL = append(l.GL[:j:j], l.GL[j+1:]...)
			}
		case 3, 4:
			l.GL = append(l.GL, abs.GoLens{From: pick(g, vs), To: pick(g, vs), Beh: "ok", Map: abs.Map{}})
		case 5:
			if len(l.GL) > 0 {
				l.GL = append(l.GL, pick(g, l.GL))
			}
		case 6:
			if len(l.GL) > 0 {
				l.GL[g.n(len(l.GL))].Beh = "nilfn"
			}
		}
		g.R.Shuffle(len(l.GL), func(i, j int) { l.GL[i], l.GL[j] = l.GL[j], l.GL[i] })
		s.Ops = append(s.Ops, run.Op{E: "bind", L: fmt.Sprintf("L%d", k), Lin: l})
	}
	return s
}

// lensorderProfile: lenses in CUE, listed in the right order and in others.
func lensorderProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 1, 2
	for k := 0; k < 6; k++ {
		c := LinCfg{Min: 2, Max: 7, Major: g.n(100), Lac: 1, Join: true, Forms: true}
		if g.P(6) {
			c.Min, c.Max, c.Steady = 12, 14, true
		}
		l := g.Lineage("lin", c)
		n := len(l.Lenses)
		switch x := g.n(6); {
		case n < 2:
		case x == 0, x == 1:
		case x == 2:
			// two neighbours
			j := g.n(n - 1)
			l.Lenses[j], l.Lenses[j+1] = l.Lenses[j+1], l.Lenses[j]
		case x == 3:
			// the last one, or another, first
			j := n - 1 - g.n(2)
			m := l.Lenses[j]
			copy(l.Lenses[1:j+1], l.Lenses[:j])
			l.Lenses[0] = m
		case x == 4:
			i, j := g.n(n), g.n(n)
			l.Lenses[i], l.Lenses[j] = l.Lenses[j], l.Lenses[i]
		default:
			g.R.Shuffle(n, func(i, j int) { l.Lenses[i], l.Lenses[j] = l.Lenses[j], l.Lenses[i] })
		}
		L := fmt.Sprintf("L%d", k)
		s.Ops = append(s.Ops, run.Op{E: "bind", L: L, Lin: l})
	}
	return s
}

// versionProfile: versions as text, right and not quite right, and their order.
func versionProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	num := func() string {
		n := ""
		for k := 1 + g.n(pick(g, []int{1, 2, 3, 10})); k > 0; k-- {
			n += string(rune('0' + g.n(10)))
		}
		for len(n) > 1 && n[0] == '0' && !g.P(10) {
			n = n[1:]
		}
		return n
	}
	ver := func() string { return num() + "." + num() }
	odd := []string{"+", "-", " ", "_", "v", "x", "e", ".", ",", "0x", "0b", "\t", "\n", "٣", "½", "", "\x00", "1_0", "'", "/", "1e1", "~", "*", "alpha"}
	for k := 0; k < 40; k++ {
		if g.P(3) {
			clean := func() string {
				a, b := fmt.Sprint(g.n(1<<uint(1+g.n(40)))), fmt.Sprint(g.n(1<<uint(1+g.n(40))))
				return a + "." + b
			}
			op := run.Op{E: "order", S: clean(), S2: clean()}
			if g.P(4) {
				op.S2 = op.S
			}
			s.Ops = append(s.Ops, op)
			continue
		}
		t := ver()
		switch g.n(6) {
		case 0, 1:
		case 2:
			p := g.n(len(t) + 1)
			t = t[:p] + pick(g, odd) + t[p:]
		case 3:
			p := g.n(len(t))
			t = t[:p] + pick(g, odd) + t[p+1:]
		case 4:
			t = pick(g, []string{t + "." + num(), num(), "." + num(), num() + ".", "", ".", t + "." + t, t + "-" + num(), "v" + t})
		case 5:
			p := g.n(len(t))
			t = t[:p]
		}
		s.Ops = append(s.Ops, run.Op{E: "parse", S: abs.Escape(t)})
	}
	return s
}
