package gen

import (
	"fmt"
	"strings"

	"verif/harness/abs"
	"verif/harness/run"
)

var transports = []string{"json", "json", "yaml", "yml", "ldjson", "noext", "pipe", "pipe", "pipeyaml", "redirect", "json json", "yaml yaml", "pipe json", "pipeyaml yaml", "noext json"}

// cliProfile: the command line on stored lineages.
func cliProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 2, 3
	l := g.Lineage("lin", LinCfg{Min: 1, Max: 5, Bad: []int{0, 5}[g.n(2)], Lac: 2, Join: true, Major: 50})
	if g.P(12) {
		// not a correct one
		l.Schemas[g.n(len(l.Schemas))].V[1] += 2
	}
	l.Skip = g.P(6)
	s.Ops = append(s.Ops, run.Op{E: "bind", L: "L", Lin: l})
	for k := 0; k < 10; k++ {
		j := g.n(len(l.Schemas))
		if g.P(5) {
			v := l.Schemas[j].V
			op := run.Op{E: "derive", L: "L", V: &v, K: pick(g, []string{"json", "openapi"}), D: g.fill(abs.JoinOf(l.Join, l.Schemas[j].T))}
			if g.P(2) {
				op.D = g.Mutate(op.D)
			}
			op.In = "cli " + pick(g, run.GenLayouts()) + pick(g, []string{"", " json", " yaml", " yml"})
			if g.P(3) {
				op.E, op.D, op.K = "gotypes", nil, pick(g, []string{"", "pkg"})
				op.In = "cli " + pick(g, run.GenLayouts()) + pick(g, []string{" stdout", " file"})
			}
			s.Ops = append(s.Ops, op)
			continue
		}
		op := run.Op{E: "cli", L: "L", K: pick(g, []string{"validate", "any", "translate", "translate", "translate", "hydrate", "dehydrate"})}
		op.In, op.S2 = pick(g, transports), pick(g, run.Layouts())
		op.D = g.Sample(abs.JoinOf(l.Join, l.Schemas[g.n(len(l.Schemas))].T))
		if g.P(4) {
			op.D = g.Mutate(op.D)
		}
		switch g.n(10) {
		case 0, 1, 2:
			if op.K == "translate" && !g.P(4) {
				v := l.Schemas[j].V
				op.V = &v
			}
		case 3:
			v := abs.V{uint(g.n(3)), uint(g.n(3))}
			op.V = &v
		case 4:
			if g.P(3) {
				op.S = pick(g, []string{"x", "1", "0.0.0", "latest", "v0.0"})
			}
		default:
			v := l.Schemas[j].V
			op.V = &v
			if g.P(2) && op.K != "translate" {
				op.D = g.Sample(abs.JoinOf(l.Join, l.Schemas[j].T))
			}
		}
		if (op.K == "validate" || op.K == "any") && g.P(3) {
			op.S2 += " quiet"
		}
		if g.P(3) {
			op.S2 += " long"
		}
		if g.P(8) {
			f := pick(g, []string{"junk", "junk", "empty", "unknown", "mismatch", "twice", "nodata", "dir"})
			op.S2 += " " + f
			if f != "junk" && f != "empty" {
				op.In = pick(g, []string{"json", "yaml", "yml", "noext"})
			}
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

// gobindProfile: programs with generated bindings.
func gobindProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	g.Deep, g.MaxFields = 2, 3
	g.Words = true
	l := g.Lineage(pick(g, []string{"lin", "lin", "fooBar", "Thing", "x1"}), LinCfg{Min: 1, Max: 4, Lac: 2, Join: true, Major: 50})
	typed := g.P(2)
	if typed {
		l = g.Lineage(l.Name, LinCfg{Min: 1, Max: 1, NoLens: true})
		g.goish(l.Schemas[0].T)
		// later versions with more fields
		for k := g.n(4); k > 0; k-- {
			last := l.Schemas[len(l.Schemas)-1]
			fs := abs.Fields{}
			for x, f := range last.T.F {
				fs[x] = f
			}
			next := abs.Schema{V: abs.V{last.V[0], last.V[1] + 1}, T: abs.St(fs)}
			next.T.F[fmt.Sprint("more", k)] = abs.O(abs.B("bool"))
			if g.P(3) {
				next.V = abs.V{last.V[0] + 1, 0}
				next.T.F[fmt.Sprint("more", k)] = abs.R(abs.B("str"))
			}
			l.Schemas = append(l.Schemas, next)
		}
		g.AddLenses(l, LinCfg{})
	}
	s.Ops = append(s.Ops, run.Op{E: "bind", L: "L", Lin: l})
	for k := 0; k < 2; k++ {
		at := g.n(3)
		s2 := []string{"lin=0", "lin=1", "lin=2"}[at]
		if c := g.n(4); c <= at {
			s2 += []string{" cue=0", " cue=1", " cue=2"}[c]
		}
		s2 += pick(g, []string{"", " pkg=lin", " pkg=app", " pkg=mod", " pkg=some", " pkg=other"})
		if g.P(2) && strings.Contains(s2, "pkg") {
			s2 += " dir"
		}
		if g.P(2) {
			s2 += " at"
		}
		op := run.Op{E: "gobind", L: "L", S2: s2}
		for _, o := range []string{"suffix", "private", "pkg"} {
			if g.P(2) {
				op.K += o + " "
			}
		}
		if typed {
			op.K += "typed "
		}
		op.K += pick(g, []string{"", "", "", "noembed", "nofs", "stdout", "lib", "lib title", "lib noembed"})
		j := g.n(len(l.Schemas))
		if typed && g.P(2) {
			v := l.Schemas[j].V
			op.V = &v
		}
		op.D = g.Sample(abs.JoinOf(l.Join, l.Schemas[j].T))
		if g.P(3) {
			op.D = g.Mutate(op.D)
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}
