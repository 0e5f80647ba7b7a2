package gen

import (
	"fmt"
	"strings"

	"verif/harness/run"
)

// Packages import those that come later.
var rank = map[string]int{"": 0, "m": 1, "x": 2, "y": 3, "testdata": 4, "z": 5, "q": 6, "thema": 7, "nothing": 8}

func last(imp string) string { return imp[strings.LastIndexAny(imp, "/:")+1:] }

// loadProfile: packages loaded from the files of a module.
func loadProfile(g *G, id string, i int) *run.Scenario {
	s := &run.Scenario{ID: id}
	for k := 0; k < 12; k++ {
		op := run.Op{E: "load", K: "ok"}
		if g.P(3) {
			op.K = pick(g, run.Modfiles())
		}
		dirs := []string{"", "", "x", "x", "x", "x/y", "x/y", "z", "cue.mod/pkg/other.test/q", "cue.mod/gen/other.test/q", "cue.mod/usr/other.test/q"}
		if g.P(3) {
			dirs = append(dirs, "_u", ".h", "testdata", "testdata", "x/_v", "x/y/z", "x/y/z", "cue.mods", "n.n-1")
		}
		pkgs := []string{"x", "x", "y", "m", "m", "z", "testdata", ""}
		imps := []string{"", "", "", "github.com/grafana/thema", "verif.test/m", "verif.test/m/x", "verif.test/m/x/y", "verif.test/m/z", "verif.test/m/x/y/z", "verif.test/m/testdata", "verif.test/m/x:m", "verif.test/m:x", "other.test/q", "other.test/nothing"}
		if op.K == "self" {
			pkgs = append(pkgs, "thema", "thema", "thema")
			imps = append(imps, "github.com/grafana/thema", "github.com/grafana/thema")
		}
		used := map[string]bool{}
		for n := g.n(8); n >= 0; n-- {
			f := run.File{Dir: pick(g, dirs), Pkg: pick(g, pkgs), N: fmt.Sprintf("f%d", n), Imp: pick(g, imps)}
			f.F = pick(g, []string{"a.cue", "b.cue", "c.cue", "d.cue", "e.cue", "a.b.cue", "module.cue", "test.cue", "x_y.cue"})
			if g.P(6) {
				f.F = pick(g, []string{"a_tool.cue", "a_test.cue", "_a.cue", ".a.cue", "a.json", "a.txt"})
			}
			if len(f.Dir) > 8 {
				f.Pkg, f.Imp = "q", ""
				if g.P(6) {
					f.Pkg = "x"
				}
			}
			if rank[f.Pkg] >= rank[last(f.Imp)] {
				f.Imp = "" // the loader does not come back from circular imports
			}
			if used[f.Dir+"/"+f.F] {
				continue
			}
			used[f.Dir+"/"+f.F] = true
			op.Files = append(op.Files, f)
		}
		op.S = pick(g, []string{"", ".", "x", "x", "x/y", "x/y", "z", "w"})
		if len(op.Files) > 0 && g.P(2) {
			if f := pick(g, op.Files); len(f.Dir) < 9 {
				op.S, op.S2 = f.Dir, f.Pkg
				if f.Pkg == "" {
					op.S2 = "_"
				}
			}
		}
		if g.P(3) {
			op.S2 = pick(g, []string{"x", "y", "m", "m", "_", "testdata"})
		}
		op.In = pick(g, []string{"", "", "disk", "wrap"})
		s.Ops = append(s.Ops, op)
	}
	return s
}
