package gen

import (
	"fmt"
	"strings"

	"verif/harness/abs"
	"verif/harness/run"
)

// LinCfg says what kind of lineage to make.
type LinCfg struct {
	Min, Max int  // number of schemas
	Go       bool // lenses in Go
	Bad      int  // one in Bad lenses is faulty (0: none)
	Lac      int  // up to this many lacunas per lens
	Join     bool // may have a joinSchema
	Ex       bool // has examples
	Forms    bool // may be written down in another form
	AllForms bool // is always written down in another form
	Made     bool // is written by Thema itself
	NoLens   bool // has no lenses
	Major    int  // percentage of major versions
	Steady   bool // keep to types that allow for minor versions
}

// Lineage makes a lineage that is correct, lenses included.
func (g *G) Lineage(name string, c LinCfg) *abs.Lin {
	l := &abs.Lin{Name: name}
	if c.Join && g.P(3) {
		j := abs.Fields{}
		j["kind"] = abs.R(pick(g, []*abs.Type{abs.B("str"), abs.Enum("s:a", "s:b"), abs.Def(abs.B("str"), abs.Atom("s:x"))}))
		if g.P(2) {
			j["opt"] = abs.O(g.Scalar())
		}
		l.Join = &abs.Join{T: abs.St(j)}
	}
	n := c.Min + g.n(c.Max-c.Min+1)
	if c.Steady {
		was := g.Steady
		g.Steady = true
		defer func() { g.Steady = was }()
	}
	t := g.Struct(g.Deep, 1+g.n(g.MaxFields+1))
	v := abs.V{0, 0}
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.n(100) < c.Major || !steady(t) || l.Join != nil && !steady(l.Join.T) {
				t = g.Broken(t)
				v = abs.V{v[0] + 1, 0}
			} else {
				t = g.Widened(t)
				v = abs.V{v[0], v[1] + 1}
			}
		}
		if l.Join != nil {
			delete(t.F, "kind")
			delete(t.F, "opt")
		}
		s := abs.Schema{V: v, T: t}
		if c.Ex && g.P(2) {
			s.Ex = map[string]*abs.Data{}
			for k := g.n(3); k >= 0; k-- {
				s.Ex[pick(g, []string{"first", "second", "third", "snd2", "with-dash", "two words", "0", "dot.ted", "for"})] = g.Sample(abs.JoinOf(l.Join, t))
			}
		}
		l.Schemas = append(l.Schemas, s)
	}
	if !c.NoLens {
		g.AddLenses(l, c)
	}
	if c.Forms && (g.P(2) || c.AllForms) {
		l.Form = pick(g, run.Forms())
	}
	if c.Made {
		old, fresh := run.MadeForms()
		l.Form = pick(g, old)
		odd := false
		for _, s := range l.Schemas {
			odd = odd || named(s.T, "string")
		}
		if odd {
			l.Form = strings.TrimSuffix(l.Form, " cli")
		}
		if n == 1 && l.Join == nil && !odd && !g.P(4) {
			l.Form = pick(g, fresh)
			l.Name = pick(g, []string{"lin", "two words", "li%22;n", "%e9;"})
			if g.P(2) {
				l.Name = pick(g, []string{"lin", "ship", "a1"})
				l.Form = pick(g, run.InitForms())
				l.Schemas[0].T = t.Foreign()
				if g.P(6) {
					l.Form = "new-empty" + pick(g, []string{"", " nopkg", " pkg"})
					l.Schemas[0].T = abs.St(abs.Fields{})
				}
			}
		}
		for i := range l.Lenses {
			if l.Lenses[i].From[0] == l.Lenses[i].To[0] {
				l.Lenses[i].Lac = nil
			}
		}
	}
	return l
}

// Needed lists the lenses a lineage needs, in the order they are to be written.
func Needed(l *abs.Lin) [][2]int {
	var out [][2]int
	for i := 0; i < len(l.Schemas); i++ {
		// lenses to schema i: from its predecessor (when major), then from its successor
		if i > 0 && l.Schemas[i].V[0] != l.Schemas[i-1].V[0] {
			out = append(out, [2]int{i - 1, i})
		}
		if i+1 < len(l.Schemas) {
			out = append(out, [2]int{i + 1, i})
		}
	}
	return out
}

// AddLenses gives a lineage the lenses it needs.
func (g *G) AddLenses(l *abs.Lin, c LinCfg) {
	l.Lenses, l.GL = nil, nil
	for _, p := range Needed(l) {
		from, to := l.Schemas[p[0]], l.Schemas[p[1]]
		bad := c.Bad > 0 && g.P(c.Bad)
		S, T := abs.JoinOf(l.Join, from.T), abs.JoinOf(l.Join, to.T)
		m := g.LensMap(S, T, bad)
		if c.Go {
			beh := "ok"
			if bad && g.P(2) {
				beh = pick(g, []string{"err", "nil", "wrong", "foreign", "zero"})
			}
			l.GL = append(l.GL, abs.GoLens{From: from.V, To: to.V, Beh: beh, Map: m})
			continue
		}
		ls := abs.Lens{From: from.V, To: to.V, Map: m}
		for k := g.n(c.Lac + 1); k > 0; k-- {
			msg := fmt.Sprintf("%s to %s no %d", from.V.Dotted(), to.V.Dotted(), k)
			if g.P(3) {
				// several may say the same
				msg = "not quite the same"
			}
			if n := len(ls.Lac); n > 0 && g.P(6) {
				ls.Lac = append(ls.Lac, ls.Lac[n-1])
				continue
			}
			ls.Lac = append(ls.Lac, g.lacuna(S, m, msg))
		}
		l.Lenses = append(l.Lenses, ls)
	}
	if c.Go {
		g.R.Shuffle(len(l.GL), func(i, j int) { l.GL[i], l.GL[j] = l.GL[j], l.GL[i] })
	}
}

// paths lists the paths through structs to fields that satisfy ok, with
// whether they are always there.
type fieldAt struct {
	P    []string
	T    *abs.Type
	Sure bool
}

func fieldsOf(t *abs.Type, pre []string, sure bool, out *[]fieldAt) {
	for _, k := range abs.SortedKeys(t.F) {
		f := t.F[k]
		p := append(append([]string{}, pre...), k)
		s := sure && f.P == "r" && !Complete(f.T)
		*out = append(*out, fieldAt{p, f.T, s})
		if f.T.K == "st" && len(p) < 3 {
			fieldsOf(f.T, p, s, out)
		}
	}
}

func same(a, b *abs.Type) bool { return a.CUE() == b.CUE() }

func noCol(t *abs.Type) bool {
	switch t.K {
	case "st":
		for _, f := range t.F {
			if !noCol(f.T) {
				return false
			}
		}
		return true
	case "ol", "cl", "mp", "u":
		return false
	}
	return true
}

// LensMap makes a mapping from instances of S to instances of T.
func (g *G) LensMap(S, T *abs.Type, bad bool) abs.Map {
	var src []fieldAt
	fieldsOf(S, nil, true, &src)
	m := abs.Map{}
	for _, k := range abs.SortedKeys(T.F) {
		f := T.F[k]
		if f.P == "o" && g.P(4) {
			continue
		}
		if f.P == "r" && Complete(f.T) && g.P(4) {
			continue
		}
		if x := g.expr(k, f, src, 2); x != nil {
			m[k] = x
		}
	}
	if bad {
		ks := abs.SortedKeys(T.F)
		switch g.n(4) {
		case 0:
			if len(ks) > 0 {
				delete(m, pick(g, ks))
			}
		case 1:
			m[g.fresh(T)] = &abs.Expr{X: "k", D: abs.Atom("s:a")}
		case 2:
			if len(ks) > 0 {
				m[pick(g, ks)] = &abs.Expr{X: "k", D: g.AnyData(1)}
			}
		case 3:
			if len(ks) > 0 && len(src) > 0 {
				m[pick(g, ks)] = &abs.Expr{X: "cp", P: pick(g, src).P}
			}
		}
	}
	return m
}

func (g *G) expr(k string, f *abs.Field, src []fieldAt, depth int) *abs.Expr {
	var cp, op []fieldAt
	for _, s := range src {
		if same(s.T, f.T) {
			if s.Sure {
				cp = append(cp, s)
			} else {
				op = append(op, s)
			}
		}
	}
	// prefer the field of the same name
	for _, s := range cp {
		if len(s.P) == 1 && s.P[0] == k {
			return &abs.Expr{X: "cp", P: s.P}
		}
	}
	if f.P == "o" || Complete(f.T) {
		for _, s := range op {
			if len(s.P) == 1 && s.P[0] == k {
				return &abs.Expr{X: "op", P: s.P}
			}
		}
		if len(op) > 0 && g.P(2) {
			return &abs.Expr{X: "op", P: pick(g, op).P}
		}
	}
	if len(cp) > 0 && !g.P(4) {
		return &abs.Expr{X: "cp", P: pick(g, cp).P}
	}
	if f.T.K == "st" && depth > 0 && g.P(2) {
		sub := abs.Map{}
		for _, y := range abs.SortedKeys(f.T.F) {
			z := f.T.F[y]
			if z.P == "o" && g.P(2) {
				continue
			}
			if x := g.expr(y, z, src, depth-1); x != nil {
				sub[y] = x
			}
		}
		return &abs.Expr{X: "st", F: sub}
	}
	if f.T.K != "st" && g.P(3) {
		var at []fieldAt
		for _, s := range src {
			if s.Sure && (s.T.K == "e" || s.T.K == "b" && (s.T.N == "str" || s.T.N == "int" || s.T.N == "bool")) {
				at = append(at, s)
			}
		}
		if len(at) > 0 {
			s := pick(g, at)
			return &abs.Expr{X: "eq", P: s.P, V: g.Sample(s.T).A, D: g.Sample(f.T), E: g.Sample(f.T)}
		}
	}
	return &abs.Expr{X: "k", D: g.Sample(f.T)}
}

func (g *G) lacuna(S *abs.Type, m abs.Map, msg string) abs.Lacuna {
	var src, sure, atoms []fieldAt
	fieldsOf(S, nil, true, &src)
	for _, s := range src {
		if !plainPath(s.P) {
			continue
		}
		if s.Sure && noCol(s.T) {
			sure = append(sure, s)
			if s.T.K == "e" || s.T.K == "b" && (s.T.N == "str" || s.T.N == "int" || s.T.N == "bool") {
				atoms = append(atoms, s)
			}
		}
	}
	q := abs.Lacuna{Ty: 1 + g.n(4), Msg: msg, C: pick(g, []string{"always", "always", "never"})}
	if len(atoms) > 0 && g.P(2) {
		s := pick(g, atoms)
		q.C, q.P, q.V = "eq", s.P, g.Sample(s.T).A
	} else if len(src) > 0 && g.P(3) {
		s := pick(g, src)
		q.C, q.P = "has", s.P
	}
	if len(sure) > 0 && g.P(2) {
		q.SP = pick(g, sure).P
	}
	if g.P(2) {
		var ts []string
		for _, k := range abs.SortedKeys(m) {
			if (m[k].X == "k" || m[k].X == "cp") && plainPath([]string{k}) {
				ts = append(ts, k)
			}
		}
		if len(ts) > 0 {
			q.TP = []string{pick(g, ts)}
		}
	}
	return q
}

func plainPath(p []string) bool {
	for _, x := range p {
		ok := false
		for _, y := range plainNames {
			ok = ok || x == y
		}
		if x == "kind" || x == "opt" {
			ok = true
		}
		if !ok {
			return false
		}
	}
	return true
}

// steady types are recognised as compatible with themselves.
func steady(t *abs.Type) bool {
	ok := t.K != "mp" && !(t.K == "b" && t.N == "min1")
	for _, f := range t.F {
		ok = ok && steady(f.T)
	}
	for _, x := range append(append([]*abs.Type{t.T, t.E}, t.Es...), t.Alts...) {
		ok = ok && (x == nil || steady(x))
	}
	return ok
}

// named types have a field of this name somewhere.  (The CUE exporter and
// formatter may write such a field in a way that captures references to the
// predeclared type.)
func named(t *abs.Type, name string) bool {
	for k, f := range t.F {
		if k == name || named(f.T, name) {
			return true
		}
	}
	for _, x := range append(append([]*abs.Type{t.T, t.E}, t.Es...), t.Alts...) {
		if x != nil && named(x, name) {
			return true
		}
	}
	return false
}
