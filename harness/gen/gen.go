// Package gen makes random lineages, data and histories of operations.
package gen

import (
	"fmt"
	"math/rand"
	"sort"

	"verif/harness/abs"
)

// G is a source of random choices together with what it may choose from.
type G struct {
	R *rand.Rand
	// Plain keeps to field names that are identifiers.
	Plain bool
	// Deep is how far structs and lists may nest.
	Deep int
	// MaxFields bounds the fields of a struct.
	MaxFields int
	// NoDisj leaves out types that are disjunctions of kinds.
	NoDisj bool
	// Nulls has things that may be null.
	Nulls bool
	// NoCols leaves out lists, maps and unions.
	NoCols bool
	// Steady leaves out types that rule out minor versions.
	Steady bool
	// Long lists are made once in Long times.
	Long int
	// Names are further field names.
	Names []string
	// Words keeps to constants that can be turned into names.
	Words bool
	// All data has all required fields.
	All bool
	// Dflt prefers types with a default.
	Dflt bool
}

var plainNames = []string{"a", "b", "c", "d", "ee", "foo", "bar", "title", "spec", "meta", "uid", "x1"}
var oddNames = []string{"with-dash", "with space", "dot.ted", "for", "%fc;mlaut", "0", "name", "schema", "version", "result", "input", "CamelCase", "-", "string", "schemas", "lenses", "joinSchema", "examples", "to", "from", "inst", "lin", "steps", "lacunas"}
var StrAtoms = []string{"s:a", "s:b", "s:c", "s:x", "s:xy", "s:hello", "s:two words", "s:%e9;", "s:<&>", "s:null", "s:true", "s:1", "s:line%a;break", "s:", "s:_|_", "s:%22;q%22;", "s:*", "s:x: y", "s:50%25;d"}
var IntAtoms = []string{"n:-5000000000", "n:-200", "n:-129", "n:-128", "n:-1", "n:0", "n:1", "n:2", "n:3", "n:4", "n:5", "n:7", "n:9", "n:10", "n:11",
	"n:127", "n:128", "n:255", "n:256", "n:300", "n:32767", "n:32768", "n:65535", "n:65536", "n:70000", "n:2147483647", "n:2147483648", "n:4294967295", "n:4294967296", "n:5000000000"}
var FloatAtoms = []string{"n:-0.5", "n:0.5", "n:1.5"}

func (g *G) n(n int) int { return g.R.Intn(n) }

// P is true once in n times.
func (g *G) P(n int) bool { return g.R.Intn(n) == 0 }

func pick[T any](g *G, s []T) T { return s[g.R.Intn(len(s))] }

func (g *G) name() string {
	if g.MaxFields > 12 && g.P(2) {
		return fmt.Sprintf("f%d", g.n(40))
	}
	if len(g.Names) > 0 && g.P(5) {
		return pick(g, g.Names)
	}
	if !g.Plain && g.P(7) {
		return pick(g, oddNames)
	}
	return pick(g, plainNames)
}

var wordAtoms = []string{"s:a", "s:b", "s:c", "s:x", "s:xy", "s:hello", "s:two words", "s:null", "s:true", "s:1"}

func (g *G) strs(n int) []string {
	s := append([]string{}, StrAtoms...)
	if g.Words {
		s = append([]string{}, wordAtoms...)
	}
	g.R.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s[:n]
}

func (g *G) ints(n int) []string {
	s := append([]string{}, IntAtoms...)
	if g.Words {
		s = []string{"n:0", "n:1", "n:2", "n:3", "n:7", "n:9", "n:10", "n:127", "n:255"}
	}
	g.R.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s[:n]
}

var plainBases = []string{"str", "str", "str", "bool", "int", "int", "num", "float", "u8", "u16", "u32", "i8", "i16", "i32", "lt10", "pos", "rex", "min1"}
var disjBases = []string{"si", "sib", "ns", "any", "null"}

// Scalar makes a type of scalars.
func (g *G) Scalar() *abs.Type {
	if g.Dflt && g.P(2) {
		return g.defaulted()
	}
	switch x := g.n(12); {
	case x < 5:
		if !g.NoDisj && g.P(6) {
			return abs.B(pick(g, disjBases))
		}
		return g.plainScalar()
	case x < 7:
		return abs.Enum(g.strs(2 + g.n(3))...)
	case x < 8:
		return abs.Enum(g.ints(2 + g.n(2))...)
	case x < 9:
		if g.P(2) {
			return abs.Enum(g.strs(1)...)
		}
		return abs.Enum(g.ints(1)...)
	case x < 11:
		return g.defaulted()
	default:
		return abs.B("str")
	}
}

func (g *G) defaulted() *abs.Type {
	switch g.n(5) {
	case 0:
		return abs.Def(abs.B("str"), abs.Atom(pick(g, StrAtoms)))
	case 1:
		return abs.Def(abs.B("int"), abs.Atom(pick(g, IntAtoms)))
	case 2:
		return abs.Def(abs.B("bool"), abs.Atom(pick(g, []string{"b:true", "b:false"})))
	default:
		s := g.strs(2 + g.n(3))
		return abs.Def(abs.Enum(s...), abs.Atom(pick(g, s)))
	}
}

// Type makes a type nested at most d deep.
func (g *G) Type(d int) *abs.Type {
	if g.Nulls && g.P(5) {
		return g.orNull(d)
	}
	if d <= 0 || !g.P(3) {
		return g.Scalar()
	}
	switch x := g.n(10); {
	case x < 5 || g.NoCols:
		return g.Struct(d-1, 1+g.n(g.MaxFields))
	case x < 7:
		return abs.OL(g.elem(d - 1))
	case x < 8:
		es := []*abs.Type{}
		for i := g.n(3); i >= 0; i-- {
			es = append(es, g.elem(0))
		}
		return abs.CL(es...)
	case x < 9 && !g.Steady:
		if g.P(2) {
			return abs.Mp(g.elem(d - 1))
		}
		return abs.Mp(g.plainScalar())
	default:
		return g.Union(d - 1)
	}
}

// orNull makes null or something else.
func (g *G) orNull(d int) *abs.Type {
	var t *abs.Type
	switch g.n(4) {
	case 0:
		t = abs.OL(g.elem(d - 1))
	case 1:
		t = g.Struct(d-1, 1+g.n(g.MaxFields))
	case 2:
		t = abs.Mp(g.plainScalar())
	default:
		t = abs.B(pick(g, []string{"str", "int", "bool"}))
	}
	u := abs.U()
	u.Alts = []*abs.Type{abs.B("null"), t}
	return u
}

func (g *G) plainScalar() *abs.Type {
	for {
		if b := pick(g, plainBases); b != "min1" || !g.Steady {
			return abs.B(b)
		}
	}
}

func (g *G) elem(d int) *abs.Type {
	if d > 0 && g.P(2) {
		return g.Struct(d-1, 1+g.n(g.MaxFields))
	}
	switch g.n(8) {
	case 0, 1:
		return abs.Enum(g.strs(2)...)
	case 2:
		return g.defaulted()
	case 3:
		if d > 0 {
			return abs.OL(g.elem(d - 1))
		}
	case 4:
		if d > 0 {
			return g.Union(d - 1)
		}
	}
	return g.plainScalar()
}

// Union makes a union of structs told apart by their field "k".
func (g *G) Union(d int) *abs.Type {
	ks := g.strs(2 + g.n(2))
	u := abs.U()
	for _, k := range ks {
		s := g.Struct(0, 1+g.n(2))
		delete(s.F, "k")
		s.F["k"] = abs.R(abs.Enum(k))
		u.Alts = append(u.Alts, s)
	}
	return u
}

// Struct makes a struct type with n fields.
func (g *G) Struct(d, n int) *abs.Type {
	f := abs.Fields{}
	for i := 0; i < n; i++ {
		nm := g.name()
		t := g.Type(d)
		if g.P(3) {
			f[nm] = abs.O(t)
		} else {
			f[nm] = abs.R(t)
		}
	}
	return abs.St(f)
}

// Sample makes data that is valid for a type.
func (g *G) Sample(t *abs.Type) *abs.Data {
	switch t.K {
	case "b":
		return abs.Atom(g.baseAtom(t.N))
	case "e":
		return abs.Atom(pick(g, t.S))
	case "df":
		if g.P(3) {
			return t.DV
		}
		return g.Sample(t.T)
	case "st":
		m := map[string]*abs.Data{}
		for _, k := range abs.SortedKeys(t.F) {
			f := t.F[k]
			if f.P == "o" && g.P(2) {
				continue
			}
			if f.P == "r" && !g.All && Complete(f.T) && g.P(3) {
				continue
			}
			m[k] = g.Sample(f.T)
		}
		return abs.Obj(m)
	case "ol":
		d := abs.Arr()
		d.L = []*abs.Data{}
		n := g.n(4)
		if g.Long > 0 && g.P(g.Long) {
			n = 9 + g.n(45)
		}
		for i := n; i > 0; i-- {
			d.L = append(d.L, g.Sample(t.E))
		}
		return d
	case "cl":
		d := abs.Arr()
		d.L = []*abs.Data{}
		for _, e := range t.Es {
			d.L = append(d.L, g.Sample(e))
		}
		return d
	case "mp":
		m := map[string]*abs.Data{}
		for i := g.n(3); i > 0; i-- {
			m[g.name()] = g.Sample(t.E)
		}
		return abs.Obj(m)
	case "u":
		a := pick(g, t.Alts)
		d := g.Sample(a)
		if k, ok := a.F["k"]; ok && a.K == "st" && k.T.K == "e" {
			d.M["k"] = abs.Atom(k.T.S[0])
		}
		return d
	}
	panic("bad type")
}

// Complete tells whether a required field of type t may be left out of data.
// It only guides generation; the specification decides.
func Complete(t *abs.Type) bool {
	switch t.K {
	case "b":
		return t.N == "null"
	case "e":
		return len(t.S) == 1
	case "df", "ol", "mp":
		return true
	case "st":
		for _, f := range t.F {
			if f.P == "r" && !Complete(f.T) {
				return false
			}
		}
		return true
	case "cl":
		for _, e := range t.Es {
			if !Complete(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (g *G) baseAtom(n string) string {
	ints := func(lo, hi string) string {
		i, j := indexOf(IntAtoms, lo), indexOf(IntAtoms, hi)
		return IntAtoms[i+g.n(j-i+1)]
	}
	switch n {
	case "any":
		return g.anyAtom()
	case "str":
		return pick(g, StrAtoms)
	case "bool":
		return pick(g, []string{"b:true", "b:false"})
	case "int":
		return pick(g, IntAtoms)
	case "num":
		if g.P(2) {
			return pick(g, FloatAtoms)
		}
		return pick(g, IntAtoms)
	case "float":
		return pick(g, FloatAtoms)
	case "null":
		return "null"
	case "u8":
		return ints("n:0", "n:255")
	case "u16":
		return ints("n:0", "n:65535")
	case "u32":
		return ints("n:0", "n:4294967295")
	case "i8":
		return ints("n:-128", "n:127")
	case "i16":
		return ints("n:-200", "n:32767")
	case "i32":
		return ints("n:-200", "n:2147483647")
	case "lt10":
		return ints("n:-5000000000", "n:9")
	case "pos":
		return ints("n:1", "n:5000000000")
	case "si":
		return pick(g, []string{pick(g, StrAtoms), pick(g, IntAtoms)})
	case "sib":
		return pick(g, []string{pick(g, StrAtoms), pick(g, IntAtoms), "b:true"})
	case "ns":
		return pick(g, []string{pick(g, StrAtoms), "null"})
	case "rex":
		return pick(g, []string{"s:x", "s:xy", "s:x: y"})
	case "min1":
		a := pick(g, StrAtoms)
		if a == "s:" {
			a = "s:a"
		}
		return a
	}
	panic("bad base " + n)
}

func indexOf(s []string, x string) int {
	for i := range s {
		if s[i] == x {
			return i
		}
	}
	panic("no " + x)
}

func (g *G) anyAtom() string {
	switch g.n(8) {
	case 0, 1, 2:
		return pick(g, StrAtoms)
	case 3, 4, 5:
		return pick(g, IntAtoms)
	case 6:
		return pick(g, append([]string{"b:true", "b:false"}, FloatAtoms...))
	default:
		return "null"
	}
}

// AnyData makes arbitrary data.
func (g *G) AnyData(d int) *abs.Data {
	if d <= 0 || !g.P(3) {
		return abs.Atom(g.anyAtom())
	}
	if g.P(2) {
		l := abs.Arr()
		l.L = []*abs.Data{}
		for i := g.n(3); i > 0; i-- {
			l.L = append(l.L, g.AnyData(d-1))
		}
		return l
	}
	m := map[string]*abs.Data{}
	for i := g.n(3); i > 0; i-- {
		m[g.name()] = g.AnyData(d - 1)
	}
	return abs.Obj(m)
}

func clone(d *abs.Data) *abs.Data {
	c := &abs.Data{K: d.K, A: d.A}
	if d.K == 'm' {
		c.M = map[string]*abs.Data{}
		for k, v := range d.M {
			c.M[k] = clone(v)
		}
	}
	if d.K == 'l' {
		c.L = []*abs.Data{}
		for _, v := range d.L {
			c.L = append(c.L, clone(v))
		}
	}
	return c
}

// Mutate changes data somewhere: a value replaced, a field added or removed.
// Data at the top stays an object.
func (g *G) Mutate(d *abs.Data) *abs.Data {
	d = clone(d)
	g.mutate(d)
	return d
}

func (g *G) mutate(d *abs.Data) {
	ks := abs.SortedKeys(d.M)
	if len(ks) == 0 || g.P(5) {
		d.M[g.name()] = g.AnyData(1)
		return
	}
	k := pick(g, ks)
	c := d.M[k]
	switch {
	case g.P(4) && k != "k": // a union keeps saying which alternative is meant
		delete(d.M, k)
	case c.K == 'm' && !g.P(4):
		g.mutate(c)
	case c.K == 'l' && len(c.L) > 0 && !g.P(3):
		if len(c.L) > 4 && g.P(2) {
			// most of them
			for i := range c.L {
				if g.P(4) {
				} else if c.L[i].K == 'm' {
					c.L[i].M[g.name()] = g.AnyData(0)
				} else {
					c.L[i] = g.AnyData(0)
				}
			}
			break
		}
		i := g.n(len(c.L))
		if c.L[i].K == 'm' && !g.P(3) {
			g.mutate(c.L[i])
		} else if g.P(3) {
			c.L = append(c.L, g.AnyData(0))
		} else if g.P(3) {
			c.L = append(c.L[:i], c.L[i+1:]...)
		} else {
			c.L[i] = g.AnyData(1)
		}
	case c.K == 'a' && g.P(2) && len(c.A) > 2:
		// another atom of the same kind
		switch c.A[:2] {
		case "s:":
			d.M[k] = abs.Atom(pick(g, StrAtoms))
		case "n:":
			if g.P(4) {
				d.M[k] = abs.Atom(pick(g, FloatAtoms))
			} else {
				d.M[k] = abs.Atom(pick(g, IntAtoms))
			}
		default:
			d.M[k] = abs.Atom("b:false")
		}
	default:
		d.M[k] = g.AnyData(1)
	}
}

func cloneT(t *abs.Type) *abs.Type {
	c := *t
	if t.F != nil {
		c.F = abs.Fields{}
		for k, f := range t.F {
			c.F[k] = &abs.Field{P: f.P, T: cloneT(f.T)}
		}
	}
	if t.T != nil {
		c.T = cloneT(t.T)
	}
	if t.E != nil {
		c.E = cloneT(t.E)
	}
	c.Es = nil
	for _, e := range t.Es {
		c.Es = append(c.Es, cloneT(e))
	}
	c.Alts = nil
	for _, e := range t.Alts {
		c.Alts = append(c.Alts, cloneT(e))
	}
	c.S = append([]string{}, t.S...)
	return &c
}

var widen = map[string][]string{
	"u8": {"u16", "u32", "i16", "i32", "int", "num"}, "u16": {"u32", "i32", "int"}, "u32": {"int", "num"},
	"i8": {"i16", "i32", "int"}, "i16": {"i32", "int"}, "i32": {"int", "num"},
	"lt10": {"int"}, "pos": {"int", "num"}, "int": {"num"}, "float": {"num"}, "rex": {"str"}, "min1": {"str"}, "si": {"sib"},
}

// Widened makes a backwards compatible successor of a struct type.
func (g *G) Widened(t *abs.Type) *abs.Type {
	t = cloneT(t)
	for i := 1 + g.n(2); i > 0; i-- {
		g.widen(t)
	}
	return t
}

func (g *G) widen(t *abs.Type) {
	ks := abs.SortedKeys(t.F)
	if len(ks) == 0 || g.P(2) {
		nm := g.name()
		if _, has := t.F[nm]; !has {
			t.F[nm] = abs.O(g.Type(g.Deep - 1))
		}
		return
	}
	k := pick(g, ks)
	f := t.F[k]
	if f.P == "r" && g.P(4) {
		f.P = "o"
		return
	}
	switch f.T.K {
	case "b":
		if ws := widen[f.T.N]; len(ws) > 0 {
			f.T.N = pick(g, ws)
		}
	case "e":
		if len(f.T.S) > 1 {
			f.T.S = g.grow(f.T.S)
		}
	case "df":
		if f.T.T.K == "e" && f.P == "r" {
			f.T.T.S = g.grow(f.T.T.S)
		}
	case "st":
		g.widen(f.T)
	case "u":
		// one more alternative
		if f.T.Alts[0].K != "st" {
			return
		}
		used := map[string]bool{}
		for _, a := range f.T.Alts {
			used[a.F["k"].T.S[0]] = true
		}
		for _, s := range g.strs(4) {
			if !used[s] {
				a := g.Struct(0, 1)
				a.F["k"] = abs.R(abs.Enum(s))
				f.T.Alts = append(f.T.Alts, a)
				break
			}
		}
	}
}

func (g *G) grow(s []string) []string {
	has := map[string]bool{}
	for _, a := range s {
		has[a] = true
	}
	pool := StrAtoms
	if s[0][0] == 'n' {
		pool = IntAtoms
	}
	for i := 0; i < 5; i++ {
		if a := pick(g, pool); !has[a] {
			return append(append([]string{}, s...), a)
		}
	}
	return s
}

// Broken makes a backwards incompatible successor of a struct type.
func (g *G) Broken(t *abs.Type) *abs.Type {
	t = cloneT(t)
	g.breakIt(t)
	for i := g.n(2); i > 0; i-- {
		g.widen(t)
		// widening might undo the break, so break once more for certain
		g.breakIt(t)
	}
	return t
}

func (g *G) fresh(t *abs.Type) string {
	for i := 0; ; i++ {
		nm := g.name()
		if i > 20 {
			nm = fmt.Sprintf("n%d", g.n(1000))
		}
		if _, has := t.F[nm]; !has {
			return nm
		}
	}
}

func (g *G) breakIt(t *abs.Type) {
	ks := abs.SortedKeys(t.F)
	sort.Strings(ks)
	switch x := g.n(8); {
	case len(ks) == 0 || x < 2:
		t.F[g.fresh(t)] = abs.R(g.Type(g.Deep - 1))
	case x == 2 && len(ks) > 1:
		delete(t.F, pick(g, ks))
	case x == 3:
		k := pick(g, ks)
		f := t.F[k]
		delete(t.F, k)
		t.F[g.fresh(t)] = f
	case x == 4:
		for _, k := range ks {
			if t.F[k].P == "o" {
				t.F[k].P = "r"
				return
			}
		}
		t.F[g.fresh(t)] = abs.R(g.Scalar())
	case x == 5:
		for _, k := range ks {
			f := t.F[k]
			if f.T.K == "e" && len(f.T.S) > 2 {
				f.T.S = f.T.S[1:]
				return
			}
			if f.T.K == "df" && f.T.T.K == "e" && f.P == "r" {
				for _, a := range f.T.T.S {
					if a != f.T.DV.A {
						f.T.DV = abs.Atom(a)
						return
					}
				}
			}
		}
		t.F[g.fresh(t)] = abs.R(g.Scalar())
	case x == 6:
		for _, k := range ks {
			f := t.F[k]
			if f.T.K == "st" {
				g.breakIt(f.T)
				return
			}
		}
		t.F[g.fresh(t)] = abs.R(g.Scalar())
	default:
		k := pick(g, ks)
		f := t.F[k]
		if f.T.K == "b" && f.T.N == "bool" {
			f.T = abs.B("str")
		} else if f.T.K == "b" && (f.T.N == "any" || f.T.N == "sib") {
			f.T = abs.B("str")
		} else {
			f.T = abs.B("bool")
		}
	}
}
