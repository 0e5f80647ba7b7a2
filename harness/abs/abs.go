// Package abs holds the abstract values, types, lineages and lenses of the
// TLA+ specification, and their rendering as JSON data and CUE source.
package abs

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Data is abstract data: exactly one of A (atom), M (object), L (array).
type Data struct {
	A string
	M map[string]*Data
	L []*Data
	// which of the three it is
	K byte // 'a', 'm', 'l'
}

func Atom(a string) *Data            { return &Data{K: 'a', A: a} }
func Obj(m map[string]*Data) *Data   { return &Data{K: 'm', M: m} }
func Arr(l ...*Data) *Data           { return &Data{K: 'l', L: l} }
func Str(s string) *Data             { return Atom("s:" + Escape(s)) }
func (d *Data) Field(n string) *Data { return d.M[n] }

func (d *Data) MarshalJSON() ([]byte, error) {
	switch d.K {
	case 'a':
		return json.Marshal(map[string]string{"a": d.A})
	case 'm':
		if len(d.M) == 0 {
			// TLC takes the empty function for a tuple
			return []byte(`{"m":[]}`), nil
		}
		return json.Marshal(map[string]any{"m": d.M})
	case 'l':
		l := d.L
		if l == nil {
			l = []*Data{}
		}
		return json.Marshal(map[string]any{"l": l})
	}
	return nil, fmt.Errorf("bad data kind %q", d.K)
}

func (d *Data) UnmarshalJSON(b []byte) error {
	var x map[string]json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if a, ok := x["a"]; ok {
		d.K = 'a'
		return json.Unmarshal(a, &d.A)
	}
	if m, ok := x["m"]; ok {
		d.K = 'm'
		d.M = map[string]*Data{}
		if isEmptyList(m) {
			return nil
		}
		return json.Unmarshal(m, &d.M)
	}
	if l, ok := x["l"]; ok {
		d.K = 'l'
		return json.Unmarshal(l, &d.L)
	}
	return fmt.Errorf("bad data %s", b)
}

func isEmptyList(b []byte) bool {
	return bytes.Equal(bytes.Join(bytes.Fields(b), nil), []byte("[]"))
}

// Escape makes text plain ASCII, so that it survives TLC unharmed.
func Escape(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 0x20 || r > 0x7e || r == '%' || r == '\\' || r == '"' {
			fmt.Fprintf(&b, "%%%x;", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Unescape undoes Escape.
func Unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			j := strings.IndexByte(s[i:], ';')
			n, err := strconv.ParseUint(s[i+1:i+j], 16, 32)
			if err != nil {
				panic(err)
			}
			b.WriteRune(rune(n))
			i += j
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// AtomJSON renders an atom as JSON (which is also CUE).
func AtomJSON(a string) string {
	switch {
	case a == "null":
		return "null"
	case strings.HasPrefix(a, "b:"), strings.HasPrefix(a, "n:"):
		return a[2:]
	case strings.HasPrefix(a, "s:"):
		return QuoteJSON(Unescape(a[2:]))
	}
	panic("bad atom " + a)
}

func QuoteJSON(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

// JSON renders data as JSON text.
func (d *Data) JSON() string {
	switch d.K {
	case 'a':
		return AtomJSON(d.A)
	case 'm':
		ks := SortedKeys(d.M)
		parts := make([]string, len(ks))
		for i, k := range ks {
			parts[i] = QuoteJSON(Unescape(k)) + ":" + d.M[k].JSON()
		}
		return "{" + strings.Join(parts, ",") + "}"
	case 'l':
		parts := make([]string, len(d.L))
		for i, e := range d.L {
			parts[i] = e.JSON()
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	panic("bad data")
}

func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// FromJSON abstracts JSON text.
func FromJSON(b []byte) (*Data, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		return nil, err
	}
	return FromGo(x), nil
}

// FromGo abstracts a decoded JSON value (numbers as json.Number or Go numbers).
func FromGo(x any) *Data {
	switch v := x.(type) {
	case nil:
		return Atom("null")
	case bool:
		return Atom(fmt.Sprintf("b:%v", v))
	case string:
		return Str(v)
	case json.Number:
		return Atom("n:" + NormNum(v.String()))
	case int:
		return Atom("n:" + NormNum(strconv.Itoa(v)))
	case int64:
		return Atom("n:" + NormNum(strconv.FormatInt(v, 10)))
	case *big.Int:
		return Atom("n:" + NormNum(v.String()))
	case float64:
		return Atom("n:" + NormNum(strconv.FormatFloat(v, 'f', -1, 64)))
	case []any:
		d := &Data{K: 'l', L: []*Data{}}
		for _, e := range v {
			d.L = append(d.L, FromGo(e))
		}
		return d
	case map[string]any:
		d := &Data{K: 'm', M: map[string]*Data{}}
		for k, e := range v {
			d.M[Escape(k)] = FromGo(e)
		}
		return d
	}
	return Atom(fmt.Sprintf("?:%T", x))
}

// NormNum gives a numeral its canonical form, as used in the specification.
func NormNum(s string) string {
	f, _, err := big.ParseFloat(s, 10, 200, big.ToNearestEven)
	if err != nil {
		return "?" + s
	}
	if f.IsInt() {
		i, _ := f.Int(nil)
		return i.String()
	}
	return f.Text('f', -1)
}

// Type is an abstract schema type.
type Type struct {
	K    string   `json:"k"`
	N    string   `json:"n,omitempty"`
	S    []string `json:"s,omitempty"`
	T    *Type    `json:"t,omitempty"`
	DV   *Data    `json:"dv,omitempty"`
	F    Fields   `json:"f,omitempty"`
	E    *Type    `json:"e,omitempty"`
	Es   []*Type  `json:"es,omitempty"`
	Alts []*Type  `json:"alts,omitempty"`
}

type Fields map[string]*Field

func (f *Fields) UnmarshalJSON(b []byte) error {
	if isEmptyList(b) {
		*f = Fields{}
		return nil
	}
	var m map[string]*Field
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*f = m
	return nil
}

// MarshalJSON writes exactly the fields the specification expects of each kind.
func (t *Type) MarshalJSON() ([]byte, error) {
	m := map[string]any{"k": t.K}
	switch t.K {
	case "b":
		m["n"] = t.N
	case "e":
		m["s"] = t.S
	case "df":
		m["t"], m["dv"] = t.T, t.DV
	case "st":
		if len(t.F) == 0 {
			m["f"] = []int{}
		} else {
			m["f"] = map[string]*Field(t.F)
		}
	case "ol", "mp":
		m["e"] = t.E
	case "cl":
		es := t.Es
		if es == nil {
			es = []*Type{}
		}
		m["es"] = es
	case "u":
		m["alts"] = t.Alts
	}
	return json.Marshal(m)
}

type Field struct {
	P string `json:"p"` // "r" or "o"
	T *Type  `json:"t"`
}

func B(n string) *Type             { return &Type{K: "b", N: n} }
func Enum(s ...string) *Type       { return &Type{K: "e", S: s} }
func Def(t *Type, d *Data) *Type   { return &Type{K: "df", T: t, DV: d} }
func St(f map[string]*Field) *Type { return &Type{K: "st", F: f} }
func OL(e *Type) *Type             { return &Type{K: "ol", E: e} }
func CL(es ...*Type) *Type         { return &Type{K: "cl", Es: es} }
func Mp(e *Type) *Type             { return &Type{K: "mp", E: e} }
func U(alts ...*Type) *Type        { return &Type{K: "u", Alts: alts} }
func R(t *Type) *Field             { return &Field{"r", t} }
func O(t *Type) *Field             { return &Field{"o", t} }

var baseCUE = map[string]string{
	"any": "_", "str": "string", "bool": "bool", "int": "int", "num": "number", "float": "float", "null": "null",
	"u8": "uint8", "u16": "uint16", "u32": "uint32", "i8": "int8", "i16": "int16", "i32": "int32",
	"lt10": "int & <10", "pos": "int & >0", "si": "string | int", "sib": "string | int | bool", "ns": "null | string",
	"rex": `=~"^x"`, "min1": "strings.MinRunes(1)",
}

// CUE renders a type as a CUE expression.
func (t *Type) CUE() string {
	switch t.K {
	case "b":
		return baseCUE[t.N]
	case "e":
		parts := make([]string, len(t.S))
		for i, a := range t.S {
			parts[i] = AtomJSON(a)
		}
		return strings.Join(parts, " | ")
	case "attr":
		return t.T.CUE() + ` @cuetsy(kind="interface")`
	case "df":
		if t.T.K == "e" {
			parts := []string{}
			seen := false
			for _, a := range t.T.S {
				if t.DV.K == 'a' && a == t.DV.A {
					parts = append(parts, "*"+AtomJSON(a))
					seen = true
				} else {
					parts = append(parts, AtomJSON(a))
				}
			}
			if !seen {
				parts = append(parts, "*"+t.DV.JSON())
			}
			return strings.Join(parts, " | ")
		}
		if len(t.DV.JSON())%2 == 0 {
			return "*" + t.DV.JSON() + " | " + par(t.T.CUE())
		}
		return par(t.T.CUE()) + " | *" + t.DV.JSON()
	case "st":
		parts := []string{}
		for _, k := range SortedKeys(t.F) {
			f := t.F[k]
			o := ""
			if f.P == "o" {
				o = "?"
			}
			parts = append(parts, QuoteJSON(Unescape(k))+o+": "+f.T.CUE())
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case "ol":
		return "[..." + par(t.E.CUE()) + "]"
	case "cl":
		parts := []string{}
		for _, e := range t.Es {
			parts = append(parts, e.CUE())
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case "mp":
		return "{[string]: " + t.E.CUE() + "}"
	case "u":
		parts := []string{}
		for _, e := range t.Alts {
			parts = append(parts, e.CUE())
		}
		return strings.Join(parts, " | ")
	}
	panic("bad type " + t.K)
}

func par(s string) string {
	if strings.ContainsAny(s, "|&") {
		return "(" + s + ")"
	}
	return s
}

// V is a version.
type V [2]uint

func (v V) Less(w V) bool  { return v[0] < w[0] || v[0] == w[0] && v[1] < w[1] }
func (v V) String() string { return fmt.Sprintf("[%d, %d]", v[0], v[1]) }
func (v V) Dotted() string { return fmt.Sprintf("%d.%d", v[0], v[1]) }

type Schema struct {
	V  V                `json:"v"`
	T  *Type            `json:"t"`
	Ex map[string]*Data `json:"ex,omitempty"`
}

// Join is a struct type or absent.
type Join struct{ T *Type }

func (j *Join) MarshalJSON() ([]byte, error) {
	if j == nil || j.T == nil {
		return []byte(`{"none":true}`), nil
	}
	return json.Marshal(j.T)
}

func (j *Join) UnmarshalJSON(b []byte) error {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	if _, ok := m["none"]; ok {
		return nil
	}
	j.T = new(Type)
	return json.Unmarshal(b, j.T)
}

// Expr is a lens expression.
type Expr struct {
	X string   `json:"x"`
	P []string `json:"p,omitempty"`
	D *Data    `json:"d,omitempty"`
	E *Data    `json:"e,omitempty"`
	V string   `json:"v,omitempty"`
	F Map      `json:"f,omitempty"`
}

// MarshalJSON writes exactly the fields the specification expects.
func (x *Expr) MarshalJSON() ([]byte, error) {
	m := map[string]any{"x": x.X}
	switch x.X {
	case "cp", "op":
		m["p"] = x.P
	case "k":
		m["d"] = x.D
	case "eq":
		m["p"], m["v"], m["d"], m["e"] = x.P, x.V, x.D, x.E
	case "st":
		m["f"] = x.F
	}
	return json.Marshal(m)
}

type Map map[string]*Expr

func (f Map) MarshalJSON() ([]byte, error) {
	if len(f) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal(map[string]*Expr(f))
}

func (f *Map) UnmarshalJSON(b []byte) error {
	if isEmptyList(b) {
		*f = Map{}
		return nil
	}
	var m map[string]*Expr
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*f = m
	return nil
}

type Lacuna struct {
	Ty  int      `json:"ty"`
	Msg string   `json:"msg"`
	C   string   `json:"c"`
	P   []string `json:"p"`
	V   string   `json:"v"`
	SP  []string `json:"sp"`
	TP  []string `json:"tp"`
}

type Lens struct {
	From V        `json:"from"`
	To   V        `json:"to"`
	Map  Map      `json:"map"`
	Lac  []Lacuna `json:"lac"`
}

type GoLens struct {
	From V      `json:"from"`
	To   V      `json:"to"`
	Beh  string `json:"beh"`
	Map  Map    `json:"map"`
}

// At finds the data at a path.
func (d *Data) At(p []string) (*Data, bool) {
	for _, x := range p {
		if d.K != 'm' {
			return nil, false
		}
		n, ok := d.M[x]
		if !ok {
			return nil, false
		}
		d = n
	}
	return d, true
}

// EvalMap applies a lens mapping; it fails if the input lacks something needed.
func EvalMap(m Map, in *Data) (*Data, bool) {
	out := Obj(map[string]*Data{})
	for k, x := range m {
		switch x.X {
		case "cp", "op":
			d, ok := in.At(x.P)
			if !ok {
				if x.X == "cp" {
					return nil, false
				}
				continue
			}
			out.M[k] = d
		case "k":
			out.M[k] = x.D
		case "eq":
			d, ok := in.At(x.P)
			if !ok {
				return nil, false
			}
			if d.K == 'a' && d.A == x.V {
				out.M[k] = x.D
			} else {
				out.M[k] = x.E
			}
		case "st":
			d, ok := EvalMap(x.F, in)
			if !ok {
				return nil, false
			}
			out.M[k] = d
		}
	}
	return out, true
}

type Lin struct {
	Name    string   `json:"name"`
	Join    *Join    `json:"join"`
	Schemas []Schema `json:"schemas"`
	Lenses  []Lens   `json:"lenses"`
	GL      []GoLens `json:"gl"`
	Skip    bool     `json:"skip"`
	// How the lineage is written down and handed over; not part of the abstract lineage.
	Form string `json:"form,omitempty"`
}

func (l *Lin) MarshalJSON() ([]byte, error) {
	type alias Lin
	c := alias(*l)
	if c.Join == nil {
		c.Join = &Join{}
	}
	if c.Lenses == nil {
		c.Lenses = []Lens{}
	}
	for i := range c.Lenses {
		if c.Lenses[i].Lac == nil {
			c.Lenses[i].Lac = []Lacuna{}
		}
		if c.Lenses[i].Map == nil {
			c.Lenses[i].Map = Map{}
		}
		for j := range c.Lenses[i].Lac {
			q := &c.Lenses[i].Lac[j]
			if q.P == nil {
				q.P = []string{}
			}
			if q.SP == nil {
				q.SP = []string{}
			}
			if q.TP == nil {
				q.TP = []string{}
			}
		}
	}
	if c.GL == nil {
		c.GL = []GoLens{}
	}
	for i := range c.GL {
		if c.GL[i].Map == nil {
			c.GL[i].Map = Map{}
		}
	}
	return json.Marshal(c)
}

func sel(root string, p []string) string {
	s := root
	for _, x := range p {
		x = Unescape(x)
		if isIdent(x) {
			s += "." + x
		} else {
			s += "[" + QuoteJSON(x) + "]"
		}
	}
	return s
}

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	switch s {
	case "for", "in", "if", "let", "true", "false", "null", "package", "import":
		return false
	}
	return true
}

// renderMap renders a mapping; input says what its input is called.
func renderMap(m Map, input string) string {
	var b strings.Builder
	b.WriteString("{\n")
	for _, k := range SortedKeys(m) {
		x := m[k]
		lbl := QuoteJSON(Unescape(k))
		switch x.X {
		case "cp":
			fmt.Fprintf(&b, "%s: %s\n", lbl, sel(input, x.P))
		case "op":
			s := sel(input, x.P)
			fmt.Fprintf(&b, "if %s != _|_ {\n%s: %s\n}\n", s, lbl, s)
		case "k":
			fmt.Fprintf(&b, "%s: %s\n", lbl, x.D.JSON())
		case "eq":
			s := sel(input, x.P)
			fmt.Fprintf(&b, "if %s == %s {\n%s: %s\n}\nif %s != %s {\n%s: %s\n}\n", s, AtomJSON(x.V), lbl, x.D.JSON(), s, AtomJSON(x.V), lbl, x.E.JSON())
		case "st":
			fmt.Fprintf(&b, "%s: %s\n", lbl, renderMap(x.F, input))
		}
	}
	b.WriteString("}")
	return b.String()
}

var lacTypes = map[int]string{1: "Placeholder", 2: "DroppedField", 3: "LossyFieldMapping", 4: "ChangedDefault"}

func renderLens(l Lens) string {
	return fmt.Sprintf("{\nto: %s\nfrom: %s\ninput: _\nresult: %s\nlacunas: %s\n}", l.To, l.From, renderMap(l.Map, "input"), renderLacunas(l.Lac, "input", "result"))
}

func renderLacunas(lac []Lacuna, input, result string) string {
	var b strings.Builder
	b.WriteString("[\n")
	for _, q := range lac {
		fld := func(root string, p []string) string {
			if len(p) == 0 {
				return "[]"
			}
			dotted := make([]string, len(p))
			for i := range p {
				dotted[i] = Unescape(p[i])
			}
			return fmt.Sprintf("[{path: %s, value: %s}]", QuoteJSON(strings.Join(dotted, ".")), sel(root, p))
		}
		body := fmt.Sprintf("sourceFields: %s\ntargetFields: %s\nmessage: %s\ntype: {name: %q, id: %d}\n",
			fld(input, q.SP), fld(result, q.TP), QuoteJSON(q.Msg), lacTypes[q.Ty], q.Ty)
		switch q.C {
		case "always":
			fmt.Fprintf(&b, "{\n%s},\n", body)
		case "never":
			fmt.Fprintf(&b, "{\ncondition: false\n%s},\n", body)
		case "eq":
			fmt.Fprintf(&b, "{\ncondition: %s == %s\n%s},\n", sel(input, q.P), AtomJSON(q.V), body)
		case "has":
			fmt.Fprintf(&b, "if %s != _|_ {\n%s},\n", sel(input, q.P), body)
		}
	}
	b.WriteString("]")
	return b.String()
}

// Legacy renders the lineage in the old form: a list of sequences of schemas,
// with the lenses between them.  The form has no place for lenses within a
// sequence, nor for examples.
func (l *Lin) Legacy() string {
	var b strings.Builder
	fmt.Fprintf(&b, "name: %s\n", QuoteJSON(Unescape(l.Name)))
	if l.Join != nil && l.Join.T != nil {
		fmt.Fprintf(&b, "joinSchema: %s\n", l.Join.T.CUE())
	}
	b.WriteString("seqs: [\n")
	for i := 0; i < len(l.Schemas); {
		j := i
		b.WriteString("{\nschemas: [\n")
		for ; j < len(l.Schemas) && l.Schemas[j].V[0] == l.Schemas[i].V[0]; j++ {
			b.WriteString(l.Schemas[j].T.CUE() + ",\n")
		}
		b.WriteString("]\n")
		if i > 0 {
			p, q := l.Schemas[i-1].V, l.Schemas[i].V
			at := func(v V) string { return fmt.Sprintf("seqs[%d].schemas[%d]", v[0], v[1]) }
			for _, x := range l.Lenses {
				if x.From == p && x.To == q || x.From == q && x.To == p {
					dir := "forward"
					if x.To == p {
						dir = "reverse"
					}
					fmt.Fprintf(&b, "lens: %s: {\nto: %s\nfrom: %s\ntranslated: to & rel\nrel: %s\nlacunas: %s\n}\n",
						dir, at(x.To), at(x.From), renderMap(x.Map, "from"), renderLacunas(x.Lac, "from", "to"))
				}
			}
		}
		b.WriteString("},\n")
		i = j
	}
	b.WriteString("]\n")
	return b.String()
}

// JSONSchema renders a type made of what JSON Schema has words for; Foreign
// makes such a type.
func (t *Type) JSONSchema() string {
	q := QuoteJSON
	switch t.K {
	case "b":
		return jsonBase[t.N]
	case "e":
		vs := make([]string, len(t.S))
		for i, a := range t.S {
			vs[i] = AtomJSON(a)
		}
		return `{"type": "string", "enum": [` + strings.Join(vs, ", ") + `]}`
	case "st":
		var ps, req []string
		for _, k := range SortedKeys(t.F) {
			n := q(Unescape(k))
			ps = append(ps, n+": "+t.F[k].T.JSONSchema())
			if t.F[k].P == "r" {
				req = append(req, n)
			}
		}
		r := ""
		if len(req) > 0 {
			r = `, "required": [` + strings.Join(req, ", ") + `]`
		}
		return `{"type": "object", "properties": {` + strings.Join(ps, ", ") + `}` + r + `, "additionalProperties": false}`
	case "ol":
		return `{"type": "array", "items": ` + t.E.JSONSchema() + `}`
	}
	panic("harness: no JSON Schema for " + t.K)
}

var jsonBase = map[string]string{"str": `{"type": "string"}`, "int": `{"type": "integer"}`, "bool": `{"type": "boolean"}`, "num": `{"type": "number"}`,
	"min1": `{"type": "string", "minLength": 1}`}

// Foreign is the type with everything JSON Schema has no simple word for
// replaced.
func (t *Type) Foreign() *Type {
	switch t.K {
	case "b":
		if jsonBase[t.N] != "" {
			return t
		}
		return B("int")
	case "e":
		if strings.HasPrefix(t.S[0], "s:") {
			return t
		}
		return B("num")
	case "df":
		return t.T.Foreign()
	case "st":
		f := Fields{}
		for k, x := range t.F {
			f[k] = &Field{x.P, x.T.Foreign()}
		}
		return St(f)
	case "ol":
		return OL(t.E.Foreign())
	}
	return B("str")
}

// LensResult renders what a lens does.
func (x Lens) LensResult() string { return renderMap(x.Map, "input") }

// Body renders the lineage as the fields of a CUE struct.
func (l *Lin) Body() string {
	var b strings.Builder
	fmt.Fprintf(&b, "name: %s\n", QuoteJSON(Unescape(l.Name)))
	if l.Join != nil && l.Join.T != nil {
		fmt.Fprintf(&b, "joinSchema: %s\n", l.Join.T.CUE())
	}
	b.WriteString("schemas: [\n")
	for _, s := range l.Schemas {
		fmt.Fprintf(&b, "{\nversion: %s\nschema: %s\n", s.V, s.T.CUE())
		if len(s.Ex) > 0 {
			b.WriteString("examples: {\n")
			for _, k := range SortedKeys(s.Ex) {
				fmt.Fprintf(&b, "%s: %s\n", QuoteJSON(k), s.Ex[k].JSON())
			}
			b.WriteString("}\n")
		}
		b.WriteString("},\n")
	}
	b.WriteString("]\n")
	if len(l.Lenses) > 0 {
		b.WriteString("lenses: [\n")
		for _, x := range l.Lenses {
			b.WriteString(renderLens(x))
			b.WriteString(",\n")
		}
		b.WriteString("]\n")
	}
	return b.String()
}

// BodyAttrs renders the lineage with attributes on the top-level fields of its
// schemas that are structs, asking for TypeScript interfaces.
func (l *Lin) BodyAttrs() string {
	c := *l
	c.Schemas = nil
	for _, s := range l.Schemas {
		t := &Type{K: "st", F: Fields{}}
		for k, f := range s.T.F {
			t.F[k] = f
			if f.T.K == "st" {
				t.F[k] = &Field{f.P, &Type{K: "attr", T: f.T}}
			}
		}
		s.T = t
		c.Schemas = append(c.Schemas, s)
	}
	return c.Body()
}

// NeedsStrings tells whether the rendered lineage refers to package strings.
func NeedsStrings(src string) bool { return strings.Contains(src, "strings.MinRunes") }

// Source renders the lineage as a CUE file without package clause.
func (l *Lin) Source() string {
	body := l.Body()
	if NeedsStrings(body) {
		return "import \"strings\"\n\n" + body
	}
	return body
}

// JoinOf is a schema together with what the lineage's joinSchema adds.
func JoinOf(j *Join, t *Type) *Type {
	if j == nil || j.T == nil {
		return t
	}
	f := Fields{}
	for k, x := range j.T.F {
		f[k] = x
	}
	for k, x := range t.F {
		p := x.P
		if y, ok := j.T.F[k]; ok && y.P == "r" {
			p = "r"
		}
		f[k] = &Field{p, x.T}
	}
	return &Type{K: "st", F: f}
}
