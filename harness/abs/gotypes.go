package abs

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

// GoT is a Go type of the specification.
type GoT struct {
	G string `json:"g"`
	E *GoT   `json:"e,omitempty"`
	N int    `json:"n,omitempty"`
	F GoFs   `json:"f,omitempty"`
}

// GoF is a field of a struct.
type GoF struct {
	T  *GoT `json:"t"`
	OE bool `json:"oe"`
}

// GoFs are the fields of a struct, by their names in JSON.
type GoFs map[string]*GoF

func (t *GoT) MarshalJSON() ([]byte, error) {
	m := map[string]any{"g": t.G}
	switch t.G {
	case "struct":
		if len(t.F) == 0 {
			m["f"] = []int{}
		} else {
			m["f"] = map[string]*GoF(t.F)
		}
	case "array":
		m["n"], m["e"] = t.N, t.E
	case "slice", "map", "ptr":
		m["e"] = t.E
	}
	return json.Marshal(m)
}

func (f *GoFs) UnmarshalJSON(b []byte) error {
	*f = GoFs{}
	if isEmptyList(b) {
		return nil
	}
	m := map[string]*GoF{}
	err := json.Unmarshal(b, &m)
	*f = m
	return err
}

var goBasic = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float64": reflect.TypeOf(float64(0)), "float32": reflect.TypeOf(float32(0)),
	"any": reflect.TypeOf((*any)(nil)).Elem(), "big": reflect.TypeOf(big.Int{}),
}

// Reflect makes the type.
func (t *GoT) Reflect() reflect.Type {
	switch t.G {
	case "struct":
		var fs []reflect.StructField
		for i, k := range SortedKeys(t.F) {
			tag := Unescape(k)
			if t.F[k].OE {
				tag += ",omitempty"
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t.F[k].T.Reflect(), Tag: reflect.StructTag(fmt.Sprintf("json:%q", tag))})
		}
		return reflect.StructOf(fs)
	case "slice":
		return reflect.SliceOf(t.E.Reflect())
	case "array":
		return reflect.ArrayOf(t.N, t.E.Reflect())
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), t.E.Reflect())
	case "ptr":
		return reflect.PointerTo(t.E.Reflect())
	}
	r, ok := goBasic[t.G]
	if !ok {
		panic("harness: no Go type " + t.G)
	}
	return r
}

// Go writes the type down as source.
func (t *GoT) Go() string {
	switch t.G {
	case "struct":
		var b strings.Builder
		b.WriteString("struct {\n")
		for i, k := range SortedKeys(t.F) {
			tag := Unescape(k)
			if t.F[k].OE {
				tag += ",omitempty"
			}
			fmt.Fprintf(&b, "F%d %s `json:%q`\n", i, t.F[k].T.Go(), tag)
		}
		b.WriteString("}")
		return b.String()
	case "slice":
		return "[]" + t.E.Go()
	case "array":
		return fmt.Sprintf("[%d]%s", t.N, t.E.Go())
	case "map":
		return "map[string]" + t.E.Go()
	case "ptr":
		return "*" + t.E.Go()
	case "big":
		return "big.Int"
	}
	return t.G
}

// Taggable tells whether all names in a type can be the name of a Go field.
func Taggable(t *Type) bool {
	if t == nil {
		return true
	}
	for k, f := range t.F {
		n := Unescape(k)
		if n == "" || n == "-" || strings.ContainsAny(n, ",\"`\\") || !Taggable(f.T) {
			return false
		}
		for _, r := range n {
			// names encoding/json does not take from a tag
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", r)) {
				return false
			}
		}
	}
	ok := Taggable(t.T) && Taggable(t.E)
	for _, x := range t.Es {
		ok = ok && Taggable(x)
	}
	for _, x := range t.Alts {
		ok = ok && Taggable(x)
	}
	return ok
}
