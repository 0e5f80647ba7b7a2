package run

import (
	"strconv"
	"strings"

	"github.com/grafana/thema"

	"verif/harness/abs"
)

func init() {
	ops["parse"] = opParse
	ops["order"] = opOrder
}

func numerals(v thema.SyntacticVersion) []string {
	return []string{strconv.FormatUint(uint64(v[0]), 10), strconv.FormatUint(uint64(v[1]), 10)}
}

// opParse reads a version from text.
func opParse(e *Env, op *Op, ev Event) bool {
	ev["s"] = op.S
	v, err := thema.ParseSyntacticVersion(abs.Unescape(op.S))
	if err != nil {
		fail(ev, err)
		return true
	}
	ev["r"] = "ok"
	ev["n"] = numerals(v)
	ev["str"] = abs.Escape(v.String())
	again, err := thema.ParseSyntacticVersion(v.String())
	ev["again"] = err == nil && again == v
	return true
}

// opOrder compares two versions.
func opOrder(e *Env, op *Op, ev Event) bool {
	a, b := num(op.S), num(op.S2)
	ev["s"], ev["s2"] = op.S, op.S2
	ev["r"] = "ok"
	ev["lt"], ev["gt"] = a.Less(b), b.Less(a)
	ev["eq"] = a == b
	ev["str"] = a.String()
	return true
}

func num(s string) thema.SyntacticVersion {
	x, y, _ := strings.Cut(s, ".")
	m, err := strconv.ParseUint(x, 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	n, err := strconv.ParseUint(y, 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return thema.SV(uint(m), uint(n))
}
