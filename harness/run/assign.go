package run

import (
	"reflect"

	"github.com/grafana/thema"
)

func init() { ops["assign"] = opAssign }

// opAssign asks whether a Go type fits a schema.
func opAssign(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	ev["G"] = op.G
	x := reflect.New(op.G.Reflect()).Elem()
	// a pointer has to point to something
	if x.Kind() == reflect.Ptr {
		x.Set(reflect.New(x.Type().Elem()))
	}
	if err := thema.AssignableTo(s, x.Interface()); err != nil {
		fail(ev, err)
		return true
	}
	ev["r"] = "ok"
	return true
}
