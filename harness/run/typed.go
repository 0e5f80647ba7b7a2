package run

import (
	"encoding/json"
	"reflect"
	"strconv"
	"sync"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/vmux"

	"verif/harness/abs"
)

// Static is a Go type known at compile time, with the type of the
// specification it was made for.
type Static struct {
	T    *abs.Type
	G    *abs.GoT
	bind func(s thema.Schema) (typed, error)
}

// typed is a typed schema, whatever its Go type.
type typed interface {
	newT() (*abs.Data, bool)
	instance(e *Env, ev Event, inst *thema.Instance) bool
	validate(e *Env, ev Event, v cue.Value) bool
	mux(e *Env, op *Op, ev Event, codec vmux.Codec, in []byte) bool
	schema() thema.Schema
	convergent(lin thema.Lineage) bool
}

// Statics are filled in by statics.go, which "vh statics" writes.
var Statics []Static

func static[T any](t, g string) Static {
	s := Static{T: new(abs.Type), G: new(abs.GoT)}
	if err := json.Unmarshal([]byte(t), s.T); err != nil {
		panic(err)
	}
	if err := json.Unmarshal([]byte(g), s.G); err != nil {
		panic(err)
	}
	s.bind = func(s thema.Schema) (typed, error) {
		ts, err := thema.BindType[*T](s, new(T))
		if err != nil {
			return nil, err
		}
		return &typedOf[*T]{ts: ts}, nil
	}
	return s
}

type typedOf[T any] struct {
	ts    thema.TypedSchema[T]
	muxes sync.Map
}

// goValue abstracts a Go value by way of its JSON form.
func goValue(x any) *abs.Data {
	b, err := json.Marshal(x)
	if err != nil {
		return abs.Atom("?:" + clip(err.Error()))
	}
	d, err := abs.FromJSON(b)
	if err != nil {
		return abs.Atom("?:" + clip(err.Error()))
	}
	return d
}

// scribble changes whatever a Go value holds.
func scribble(v reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(99)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(99)
		}
	}
}

func (t *typedOf[T]) schema() thema.Schema { return t.ts }

func (t *typedOf[T]) convergent(lin thema.Lineage) bool {
	cl := t.ts.ConvergentLineage()
	return cl != nil && cl.TypedSchema() == t.ts && cl.Name() == lin.Name() && cl.Latest().Version() == lin.Latest().Version() &&
		t.ts.Lineage() == lin
}

// newT makes a new value, and tells whether values are independent of each other.
func (t *typedOf[T]) newT() (*abs.Data, bool) {
	x := t.ts.NewT()
	d := goValue(x)
	scribble(reflect.ValueOf(x), 0)
	return d, goValue(t.ts.NewT()).JSON() == d.JSON()
}

// look records the Go value of a typed instance.
func (t *typedOf[T]) look(e *Env, ev Event, ti *thema.TypedInstance[T]) bool {
	ev["samelin"] = ti.TypedSchema() == t.ts
	x, err := ti.Value()
	if err != nil {
		fail(ev, err)
		ev["stage"] = "value"
		return true
	}
	ev["r"] = "ok"
	ev["ov"] = vs(ti.Schema().Version())
	ev["od"] = goValue(x)
	// what the caller does to it has no effect on the instance
	scribble(reflect.ValueOf(x), 0)
	y := ti.ValueP()
	ev["again"] = goValue(y).JSON() == ev["od"].(*abs.Data).JSON()
	return true
}

func (t *typedOf[T]) instance(e *Env, ev Event, inst *thema.Instance) bool {
	ti, err := thema.BindInstanceType[T](inst, t.ts)
	if err != nil {
		fail(ev, err)
		ev["nilres"] = ti == nil
		ev["stage"] = "bind"
		return true
	}
	return t.look(e, ev, ti)
}

func (t *typedOf[T]) validate(e *Env, ev Event, v cue.Value) bool {
	ti, err := t.ts.ValidateTyped(v)
	if err != nil {
		fail(ev, err)
		ev["nilres"] = ti == nil
		ev["stage"] = "validate"
		return true
	}
	return t.look(e, ev, ti)
}

func (t *typedOf[T]) mux(e *Env, op *Op, ev Event, codec vmux.Codec, in []byte) bool {
	keep := string(in)
	e.calls.reset()
	if op.K == "typed" {
		inst, lac, err := again(&t.muxes, nil, op, func() vmux.TypedMux[T] { return vmux.NewTypedMux[T](t.ts, codec) })(in)
		ev["calls"] = e.calls.made()
		ev["kept"] = keep == string(in)
		if err != nil {
			fail(ev, err)
			ev["nilres"] = inst == nil
			return true
		}
		if inst == nil {
			ev["r"] = "nil"
			return true
		}
		ev["r"] = "ok"
		project(ev, inst.Instance)
		lacunas(ev, lac)
		ev["samelin"] = inst.TypedSchema() == t.ts
		return true
	}
	val, lac, err := again(&t.muxes, nil, op, func() vmux.ValueMux[T] { return vmux.NewValueMux[T](t.ts, codec) })(in)
	ev["calls"] = e.calls.made()
	ev["kept"] = keep == string(in)
	if err != nil {
		fail(ev, err)
		return true
	}
	ev["r"] = "ok"
	ev["ov"] = *op.V
	ev["od"] = goValue(val)
	lacunas(ev, lac)
	return true
}

func init() {
	ops["bindtype"] = opBindType
	ops["value"] = opValue
	ops["vtyped"] = opVTyped
}

// typedFor gives the typed schema an operation is about: that of the version
// op.V of the lineage op.L, with the Go type number op.S.
func (e *Env) typedFor(op *Op) typed { return e.ts[op.L+"/"+op.V.Dotted()+"/"+op.S] }

func opBindType(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	n, _ := strconv.Atoi(op.S)
	st := Statics[n]
	ev["G"] = st.G
	t, err := st.bind(s)
	if err != nil {
		fail(ev, err)
		return true
	}
	e.ts[op.L+"/"+op.V.Dotted()+"/"+op.S] = t
	ev["r"] = "ok"
	ev["ov"] = vs(t.schema().Version())
	ev["conv"] = t.convergent(e.lins[op.L])
	ev["od"], ev["again"] = t.newT()
	return true
}

func opValue(e *Env, op *Op, ev Event) bool {
	in, t := e.hs[op.H], e.typedFor(op)
	if in == nil || t == nil {
		return false
	}
	ev["G"] = goOf(op)
	look := func() (*abs.Data, error) {
		if ev["par"] != nil {
			return abs.Atom("null"), nil
		}
		return Abstract(in.Underlying())
	}
	before, err := look()
	if err != nil {
		return false
	}
	r := t.instance(e, ev, in)
	after, err := look()
	ev["kept"] = err == nil && before.JSON() == after.JSON()
	return r
}

func goOf(op *Op) *abs.GoT {
	n, _ := strconv.Atoi(op.S)
	return Statics[n].G
}

func opVTyped(e *Env, op *Op, ev Event) bool {
	t := e.typedFor(op)
	if t == nil {
		return false
	}
	ev["G"] = goOf(op)
	val, err := e.decoded(op)
	if err != nil {
		return false
	}
	return t.validate(e, ev, val)
}
