package run

import (
	"bytes"
	"encoding/json"
	"runtime"
	"sync"
	"time"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"

	"verif/harness/abs"
)

func init() { ops["fresh"] = opFresh }

// opFresh goes on with a runtime of its own.
func opFresh(e *Env, op *Op, ev Event) bool {
	e.Ctx = cuecontext.New()
	e.RT = thema.NewRuntime(e.Ctx)
	return false
}

// dawn is the number of things that went wrong in Dawn and are yet to be reported.
var dawn int

// Dawn makes the first runtimes of this process, several at the same time.
func Dawn(limit time.Duration) {
	races := raceErrors()
	start := make(chan bool)
	ends := make(chan bool, 4)
	for i := 0; i < cap(ends); i++ {
		go func() {
			defer func() { ends <- recover() == nil }()
			<-start
			ctx := cuecontext.New()
			v := ctx.CompileString(`name: "dawn", schemas: [{version: [0, 0], schema: {a: int}}]`)
			if _, err := thema.BindLineage(v, thema.NewRuntime(ctx)); err != nil {
				panic(err)
			}
		}()
	}
	close(start)
	late := time.After(limit)
	for i := 0; i < cap(ends); i++ {
		select {
		case ok := <-ends:
			if !ok {
				dawn++
			}
		case <-late:
			dawn++
			return
		}
	}
	dawn += raceErrors() - races
}

// callLog records calls of lenses, for each goroutine by itself when there are
// several.
type callLog struct {
	mu  sync.Mutex
	par bool
	m   map[string][]string
}

func (c *callLog) key() string {
	if !c.par {
		return ""
	}
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	return string(bytes.Fields(b)[1])
}

func (c *callLog) add(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m[c.key()] = append(c.m[c.key()], s)
}

func (c *callLog) reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, c.key())
}

func (c *callLog) made() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.m[c.key()]...)
}

// fork is the same environment for another goroutine.
func (e *Env) fork() *Env {
	f := &Env{Ctx: e.Ctx, RT: e.RT, calls: e.calls, sid: e.sid,
		lins: map[string]thema.Lineage{}, spec: map[string]*abs.Lin{}, hs: map[string]*thema.Instance{}, ts: map[string]typed{}}
	for k, v := range e.lins {
		f.lins[k] = v
	}
	for k, v := range e.spec {
		f.spec[k] = v
	}
	for k, v := range e.hs {
		f.hs[k] = v
	}
	for k, v := range e.ts {
		f.ts[k] = v
	}
	return f
}

func (e *Env) decoded(op *Op) (cue.Value, error) {
	if v, has := e.pre[op]; has {
		return v, v.Err()
	}
	return e.Decode(op.D, op.In)
}

func (e *Env) compiled(op *Op) (cue.Value, error) {
	if v, has := e.pre[op]; has {
		return v, v.Err()
	}
	return e.CompileLin(op.Lin)
}

// prepare does beforehand what is not Thema's: making values.
func (e *Env) prepare(s *Scenario, is []int) {
	if s.Ops[is[0]].E == "fresh" {
		return
	}
	e.pre = map[*Op]cue.Value{}
	for _, i := range is {
		op := &s.Ops[i]
		var v cue.Value
		var err error
		switch op.E {
		case "validate", "any", "vtyped":
			v, err = e.Decode(op.D, op.In)
		case "bind":
			v, err = e.CompileLin(op.Lin)
		default:
			continue
		}
		if err == nil || op.E == "bind" {
			e.pre[op] = v
		}
	}
}

// alone runs the operations of a scenario for several goroutines one after
// another, on another runtime.
func alone(s *Scenario) map[int]string {
	t := &Scenario{ID: s.ID}
	par := false
	for _, o := range s.Ops {
		par = par || o.P > 0
		o.P = 0
		t.Ops = append(t.Ops, o)
	}
	if !par {
		return nil
	}
	out := map[int]string{}
	e := NewEnv()
	e.Emit = func(ev Event) { out[ev["i"].(int)] = essence(ev) }
	e.Run(t)
	return out
}

// essence is what must not depend on what else is going on.
func essence(ev Event) string {
	m := map[string]any{}
	for k, v := range ev {
		if k != "msg" && k != "lin" {
			m[k] = v
		}
	}
	b, _ := json.Marshal(m)
	return string(b)
}

// together runs the operations [from, to) at the same time, those with the same
// number one after another.
func (e *Env) together(s *Scenario, from, to int) bool {
	rec := make([]Event, to-from)
	ths := map[int][]int{}
	for i := from; i < to; i++ {
		ths[s.Ops[i].P] = append(ths[s.Ops[i].P], i)
	}
	whole := Event{"e": "par", "sid": s.ID, "i": from, "threads": len(ths)}
	e.mu.Lock()
	e.cur, e.since = whole, time.Now()
	e.mu.Unlock()
	races := raceErrors()
	e.calls.par = true
	start := make(chan bool)
	var wg sync.WaitGroup
	fs := map[int]*Env{}
	for n, is := range ths {
		f, is := e.fork(), is
		f.prepare(s, is)
		fs[n] = f
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, i := range is {
				ev := f.event(s, i)
				ev["par"] = true
				if f.do(&s.Ops[i], ev) {
					rec[i-from] = ev
					if ev["r"] == "panic" {
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	e.calls.par = false
	e.mu.Lock()
	e.cur = nil
	e.mu.Unlock()
	ok := true
	differs := []any{}
	for j, ev := range rec {
		if ev != nil {
			what := ev["par"]
			delete(ev, "par")
			switch x := what.(type) {
			case *thema.Instance:
				project(ev, x)
			case func():
				x()
			}
			if essence(ev) != e.solo[from+j] {
				differs = append(differs, from+j)
			}
			e.Emit(ev)
			ok = ok && ev["r"] != "panic"
		} else if e.solo[from+j] != "" {
			differs = append(differs, from+j)
		}
	}
	whole["r"] = "ok"
	whole["differs"] = differs
	whole["races"] = raceErrors() - races + dawn
	dawn = 0
	e.Emit(whole)
	for _, f := range fs {
		for k, v := range f.lins {
			e.lins[k] = v
		}
		for k, v := range f.spec {
			e.spec[k] = v
		}
		for k, v := range f.hs {
			e.hs[k] = v
		}
		for k, v := range f.ts {
			e.ts[k] = v
		}
	}
	return ok
}
