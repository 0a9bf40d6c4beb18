package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)


// Decl declares (or embeds) a variable with its initial value.
type Decl struct {
	N     string   `json:"n"`
	T     T        `json:"t"`
	V     V        `json:"v"`
	Alias []string `json:"alias,omitempty"`
	Emb   int      `json:"emb,omitempty"`
}

type Step struct {
	Op  string       `json:"op"` // new, set, exec, reset
	T   int          `json:"t"`  // template, 1 based
	S   int          `json:"s"`  // state, 1 based
	Set []Decl       `json:"set"`
}

type Tpl struct {
	Src string          `json:"src"`
	Ast json.RawMessage `json:"ast,omitempty"`
}

type Case struct {
	ID    string                 `json:"id"`
	Types map[string][]FieldDesc `json:"types"`
	Decl  []Decl                 `json:"decl"`
	Heap  []Obj                  `json:"heap"`
	Tpls  []Tpl                  `json:"tpls"`
	Steps []Step                 `json:"steps"`
	Esc   int                    `json:"esc"`
	Panic int                    `json:"panic"`
	Buf   int                    `json:"buf"`
	Cache int                    `json:"cache"`
	Pool  int                    `json:"pool"` // size of the pool of the get and put steps
	Dup   int                    `json:"dup"`  // how many times in a row the provider of the pool gives the same state
}

// Obs is what one exec step (or the compilation, as first entry) showed.
type Obs struct {
	St   string   `json:"st"`
	Out  string   `json:"out"`
	Msg  string   `json:"msg"`
	Ev   []string `json:"ev"`
	Vars []string `json:"vars"`
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func mustUnJSON(b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		panic(fmt.Errorf("%w: %s", err, b))
	}
}

func newPlanner(c *Case, w *world) (*velty.Planner, error) {
	p := velty.New(velty.BufferSize(c.Buf), velty.CacheSize(c.Cache), velty.EscapeHTML(c.Esc == 1), velty.PanicOnError(c.Panic == 1))
	for name, f := range allFuncs() {
		if err := p.RegisterFunction(name, f); err != nil {
			return nil, fmt.Errorf("register %v: %w", name, err)
		}
	}
	for _, d := range c.Decl {
		rt := w.rtype(d.T)
		var err error
		if d.Emb == 1 {
			err = p.EmbedVariable(rt)
		} else {
			err = p.DefineVariable(d.N, rt, d.Alias...)
		}
		if err != nil {
			return nil, err
		}
	}
	return p, nil
}

func slot(state *est.State, name string) (reflect.Value, bool) {
	acc, ok := state.StateType.ValueAccessor(name)
	if !ok {
		return reflect.Value{}, false
	}
	return reflect.NewAt(acc.Type, unsafe.Pointer(uintptr(state.MemPtr)+acc.Offset)).Elem(), true
}

func setVars(state *est.State, w *world, ds []Decl) error {
	for _, d := range ds {
		rt := w.rtype(d.T)
		v := reflect.New(rt).Elem()
		w.fill(v, d.V)
		if d.Emb == 1 {
			if err := state.EmbedValue(v.Interface()); err != nil {
				return err
			}
			continue
		}
		switch rt.Kind() {
		case reflect.Int, reflect.String, reflect.Float64, reflect.Bool, reflect.Ptr, reflect.Slice, reflect.Map, reflect.Struct:
			if rt.Kind() == reflect.Struct || rt.Kind() == reflect.Map || rt.Kind() == reflect.Slice || rt.Kind() == reflect.Ptr {
				if err := state.SetValue(d.N, v.Interface()); err != nil {
					return err
				}
				continue
			}
			if err := state.SetValue(d.N, v.Interface()); err != nil {
				return err
			}
		default:
			s, ok := slot(state, d.N)
			if !ok {
				return fmt.Errorf("undefined %v", d.N)
			}
			s.Set(v)
		}
	}
	return nil
}

func protect(f func() error) (st, msg string) {
	defer func() {
		if r := recover(); r != nil {
			st = "panic"
			msg = fmt.Sprint(r)
		}
	}()
	if err := f(); err != nil {
		return "err", err.Error()
	}
	return "ok", ""
}

func (c *Case) dumpVars(state *est.State, extra []string) []string {
	res := []string{}
	for _, d := range c.Decl {
		if d.Emb == 1 {
			continue
		}
		if s, ok := slot(state, d.N); ok {
			res = append(res, d.N+"="+unlatin(dump(s)))
		}
	}
	return res
}

// runCase compiles all templates on one planner and runs the steps.
func runCase(c *Case) (result []Obs) {
	defer func() {
		if r := recover(); r != nil { // values of the state are no longer readable
			result = append(result, Obs{St: "harness", Msg: fmt.Sprint(r)})
		}
	}()
	type text struct {
		at int
		s  string
	}
	var later []text // the outputs seen: they have to stay what they were
	defer func() {
		for _, t := range later {
			if t.at < len(result) {
				result[t.at].Out = unlatin(t.s)
			}
		}
	}()
	w := &world{types: c.Types, cache: map[string]reflect.Type{}, heap: c.Heap, built: map[int]reflect.Value{}}
	var p *velty.Planner
	st, msg := protect(func() (err error) { p, err = newPlanner(c, w); return err })
	if st != "ok" {
		return []Obs{{St: "d" + st, Msg: unlatin(msg)}}
	}
	var execs []*est.Execution
	var newState func() *est.State
	if c.Dup < 1 {
		c.Dup = 1
	}
	for i, tpl := range c.Tpls {
		var ex *est.Execution
		st, msg = protect(func() (err error) { ex, newState, err = p.Compile([]byte(latin(tpl.Src))); return err })
		if st != "ok" {
			return []Obs{{St: "c" + st, Msg: unlatin(msg), Out: fmt.Sprint(i + 1)}}
		}
		execs = append(execs, ex)
	}
	result = []Obs{{St: "ok"}}
	states := map[int]*est.State{}
	var given *est.State
	left := 0
	pool := velty.NewPool(c.Pool, func() *est.State {
		if left == 0 {
			given, left = newState(), c.Dup
		}
		left--
		return given
	})
	ids := map[*est.State]int{} // keeps the states alive: no address is used twice
	for _, step := range c.Steps {
		switch step.Op {
		case "new":
			state := newState()
			states[step.S] = state
			if err := setVars(state, w, c.Decl); err != nil {
				return append(result, Obs{St: "seterr", Msg: unlatin(err.Error())})
			}
		case "set":
			if err := setVars(states[step.S], w, step.Set); err != nil {
				return append(result, Obs{St: "seterr", Msg: unlatin(err.Error())})
			}
		case "reset":
			states[step.S].Reset()
		case "get":
			var o Obs
			o.St, o.Msg = protect(func() error {
				state := pool.State()
				if state == nil {
					return fmt.Errorf("nil state")
				}
				states[step.S] = state
				if ids[state] == 0 {
					ids[state] = len(ids) + 1
				}
				o.Out = unlatin(state.Buffer.String())
				o.Ev = []string{fmt.Sprint(ids[state]), fmt.Sprint(len(state.Errors))}
				o.Vars = c.dumpVars(state, nil)
				return nil
			})
			result = append(result, o)
			if o.St != "ok" {
				return result
			}
		case "put":
			pool.Put(states[step.S])
		case "gc":
			runtime.GC()
		case "exec":
			events = []string{}
			state := states[step.S]
			var o Obs
			o.St, o.Msg = protect(func() error { return execs[step.T-1].Exec(state) })
			o.Msg = unlatin(w.named(o.Msg))
			later = append(later, text{len(result), state.Buffer.String()})
			for _, e := range events {
				o.Ev = append(o.Ev, unlatin(e))
			}
			o.Vars = c.dumpVars(state, nil)
			result = append(result, o)
		}
	}
	return result
}
