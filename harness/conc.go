package main

// conc.go: several goroutines execute the templates of one planner, each with a state, values and events of its own;
// either freely or switching at function calls as a schedule tells.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/viant/velty/est"
)

type runner struct {
	Decl  []Decl `json:"decl"`
	Heap  []Obj  `json:"heap"`
	Steps []Step `json:"steps"`

	n      int
	w      *world
	events []string
	turn   chan bool
	obs    []Obs
}

type concCase struct {
	Case
	Runners  []*runner `json:"runners"`
	Schedule []int     `json:"schedule"` // runner numbers, 1 based; none: all run freely
}

// runners by goroutine while a concurrent case runs; read only during the run
var runners map[int64]*runner
var gate func(r *runner)

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	fields := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(fields[1]), 10, 64)
	return id
}

// recordConcurrent adds an event of the running goroutine; false outside of concurrent cases.
func recordConcurrent(event string) bool {
	if runners == nil {
		return false
	}
	r, ok := runners[goid()]
	if !ok {
		panic("call from an unknown goroutine")
	}
	r.events = append(r.events, event)
	if gate != nil {
		gate(r)
	}
	return true
}

func init() {
	handlers["conc"] = func(line []byte) interface{} {
		c := &concCase{}
		if err := json.Unmarshal(line, c); err != nil {
			return []Obs{{St: "harness", Msg: err.Error()}}
		}
		return runConcurrent(c)
	}
}

func runConcurrent(c *concCase) interface{} {
	w := &world{types: c.Types, cache: map[string]reflect.Type{}, heap: c.Heap, built: map[int]reflect.Value{}}
	all := func(o Obs) interface{} {
		res := make([][]Obs, len(c.Runners))
		for i := range res {
			res[i] = []Obs{o}
		}
		return res
	}
	var execs []*est.Execution
	var newState func() *est.State
	st, msg := protect(func() error {
		p, err := newPlanner(&c.Case, w)
		if err != nil {
			return err
		}
		for i, tpl := range c.Tpls {
			var ex *est.Execution
			if ex, newState, err = p.Compile([]byte(latin(tpl.Src))); err != nil {
				return fmt.Errorf("%d %w", i+1, err)
			}
			execs = append(execs, ex)
		}
		return nil
	})
	if st != "ok" {
		o := Obs{St: "c" + st, Msg: unlatin(msg)}
		if len(msg) > 0 {
			o.Out = msg[:1]
		}
		return all(o)
	}

	ids := make(chan int64)
	start := make(chan bool)
	back := make(chan bool, 4*len(c.Runners)+4)
	var free sync.Once
	released := make(chan bool)
	release := func() { free.Do(func() { close(released) }) }
	gate = nil
	if len(c.Schedule) > 0 {
		gate = func(r *runner) {
			select {
			case <-released:
				return
			default:
			}
			back <- true
			select {
			case <-r.turn:
			case <-released:
			}
		}
	}
	table := map[int64]*runner{}
	done := make([]chan bool, len(c.Runners))
	for i, r := range c.Runners {
		r.n, r.turn = i, make(chan bool, 1)
		r.w = &world{types: c.Types, cache: map[string]reflect.Type{}, heap: r.Heap, built: map[int]reflect.Value{}}
		for _, d := range r.Decl { // the types are made before, not while others run
			r.w.rtype(d.T)
		}
		done[i] = make(chan bool)
		go func(r *runner) {
			ids <- goid()
			<-start
			if len(c.Schedule) > 0 {
				select {
				case <-r.turn:
				case <-released:
				}
			}
			r.run(c, execs, newState)
			close(done[r.n])
			back <- true
		}(r)
		table[<-ids] = r
	}
	runners = table
	close(start)
	finished := func(i int) bool {
		select {
		case <-done[i]:
			return true
		default:
			return false
		}
	}
	if len(c.Schedule) > 0 {
		// whoever has the turn runs up to its next gate; a runner that blocks lets all others run freely
		give := func(i int) bool {
			if finished(i) {
				return true
			}
			c.Runners[i].turn <- true
			select {
			case <-back:
				return true
			case <-time.After(3 * time.Second):
				release()
				return false
			}
		}
		ok := true
		for _, s := range c.Schedule {
			if ok = ok && give(s-1); !ok {
				break
			}
		}
		for round := 0; ok && round < 100000; round++ {
			rest := 0
			for i := range c.Runners {
				if ok && !finished(i) {
					rest++
					ok = give(i)
				}
			}
			if rest == 0 {
				break
			}
		}
		release()
	}
	for i := range done {
		<-done[i]
	}
	runners, gate = nil, nil
	res := make([][]Obs, len(c.Runners))
	for i, r := range c.Runners {
		res[i] = r.obs
	}
	return res
}

func (r *runner) run(c *concCase, execs []*est.Execution, newState func() *est.State) {
	r.obs = []Obs{{St: "ok"}}
	defer func() {
		if x := recover(); x != nil {
			r.obs = append(r.obs, Obs{St: "harness", Msg: fmt.Sprint(x)})
		}
	}()
	vars := c.Case
	vars.Decl = r.Decl
	var state *est.State
	for _, step := range r.Steps {
		if gate != nil {
			gate(r)
		}
		switch step.Op {
		case "new":
			state = newState()
			if err := setVars(state, r.w, r.Decl); err != nil {
				r.obs = append(r.obs, Obs{St: "seterr", Msg: unlatin(err.Error())})
				return
			}
		case "set":
			if err := setVars(state, r.w, step.Set); err != nil {
				r.obs = append(r.obs, Obs{St: "seterr", Msg: unlatin(err.Error())})
				return
			}
		case "reset":
			state.Reset()
		case "exec":
			r.events = nil
			var o Obs
			o.St, o.Msg = protect(func() error { return execs[step.T-1].Exec(state) })
			o.Msg = unlatin(r.w.named(o.Msg))
			o.Out = unlatin(state.Buffer.String())
			for _, e := range r.events {
				o.Ev = append(o.Ev, unlatin(e))
			}
			o.Vars = vars.dumpVars(state, nil)
			r.obs = append(r.obs, o)
		}
	}
}
