package main

// pool.go: many goroutines take, use and put back the states of one pool; the log is validated against spec/PoolTrace.tla.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
)

type stressCase struct {
	Size int   `json:"size"`
	G    int   `json:"g"`
	Ops  int   `json:"ops"`
	Seed int64 `json:"seed"`
}

func init() {
	handlers["poolstress"] = func(line []byte) interface{} {
		c := &stressCase{}
		if err := json.Unmarshal(line, c); err != nil {
			return []Obs{{St: "harness", Msg: err.Error()}}
		}
		o := Obs{}
		o.St, o.Msg = protect(func() (err error) { o.Ev, err = poolStress(c); return err })
		return []Obs{o}
	}
}

func poolStress(c *stressCase) ([]string, error) {
	p := velty.New(velty.BufferSize(16))
	if err := p.DefineVariable("a", 0); err != nil {
		return nil, err
	}
	if err := p.DefineVariable("s", ""); err != nil {
		return nil, err
	}
	if err := p.RegisterFunction("bad", func(a int) (int, error) { return a, fmt.Errorf("bad %v", a) }); err != nil {
		return nil, err
	}
	ex, newState, err := p.Compile([]byte("$a|$s#set($n = $a + 1)#set($a = 7)$n#if($s == \"f\")$bad($n)#end"))
	if err != nil {
		return nil, err
	}
	pool := velty.NewPool(c.Size, newState)
	var mu sync.Mutex
	var log []string
	ids := map[*est.State]int{}
	add := func(g int, op string, s *est.State, what string) {
		mu.Lock()
		defer mu.Unlock()
		if s != nil && ids[s] == 0 {
			ids[s] = len(ids) + 1
		}
		log = append(log, fmt.Sprintf("%v %v %v %v", op, g, ids[s], what))
	}
	value := func(s *est.State, n string) string {
		v, ok := slot(s, n)
		if !ok {
			return "?"
		}
		return fmt.Sprint(v.Interface())
	}
	look := func(s *est.State) string {
		if s == nil {
			return "nil"
		}
		var dirty []string
		if out := s.Buffer.String(); out != "" {
			dirty = append(dirty, "output")
		}
		if len(s.Errors) != 0 {
			dirty = append(dirty, "errors")
		}
		if value(s, "a") != "0" || value(s, "s") != "" || value(s, "n") != "0" {
			dirty = append(dirty, "variables")
		}
		if len(dirty) == 0 {
			return "clean"
		}
		return strings.Join(dirty, "+")
	}
	var wg sync.WaitGroup
	errs := make(chan error, c.G)
	for g := 1; g <= c.G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("panic: %v", r)
				}
			}()
			r := rand.New(rand.NewSource(c.Seed*100 + int64(g)))
			var held []*est.State
			for i := 0; i < c.Ops; i++ {
				if len(held) == 0 || (len(held) < 3 && r.Intn(3) == 0) {
					s := pool.State()
					add(g, "get", s, look(s))
					if s == nil {
						return
					}
					held = append(held, s)
					continue
				}
				k := r.Intn(len(held))
				s := held[k]
				switch r.Intn(5) {
				case 0, 1:
					add(g, "put", s, "")
					held = append(held[:k], held[k+1:]...)
					pool.Put(s)
				case 2:
					s.Reset()
				default:
					text, a := []string{"f", "x"}[r.Intn(2)], r.Intn(100)
					s.Reset()
					if err := s.SetValue("s", text); err != nil {
						errs <- err
						return
					}
					if err := s.SetValue("a", a); err != nil {
						errs <- err
						return
					}
					runtime.Gosched()
					err := ex.Exec(s)
					want := fmt.Sprintf("%v|%v%v", a, text, a+1)
					if text == "f" {
						want += fmt.Sprint(a + 1)
					}
					got := s.Buffer.String()
					if got != want || (err != nil) != (text == "f") {
						add(g, "use", s, fmt.Sprintf("want_%v_got_%v_%v", want, got, err))
					} else {
						add(g, "use", s, "right")
					}
				}
				if r.Intn(200) == 0 {
					runtime.GC()
				}
			}
			for _, s := range held {
				add(g, "put", s, "")
				pool.Put(s)
			}
		}(g)
	}
	wg.Wait()
	close(errs)
	return log, <-errs
}
