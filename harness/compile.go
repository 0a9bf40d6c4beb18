package main

// compile.go: compiles texts one after the other, each with a planner of its own; only how it ended is reported.

import (
	"encoding/json"

	"github.com/viant/velty"
)

type compileCase struct {
	Texts []string `json:"texts"`
}

func init() {
	handlers["compile"] = func(line []byte) interface{} {
		c := &compileCase{}
		if err := json.Unmarshal(line, c); err != nil {
			return []Obs{{St: "harness", Msg: err.Error()}}
		}
		o := Obs{St: "ok"}
		fii := func(a int) (int, error) { return a, nil }
		for _, text := range c.Texts {
			st, msg := protect(func() error {
				p := velty.New()
				for n, v := range map[string]interface{}{"a": 1, "s": Leaf{}, "l": []int{}, "m": map[string]string{}} {
					if err := p.DefineVariable(n, v); err != nil {
						return err
					}
				}
				if err := p.RegisterFunction("fii", fii); err != nil {
					return err
				}
				plan, newState, err := p.Compile([]byte(latin(text)))
				if err == nil && (plan == nil || newState == nil) {
					panic("neither a plan nor an error")
				}
				return err
			})
			if st == "panic" {
				o.Ev = append(o.Ev, "panic: "+unlatin(msg))
			} else {
				o.Ev = append(o.Ev, st)
			}
		}
		return []Obs{o}
	}
}
