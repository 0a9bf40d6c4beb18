package main

// buffer.go: replays the histories of spec/Buffer.tla on the real buffer.

import (
	"encoding/json"
	"strconv"

	"github.com/viant/velty/est"
)

type bufferCase struct {
	Size int         `json:"size"`
	Esc  int         `json:"esc"`
	Ops  [][2]string `json:"ops"`
}

func init() {
	handlers["buffer"] = func(line []byte) interface{} {
		c := &bufferCase{}
		if err := json.Unmarshal(line, c); err != nil {
			return []Obs{{St: "harness", Msg: err.Error()}}
		}
		o := Obs{}
		var texts []string // the contents seen: they have to stay what they were
		o.St, o.Msg = protect(func() error {
			b := est.NewBuffer(c.Size, c.Esc == 1)
			for _, op := range c.Ops {
				x := latin(op[1])
				switch op[0] {
				case "byte":
					b.AppendByte(x[0])
				case "int":
					n, err := strconv.ParseInt(x, 10, 64)
					if err != nil {
						return err
					}
					b.AppendInt(int(n))
				case "bool":
					b.AppendBool(x == "true")
				case "float":
					f, err := strconv.ParseFloat(x, 64)
					if err != nil {
						return err
					}
					b.AppendFloat(f)
				case "string":
					b.AppendString(x)
				case "plain":
					b.AppendStringWithoutEscaping(x)
				case "reset":
					b.Reset()
				}
				s := b.String()
				if string(b.Bytes()) != s {
					s = "String and Bytes differ: " + s
				}
				texts = append(texts, s)
			}
			return nil
		})
		for _, s := range texts {
			o.Ev = append(o.Ev, unlatin(s))
		}
		return []Obs{o}
	}
}
