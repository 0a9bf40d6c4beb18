package main

// values.go: structural types and values of a case <-> Go types and values, and their canonical dumps.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// T is a structural type: k is a Go kind name, or "ptr","slice","map","struct","iface","named".
type T struct {
	K    string `json:"k"`
	E    *T     `json:"e,omitempty"`
	Key  *T     `json:"key,omitempty"`
	Name string `json:"name,omitempty"`
}

// FieldDesc describes a struct field of the types table.
type FieldDesc struct {
	N    string `json:"n"`
	T    T      `json:"t"`
	Emb  int    `json:"emb"`
	Tag  string `json:"tag"`
}

// V is a tagged value, see spec/Values.tla.
type V struct {
	K   string       `json:"k"`
	V   interface{}  `json:"v,omitempty"`
	N   int64        `json:"n,omitempty"`
	E   int64        `json:"e,omitempty"`
	A   int          `json:"a,omitempty"`
	T   *T           `json:"t,omitempty"`
	F   map[string]V `json:"f,omitempty"`
	Neg int          `json:"neg,omitempty"`
	D   string       `json:"d,omitempty"`
}

// Obj is a heap object.
type Obj struct {
	K  string  `json:"k"` // "val" | "arr" | "map"
	T  T       `json:"t"` // type of the value, of the elements, of the map
	V  *V      `json:"v,omitempty"`
	E  []V     `json:"e,omitempty"`
	Es [][2]V  `json:"es,omitempty"`
}

type world struct {
	types map[string][]FieldDesc
	cache map[string]reflect.Type
	heap  []Obj
	built map[int]reflect.Value // pointer to value | slice | map
}

// latin decodes a string whose code points stand for bytes.
func latin(s string) string {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

// unlatin encodes bytes as code points.
func unlatin(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		sb.WriteRune(rune(s[i]))
	}
	return sb.String()
}

var basic = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
}

func (w *world) rtype(t T) reflect.Type {
	if r, ok := basic[t.K]; ok {
		return r
	}
	switch t.K {
	case "iface":
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case "ptr":
		return reflect.PtrTo(w.rtype(*t.E))
	case "slice":
		return reflect.SliceOf(w.rtype(*t.E))
	case "map":
		return reflect.MapOf(w.rtype(*t.Key), w.rtype(*t.E))
	case "struct":
		if r, ok := named[t.Name]; ok {
			return r
		}
		if r, ok := w.cache[t.Name]; ok {
			return r
		}
		desc, ok := w.types[t.Name]
		if !ok {
			panic("unknown type " + t.Name)
		}
		var fields []reflect.StructField
		for _, f := range desc {
			tag := f.Tag
			if len(fields) == 0 { // makes the type one of its own
				tag = strings.TrimSpace(tag + " g:\"" + t.Name + "\"")
			}
			fields = append(fields, reflect.StructField{Name: f.N, Type: w.rtype(f.T), Anonymous: f.Emb == 1, Tag: reflect.StructTag(tag)})
		}
		r := reflect.StructOf(fields)
		w.cache[t.Name] = r
		return r
	}
	panic("unknown kind " + t.K)
}

// named writes the names of generated types instead of their definitions.
func (w *world) named(msg string) string {
	if !strings.Contains(msg, "struct {") {
		return msg
	}
	names := make([]string, 0, len(w.cache))
	for name := range w.cache {
		names = append(names, name)
	}
	sort.Slice(names, func(i, j int) bool { return len(w.cache[names[i]].String()) > len(w.cache[names[j]].String()) })
	for _, name := range names {
		msg = strings.ReplaceAll(msg, w.cache[name].String(), "main."+name)
	}
	return msg
}

func (w *world) object(a int) reflect.Value {
	if v, ok := w.built[a]; ok {
		return v
	}
	o := w.heap[a-1]
	switch o.K {
	case "val":
		p := reflect.New(w.rtype(o.T))
		w.built[a] = p
		w.fill(p.Elem(), *o.V)
		return p
	case "arr":
		s := reflect.MakeSlice(reflect.SliceOf(w.rtype(o.T)), len(o.E), len(o.E))
		w.built[a] = s
		for i := range o.E {
			w.fill(s.Index(i), o.E[i])
		}
		return s
	case "map":
		m := reflect.MakeMap(w.rtype(o.T))
		w.built[a] = m
		for _, kv := range o.Es {
			k := reflect.New(m.Type().Key()).Elem()
			w.fill(k, kv[0])
			v := reflect.New(m.Type().Elem()).Elem()
			w.fill(v, kv[1])
			m.SetMapIndex(k, v)
		}
		return m
	}
	panic("bad object " + o.K)
}

// fill sets dst to the described value.
func (w *world) fill(dst reflect.Value, v V) {
	switch v.K {
	case "i":
		n := int64(v.V.(float64))
		switch dst.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			dst.SetUint(uint64(n))
		default:
			dst.SetInt(n)
		}
	case "big":
		s := v.D
		if v.Neg == 1 {
			s = "-" + s
		}
		switch dst.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				panic(err)
			}
			dst.SetUint(n)
		default:
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				panic(err)
			}
			dst.SetInt(n)
		}
	case "f":
		dst.SetFloat(math.Ldexp(float64(v.N), -int(v.E)))
	case "b":
		dst.SetBool(v.V.(float64) != 0)
	case "s":
		dst.SetString(latin(v.V.(string)))
	case "p":
		if v.A != 0 {
			dst.Set(w.object(v.A))
		}
	case "l":
		if v.A != 0 {
			dst.Set(w.object(v.A).Slice(0, int(v.N)))
		}
	case "m":
		if v.A != 0 {
			dst.Set(w.object(v.A))
		}
	case "st":
		for name, fv := range v.F {
			w.fill(dst.FieldByName(name), fv)
		}
	case "if":
		inner := reflect.New(w.rtype(*v.T)).Elem()
		vv := v
		w.fillIface(inner, vv)
		dst.Set(inner)
	case "nil":
	default:
		panic("bad value kind " + v.K)
	}
}

func (w *world) fillIface(inner reflect.Value, v V) {
	raw := v.V.(map[string]interface{})
	w.fill(inner, decodeV(raw))
}

func decodeV(raw map[string]interface{}) V {
	b := mustJSON(raw)
	var v V
	mustUnJSON(b, &v)
	return v
}

func dumpFloat(f float64) string {
	if math.IsInf(f, 1) {
		return "+Inf"
	} else if math.IsInf(f, -1) {
		return "-Inf"
	} else if math.IsNaN(f) {
		return "NaN"
	}
	r := new(big.Rat).SetFloat64(f)
	e := r.Denom().BitLen() - 1
	s := r.FloatString(e)
	if f == 0 {
		s = "0"
	}
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// dump writes the canonical text of a value, the spec computes the same text (Dump in spec/Values.tla).
func dump(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return dumpFloat(v.Float())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.String:
		return "'" + v.String() + "'"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dump(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return dump(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, dump(v.Index(i)))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		n := v.Len()
		var parts []string
		for _, k := range v.MapKeys() {
			parts = append(parts, dump(k)+":"+dump(v.MapIndex(k)))
		}
		sort.Strings(parts)
		return "map" + strconv.Itoa(n) + "[" + strings.Join(parts, ",") + "]"
	case reflect.Struct:
		var parts []string
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			parts = append(parts, v.Type().Field(i).Name+":"+dump(v.Field(i)))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	return fmt.Sprintf("?%v", v.Kind())
}
