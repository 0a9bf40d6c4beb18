package main

// funcs.go: functions and methods the templates call. Each records an event and returns a value computed by one
// generic rule from its name and arguments, which spec/Funcs.tla computes as well.

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
)

var events []string
var failures = errors.New("unused")

func weight(a interface{}) int {
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int(v.Uint())
	case reflect.Float64, reflect.Float32:
		return int(math.Floor(v.Float() * 2))
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len()
	}
	return 7
}

func sum(args []interface{}) int {
	total := 0
	for i, a := range args {
		total += (i + 2) * weight(a)
	}
	return total
}

func rec(name string, args ...interface{}) []interface{} {
	parts := make([]string, len(args))
	for i, a := range args {
		parts[i] = dump(reflect.ValueOf(a))
	}
	if event := name + "(" + strings.Join(parts, ",") + ")"; !recordConcurrent(event) {
		events = append(events, event)
	}
	return args
}

func rs(name string, args ...interface{}) string {
	rec(name, args...)
	parts := make([]string, len(args))
	for i, a := range args {
		parts[i] = dump(reflect.ValueOf(a))
	}
	return name + "<" + strings.Join(parts, "|") + ">"
}
func ri(name string, args ...interface{}) int      { return sum(rec(name, args...)) }
func rb(name string, args ...interface{}) bool     { return sum(rec(name, args...))%2 != 0 }
func rf(name string, args ...interface{}) float64  { return float64(sum(rec(name, args...))) / 2 }
func ru8(name string, args ...interface{}) uint8   { return uint8((sum(rec(name, args...))%100 + 100) % 100) }
func rss(name string, args ...interface{}) []string {
	rec(name, args...)
	out := make([]string, len(args))
	for i, a := range args {
		out[i] = dump(reflect.ValueOf(a))
	}
	return out
}
func rerr(name string, msg string, bad bool) error {
	if bad {
		return fmt.Errorf("%v failed: %v", name, msg)
	}
	return nil
}

// functions registered on every planner; the name is also the key into the signature table of the spec.
func allFuncs() map[string]interface{} {
	return map[string]interface{}{
		"pI": func(a int) int { rec("pI", a); return a },
		"pS": func(a string) string { rec("pS", a); return a },
		"pB": func(a bool) bool { rec("pB", a); return a },
		"pF": func(a float64) float64 { rec("pF", a); return a },
		"fssb": func(s, substr string) bool { return rb("fssb", s, substr) },
		"fsss": func(a, b string) string { return rs("fsss", a, b) },
		"fsi":  func(a string) int { return ri("fsi", a) },
		"fssi": func(a, b string) int { return ri("fssi", a, b) },
		"fsb":  func(a string) bool { return rb("fsb", a) },
		"fssii": func(a, b string, i int) int { return ri("fssii", a, b, i) },
		"fsssb": func(a, b, c string) bool { return rb("fsssb", a, b, c) },
		"fssss": func(a, b, c string) string { return rs("fssss", a, b, c) },
		"fssl":  func(a, b string) []string { return rss("fssl", a, b) },
		"fssib": func(a, b string, i int) bool { return rb("fssib", a, b, i) },
		"fsis":  func(a string, i int) string { return rs("fsis", a, i) },
		"fsiis": func(a string, i, j int) string { return rs("fsiis", a, i, j) },
		"fIib":  func(a []int, i int) bool { return rb("fIib", a, i) },
		"fBbb":  func(a []bool, i bool) bool { return rb("fBbb", a, i) },
		"fFfb":  func(a []float64, i float64) bool { return rb("fFfb", a, i) },
		"fSsb":  func(a []string, i string) bool { return rb("fSsb", a, i) },
		"fIIb":  func(a []int, i []int) bool { return rb("fIIb", a, i) },
		"fBBb":  func(a []bool, i []bool) bool { return rb("fBBb", a, i) },
		"fFFb":  func(a []float64, i []float64) bool { return rb("fFFb", a, i) },
		"fSSb":  func(a []string, i []string) bool { return rb("fSSb", a, i) },
		"fIii":  func(a []int, i int) int { return ri("fIii", a, i) },
		"fBib":  func(a []bool, i int) bool { return rb("fBib", a, i) },
		"fFif":  func(a []float64, i int) float64 { return rf("fFif", a, i) },
		"fSis":  func(a []string, i int) string { return rs("fSis", a, i) },
		"fUub":  func(a []uint8, i uint8) bool { return rb("fUub", a, i) },
		"fUUb":  func(a []uint8, i []uint8) bool { return rb("fUUb", a, i) },
		"fUiu":  func(a []uint8, i int) uint8 { return ru8("fUiu", a, i) },
		"fUb":   func(a []uint8) bool { return rb("fUb", a) },
		"fIb":   func(a []int) bool { return rb("fIb", a) },
		"fBb":   func(a []bool) bool { return rb("fBb", a) },
		"fFb":   func(a []float64) bool { return rb("fFb", a) },
		"fSb":   func(a []string) bool { return rb("fSb", a) },
		"fIi":   func(a []int) int { return ri("fIi", a) },
		"fBi":   func(a []bool) int { return ri("fBi", a) },
		"fFi":   func(a []float64) int { return ri("fFi", a) },
		"fSi":   func(a []string) int { return ri("fSi", a) },
		"fis":   func(a int) string { return rs("fis", a) },
		"ffs":   func(a float64) string { return rs("ffs", a) },
		"fss":   func(a string) string { return rs("fss", a) },
		"fii":   func(a int) int { return ri("fii", a) },
		"fiii":  func(a, b int) int { return ri("fiii", a, b) },
		"ffff":  func(a, b float64) float64 { return rf("ffff", a, b) },
		"ff":    func(a float64) float64 { return rf("ff", a) },
		"fbs":   func(a bool) string { return rs("fbs", a) },
		"fisbf": func(a int, b string, c bool, d float64) string { return rs("fisbf", a, b, c, d) },
		"fisbfi": func(a int, b string, c bool, d float64, e int) string { return rs("fisbfi", a, b, c, d, e) },
		"fi8i64s": func(a int8, b int64) string { return rs("fi8i64s", a, b) },
		"fu16f32s": func(a uint16, b float32) string { return rs("fu16f32s", a, b) },
		"fvar": func(a string, rest ...int) string {
			args := []interface{}{a}
			for _, r := range rest {
				args = append(args, r)
			}
			return rs("fvar", args...)
		},
		"fany": func(a interface{}) string { return rs("fany", a) },
		"fany2": func(a interface{}, b interface{}) string { return rs("fany2", a, b) },
		"eI": func(a int) (int, error) { rec("eI", a); return a, rerr("eI", fmt.Sprint(a), a < 0) },
		"eS": func(a string) (string, error) { rec("eS", a); return a, rerr("eS", a, strings.HasPrefix(a, "bad")) },
		"eB": func(a bool, s string) (bool, error) { rec("eB", a, s); return a, rerr("eB", s, strings.HasPrefix(s, "bad")) },
		"fmk": func(a int) *Leaf { rec("fmk", a); if a < 0 { return nil }; return &Leaf{A: a, B: "mk", Sub: &Sub{X: a + 1, Y: "y"}} },
		"fmv": func(a int) Leaf { rec("fmv", a); return Leaf{A: a, B: "mv", Sub: &Sub{X: a + 1, Y: "y"}} },
		"fli": func(a int) []int { rec("fli", a); r := []int{}; for i := 0; i < a && i < 50; i++ { r = append(r, i*10) }; return r },
		"fz": func() string { rec("fz"); return "fz" },
	}
}

// Sub, Leaf, Node: named types with methods and recursion.
type Sub struct {
	X int
	Y string
}

func (s Sub) Val(a int) int     { return ri("Sub.Val", s.X, a) }
func (s *Sub) Ptr(a int) int    { if s == nil { return ri("Sub.Ptr", 0, a) }; return ri("Sub.Ptr", s.X, a) }

type Leaf struct {
	A   int
	B   string
	C   bool
	D   float64
	P   *int
	S   *string
	Sub *Sub
	L   []int
}

func (l Leaf) Join(a string, b int) string  { return rs("Leaf.Join", l.A, l.B, a, b) }
func (l *Leaf) PJoin(a string) string       { return rs("Leaf.PJoin", l.A, a) }
func (l Leaf) Get() Sub                     { rec("Leaf.Get", l.A); if l.Sub == nil { return Sub{} }; return *l.Sub }
func (l *Leaf) Fail(a int) (int, error)     { rec("Leaf.Fail", l.A, a); return a, rerr("Leaf.Fail", fmt.Sprint(a), a < 0) }
func (l Leaf) Six(a, b, c, d, e int) string { return rs("Leaf.Six", l.A, a, b, c, d, e) }
func (l Leaf) Var(rest ...int) string {
	args := []interface{}{l.A}
	for _, r := range rest {
		args = append(args, r)
	}
	return rs("Leaf.Var", args...)
}

type Node struct {
	ID   int
	Name string
	Next *Node
	Leaf Leaf
	LP   *Leaf
	Kids []*Node
	Tags []string
	M    map[string]int
}

func (n *Node) Hop(a int) *Node { rec("Node.Hop", n.ID, a); return n.Next }

var named = map[string]reflect.Type{
	"Sub":  reflect.TypeOf(Sub{}),
	"Leaf": reflect.TypeOf(Leaf{}),
	"Node": reflect.TypeOf(Node{}),
}
