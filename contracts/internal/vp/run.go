package vp

import (
	"context"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

var strPool = []string{"", "a", "b", "c", "agent-0", "agent-1", "agent-2", "n0", "n1", "request", "batch", "zz"}
var floatPool = []float64{0, 1, -1, 0.5, 0.25, 0.1, 0.9, 2, 3, 1e-9, 100, math.Pi, 2 * math.Pi, -math.Pi, 1e6}

// Gen produces concrete inputs for replay.
type Gen struct {
	R     *rand.Rand
	Bits  bool
	Hints map[string]string
	path  string
	useH  float64
	ptrs  map[reflect.Type][]reflect.Value
	depth int
	log   []string
	Gens  map[reflect.Type]func(*Gen) any
	dict  *Dict
	used  []float64
}

// Dict holds the constants of the code under test.
type Dict struct {
	F []float64 `json:"f"`
	I []int64   `json:"i"`
	S []string  `json:"s"`
}

// entropy is a source of random bytes that favours the borders.
type entropy struct{ r *rand.Rand }

func (e entropy) Read(b []byte) (int, error) {
	switch e.r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = 0xff
		}
	case 1:
		for i := range b {
			b[i] = 0
		}
	default:
		e.r.Read(b)
	}
	return len(b), nil
}

var cur *Gen

func (g *Gen) Intn(n int) int { return g.R.Intn(n) }
func (g *Gen) Bool() bool     { return g.R.Intn(2) == 0 }
func (g *Gen) Unit() float64 {
	switch g.R.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 0.5
	}
	return g.R.Float64()
}
func (g *Gen) Str() string {
	if g.dict != nil && len(g.dict.S) > 0 && g.Bool() {
		return g.dict.S[g.R.Intn(len(g.dict.S))]
	}
	return strPool[g.R.Intn(len(strPool))]
}

// Float gives a number: mostly anything, sometimes a constant of the code or a number used before, or one close to it.
func (g *Gen) Float() float64 {
	x := g.float()
	k := g.R.Intn(12)
	if k < 2 && g.dict != nil && len(g.dict.F) > 0 {
		y := g.dict.F[g.R.Intn(len(g.dict.F))]
		if g.Bits || math.Abs(y) < 1e6 && math.Abs(y) > 1e-5 {
			x = g.near(y)
		}
	} else if k == 2 && len(g.used) > 0 {
		x = g.near(g.used[g.R.Intn(len(g.used))])
	}
	g.used = append(g.used, x)
	return x
}

func (g *Gen) near(x float64) float64 {
	if !g.Bits { // rounding is not the subject: stay clear of it
		switch g.R.Intn(8) {
		case 0:
			return x + math.Exp(-13*g.R.Float64())
		case 1:
			return x - math.Exp(-13*g.R.Float64())
		case 2:
			return -x
		case 3:
			return x * g.R.Float64()
		case 4:
			return x + g.R.Float64()*2*math.Pi
		}
		return x
	}
	switch g.R.Intn(12) {
	case 0:
		return math.Nextafter(x, math.Inf(1))
	case 1:
		return math.Nextafter(x, math.Inf(-1))
	case 2:
		return x + math.Exp(-25*g.R.Float64())
	case 3:
		return x - math.Exp(-25*g.R.Float64())
	case 4:
		return -x
	case 5:
		return x * g.R.Float64()
	case 6:
		return x + g.R.Float64()*2*math.Pi
	}
	return x
}

func (g *Gen) float() float64 {
	n := 12
	if g.Bits {
		n = 16
	}
	switch g.R.Intn(n) {
	case 0, 1:
		return floatPool[g.R.Intn(len(floatPool))]
	case 2, 3, 4:
		return g.R.Float64()
	case 5:
		return g.R.Float64()*20 - 10
	case 6:
		return (g.R.Float64()*8 - 4) * math.Pi
	case 7:
		return float64(g.R.Intn(9)-4) * math.Pi / 2
	case 8:
		return math.Exp(g.R.Float64()*20 - 12)
	case 9:
		return -math.Exp(g.R.Float64()*20 - 12)
	case 10:
		return float64(g.R.Intn(20)) / 10
	case 11:
		return 1 + (g.R.Float64()-0.5)*0.2
	case 12:
		return math.NaN()
	case 13:
		return math.Inf(1 - 2*g.R.Intn(2))
	case 14:
		return math.Float64frombits(g.R.Uint64())
	default:
		return math.Copysign(0, -1)
	}
}

func (g *Gen) Int() int64 {
	if g.dict != nil && len(g.dict.I) > 0 && g.R.Intn(6) == 0 {
		return g.dict.I[g.R.Intn(len(g.dict.I))] + int64(g.R.Intn(3)-1)
	}
	switch g.R.Intn(8) {
	case 0:
		return int64(g.R.Intn(4))
	case 1:
		return -int64(g.R.Intn(4))
	case 2, 3:
		return int64(g.R.Intn(12))
	case 4:
		return int64(g.R.Intn(60))
	case 5:
		return int64(g.R.Intn(400))
	case 6:
		return int64(g.R.Intn(3000))
	default:
		if g.Bits {
			return int64(g.R.Uint64())
		}
		return int64(g.R.Intn(100))
	}
}

// Fill gives any value of type T.
func Fill[T any](g *Gen) T {
	var z T
	fill(g, &z)
	return z
}
func fill[T any](g *Gen, p *T) { g.value(reflect.ValueOf(p).Elem()) }

func (g *Gen) hint(path string) (string, bool) {
	if g.useH <= 0 || g.Hints == nil {
		return "", false
	}
	h, ok := g.Hints[path]
	if !ok || g.R.Float64() > g.useH {
		return "", false
	}
	return h, true
}

var ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()
var errT = reflect.TypeOf((*error)(nil)).Elem()
var timeT = reflect.TypeOf(time.Time{})
var durT = reflect.TypeOf(time.Duration(0))

func (g *Gen) value(v reflect.Value) {
	t := v.Type()
	if f, ok := g.Gens[t]; ok && g.depth < 8 {
		g.depth++
		x := f(g)
		g.depth--
		if x == nil {
			return
		}
		v.Set(reflect.ValueOf(x))
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	switch {
	case t == timeT:
		switch g.R.Intn(3) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(time.Now()))
		case 2:
			v.Set(reflect.ValueOf(time.Now().Add(time.Duration(g.R.Intn(20000)-10000) * time.Millisecond)))
		}
		return
	case t == ctxT:
		c, cancel := context.WithCancel(context.Background())
		if g.Bool() {
			cancel()
		}
		_ = cancel
		v.Set(reflect.ValueOf(c))
		return
	case t == errT:
		if g.Bool() {
			v.Set(reflect.ValueOf(errors.New("x")))
		}
		return
	}
	if p := t.PkgPath(); strings.HasPrefix(p, "sync") {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b := g.Bool()
		if h, ok := g.hint(g.path); ok {
			b = h == "true"
		}
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := g.Int()
		if t == durT && g.Bool() {
			x *= int64(time.Millisecond)
		}
		if h, ok := g.hint(g.path); ok {
			var y int64
			if _, err := fmt.Sscan(h, &y); err == nil {
				x = y
			}
		}
		v.SetInt(x)
		if v.Int() != x {
			v.SetInt(v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.Int()) & (1<<uint(t.Bits()-1) - 1))
	case reflect.Float64, reflect.Float32:
		x := g.Float()
		if h, ok := g.hint(g.path); ok {
			var y float64
			if _, err := fmt.Sscan(h, &y); err == nil {
				x = y
			}
		}
		v.SetFloat(x)
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Slice:
		if g.R.Intn(10) == 0 {
			return
		}
		n := g.R.Intn(6)
		if g.depth > 6 {
			n = 0
		}
		if h, ok := g.hint(g.path + "#len"); ok {
			var y int
			if _, err := fmt.Sscan(h, &y); err == nil && y >= 0 && y < 64 {
				n = y
			}
		}
		s := reflect.MakeSlice(t, n, n+g.R.Intn(3))
		p := g.path
		for i := 0; i < n; i++ {
			g.path = fmt.Sprintf("%s[%d]", p, i)
			g.value(s.Index(i))
		}
		g.path = p
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.value(v.Index(i))
		}
	case reflect.Map:
		if g.R.Intn(10) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		for i := g.R.Intn(5); i > 0 && g.depth < 7; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			g.value(k)
			g.value(e)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if g.depth > 1 && g.R.Intn(12) == 0 || g.depth > 9 {
			return
		}
		if old := g.ptrs[t]; len(old) > 0 && g.R.Intn(6) == 0 {
			v.Set(old[g.R.Intn(len(old))])
			return
		}
		n := reflect.New(t.Elem())
		g.value(n.Elem())
		g.ptrs[t] = append(g.ptrs[t], n)
		v.Set(n)
	case reflect.Struct:
		p := g.path
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				if !f.CanAddr() {
					continue
				}
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			g.path = p + "." + t.Field(i).Name
			g.value(f)
		}
		g.path = p
	}
}

// Outcome of a replay.
type Outcome struct {
	Contract string   `json:"contract"`
	Trials   int      `json:"trials"`
	Admitted int      `json:"admitted"`
	Found    bool     `json:"found"`
	What     string   `json:"what,omitempty"`
	Input    []string `json:"input,omitempty"`
	Trial    int      `json:"trial,omitempty"`
	Seed     int64    `json:"seed"`
	Stack    string   `json:"stack,omitempty"`
}

type Case struct {
	Name       string
	Fn         any
	Bits       bool
	Terminates bool
	N          int
	Params     []string
	NoPanic    bool // run-time panics do not count
	Dict       *Dict
}

// RunCase searches for an input on which the contract fails on the real code.
func RunCase(c Case, gens map[reflect.Type]func(*Gen) any, hints []map[string]string, seed int64, budget time.Duration) Outcome {
	Tol = 1e-9
	if c.Bits {
		Tol = 0
	}
	out := Outcome{Contract: c.Name, Seed: seed}
	fv := reflect.ValueOf(c.Fn)
	ft := fv.Type()
	deadline := time.Now().Add(budget)
	hung := 0
	for i := 0; i < c.N && time.Now().Before(deadline); i++ {
		g := &Gen{R: rand.New(rand.NewSource(seed*1000003 + int64(i))), Bits: c.Bits, ptrs: map[reflect.Type][]reflect.Value{}, Gens: gens, dict: c.Dict}
		crand.Reader = entropy{g.R}
		if len(hints) > 0 {
			g.Hints = hints[i%len(hints)]
			g.useH = []float64{1, 0.9, 0.5, 0.2, 0, 0, 0, 0}[i%8]
		}
		cur = g
		var args []reflect.Value
		for j := 0; j < ft.NumIn(); j++ {
			a := reflect.New(ft.In(j)).Elem()
			g.path = c.Params[j]
			g.value(a)
			args = append(args, a)
		}
		desc := make([]string, len(args))
		for j, a := range args {
			desc[j] = c.Params[j] + " = " + Describe(a)
		}
		out.Trials++
		type rs struct {
			kind, what, stack string
		}
		ch := make(chan rs, 1)
		go func() {
			defer func() {
				e := recover()
				switch x := e.(type) {
				case nil:
					ch <- rs{kind: "ok"}
				case skipT:
					ch <- rs{kind: "skip"}
				case failT:
					ch <- rs{kind: "fail", what: x.name}
				default:
					ch <- rs{kind: "panic", what: fmt.Sprint(e), stack: string(debug.Stack())}
				}
			}()
			fv.Call(args)
		}()
		var r rs
		select {
		case r = <-ch:
		case <-time.After(3 * time.Second):
			r = rs{kind: "hang", what: "does not return within 3 s"}
			hung++
		}
		switch r.kind {
		case "skip":
			continue
		case "ok":
			out.Admitted++
			continue
		case "hang":
			if !c.Terminates {
				if hung > 2 {
					return out
				}
				continue
			}
		case "panic":
			if c.NoPanic || strings.Contains(r.what, "vp:") {
				continue
			}
		}
		out.Admitted++
		out.Found, out.Trial, out.Input = true, i, desc
		out.What = r.kind + ": " + r.what
		out.Stack = r.stack
		return out
	}
	return out
}

// Describe prints a value, following pointers.
func Describe(v reflect.Value) string { return describe(v, 0) }
func describe(v reflect.Value, d int) string {
	if d > 5 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + describe(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", v.Elem().Type(), describe(v.Elem(), d+1))
	case reflect.Struct:
		if p := v.Type().PkgPath(); strings.HasPrefix(p, "sync") {
			return "{…}"
		}
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, v.Type().Field(i).Name+":"+describe(v.Field(i), d+1))
		}
		return v.Type().Name() + "{" + strings.Join(p, " ") + "}"
	case reflect.Slice, reflect.Array:
		var p []string
		for i := 0; i < v.Len() && i < 24; i++ {
			p = append(p, describe(v.Index(i), d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Map:
		return fmt.Sprintf("%s(len %d)", v.Type(), v.Len())
	case reflect.Float64, reflect.Float32:
		return fmt.Sprintf("%v", v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%d", v.Uint())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.Type().String()
	}
	return v.String()
}

// Main runs the cases named in VP_CASES and prints one JSON line per case.
func Main(cases []Case, gens map[reflect.Type]func(*Gen) any) {
	var req map[string]struct {
		Hints  []map[string]string `json:"hints"`
		Budget float64             `json:"budget"`
		Dict   *Dict               `json:"dict"`
	}
	_ = json.Unmarshal([]byte(os.Getenv("VP_CASES")), &req)
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	for _, c := range cases {
		r, ok := req[c.Name]
		if !ok {
			continue
		}
		c.Dict = r.Dict
		o := RunCase(c, gens, r.Hints, seed, time.Duration(r.Budget*float64(time.Second)))
		b, _ := json.Marshal(o)
		fmt.Println("VPRESULT " + string(b))
	}
}
