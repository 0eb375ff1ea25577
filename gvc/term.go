package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort names are their SMT-LIB spelling.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SFP    Sort = "(_ FloatingPoint 11 53)"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
)

func SBV(n int) Sort { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }
func SArr(k, v Sort) Sort {
	return Sort("(Array " + string(k) + " " + string(v) + ")")
}
func (s Sort) isBV() bool { return strings.HasPrefix(string(s), "(_ BitVec") }
func (s Sort) bvWidth() int {
	n, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(string(s), "(_ BitVec "), ")"))
	return n
}

// splitArr returns key and value sorts of an array sort.
func (s Sort) splitArr() (Sort, Sort) {
	x := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range x {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(x[:i]), Sort(x[i+1:])
			}
		}
	}
	panic("not an array sort: " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // "const" literal, "sym" symbol, "bound", "forall", "exists", otherwise an operator/function
	sort  Sort
	args  []*Term
	name  string   // symbol name or literal text
	ival  *big.Int // integer / bv literal
	rval  *big.Rat // real literal
	bval  int      // bool literal: 1 true, 2 false
	fval  uint64   // fp literal bits
	qv    []*Term
	bound bool // contains a free bound variable
	depth int
	// symbol attributes
	alloc   int // >0: allocation serial, refs with different serials are distinct
	initial bool
	born    int // creation stamp for symbols (max over args for compound)
	nsym    bool
	tree    int // >0: decision tree over constants or allocations, with this many leaves
}

type Ctx struct {
	shifted map[[2]int]*Term
	tab     map[string]*Term
	next    int
	decls   map[string]string // function declarations
	order   []string
	stamp   int
	names   map[string]int
	strs    map[string]*Term
	mSel    map[[2]int]*Term
	mEq     map[[2]int]*Term
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, decls: map[string]string{}, names: map[string]int{}, strs: map[string]*Term{}, mSel: map[[2]int]*Term{}, mEq: map[[2]int]*Term{}}
}

func (c *Ctx) mk(t *Term, key string) *Term {
	if x, ok := c.tab[key]; ok {
		return x
	}
	c.next++
	t.id = c.next
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.born > t.born {
			t.born = a.born
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	switch {
	case t.op == "ite":
		if l, r := t.args[1].leaves(), t.args[2].leaves(); l > 0 && r > 0 && l+r <= 1<<12 {
			t.tree = l + r
		}
	}
	c.tab[key] = t
	return t
}

// leaves: number of leaves when t is a decision tree over integer constants or allocations.
func (t *Term) leaves() int {
	if t.tree > 0 {
		return t.tree
	}
	if t.alloc > 0 || t.nsym || (t.isConst() && t.ival != nil) {
		return 1
	}
	return 0
}

// lift distributes f over the decision trees x and y when one of them is a leaf.
func (c *Ctx) lift(x, y *Term, f func(x, y *Term) *Term) *Term {
	memo := map[int]*Term{}
	var g func(t *Term) *Term
	if x.tree > 0 && y.isConst() && y.ival != nil {
		g = func(t *Term) *Term {
			if r, ok := memo[t.id]; ok {
				return r
			}
			var r *Term
			if t.tree > 0 {
				r = c.Ite(t.args[0], g(t.args[1]), g(t.args[2]))
			} else {
				r = f(t, y)
			}
			memo[t.id] = r
			return r
		}
		return g(x)
	}
	if y.tree > 0 && x.isConst() && x.ival != nil {
		return c.lift(y, x, func(a, b *Term) *Term { return f(b, a) })
	}
	return nil
}

func (c *Ctx) app(op string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	return c.mk(&Term{op: op, sort: s, args: args}, b.String())
}

// Sym creates (or returns) a declared constant with exactly this name.
func (c *Ctx) Sym(name string, s Sort) *Term {
	k := "sym|" + name
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.stamp++
	return c.mk(&Term{op: "sym", sort: s, name: name, born: c.stamp}, k)
}

func sanitize(n string) string {
	var b strings.Builder
	for _, r := range n {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Fresh creates a new symbol with a unique name based on hint.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	hint = sanitize(hint)
	c.names[hint]++
	return c.Sym(fmt.Sprintf("%s!%d", hint, c.names[hint]), s)
}

func (c *Ctx) Bound(hint string, s Sort) *Term {
	hint = sanitize(hint)
	c.names["b."+hint]++
	n := fmt.Sprintf("%s?%d", hint, c.names["b."+hint])
	t := c.mk(&Term{op: "bound", sort: s, name: n}, "bound|"+n)
	t.bound = true
	return t
}

// UF applies an uninterpreted function, declaring it on first use.
func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return c.Sym(name, s)
	}
	if _, ok := c.decls[name]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, string(a.sort))
		}
		c.decls[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(ss, " "), s)
		c.order = append(c.order, name)
	}
	return c.app("uf:"+name, s, args...)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.mk(&Term{op: "const", sort: SBool, name: "true", bval: 1}, "true")
	}
	return c.mk(&Term{op: "const", sort: SBool, name: "false", bval: 2}, "false")
}
func (c *Ctx) True() *Term   { return c.Bool(true) }
func (c *Ctx) False() *Term  { return c.Bool(false) }
func (t *Term) isTrue() bool { return t.bval == 1 }
func (t *Term) isFalse() bool {
	return t.bval == 2
}
func (t *Term) isConst() bool { return t.op == "const" }

func (c *Ctx) IntBig(v *big.Int) *Term {
	s := v.String()
	n := s
	if v.Sign() < 0 {
		n = "(- " + s[1:] + ")"
	}
	return c.mk(&Term{op: "const", sort: SInt, name: n, ival: new(big.Int).Set(v)}, "int|"+s)
}
func (c *Ctx) Int(v int64) *Term { return c.IntBig(big.NewInt(v)) }

func (c *Ctx) Real(v *big.Rat) *Term {
	abs := new(big.Rat).Abs(v)
	var n string
	if abs.IsInt() {
		n = abs.Num().String() + ".0"
	} else {
		n = "(/ " + abs.Num().String() + ".0 " + abs.Denom().String() + ".0)"
	}
	if v.Sign() < 0 {
		n = "(- " + n + ")"
	}
	return c.mk(&Term{op: "const", sort: SReal, name: n, rval: new(big.Rat).Set(v)}, "real|"+v.RatString())
}

func (c *Ctx) BV(v *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	n := fmt.Sprintf("(_ bv%s %d)", x.String(), w)
	return c.mk(&Term{op: "const", sort: SBV(w), name: n, ival: x}, fmt.Sprintf("bv|%s|%d", x, w))
}

func (c *Ctx) FP(f float64) *Term {
	b := math.Float64bits(f)
	if f != f {
		b = 0x7ff8000000000000
	}
	var n string
	if f != f {
		n = "(_ NaN 11 53)"
	} else {
		n = fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
	}
	return c.mk(&Term{op: "const", sort: SFP, name: n, fval: b}, fmt.Sprintf("fp|%x", b))
}

// Str returns the constant for a string literal; literals are pairwise distinct.
func (c *Ctx) Str(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	n := sanitize(s)
	if len(n) > 20 {
		n = n[:20]
	}
	t := c.Sym(fmt.Sprintf("str%d_%s", len(c.strs), n), SStr)
	c.strs[s] = t
	t.nsym = true
	return t
}

func (c *Ctx) strLit(t *Term) (string, bool) {
	if t.sort != SStr || t.op != "sym" {
		return "", false
	}
	for k, v := range c.strs {
		if v == t {
			return k, true
		}
	}
	return "", false
}

// ---- boolean ----

func (c *Ctx) Not(a *Term) *Term {
	if a.isTrue() {
		return c.False()
	}
	if a.isFalse() {
		return c.True()
	}
	if a.op == "not" {
		return a.args[0]
	}
	return c.app("not", SBool, a)
}

func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isFalse() {
			return false
		}
		if x.isTrue() || seen[x.id] {
			return true
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if x.op == "not" && seen[x.args[0].id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.False()
		}
	}
	for _, x := range out {
		if x.op == "not" && seen[x.args[0].id] {
			return c.False()
		}
	}
	// (a or b) with not a  -> b   (cheap guard simplification)
	changed := false
	neg := func(y *Term) bool { // the negation of y is among the conjuncts
		if y.op == "not" {
			return seen[y.args[0].id]
		}
		n, ok := c.tab["not|Bool|"+strconv.Itoa(y.id)]
		return ok && seen[n.id]
	}
	for i, x := range out {
		if x.op == "not" && x.args[0].op == "and" {
			ys := x.args[0].args
			var keep []*Term
			sat := false
			for _, y := range ys {
				if neg(y) {
					sat = true
					break
				}
				if !seen[y.id] {
					keep = append(keep, y)
				}
			}
			if sat {
				out[i] = c.True()
				changed = true
			} else if len(keep) < len(ys) {
				out[i] = c.Not(c.And(keep...))
				changed = true
			}
			continue
		}
		if x.op == "or" {
			var keep []*Term
			sat := false
			for _, y := range x.args {
				if seen[y.id] {
					sat = true
					break
				}
				if y.op == "not" && seen[y.args[0].id] {
					continue
				}
				if y.op != "not" {
					if n, ok := c.tab["not|Bool|"+strconv.Itoa(y.id)]; ok && seen[n.id] {
						continue
					}
				}
				keep = append(keep, y)
			}
			if sat {
				out[i] = c.True()
				changed = true
			} else if len(keep) != len(x.args) {
				out[i] = c.Or(keep...)
				changed = true
			}
		}
	}
	if changed {
		return c.And(out...)
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.app("and", SBool, out...)
}

func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isTrue() {
			return false
		}
		if x.isFalse() || seen[x.id] {
			return true
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.True()
		}
	}
	for _, x := range out {
		if x.op == "not" && seen[x.args[0].id] {
			return c.True()
		}
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	// a or (not a and b)  ->  a or b
	isOut := func(y *Term) bool {
		if y.op == "not" {
			return seen[y.args[0].id]
		}
		n, ok := c.tab["not|Bool|"+strconv.Itoa(y.id)]
		return ok && seen[n.id]
	}
	for i, x := range out {
		if x.op != "and" {
			continue
		}
		var keep []*Term
		absorbed := false
		for _, y := range x.args {
			if seen[y.id] {
				absorbed = true
				break
			}
			if !isOut(y) {
				keep = append(keep, y)
			}
		}
		if absorbed || len(keep) < len(x.args) {
			ys := append([]*Term{}, out[:i]...)
			ys = append(ys, out[i+1:]...)
			if !absorbed {
				ys = append(ys, c.And(keep...))
			}
			return c.Or(ys...)
		}
	}
	// factor common conjuncts of two-way joins: (g and c) or (g and not c) -> g
	if len(out) >= 2 {
		common := conj(out[0])
		for _, x := range out[1:] {
			cx := map[int]bool{}
			for _, y := range conj(x) {
				cx[y.id] = true
			}
			var k []*Term
			for _, y := range common {
				if cx[y.id] {
					k = append(k, y)
				}
			}
			common = k
		}
		if len(common) > 0 {
			cm := map[int]bool{}
			for _, y := range common {
				cm[y.id] = true
			}
			var rest []*Term
			for _, x := range out {
				var r []*Term
				for _, y := range conj(x) {
					if !cm[y.id] {
						r = append(r, y)
					}
				}
				rest = append(rest, c.And(r...))
			}
			return c.And(append(append([]*Term{}, common...), c.Or(rest...))...)
		}
	}
	return c.app("or", SBool, out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	if a == b {
		return c.True()
	}
	return c.app("=>", SBool, a, b)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(unsupported("ite sort mismatch %s vs %s", a.sort, b.sort))
	}
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == "ite" && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if (a.sort == SInt || a.sort == SReal) && (g.op == "<" || g.op == "<=") && a.isConst() != b.isConst() {
		// min and max with a constant in one form, however the comparison was written
		x, y := g.args[0], g.args[1]
		if x == a && y == b || x == b && y == a {
			k, t := a, b
			if b.isConst() {
				k, t = b, a
			}
			lt := c.Lt(k, t)
			if lt.op == "<" && lt != g {
				if x == a {
					return c.app("ite", a.sort, lt, k, t) // min
				}
				return c.app("ite", a.sort, lt, t, k) // max
			}
		}
	}
	return c.app("ite", a.sort, g, a, b)
}

// distinctRefs reports whether two terms certainly differ.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	if a.alloc > 0 && b.alloc > 0 {
		return true
	}
	if (a.alloc > 0 && isInit(b)) || (b.alloc > 0 && isInit(a)) {
		return true
	}
	if a.alloc > 0 && b.isConst() || b.alloc > 0 && a.isConst() {
		return true // allocations are positive and above every constant ref we use (nil)
	}
	if a.nsym && b.nsym {
		return true
	}
	if a.sort == SInt && a.op == "+" && b.op == "+" {
		// x + c1 vs x + c2
		if len(a.args) == 2 && len(b.args) == 2 && a.args[0] == b.args[0] && a.args[1].isConst() && b.args[1].isConst() {
			return true
		}
	}
	if a.sort == SInt && a.op == "+" && len(a.args) == 2 && a.args[0] == b && a.args[1].isConst() && a.args[1].ival.Sign() != 0 {
		return true
	}
	if b.sort == SInt && b.op == "+" && len(b.args) == 2 && b.args[0] == a && b.args[1].isConst() && b.args[1].ival.Sign() != 0 {
		return true
	}
	return false
}

// isInit: a reference that existed before the verified call (parameter or content of the initial heap).
func isInit(t *Term) bool {
	if t.initial && !t.sort.isArr() {
		return true
	}
	for t.op == "select" {
		t = t.args[0]
		if t.initial && t.op == "sym" {
			return true
		}
	}
	return false
}

// Eq is SMT equality ('='). For floats in bit mode this is structural, use FEq for Go ==.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a.op != "ite" && b.op != "ite" {
		return c.eq0(a, b)
	}
	k := [2]int{a.id, b.id}
	if t, ok := c.mEq[k]; ok {
		return t
	}
	t := c.eq0(a, b)
	c.mEq[k] = t
	return t
}

func (c *Ctx) eq0(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(unsupported("eq sort mismatch %s vs %s (%s, %s)", a.sort, b.sort, c.Show(a), c.Show(b)))
	}
	if a == b {
		return c.True()
	}
	if distinct(a, b) {
		return c.False()
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.op == "ite" && !a.sort.isArr() {
		if (a.args[1].isConst() || a.args[1].alloc > 0 || a.args[1].nsym || a.args[1].op == "ite") && (b.isConst() || b.nsym || b.alloc > 0) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
	}
	if b.op == "ite" && !a.sort.isArr() {
		if (b.args[1].isConst() || b.args[1].alloc > 0 || b.args[1].nsym || b.args[1].op == "ite") && (a.isConst() || a.nsym || a.alloc > 0) {
			return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
		}
	}
	if a.sort == SIface {
		if strings.HasPrefix(a.op, "uf:box_") && b.op == "sym" && b.name == "inil" {
			return c.False()
		}
		if strings.HasPrefix(b.op, "uf:box_") && a.op == "sym" && a.name == "inil" {
			return c.False()
		}
		if strings.HasPrefix(a.op, "uf:box_") && strings.HasPrefix(b.op, "uf:box_") && a.op != b.op {
			return c.False()
		}
		if a.op == "ite" && b.op == "sym" && b.name == "inil" {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.app("=", SBool, a, b)
}

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array") }

// ---- integer / real arithmetic ----

func (c *Ctx) numConst(s Sort, r *big.Rat) *Term {
	if s == SInt {
		return c.IntBig(r.Num())
	}
	return c.Real(r)
}
func ratOf(t *Term) *big.Rat {
	if t.ival != nil {
		return new(big.Rat).SetInt(t.ival)
	}
	return t.rval
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.numConst(a.sort, new(big.Rat).Add(ratOf(a), ratOf(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if ratOf(b).Sign() == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].isConst() {
			return c.Add(a.args[0], c.Add(a.args[1], b))
		}
		if r := c.lift(a, b, c.Add); r != nil {
			return r
		}
		if a.op == "ite" && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Add(a.args[1], b), c.Add(a.args[2], b))
		}
	}
	if !b.isConst() && b.id < a.id {
		a, b = b, a
	}
	return c.app("+", a.sort, a, b)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.numConst(a.sort, new(big.Rat).Neg(ratOf(a)))
	}
	return c.app("-", a.sort, a)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.numConst(a.sort, new(big.Rat))
	}
	if b.isConst() {
		return c.Add(a, c.Neg(b))
	}
	if a.op == "+" && len(a.args) == 2 && a.args[0] == b {
		return a.args[1]
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1] == b {
		return a.args[0]
	}
	return c.app("-", a.sort, a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.numConst(a.sort, new(big.Rat).Mul(ratOf(a), ratOf(b)))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if ratOf(a).Sign() == 0 {
			return a
		}
		if ratOf(a).Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
	}
	if !a.isConst() && b.id < a.id {
		a, b = b, a
	}
	return c.app("*", a.sort, a, b)
}
func (c *Ctx) RDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.rval.Sign() != 0 {
		return c.Real(new(big.Rat).Quo(a.rval, b.rval))
	}
	if b.isConst() && b.rval.Sign() != 0 {
		return c.Mul(c.Real(new(big.Rat).Inv(b.rval)), a)
	}
	return c.app("/", SReal, a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.isConst() && b.isConst() {
		return c.Bool(ratOf(a).Cmp(ratOf(b)) <= 0)
	}
	if r := c.lift(a, b, c.Le); r != nil {
		return r
	}
	return c.app("<=", SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	if a.isConst() && b.isConst() {
		return c.Bool(ratOf(a).Cmp(ratOf(b)) < 0)
	}
	if r := c.lift(a, b, c.Lt); r != nil {
		return r
	}
	return c.app("<", SBool, a, b)
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) ToReal(a *Term) *Term {
	if a.isConst() {
		return c.Real(new(big.Rat).SetInt(a.ival))
	}
	if a.op == "ite" && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.ToReal(a.args[1]), c.ToReal(a.args[2]))
	}
	return c.app("to_real", SReal, a)
}

// ToInt is floor.
func (c *Ctx) ToInt(a *Term) *Term {
	if a.isConst() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.rval.Num(), a.rval.Denom(), m)
		return c.IntBig(q)
	}
	if a.op == "to_real" {
		return a.args[0]
	}
	return c.app("to_int", SInt, a)
}

// ---- arrays ----

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.app("constarr", s, v)
}

func (c *Ctx) Select(a, i *Term) *Term {
	k := [2]int{a.id, i.id}
	if t, ok := c.mSel[k]; ok {
		return t
	}
	t := c.sel0(a, i)
	c.mSel[k] = t
	return t
}

func (c *Ctx) sel0(a, i *Term) *Term {
	_, vs := a.sort.splitArr()
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if distinct(a.args[1], i) {
			return c.Select(a.args[0], i)
		}
		if ix := a.args[1]; ix.tree > 0 && i.leaves() == 1 {
			return c.Ite(c.Eq(ix, i), a.args[2], c.Select(a.args[0], i))
		}
	case "constarr":
		return a.args[0]
	case "ite":
		x := c.Select(a.args[1], i)
		y := c.Select(a.args[2], i)
		return c.Ite(a.args[0], x, y)
	}
	if i.op == "ite" && !i.bound && i.depth < 6 && (i.args[1].isConst() || i.args[1].alloc > 0) && (i.args[2].isConst() || i.args[2].alloc > 0) {
		return c.Ite(i.args[0], c.Select(a, i.args[1]), c.Select(a, i.args[2]))
	}
	if i.tree > 0 {
		return c.Ite(i.args[0], c.Select(a, i.args[1]), c.Select(a, i.args[2]))
	}
	return c.app("select", vs, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.app("store", a.sort, a, i, v)
}

func (c *Ctx) Quant(op string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := map[int]bool{}
	var walk func(t *Term)
	seen := map[int]bool{}
	walk = func(t *Term) {
		if seen[t.id] || !t.bound {
			return
		}
		seen[t.id] = true
		if t.op == "bound" {
			used[t.id] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var vs []*Term
	for _, v := range vars {
		if used[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	key := op
	for _, v := range vs {
		key += "|" + v.name
	}
	key += "|" + strconv.Itoa(body.id)
	for _, p := range pats {
		key += "|p" + strconv.Itoa(p.id)
	}
	args := append([]*Term{body}, pats...)
	t := &Term{op: op, sort: SBool, args: args, qv: vs}
	r := c.mk(t, key)
	// recompute free-bound flag
	fb := false
	isV := map[int]bool{}
	for _, v := range vs {
		isV[v.id] = true
	}
	for id := range used {
		if !isV[id] {
			fb = true
		}
	}
	r.bound = fb
	return r
}
func (c *Ctx) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return c.Quant("forall", vars, body, pats...)
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.Quant("exists", vars, body) }

// subst replaces symbols/bounds by terms (used for quantifier instantiation and renaming).
func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Imp(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "+":
		return c.Add(as[0], as[1])
	case "*":
		return c.Mul(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "<":
		return c.Lt(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "forall", "exists":
		return c.Quant(t.op, t.qv, as[0], as[1:]...)
	}
	return c.app(t.op, t.sort, as...)
}

// ---- printing ----

type printer struct {
	c     *Ctx
	out   strings.Builder
	names map[int]string
	syms  map[string]Sort
	ufs   map[string]bool
	n     int
	refs  map[int]int
}

func newPrinter(c *Ctx) *printer {
	return &printer{c: c, names: map[int]string{}, syms: map[string]Sort{}, ufs: map[string]bool{}, refs: map[int]int{}}
}

// collect counts references and gathers symbols.
func (p *printer) collect(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	switch {
	case t.op == "sym":
		p.syms[t.name] = t.sort
	case strings.HasPrefix(t.op, "uf:"):
		p.ufs[t.op[3:]] = true
	}
	for _, a := range t.args {
		p.collect(a)
	}
}

func (p *printer) head(t *Term) string {
	switch {
	case strings.HasPrefix(t.op, "uf:"):
		return t.op[3:]
	case t.op == "constarr":
		return "(as const " + string(t.sort) + ")"
	}
	return t.op
}

func (p *printer) leaf(t *Term) (string, bool) {
	if t.op == "const" || t.op == "sym" {
		return t.name, true
	}
	if t.op == "bound" {
		return "|" + t.name + "|", true
	}
	return "", false
}

// ref returns text for t, emitting define-fun for shared closed terms.
func (p *printer) ref(t *Term) string {
	if s, ok := p.leaf(t); ok {
		return s
	}
	if s, ok := p.names[t.id]; ok {
		return s
	}
	var s string
	if t.op == "forall" || t.op == "exists" {
		s = p.quant(t)
	} else {
		parts := []string{p.head(t)}
		for _, a := range t.args {
			parts = append(parts, p.ref(a))
		}
		s = "(" + strings.Join(parts, " ") + ")"
	}
	if !t.bound && p.refs[t.id] > 1 {
		p.n++
		nm := fmt.Sprintf("d!%d", p.n)
		fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", nm, t.sort, s)
		p.names[t.id] = nm
		return nm
	}
	return s
}

func (p *printer) quant(t *Term) string {
	var vs []string
	for _, v := range t.qv {
		vs = append(vs, fmt.Sprintf("(|%s| %s)", v.name, v.sort))
	}
	// let-bind shared bound subterms of the body
	body := p.inner(t.args[0])
	if len(t.args) > 1 {
		var ps []string
		for _, q := range t.args[1:] {
			ps = append(ps, ":pattern ("+p.ref(q)+")")
		}
		body = "(! " + body + " " + strings.Join(ps, " ") + ")"
	}
	return fmt.Sprintf("(%s (%s) %s)", t.op, strings.Join(vs, " "), body)
}

// inner prints a term with bound variables, using nested lets for shared subterms.
func (p *printer) inner(t *Term) string {
	cnt := map[int]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || len(t.args) == 0 {
			return
		}
		cnt[t.id]++
		if cnt[t.id] > 1 {
			return
		}
		if t.op == "forall" || t.op == "exists" {
			order = append(order, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	walk(t)
	nm := map[int]string{}
	var pr func(t *Term, top bool) string
	pr = func(x *Term, top bool) string {
		if s, ok := p.leaf(x); ok {
			return s
		}
		if !x.bound {
			return p.ref(x)
		}
		if s, ok := nm[x.id]; ok && !top {
			return s
		}
		if x.op == "forall" || x.op == "exists" {
			return p.quant(x)
		}
		parts := []string{p.head(x)}
		for _, a := range x.args {
			parts = append(parts, pr(a, false))
		}
		return "(" + strings.Join(parts, " ") + ")"
	}
	var pre, post strings.Builder
	for _, x := range order {
		if cnt[x.id] > 1 && x != t {
			s := pr(x, true)
			p.n++
			n := fmt.Sprintf("l!%d", p.n)
			fmt.Fprintf(&pre, "(let ((%s %s)) ", n, s)
			post.WriteString(")")
			nm[x.id] = n
		}
	}
	return pre.String() + pr(t, true) + post.String()
}

// Script builds a complete SMT-LIB query.
func (c *Ctx) Script(asserts []*Term, getvals []*Term, opts string) string {
	p := newPrinter(c)
	for _, a := range asserts {
		p.collect(a)
	}
	for _, a := range getvals {
		p.collect(a)
	}
	var hd strings.Builder
	hd.WriteString(opts)
	hd.WriteString("(declare-sort Str 0)\n(declare-sort Iface 0)\n")
	var names []string
	for n := range p.syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&hd, "(declare-fun %s () %s)\n", n, p.syms[n])
	}
	for _, n := range c.order {
		if p.ufs[n] {
			hd.WriteString(c.decls[n] + "\n")
		}
	}
	// string literals are distinct
	var lits []string
	for _, t := range c.strs {
		if _, ok := p.syms[t.name]; ok {
			lits = append(lits, t.name)
		}
	}
	if len(lits) > 1 {
		sort.Strings(lits)
		fmt.Fprintf(&hd, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, a := range asserts {
		s := p.ref(a)
		fmt.Fprintf(&p.out, "(assert %s)\n", s)
	}
	var gv string
	if len(getvals) > 0 {
		var xs []string
		for _, g := range getvals {
			xs = append(xs, p.ref(g))
		}
		gv = "(get-value (" + strings.Join(xs, " ") + "))\n"
	}
	return hd.String() + p.out.String() + "(check-sat)\n" + gv
}

// Show renders a term (for messages), truncated.
func (c *Ctx) Show(t *Term) string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		if t.op == "const" || t.op == "sym" || t.op == "bound" {
			return t.name
		}
		if d > 6 {
			return "…"
		}
		s := "(" + strings.TrimPrefix(t.op, "uf:")
		for _, a := range t.args {
			s += " " + f(a, d+1)
		}
		return s + ")"
	}
	s := f(t, 0)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

type unsup struct{ msg string }

func (u unsup) Error() string { return u.msg }
func unsupported(f string, a ...any) unsup {
	return unsup{fmt.Sprintf(f, a...)}
}
