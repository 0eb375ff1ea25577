package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// Val is a symbolic Go value: *Term (scalars, pointers, maps, chans, interfaces),
// *StructV, *SliceV, *Addr (interior or typed pointers), *FuncV, *TupleV, *IterV.
type Val any

type StructV struct{ f []Val }
type ArrayV struct{ e []Val }
type SliceV struct{ ref, off, ln, cp *Term }
type TupleV struct{ v []Val }
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	// bound intrinsic (method value without body)
	id *Term
	// specification closure evaluated in an earlier state
	frozen *State
}
type IterV struct {
	m    *Term // map ref
	mt   *types.Map
	key  string // heap key of the visited set
	ref  *Term
	str  *Term
	g    *iterGhost
	dom0 *Term
}

// Addr is a pointer: an object root with a path inside it.
type Addr struct {
	root string // "O:<type>" object, "E:<type>" slice element, "G:<name>" global
	ref  *Term
	idx  *Term // element index for E roots
	path string
	typ  types.Type // pointee type
}

func (a *Addr) key(suffix string) string { return a.root + a.path + suffix }

func (ex *Exec) typeName(t types.Type) string {
	if s, ok := ex.tnames[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string {
		q := p.Path()
		q = strings.TrimPrefix(q, modPath+"/")
		return q
	})
	s = strings.ReplaceAll(strings.ReplaceAll(s, "interface {}", "any"), "interface{}", "any")
	ex.tnames[t] = s
	return s
}

type leaf struct {
	suf  string
	sort Sort
	typ  types.Type
	kind byte // 'v' scalar value, 'r' reference-like Int, 'f' func, 'i' iface, 'n' slice len/off/cap, 'g' ghost
}

// opaqueLeaves gives the abstract representation of library types.
func (ex *Exec) opaqueLeaves(t types.Type) ([]leaf, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	p := n.Obj().Pkg().Path()
	name := n.Obj().Name()
	switch p + "." + name {
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.noCopy":
		return []leaf{}, true
	case "sync.Map":
		return []leaf{{".dom", SArr(SIface, SBool), nil, 'g'}, {".val", SArr(SIface, SIface), nil, 'g'}, {".cnt", ex.isort(), nil, 'n'}}, true
	case "sync.Pool":
		return []leaf{{".New", SInt, nil, 'f'}}, true
	case "sync/atomic.Value":
		return []leaf{{".v", SIface, nil, 'i'}}, true
	case "sync/atomic.Int64", "sync/atomic.Int32", "sync/atomic.Uint64", "sync/atomic.Uint32":
		b := map[string]types.BasicKind{"Int64": types.Int64, "Int32": types.Int32, "Uint64": types.Uint64, "Uint32": types.Uint32}[name]
		return []leaf{{".v", ex.scalarSort(types.Typ[b]), types.Typ[b], 'v'}}, true
	case "sync/atomic.Bool":
		return []leaf{{".v", SBool, types.Typ[types.Bool], 'v'}}, true
	case "go.uber.org/atomic.Float64":
		return []leaf{{".v", ex.scalarSort(f64), f64, 'v'}}, true
	case "sync/atomic.Pointer":
		return []leaf{{".v", SInt, nil, 'r'}}, true
	case "time.Time":
		return []leaf{{".ns", ex.isort(), types.Typ[types.Int64], 'v'}}, true
	case "github.com/gammazero/deque.Deque":
		el := n.TypeArgs().At(0)
		ls := ex.leaves(el)
		if len(ls) != 1 {
			panic(unsupported("deque of %s", el))
		}
		return []leaf{{".arr", SArr(ex.isort(), ls[0].sort), nil, 'g'}, {".front", ex.isort(), types.Typ[types.Int], 'n'}, {".len", ex.isort(), types.Typ[types.Int], 'n'}}, true
	}
	return nil, false
}

func (ex *Exec) leaves(t types.Type) []leaf {
	if l, ok := ex.leafCache[t]; ok {
		return l
	}
	l := ex.leaves0(t)
	ex.leafCache[t] = l
	return l
}

func (ex *Exec) leaves0(t types.Type) []leaf {
	if l, ok := ex.opaqueLeaves(t); ok {
		return l
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []leaf{{"", ex.scalarSort(u), t, 'v'}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{"", SInt, t, 'r'}}
	case *types.Signature:
		return []leaf{{"", SInt, t, 'f'}}
	case *types.Interface:
		return []leaf{{"", SIface, t, 'i'}}
	case *types.Slice:
		is := ex.isort()
		return []leaf{{"#ref", SInt, nil, 'r'}, {"#off", is, nil, 'n'}, {"#len", is, nil, 'n'}, {"#cap", is, nil, 'n'}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range ex.leaves(f.Type()) {
				l.suf = "." + f.Name() + l.suf
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			panic(unsupported("array type %s", t))
		}
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range ex.leaves(u.Elem()) {
				l.suf = sprintf("[%d]", i) + l.suf
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range ex.leaves(u.At(i).Type()) {
				l.suf = sprintf("!%d", i) + l.suf
				out = append(out, l)
			}
		}
		return out
	case *types.TypeParam:
		panic(unsupported("uninstantiated type parameter %s", t))
	}
	panic(unsupported("type %s", t))
}

// flatten converts a value of type t into its leaf terms.
func (ex *Exec) flatten(v Val, t types.Type) []*Term {
	if _, ok := ex.opaqueLeaves(t); ok {
		if tm, ok := v.(*Term); ok {
			return []*Term{tm}
		}
		s := v.(*StructV)
		var out []*Term
		for _, x := range s.f {
			out = append(out, x.(*Term))
		}
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Chan, *types.Interface:
		return []*Term{v.(*Term)}
	case *types.Pointer:
		return []*Term{ex.ptrTerm(v)}
	case *types.Signature:
		return []*Term{ex.funcTerm(v)}
	case *types.Slice:
		s := v.(*SliceV)
		return []*Term{s.ref, s.off, s.ln, s.cp}
	case *types.Struct:
		s := v.(*StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.flatten(s.f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		s := v.(*ArrayV)
		var out []*Term
		for i := range s.e {
			out = append(out, ex.flatten(s.e[i], u.Elem())...)
		}
		return out
	case *types.Tuple:
		s := v.(*TupleV)
		var out []*Term
		for i := 0; i < u.Len(); i++ {
			out = append(out, ex.flatten(s.v[i], u.At(i).Type())...)
		}
		return out
	}
	panic(unsupported("flatten %s", t))
}

func (ex *Exec) unflatten(t types.Type, ts []*Term) Val {
	v, rest := ex.unfl(t, ts)
	if len(rest) != 0 {
		panic("unflatten leftover")
	}
	return v
}

func (ex *Exec) unfl(t types.Type, ts []*Term) (Val, []*Term) {
	if l, ok := ex.opaqueLeaves(t); ok {
		s := &StructV{}
		for i := range l {
			s.f = append(s.f, ts[i])
		}
		return s, ts[len(l):]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = ex.unfl(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		s := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = ex.unfl(u.Elem(), ts)
			s.e = append(s.e, v)
		}
		return s, ts
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ts = ex.unfl(u.At(i).Type(), ts)
			s.v = append(s.v, v)
		}
		return s, ts
	}
	return ts[0], ts[1:]
}

func (ex *Exec) ptrTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Addr:
		if x.path == "" && x.idx == nil && strings.HasPrefix(x.root, "O:") {
			return x.ref
		}
		if x.path == "" && strings.HasPrefix(x.root, "A:") {
			return x.ref
		}
		// interior pointer: registered symbolic reference
		k := sprintf("%s|%d|%v|%s", x.root, x.ref.id, idOf(x.idx), x.path)
		if t, ok := ex.interior[k]; ok {
			return t
		}
		t := ex.c.Fresh("ip", SInt)
		ex.fact(ex.c.Gt(t, ex.c.Int(0)))
		ex.interior[k] = t
		ex.interiorRev[t.id] = x
		return t
	case *FuncV:
		return ex.funcTerm(x)
	}
	panic(unsupported("pointer value %T", v))
}
func idOf(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (ex *Exec) funcTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *FuncV:
		if x.id == nil {
			ex.nfuncs++
			x.id = ex.c.Int(int64(1000000 + ex.nfuncs))
			ex.funcs[x.id.id] = x
		}
		return x.id
	}
	panic(unsupported("func value %T", v))
}

// asAddr interprets a pointer value as an address of pointee type t.
func (ex *Exec) asAddr(v Val, t types.Type) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	case *Term:
		if a, ok := ex.interiorRev[x.id]; ok {
			return a
		}
		if ex.hasInterior(x) {
			panic(unsupported("dereference of merged interior pointer"))
		}
		if ar, ok := t.Underlying().(*types.Array); ok {
			return &Addr{root: "A:" + ex.typeName(ar.Elem()), ref: x, typ: t}
		}
		return &Addr{root: "O:" + ex.typeName(t), ref: x, typ: t}
	}
	panic(unsupported("asAddr %T", v))
}

func (ex *Exec) hasInterior(t *Term) bool {
	if t.op == "ite" {
		return ex.hasInterior(t.args[1]) || ex.hasInterior(t.args[2])
	}
	_, ok := ex.interiorRev[t.id]
	return ok
}

func (ex *Exec) zeroLeaf(l leaf) *Term {
	c := ex.c
	switch {
	case l.sort == SBool:
		return c.False()
	case l.sort == SStr:
		return c.Str("")
	case l.sort == SIface:
		return ex.inil()
	case l.sort == SInt:
		return c.Int(0)
	case l.sort == SReal:
		return ex.floatC(0)
	case l.sort == SFP:
		return c.FP(0)
	case l.sort.isBV():
		return c.BV(bigZero, l.sort.bvWidth())
	case l.sort.isArr():
		k, v := l.sort.splitArr()
		_ = k
		return c.ConstArr(l.sort, ex.zeroLeaf(leaf{sort: v}))
	}
	panic(unsupported("zero of sort %s", l.sort))
}

func (ex *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range ex.leaves(t) {
		ts = append(ts, ex.zeroLeaf(l))
	}
	return ex.unflatten(t, ts)
}

func (ex *Exec) inil() *Term { return ex.c.Sym("inil", SIface) }

// fresh makes a symbolic value of type t with its type facts assumed.
func (ex *Exec) fresh(hint string, t types.Type, st *State) Val {
	var ts []*Term
	ls := ex.leaves(t)
	for _, l := range ls {
		x := ex.c.Fresh(hint+l.suf, l.sort)
		ts = append(ts, x)
	}
	v := ex.unflatten(t, ts)
	ex.typeFacts(v, t, st)
	return v
}

// typeFacts assumes what the Go type system guarantees about a value.
func (ex *Exec) typeFacts(v Val, t types.Type, st *State) {
	if ex.inQuant > 0 {
		return
	}
	ts := ex.flatten(v, t)
	for i, l := range ex.leaves(t) {
		ex.leafFact(ts[i], l, st)
	}
	ex.sliceFacts(v, t, st)
}

func (ex *Exec) leafFact(x *Term, l leaf, st *State) {
	if x.isConst() || x.bound || x.alloc > 0 {
		return
	}
	if x.op == "ite" || x.op == "+" {
		return
	}
	k := [2]int{x.id, st.cur.id}
	if ex.typed[k] {
		return
	}
	ex.typed[k] = true
	c := ex.c
	switch l.kind {
	case 'v':
		if l.typ != nil {
			if b := basicOf(l.typ); b != nil {
				ex.rangeFact(x, b)
			}
		}
	case 'r':
		ex.fact(c.And(c.Le(c.Int(0), x), c.Le(x, st.cur)))
	case 'i':
		ex.fact(c.Le(c.Int(0), ex.itag(x)))
		ex.fact(c.Eq(c.Eq(ex.itag(x), c.Int(0)), c.Eq(x, ex.inil())))
	}
}

func (ex *Exec) sliceFacts(v Val, t types.Type, st *State) {
	if _, ok := ex.opaqueLeaves(t); ok {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		if s.ln.isConst() && s.off.isConst() {
			return
		}
		k := [2]int{s.ln.id, s.cp.id}
		if ex.typed[k] {
			return
		}
		ex.typed[k] = true
		c := ex.c
		z := ex.intC(0)
		ex.fact(ex.ile(z, s.off))
		ex.fact(ex.ile(z, s.ln))
		ex.fact(ex.ile(s.ln, s.cp))
		if ex.mode == Bits {
			lim := ex.intC(1 << 40)
			ex.fact(ex.ile(s.cp, lim))
			ex.fact(ex.ile(s.off, lim))
		} else {
			ex.fact(ex.ile(ex.iadd(s.off, s.cp), ex.intC(1<<60)))
		}
		ex.fact(c.Imp(c.Eq(s.ref, c.Int(0)), c.And(c.Eq(s.ln, z), c.Eq(s.cp, z))))
	case *types.Struct:
		s := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			ex.sliceFacts(s.f[i], u.Field(i).Type(), st)
		}
	case *types.Tuple:
		s := v.(*TupleV)
		for i := 0; i < u.Len(); i++ {
			ex.sliceFacts(s.v[i], u.At(i).Type(), st)
		}
	}
}

// ---- state ----

type State struct {
	guard *Term
	heap  map[string]*Term
	cur   *Term // highest allocated reference so far
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{guard: s.guard, heap: h, cur: s.cur}
}

func (ex *Exec) heapGet(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return ex.initialHeap(key, s)
}

// initialHeap returns the pre-state content of a heap map.
func (ex *Exec) initialHeap(key string, s Sort) *Term {
	if t, ok := ex.initHeap[key]; ok {
		return t
	}
	ex.hsorts[key] = s
	if strings.HasPrefix(key, "L:") || strings.HasPrefix(key, "N:") { // locks are free, counters zero at entry
		_, v := s.splitArr()
		t := ex.c.ConstArr(s, ex.zeroLeaf(leaf{sort: v}))
		ex.initHeap[key] = t
		return t
	}
	t := ex.c.Fresh("H."+key, s)
	t.initial = true
	ex.initHeap[key] = t
	ex.arrFacts(t, key, ex.base0)
	return t
}

// arrFacts: every reference stored in a heap map is a valid (allocated) one.
func (ex *Exec) arrFacts(t *Term, key string, cur *Term) {
	kind := ex.hkinds[key]
	if kind != 'r' {
		return
	}
	c := ex.c
	_, v := t.sort.splitArr()
	r := c.Bound("r", SInt)
	if v == SInt {
		s := c.app("select", SInt, t, r)
		ex.axiom(c.Forall([]*Term{r}, c.And(c.Le(c.Int(0), s), c.Le(s, cur)), s))
		return
	}
	if v.isArr() {
		k2, v2 := v.splitArr()
		if v2 == SInt {
			i := c.Bound("i", k2)
			s := c.app("select", SInt, c.app("select", v, t, r), i)
			ex.axiom(c.Forall([]*Term{r, i}, c.And(c.Le(c.Int(0), s), c.Le(s, cur)), s))
		}
	}
}

func (ex *Exec) hsort(a *Addr, l leaf) Sort {
	if a.idx != nil {
		return SArr(SInt, SArr(ex.isort(), l.sort))
	}
	return SArr(SInt, l.sort)
}

func (ex *Exec) loadLeaf(st *State, a *Addr, l leaf) *Term {
	key := a.key(l.suf)
	if _, ok := ex.hkinds[key]; !ok {
		ex.hkinds[key] = l.kind
	}
	h := ex.heapGet(st, key, ex.hsort(a, l))
	x := ex.c.Select(h, a.ref)
	if a.idx != nil {
		x = ex.c.Select(x, a.idx)
	}
	return x
}

func (ex *Exec) storeLeaf(st *State, a *Addr, l leaf, v *Term) {
	key := a.key(l.suf)
	if _, ok := ex.hkinds[key]; !ok {
		ex.hkinds[key] = l.kind
	}
	s := ex.hsort(a, l)
	h := ex.heapGet(st, key, s)
	if a.idx != nil {
		inner := ex.c.Select(h, a.ref)
		v = ex.c.Store(inner, a.idx, v)
	}
	ex.logWrite(key, a.ref, s)
	st.heap[key] = ex.c.Store(h, a.ref, v)
}

func (ex *Exec) load(st *State, a *Addr, t types.Type) Val {
	if a.root[0] == 'A' && a.idx == nil {
		return ex.loadArray(st, a, t)
	}
	if gv, ok := ex.globalConst(a, t); ok {
		return gv
	}
	var ts []*Term
	ls := ex.leaves(t)
	for _, l := range ls {
		x := ex.loadLeaf(st, a, l)
		ts = append(ts, x)
		if ex.inQuant == 0 {
			ex.leafFact(x, l, st)
		}
	}
	v := ex.unflatten(t, ts)
	if ex.inQuant == 0 {
		ex.sliceFacts(v, t, st)
	}
	return v
}

func (ex *Exec) loadArray(st *State, a *Addr, t types.Type) Val {
	ar := t.Underlying().(*types.Array)
	v := &ArrayV{}
	for i := int64(0); i < ar.Len(); i++ {
		v.e = append(v.e, ex.load(st, ex.elemAddr(a.ref, ex.intC(i), ar.Elem()), ar.Elem()))
	}
	return v
}

func (ex *Exec) elemAddr(ref, idx *Term, t types.Type) *Addr {
	return &Addr{root: "E:" + ex.typeName(t), ref: ref, idx: idx, typ: t}
}

func (ex *Exec) store(st *State, a *Addr, v Val, t types.Type) {
	if a.root[0] == 'A' && a.idx == nil {
		ar := t.Underlying().(*types.Array)
		av := v.(*ArrayV)
		for i := range av.e {
			ex.store(st, ex.elemAddr(a.ref, ex.intC(int64(i)), ar.Elem()), av.e[i], ar.Elem())
		}
		return
	}
	ts := ex.flatten(v, t)
	for i, l := range ex.leaves(t) {
		ex.storeLeaf(st, a, l, ts[i])
	}
}

// alloc returns a new reference distinct from all existing ones.
func (ex *Exec) alloc(st *State, hint string) *Term {
	r := ex.c.Fresh("new."+hint, SInt)
	ex.nalloc++
	r.alloc = ex.nalloc
	ex.fact(ex.c.Gt(r, st.cur))
	st.cur = r
	return r
}

// ---- interface boxing ----

func (ex *Exec) typeTag(t types.Type) *Term {
	n := ex.typeName(t)
	if i, ok := ex.tags[n]; ok {
		return ex.c.Int(int64(i))
	}
	i := len(ex.tags) + 1
	ex.tags[n] = i
	ex.tagTypes[i] = t
	return ex.c.Int(int64(i))
}

func (ex *Exec) itag(x *Term) *Term {
	c := ex.c
	if x.op == "ite" {
		k := memoKey{"itag", 0, x.id}
		if r, ok := ex.memo[k]; ok {
			return r
		}
		r := c.Ite(x.args[0], ex.itag(x.args[1]), ex.itag(x.args[2]))
		ex.memo[k] = r
		return r
	}
	if strings.HasPrefix(x.op, "uf:box_") {
		return c.Int(int64(ex.boxTags[x.op[3:]]))
	}
	if x.op == "sym" && x.name == "inil" {
		return c.Int(0)
	}
	return c.UF("itag", SInt, x)
}

func (ex *Exec) box(v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(*Term)
	}
	ts := ex.flatten(v, t)
	name := "box_" + sanitize(ex.typeName(t))
	tag := ex.typeTag(t)
	ex.boxTags[name] = int(tag.ival.Int64())
	if len(ts) == 0 {
		ts = []*Term{ex.c.Int(0)}
	}
	b := ex.c.UF(name, SIface, ts...)
	if b.bound && len(ts) <= 2 && ex.memo[memoKey{"boxaxiom" + name, 0, 0}] == nil {
		c := ex.c
		var bs []*Term
		for _, x := range ts {
			bs = append(bs, c.Bound("bx", x.sort))
		}
		q := c.UF(name, SIface, bs...)
		ex.memo[memoKey{"boxaxiom" + name, 0, 0}] = q
		fs := []*Term{c.Eq(c.app("uf:itag", SInt, q), tag), c.Not(c.app("=", SBool, q, ex.inil()))}
		for i, x := range bs {
			fs = append(fs, c.Eq(c.app(sprintf("uf:un%s_%d", name, i), x.sort, q), x))
		}
		ex.axiom(c.Forall(bs, c.And(fs...), q))
	}
	if !b.bound && !ex.boxed[b.id] {
		ex.boxed[b.id] = true
		ex.axiom(ex.c.Eq(ex.c.UF("itag", SInt, b), tag))
		ex.axiom(ex.c.Not(ex.c.app("=", SBool, b, ex.inil())))
		for i, x := range ts {
			ex.axiom(ex.c.Eq(ex.c.UF(sprintf("un%s_%d", name, i), x.sort, b), x))
		}
	}
	return b
}

func (ex *Exec) unbox(x *Term, t types.Type) Val {
	name := "box_" + sanitize(ex.typeName(t))
	ls := ex.leaves(t)
	var ts []*Term
	for i, l := range ls {
		ts = append(ts, ex.unboxLeaf(x, name, i, l.sort))
	}
	return ex.unflatten(t, ts)
}

func (ex *Exec) unboxLeaf(x *Term, name string, i int, s Sort) *Term {
	c := ex.c
	if x.op == "uf:"+name {
		return x.args[i]
	}
	if x.op == "ite" {
		k := memoKey{name, i, x.id}
		if r, ok := ex.memo[k]; ok {
			return r
		}
		r := c.Ite(x.args[0], ex.unboxLeaf(x.args[1], name, i, s), ex.unboxLeaf(x.args[2], name, i, s))
		ex.memo[k] = r
		return r
	}
	u := c.UF(sprintf("un%s_%d", name, i), s, x)
	return u
}

// merge values under guard: g ? a : b
func (ex *Exec) iteVal(g *Term, a, b Val, t types.Type) Val {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if same(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Addr:
		if y, ok := b.(*Addr); ok && x.root == y.root && x.path == y.path && (x.idx == nil) == (y.idx == nil) {
			n := *x
			n.ref = ex.c.Ite(g, x.ref, y.ref)
			if x.idx != nil {
				n.idx = ex.c.Ite(g, x.idx, y.idx)
			}
			return &n
		}
	case *IterV:
		if y, ok := b.(*IterV); ok && x.key == y.key {
			return x
		}
	case *TupleV:
		y := b.(*TupleV)
		out := &TupleV{}
		tt, _ := t.(*types.Tuple)
		for i := range x.v {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			out.v = append(out.v, ex.iteVal(g, x.v[i], y.v[i], et))
		}
		return out
	case *StructV:
		if u, ok := t.Underlying().(*types.Struct); ok {
			if _, op := ex.opaqueLeaves(t); !op {
				y := b.(*StructV)
				out := &StructV{}
				for i := range x.f {
					out.f = append(out.f, ex.iteVal(g, x.f[i], y.f[i], u.Field(i).Type()))
				}
				return out
			}
		}
	case *Term:
		if y, ok := b.(*Term); ok {
			return ex.c.Ite(g, x, y)
		}
	}
	p := ex.flatten(a, t)
	q := ex.flatten(b, t)
	out := make([]*Term, len(p))
	for i := range p {
		out[i] = ex.c.Ite(g, p[i], q[i])
	}
	return ex.unflatten(t, out)
}

func same(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Addr:
		y, ok := b.(*Addr)
		return ok && x.root == y.root && x.path == y.path && x.ref == y.ref && x.idx == y.idx
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x == y
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !same(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !same(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	}
	return false
}

type memoKey struct {
	name  string
	i, id int
}
