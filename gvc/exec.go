package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/carlisia/bio-adapt"

var bigZero = big.NewInt(0)

type Goal struct {
	alone  bool // leave out the candidates offered by the contract, except its own
	name   string
	kind   string // ensures, safety, requires, lock, frame, init, preserve, variant, cover, unsupported
	f      *Term  // already guarded
	guard  *Term
	nfacts int
	cand   *Cand  // for init/preserve
	group  string // any-of group (variants)
	pos    string
	status string
	solver string
	dur    float64
	model  map[string]string
	out    string
	inCode bool // raised while executing repository code
}

type Fact struct {
	t    *Term
	cand *Cand
}

// Cand is a candidate loop invariant.
type Cand struct {
	name               string
	dead               bool
	undecided, refuted bool // given up early; refuted even with every candidate assumed
	why                string
	user               bool
}

type template struct {
	fn   *FuncV
	name string
	vart bool
}

type write struct {
	key string
	ref *Term
	s   Sort
}

type writeLog struct {
	w     map[string]map[int]*Term
	sorts map[string]Sort
}

type Exec struct {
	mapPick   map[int]*Term // map keys picked by an iteration -> the choice
	memo      map[memoKey]*Term
	frameMods []modTarget // what the contract under proof says its target may write
	kterms    []*Term     // integer terms that may count turns
	c         *Ctx
	prog      *ssa.Program
	mode      Mode
	facts     []Fact
	axs       []*Term // global axioms (valid everywhere)
	goals     []*Goal

	initHeap map[string]*Term
	hsorts   map[string]Sort
	hkinds   map[string]byte
	base0    *Term
	nalloc   int
	ncells   int
	cellMemo map[*ssa.Alloc]bool

	tnames    map[types.Type]string
	leafCache map[types.Type][]leaf
	typed     map[[2]int]bool
	factSeen  map[int]bool

	funcs  map[int]*FuncV
	nfuncs int

	interior    map[string]*Term
	interiorRev map[int]*Addr

	tags     map[string]int
	tagTypes map[int]types.Type
	boxTags  map[string]int
	boxed    map[int]bool

	cuts    int                    // paths given up so far (panics, loop cuts, calls that do not return)
	units   map[int]bool           // truth values known from the precondition
	asked   map[*Term][]types.Type // dynamic types an interface value was tested for
	inQuant int
	poolInv *FuncV
	quiet   int // >0: no goals recorded (dry runs)
	pure    int // >0: evaluating specification closures
	logs    []*writeLog
	tmpl    []*template
	depth   int
	stack   []*ssa.Function

	ct       *Contract // contract under verification
	reg      *Registry
	assume   map[string]bool // trusted models used (for evidence)
	covered  map[string]bool // repository functions executed
	guards   map[string]guardSpec
	caller   *callerMode
	nUnroll  int
	niter    int
	globals  map[string]*globInfo
	initing  bool
	curPos   token.Pos
	termOK   bool
	steps    int
	gInit    map[*ssa.Package]bool
	gHeap    map[string]*Term
	rely     []*relyCell
	monitors map[string]*monitorSpec
	noSafety map[string]bool
	critical map[string]bool
	loopIDs  int
	paramT   []paramLeaf
	iter     *iterGhost // the map iteration whose invariant is being evaluated
	iterMiss bool
}

// iterGhost is the history of a map iteration: the set of visited keys, their number, the visit
// order and the position of each visited key. It is true by construction at every point of the loop.
type iterGhost struct {
	ks                   Sort
	vis, cnt, seq, posit string
}

func (ex *Exec) newIterGhost(st *State, name string, ks Sort) *iterGhost {
	c := ex.c
	g := &iterGhost{ks: ks, vis: name, cnt: name + "!cnt", seq: name + "!seq", posit: name + "!pos"}
	set := func(k string, s Sort, kind byte, v *Term) {
		ex.hkinds[k] = kind
		ex.hsorts[k] = s
		one := c.Int(1)
		ex.logWrite(k, one, s)
		if v == nil {
			v = c.Select(ex.heapGet(st, k, s), one)
		}
		st.heap[k] = c.Store(ex.heapGet(st, k, s), one, v)
	}
	is := ex.isort()
	set(g.vis, SArr(SInt, SArr(ks, SBool)), 'g', c.ConstArr(SArr(ks, SBool), c.False()))
	set(g.cnt, SArr(SInt, is), 'g', ex.intC(0))
	set(g.seq, SArr(SInt, SArr(is, ks)), 'g', nil)
	set(g.posit, SArr(SInt, SArr(ks, is)), 'g', nil)
	return g
}

func (g *iterGhost) get(ex *Exec, st *State) (vis, n, seq, posit *Term) {
	c, is := ex.c, ex.isort()
	one := c.Int(1)
	return c.Select(ex.heapGet(st, g.vis, SArr(SInt, SArr(g.ks, SBool))), one),
		c.Select(ex.heapGet(st, g.cnt, SArr(SInt, is)), one),
		c.Select(ex.heapGet(st, g.seq, SArr(SInt, SArr(is, g.ks))), one),
		c.Select(ex.heapGet(st, g.posit, SArr(SInt, SArr(g.ks, is))), one)
}

// facts states what is true of the history at any point.
func (g *iterGhost) facts(ex *Exec, st *State) {
	if ex.inQuant > 0 {
		return
	}
	c := ex.c
	vis, n, seq, posit := g.get(ex, st)
	ex.factG(st, ex.ile(ex.intC(0), n))
	i := c.Bound("vi", ex.isort())
	si := c.Select(seq, i)
	ex.factG(st, c.Forall([]*Term{i}, c.Imp(c.And(ex.ile(ex.intC(0), i), ex.ilt(i, n)), c.And(c.Select(vis, si), c.Eq(c.Select(posit, si), i))), si))
	k := c.Bound("vk", g.ks)
	pk := c.Select(posit, k)
	ex.factG(st, c.Forall([]*Term{k}, c.Imp(c.Select(vis, k), c.And(ex.ile(ex.intC(0), pk), ex.ilt(pk, n), c.Eq(c.Select(seq, pk), k))), c.Select(vis, k)))
}

// visit records that key k comes next, if ok.
func (g *iterGhost) visit(ex *Exec, st *State, k, ok *Term) {
	c, is := ex.c, ex.isort()
	one := c.Int(1)
	vis, n, seq, posit := g.get(ex, st)
	set := func(key string, s Sort, old, v *Term) {
		ex.logWrite(key, one, s)
		st.heap[key] = c.Store(ex.heapGet(st, key, s), one, c.Ite(ok, v, old))
	}
	set(g.vis, SArr(SInt, SArr(g.ks, SBool)), vis, c.Store(vis, k, c.True()))
	set(g.cnt, SArr(SInt, is), n, ex.iadd(n, ex.intC(1)))
	set(g.seq, SArr(SInt, SArr(is, g.ks)), seq, c.Store(seq, n, k))
	set(g.posit, SArr(SInt, SArr(g.ks, is)), posit, c.Store(posit, k, n))
}

type paramLeaf struct {
	path string
	t    *Term
	typ  types.Type
}

type guardSpec struct{ lock string }
type relyCell struct {
	a    *Addr
	inv  *FuncV
	pkey string
}
type monitorSpec struct{}

// callerMode: executing a contract function at a call site of its target.
type callerMode struct {
	target *ssa.Function
	args   []Val
	mods   []modTarget
	done   bool
	res    Val
	preSt  *State
	nested int
}
type modTarget struct {
	addr *Addr
	typ  types.Type
	all  string
}

func NewExec(prog *ssa.Program, mode Mode, reg *Registry) *Exec {
	ex := &Exec{memo: map[memoKey]*Term{}, c: NewCtx(), prog: prog, mode: mode, reg: reg,
		initHeap: map[string]*Term{}, hsorts: map[string]Sort{}, hkinds: map[string]byte{},
		cellMemo: map[*ssa.Alloc]bool{}, tnames: map[types.Type]string{}, leafCache: map[types.Type][]leaf{}, typed: map[[2]int]bool{},
		factSeen: map[int]bool{}, funcs: map[int]*FuncV{}, interior: map[string]*Term{}, interiorRev: map[int]*Addr{},
		tags: map[string]int{}, tagTypes: map[int]types.Type{}, boxTags: map[string]int{}, boxed: map[int]bool{},
		assume: map[string]bool{}, covered: map[string]bool{}, guards: map[string]guardSpec{}, globals: map[string]*globInfo{},
		gInit: map[*ssa.Package]bool{}, gHeap: map[string]*Term{}, noSafety: map[string]bool{}, critical: map[string]bool{},
	}
	ex.base0 = ex.c.Sym("base0", SInt)
	ex.axiom(ex.c.Le(ex.c.Int(0), ex.base0))
	return ex
}

func (ex *Exec) axiom(t *Term) {
	if t.isTrue() {
		return
	}
	ex.axs = append(ex.axs, t)
}

func (ex *Exec) fact(t *Term) {
	if t.isTrue() || ex.inQuant > 0 {
		return
	}
	if ex.factSeen[t.id] && ex.quiet == 0 {
		return
	}
	if ex.quiet == 0 {
		ex.factSeen[t.id] = true
	}
	ex.facts = append(ex.facts, Fact{t: t})
}

// factG records a fact valid when the state's guard holds.
func (ex *Exec) factG(st *State, t *Term) { ex.fact(ex.c.Imp(st.guard, t)) }

func (ex *Exec) assumption(s string) { ex.assume[s] = true }

func (ex *Exec) goal(st *State, kind, name string, p *Term) *Goal {
	if ex.inQuant > 0 || st == nil {
		return nil
	}
	if ex.quiet > 0 || ex.initing {
		if kind != "init" && kind != "preserve" && ex.pure == 0 {
			ex.factG(st, p)
		}
		return nil
	}
	f := ex.c.Imp(st.guard, p)
	if kind == "safety" {
		if f.isTrue() {
			return nil
		}
		if ex.noSafety["all"] {
			ex.factG(st, p)
			return nil
		}
		if ex.noSafety["nil"] && strings.HasPrefix(name, "nil") {
			ex.factG(st, p)
			return nil
		}
		if ex.factSeen[f.id] {
			return nil
		}
	}
	g := &Goal{name: name, kind: kind, f: f, guard: st.guard, nfacts: len(ex.facts), pos: ex.posStr(), inCode: ex.inRepo()}
	ex.goals = append(ex.goals, g)
	if kind != "init" && kind != "preserve" && kind != "cover" && kind != "variant" {
		ex.factG(st, p)
	}
	return g
}

func (ex *Exec) inRepo() bool {
	if len(ex.stack) == 0 {
		return false
	}
	return !ex.reg.isSpec(ex.stack[len(ex.stack)-1])
}

func (ex *Exec) posStr() string {
	p := ex.prog.Fset.Position(ex.curPos)
	f := p.Filename
	f = strings.TrimPrefix(f, "/repo/")
	fn := ""
	if len(ex.stack) > 0 {
		fn = ex.stack[len(ex.stack)-1].RelString(nil)
		fn = strings.ReplaceAll(fn, modPath+"/", "")
	}
	return fmt.Sprintf("%s (%s:%d)", fn, f, p.Line)
}

func (ex *Exec) logWrite(key string, ref *Term, s Sort) {
	for _, l := range ex.logs {
		m := l.w[key]
		if m == nil {
			m = map[int]*Term{}
			l.w[key] = m
		}
		m[ref.id] = ref
		l.sorts[key] = s
	}
}

// ---- frames ----

type retv struct {
	st *State
	v  []Val
}

type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	args  []Val
	fn    Val
	recv  Val
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	rets   []retv
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopInfo
	order  []*ssa.BasicBlock
	cells  map[*ssa.Alloc]int
}

type inEdge struct {
	from *ssa.BasicBlock
	st   *State
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

func loopsOf(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, []*ssa.BasicBlock) {
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	var rpo []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		rpo = append(rpo, post[i])
	}
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	// a loop whose RPO interleaves is still processed as a unit; parents by containment
	for h, l := range loops {
		for h2, l2 := range loops {
			if h != h2 && l2.blocks[h] && len(l2.blocks) > len(l.blocks) {
				if l.parent == nil || len(l2.blocks) < len(l.parent.blocks) {
					l.parent = l2
				}
			}
		}
	}
	return loops, rpo
}

// callFn symbolically executes fn (inlined).
func (ex *Exec) callFn(fn *ssa.Function, args []Val, binds []Val, st *State) (Val, *State) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for %s", fn))
	}
	ex.depth++
	ex.stack = append(ex.stack, fn)
	defer func() { ex.depth--; ex.stack = ex.stack[:len(ex.stack)-1] }()
	if ex.depth > 60 {
		panic(unsupported("inlining too deep at %s", fn))
	}
	rec := 0
	for _, f := range ex.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 3 {
		panic(unsupported("recursion in %s", fn))
	}
	if !ex.reg.isSpec(fn) {
		ex.covered[strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")] = true
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}}
	fr.loops, fr.order = ex.reg.loops(fn)
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	inRegion := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		inRegion[b] = true
	}
	inc := map[*ssa.BasicBlock][]inEdge{fn.Blocks[0]: {{nil, st}}}
	guard0, cuts0 := st.guard, ex.cuts
	outs := ex.region(fr, fr.order, inRegion, nil, inc)
	if len(outs) != 0 {
		panic("edges out of function")
	}
	if len(fr.rets) == 0 {
		// never returns normally
		d := st.clone()
		d.guard = ex.c.False()
		ex.cuts++
		return ex.zeroResults(fn), d
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	out, gs := ex.mergeStates(sts)
	if ex.cuts == cuts0 {
		out = out.clone()
		out.guard = guard0 // no path was lost: the cases are exhaustive
	}
	res := fn.Signature.Results()
	var vals []Val
	for i := 0; i < res.Len(); i++ {
		v := fr.rets[len(fr.rets)-1].v[i]
		for j := len(fr.rets) - 2; j >= 0; j-- {
			v = ex.iteVal(gs[j], fr.rets[j].v[i], v, res.At(i).Type())
		}
		vals = append(vals, v)
	}
	if res.Len() == 1 {
		return vals[0], out
	}
	return &TupleV{vals}, out
}

func (ex *Exec) zeroResults(fn *ssa.Function) Val {
	res := fn.Signature.Results()
	if res.Len() == 1 {
		return ex.zero(res.At(0).Type())
	}
	t := &TupleV{}
	for i := 0; i < res.Len(); i++ {
		t.v = append(t.v, ex.zero(res.At(i).Type()))
	}
	return t
}

// mergeStates joins states; returns the joined state and, per state, the relative guard
// (conjuncts not shared by all) to select values by.
func (ex *Exec) mergeStates(sts []*State) (*State, []*Term) {
	c := ex.c
	if len(sts) == 1 {
		return sts[0], []*Term{c.True()}
	}
	common := map[int]int{}
	for _, s := range sts {
		for _, x := range conj(s.guard) {
			common[x.id]++
		}
	}
	gs := make([]*Term, len(sts))
	all := make([]*Term, len(sts))
	for i, s := range sts {
		var r []*Term
		for _, x := range conj(s.guard) {
			if common[x.id] != len(sts) {
				r = append(r, x)
			}
		}
		gs[i] = c.And(r...)
		all[i] = s.guard
	}
	out := &State{guard: c.Or(all...), heap: map[string]*Term{}}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := len(sts)
	for _, k := range ks {
		if isCellKey(k) { // a local of some branches: nothing that came through the others reads it
			var v *Term
			for j := len(sts) - 1; j >= 0; j-- {
				if w, ok := sts[j].heap[k]; ok && v == nil {
					v = w
				} else if ok {
					v = c.Ite(gs[j], w, v)
				}
			}
			out.heap[k] = v
			continue
		}
		get := func(s *State) *Term {
			if t, ok := s.heap[k]; ok {
				return t
			}
			return ex.initHeap[k]
		}
		v := get(sts[n-1])
		if v == nil { // untouched before: some other state created it fresh
			v = ex.initialHeap(k, ex.anyHeap(sts, k).sort)
		}
		for j := n - 2; j >= 0; j-- {
			w := get(sts[j])
			if w == nil {
				w = ex.initialHeap(k, v.sort)
			}
			v = c.Ite(gs[j], w, v)
		}
		out.heap[k] = v
	}
	cur := sts[n-1].cur
	for j := n - 2; j >= 0; j-- {
		cur = c.Ite(gs[j], sts[j].cur, cur)
	}
	out.cur = cur
	return out, gs
}

func (ex *Exec) anyHeap(sts []*State, k string) *Term {
	for _, s := range sts {
		if t, ok := s.heap[k]; ok {
			return t
		}
	}
	return nil
}

// region executes the blocks of a region in RPO. Edges leaving the region or returning to head are returned.
type outEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (ex *Exec) region(fr *frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, inc map[*ssa.BasicBlock][]inEdge) []outEdge {
	var outs []outEdge
	done := map[*ssa.BasicBlock]bool{}
	route := func(from, to *ssa.BasicBlock, st *State) {
		if st.guard.isFalse() {
			return
		}
		if to == head || !in[to] {
			outs = append(outs, outEdge{from, to, st})
			return
		}
		inc[to] = append(inc[to], inEdge{from, st})
	}
	for _, b := range order {
		if !in[b] || done[b] {
			continue
		}
		edges := inc[b]
		if len(edges) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && b != head {
			exits := ex.loop(fr, l, edges)
			for x := range l.blocks {
				done[x] = true
			}
			for _, e := range exits {
				route(e.from, e.to, e.st)
			}
			continue
		}
		done[b] = true
		st := ex.enter(fr, b, edges)
		ex.block(fr, b, st, route)
	}
	return outs
}

// enter merges incoming edges and evaluates phis.
func (ex *Exec) enter(fr *frame, b *ssa.BasicBlock, edges []inEdge) *State {
	var sts []*State
	for _, e := range edges {
		sts = append(sts, e.st)
	}
	st, gs := ex.mergeStates(sts)
	if len(edges) == 1 {
		st = st.clone()
	}
	var news []Val
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		var v Val
		for j := len(edges) - 1; j >= 0; j-- {
			pi := predIndex(b, edges[j].from)
			x := ex.val(fr, phi.Edges[pi], edges[j].st)
			if v == nil {
				v = x
			} else {
				v = ex.iteVal(gs[j], x, v, phi.Type())
			}
		}
		news = append(news, v)
	}
	for i, p := range phis {
		fr.env[p] = news[i]
	}
	return st
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	panic("pred not found")
}

func (ex *Exec) block(fr *frame, b *ssa.BasicBlock, st *State, route func(from, to *ssa.BasicBlock, st *State)) {
	for _, ins := range b.Instrs {
		ex.steps++
		if ex.steps > 4000000 {
			panic(unsupported("execution too long"))
		}
		if p := ins.Pos(); p.IsValid() {
			ex.curPos = p
		}
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			cond := ex.decide(ex.val(fr, x.Cond, st).(*Term))
			t := st.clone()
			t.guard = ex.c.And(st.guard, cond)
			f := st
			f.guard = ex.c.And(st.guard, ex.c.Not(cond))
			route(b, b.Succs[0], t)
			route(b, b.Succs[1], f)
			return
		case *ssa.Jump:
			route(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, ex.val(fr, r, st))
			}
			fr.rets = append(fr.rets, retv{st, vs})
			return
		case *ssa.Panic:
			ex.goal(st, "safety", "panic unreachable", ex.c.False())
			ex.cuts++
			return
		default:
			ex.instr(fr, ins, st)
		}
	}
}

func (ex *Exec) val(fr *frame, v ssa.Value, st *State) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return ex.zero(x.Type())
		}
		if _, ok := x.Type().Underlying().(*types.Interface); ok {
			panic(unsupported("interface constant"))
		}
		return ex.constTerm(x.Value, x.Type())
	case *ssa.Function:
		return ex.staticFunc(x)
	case *ssa.Global:
		return &Addr{root: "G:" + x.Pkg.Pkg.Path() + "." + x.Name(), ref: ex.c.Int(1), typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported("undefined value %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (ex *Exec) staticFunc(f *ssa.Function) *FuncV {
	k := "static:" + f.RelString(nil)
	if v, ok := ex.reg.statics[ex][k]; ok {
		return v
	}
	v := &FuncV{fn: f}
	if ex.reg.statics[ex] == nil {
		ex.reg.statics[ex] = map[string]*FuncV{}
	}
	ex.reg.statics[ex][k] = v
	return v
}

func (ex *Exec) nilCheck(st *State, a *Addr, what string) {
	if a.root[0] == 'G' || a.ref.alloc > 0 || a.idx != nil {
		return
	}
	ex.goal(st, "safety", "nil dereference "+what, ex.c.Not(ex.c.Eq(a.ref, ex.c.Int(0))))
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (ex *Exec) instr(fr *frame, ins ssa.Instruction, st *State) {
	c := ex.c
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(x.Type())
		r := ex.alloc(st, x.Comment)
		a := ex.asAddr(r, t)
		if ex.isCell(x) {
			a.root = ex.cellRoot(fr, x, a.root)
		}
		if ar, ok := t.Underlying().(*types.Array); ok {
			ex.zeroElems(st, r, ar.Elem())
		} else {
			ex.store(st, a, ex.zero(t), t)
		}
		set(x, a)
	case *ssa.BinOp:
		set(x, ex.binopVal(fr, x, st))
	case *ssa.UnOp:
		v := ex.val(fr, x.X, st)
		switch x.Op {
		case token.MUL:
			t := deref(x.X.Type())
			a := ex.asAddr(v, t)
			ex.nilCheck(st, a, "")
			ex.guardCheck(st, a, false)
			set(x, ex.load(st, a, t))
		case token.NOT:
			set(x, c.Not(v.(*Term)))
		case token.SUB:
			set(x, ex.neg(v.(*Term), x.Type()))
		case token.XOR:
			if ex.mode == Bits {
				set(x, c.app("bvnot", v.(*Term).sort, v.(*Term)))
			} else {
				set(x, c.Sub(c.Int(-1), v.(*Term)))
			}
		case token.ARROW:
			ex.chanRecv(fr, x, st)
		default:
			panic(unsupported("unop %s", x.Op))
		}
	case *ssa.Call:
		r, st2 := ex.doCall(fr, &x.Call, x, st)
		*st = *st2
		set(x, r)
	case *ssa.ChangeInterface:
		set(x, ex.val(fr, x.X, st))
	case *ssa.ChangeType:
		set(x, ex.val(fr, x.X, st))
	case *ssa.Convert:
		set(x, ex.convertVal(ex.val(fr, x.X, st), x.X.Type(), x.Type(), st))
	case *ssa.Extract:
		tv := ex.val(fr, x.Tuple, st).(*TupleV)
		set(x, tv.v[x.Index])
	case *ssa.Field:
		v := ex.val(fr, x.X, st).(*StructV)
		set(x, v.f[x.Field])
	case *ssa.FieldAddr:
		t := deref(x.X.Type())
		a := ex.asAddr(ex.val(fr, x.X, st), t)
		f := t.Underlying().(*types.Struct).Field(x.Field)
		ex.nilCheck(st, a, "."+f.Name())
		n := *a
		n.path += "." + f.Name()
		n.typ = f.Type()
		set(x, &n)
	case *ssa.Index:
		v := ex.val(fr, x.X, st)
		i := ex.val(fr, x.Index, st).(*Term)
		switch y := v.(type) {
		case *ArrayV:
			if !i.isConst() {
				ex.goal(st, "safety", "index", c.And(ex.ile(ex.intC(0), i), ex.ilt(i, ex.intC(int64(len(y.e))))))
				var r Val = y.e[len(y.e)-1]
				for k := len(y.e) - 2; k >= 0; k-- {
					r = ex.iteVal(c.Eq(i, ex.intC(int64(k))), y.e[k], r, x.Type())
				}
				set(x, r)
			} else {
				set(x, y.e[i.ival.Int64()])
			}
		case *Term: // string
			r := c.UF("strat", ex.scalarSort(types.Typ[types.Byte]), y, i)
			ex.rangeFact(r, types.Typ[types.Byte])
			ex.goal(st, "safety", "string index", c.And(ex.ile(ex.intC(0), i), ex.ilt(i, ex.strLen(y))))
			set(x, r)
		default:
			panic(unsupported("index of %T", v))
		}
	case *ssa.IndexAddr:
		set(x, ex.indexAddr(fr, x, st))
	case *ssa.Lookup:
		set(x, ex.lookup(fr, x, st))
	case *ssa.MakeChan:
		set(x, ex.alloc(st, "chan"))
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.binds = append(fv.binds, ex.val(fr, b, st))
		}
		set(x, fv)
	case *ssa.MakeInterface:
		set(x, ex.box(ex.val(fr, x.X, st), x.X.Type()))
	case *ssa.MakeMap:
		set(x, ex.makeMap(st, x.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		n := ex.toInt(ex.val(fr, x.Len, st).(*Term), x.Len.Type())
		cp := ex.toInt(ex.val(fr, x.Cap, st).(*Term), x.Cap.Type())
		ex.goal(st, "safety", "makeslice length", c.And(ex.ile(ex.intC(0), n), ex.ile(n, cp)))
		r := ex.alloc(st, "slice")
		ex.zeroElems(st, r, x.Type().Underlying().(*types.Slice).Elem())
		set(x, &SliceV{r, ex.intC(0), n, cp})
	case *ssa.MapUpdate:
		m := ex.val(fr, x.Map, st).(*Term)
		ex.goal(st, "safety", "nil map write", c.Not(c.Eq(m, c.Int(0))))
		ex.mapStore(st, m, x.Map.Type().Underlying().(*types.Map), ex.val(fr, x.Key, st), ex.val(fr, x.Value, st))
	case *ssa.Range:
		set(x, ex.rangeIter(st, ex.val(fr, x.X, st), x.X.Type()))
	case *ssa.Next:
		set(x, ex.next(st, ex.val(fr, x.Iter, st).(*IterV), x))
	case *ssa.RunDefers:
		ex.runDefers(fr, st)
	case *ssa.Defer:
		d := deferred{guard: st.guard, call: &x.Call}
		if x.Call.IsInvoke() {
			d.recv = ex.val(fr, x.Call.Value, st)
		} else {
			d.fn = ex.val(fr, x.Call.Value, st)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, ex.val(fr, a, st))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		ex.goStmt(fr, x, st)
	case *ssa.Select:
		set(x, ex.selectStmt(fr, x, st))
	case *ssa.Send:
		// channel contents are not tracked
	case *ssa.Slice:
		set(x, ex.sliceOp(fr, x, st))
	case *ssa.Store:
		t := deref(x.Addr.Type())
		a := ex.asAddr(ex.val(fr, x.Addr, st), t)
		ex.nilCheck(st, a, "")
		ex.guardCheck(st, a, true)
		ex.store(st, a, ex.val(fr, x.Val, st), t)
	case *ssa.TypeAssert:
		set(x, ex.typeAssert(fr, x, st))
	default:
		panic(unsupported("instruction %T", ins))
	}
}

func (ex *Exec) toInt(v *Term, t types.Type) *Term {
	return ex.convert(v, t, types.Typ[types.Int])
}

func (ex *Exec) zeroElems(st *State, ref *Term, el types.Type) {
	for _, l := range ex.leaves(el) {
		a := ex.elemAddr(ref, ex.intC(0), el)
		key := a.key(l.suf)
		if _, ok := ex.hkinds[key]; !ok {
			ex.hkinds[key] = l.kind
		}
		s := ex.hsort(a, l)
		h := ex.heapGet(st, key, s)
		_, vs := s.splitArr()
		ex.logWrite(key, ref, s)
		st.heap[key] = ex.c.Store(h, ref, ex.c.ConstArr(vs, ex.zeroLeaf(l)))
	}
}

func (ex *Exec) binopVal(fr *frame, x *ssa.BinOp, st *State) Val {
	a, b := ex.val(fr, x.X, st), ex.val(fr, x.Y, st)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		r := ex.eqVal(a, b, t, x.Y.Type(), st)
		if x.Op == token.NEQ {
			r = ex.c.Not(r)
		}
		return r
	}
	r := ex.binop(x.Op, a.(*Term), b.(*Term), t, st)
	if ex.mode == Bits && isFloat(t) && basicOf(t).Kind() == types.Float32 && r.sort == SFP {
		r = ex.convert(r, types.Typ[types.Float64], types.Typ[types.Float32])
	}
	return r
}

func (ex *Exec) eqVal(a, b Val, ta, tb types.Type, st *State) *Term {
	c := ex.c
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia != ib {
		if ia {
			b = ex.box(b, tb)
		} else {
			a = ex.box(a, ta)
		}
		return c.Eq(a.(*Term), b.(*Term))
	}
	switch u := ta.Underlying().(type) {
	case *types.Basic:
		return ex.binop(token.EQL, a.(*Term), b.(*Term), ta, st)
	case *types.Pointer, *types.Chan, *types.Map:
		// interior pointers are never nil
		if x, ok := a.(*Addr); ok && (x.path != "" || x.idx != nil) {
			if y, ok := b.(*Term); ok && y.isConst() {
				return c.False()
			}
		}
		return c.Eq(ex.ptrTerm(a), ex.ptrTerm(b))
	case *types.Signature:
		return c.Eq(ex.funcTerm(a), ex.funcTerm(b))
	case *types.Interface:
		return c.Eq(a.(*Term), b.(*Term))
	case *types.Slice: // only against nil
		x := a.(*SliceV)
		y := b.(*SliceV)
		if y.ref.isConst() {
			return c.Eq(x.ref, c.Int(0))
		}
		return c.Eq(y.ref, c.Int(0))
	case *types.Struct:
		x, y := a.(*StructV), b.(*StructV)
		if _, op := ex.opaqueLeaves(ta); op {
			var r []*Term
			for i := range x.f {
				r = append(r, c.Eq(x.f[i].(*Term), y.f[i].(*Term)))
			}
			return c.And(r...)
		}
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = append(r, ex.eqVal(x.f[i], y.f[i], ft, ft, st))
		}
		return c.And(r...)
	case *types.Array:
		x, y := a.(*ArrayV), b.(*ArrayV)
		var r []*Term
		for i := range x.e {
			r = append(r, ex.eqVal(x.e[i], y.e[i], u.Elem(), u.Elem(), st))
		}
		return c.And(r...)
	}
	panic(unsupported("comparison of %s", ta))
}

func (ex *Exec) convertVal(v Val, from, to types.Type, st *State) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := fu.(*types.Basic); ok {
		if _, ok := tu.(*types.Basic); ok {
			return ex.convert(v.(*Term), from, to)
		}
		if sl, ok := tu.(*types.Slice); ok { // string -> []byte
			r := ex.alloc(st, "bytes")
			_ = sl
			n := ex.strLen(v.(*Term))
			return &SliceV{r, ex.intC(0), n, n}
		}
	}
	if s, ok := v.(*SliceV); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return ex.c.UF("bytes2str", SStr, s.ref, s.ln)
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("convert %s -> %s", from, to))
}

func (ex *Exec) strLen(s *Term) *Term {
	if l, ok := ex.c.strLit(s); ok {
		return ex.intC(int64(len(l)))
	}
	r := ex.c.UF("strlen", ex.isort(), s)
	ex.fact(ex.ile(ex.intC(0), r))
	ex.fact(ex.ile(r, ex.intC(1<<40)))
	ex.fact(ex.c.Eq(ex.c.Eq(r, ex.intC(0)), ex.c.Eq(s, ex.c.Str(""))))
	return r
}

func (ex *Exec) indexAddr(fr *frame, x *ssa.IndexAddr, st *State) Val {
	c := ex.c
	v := ex.val(fr, x.X, st)
	i := ex.toInt(ex.val(fr, x.Index, st).(*Term), x.Index.Type())
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		ex.goal(st, "safety", "index out of range", c.And(ex.ile(ex.intC(0), i), ex.ilt(i, s.ln)))
		return ex.elemAddr(s.ref, ex.iadd(s.off, i), u.Elem())
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		a := ex.asAddr(v, u.Elem())
		if !i.isConst() {
			ex.goal(st, "safety", "index out of range", c.And(ex.ile(ex.intC(0), i), ex.ilt(i, ex.intC(ar.Len()))))
		}
		if a.root[0] == 'A' {
			return ex.elemAddr(a.ref, i, ar.Elem())
		}
		if i.isConst() {
			n := *a
			n.path += sprintf("[%d]", i.ival.Int64())
			n.typ = ar.Elem()
			return &n
		}
	}
	panic(unsupported("index address into %s", x.X.Type()))
}

func (ex *Exec) sliceOp(fr *frame, x *ssa.Slice, st *State) Val {
	c := ex.c
	v := ex.val(fr, x.X, st)
	lo := ex.intC(0)
	if x.Low != nil {
		lo = ex.toInt(ex.val(fr, x.Low, st).(*Term), x.Low.Type())
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		hi, mx := s.ln, s.cp
		if x.High != nil {
			hi = ex.toInt(ex.val(fr, x.High, st).(*Term), x.High.Type())
		}
		if x.Max != nil {
			mx = ex.toInt(ex.val(fr, x.Max, st).(*Term), x.Max.Type())
		}
		ex.goal(st, "safety", "slice bounds", c.And(ex.ile(ex.intC(0), lo), ex.ile(lo, hi), ex.ile(hi, mx), ex.ile(mx, s.cp)))
		return &SliceV{s.ref, ex.iadd(s.off, lo), ex.isub(hi, lo), ex.isub(mx, lo)}
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		a := ex.asAddr(v, u.Elem())
		if a.root[0] != 'A' {
			panic(unsupported("slicing an array inside a struct"))
		}
		hi := ex.intC(ar.Len())
		mx := hi
		if x.High != nil {
			hi = ex.toInt(ex.val(fr, x.High, st).(*Term), x.High.Type())
		}
		ex.goal(st, "safety", "slice bounds", c.And(ex.ile(ex.intC(0), lo), ex.ile(lo, hi), ex.ile(hi, mx)))
		return &SliceV{a.ref, lo, ex.isub(hi, lo), ex.isub(mx, lo)}
	case *types.Basic:
		s := v.(*Term)
		hi := ex.strLen(s)
		if x.High != nil {
			hi = ex.toInt(ex.val(fr, x.High, st).(*Term), x.High.Type())
		}
		ex.goal(st, "safety", "string slice bounds", c.And(ex.ile(ex.intC(0), lo), ex.ile(lo, hi), ex.ile(hi, ex.strLen(s))))
		return c.UF("substr", SStr, s, lo, hi)
	}
	panic(unsupported("slice of %s", x.X.Type()))
}

// ---- maps ----

func (ex *Exec) mapKeys(mt *types.Map) (Sort, string) {
	ls := ex.leaves(mt.Key())
	if len(ls) != 1 {
		panic(unsupported("map key type %s", mt.Key()))
	}
	return ls[0].sort, "M:" + ex.typeName(mt.Key()) + "->" + ex.typeName(mt.Elem())
}

func (ex *Exec) mapDom(st *State, m *Term, mt *types.Map) (*Term, string, Sort) {
	ks, root := ex.mapKeys(mt)
	s := SArr(SInt, SArr(ks, SBool))
	key := root + "#dom"
	ex.hkinds[key] = 'g'
	return ex.c.Select(ex.heapGet(st, key, s), m), key, s
}
func (ex *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	_, root := ex.mapKeys(mt)
	key := root + "#len"
	ex.hkinds[key] = 'n'
	l := ex.c.Select(ex.heapGet(st, key, SArr(SInt, ex.isort())), m)
	ex.fact(ex.ile(ex.intC(0), l))
	ex.fact(ex.ile(l, ex.intC(1<<40)))
	return l
}

func (ex *Exec) makeMap(st *State, mt *types.Map) *Term {
	c := ex.c
	r := ex.alloc(st, "map")
	_, key, s := ex.mapDom(st, r, mt)
	_, ds := s.splitArr()
	ex.logWrite(key, r, s)
	st.heap[key] = c.Store(ex.heapGet(st, key, s), r, c.ConstArr(ds, c.False()))
	_, root := ex.mapKeys(mt)
	lk := root + "#len"
	ex.hkinds[lk] = 'n'
	ls := SArr(SInt, ex.isort())
	ex.logWrite(lk, r, ls)
	st.heap[lk] = c.Store(ex.heapGet(st, lk, ls), r, ex.intC(0))
	return r
}

func (ex *Exec) mapStore(st *State, m *Term, mt *types.Map, k, v Val) {
	c := ex.c
	kt := ex.flatten(k, mt.Key())[0]
	dom, dkey, ds := ex.mapDom(st, m, mt)
	ks, root := ex.mapKeys(mt)
	old := c.Select(dom, kt)
	ln := ex.mapLen(st, m, mt)
	lk := root + "#len"
	ls := SArr(SInt, ex.isort())
	ex.logWrite(lk, m, ls)
	st.heap[lk] = c.Store(ex.heapGet(st, lk, ls), m, c.Ite(old, ln, ex.iadd(ln, ex.intC(1))))
	ex.logWrite(dkey, m, ds)
	st.heap[dkey] = c.Store(ex.heapGet(st, dkey, ds), m, c.Store(dom, kt, c.True()))
	vs := ex.flatten(v, mt.Elem())
	for i, l := range ex.leaves(mt.Elem()) {
		key := root + l.suf
		ex.hkinds[key] = l.kind
		s := SArr(SInt, SArr(ks, l.sort))
		h := ex.heapGet(st, key, s)
		ex.logWrite(key, m, s)
		st.heap[key] = c.Store(h, m, c.Store(c.Select(h, m), kt, vs[i]))
	}
}

func (ex *Exec) mapGet(st *State, m *Term, mt *types.Map, kt *Term) (Val, *Term) {
	c := ex.c
	dom, _, _ := ex.mapDom(st, m, mt)
	ok := c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(dom, kt))
	ks, root := ex.mapKeys(mt)
	var ts []*Term
	ls := ex.leaves(mt.Elem())
	for _, l := range ls {
		key := root + l.suf
		ex.hkinds[key] = l.kind
		h := ex.heapGet(st, key, SArr(SInt, SArr(ks, l.sort)))
		x := c.Select(c.Select(h, m), kt)
		if ex.inQuant == 0 {
			ex.leafFact(x, l, st)
		}
		ts = append(ts, c.Ite(ok, x, ex.zeroLeaf(l)))
	}
	v := ex.unflatten(mt.Elem(), ts)
	if ex.inQuant == 0 {
		ex.sliceFacts(v, mt.Elem(), st)
	}
	return v, ok
}

func (ex *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Val) {
	c := ex.c
	kt := ex.flatten(k, mt.Key())[0]
	dom, dkey, ds := ex.mapDom(st, m, mt)
	_, root := ex.mapKeys(mt)
	old := c.Select(dom, kt)
	ln := ex.mapLen(st, m, mt)
	lk := root + "#len"
	ls := SArr(SInt, ex.isort())
	ex.logWrite(lk, m, ls)
	st.heap[lk] = c.Store(ex.heapGet(st, lk, ls), m, c.Ite(old, ex.isub(ln, ex.intC(1)), ln))
	ex.logWrite(dkey, m, ds)
	st.heap[dkey] = c.Store(ex.heapGet(st, dkey, ds), m, c.Store(dom, kt, c.False()))
}

func (ex *Exec) lookup(fr *frame, x *ssa.Lookup, st *State) Val {
	v := ex.val(fr, x.X, st)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		kt := ex.flatten(ex.val(fr, x.Index, st), mt.Key())[0]
		r, ok := ex.mapGet(st, v.(*Term), mt, kt)
		if x.CommaOk {
			return &TupleV{[]Val{r, ok}}
		}
		return r
	}
	i := ex.val(fr, x.Index, st).(*Term)
	r := ex.c.UF("strat", ex.scalarSort(types.Typ[types.Byte]), v.(*Term), i)
	ex.rangeFact(r, types.Typ[types.Byte])
	return r
}

func (ex *Exec) rangeIter(st *State, v Val, t types.Type) Val {
	c := ex.c
	ex.niter++
	if mt, ok := t.Underlying().(*types.Map); ok {
		ks, _ := ex.mapKeys(mt)
		it := &IterV{m: v.(*Term), mt: mt, key: sprintf("I:%d:%s", ex.niter, ex.typeName(mt)), ref: c.Int(1)}
		it.g = ex.newIterGhost(st, it.key, ks)
		dom, _, _ := ex.mapDom(st, it.m, mt)
		it.dom0 = dom
		return it
	}
	return &IterV{str: v.(*Term)}
}

func (ex *Exec) next(st *State, it *IterV, x *ssa.Next) Val {
	c := ex.c
	if it.str != nil {
		ok := c.Fresh("strnext", SBool)
		return &TupleV{[]Val{ok, ex.fresh("stri", types.Typ[types.Int], st), ex.fresh("strr", types.Typ[types.Rune], st)}}
	}
	ks, _ := ex.mapKeys(it.mt)
	s := SArr(SInt, SArr(ks, SBool))
	vis := c.Select(ex.heapGet(st, it.key, s), it.ref)
	dom, _, _ := ex.mapDom(st, it.m, it.mt)
	if r := ex.nextConcrete(st, it, s, vis, dom); r != nil {
		return r
	}
	it.g.facts(ex, st)
	_, n, _, _ := it.g.get(ex, st)
	nonnil := c.Not(c.Eq(it.m, c.Int(0)))
	ok := c.Fresh("more", SBool)
	k := ex.fresh("key", it.mt.Key(), st)
	kt := ex.flatten(k, it.mt.Key())[0]
	ex.factG(st, c.Imp(ok, c.And(nonnil, c.Select(dom, kt), c.Not(c.Select(vis, kt)))))
	b := c.Bound("k", ks)
	was := c.Select(dom, b)
	if dom != it.dom0 { // entries added meanwhile may be skipped
		was = c.And(was, c.Select(it.dom0, b))
	} else {
		ln := ex.mapLen(st, it.m, it.mt)
		ex.factG(st, c.Imp(ok, ex.ilt(n, ln)))
		ex.factG(st, c.Imp(c.And(c.Not(ok), nonnil), c.Eq(n, ln)))
	}
	ex.factG(st, c.Imp(c.And(c.Not(ok), nonnil), c.Forall([]*Term{b}, c.Imp(was, c.Select(vis, b)))))
	v, _ := ex.mapGet(st, it.m, it.mt, kt)
	it.g.visit(ex, st, kt, ok)
	return &TupleV{[]Val{ok, k, v}}
}

// nextConcrete iterates over a map whose keys are known constants: each key comes once, in any order.
func (ex *Exec) nextConcrete(st *State, it *IterV, s Sort, vis, dom *Term) Val {
	c := ex.c
	var keys, seen []*Term
	for dom.op == "store" {
		if !(dom.args[1].isConst() || dom.args[1].nsym) || dom.args[2] != c.True() {
			return nil
		}
		dup := false
		for _, k := range keys {
			dup = dup || k == dom.args[1]
		}
		if !dup {
			keys = append(keys, dom.args[1])
		}
		dom = dom.args[0]
	}
	if dom.op != "constarr" || dom.args[0] != c.False() || len(keys) == 0 || len(keys) > 12 {
		return nil
	}
	for vis.op == "store" {
		e := ex.mapPick[vis.args[1].id]
		if e == nil || vis.args[2] != c.True() {
			return nil
		}
		seen = append(seen, e)
		vis = vis.args[0]
	}
	if vis.op != "constarr" {
		return nil
	}
	if len(seen) >= len(keys) {
		for i := range keys {
			var any []*Term
			for _, e := range seen {
				any = append(any, c.Eq(e, c.Int(int64(i))))
			}
			ex.factG(st, c.Or(any...))
		}
		k := ex.fresh("key", it.mt.Key(), st)
		v, _ := ex.mapGet(st, it.m, it.mt, ex.flatten(k, it.mt.Key())[0])
		return &TupleV{[]Val{c.False(), k, v}}
	}
	e := c.Fresh("pick", SInt)
	ex.fact(c.And(c.Le(c.Int(0), e), c.Lt(e, c.Int(int64(len(keys))))))
	for _, x := range seen {
		ex.factG(st, c.Not(c.Eq(e, x)))
	}
	kt := keys[len(keys)-1]
	for i := len(keys) - 2; i >= 0; i-- {
		kt = c.Ite(c.Eq(e, c.Int(int64(i))), keys[i], kt)
	}
	if len(keys) == 1 {
		e = c.Int(0)
	}
	if ex.mapPick == nil {
		ex.mapPick = map[int]*Term{}
	}
	ex.mapPick[kt.id] = e
	k := ex.unflatten(it.mt.Key(), []*Term{kt})
	v, _ := ex.mapGet(st, it.m, it.mt, kt)
	it.g.visit(ex, st, kt, c.True())
	return &TupleV{[]Val{c.True(), k, v}}
}

func (ex *Exec) typeAssert(fr *frame, x *ssa.TypeAssert, st *State) Val {
	c := ex.c
	v := ex.val(fr, x.X, st).(*Term)
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		// interface to interface: decided by the dynamic type where known
		var okT *Term
		tag := ex.itag(v)
		if tag.isConst() {
			tt := ex.tagTypes[int(tag.ival.Int64())]
			okT = c.Bool(tt != nil && types.Implements(tt, it))
		} else if types.Implements(x.X.Type(), it) {
			okT = c.Not(c.Eq(v, ex.inil()))
		} else {
			okT = c.UF("implements_"+ex.typeName(x.AssertedType), SBool, tag)
			ex.fact(c.Imp(okT, c.Not(c.Eq(tag, c.Int(0)))))
		}
		if x.CommaOk {
			return &TupleV{[]Val{c.Ite(okT, v, ex.inil()), okT}}
		}
		ex.goal(st, "safety", "type assertion", okT)
		return v
	}
	okT := c.Eq(ex.itag(v), ex.typeTag(x.AssertedType))
	if v.op != "ite" && !strings.HasPrefix(v.op, "uf:box_") && ex.inQuant == 0 {
		known := false
		for _, t := range ex.asked[v] {
			known = known || types.Identical(t, x.AssertedType)
		}
		if !known {
			if ex.asked == nil {
				ex.asked = map[*Term][]types.Type{}
			}
			ex.asked[v] = append(ex.asked[v], x.AssertedType)
		}
	}
	u := ex.unbox(v, x.AssertedType)
	if ls := ex.leaves(x.AssertedType); len(ls) == 1 && v.bound && v.op != "ite" {
		name := "box_" + sanitize(ex.typeName(x.AssertedType))
		if k := (memoKey{"unboxaxiom" + name, 0, 0}); ex.memo[k] == nil {
			y := c.Bound("bi", SIface)
			un := c.UF("un"+name+"_0", ls[0].sort, y)
			ex.memo[k] = un
			ex.boxTags[name] = int(ex.typeTag(x.AssertedType).ival.Int64())
			ex.axiom(c.Forall([]*Term{y}, c.Imp(c.Eq(c.UF("itag", SInt, y), ex.typeTag(x.AssertedType)), c.Eq(c.UF(name, SIface, un), y)), un))
		}
	}
	if ex.inQuant == 0 {
		if v.op != "ite" && len(ex.leaves(x.AssertedType)) == 1 {
			ex.fact(c.Imp(okT, c.Eq(ex.box(u, x.AssertedType), v)))
		}
		ex.typeFactsG(u, x.AssertedType, st)
	}
	if x.CommaOk {
		return &TupleV{[]Val{ex.iteVal(okT, u, ex.zero(x.AssertedType), x.AssertedType), okT}}
	}
	ex.goal(st, "safety", "type assertion", okT)
	return u
}

// typeFactsG assumes type facts for values coming out of boxes.
func (ex *Exec) typeFactsG(v Val, t types.Type, st *State) { ex.typeFacts(v, t, st) }

func (ex *Exec) runDefers(fr *frame, st *State) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		g := ex.c.And(st.guard, d.guard)
		if g.isFalse() {
			continue
		}
		if ex.impliesGuard(st.guard, d.guard) {
			_, s2 := ex.callVals(d.call, d.fn, d.recv, d.args, st, nil)
			*st = *s2
			continue
		}
		a := st.clone()
		a.guard = g
		_, a2 := ex.callVals(d.call, d.fn, d.recv, d.args, a, nil)
		b := st.clone()
		b.guard = ex.c.And(st.guard, ex.c.Not(d.guard))
		m, _ := ex.mergeStates([]*State{a2, b})
		*st = *m
	}
}

func (ex *Exec) impliesGuard(g, d *Term) bool {
	m := map[int]bool{}
	for _, x := range conj(g) {
		m[x.id] = true
	}
	for _, x := range conj(d) {
		if !m[x.id] && !x.isTrue() {
			return false
		}
	}
	return true
}
