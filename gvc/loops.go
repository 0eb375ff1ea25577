package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type snap struct {
	nf, ng int
	seen   map[int]bool
	typed  map[[2]int]bool
}

func (ex *Exec) snapshot() snap {
	s := snap{nf: len(ex.facts), ng: len(ex.goals), seen: map[int]bool{}, typed: map[[2]int]bool{}}
	for k, v := range ex.factSeen {
		s.seen[k] = v
	}
	for k, v := range ex.typed {
		s.typed[k] = v
	}
	return s
}
func (ex *Exec) restore(s snap) {
	ex.facts = ex.facts[:s.nf]
	ex.goals = ex.goals[:s.ng]
	ex.factSeen = map[int]bool{}
	for k, v := range s.seen {
		ex.factSeen[k] = v
	}
	ex.typed = map[[2]int]bool{}
	for k, v := range s.typed {
		ex.typed[k] = v
	}
}

func copyEnv(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// outVals: values defined in the loop and used outside it.
func outVals(l *loopInfo) []ssa.Value {
	var out []ssa.Value
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

const unrollLimit = 40

func (ex *Exec) loop(fr *frame, l *loopInfo, edges []inEdge) []outEdge {
	if exits, ok := ex.unroll(fr, l, edges); ok {
		return exits
	}
	return ex.cut(fr, l, edges)
}

func (ex *Exec) unroll(fr *frame, l *loopInfo, edges []inEdge) (res []outEdge, ok bool) {
	s := ex.snapshot()
	env0 := copyEnv(fr.env)
	nd := len(fr.defers)
	nr := len(fr.rets)
	steps0 := ex.steps
	ov := outVals(l)
	type ex1 struct {
		e outEdge
		v []Val
	}
	var exits []ex1
	fail := func() ([]outEdge, bool) {
		ex.restore(s)
		fr.env = env0
		fr.defers = fr.defers[:nd]
		fr.rets = fr.rets[:nr]
		ex.steps = steps0
		return nil, false
	}
	cur := cloneEdges(edges)
	undecided := 0
	for it := 0; ; it++ {
		if it > unrollLimit {
			return fail()
		}
		cc := &constWatch{}
		outs := ex.regionW(fr, l, cur, cc)
		var back []inEdge
		var vs []Val
		for _, v := range ov {
			vs = append(vs, fr.env[v])
		}
		for _, o := range outs {
			if o.to == l.head {
				back = append(back, inEdge{o.from, o.st})
			} else {
				exits = append(exits, ex1{o, vs})
			}
		}
		if len(back) == 0 {
			break
		}
		if !cc.constExit {
			// a bound that is a small decision tree over constants is undecided for a few iterations
			if undecided++; it == 0 || undecided > 12 {
				return fail()
			}
		} else {
			undecided = 0
		}
		cur = back
	}
	// merge values used after the loop
	for i, v := range ov {
		var m Val
		for j := len(exits) - 1; j >= 0; j-- {
			x := exits[j].v[i]
			if x == nil {
				continue
			}
			if m == nil {
				m = x
			} else {
				m = ex.iteVal(exits[j].e.st.guard, x, m, v.Type())
			}
		}
		if m != nil {
			fr.env[v] = m
		}
	}
	for _, e := range exits {
		res = append(res, e.e)
	}
	return res, true
}

func cloneEdges(es []inEdge) []inEdge {
	var out []inEdge
	for _, e := range es {
		out = append(out, inEdge{e.from, e.st.clone()})
	}
	return out
}

type constWatch struct{ constExit bool }

// regionW runs one iteration of a loop and notes whether some exit test was decided by constants.
func (ex *Exec) regionW(fr *frame, l *loopInfo, edges []inEdge, cw *constWatch) []outEdge {
	outs := ex.region(fr, fr.order, l.blocks, l.head, map[*ssa.BasicBlock][]inEdge{l.head: edges})
	for b := range l.blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
				continue
			}
			switch cv := i.Cond.(type) {
			case *ssa.Const:
				cw.constExit = true
			default:
				if t, ok := fr.env[cv].(*Term); ok && t.isConst() {
					cw.constExit = true
				}
			}
		}
	}
	return outs
}

type modClass struct {
	s       Sort
	stable  map[int]*Term
	fresh   bool
	unknown bool
}

func sameMods(a, b map[string]*modClass) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y := b[k]
		if y == nil || x.fresh != y.fresh || x.unknown != y.unknown || len(x.stable) != len(y.stable) {
			return false
		}
		for id := range x.stable {
			if y.stable[id] == nil {
				return false
			}
		}
	}
	return true
}

// havocMods returns st with the modified locations replaced by arbitrary values.
func (ex *Exec) havocMods(st0 *State, mods map[string]*modClass) *State {
	c := ex.c
	st := st0.clone()
	st.cur = c.Fresh("cur", SInt)
	ex.fact(c.Le(st0.cur, st.cur))
	var ks []string
	for k := range mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := mods[k]
		if _, ok := st0.heap[k]; !ok && isCellKey(k) {
			continue // a local of the loop body
		}
		h := ex.heapGet(st0, k, m.s)
		_, vs := m.s.splitArr()
		var st1 []*Term
		for _, r := range m.stable {
			st1 = append(st1, r)
		}
		sort.Slice(st1, func(i, j int) bool { return st1[i].id < st1[j].id })
		if m.unknown {
			n := ex.c.Fresh("H'."+k, m.s)
			ex.arrFacts2(n, k, st.cur)
			st.heap[k] = n
			continue
		}
		if m.fresh {
			n := ex.c.Fresh("H'."+k, m.s)
			ex.arrFacts2(n, k, st.cur)
			r := c.Bound("r", SInt)
			cond := []*Term{c.Le(r, st0.cur)}
			for _, x := range st1 {
				cond = append(cond, c.Not(c.Eq(r, x)))
			}
			sel := c.app("select", vs, n, r)
			ex.fact(c.Forall([]*Term{r}, c.Imp(c.And(cond...), c.Eq(sel, c.Select(h, r))), sel))
			st.heap[k] = n
			continue
		}
		for _, r := range st1 {
			v := ex.c.Fresh("h'."+k, vs)
			if ex.hkinds[k] == 'r' && vs == SInt {
				ex.fact(c.And(c.Le(c.Int(0), v), c.Le(v, st.cur)))
			}
			if ex.hkinds[k] == 'r' && vs.isArr() {
				k2, v2 := vs.splitArr()
				if v2 == SInt {
					i := c.Bound("i", k2)
					s := c.app("select", SInt, v, i)
					ex.fact(c.Forall([]*Term{i}, c.And(c.Le(c.Int(0), s), c.Le(s, st.cur)), s))
				}
			}
			h = c.Store(h, r, v)
		}
		st.heap[k] = h
	}
	return st
}

func (ex *Exec) arrFacts2(t *Term, key string, cur *Term) {
	// facts rather than axioms: cur is only constrained locally
	n := len(ex.axs)
	ex.arrFacts(t, key, cur)
	for _, a := range ex.axs[n:] {
		ex.fact(a)
	}
	ex.axs = ex.axs[:n]
}

// lvar is a loop variable: a phi or a memory cell, evaluated in three phases.
type lvar struct {
	name string
	typ  types.Type
	init Val
	head Val
	back []Val // per back edge
	cell *Addr
	phi  *ssa.Phi
	off  int64
	len  *lvar // length of a slice variable
	base *lvar // off applies to this variable
}

// cut handles a loop by invariants.
func (ex *Exec) cut(fr *frame, l *loopInfo, edges []inEdge) []outEdge {
	ex.cuts++
	c := ex.c
	st0 := ex.enter(fr, l.head, cloneEdges(edges))
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	inits := map[*ssa.Phi]Val{}
	for _, p := range phis {
		inits[p] = fr.env[p]
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Defer); ok {
				panic(unsupported("defer in a loop"))
			}
		}
	}
	run := func(mods map[string]*modClass) (*State, []outEdge) {
		st := ex.havocMods(st0, mods)
		for _, p := range phis {
			fr.env[p] = ex.freshLike(p, inits[p], st)
		}
		return st, nil
	}
	mods, bounds := ex.dryMods(fr, st0, func(mods map[string]*modClass) {
		st, _ := run(mods)
		ex.runBody(fr, l, st)
	}, l)

	st, _ := run(mods)
	heads := map[*ssa.Phi]Val{}
	for _, p := range phis {
		heads[p] = fr.env[p]
	}
	ex.loopIDs++
	lname := sprintf("%s loop@%s", shortFn(fr.fn), ex.lineOf(l.head))
	// loop variables
	var vars []*lvar
	for _, p := range phis {
		vars = append(vars, &lvar{name: p.Comment, typ: p.Type(), init: inits[p], head: heads[p], phi: p})
	}
	vars = append(vars, ex.cellVars(mods, st0, st)...)
	li := &loopInst{ex: ex, name: lname, st0: st0, st: st, vars: vars, mods: mods, bounds: bounds, fr: fr, l: l}
	for _, ins := range l.head.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if it, ok := fr.env[nx.Iter].(*IterV); ok {
				li.iter = it.g
			}
		}
	}
	li.candidates()
	env := fr.env
	headSt := st.clone()
	outs := ex.runBody(fr, l, st)
	_ = env
	var exits []outEdge
	var backs []outEdge
	for _, o := range outs {
		if o.to == l.head {
			backs = append(backs, o)
		} else {
			exits = append(exits, o)
		}
	}
	for _, b := range backs {
		for _, v := range vars {
			if v.phi != nil {
				pi := predIndex(l.head, b.from)
				v.back = append(v.back, ex.val(fr, v.phi.Edges[pi], b.st))
			} else {
				v.back = append(v.back, ex.load(b.st, v.cell, v.typ))
			}
		}
	}
	li.preserve(backs)
	li.variants(headSt, backs)
	_ = c
	return exits
}

func (ex *Exec) runBody(fr *frame, l *loopInfo, st *State) []outEdge {
	// head is executed in state st with phis already set: run head block directly, then the region.
	inc := map[*ssa.BasicBlock][]inEdge{}
	var outs []outEdge
	route := func(from, to *ssa.BasicBlock, s *State) {
		if s.guard.isFalse() {
			return
		}
		if to == l.head || !l.blocks[to] {
			outs = append(outs, outEdge{from, to, s})
			return
		}
		inc[to] = append(inc[to], inEdge{from, s})
	}
	ex.block(fr, l.head, st, route)
	rest := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		if b != l.head {
			rest[b] = true
		}
	}
	outs = append(outs, ex.region(fr, fr.order, rest, l.head, inc)...)
	return outs
}

// freshLike makes an arbitrary value of a phi's type, keeping non-scalar shapes.
func (ex *Exec) freshLike(p *ssa.Phi, init Val, st *State) Val {
	switch x := init.(type) {
	case *Addr:
		if x.path != "" || x.idx != nil {
			n := *x
			n.ref = ex.c.Fresh(p.Comment+".ref", SInt)
			ex.fact(ex.c.And(ex.c.Le(ex.c.Int(0), n.ref), ex.c.Le(n.ref, st.cur)))
			if x.idx != nil {
				n.idx = ex.c.Fresh(p.Comment+".idx", x.idx.sort)
			}
			return &n
		}
	case *IterV:
		return x
	}
	return ex.fresh(p.Name()+"."+p.Comment, p.Type(), st)
}

// dryMods computes the locations a loop body may modify (to a fixpoint) and the loop-invariant
// integer terms it compares against.
func (ex *Exec) dryMods(fr *frame, st0 *State, body func(map[string]*modClass), l *loopInfo) (map[string]*modClass, []*Term) {
	mods := map[string]*modClass{}
	var bounds []*Term
	for round := 0; round < 6; round++ {
		s := ex.snapshot()
		stamp := ex.c.stamp
		log := &writeLog{w: map[string]map[int]*Term{}, sorts: map[string]Sort{}}
		saved := ex.logs
		ex.logs = []*writeLog{log}
		ex.quiet++
		var env0 map[ssa.Value]Val
		nd, nr := 0, 0
		if fr != nil {
			env0 = copyEnv(fr.env)
			nd, nr = len(fr.defers), len(fr.rets)
		}
		ni := ex.niter
		body(mods)
		ex.niter = ni
		ex.quiet--
		ex.logs = saved
		if fr != nil && l != nil {
			bounds = ex.cmpBounds(fr, l, stamp)
		}
		if fr != nil {
			fr.env = env0
			fr.defers = fr.defers[:nd]
			fr.rets = fr.rets[:nr]
		}
		ex.restore(s)
		nm := map[string]*modClass{}
		for k, refs := range log.w {
			m := &modClass{s: log.sorts[k], stable: map[int]*Term{}}
			for id, r := range refs {
				switch {
				case r.born <= stamp:
					m.stable[id] = r
				case r.alloc > 0:
					m.fresh = true
				default:
					m.unknown = true
				}
			}
			if strings.HasPrefix(k, "I:") && len(m.stable) > 0 && ex.iterNum(k) > ni {
				continue // iterator created inside the body
			}
			nm[k] = m
		}
		if sameMods(mods, nm) {
			return mods, bounds
		}
		// grow monotonically
		for k, m := range mods {
			if n := nm[k]; n == nil {
				nm[k] = m
			} else {
				n.unknown = n.unknown || m.unknown
				n.fresh = n.fresh || m.fresh
				for id, r := range m.stable {
					n.stable[id] = r
				}
			}
		}
		if sameMods(mods, nm) {
			return mods, bounds
		}
		mods = nm
	}
	for _, m := range mods {
		m.unknown = true
	}
	return mods, bounds
}

func (ex *Exec) iterNum(k string) int {
	n := 0
	for _, ch := range k[2:] {
		if ch < '0' || ch > '9' {
			break
		}
		n = n*10 + int(ch-'0')
	}
	return n
}

func (ex *Exec) cmpBounds(fr *frame, l *loopInfo, stamp int) []*Term {
	seen := map[int]bool{}
	var out []*Term
	add := func(t *Term) {
		if t.born <= stamp && !seen[t.id] && !t.bound && (t.sort == SInt || t.sort == SBV(64)) {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	var bs []*ssa.BasicBlock
	for _, b := range fr.order {
		if l.blocks[b] {
			bs = append(bs, b)
		}
	}
	for _, b := range bs {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if !isInteger(bo.X.Type()) || basicOf(bo.X.Type()).Kind() != types.Int {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if cst, ok := o.(*ssa.Const); ok {
					add(ex.constTerm(cst.Value, cst.Type()))
				} else if t, ok := fr.env[o].(*Term); ok {
					add(t)
				}
			}
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// cellVars: scalar or slice memory cells with a fixed address modified by the loop.
func (ex *Exec) cellVars(mods map[string]*modClass, st0, st *State) []*lvar {
	var out []*lvar
	var ks []string
	for k := range mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := mods[k]
		if m.unknown || m.fresh {
			continue
		}
		if !(strings.HasPrefix(k, "O:int") || strings.HasPrefix(k, "O:float64") || strings.HasPrefix(k, "O:bool") || strings.HasPrefix(k, "O:[]") || strings.HasPrefix(k, "O:string")) {
			continue
		}
		base, _, isSl := strings.Cut(k, "#")
		if isSl && !strings.HasSuffix(k, "#len") {
			continue
		}
		tn, _, isC := strings.Cut(strings.TrimPrefix(base, "O:"), cellMark)
		if _, ok := st0.heap[k]; isC && !ok {
			continue
		}
		t := ex.typeByName(tn)
		if t == nil {
			continue
		}
		var rs []*Term
		for _, r := range m.stable {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			a := &Addr{root: base, ref: r, typ: t}
			out = append(out, &lvar{name: "cell", typ: t, init: ex.load(st0, a, t), head: ex.load(st, a, t), cell: a})
		}
	}
	return out
}

func (ex *Exec) typeByName(n string) types.Type {
	for t, s := range ex.tnames {
		if s == n {
			return t
		}
	}
	return nil
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
}

func (ex *Exec) lineOf(b *ssa.BasicBlock) string {
	for _, ins := range b.Instrs {
		if p := ins.Pos(); p.IsValid() {
			return sprintf("%d", ex.prog.Fset.Position(p).Line)
		}
	}
	return b.Comment
}

// ---- candidate invariants ----

type loopInst struct {
	ex     *Exec
	name   string
	st0    *State
	st     *State
	vars   []*lvar
	mods   map[string]*modClass
	bounds []*Term
	fr     *frame
	l      *loopInfo
	iter   *iterGhost
	extra  []*lvar // captured variables the loop does not assign
	cands  []*candInst
	nc     int
}

type candInst struct {
	cand *Cand
	at   func(phase int, back int, st *State) *Term // phase 0 init, 1 head, 2 back
	ini  *Term
	h    *Term
}

func (li *loopInst) add(name string, user bool, at func(phase, back int, st *State) *Term) {
	ex := li.ex
	cd := &Cand{name: li.name + ": " + name, user: user}
	ini := at(0, 0, li.st0)
	if ini == nil || ini.isFalse() {
		return
	}
	h := at(1, 0, li.st)
	if h == nil || h.isTrue() {
		return
	}
	for _, o := range li.cands {
		if o.ini == ini && o.h == h {
			return
		}
	}
	li.nc++
	ci := &candInst{cd, at, ini, h}
	li.cands = append(li.cands, ci)
	if ex.quiet > 0 {
		// nested dry run: candidate truth unknown, do not assume
		return
	}
	g := &Goal{name: cd.name + " (initially)", kind: "init", f: ex.c.Imp(li.st0.guard, ini), guard: li.st0.guard, nfacts: len(ex.facts), cand: cd, pos: ex.posStr()}
	ex.goals = append(ex.goals, g)
	ex.facts = append(ex.facts, Fact{ex.c.Imp(li.st.guard, h), cd})
}

func (li *loopInst) preserve(backs []outEdge) {
	ex := li.ex
	if ex.quiet > 0 {
		return
	}
	for _, ci := range li.cands {
		for i, b := range backs {
			p := ci.at(2, i, b.st)
			g := &Goal{name: ci.cand.name + " (preserved)", kind: "preserve", f: ex.c.Imp(b.st.guard, p), guard: b.st.guard, nfacts: len(ex.facts), cand: ci.cand, pos: ex.posStr()}
			ex.goals = append(ex.goals, g)
		}
	}
}

func (v *lvar) at(ex *Exec, phase, back int) Val {
	if v.base != nil {
		return v.base.at(ex, phase, back)
	}
	if v.len != nil {
		s := v.len.at(ex, phase, back)
		return s.(*SliceV).ln
	}
	var x Val
	switch phase {
	case 0:
		x = v.init
	case 1:
		x = v.head
	default:
		x = v.back[back]
	}
	return x
}

func (li *loopInst) candidates() {
	ex := li.ex
	c := ex.c
	var ints []*lvar
	for _, v := range li.vars {
		if b := basicOf(v.typ); b != nil && b.Kind() == types.Int {
			ints = append(ints, v)
		}
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			ints = append(ints, &lvar{name: "len(" + v.name + ")", typ: types.Typ[types.Int], len: v})
		}
	}
	le := func(a, b *Term) *Term { return ex.ile(a, b) }
	one := ex.intC(1)
	for _, v := range ints {
		v := v
		iv := v.at(ex, 0, 0).(*Term)
		li.add(v.name+" >= initial", false, func(ph, bk int, st *State) *Term { return le(iv, v.at(ex, ph, bk).(*Term)) })
		li.add(v.name+" <= initial", false, func(ph, bk int, st *State) *Term { return le(v.at(ex, ph, bk).(*Term), iv) })
		for _, b := range li.bounds {
			b := b
			bn := c.Show(b)
			li.add(v.name+" <= "+bn, false, func(ph, bk int, st *State) *Term { return le(v.at(ex, ph, bk).(*Term), b) })
			li.add(v.name+" < "+bn, false, func(ph, bk int, st *State) *Term { return ex.ilt(v.at(ex, ph, bk).(*Term), b) })
			li.add(v.name+" >= "+bn, false, func(ph, bk int, st *State) *Term { return le(b, v.at(ex, ph, bk).(*Term)) })
			li.add(v.name+" >= "+bn+"-1", false, func(ph, bk int, st *State) *Term { return le(ex.isub(b, one), v.at(ex, ph, bk).(*Term)) })
		}
	}
	if len(ints) <= 4 {
		for i := range ints {
			for j := i + 1; j < len(ints); j++ {
				a, b := ints[i], ints[j]
				d := ex.isub(a.at(ex, 0, 0).(*Term), b.at(ex, 0, 0).(*Term))
				li.add(a.name+" - "+b.name+" = initial", false, func(ph, bk int, st *State) *Term {
					return c.Eq(ex.isub(a.at(ex, ph, bk).(*Term), b.at(ex, ph, bk).(*Term)), d)
				})
				li.add(a.name+" - "+b.name+" <= initial", false, func(ph, bk int, st *State) *Term {
					return le(ex.isub(a.at(ex, ph, bk).(*Term), b.at(ex, ph, bk).(*Term)), d)
				})
				li.add(a.name+" - "+b.name+" >= initial", false, func(ph, bk int, st *State) *Term {
					return le(d, ex.isub(a.at(ex, ph, bk).(*Term), b.at(ex, ph, bk).(*Term)))
				})
			}
		}
	}
	// slice variables: backing is the initial one or allocated by the loop
	for _, v := range li.vars {
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			v := v
			ir := v.init.(*SliceV)
			cur0 := li.st0.cur
			li.add(v.name+" backing fresh or initial", false, func(ph, bk int, st *State) *Term {
				r := v.at(ex, ph, bk).(*SliceV)
				return c.Or(c.And(c.Eq(r.ref, ir.ref), c.Eq(r.off, ir.off)), c.And(c.Lt(cur0, r.ref), c.Eq(r.off, ir.off)))
			})
			li.add(v.name+" backing fresh", false, func(ph, bk int, st *State) *Term {
				return c.Lt(ex.entryCur(), v.at(ex, ph, bk).(*SliceV).ref)
			})
			li.add(v.name+" offset", false, func(ph, bk int, st *State) *Term {
				return c.Eq(v.at(ex, ph, bk).(*SliceV).off, ir.off)
			})
		}
	}
	// visited keys belong to the map; locks keep their state
	var ks []string
	for k := range li.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := li.mods[k]
		for _, r := range m.stable {
			k, r := k, r
			if strings.HasPrefix(k, "L:") {
				e := c.Select(ex.heapGet(li.st0, k, m.s), r)
				li.add("lock state "+k, false, func(ph, bk int, st *State) *Term { return c.Eq(c.Select(ex.heapGet(st, k, m.s), r), e) })
			}
		}
	}
	for _, t := range ex.tmpl {
		if !t.vart {
			li.instantiate(t)
		}
	}
}

func (ex *Exec) entryCur() *Term { return ex.base0 }

// pool of values usable for a template parameter of type t.
func (li *loopInst) pool(t types.Type) []*lvar {
	var out []*lvar
	seen := map[ssa.Value]bool{}
	add := func(v *lvar) {
		if types.Identical(v.typ, t) {
			out = append(out, v)
			if b := basicOf(t); b != nil && b.Kind() == types.Int && v.off == 0 {
				w := *v
				w.off = 1
				w.base = v
				w.name += "+1"
				out = append(out, &w)
			}
		}
	}
	for _, v := range li.vars {
		add(v)
		if v.phi != nil {
			seen[v.phi] = true
		}
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			if b := basicOf(t); b != nil && b.Kind() == types.Int {
				out = append(out, &lvar{name: "len(" + v.name + ")", typ: types.Typ[types.Int], len: v})
			}
		}
	}
	for _, v := range li.extra {
		add(v)
	}
	if li.fr != nil {
		// enclosing loops' phis and, for non-scalar types, any dominating value
		for p := li.l.parent; p != nil; p = p.parent {
			for _, ins := range p.head.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if x, ok := li.fr.env[ph]; ok && !seen[ph] {
					seen[ph] = true
					add(constVar(ph.Comment, ph.Type(), x))
				}
			}
		}
		_, basic := t.Underlying().(*types.Basic)
		if !basic {
			for _, b := range li.fr.order {
				if !b.Dominates(li.l.head) || b == li.l.head {
					continue
				}
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok && !seen[v] && types.Identical(v.Type(), t) {
						if x, ok := li.fr.env[v]; ok {
							seen[v] = true
							add(constVar(v.Name(), v.Type(), x))
						}
					}
				}
			}
			for _, p := range li.fr.fn.Params {
				if types.Identical(p.Type(), t) {
					add(constVar(p.Name(), p.Type(), li.fr.env[p]))
				}
			}
		}
	}
	return out
}

func constVar(n string, t types.Type, v Val) *lvar {
	return &lvar{name: n, typ: t, init: v, head: v, back: []Val{v, v, v, v, v, v, v, v, v, v, v, v}}
}

func (v *lvar) arg(ex *Exec, phase, back int) Val {
	x := v.at(ex, phase, back)
	if v.off != 0 {
		return ex.iadd(x.(*Term), ex.intC(v.off))
	}
	return x
}

const maxInst = 60

func (li *loopInst) instantiate(t *template) {
	ex := li.ex
	sig := t.fn.fn.Signature
	n := sig.Params().Len()
	pools := make([][]*lvar, n)
	for i := 0; i < n; i++ {
		pools[i] = li.pool(sig.Params().At(i).Type())
		if len(pools[i]) == 0 {
			return
		}
	}
	cnt := 0
	var rec func(i int, as []*lvar)
	rec = func(i int, as []*lvar) {
		if cnt >= maxInst {
			return
		}
		if i == n {
			cnt++
			args := append([]*lvar{}, as...)
			nm := t.name
			for _, a := range args {
				nm += " " + a.name
			}
			li.add(nm, true, func(ph, bk int, st *State) *Term {
				var vs []Val
				for _, a := range args {
					vs = append(vs, a.arg(ex, ph, bk))
				}
				ex.iter, ex.iterMiss = li.iter, false
				r := ex.evalPure(t.fn, vs, st)
				ex.iter = nil
				if ex.iterMiss {
					ex.iterMiss = false
					return nil
				}
				return r
			})
			return
		}
		for _, v := range pools[i] {
			dup := false
			for _, a := range as {
				if a == v || (a.phi != nil && a.phi == v.phi && a.off != v.off) || (a.cell != nil && v.cell != nil && a.cell == v.cell) {
					dup = true
				}
			}
			if dup {
				continue
			}
			rec(i+1, append(as, v))
		}
	}
	rec(0, nil)
}

// evalPure runs a specification closure in a copy of st, without raising goals.
func (ex *Exec) evalPure(f *FuncV, args []Val, st *State) *Term {
	s := st.clone()
	s.guard = ex.c.True()
	ex.quiet++
	ex.pure++
	saved := ex.logs
	ex.logs = nil
	tm := ex.tmpl
	ex.tmpl = nil
	sn := len(ex.facts)
	r, _ := ex.callFV(f, args, s)
	// facts produced by pure evaluation are definitional (type facts, axioms instances): keep them
	_ = sn
	ex.tmpl = tm
	ex.logs = saved
	ex.quiet--
	ex.pure--
	return r.(*Term)
}

// variants: termination obligations, one of the measures must decrease.
func (li *loopInst) variants(head *State, backs []outEdge) {
	ex := li.ex
	if ex.quiet > 0 || ex.ct == nil || !ex.ct.terminates || li.l == nil {
		return
	}
	for b := range li.l.blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Next); ok {
				return // finite map iteration
			}
		}
	}
	c := ex.c
	grp := sprintf("%s terminates", li.name)
	n := 0
	addM := func(name string, m func(ph, bk int, st *State) *Term) {
		var fs []*Term
		for i, b := range backs {
			mh := m(1, 0, head)
			mb := m(2, i, b.st)
			fs = append(fs, c.Imp(b.st.guard, c.And(ex.ile(ex.intC(0), mh), ex.ilt(mb, mh))))
		}
		n++
		ex.goals = append(ex.goals, &Goal{name: grp + ": " + name, kind: "variant", f: c.And(fs...), guard: head.guard, nfacts: len(ex.facts), group: grp, pos: ex.posStr()})
	}
	for _, v := range li.vars {
		if b := basicOf(v.typ); b == nil || b.Kind() != types.Int {
			continue
		}
		v := v
		for _, b := range li.bounds {
			b := b
			addM(c.Show(b)+" - "+v.name, func(ph, bk int, st *State) *Term { return ex.isub(b, v.at(ex, ph, bk).(*Term)) })
			addM(v.name+" - "+c.Show(b), func(ph, bk int, st *State) *Term { return ex.isub(v.at(ex, ph, bk).(*Term), b) })
		}
	}
	for _, t := range ex.tmpl {
		if !t.vart {
			continue
		}
		sig := t.fn.fn.Signature
		if sig.Params().Len() != 1 {
			continue
		}
		for _, v := range li.pool(sig.Params().At(0).Type()) {
			v := v
			addM(t.name+" "+v.name, func(ph, bk int, st *State) *Term {
				return ex.evalPure(t.fn, []Val{v.arg(ex, ph, bk)}, st)
			})
		}
	}
	if n == 0 && len(backs) > 0 {
		ex.goals = append(ex.goals, &Goal{name: grp + ": no measure", kind: "variant", f: c.False(), guard: head.guard, nfacts: len(ex.facts), group: grp, pos: ex.posStr()})
	}
}
