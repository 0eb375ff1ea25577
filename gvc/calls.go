package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) doCall(fr *frame, cc *ssa.CallCommon, site *ssa.Call, st *State) (Val, *State) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, a, st))
	}
	if cc.IsInvoke() {
		return ex.callVals(cc, nil, ex.val(fr, cc.Value, st), args, st, site)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(b, cc, args, st, site), st
	}
	return ex.callVals(cc, ex.val(fr, cc.Value, st), nil, args, st, site)
}

func (ex *Exec) callVals(cc *ssa.CallCommon, fn Val, recv Val, args []Val, st *State, site *ssa.Call) (Val, *State) {
	if cc.IsInvoke() {
		return ex.invoke(cc, recv.(*Term), args, st)
	}
	if b, ok := fn.(*ssa.Builtin); ok {
		return ex.builtin(b, cc, args, st, site), st
	}
	return ex.callFuncVal(cc, fn, args, st)
}

func (ex *Exec) callFuncVal(cc *ssa.CallCommon, fn Val, args []Val, st *State) (Val, *State) {
	c := ex.c
	switch f := fn.(type) {
	case *FuncV:
		return ex.callStatic(f, args, st)
	case *Term:
		if fv, ok := ex.funcs[f.id]; ok {
			return ex.callStatic(fv, args, st)
		}
		f = ex.expandSelect(f)
		if fv, ok := ex.funcs[f.id]; ok {
			return ex.callStatic(fv, args, st)
		}
		if f.op == "ite" {
			return ex.dispatch(f, st, cc, func(lf *Term, s *State) (Val, *State) { return ex.callFuncVal(cc, lf, args, s) })
		}
		ex.goal(st, "safety", "nil function call", c.Not(c.Eq(f, c.Int(0))))
		ex.assumption("unknown function value " + ex.typeName(cc.Value.Type()) + ": arbitrary result, no effect on verified objects")
		return ex.fresh("dyn", resType(cc.Signature()), st), st
	}
	panic(unsupported("call of %T", fn))
}

func resType(sig *types.Signature) types.Type {
	r := sig.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// callFV calls a closure, one frozen by vp.Frozen in the state it was frozen in.
func (ex *Exec) callFV(f *FuncV, args []Val, st *State) (Val, *State) {
	if f.frozen == nil {
		return ex.callFn(f.fn, args, f.binds, st)
	}
	s := f.frozen.clone()
	s.guard = st.guard
	r, _ := ex.callFn(f.fn, args, f.binds, s)
	return r, st
}

func (ex *Exec) callStatic(f *FuncV, args []Val, st *State) (Val, *State) {
	if f.frozen != nil {
		return ex.callFV(f, args, st)
	}
	fn := f.fn
	name := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		name = o.RelString(nil)
	}
	if r, s, ok := ex.intrinsic(name, fn, args, st); ok {
		return r, s
	}
	if r, s, ok := ex.model(name, fn, args, st); ok {
		return r, s
	}
	// contract being executed at a call site: its target call is abstract
	if ex.caller != nil && ex.caller.target == fn && !ex.caller.done {
		r, s := ex.callerHavoc(fn.Signature, args, st)
		if v := ex.pureResult(fn, args); v != nil {
			ex.caller.res = v
			ex.typeFacts(v, resType(fn.Signature), s)
			return v, s
		}
		return r, s
	}
	if ct := ex.useContract(fn); ct != nil {
		return ex.applyContract(ct, fn, args, st)
	}
	if ex.ct != nil && ex.ct.opaque[shortFn(fn)] {
		return ex.opaqueCall(fn, args, st)
	}
	if !ex.inModule(fn) {
		if len(fn.Blocks) > 0 && fn.Synthetic != "" && fn.Pkg == nil {
			return ex.callFn(fn, args, f.binds, st)
		}
		ex.assumption("external function " + name + ": arbitrary result, no effect on verified objects")
		return ex.fresh("ext."+fn.Name(), resType(fn.Signature), st), st
	}
	if ex.caller == nil && ex.ct != nil && ex.quiet == 0 && ex.ct.target == shortFn(fn) && ex.reg.isUsed[ex.ct.name] && len(ex.stack) > 0 && ex.stack[len(ex.stack)-1] == ex.ct.fn {
		pre := st.clone()
		r, s := ex.callFn(fn, args, f.binds, st)
		ex.frameGoals(pre, s)
		return r, s
	}
	return ex.callFn(fn, args, f.binds, st)
}

// pureResult: a function of scalars that reads and writes no memory gives the same result for the same arguments.
func (ex *Exec) pureResult(fn *ssa.Function, args []Val) Val {
	if len(ex.caller.mods) > 0 || !ex.pureFn(fn, map[*ssa.Function]bool{}) {
		return nil
	}
	var ts []*Term
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok {
			return nil
		}
		ts = append(ts, t)
	}
	rt := resType(fn.Signature)
	var rs []*Term
	for i, l := range ex.leaves(rt) {
		if l.sort != SReal && l.sort != SInt && l.sort != SBool && !strings.HasPrefix(string(l.sort), "(_") {
			return nil
		}
		rs = append(rs, ex.c.UF(sprintf("pure_%s_%d", sanitize(shortFn(fn)), i), l.sort, ts...))
	}
	if len(rs) == 0 {
		return nil
	}
	return ex.unflatten(rt, rs)
}

func (ex *Exec) pureFn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 {
		return false
	}
	for i := range fn.Signature.Params().Len() {
		if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	if fn.Signature.Recv() != nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Panic, *ssa.MakeInterface:
			case *ssa.UnOp:
				if x.Op == token.MUL || x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil {
					return false
				}
				if f.Pkg != nil && f.Pkg.Pkg.Path() == "math" {
					continue
				}
				if !ex.inModule(f) || !ex.pureFn(f, seen) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// frameGoals: a contract that stands for its target at call sites must name everything the target writes.
func (ex *Exec) frameGoals(pre, post *State) {
	c := ex.c
	for _, k := range sortedKeys(ex.allKeys(post)) {
		if strings.HasPrefix(k, "N:") || strings.HasPrefix(k, "I:") || isCellKey(k) {
			continue
		}
		so := ex.keySort(post, k)
		a, b := ex.heapGet(pre, k, so), ex.heapGet(post, k, so)
		if a == b {
			continue
		}
		ks, _ := so.splitArr()
		r := c.Fresh("frame", ks)
		ok := c.Eq(c.Select(a, r), c.Select(b, r))
		if ks == SInt {
			ok = c.Or(c.Lt(pre.cur, r), ok)
		}
		for _, m := range ex.frameMods {
			if m.all != "" {
				if strings.HasPrefix(k, m.all) {
					ok = c.True()
				}
				continue
			}
			if rest, is := strings.CutPrefix(k, m.addr.root+m.addr.path); is && (rest == "" || rest[0] == '.' || rest[0] == '#') && m.addr.idx == nil {
				ok = c.Or(ok, c.Eq(r, m.addr.ref))
			}
		}
		ex.goal(post, "frame", "writes only what the contract allows: "+shortKey(k), ok)
	}
}

func (ex *Exec) inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if par := fn.Parent(); par != nil {
			return ex.inModule(par)
		}
		// wrappers / bound methods
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// opaqueCall: result arbitrary, everything the callee may write is arbitrary.
func (ex *Exec) opaqueCall(fn *ssa.Function, args []Val, st *State) (Val, *State) {
	mods, _ := ex.dryMods(nil, st, func(m map[string]*modClass) {
		s := ex.havocMods(st, m)
		ex.callFn(fn, args, nil, s)
	}, nil)
	for _, m := range mods {
		if m.fresh {
			continue
		}
	}
	s := ex.havocMods(st, mods)
	for k, m := range mods {
		for _, r := range m.stable {
			ex.logWrite(k, r, m.s)
		}
		if m.fresh || m.unknown {
			ex.logWrite(k, ex.c.Fresh("opq", SInt), m.s)
		}
	}
	s.guard = st.guard
	return ex.fresh("opq."+fn.Name(), resType(fn.Signature), s), s
}

func (ex *Exec) callerHavoc(sig *types.Signature, args []Val, st *State) (Val, *State) {
	cm := ex.caller
	cm.done = true
	s := st.clone()
	ns := ex.c.Fresh("cur", SInt)
	ex.fact(ex.c.Le(st.cur, ns))
	s.cur = ns
	for _, m := range cm.mods {
		if m.all != "" {
			for k := range ex.allKeys(s) {
				if strings.HasPrefix(k, m.all) {
					so := ex.keySort(s, k)
					n := ex.c.Fresh("H'."+k, so)
					ex.arrFacts2(n, k, s.cur)
					s.heap[k] = n
					ex.logWrite(k, ex.c.Fresh("all", SInt), so)
				}
			}
			continue
		}
		ex.store(s, m.addr, ex.fresh("mod", m.typ, s), m.typ)
	}
	cm.res = ex.fresh("res", resType(sig), s)
	return cm.res, s
}

func (ex *Exec) allKeys(st *State) map[string]bool {
	out := map[string]bool{}
	for k := range ex.initHeap {
		out[k] = true
	}
	for k := range st.heap {
		out[k] = true
	}
	return out
}
func (ex *Exec) keySort(st *State, k string) Sort {
	if t, ok := st.heap[k]; ok {
		return t.sort
	}
	return ex.initHeap[k].sort
}

func (ex *Exec) useContract(fn *ssa.Function) *Contract {
	if ex.ct == nil {
		return nil
	}
	for _, u := range ex.ct.uses {
		ct := ex.reg.byName[u]
		if ct != nil && ct.target == shortFn(fn) && ct != ex.ct {
			return ct
		}
	}
	return nil
}

// applyContract uses ct's contract for a call to fn: Requires are obligations, Ensures are assumed.
func (ex *Exec) applyContract(ct *Contract, fn *ssa.Function, args []Val, st *State) (Val, *State) {
	saved := ex.caller
	cm := &callerMode{target: fn, args: args}
	ex.caller = cm
	defer func() { ex.caller = saved }()
	if len(ct.fn.Params) > len(args) {
		panic(unsupported("contract %s has more parameters than its target", ct.name))
	}
	_, s := ex.callFn(ct.fn, args[:len(ct.fn.Params)], nil, st)
	ex.reg.usedContracts[ct.name] = true
	if cm.res == nil {
		panic(unsupported("contract %s does not call its target", ct.name))
	}
	return cm.res, s
}

func (ex *Exec) invoke(cc *ssa.CallCommon, recv *Term, args []Val, st *State) (Val, *State) {
	c := ex.c
	iname := ex.typeName(cc.Value.Type()) + "." + cc.Method.Name()
	if recv.op == "sym" && recv.name == "inil" {
		ex.goal(st, "safety", "nil interface call", c.False())
		s := st.clone()
		s.guard = c.False()
		ex.cuts++
		return ex.zero(resType(cc.Signature())), s
	}
	if strings.HasPrefix(recv.op, "uf:box_") {
		tag := ex.itag(recv)
		t := ex.tagTypes[int(tag.ival.Int64())]
		if t != nil {
			m := ex.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if m != nil {
				v := ex.unbox(recv, t)
				return ex.callStatic(ex.staticFunc(m), append([]Val{v}, args...), st)
			}
		}
	}
	recv = ex.expandSelect(recv)
	if recv.op == "ite" {
		return ex.dispatch(recv, st, cc, func(lf *Term, s *State) (Val, *State) { return ex.invoke(cc, lf, args, s) })
	}
	if r, s, ok := ex.ifaceModel(iname, recv, args, st, cc); ok {
		return r, s
	}
	ex.goal(st, "safety", "nil interface call", c.Not(c.Eq(recv, ex.inil())))
	if ct := ex.reg.ifaceContract(ex, iname); ct != nil {
		if ex.caller != nil && ex.caller.target == nil && !ex.caller.done && ct == ex.reg.curIface {
			return ex.callerHavoc(cc.Signature(), args, st)
		}
		saved, si := ex.caller, ex.reg.curIface
		ex.caller = &callerMode{}
		ex.reg.curIface = ct
		defer func() { ex.caller = saved; ex.reg.curIface = si }()
		r, s := ex.callFn(ct.fn, append([]Val{recv}, args...), nil, st)
		ex.reg.usedContracts[ct.name] = true
		return r, s
	}
	if ts := ex.asked[recv]; len(ts) > 0 && ex.inQuant == 0 {
		// the dynamic type was tested for before: run that type's method in the case it is one of those
		rest := st.guard
		var sts []*State
		var rs []Val
		rt := resType(cc.Signature())
		for _, t := range ts {
			m := ex.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				continue
			}
			is := c.Eq(ex.itag(recv), ex.typeTag(t))
			s := st.clone()
			s.guard = c.And(rest, is)
			rest = c.And(rest, c.Not(is))
			if s.guard.isFalse() {
				continue
			}
			r, s2 := ex.callStatic(ex.staticFunc(m), append([]Val{ex.unbox(recv, t)}, args...), s)
			if s2 == nil || s2.guard.isFalse() {
				ex.cuts++
				continue
			}
			sts, rs = append(sts, s2), append(rs, r)
		}
		if !rest.isFalse() {
			ex.assumption("interface method " + iname + " of other types: arbitrary result, no effect on verified objects")
			s := st.clone()
			s.guard = rest
			sts, rs = append(sts, s), append(rs, ex.fresh("inv."+cc.Method.Name(), rt, s))
		}
		if len(sts) > 0 {
			m, gs := ex.mergeStates(sts)
			r := rs[len(rs)-1]
			for j := len(rs) - 2; j >= 0; j-- {
				r = ex.iteVal(gs[j], rs[j], r, rt)
			}
			return r, m
		}
	}
	ex.assumption("interface method " + iname + ": arbitrary result, no effect on verified objects")
	return ex.fresh("inv."+cc.Method.Name(), resType(cc.Signature()), st), st
}

// ---- builtins ----

func (ex *Exec) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Val, st *State, site *ssa.Call) Val {
	c := ex.c
	at := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return v.cp
			}
			return v.ln
		case *Term:
			switch u := at(0).Underlying().(type) {
			case *types.Map:
				return c.Ite(c.Eq(v, c.Int(0)), ex.intC(0), ex.mapLen(st, v, u))
			case *types.Chan:
				r := ex.fresh("chanlen", types.Typ[types.Int], st).(*Term)
				ex.fact(ex.ile(ex.intC(0), r))
				return r
			}
			return ex.strLen(v)
		case *ArrayV:
			return ex.intC(int64(len(v.e)))
		}
		if p, ok := at(0).Underlying().(*types.Pointer); ok {
			return ex.intC(p.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		return ex.appendOp(st, args[0].(*SliceV), args[1], at(0), at(1))
	case "copy":
		return ex.copyOp(st, args[0].(*SliceV), args[1], at(0))
	case "min", "max":
		t := at(0)
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if isFloat(t) {
				if b.Name() == "min" {
					r = ex.fmin(r, y)
				} else {
					r = ex.fmax(r, y)
				}
				continue
			}
			lt := ex.binop(tokLSS, r, y, t, st)
			if b.Name() == "min" {
				r = c.Ite(lt, r, y)
			} else {
				r = c.Ite(lt, y, r)
			}
		}
		return r
	case "delete":
		m := args[0].(*Term)
		ex.mapDelete(st, m, at(0).Underlying().(*types.Map), args[1])
		return &TupleV{}
	case "close", "print", "println":
		return &TupleV{}
	case "clear":
		if mt, ok := at(0).Underlying().(*types.Map); ok {
			m := args[0].(*Term)
			_, key, s := ex.mapDom(st, m, mt)
			_, ds := s.splitArr()
			ex.logWrite(key, m, s)
			st.heap[key] = c.Store(ex.heapGet(st, key, s), m, c.ConstArr(ds, c.False()))
			_, root := ex.mapKeys(mt)
			lk := root + "#len"
			ls := SArr(SInt, ex.isort())
			ex.logWrite(lk, m, ls)
			st.heap[lk] = c.Store(ex.heapGet(st, lk, ls), m, ex.intC(0))
			return &TupleV{}
		}
	case "recover":
		return ex.inil()
	case "ssa:wrapnilchk":
		a := ex.asAddr(args[0], deref(at(0)))
		ex.nilCheck(st, a, "")
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}

// appendOp models append as producing a new backing array (no aliasing through spare capacity).
func (ex *Exec) appendOp(st *State, s *SliceV, more Val, t, mt types.Type) Val {
	c := ex.c
	el := t.Underlying().(*types.Slice).Elem()
	ex.assumption("append: result backing modelled as a copy (no aliasing through spare capacity)")
	var m *SliceV
	switch x := more.(type) {
	case *SliceV:
		m = x
	case *Term: // append([]byte, string...)
		n := ex.strLen(x)
		r := ex.alloc(st, "bytes")
		m = &SliceV{r, ex.intC(0), n, n}
	}
	if m.ln.isConst() && m.ln.ival.Sign() == 0 {
		return s
	}
	r := ex.alloc(st, "append")
	nl := ex.iadd(s.ln, m.ln)
	for _, l := range ex.leaves(el) {
		ea := ex.elemAddr(r, ex.intC(0), el)
		key := ea.key(l.suf)
		if _, ok := ex.hkinds[key]; !ok {
			ex.hkinds[key] = l.kind
		}
		hs := ex.hsort(ea, l)
		h := ex.heapGet(st, key, hs)
		src := c.Select(h, s.ref)
		madd := c.Select(h, m.ref)
		_, as := hs.splitArr()
		var arr *Term
		if n := maxLeaf(m.ln); n >= 0 && n <= 16 {
			if s.ref.isConst() && s.ln.isConst() { // nil slice
				src = c.ConstArr(as, ex.zeroLeaf(l))
			}
			arr = src
			for i := int64(0); i < n; i++ { // what lies beyond the length is arbitrary anyway
				arr = c.Store(arr, ex.iadd(ex.iadd(s.off, s.ln), ex.intC(i)), c.Select(madd, ex.iadd(m.off, ex.intC(i))))
			}
		} else {
			arr = c.Fresh("app", as)
			k, _ := as.splitArr()
			i := c.Bound("i", k)
			sel := c.app("select", l.sort, arr, i)
			ex.fact(c.Forall([]*Term{i}, c.And(
				c.Imp(c.And(ex.ile(s.off, i), ex.ilt(i, ex.iadd(s.off, s.ln))), c.Eq(sel, c.Select(src, i))),
				c.Imp(c.And(ex.ile(ex.iadd(s.off, s.ln), i), ex.ilt(i, ex.iadd(s.off, nl))), c.Eq(sel, c.Select(madd, ex.iadd(ex.isub(i, ex.iadd(s.off, s.ln)), m.off))))), sel))
		}
		ex.logWrite(key, r, hs)
		st.heap[key] = c.Store(h, r, arr)
	}
	cp := c.Fresh("cap", ex.isort())
	ex.fact(ex.ile(nl, cp))
	ex.fact(ex.ile(ex.iadd(s.off, cp), ex.intC(1<<60)))
	return &SliceV{r, s.off, nl, cp}
}

func (ex *Exec) copyOp(st *State, d *SliceV, src Val, t types.Type) Val {
	c := ex.c
	el := t.Underlying().(*types.Slice).Elem()
	s, ok := src.(*SliceV)
	if !ok {
		panic(unsupported("copy from string"))
	}
	n := c.Ite(ex.ile(d.ln, s.ln), d.ln, s.ln)
	for _, l := range ex.leaves(el) {
		ea := ex.elemAddr(d.ref, ex.intC(0), el)
		key := ea.key(l.suf)
		if _, ok := ex.hkinds[key]; !ok {
			ex.hkinds[key] = l.kind
		}
		hs := ex.hsort(ea, l)
		h := ex.heapGet(st, key, hs)
		da, sa := c.Select(h, d.ref), c.Select(h, s.ref)
		_, as := hs.splitArr()
		arr := c.Fresh("cpy", as)
		k, _ := as.splitArr()
		i := c.Bound("i", k)
		sel := c.app("select", l.sort, arr, i)
		in := c.And(ex.ile(d.off, i), ex.ilt(i, ex.iadd(d.off, n)))
		ex.fact(c.Forall([]*Term{i}, c.Eq(sel, c.Ite(in, c.Select(sa, ex.iadd(s.off, ex.isub(i, d.off))), c.Select(da, i))), sel))
		ex.logWrite(key, d.ref, hs)
		st.heap[key] = c.Store(h, d.ref, arr)
	}
	return n
}

// ---- concurrency primitives ----

func (ex *Exec) goStmt(fr *frame, x *ssa.Go, st *State) {
	ex.assumption("goroutine started by " + shortFn(fr.fn) + ": its effects are verified separately, not interleaved")
}

func (ex *Exec) chanRecv(fr *frame, x *ssa.UnOp, st *State) {
	ct := x.X.Type().Underlying().(*types.Chan)
	v := ex.fresh("recv", ct.Elem(), st)
	if x.CommaOk {
		fr.env[x] = &TupleV{[]Val{v, ex.c.Fresh("recvok", SBool)}}
	} else {
		fr.env[x] = v
	}
}

func (ex *Exec) selectStmt(fr *frame, x *ssa.Select, st *State) Val {
	c := ex.c
	idx := c.Fresh("select", ex.isort())
	lo := int64(0)
	if !x.Blocking {
		lo = -1
	}
	ex.fact(c.And(ex.ile(ex.intC(lo), idx), ex.ilt(idx, ex.intC(int64(len(x.States))))))
	out := &TupleV{[]Val{idx, c.Fresh("recvok", SBool)}}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			out.v = append(out.v, ex.fresh("recv", s.Chan.Type().Underlying().(*types.Chan).Elem(), st))
			ch := ex.val(fr, s.Chan, st)
			if t, ok := ch.(*Term); ok && strings.HasPrefix(t.op, "uf:ctxdone") {
				// receiving from ctx.Done() means the context is cancelled from now on
				cx := t.args[0]
				h := ex.heapGet(st, "N:cancelled", SArr(SIface, SBool))
				st.heap["N:cancelled"] = c.Store(h, cx, c.Or(c.Select(h, cx), c.Eq(idx, ex.intC(int64(i)))))
				ex.logWrite("N:cancelled", c.Int(1), SArr(SIface, SBool))
			}
		}
	}
	return out
}

// lockKey names the ghost lock map for a mutex address.
func (ex *Exec) lockKey(a *Addr) string { return "L:" + a.root + a.path }

func (ex *Exec) lockOp(a *Addr, op string, st *State) {
	if ex.ct == nil || !ex.ct.locks {
		return
	}
	c := ex.c
	k := ex.lockKey(a)
	s := SArr(SInt, SInt)
	ex.hkinds[k] = 'g'
	h := ex.heapGet(st, k, s)
	cur := c.Select(h, a.ref)
	set := func(v *Term) {
		ex.logWrite(k, a.ref, s)
		st.heap[k] = c.Store(h, a.ref, v)
	}
	cntK := "N:acq:" + k
	switch op {
	case "Lock":
		ex.goal(st, "lock", "acquires "+shortKey(k)+" only when not already held by this call", c.Eq(cur, c.Int(0)))
		set(c.Int(-1))
	case "RLock":
		ex.goal(st, "lock", "read-acquires "+shortKey(k)+" only when not already held by this call", c.Eq(cur, c.Int(0)))
		set(c.Int(1))
	case "Unlock":
		ex.goal(st, "lock", "unlocks "+shortKey(k)+" only when write-held", c.Eq(cur, c.Int(-1)))
		set(c.Int(0))
	case "RUnlock":
		ex.goal(st, "lock", "read-unlocks "+shortKey(k)+" only when read-held", c.Eq(cur, c.Int(1)))
		set(c.Int(0))
	}
	if op == "Lock" || op == "RLock" {
		hn := ex.heapGet(st, cntK, s)
		ex.hkinds[cntK] = 'g'
		ex.logWrite(cntK, a.ref, s)
		st.heap[cntK] = c.Store(hn, a.ref, c.Add(c.Select(hn, a.ref), c.Int(1)))
	}
}

func shortKey(k string) string { return strings.TrimPrefix(strings.TrimPrefix(k, "L:"), "O:") }

// guardCheck: accesses to lock-protected fields need the lock.
func (ex *Exec) guardCheck(st *State, a *Addr, wr bool) {
	if ex.ct == nil || !ex.ct.locks || ex.inQuant > 0 || !ex.inRepo() {
		return
	}
	c := ex.c
	held := func(lk string, owner *Term) {
		s := SArr(SInt, SInt)
		l := c.Select(ex.heapGet(st, lk, s), owner)
		var p *Term
		if wr {
			p = c.Eq(l, c.Int(-1))
		} else {
			p = c.Not(c.Eq(l, c.Int(0)))
		}
		rw := "read"
		if wr {
			rw = "write"
		}
		ex.goal(st, "lock", rw+" of "+shortKey(a.root)+a.path+" holds "+shortKey(lk), c.Or(p, c.Lt(ex.base0, owner)))
	}
	if a.idx != nil {
		if wr {
			if p, ok := ex.reg.prov[ex][a.ref.id]; ok {
				held(p.lock, p.owner)
			}
		}
		return
	}
	if a.ref.alloc > 0 {
		return
	}
	for f, g := range ex.guards {
		k := a.root + a.path
		if k == f || strings.HasPrefix(k, f+".") {
			held(g.lock, a.ref)
			if _, ok := a.typ.Underlying().(*types.Slice); ok && !wr {
				v := ex.load(st, a, a.typ).(*SliceV)
				if ex.reg.prov[ex] == nil {
					ex.reg.prov[ex] = map[int]prov{}
				}
				ex.reg.prov[ex][v.ref.id] = prov{g.lock, a.ref}
			}
		}
	}
}

type prov struct {
	lock  string
	owner *Term
}

// iteLeaves lists the distinct leaves of a decision DAG with the condition that selects each.
func (ex *Exec) iteLeaves(f *Term) ([]*Term, []*Term) {
	c := ex.c
	var nodes []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "ite" {
			walk(t.args[1])
			walk(t.args[2])
		}
		nodes = append(nodes, t)
	}
	walk(f)
	cond := map[int]*Term{f.id: c.True()}
	add := func(t, g *Term) {
		if o, ok := cond[t.id]; ok {
			cond[t.id] = c.Or(o, g)
		} else {
			cond[t.id] = g
		}
	}
	var ls, cs []*Term
	for i := len(nodes) - 1; i >= 0; i-- {
		t := nodes[i]
		g := cond[t.id]
		if t.op == "ite" {
			add(t.args[1], c.And(g, t.args[0]))
			add(t.args[2], c.And(g, c.Not(t.args[0])))
			continue
		}
		ls = append(ls, t)
		cs = append(cs, g)
	}
	return ls, cs
}

// maxLeaf is the largest value of a decision tree over constants, or -1.
func maxLeaf(t *Term) int64 {
	if t.tree > 0 {
		return max(maxLeaf(t.args[1]), maxLeaf(t.args[2]))
	}
	if t.isConst() && t.ival != nil && t.ival.IsInt64() {
		return t.ival.Int64()
	}
	return 1 << 40
}

// dispatch calls each distinct leaf of a decision DAG under the condition that selects it.
func (ex *Exec) dispatch(f *Term, st *State, cc *ssa.CallCommon, call func(*Term, *State) (Val, *State)) (Val, *State) {
	leaves, conds := ex.iteLeaves(f)
	var sts []*State
	var rs []Val
	rt := resType(cc.Signature())
	for i, lf := range leaves {
		a := st.clone()
		a.guard = ex.c.And(st.guard, conds[i])
		if a.guard.isFalse() {
			continue
		}
		r, sa := call(lf, a)
		if sa == nil || sa.guard.isFalse() {
			ex.cuts++
			continue
		}
		sts = append(sts, sa)
		rs = append(rs, r)
	}
	if len(sts) == 0 {
		s := st.clone()
		s.guard = ex.c.False()
		ex.cuts++
		return ex.fresh("dyn", rt, st), s
	}
	m, gs := ex.mergeStates(sts)
	r := rs[len(rs)-1]
	for j := len(rs) - 2; j >= 0; j-- {
		r = ex.iteVal(gs[j], rs[j], r, rt)
	}
	return r, m
}

// expandSelect turns a read at an unknown index of an array with few known elements into a case distinction.
func (ex *Exec) expandSelect(t *Term) *Term {
	c := ex.c
	if t.op != "select" {
		return t
	}
	a, i := t.args[0], t.args[1]
	n := 0
	for x := a; x.op == "store"; x = x.args[0] {
		if n++; n > 24 {
			return t
		}
	}
	if n == 0 {
		return t
	}
	var f func(a *Term) *Term
	f = func(a *Term) *Term {
		if a.op != "store" {
			return c.Select(a, i)
		}
		return c.Ite(c.Eq(a.args[1], i), a.args[2], f(a.args[0]))
	}
	return f(a)
}
