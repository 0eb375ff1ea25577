package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokLSS = token.LSS
const vpPath = modPath + "/internal/vp"

// intrinsic handles the specification vocabulary (package internal/vp).
func (ex *Exec) intrinsic(name string, fn *ssa.Function, args []Val, st *State) (Val, *State, bool) {
	if !strings.HasPrefix(name, vpPath+".") {
		return nil, nil, false
	}
	c := ex.c
	unit := &TupleV{}
	n := strings.TrimPrefix(name, vpPath+".")
	T := func(i int) *Term { return args[i].(*Term) }
	str := func(i int) string { s, _ := c.strLit(args[i].(*Term)); return s }
	switch n {
	case "Requires":
		if ex.caller != nil {
			ex.goal(st, "requires", "precondition of "+shortFn(ex.stack[len(ex.stack)-1]), T(0))
		} else {
			ex.factG(st, T(0))
			if st.guard.isTrue() && ex.inQuant == 0 {
				ex.learn(T(0))
			}
			if ex.quiet == 0 {
				ex.goals = append(ex.goals, &Goal{name: "precondition satisfiable", kind: "cover", f: st.guard, guard: st.guard, nfacts: len(ex.facts), pos: ex.posStr()})
			}
		}
		return unit, st, true
	case "Ensures", "Assert":
		if ex.caller != nil {
			ex.factG(st, T(1))
		} else {
			ex.goal(st, "ensures", str(0), T(1))
		}
		return unit, st, true
	case "Lemma": // an intermediate obligation: proved, then usable
		ex.goal(st, "ensures", "lemma "+str(0), T(1))
		return unit, st, true
	case "Frozen": // f as of this point of the contract
		fv := *ex.funcOf(args[1])
		fv.frozen = st.clone()
		return &fv, st, true
	case "LoopInv", "Variant":
		fv := ex.funcOf(args[1])
		ex.tmpl = append(ex.tmpl, &template{fn: fv, name: str(0), vart: n == "Variant"})
		return unit, st, true
	case "DropLoopInv":
		ex.tmpl = nil
		return unit, st, true
	case "Imp":
		return c.Imp(T(0), T(1)), st, true
	case "Iff":
		return c.Eq(T(0), T(1)), st, true
	case "And":
		return c.And(T(0), T(1)), st, true
	case "Or":
		return c.Or(T(0), T(1)), st, true
	case "Forall", "Exists":
		lo, hi := T(0), T(1)
		fv := ex.funcOf(args[2])
		b := c.Bound("i", ex.isort())
		ex.inQuant++
		s := st.clone()
		s.guard = c.True()
		r, _ := ex.callFV(fv, []Val{b}, s)
		ex.inQuant--
		rng := c.And(ex.ile(lo, b), ex.ilt(b, hi))
		if n == "Forall" {
			return c.Forall([]*Term{b}, c.Imp(rng, r.(*Term))), st, true
		}
		return c.Exists([]*Term{b}, c.And(rng, r.(*Term))), st, true
	case "Sum", "Count": // a fold over [lo,hi): one-step unfolding at every instance
		lo, hi := T(0), T(1)
		fv := ex.funcOf(args[2])
		b := c.Sym("foldvar", ex.isort())
		ex.inQuant++
		s := st.clone()
		s.guard = c.True()
		r, _ := ex.callFV(fv, []Val{b}, s)
		ex.inQuant--
		body := r.(*Term)
		so, zero := ex.scalarSort(f64), ex.floatC(0)
		add := func(x, y *Term) *Term { return ex.binop(token.ADD, x, y, f64, nil) }
		if n == "Count" {
			body = c.Ite(body, ex.intC(1), ex.intC(0))
			so, zero, add = ex.isort(), ex.intC(0), ex.iadd
		}
		name := fmt.Sprintf("fold_%d_%d", body.id, lo.id)
		at := func(k *Term) *Term {
			if k == lo {
				return zero
			}
			return c.UF(name, so, k)
		}
		S := at(hi)
		if S != zero {
			pr := ex.isub(hi, ex.intC(1))
			ex.fact(c.Imp(ex.ile(hi, lo), c.Eq(S, zero)))
			ex.fact(c.Imp(ex.ilt(lo, hi), c.Eq(S, add(at(pr), c.Subst(body, map[int]*Term{b.id: pr})))))
			if n == "Count" {
				ex.fact(c.Imp(ex.ile(lo, hi), c.And(ex.ile(zero, S), ex.ile(S, ex.isub(hi, lo)))))
			}
		}
		return S, st, true
	case "ForallStr", "ForallFloat", "ForallInt":
		fv := ex.funcOf(args[0])
		so := map[string]Sort{"ForallStr": SStr, "ForallFloat": ex.scalarSort(f64), "ForallInt": ex.isort()}[n]
		b := c.Bound("x", so)
		ex.inQuant++
		s := st.clone()
		s.guard = c.True()
		r, _ := ex.callFV(fv, []Val{b}, s)
		ex.inQuant--
		return c.Forall([]*Term{b}, r.(*Term)), st, true
	case "LeF":
		return ex.fle(T(0), T(1)), st, true
	case "LtF":
		return ex.flt(T(0), T(1)), st, true
	case "EqF":
		if ex.mode == Bits {
			return c.Or(c.app("fp.eq", SBool, T(0), T(1)), c.And(ex.isNaN(T(0)), ex.isNaN(T(1)))), st, true
		}
		return c.Eq(T(0), T(1)), st, true
	case "SameF": // identical float values (NaN = NaN)
		return c.Eq(T(0), T(1)), st, true
	case "Finite":
		if ex.mode == Bits {
			return c.And(c.Not(ex.isNaN(T(0))), c.Not(c.app("fp.isInfinite", SBool, T(0)))), st, true
		}
		return c.True(), st, true
	case "IsNaN":
		return ex.isNaN(T(0)), st, true
	case "Congruent": // a = b + k*m for some integer k
		if ex.mode != Real {
			panic(unsupported("Congruent in bits mode"))
		}
		// K is the number of turns if there is one: witnesses come from the integer terms of the models
		d := c.Sub(T(0), T(1))
		K := c.UF("cong.k", SInt, T(0), T(1), T(2))
		if ex.inQuant == 0 {
			ks := ex.kterms
			if len(ks) > 4 {
				ks = ks[len(ks)-4:]
			}
			nz := c.Not(c.Eq(T(2), c.Real(new(big.Rat))))
			var rec func(i int, w *Term)
			rec = func(i int, w *Term) {
				if i == len(ks) {
					for k := int64(-1); k <= 1; k++ {
						v := c.Add(w, c.Int(k))
						ex.fact(c.Imp(c.And(nz, c.Eq(d, c.Mul(T(2), c.ToReal(v)))), c.Eq(K, v)))
					}
					return
				}
				rec(i+1, w)
				rec(i+1, c.Add(w, ks[i]))
				rec(i+1, c.Sub(w, ks[i]))
			}
			rec(0, c.Int(0))
			ex.kterm(K)
		}
		return c.Eq(d, c.Mul(T(2), c.ToReal(K))), st, true
	case "CloneSlice":
		s := args[0].(*SliceV)
		el := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		r := ex.alloc(st, "snap")
		for _, l := range ex.leaves(el) {
			ea := ex.elemAddr(r, ex.intC(0), el)
			key := ea.key(l.suf)
			if _, ok := ex.hkinds[key]; !ok {
				ex.hkinds[key] = l.kind
			}
			hs := ex.hsort(ea, l)
			h := ex.heapGet(st, key, hs)
			st.heap[key] = c.Store(h, r, c.Select(h, s.ref))
		}
		return &SliceV{r, s.off, s.ln, s.cp}, st, true
	case "Fresh": // pointer allocated during the call
		if t := deref(fn.Signature.Params().At(0).Type()); true {
			if a := ex.asAddr(args[0], t); a != nil && a.ref != nil {
				return c.Lt(ex.base0, a.ref), st, true
			}
		}
		p := ex.ptrTerm(args[0])
		return c.Lt(ex.base0, p), st, true
	case "Any":
		return ex.fresh("any", fn.Signature.Results().At(0).Type(), st), st, true
	case "Modifies":
		if ex.caller != nil {
			t := deref(fn.Signature.Params().At(0).Type())
			ex.caller.mods = append(ex.caller.mods, modTarget{addr: ex.asAddr(args[0], t), typ: t})
		} else {
			t := deref(fn.Signature.Params().At(0).Type())
			ex.frameMods = append(ex.frameMods, modTarget{addr: ex.asAddr(args[0], t), typ: t})
		}
		return unit, st, true
	case "ModifiesAll":
		if ex.caller != nil {
			t := fn.TypeArgs()[0]
			ex.caller.mods = append(ex.caller.mods, modTarget{all: "O:" + ex.typeName(t)})
		} else {
			ex.frameMods = append(ex.frameMods, modTarget{all: "O:" + ex.typeName(fn.TypeArgs()[0])})
		}
		return unit, st, true
	case "LocksReleased":
		ex.locksReleased(st)
		return unit, st, true
	case "OneCritical":
		// each lock was acquired at most once: the call is one critical section
		for k := range ex.allKeys(st) {
			if strings.HasPrefix(k, "N:acq:") {
				h := ex.heapGet(st, k, SArr(SInt, SInt))
				for _, r := range storeIdx(h) {
					ex.goal(st, "lock", "a single critical section on "+shortKey(strings.TrimPrefix(k, "N:acq:")), c.Le(c.Select(h, r), c.Int(1)))
				}
			}
		}
		return unit, st, true
	case "Interfere":
		// the pointed-to atomic location may be changed by other goroutines before each atomic access
		a := ex.asAddr(args[0], deref(fn.Signature.Params().At(0).Type()))
		rc := &relyCell{a: a}
		if len(args) > 1 {
			rc.inv = ex.funcOf(args[1])
		}
		ex.rely = append(ex.rely, rc)
		return unit, st, true
	case "WriteCount":
		a := ex.asAddr(args[0], deref(fn.Signature.Params().At(0).Type()))
		return c.Select(ex.heapGet(st, "N:aw:"+a.root+a.path, SArr(SInt, SInt)), a.ref), st, true
	case "PrevValue", "NewValue":
		a := ex.asAddr(args[0], deref(fn.Signature.Params().At(0).Type()))
		k := "N:ap:"
		if n == "NewValue" {
			k = "N:an:"
		}
		return c.Select(ex.heapGet(st, k+a.root+a.path, SArr(SInt, SIface)), a.ref), st, true
	case "Cancelled":
		return c.Select(ex.heapGet(st, "N:cancelled", SArr(SIface, SBool)), T(0)), st, true
	case "Visited", "VisitedKey", "VisitedCount":
		if ex.iter == nil {
			ex.iterMiss = true
			return ex.zero(fn.Signature.Results().At(0).Type()), st, true
		}
		vis, cnt, seq, _ := ex.iter.get(ex, st)
		switch n {
		case "VisitedCount":
			return cnt, st, true
		case "Visited":
			kt := fn.Signature.Params().At(0).Type()
			ks := ex.flatten(args[0], kt)
			if ks[0].sort != ex.iter.ks && ex.iter.ks == SIface {
				ks = []*Term{ex.box(args[0], kt)}
			}
			if len(ks) != 1 || ks[0].sort != ex.iter.ks {
				ex.iterMiss = true
				return c.False(), st, true
			}
			return c.Select(vis, ks[0]), st, true
		}
		rt := fn.Signature.Results().At(0).Type()
		k := c.Select(seq, T(0))
		if ls := ex.leaves(rt); len(ls) != 1 || ls[0].sort != k.sort {
			ex.iterMiss = true
			return ex.zero(rt), st, true
		}
		return ex.unflatten(rt, []*Term{k}), st, true
	case "SyncMapLen":
		a := ex.asAddr(args[0], deref(fn.Signature.Params().At(0).Type()))
		return ex.loadLeaf(st, a, ex.smLeaf(2)), st, true
	case "SyncMapAll": // every entry satisfies the predicate
		a := ex.asAddr(args[0], deref(fn.Signature.Params().At(0).Type()))
		dom, val := ex.loadLeaf(st, a, ex.smLeaf(0)), ex.loadLeaf(st, a, ex.smLeaf(1))
		fv := ex.funcOf(args[1])
		b := c.Bound("k", SIface)
		ex.inQuant++
		s := st.clone()
		s.guard = c.True()
		r, _ := ex.callFV(fv, []Val{b, c.Select(val, b)}, s)
		ex.inQuant--
		return c.Forall([]*Term{b}, c.Imp(c.Select(dom, b), r.(*Term)), c.app("select", SBool, dom, b)), st, true
	case "PoolHolds":
		ex.poolInv = ex.funcOf(args[1])
		return unit, st, true
	case "Reachable":
		if ex.caller == nil && ex.quiet == 0 {
			ex.goals = append(ex.goals, &Goal{name: "reachable: " + str(0), kind: "cover", f: st.guard, guard: st.guard, nfacts: len(ex.facts), pos: ex.posStr()})
		}
		return unit, st, true
	}
	panic(unsupported("vp.%s", n))
}

// poolOK evaluates the invariant declared with vp.PoolHolds.
func (ex *Exec) poolOK(v Val, st *State) *Term {
	if ex.poolInv == nil {
		panic(unsupported("sync.Pool without vp.PoolHolds"))
	}
	ex.inQuant++
	s := st.clone()
	s.guard = ex.c.True()
	r, _ := ex.callFV(ex.poolInv, []Val{v}, s)
	ex.inQuant--
	return r.(*Term)
}

func storeIdx(h *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var f func(h *Term)
	f = func(h *Term) {
		switch h.op {
		case "store":
			if !seen[h.args[1].id] {
				seen[h.args[1].id] = true
				out = append(out, h.args[1])
			}
			f(h.args[0])
		case "ite":
			f(h.args[1])
			f(h.args[2])
		}
	}
	f(h)
	return out
}

func (ex *Exec) locksReleased(st *State) {
	c := ex.c
	for _, k := range sortedKeys(ex.allKeys(st)) {
		if !strings.HasPrefix(k, "L:") {
			continue
		}
		h := ex.heapGet(st, k, SArr(SInt, SInt))
		for _, r := range storeIdx(h) {
			ex.goal(st, "lock", "releases "+shortKey(k)+" on every return", c.Eq(c.Select(h, r), c.Int(0)))
		}
	}
}

func (ex *Exec) funcOf(v Val) *FuncV {
	switch x := v.(type) {
	case *FuncV:
		return x
	case *Term:
		if f, ok := ex.funcs[x.id]; ok {
			return f
		}
		if strings.HasPrefix(x.op, "uf:box_func") && len(x.args) == 1 {
			if f, ok := ex.funcs[x.args[0].id]; ok {
				return f
			}
		}
	}
	panic(unsupported("not a known function value"))
}

func (ex *Exec) isNaN(x *Term) *Term {
	if ex.mode == Real {
		return ex.c.False()
	}
	if x.isConst() {
		f := fpv(x)
		return ex.c.Bool(f != f)
	}
	return ex.c.app("fp.isNaN", SBool, x)
}

func (ex *Exec) fabs(x *Term) *Term {
	c := ex.c
	if ex.mode == Bits {
		if x.isConst() {
			return c.FP(math.Abs(fpv(x)))
		}
		return c.app("fp.abs", SFP, x)
	}
	if x.isConst() {
		return c.Real(new(big.Rat).Abs(x.rval))
	}
	return c.Ite(c.Le(ex.floatC(0), x), x, c.Neg(x))
}

// fmin / fmax follow math.Min / math.Max (NaN propagates; ±0 ordering is not distinguished in real mode).
func (ex *Exec) fmin(x, y *Term) *Term {
	c := ex.c
	if ex.mode == Real {
		if x.isConst() && y.isConst() {
			if x.rval.Cmp(y.rval) <= 0 {
				return x
			}
			return y
		}
		return c.Ite(c.Le(x, y), x, y)
	}
	if x.isConst() && y.isConst() {
		return c.FP(math.Min(fpv(x), fpv(y)))
	}
	ninf := c.FP(math.Inf(-1))
	zz := c.And(ex.isZero(x), ex.isZero(y))
	neg := c.Or(c.app("fp.isNegative", SBool, x), c.app("fp.isNegative", SBool, y))
	return c.Ite(c.Or(c.app("fp.eq", SBool, x, ninf), c.app("fp.eq", SBool, y, ninf)), ninf,
		c.Ite(c.Or(ex.isNaN(x), ex.isNaN(y)), c.FP(math.NaN()),
			c.Ite(zz, c.Ite(neg, c.FP(math.Copysign(0, -1)), c.FP(0)), c.Ite(ex.flt(x, y), x, y))))
}
func (ex *Exec) isZero(x *Term) *Term { return ex.c.app("fp.isZero", SBool, x) }
func (ex *Exec) fmax(x, y *Term) *Term {
	c := ex.c
	if ex.mode == Real {
		if x.isConst() && y.isConst() {
			if x.rval.Cmp(y.rval) >= 0 {
				return x
			}
			return y
		}
		return c.Ite(c.Le(y, x), x, y)
	}
	if x.isConst() && y.isConst() {
		return c.FP(math.Max(fpv(x), fpv(y)))
	}
	pinf := c.FP(math.Inf(1))
	zz := c.And(ex.isZero(x), ex.isZero(y))
	pos := c.Or(c.Not(c.app("fp.isNegative", SBool, x)), c.Not(c.app("fp.isNegative", SBool, y)))
	return c.Ite(c.Or(c.app("fp.eq", SBool, x, pinf), c.app("fp.eq", SBool, y, pinf)), pinf,
		c.Ite(c.Or(ex.isNaN(x), ex.isNaN(y)), c.FP(math.NaN()),
			c.Ite(zz, c.Ite(pos, c.FP(0), c.FP(math.Copysign(0, -1))), c.Ite(ex.flt(y, x), x, y))))
}

// kterm records an integer term that may count turns in a congruence.
func (ex *Exec) kterm(k *Term) {
	if k.isConst() || ex.inQuant > 0 {
		return
	}
	for _, x := range ex.kterms {
		if x == k {
			return
		}
	}
	ex.kterms = append(ex.kterms, k)
}

func (ex *Exec) pi() *Term { return ex.floatC(math.Pi) }

// mathFn models package math. Transcendentals are uninterpreted with assumed range facts.
func (ex *Exec) mathFn(n string, a []*Term, st *State) *Term {
	c := ex.c
	F := ex.scalarSort(f64)
	z, one := ex.floatC(0), ex.floatC(1)
	trust := func(s string) { ex.assumption("math." + n + ": " + s) }
	finite := func(x *Term) *Term {
		if ex.mode == Real {
			return c.True()
		}
		return c.And(c.Not(ex.isNaN(x)), c.Not(c.app("fp.isInfinite", SBool, x)))
	}
	allConst := ex.mode == Bits
	for _, x := range a {
		if !x.isConst() {
			allConst = false
		}
	}
	if allConst {
		v := func(i int) float64 { return fpv(a[i]) }
		switch n {
		case "Sin":
			return c.FP(math.Sin(v(0)))
		case "Cos":
			return c.FP(math.Cos(v(0)))
		case "Sqrt":
			return c.FP(math.Sqrt(v(0)))
		case "Mod":
			return c.FP(math.Mod(v(0), v(1)))
		case "Floor":
			return c.FP(math.Floor(v(0)))
		case "Log":
			return c.FP(math.Log(v(0)))
		case "Log2":
			return c.FP(math.Log2(v(0)))
		case "Exp":
			return c.FP(math.Exp(v(0)))
		}
	}
	switch n {
	case "Abs":
		return ex.fabs(a[0])
	case "Min":
		return ex.fmin(a[0], a[1])
	case "Max":
		return ex.fmax(a[0], a[1])
	case "IsNaN":
		return ex.isNaN(a[0])
	case "IsInf":
		if ex.mode == Real {
			return c.False()
		}
		inf := c.app("fp.isInfinite", SBool, a[0])
		s := a[1]
		zero := ex.intC(0)
		return c.And(inf, c.Or(c.Eq(s, zero), c.And(ex.ilt(zero, s), ex.flt(z, a[0])), c.And(ex.ilt(s, zero), ex.flt(a[0], z))))
	case "Inf":
		if ex.mode == Bits && a[0].isConst() {
			if bvSigned(a[0].ival, 64).Sign() >= 0 {
				return c.FP(math.Inf(1))
			}
			return c.FP(math.Inf(-1))
		}
		r := c.Sym("realInf", SReal)
		ex.axiom(c.Lt(ex.floatC(math.MaxFloat64), r))
		trust("infinity is a huge number in real mode")
		if a[0].isConst() && a[0].ival.Sign() < 0 {
			return c.Neg(r)
		}
		return r
	case "NaN":
		if ex.mode == Bits {
			return c.FP(math.NaN())
		}
		return c.Fresh("nan", SReal)
	case "Floor", "Ceil", "Trunc", "Round":
		if ex.mode == Bits {
			m := map[string]string{"Floor": "RTN", "Ceil": "RTP", "Trunc": "RTZ", "Round": "RNA"}[n]
			rm := c.mk(&Term{op: "const", sort: "RoundingMode", name: m}, m)
			return c.app("fp.roundToIntegral", SFP, rm, a[0])
		}
		switch n {
		case "Floor":
			ex.kterm(c.ToInt(a[0]))
			return c.ToReal(c.ToInt(a[0]))
		case "Ceil":
			return c.Neg(c.ToReal(c.ToInt(c.Neg(a[0]))))
		case "Trunc":
			return c.Ite(c.Le(z, a[0]), c.ToReal(c.ToInt(a[0])), c.Neg(c.ToReal(c.ToInt(c.Neg(a[0])))))
		default:
			h := c.Real(big.NewRat(1, 2))
			return c.Ite(c.Le(z, a[0]), c.ToReal(c.ToInt(c.Add(a[0], h))), c.Neg(c.ToReal(c.ToInt(c.Add(c.Neg(a[0]), h)))))
		}
	case "Sqrt":
		if ex.mode == Bits {
			return c.app("fp.sqrt", SFP, ex.rm(), a[0])
		}
		if a[0].isConst() && a[0].rval.Sign() == 0 {
			return z
		}
		r := c.UF("m.sqrt", SReal, a[0])
		trust("r >= 0 and r*r = x for x >= 0")
		ex.fact(c.Imp(c.Le(z, a[0]), c.And(c.Le(z, r), c.Eq(c.Mul(r, r), a[0]))))
		return r
	case "Sin", "Cos":
		x := a[0]
		if ex.mode == Real && x.isConst() && x.rval.Sign() == 0 {
			if n == "Sin" {
				return z
			}
			return one
		}
		s := c.UF("m.sin", F, x)
		cs := c.UF("m.cos", F, x)
		trust("result in [-1,1] for finite arguments; sin^2+cos^2 = 1 (real mode)")
		mone := ex.neg(one, f64)
		for _, r := range []*Term{s, cs} {
			ex.fact(c.Imp(finite(x), c.And(ex.fle(mone, r), ex.fle(r, one))))
			if ex.mode == Bits {
				ex.fact(c.Imp(c.Not(finite(x)), ex.isNaN(r)))
			}
		}
		if ex.mode == Real {
			ex.fact(c.Eq(c.Add(c.Mul(s, s), c.Mul(cs, cs)), one))
		}
		if n == "Sin" {
			return s
		}
		return cs
	case "Atan2":
		r := c.UF("m.atan2", F, a[0], a[1])
		trust("result in [-pi,pi]; atan2(sin d, cos d) = d mod 2pi")
		ok := c.And(c.Not(ex.isNaN(a[0])), c.Not(ex.isNaN(a[1])))
		ex.fact(c.Imp(ok, c.And(ex.fle(ex.neg(ex.pi(), f64), r), ex.fle(r, ex.pi()))))
		if ex.mode == Bits {
			ex.fact(c.Imp(c.Not(ok), ex.isNaN(r)))
		} else {
			// atan2(sin d, cos d)
			y, x := a[0], a[1]
			if y.op == "uf:m.sin" && x.op == "uf:m.cos" && y.args[0] == x.args[0] {
				d := y.args[0]
				k := c.UF("m.atan2k", SInt, d)
				ex.kterm(k)
				twopi := ex.floatC(2 * math.Pi)
				ex.fact(c.Eq(r, c.Sub(d, c.Mul(twopi, c.ToReal(k)))))
				ex.fact(c.Lt(c.Neg(ex.pi()), r))
			}
			ex.fact(c.Imp(c.And(c.Eq(y, z), c.Lt(z, x)), c.Eq(r, z)))
			ex.fact(c.Imp(c.Lt(z, y), c.Lt(z, r)))
			ex.fact(c.Imp(c.Lt(y, z), c.Lt(r, z)))
		}
		return r
	case "Mod", "Remainder":
		r := c.UF("m."+strings.ToLower(n), F, a[0], a[1])
		x, y := a[0], a[1]
		if ex.mode == Real {
			k := c.UF("m."+strings.ToLower(n)+"k", SInt, x, y)
			ex.kterm(k)
			trust("r = x - k*y for an integer k, |r| < |y|, sign of x (Mod)")
			nz := c.Not(c.Eq(y, z))
			ex.fact(c.Imp(nz, c.Eq(r, c.Sub(x, c.Mul(y, c.ToReal(k))))))
			ay := ex.fabs(y)
			if n == "Mod" {
				ex.fact(c.Imp(nz, c.And(c.Lt(c.Neg(ay), r), c.Lt(r, ay))))
				ex.fact(c.Imp(c.And(nz, c.Le(z, x)), c.Le(z, r)))
				ex.fact(c.Imp(c.And(nz, c.Le(x, z)), c.Le(r, z)))
			} else {
				ex.fact(c.Imp(nz, c.And(c.Le(c.Neg(ay), c.Add(r, r)), c.Le(c.Add(r, r), ay))))
			}
			return r
		}
		trust("|r| < |y|, sign of x, r = x when |x| < |y|, NaN for non-finite x or y = 0")
		bad := c.Or(c.Not(finite(x)), ex.isNaN(y), ex.isZero(y))
		ex.fact(c.Imp(bad, ex.isNaN(r)))
		good := c.Not(bad)
		ay := ex.fabs(y)
		ex.fact(c.Imp(good, c.And(c.Not(ex.isNaN(r)), ex.flt(ex.fabs(r), ay))))
		if n == "Mod" {
			ex.fact(c.Imp(c.And(good, ex.fle(z, x)), ex.fle(z, r)))
			ex.fact(c.Imp(c.And(good, ex.fle(x, z)), ex.fle(r, z)))
			ex.fact(c.Imp(c.And(good, ex.flt(ex.fabs(x), ay)), c.Eq(r, x)))
			ex.fact(c.Imp(c.And(good, c.app("fp.eq", SBool, ex.fabs(x), ay)), ex.isZero(r)))
		}
		return r
	case "Exp":
		r := c.UF("m.exp", F, a[0])
		trust("positive; at most 1 for x <= 0, at least 1 for x >= 0")
		ok := c.Not(ex.isNaN(a[0]))
		ex.fact(c.Imp(ok, ex.fle(z, r)))
		if ex.mode == Real {
			ex.fact(c.Lt(z, r))
		}
		ex.fact(c.Imp(ex.fle(a[0], z), ex.fle(r, one)))
		ex.fact(c.Imp(ex.fle(z, a[0]), ex.fle(one, r)))
		return r
	case "Log", "Log2", "Log10", "Log1p":
		r := c.UF("m."+strings.ToLower(n), F, a[0])
		trust("sign: >= 0 for x >= 1, <= 0 for 0 < x <= 1")
		ex.fact(c.Imp(ex.fle(one, a[0]), ex.fle(z, r)))
		ex.fact(c.Imp(c.And(ex.flt(z, a[0]), ex.fle(a[0], one)), ex.fle(r, z)))
		return r
	case "Pow":
		r := c.UF("m.pow", F, a[0], a[1])
		trust("non-negative for a non-negative base; in [0,1] for base in [0,1] and exponent >= 0")
		ex.fact(c.Imp(c.And(ex.fle(z, a[0]), ex.fle(z, a[1])), ex.fle(z, r)))
		ex.fact(c.Imp(c.And(ex.fle(z, a[0]), ex.fle(a[0], one), ex.fle(z, a[1])), ex.fle(r, one)))
		return r
	case "Tanh":
		r := c.UF("m.tanh", F, a[0])
		trust("in [-1,1]")
		ex.fact(c.And(ex.fle(ex.neg(one, f64), r), ex.fle(r, one)))
		return r
	case "Hypot":
		if ex.mode == Real {
			return ex.mathFn("Sqrt", []*Term{c.Add(c.Mul(a[0], a[0]), c.Mul(a[1], a[1]))}, st)
		}
	}
	return nil
}

var verbRE = regexp.MustCompile(`%[-+# 0]*[0-9.]*[a-zA-Z%]`)

func (ex *Exec) ifaceArgs(v Val, st *State) ([]*Term, bool) {
	s := v.(*SliceV)
	if !s.ln.isConst() {
		return nil, false
	}
	var out []*Term
	anyT := types.NewInterfaceType(nil, nil)
	for i := int64(0); i < s.ln.ival.Int64(); i++ {
		a := &Addr{root: "E:any", ref: s.ref, idx: ex.iadd(s.off, ex.intC(i)), typ: anyT}
		out = append(out, ex.loadLeaf(st, a, leaf{"", SIface, nil, 'i'}))
	}
	return out, true
}

func (ex *Exec) sprintf(format *Term, va Val, st *State) *Term {
	c := ex.c
	f, lit := c.strLit(format)
	as, ok := ex.ifaceArgs(va, st)
	if !lit || !ok {
		return c.Fresh("sprintf", SStr)
	}
	if len(as) == 0 {
		return c.Str(f)
	}
	nm := "sprintf_" + sanitize(f)
	r := c.UF(nm, SStr, as...)
	verbs := verbRE.FindAllString(f, -1)
	var bs []*Term
	for range as {
		bs = append(bs, c.Bound("x", SIface))
	}
	rb := c.UF(nm, SStr, bs...)
	if len(as) == 1 && len(verbs) == 1 && (verbs[0] == "%d" || verbs[0] == "%s") {
		ex.assumption("fmt.Sprintf with a single %d/%s verb is injective")
		if ex.inQuant == 0 {
			ex.fact(c.Eq(c.UF("un"+nm, SIface, r), as[0]))
		} else {
			ex.axiom(c.Forall(bs, c.Eq(c.UF("un"+nm, SIface, rb), bs[0]), rb))
		}
	}
	if f != "" && !strings.HasPrefix(f, "%") {
		if ex.inQuant == 0 {
			ex.fact(c.Not(c.Eq(r, c.Str(""))))
		} else {
			ex.axiom(c.Forall(bs, c.Not(c.Eq(rb, c.Str(""))), rb))
		}
	}
	return r
}

func (ex *Exec) mkErr(st *State, kind string) *Term {
	r := ex.alloc(st, "err")
	nm := "box_error_" + kind
	if _, ok := ex.boxTags[nm]; !ok {
		n := len(ex.tags) + 1
		ex.tags["error:"+kind] = n
		ex.boxTags[nm] = n
	}
	b := ex.c.UF(nm, SIface, r)
	ex.axiom(ex.c.Eq(ex.c.UF("itag", SInt, b), ex.c.Int(int64(ex.boxTags[nm]))))
	ex.axiom(ex.c.Eq(ex.c.UF("un"+nm, SInt, b), r))
	ex.axiom(ex.c.Not(ex.c.Eq(b, ex.inil())))
	return b
}

func (ex *Exec) errIs(e, t *Term) *Term {
	c := ex.c
	if e.op == "ite" {
		return c.Ite(e.args[0], ex.errIs(e.args[1], t), ex.errIs(e.args[2], t))
	}
	if w, ok := ex.reg.wraps[ex][e.id]; ok {
		return c.Or(c.Eq(e, t), ex.errIs(w, t))
	}
	if e.op == "uf:box_error_new" || (e.op == "sym" && e.name == "inil") {
		return c.Eq(e, t)
	}
	r := c.UF("errIs", SBool, e, t)
	ex.fact(c.Imp(c.Eq(e, t), r))
	ex.fact(c.Imp(c.Eq(e, ex.inil()), c.Eq(r, c.Eq(t, ex.inil()))))
	return r
}

func (ex *Exec) smLeaf(i int) leaf {
	l := []leaf{{".dom", SArr(SIface, SBool), nil, 'g'}, {".val", SArr(SIface, SIface), nil, 'g'}, {".cnt", ex.isort(), nil, 'n'}}
	return l[i]
}

// interfere applies the effect of other goroutines on an atomic location before an access.
func (ex *Exec) interfere(st *State, a *Addr) {
	for _, rc := range ex.rely {
		if rc.a.root == a.root && rc.a.path == a.path {
			ts := ex.leaves(a.typ)
			for _, l := range ts {
				v := ex.c.Fresh("env", l.sort)
				if l.kind == 'i' {
					ex.fact(ex.c.Not(ex.c.Eq(v, ex.inil())))
				}
				n := ex.c.Ite(ex.c.Eq(a.ref, rc.a.ref), v, ex.loadLeaf(st, a, l))
				ex.storeLeaf(st, a, l, n)
				if rc.inv != nil {
					ex.fact(ex.evalPure(rc.inv, []Val{v}, st))
				}
			}
		}
	}
}

func (ex *Exec) atomicWrote(st *State, a *Addr, prev, nw *Term, cond *Term) {
	if len(ex.rely) == 0 || prev.sort != SIface {
		return
	}
	c := ex.c
	upd := func(k string, s Sort, v *Term) {
		k += a.root + a.path
		so := SArr(SInt, s)
		ex.hkinds[k] = 'g'
		h := ex.heapGet(st, k, so)
		ex.logWrite(k, a.ref, so)
		st.heap[k] = c.Store(h, a.ref, c.Ite(cond, v, c.Select(h, a.ref)))
	}
	upd("N:ap:", SIface, prev)
	upd("N:an:", SIface, nw)
	k := "N:aw:" + a.root + a.path
	so := SArr(SInt, SInt)
	ex.hkinds[k] = 'g'
	h := ex.heapGet(st, k, so)
	ex.logWrite(k, a.ref, so)
	st.heap[k] = c.Store(h, a.ref, c.Add(c.Select(h, a.ref), c.Ite(cond, c.Int(1), c.Int(0))))
}

// model gives the semantics of library functions.
func (ex *Exec) model(name string, fn *ssa.Function, args []Val, st *State) (Val, *State, bool) {
	c := ex.c
	unit := &TupleV{}
	T := func(i int) *Term { return args[i].(*Term) }
	A := func(i int) *Addr { return ex.asAddr(args[i], deref(fn.Signature.Recv().Type())) }
	P := func(i int) *Addr { return ex.asAddr(args[i], deref(fn.Signature.Params().At(i).Type())) }
	if strings.HasPrefix(name, "math.") {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		if r := ex.mathFn(strings.TrimPrefix(name, "math."), ts, st); r != nil {
			return r, st, true
		}
		return nil, nil, false
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		ex.lockOp(A(0), name[strings.LastIndex(name, ".")+1:], st)
		return unit, st, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return unit, st, true
	case "(*sync/atomic.Value).Load":
		a := A(0)
		ex.interfere(st, a)
		return ex.load(st, a, a.typ).(*StructV).f[0], st, true
	case "(*sync/atomic.Value).Store":
		a := A(0)
		ex.interfere(st, a)
		prev := ex.load(st, a, a.typ).(*StructV).f[0].(*Term)
		ex.goal(st, "safety", "atomic.Value.Store of nil", c.Not(c.Eq(T(1), ex.inil())))
		ex.store(st, a, &StructV{[]Val{T(1)}}, a.typ)
		ex.atomicWrote(st, a, prev, T(1), c.True())
		return unit, st, true
	case "(*sync/atomic.Value).CompareAndSwap":
		a := A(0)
		ex.interfere(st, a)
		prev := ex.load(st, a, a.typ).(*StructV).f[0].(*Term)
		ok := c.Eq(prev, T(1))
		ex.store(st, a, &StructV{[]Val{c.Ite(ok, T(2), prev)}}, a.typ)
		ex.atomicWrote(st, a, prev, T(2), ok)
		return ok, st, true
	case "(*sync/atomic.Value).Swap":
		a := A(0)
		ex.interfere(st, a)
		prev := ex.load(st, a, a.typ).(*StructV).f[0].(*Term)
		ex.store(st, a, &StructV{[]Val{T(1)}}, a.typ)
		ex.atomicWrote(st, a, prev, T(1), c.True())
		return prev, st, true
	case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64":
		return ex.load(st, P(0), P(0).typ), st, true
	case "sync/atomic.StoreInt32", "sync/atomic.StoreInt64":
		ex.store(st, P(0), args[1], P(0).typ)
		return unit, st, true
	case "sync/atomic.AddInt32", "sync/atomic.AddInt64":
		a := P(0)
		v := ex.binop(token.ADD, ex.load(st, a, a.typ).(*Term), T(1), a.typ, st)
		ex.store(st, a, v, a.typ)
		return v, st, true
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		r := ex.fresh("ncpu", types.Typ[types.Int], st).(*Term)
		ex.fact(ex.ile(ex.intC(1), r))
		ex.assumption("runtime.NumCPU >= 1")
		return r, st, true
	case "errors.New":
		return ex.mkErr(st, "new"), st, true
	case "errors.Is":
		return ex.errIs(T(0), T(1)), st, true
	case "fmt.Errorf":
		e := ex.mkErr(st, "errorf")
		if f, ok := c.strLit(T(0)); ok && strings.Contains(f, "%w") {
			if as, ok := ex.ifaceArgs(args[1], st); ok {
				vs := verbRE.FindAllString(f, -1)
				j := 0
				for _, v := range vs {
					if v == "%%" {
						continue
					}
					if v == "%w" && j < len(as) {
						if ex.reg.wraps[ex] == nil {
							ex.reg.wraps[ex] = map[int]*Term{}
						}
						ex.reg.wraps[ex][e.id] = as[j]
						break
					}
					j++
				}
			}
		}
		return e, st, true
	case "fmt.Sprintf":
		return ex.sprintf(T(0), args[1], st), st, true
	case "time.Now":
		r := ex.fresh("now", types.Typ[types.Int64], st).(*Term)
		k := "N:now"
		so := SArr(SInt, ex.isort())
		h := ex.heapGet(st, k, so)
		ex.fact(ex.ile(c.Select(h, c.Int(1)), r))
		if ex.mode == Real {
			ex.fact(c.Le(c.Int(1), r))
		} else {
			ex.fact(ex.ilt(ex.intC(0), r))
		}
		ex.logWrite(k, c.Int(1), so)
		st.heap[k] = c.Store(h, c.Int(1), r)
		ex.assumption("time.Now is non-decreasing")
		return &StructV{[]Val{r}}, st, true
	case "time.Since":
		n, st2, _ := ex.model("time.Now", fn, nil, st)
		return ex.binop(token.SUB, n.(*StructV).f[0].(*Term), args[0].(*StructV).f[0].(*Term), types.Typ[types.Int64], st2), st2, true
	case "(time.Time).Sub":
		return ex.binop(token.SUB, args[0].(*StructV).f[0].(*Term), args[1].(*StructV).f[0].(*Term), types.Typ[types.Int64], st), st, true
	case "(time.Time).Add":
		return &StructV{[]Val{ex.binop(token.ADD, args[0].(*StructV).f[0].(*Term), T(1), types.Typ[types.Int64], st)}}, st, true
	case "(time.Time).After":
		return ex.ilt(args[1].(*StructV).f[0].(*Term), args[0].(*StructV).f[0].(*Term)), st, true
	case "(time.Time).Before":
		return ex.ilt(args[0].(*StructV).f[0].(*Term), args[1].(*StructV).f[0].(*Term)), st, true
	case "(time.Time).IsZero":
		return c.Eq(args[0].(*StructV).f[0].(*Term), ex.intC(0)), st, true
	case "(time.Duration).Seconds":
		x := ex.convert(T(0), types.Typ[types.Int64], f64)
		ex.assumption("Duration.Seconds is ns/1e9 up to rounding")
		return ex.binop(token.QUO, x, ex.floatC(1e9), f64, st), st, true
	case "(time.Duration).Milliseconds":
		return ex.binop(token.QUO, T(0), ex.intC(1000000), types.Typ[types.Int64], st), st, true
	case "time.Sleep":
		return unit, st, true
	case "(*sync.Pool).Get":
		ex.assumption("sync.Pool.Get: returns the result of New or an item put before, which satisfied the pool's invariant when it was put and was not touched since")
		a := ex.asAddr(args[0], deref(fn.Signature.Recv().Type()))
		ex.nilCheck(st, a, "")
		nf := ex.funcOf(ex.loadLeaf(st, a, leaf{".New", SInt, nil, 'f'}))
		reuse := c.Fresh("reused", SBool)
		s1, s2 := st.clone(), st.clone()
		s1.guard, s2.guard = c.And(st.guard, reuse), c.And(st.guard, c.Not(reuse))
		anyT := types.NewInterfaceType(nil, nil)
		v := ex.fresh("pooled", anyT, s1)
		ex.fact(c.Imp(s1.guard, ex.poolOK(v, s1)))
		w, s3 := ex.callFV(nf, nil, s2)
		m, gs := ex.mergeStates([]*State{s1, s3})
		return ex.iteVal(gs[0], v, w, anyT), m, true
	case "(*sync.Pool).Put":
		ex.goal(st, "requires", "what is put into the pool satisfies its invariant", ex.poolOK(args[1], st))
		return unit, st, true
	case "(*sync.Map).Load":
		a := A(0)
		ex.guardCheck(st, a, false)
		dom := ex.loadLeaf(st, a, ex.smLeaf(0))
		val := ex.loadLeaf(st, a, ex.smLeaf(1))
		ok := c.Select(dom, T(1))
		return &TupleV{[]Val{c.Ite(ok, c.Select(val, T(1)), ex.inil()), ok}}, st, true
	case "(*sync.Map).Store":
		a := A(0)
		dom := ex.loadLeaf(st, a, ex.smLeaf(0))
		val := ex.loadLeaf(st, a, ex.smLeaf(1))
		cnt := ex.loadLeaf(st, a, ex.smLeaf(2))
		had := c.Select(dom, T(1))
		ex.storeLeaf(st, a, ex.smLeaf(0), c.Store(dom, T(1), c.True()))
		ex.storeLeaf(st, a, ex.smLeaf(1), c.Store(val, T(1), T(2)))
		ex.storeLeaf(st, a, ex.smLeaf(2), c.Ite(had, cnt, ex.iadd(cnt, ex.intC(1))))
		return unit, st, true
	case "(*sync.Map).Delete":
		a := A(0)
		dom := ex.loadLeaf(st, a, ex.smLeaf(0))
		cnt := ex.loadLeaf(st, a, ex.smLeaf(2))
		had := c.Select(dom, T(1))
		ex.storeLeaf(st, a, ex.smLeaf(0), c.Store(dom, T(1), c.False()))
		ex.storeLeaf(st, a, ex.smLeaf(2), c.Ite(had, ex.isub(cnt, ex.intC(1)), cnt))
		return unit, st, true
	case "(*sync.Map).Range":
		return unit, ex.syncMapRange(A(0), args[1], st), true
	case "go.uber.org/atomic.NewFloat64":
		r := ex.alloc(st, "af")
		a := ex.asAddr(r, deref(fn.Signature.Results().At(0).Type()))
		ex.store(st, a, &StructV{[]Val{T(0)}}, a.typ)
		return r, st, true
	case "context.WithCancel", "context.WithTimeout":
		return &TupleV{[]Val{ex.freshCtx(st, T(0)), ex.fresh("cancel", fn.Signature.Results().At(1).Type(), st)}}, st, true
	case "time.NewTicker", "time.NewTimer":
		if name == "time.NewTicker" {
			ex.goal(st, "safety", "ticker interval positive", ex.ilt(ex.intC(0), T(0)))
		}
		r := ex.alloc(st, "tick")
		return r, st, true
	case "(*time.Ticker).Reset":
		ex.goal(st, "safety", "ticker interval positive", ex.ilt(ex.intC(0), T(1)))
		return unit, st, true
	case "(*time.Ticker).Stop", "(*time.Timer).Stop":
		if fn.Signature.Results().Len() == 0 {
			return unit, st, true
		}
		return c.Fresh("stop", SBool), st, true
	case "crypto/rand.Read":
		s := args[0].(*SliceV)
		el := types.Typ[types.Byte]
		ea := ex.elemAddr(s.ref, ex.intC(0), el)
		l := ex.leaves(el)[0]
		key := ea.key("")
		hs := ex.hsort(ea, l)
		_, as := hs.splitArr()
		ex.hkinds[key] = 'v'
		ex.logWrite(key, s.ref, hs)
		st.heap[key] = c.Store(ex.heapGet(st, key, hs), s.ref, c.Fresh("rnd", as))
		ex.assumption("crypto/rand.Read: arbitrary bytes, never returns an error (documented since Go 1.24)")
		return &TupleV{[]Val{s.ln, ex.inil()}}, st, true
	case "(encoding/binary.littleEndian).Uint64", "(encoding/binary.bigEndian).Uint64", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.bigEndian).Uint32":
		s := args[1].(*SliceV)
		n := int64(8)
		if strings.HasSuffix(name, "32") {
			n = 4
		}
		ex.goal(st, "safety", "byte slice long enough", ex.ile(ex.intC(n), s.ln))
		ex.assumption("encoding/binary: decoded integer arbitrary")
		return ex.fresh("u", fn.Signature.Results().At(0).Type(), st), st, true
	}
	if o := fn.Origin(); o != nil || fn.Signature.Recv() != nil {
		if r, s, ok := ex.methodModel(name, fn, args, st); ok {
			return r, s, true
		}
	}
	return nil, nil, false
}

func (ex *Exec) freshCtx(st *State, parent *Term) *Term {
	r := ex.alloc(st, "ctx")
	nm := "box_ctx"
	if _, ok := ex.boxTags[nm]; !ok {
		n := len(ex.tags) + 1
		ex.tags["ctx"] = n
		ex.boxTags[nm] = n
	}
	b := ex.c.UF(nm, SIface, r)
	ex.axiom(ex.c.Eq(ex.c.UF("itag", SInt, b), ex.c.Int(int64(ex.boxTags[nm]))))
	return b
}

// methodModel: atomic scalars and the deque.
func (ex *Exec) methodModel(name string, fn *ssa.Function, args []Val, st *State) (Val, *State, bool) {
	c := ex.c
	unit := &TupleV{}
	recv := fn.Signature.Recv()
	if recv == nil {
		if strings.HasPrefix(name, "github.com/gammazero/deque.New") {
			r := ex.alloc(st, "deque")
			t := deref(fn.Signature.Results().At(0).Type())
			a := ex.asAddr(r, t)
			ex.store(st, a, ex.zero(t), t)
			return r, st, true
		}
		return nil, nil, false
	}
	pt, ok := recv.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, false
	}
	named, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || named.Obj().Pkg() == nil {
		return nil, nil, false
	}
	tn := named.Obj().Pkg().Path() + "." + named.Obj().Name()
	m := fn.Name()
	T := func(i int) *Term { return args[i].(*Term) }
	switch tn {
	case "sync/atomic.Int64", "sync/atomic.Int32", "sync/atomic.Uint64", "sync/atomic.Uint32", "sync/atomic.Bool", "go.uber.org/atomic.Float64", "sync/atomic.Pointer":
		a := ex.asAddr(args[0], pt.Elem())
		ex.nilCheck(st, a, "")
		ex.guardCheck(st, a, m != "Load")
		l := ex.leaves(pt.Elem())[0]
		cur := ex.loadLeaf(st, a, l)
		switch m {
		case "Load":
			ex.leafFact(cur, l, st)
			return cur, st, true
		case "Store":
			ex.storeLeaf(st, a, l, ex.flatArg(args[1]))
			return unit, st, true
		case "Swap":
			ex.storeLeaf(st, a, l, ex.flatArg(args[1]))
			return cur, st, true
		case "Add":
			v := ex.binop(token.ADD, cur, T(1), l.typ, st)
			ex.storeLeaf(st, a, l, v)
			return v, st, true
		case "CompareAndSwap", "CAS":
			ok := c.Eq(cur, ex.flatArg(args[1]))
			ex.storeLeaf(st, a, l, c.Ite(ok, ex.flatArg(args[2]), cur))
			return ok, st, true
		}
	case "github.com/gammazero/deque.Deque":
		a := ex.asAddr(args[0], pt.Elem())
		ex.nilCheck(st, a, "")
		ls := ex.leaves(pt.Elem())
		arr, front, ln := ex.loadLeaf(st, a, ls[0]), ex.loadLeaf(st, a, ls[1]), ex.loadLeaf(st, a, ls[2])
		ex.fact(ex.ile(ex.intC(0), ln))
		ex.fact(ex.ile(ln, ex.intC(1<<40)))
		ex.fact(ex.ile(ex.intC(0), front))
		ex.fact(ex.ile(front, ex.intC(1<<40)))
		ex.assumption("gammazero/deque: a sequence with PushBack/PopFront/At/Back/Front/Len (panics when empty or out of range)")
		switch m {
		case "Len":
			return ln, st, true
		case "PushBack":
			ex.storeLeaf(st, a, ls[0], c.Store(arr, ex.iadd(front, ln), T(1)))
			ex.storeLeaf(st, a, ls[2], ex.iadd(ln, ex.intC(1)))
			return unit, st, true
		case "PopFront":
			ex.goal(st, "safety", "PopFront on empty deque", ex.ilt(ex.intC(0), ln))
			v := c.Select(arr, front)
			ex.storeLeaf(st, a, ls[1], ex.iadd(front, ex.intC(1)))
			ex.storeLeaf(st, a, ls[2], ex.isub(ln, ex.intC(1)))
			return v, st, true
		case "PopBack":
			ex.goal(st, "safety", "PopBack on empty deque", ex.ilt(ex.intC(0), ln))
			v := c.Select(arr, ex.isub(ex.iadd(front, ln), ex.intC(1)))
			ex.storeLeaf(st, a, ls[2], ex.isub(ln, ex.intC(1)))
			return v, st, true
		case "Back":
			ex.goal(st, "safety", "Back on empty deque", ex.ilt(ex.intC(0), ln))
			return c.Select(arr, ex.isub(ex.iadd(front, ln), ex.intC(1))), st, true
		case "Front":
			ex.goal(st, "safety", "Front on empty deque", ex.ilt(ex.intC(0), ln))
			return c.Select(arr, front), st, true
		case "At":
			ex.goal(st, "safety", "deque index", c.And(ex.ile(ex.intC(0), T(1)), ex.ilt(T(1), ln)))
			return c.Select(arr, ex.iadd(front, T(1))), st, true
		case "Clear":
			ex.storeLeaf(st, a, ls[2], ex.intC(0))
			return unit, st, true
		}
	}
	return nil, nil, false
}

func (ex *Exec) flatArg(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	default:
		return ex.ptrTerm(x)
	}
}

// syncMapRange runs the callback as the body of a loop over the entries.
func (ex *Exec) syncMapRange(a *Addr, f Val, st *State) *State {
	c := ex.c
	fv := ex.funcOf(f)
	dom0 := ex.loadLeaf(st, a, ex.smLeaf(0))
	if keys, ok := knownKeys(dom0); ok && len(keys) == 0 {
		return st
	}
	ex.assumption("sync.Map.Range: visits each present key at most once, all of them if the callback keeps returning true and the map is not modified meanwhile")
	ex.niter++
	st = st.clone()
	g := ex.newIterGhost(st, sprintf("I:%d:syncmap", ex.niter), SIface)

	body := func(s *State) (cont *State, stop *State, done *State) {
		dom := ex.loadLeaf(s, a, ex.smLeaf(0))
		val := ex.loadLeaf(s, a, ex.smLeaf(1))
		cnt := ex.loadLeaf(s, a, ex.smLeaf(2))
		g.facts(ex, s)
		vis, n, _, _ := g.get(ex, s)
		more := c.Fresh("more", SBool)
		k := c.Fresh("key", SIface)
		b := c.Bound("k", SIface)
		ex.factG(s, c.Imp(more, c.And(c.Select(dom, k), c.Not(c.Select(vis, k)), ex.ilt(n, cnt))))
		ex.factG(s, c.Imp(c.Not(more), c.And(c.Forall([]*Term{b}, c.Imp(c.Select(dom, b), c.Select(vis, b))), c.Eq(n, cnt))))
		ex.leafFact(k, leaf{kind: 'i', sort: SIface}, s)
		ex.cuts++
		done = s.clone()
		done.guard = c.And(s.guard, c.Not(more))
		it := s.clone()
		it.guard = c.And(s.guard, more)
		g.visit(ex, it, k, c.True())
		v := c.Select(val, k)
		ex.leafFact(v, leaf{kind: 'i', sort: SIface}, it)
		r, s2 := ex.callStatic(fv, []Val{k, v}, it)
		rt := r.(*Term)
		cont = s2.clone()
		cont.guard = c.And(s2.guard, rt)
		stop = s2.clone()
		stop.guard = c.And(s2.guard, c.Not(rt))
		return
	}
	mods, _ := ex.dryMods(nil, st, func(m map[string]*modClass) {
		s := ex.havocMods(st, m)
		body(s)
	}, nil)
	h := ex.havocMods(st, mods)
	vars := ex.cellVars(mods, st, h)
	// the number of visited entries is itself a loop variable
	cntVar := &lvar{name: "visited", typ: types.Typ[types.Int]}
	_, n0, _, _ := g.get(ex, st)
	_, nh, _, _ := g.get(ex, h)
	cntVar.init, cntVar.head = n0, nh
	vars = append(vars, cntVar)
	li := &loopInst{ex: ex, name: "sync.Map.Range in " + shortFn(ex.stack[len(ex.stack)-1]), st0: st, st: h, vars: vars, mods: mods, iter: g,
		bounds: []*Term{ex.loadLeaf(st, a, ex.smLeaf(2))}}
	ex.fact(ex.ile(ex.intC(0), ex.loadLeaf(st, a, ex.smLeaf(2))))
	for i, fr := range fv.fn.FreeVars {
		if i >= len(fv.binds) {
			break
		}
		pt, ok := fr.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		ca := ex.asAddr(fv.binds[i], pt.Elem())
		known := false
		for _, v := range vars {
			known = known || v.cell != nil && v.cell.root == ca.root && v.cell.ref == ca.ref
		}
		if !known {
			li.extra = append(li.extra, constVar(fr.Name(), pt.Elem(), ex.load(h, ca, pt.Elem())))
		}
	}
	li.candidates()
	cont, stop, done := body(h.clone())
	for _, v := range vars {
		if v.cell != nil {
			v.back = append(v.back, ex.load(cont, v.cell, v.typ))
		} else {
			_, nb, _, _ := g.get(ex, cont)
			v.back = append(v.back, nb)
		}
	}
	if !cont.guard.isFalse() {
		li.preserve([]outEdge{{st: cont}})
	}
	var outs []*State
	for _, s := range []*State{done, stop} {
		if !s.guard.isFalse() {
			outs = append(outs, s)
		}
	}
	m, _ := ex.mergeStates(outs)
	return m
}

func knownKeys(dom *Term) ([]*Term, bool) {
	var ks []*Term
	for dom.op == "store" {
		ks = append(ks, dom.args[1])
		dom = dom.args[0]
	}
	if dom.op == "constarr" && dom.args[0].isFalse() {
		return ks, true
	}
	return nil, false
}

// ifaceModel: library interfaces.
func (ex *Exec) ifaceModel(iname string, recv *Term, args []Val, st *State, cc *ssa.CallCommon) (Val, *State, bool) {
	c := ex.c
	switch iname {
	case "context.Context.Done":
		return c.UF("ctxdone", SInt, recv), st, true
	case "context.Context.Err":
		h := ex.heapGet(st, "N:cancelled", SArr(SIface, SBool))
		e := ex.fresh("ctxerr", cc.Signature().Results().At(0).Type(), st).(*Term)
		ex.factG(st, c.Imp(c.Select(h, recv), c.Not(c.Eq(e, ex.inil()))))
		ex.assumption("context: Err() is non-nil once Done() was received")
		return e, st, true
	case "error.Error":
		return c.UF("errstr", SStr, recv), st, true
	}
	return nil, nil, false
}

// learn notes the unit facts of a precondition: branches on them are decided.
func (ex *Exec) learn(t *Term) {
	if ex.units == nil {
		ex.units = map[int]bool{}
	}
	for _, x := range conj(t) {
		if os.Getenv("GVC_LEARN") != "" {
			fmt.Println("LEARN", x.op, x.id, fmt.Sprintf("%.300s", ex.c.Show(x)))
		}
		if x.op == "not" {
			ex.units[x.args[0].id] = false
		} else {
			ex.units[x.id] = true
		}
	}
}

func (ex *Exec) decide(cond *Term) *Term {
	if v, ok := ex.units[cond.id]; ok {
		return ex.c.Bool(v)
	}
	if cond.op == "not" {
		if v, ok := ex.units[cond.args[0].id]; ok {
			return ex.c.Bool(!v)
		}
	}
	return cond
}
