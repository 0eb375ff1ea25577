package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// Mode selects the numeric interpretation of a contract.
//
//	real: Go integers are mathematical integers, floats are mathematical reals (finite, no rounding)
//	bits: Go integers are bit vectors of their exact width, floats are IEEE-754 binary64
type Mode int

const (
	Real Mode = iota
	Bits
)

func (m Mode) String() string {
	if m == Bits {
		return "bits"
	}
	return "real"
}

func intWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}
func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func (ex *Exec) scalarSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Info()&types.IsFloat != 0:
		if ex.mode == Bits {
			return SFP
		}
		return SReal
	case b.Info()&types.IsInteger != 0:
		if ex.mode == Bits {
			w, _ := intWidth(b)
			return SBV(w)
		}
		return SInt
	case b.Kind() == types.UnsafePointer, b.Kind() == types.UntypedNil:
		return SInt
	}
	panic(unsupported("basic type %s", b))
}

// isort is the sort of Go int.
func (ex *Exec) isort() Sort {
	if ex.mode == Bits {
		return SBV(64)
	}
	return SInt
}

func (ex *Exec) intC(v int64) *Term {
	if ex.mode == Bits {
		return ex.c.BV(big.NewInt(v), 64)
	}
	return ex.c.Int(v)
}

func (ex *Exec) floatC(f float64) *Term {
	if ex.mode == Bits {
		return ex.c.FP(f)
	}
	if math.IsInf(f, 0) || f != f {
		panic(unsupported("infinite or NaN constant in real mode"))
	}
	return ex.c.Real(new(big.Rat).SetFloat64(f))
}

func (ex *Exec) constTerm(v constant.Value, t types.Type) *Term {
	b := basicOf(t)
	if b == nil {
		panic(unsupported("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ex.c.Bool(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		return ex.c.Str(constant.StringVal(v))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(v))
		return ex.floatC(f)
	case b.Info()&types.IsInteger != 0:
		x := constant.ToInt(v)
		bi := new(big.Int)
		bi.SetString(x.ExactString(), 10)
		if ex.mode == Bits {
			w, _ := intWidth(b)
			return ex.c.BV(bi, w)
		}
		return ex.c.IntBig(bi)
	}
	panic(unsupported("constant %v of type %s", v, t))
}

// wrap reduces a mathematical result to the range of narrow or unsigned integer types (real mode).
func (ex *Exec) wrap(r *Term, b *types.Basic) *Term {
	w, signed := intWidth(b)
	if signed && w == 64 {
		return r
	}
	c := ex.c
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	if !signed {
		if r.isConst() {
			return c.IntBig(new(big.Int).Mod(r.ival, m))
		}
		in := c.And(c.Le(c.Int(0), r), c.Lt(r, c.IntBig(m)))
		return c.Ite(in, r, c.app("mod", SInt, r, c.IntBig(m)))
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	lo := new(big.Int).Neg(h)
	if r.isConst() && r.ival.Cmp(lo) >= 0 && r.ival.Cmp(h) < 0 {
		return r
	}
	in := c.And(c.Le(c.IntBig(lo), r), c.Lt(r, c.IntBig(h)))
	wr := c.app("-", SInt, c.app("mod", SInt, c.Add(r, c.IntBig(h)), c.IntBig(m)), c.IntBig(h))
	return c.Ite(in, r, wr)
}

func fpv(t *Term) float64 { return math.Float64frombits(t.fval) }

func (ex *Exec) rm() *Term {
	return ex.c.mk(&Term{op: "const", sort: "RoundingMode", name: "RNE"}, "RNE")
}

func bvSigned(v *big.Int, w int) *big.Int {
	h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	if v.Cmp(h) >= 0 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

// binop implements Go binary operators on scalars.
func (ex *Exec) binop(op token.Token, x, y *Term, t types.Type, st *State) *Term {
	c := ex.c
	b := basicOf(t)
	if b == nil {
		// pointers, channels, interfaces
		switch op {
		case token.EQL:
			return c.Eq(x, y)
		case token.NEQ:
			return c.Not(c.Eq(x, y))
		}
		panic(unsupported("binop %s on %s", op, t))
	}
	inf := b.Info()
	switch {
	case inf&types.IsBoolean != 0:
		switch op {
		case token.EQL:
			return c.Eq(x, y)
		case token.NEQ:
			return c.Not(c.Eq(x, y))
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	case inf&types.IsString != 0:
		switch op {
		case token.EQL:
			return c.Eq(x, y)
		case token.NEQ:
			return c.Not(c.Eq(x, y))
		case token.ADD:
			if a, ok := c.strLit(x); ok {
				if bb, ok := c.strLit(y); ok {
					return c.Str(a + bb)
				}
			}
			return c.UF("strcat", SStr, x, y)
		case token.LSS:
			return c.UF("strlt", SBool, x, y)
		case token.GTR:
			return c.UF("strlt", SBool, y, x)
		case token.LEQ:
			return c.Not(c.UF("strlt", SBool, y, x))
		case token.GEQ:
			return c.Not(c.UF("strlt", SBool, x, y))
		}
	case inf&types.IsFloat != 0:
		if ex.mode == Real {
			switch op {
			case token.ADD:
				return c.Add(x, y)
			case token.SUB:
				return c.Sub(x, y)
			case token.MUL:
				return c.Mul(x, y)
			case token.QUO:
				return ex.realDiv(x, y, st)
			case token.EQL:
				return c.Eq(x, y)
			case token.NEQ:
				return c.Not(c.Eq(x, y))
			case token.LSS:
				return c.Lt(x, y)
			case token.LEQ:
				return c.Le(x, y)
			case token.GTR:
				return c.Lt(y, x)
			case token.GEQ:
				return c.Le(y, x)
			}
		} else {
			if x.isConst() && y.isConst() {
				a, bb := fpv(x), fpv(y)
				switch op {
				case token.ADD:
					return c.FP(a + bb)
				case token.SUB:
					return c.FP(a - bb)
				case token.MUL:
					return c.FP(a * bb)
				case token.QUO:
					return c.FP(a / bb)
				case token.EQL:
					return c.Bool(a == bb)
				case token.NEQ:
					return c.Bool(a != bb)
				case token.LSS:
					return c.Bool(a < bb)
				case token.LEQ:
					return c.Bool(a <= bb)
				case token.GTR:
					return c.Bool(a > bb)
				case token.GEQ:
					return c.Bool(a >= bb)
				}
			}
			switch op {
			case token.ADD:
				if x.id > y.id {
					x, y = y, x
				}
				return c.app("fp.add", SFP, ex.rm(), x, y)
			case token.SUB:
				return c.app("fp.sub", SFP, ex.rm(), x, y)
			case token.MUL:
				if x.id > y.id {
					x, y = y, x
				}
				return c.app("fp.mul", SFP, ex.rm(), x, y)
			case token.QUO:
				return c.app("fp.div", SFP, ex.rm(), x, y)
			case token.EQL:
				return c.app("fp.eq", SBool, x, y)
			case token.NEQ:
				return c.Not(c.app("fp.eq", SBool, x, y))
			case token.LSS:
				return c.app("fp.lt", SBool, x, y)
			case token.LEQ:
				return c.app("fp.leq", SBool, x, y)
			case token.GTR:
				return c.app("fp.lt", SBool, y, x)
			case token.GEQ:
				return c.app("fp.leq", SBool, y, x)
			}
		}
	case inf&types.IsInteger != 0:
		if ex.mode == Real {
			switch op {
			case token.ADD:
				return ex.wrap(c.Add(x, y), b)
			case token.SUB:
				return ex.wrap(c.Sub(x, y), b)
			case token.MUL:
				return ex.wrap(c.Mul(x, y), b)
			case token.QUO, token.REM:
				ex.goal(st, "safety", "division by zero", c.Not(c.Eq(y, c.Int(0))))
				if x.isConst() && y.isConst() && y.ival.Sign() != 0 {
					q, r := new(big.Int).QuoRem(x.ival, y.ival, new(big.Int))
					if op == token.QUO {
						return c.IntBig(q)
					}
					return c.IntBig(r)
				}
				// truncated division
				ax := c.Ite(c.Ge(x, c.Int(0)), x, c.Neg(x))
				ay := c.Ite(c.Ge(y, c.Int(0)), y, c.Neg(y))
				q := c.app("div", SInt, ax, ay)
				sg := c.Eq(c.Ge(x, c.Int(0)), c.Ge(y, c.Int(0)))
				tq := c.Ite(sg, q, c.Neg(q))
				if op == token.QUO {
					return tq
				}
				m := c.app("mod", SInt, ax, ay)
				return c.Ite(c.Ge(x, c.Int(0)), m, c.Neg(m))
			case token.EQL:
				return c.Eq(x, y)
			case token.NEQ:
				return c.Not(c.Eq(x, y))
			case token.LSS:
				return c.Lt(x, y)
			case token.LEQ:
				return c.Le(x, y)
			case token.GTR:
				return c.Lt(y, x)
			case token.GEQ:
				return c.Le(y, x)
			case token.SHL:
				if y.isConst() && y.ival.IsInt64() && y.ival.Int64() < 200 {
					return ex.wrap(c.Mul(x, c.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(y.ival.Int64())))), b)
				}
			case token.SHR:
				if y.isConst() && y.ival.IsInt64() && y.ival.Int64() < 200 {
					d := c.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(y.ival.Int64())))
					if x.isConst() {
						return c.IntBig(new(big.Int).Rsh(x.ival, uint(y.ival.Int64())))
					}
					return c.app("div", SInt, x, d)
				}
			case token.AND:
				if y.isConst() && y.ival.Sign() > 0 {
					m := new(big.Int).Add(y.ival, big.NewInt(1))
					if new(big.Int).And(m, y.ival).Sign() == 0 { // mask 2^k-1
						return c.app("mod", SInt, x, c.IntBig(m))
					}
				}
			}
			// other bit operations: uninterpreted, range facts only
			r := c.UF("bitop_"+opName(op), SInt, x, y)
			ex.rangeFact(r, b)
			return r
		}
		w, signed := intWidth(b)
		if y.sort != x.sort && (op == token.SHL || op == token.SHR) {
			yw := y.sort.bvWidth()
			if yw < w {
				y = c.app(sprintf("(_ zero_extend %d)", w-yw), SBV(w), y)
			} else if yw > w {
				// saturate: shift counts >= w behave the same
				big1 := c.app("bvuge", SBool, y, c.BV(big.NewInt(int64(w)), yw))
				y = c.Ite(big1, c.BV(big.NewInt(int64(w)), w), c.app(sprintf("(_ extract %d 0)", w-1), SBV(w), y))
			}
		}
		if x.isConst() && y.isConst() {
			if r := foldBV(c, op, x, y, w, signed); r != nil {
				return r
			}
		}
		f := func(s, u string) string {
			if signed {
				return s
			}
			return u
		}
		switch op {
		case token.ADD, token.SUB, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if r := c.lift(x, y, func(a, b *Term) *Term { return ex.binop(op, a, b, t, st) }); r != nil {
				return r
			}
		}
		switch op {
		case token.ADD:
			if y.isConst() && y.ival.Sign() == 0 {
				return x
			}
			if x.isConst() && x.ival.Sign() == 0 {
				return y
			}
			return c.app("bvadd", x.sort, x, y)
		case token.SUB:
			if y.isConst() && y.ival.Sign() == 0 {
				return x
			}
			return c.app("bvsub", x.sort, x, y)
		case token.MUL:
			return c.app("bvmul", x.sort, x, y)
		case token.QUO:
			ex.goal(st, "safety", "division by zero", c.Not(c.Eq(y, c.BV(big.NewInt(0), w))))
			return c.app(f("bvsdiv", "bvudiv"), x.sort, x, y)
		case token.REM:
			ex.goal(st, "safety", "division by zero", c.Not(c.Eq(y, c.BV(big.NewInt(0), w))))
			return c.app(f("bvsrem", "bvurem"), x.sort, x, y)
		case token.EQL:
			return c.Eq(x, y)
		case token.NEQ:
			return c.Not(c.Eq(x, y))
		case token.LSS:
			return c.app(f("bvslt", "bvult"), SBool, x, y)
		case token.LEQ:
			return c.app(f("bvsle", "bvule"), SBool, x, y)
		case token.GTR:
			return c.app(f("bvslt", "bvult"), SBool, y, x)
		case token.GEQ:
			return c.app(f("bvsle", "bvule"), SBool, y, x)
		case token.AND:
			return c.app("bvand", x.sort, x, y)
		case token.OR:
			return c.app("bvor", x.sort, x, y)
		case token.XOR:
			return c.app("bvxor", x.sort, x, y)
		case token.AND_NOT:
			return c.app("bvand", x.sort, x, c.app("bvnot", x.sort, y))
		case token.SHL:
			return c.app("bvshl", x.sort, x, y)
		case token.SHR:
			return c.app(f("bvashr", "bvlshr"), x.sort, x, y)
		}
	}
	panic(unsupported("binop %s on %s", op, t))
}

func opName(op token.Token) string {
	return map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[op]
}

func foldBV(c *Ctx, op token.Token, x, y *Term, w int, signed bool) *Term {
	a, b := x.ival, y.ival
	sa, sb := a, b
	if signed {
		sa, sb = bvSigned(a, w), bvSigned(b, w)
	}
	switch op {
	case token.ADD:
		return c.BV(new(big.Int).Add(a, b), w)
	case token.SUB:
		return c.BV(new(big.Int).Sub(a, b), w)
	case token.MUL:
		return c.BV(new(big.Int).Mul(a, b), w)
	case token.QUO:
		if b.Sign() != 0 {
			return c.BV(new(big.Int).Quo(sa, sb), w)
		}
	case token.REM:
		if b.Sign() != 0 {
			return c.BV(new(big.Int).Rem(sa, sb), w)
		}
	case token.EQL:
		return c.Bool(a.Cmp(b) == 0)
	case token.NEQ:
		return c.Bool(a.Cmp(b) != 0)
	case token.LSS:
		return c.Bool(sa.Cmp(sb) < 0)
	case token.LEQ:
		return c.Bool(sa.Cmp(sb) <= 0)
	case token.GTR:
		return c.Bool(sa.Cmp(sb) > 0)
	case token.GEQ:
		return c.Bool(sa.Cmp(sb) >= 0)
	case token.AND:
		return c.BV(new(big.Int).And(a, b), w)
	case token.OR:
		return c.BV(new(big.Int).Or(a, b), w)
	case token.XOR:
		return c.BV(new(big.Int).Xor(a, b), w)
	case token.SHL:
		if b.IsInt64() && b.Int64() <= 64 {
			return c.BV(new(big.Int).Lsh(a, uint(b.Int64())), w)
		}
	case token.SHR:
		if b.IsInt64() && b.Int64() <= 64 {
			return c.BV(new(big.Int).Rsh(sa, uint(b.Int64())), w)
		}
	}
	return nil
}

// realDiv: division by zero yields Inf/NaN in Go; in real mode the quotient by zero is an
// unspecified value (obligations that matter for NaN are checked in bits mode).
func (ex *Exec) realDiv(x, y *Term, st *State) *Term {
	return ex.c.RDiv(x, y)
}

func (ex *Exec) neg(x *Term, t types.Type) *Term {
	c := ex.c
	if isFloat(t) && ex.mode == Bits {
		if x.isConst() {
			return c.FP(-fpv(x))
		}
		return c.app("fp.neg", SFP, x)
	}
	if ex.mode == Bits {
		if x.isConst() {
			return c.BV(new(big.Int).Neg(x.ival), x.sort.bvWidth())
		}
		return c.app("bvneg", x.sort, x)
	}
	r := c.Neg(x)
	if b := basicOf(t); b != nil && isInteger(t) {
		return ex.wrap(r, b)
	}
	return r
}

func (ex *Exec) rangeFact(r *Term, b *types.Basic) {
	if ex.mode == Bits || b.Info()&types.IsInteger == 0 || r.isConst() {
		return
	}
	w, signed := intWidth(b)
	c := ex.c
	var lo, hi *big.Int
	if signed {
		hi = new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		lo = new(big.Int).Neg(hi)
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Lsh(big.NewInt(1), uint(w))
	}
	ex.fact(c.And(c.Le(c.IntBig(lo), r), c.Lt(r, c.IntBig(hi))))
}

// convert implements numeric conversions.
func (ex *Exec) convert(x *Term, from, to types.Type) *Term {
	c := ex.c
	fb, tb := basicOf(from), basicOf(to)
	if fb == nil || tb == nil {
		panic(unsupported("convert %s -> %s", from, to))
	}
	fi, ti := fb.Info(), tb.Info()
	switch {
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		if ex.mode == Real {
			return ex.wrap(x, tb)
		}
		fw, fs := intWidth(fb)
		tw, _ := intWidth(tb)
		if x.isConst() {
			v := x.ival
			if fs {
				v = bvSigned(v, fw)
			}
			return c.BV(v, tw)
		}
		switch {
		case tw == fw:
			return x
		case tw < fw:
			return c.app(sprintf("(_ extract %d 0)", tw-1), SBV(tw), x)
		case fs:
			return c.app(sprintf("(_ sign_extend %d)", tw-fw), SBV(tw), x)
		default:
			return c.app(sprintf("(_ zero_extend %d)", tw-fw), SBV(tw), x)
		}
	case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
		if ex.mode == Real {
			return c.ToReal(x)
		}
		_, fs := intWidth(fb)
		if x.isConst() {
			fw, _ := intWidth(fb)
			v := x.ival
			if fs {
				v = bvSigned(v, fw)
			}
			f, _ := new(big.Float).SetInt(v).Float64()
			return c.FP(f)
		}
		if fs {
			return c.app("(_ to_fp 11 53)", SFP, ex.rm(), x)
		}
		return c.app("(_ to_fp_unsigned 11 53)", SFP, ex.rm(), x)
	case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
		if ex.mode == Real {
			if x.isConst() {
				q := new(big.Int).Quo(x.rval.Num(), x.rval.Denom())
				return ex.wrap(c.IntBig(q), tb)
			}
			z := c.Real(new(big.Rat))
			tr := c.Ite(c.Le(z, x), c.ToInt(x), c.Neg(c.ToInt(c.Neg(x))))
			// out of range conversions are implementation defined: unspecified value
			w, signed := intWidth(tb)
			hi := new(big.Int).Lsh(big.NewInt(1), uint(w))
			lo := big.NewInt(0)
			if signed {
				hi = new(big.Int).Lsh(big.NewInt(1), uint(w-1))
				lo = new(big.Int).Neg(hi)
			}
			in := c.And(c.Le(c.IntBig(lo), tr), c.Lt(tr, c.IntBig(hi)))
			oor := c.UF("f2i_oor_"+tb.Name(), SInt, x)
			ex.rangeFact(oor, tb)
			return c.Ite(in, tr, oor)
		}
		w, signed := intWidth(tb)
		rtz := c.mk(&Term{op: "const", sort: "RoundingMode", name: "RTZ"}, "RTZ")
		if x.isConst() {
			f := fpv(x)
			if f == f && math.Abs(f) < 9e18 {
				bi, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
				return c.BV(bi, w)
			}
		}
		if signed {
			return c.app(sprintf("(_ fp.to_sbv %d)", w), SBV(w), rtz, x)
		}
		return c.app(sprintf("(_ fp.to_ubv %d)", w), SBV(w), rtz, x)
	case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
		if ex.mode == Bits {
			f32 := c.app("(_ to_fp 8 24)", "(_ FloatingPoint 8 24)", ex.rm(), x)
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return c.app("(_ to_fp 11 53)", SFP, ex.rm(), f32)
			}
		}
		return x
	case fi&types.IsString != 0 && ti&types.IsString != 0:
		return x
	case ti&types.IsString != 0:
		return c.UF("tostr_"+sanitize(string(x.sort)), SStr, x)
	}
	panic(unsupported("convert %s -> %s", from, to))
}

func (ex *Exec) iadd(a, b *Term) *Term {
	return ex.binop(token.ADD, a, b, types.Typ[types.Int], nil)
}
func (ex *Exec) isub(a, b *Term) *Term {
	return ex.binop(token.SUB, a, b, types.Typ[types.Int], nil)
}
func (ex *Exec) ile(a, b *Term) *Term {
	return ex.binop(token.LEQ, a, b, types.Typ[types.Int], nil)
}
func (ex *Exec) ilt(a, b *Term) *Term {
	return ex.binop(token.LSS, a, b, types.Typ[types.Int], nil)
}

var f64 = types.Typ[types.Float64]

func (ex *Exec) flt(a, b *Term) *Term { return ex.binop(token.LSS, a, b, f64, nil) }
func (ex *Exec) fle(a, b *Term) *Term { return ex.binop(token.LEQ, a, b, f64, nil) }
