package main

import (
	"math/big"
	"sort"
)

// Quantifiers over positions of a slice read the element at offset+i, a term no solver matches against the sums
// in the ground terms. shiftAll restates each such quantifier over the absolute position j = offset+i, once per
// offset: the same statement with the variable changed, so nothing is added or lost.

type linTerm struct {
	t *Term
	k *big.Rat
}

// lin splits an integer term into a linear combination of non-sums.
func (c *Ctx) lin(t *Term, k *big.Rat, out map[int]*linTerm, cst *big.Rat) {
	switch {
	case t.isConst():
		cst.Add(cst, new(big.Rat).Mul(k, ratOf(t)))
	case t.op == "+":
		for _, a := range t.args {
			c.lin(a, k, out, cst)
		}
	case t.op == "-" && len(t.args) == 1:
		c.lin(t.args[0], new(big.Rat).Neg(k), out, cst)
	case t.op == "-" && len(t.args) == 2:
		c.lin(t.args[0], k, out, cst)
		c.lin(t.args[1], new(big.Rat).Neg(k), out, cst)
	case t.op == "*" && len(t.args) == 2 && t.args[0].isConst():
		c.lin(t.args[1], new(big.Rat).Mul(k, ratOf(t.args[0])), out, cst)
	default:
		if o := out[t.id]; o != nil {
			o.k = new(big.Rat).Add(o.k, k)
		} else {
			out[t.id] = &linTerm{t, k}
		}
	}
}

// linNorm is the sum in canonical form.
func (c *Ctx) linNorm(t *Term) *Term {
	if t.sort != SInt || t.op != "+" && t.op != "-" {
		return t
	}
	out := map[int]*linTerm{}
	cst := new(big.Rat)
	c.lin(t, big.NewRat(1, 1), out, cst)
	return c.unlin(out, cst)
}

func (c *Ctx) unlin(out map[int]*linTerm, cst *big.Rat) *Term {
	var ids []int
	for id, o := range out {
		if o.k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var r *Term
	one := big.NewRat(1, 1)
	for _, id := range ids {
		o := out[id]
		x := o.t
		if o.k.Cmp(one) != 0 {
			x = c.app("*", SInt, c.numConst(SInt, o.k), x)
		}
		if r == nil {
			r = x
		} else {
			r = c.app("+", SInt, r, x)
		}
	}
	k := c.numConst(SInt, cst)
	if r == nil {
		return k
	}
	if cst.Sign() == 0 {
		return r
	}
	return c.app("+", SInt, r, k)
}

// offsetOf: idx = v + rest with rest free of the bound variables inner.
func (c *Ctx) offsetOf(idx, v *Term, inner map[int]bool) (*Term, bool) {
	out := map[int]*linTerm{}
	cst := new(big.Rat)
	c.lin(idx, big.NewRat(1, 1), out, cst)
	o := out[v.id]
	if o == nil || o.k.Cmp(big.NewRat(1, 1)) != 0 {
		return nil, false
	}
	delete(out, v.id)
	for _, o := range out {
		if mentions(o.t, inner) || mentions(o.t, map[int]bool{v.id: true}) {
			return nil, false
		}
	}
	return c.unlin(out, cst), true
}

func mentions(t *Term, ids map[int]bool) bool {
	if !t.bound {
		return false
	}
	if ids[t.id] {
		return true
	}
	for _, a := range t.args {
		if mentions(a, ids) {
			return true
		}
	}
	return false
}

// offsets of the variable in the select positions of the body.
func (c *Ctx) offsets(body, v *Term) []*Term {
	var res []*Term
	have := map[int]bool{}
	seen := map[int]bool{}
	inner := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] || !t.bound {
			return
		}
		seen[t.id] = true
		for _, q := range t.qv {
			inner[q.id] = true
		}
		for _, a := range t.args {
			w(a)
		}
		if t.op == "select" && t.args[1].sort == SInt && !mentions(t.args[0], map[int]bool{v.id: true}) {
			if o, ok := c.offsetOf(t.args[1], v, inner); ok && !have[o.id] {
				have[o.id] = true
				res = append(res, o)
			}
		}
	}
	w(body)
	return res
}

func (c *Ctx) shiftBy(t *Term, v, off *Term, fresh *Term) *Term {
	m := map[int]*Term{v.id: c.Sub(fresh, off)}
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 || !t.bound {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := t
		if t.sort == SInt && (t.op == "+" || t.op == "-") {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = f(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = c.linNorm(c.app(t.op, SInt, as...))
			}
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = f(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = c.rebuild(t, as)
			}
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

const maxShifts = 3

// shift rewrites the quantifiers of an assertion (pos: it is asserted, not denied).
func (c *Ctx) shift(t *Term, pos bool, memo map[[2]int]*Term) *Term {
	if t.sort != SBool {
		return t
	}
	k := [2]int{t.id, 0}
	if pos {
		k[1] = 1
	}
	if r, ok := memo[k]; ok {
		return r
	}
	r := t
	re := func(p ...bool) *Term {
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = c.shift(a, p[min(i, len(p)-1)], memo)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		return c.rebuild(t, as)
	}
	switch t.op {
	case "not":
		r = re(!pos)
	case "and", "or":
		r = re(pos)
	case "=>":
		r = re(!pos, pos)
	case "ite":
		a, b := c.shift(t.args[1], pos, memo), c.shift(t.args[2], pos, memo)
		if a != t.args[1] || b != t.args[2] {
			r = c.rebuild(t, []*Term{t.args[0], a, b})
		}
	case "forall", "exists":
		body := c.shift(t.args[0], pos, memo)
		if body != t.args[0] {
			t = c.Quant(t.op, t.qv, body, t.args[1:]...)
			r = t
			if t.op != "forall" && t.op != "exists" {
				break
			}
		}
		if (t.op == "forall") != pos || len(t.qv) != 1 || t.qv[0].sort != SInt || len(t.args) > 1 {
			break
		}
		v := t.qv[0]
		offs := c.offsets(t.args[0], v)
		plain := len(offs) == 0
		for _, o := range offs {
			if o.isConst() && ratOf(o).Sign() == 0 {
				plain = true
			}
		}
		if len(offs) > maxShifts || len(offs) == 1 && plain || len(offs) == 0 {
			break
		}
		var parts []*Term
		for _, o := range offs {
			if o.isConst() && ratOf(o).Sign() == 0 {
				parts = append(parts, t)
				continue
			}
			j := c.Bound("j", SInt)
			parts = append(parts, c.Quant(t.op, []*Term{j}, c.shiftBy(t.args[0], v, o, j)))
		}
		if t.op == "forall" {
			r = c.And(parts...)
		} else {
			r = c.Or(parts...)
		}
	}
	memo[k] = r
	return r
}

func (c *Ctx) shiftAll(as []*Term) []*Term {
	if c.shifted == nil {
		c.shifted = map[[2]int]*Term{}
	}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = c.shift(a, true, c.shifted)
	}
	return out
}
