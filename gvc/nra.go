package main

import (
	"fmt"
	"math/big"
	"strings"
)

// nraScript abstracts a query to pure non-linear real arithmetic: every term outside
// arithmetic becomes a variable (with congruence constraints), integers become reals
// (keeping a < b as a+1 <= b), quantified hypotheses are instantiated at the ground array
// reads of the query or dropped. Every step weakens the hypotheses, so unsat carries over.
type nra struct {
	c     *Ctx
	decl  strings.Builder
	body  strings.Builder
	num   map[int]string
	bol   map[int]string
	side  []string
	nonl  bool
	ufs   map[string][]*Term
	ufn   int
	n     int
	seenP map[string]bool
}

func ratStr(r *big.Rat) string {
	s := r.Num().String()
	neg := false
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	}
	out := s + ".0"
	if !r.IsInt() {
		out = "(/ " + s + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		out = "(- " + out + ")"
	}
	return out
}

func (a *nra) fresh(p, sort string) string {
	a.n++
	v := fmt.Sprintf("%s%d", p, a.n)
	fmt.Fprintf(&a.decl, "(declare-fun %s () %s)\n", v, sort)
	return v
}

func (a *nra) tr(t *Term) string {
	if s, ok := a.num[t.id]; ok {
		return s
	}
	s := a.tr0(t)
	if len(s) > 60 {
		a.n++
		v := fmt.Sprintf("e%d", a.n)
		fmt.Fprintf(&a.body, "(define-fun %s () Real %s)\n", v, s)
		s = v
	}
	a.num[t.id] = s
	return s
}

func (a *nra) tr0(t *Term) string {
	switch t.op {
	case "const":
		if r := ratOf(t); r != nil {
			return ratStr(r)
		}
	case "to_real":
		return a.tr(t.args[0])
	case "+", "-", "*":
		var xs []string
		nc := 0
		for _, x := range t.args {
			xs = append(xs, a.tr(x))
			if !x.isConst() {
				nc++
			}
		}
		if t.op == "*" && nc > 1 {
			a.nonl = true
		}
		return "(" + t.op + " " + strings.Join(xs, " ") + ")"
	case "/":
		x, y := a.tr(t.args[0]), a.tr(t.args[1])
		if t.args[1].isConst() {
			return "(/ " + x + " " + y + ")"
		}
		a.nonl = true
		q := a.fresh("q", "Real")
		a.side = append(a.side, fmt.Sprintf("(or (= %s 0.0) (= (* %s %s) %s))", y, q, y, x))
		return q
	case "ite":
		return "(ite " + a.trb(t.args[0]) + " " + a.tr(t.args[1]) + " " + a.tr(t.args[2]) + ")"
	}
	v := a.fresh("v", "Real")
	a.num[t.id] = v
	if t.op == "to_int" {
		x := a.tr(t.args[0])
		a.side = append(a.side, fmt.Sprintf("(and (<= %s %s) (< %s (+ %s 1.0)))", v, x, x, v))
	}
	if strings.HasPrefix(t.op, "uf:") && len(t.args) > 0 {
		ok := true
		for _, x := range t.args {
			if x.sort != SReal && x.sort != SInt {
				ok = false
			}
		}
		if ok && a.ufn < 60 {
			for _, o := range a.ufs[t.op] {
				if len(o.args) != len(t.args) {
					continue
				}
				var eq []string
				for i := range t.args {
					if t.args[i] != o.args[i] {
						eq = append(eq, "(= "+a.tr(t.args[i])+" "+a.tr(o.args[i])+")")
					}
				}
				a.ufn++
				a.side = append(a.side, fmt.Sprintf("(=> (and true %s) (= %s %s))", strings.Join(eq, " "), v, a.tr(o)))
			}
			a.ufs[t.op] = append(a.ufs[t.op], t)
		}
	}
	return v
}

func numeric(t *Term) bool { return t.sort == SReal || t.sort == SInt }

func (a *nra) trb(t *Term) string {
	if s, ok := a.bol[t.id]; ok {
		return s
	}
	s := a.trb0(t)
	if len(s) > 60 {
		a.n++
		v := fmt.Sprintf("f%d", a.n)
		fmt.Fprintf(&a.body, "(define-fun %s () Bool %s)\n", v, s)
		s = v
	}
	a.bol[t.id] = s
	return s
}

func (a *nra) trb0(t *Term) string {
	if t.isTrue() {
		return "true"
	}
	if t.isFalse() {
		return "false"
	}
	switch t.op {
	case "and", "or", "not", "=>", "xor":
		var xs []string
		for _, x := range t.args {
			xs = append(xs, a.trb(x))
		}
		return "(" + t.op + " " + strings.Join(xs, " ") + ")"
	case "ite":
		return "(ite " + a.trb(t.args[0]) + " " + a.trb(t.args[1]) + " " + a.trb(t.args[2]) + ")"
	case "=":
		if t.args[0].sort == SBool {
			return "(= " + a.trb(t.args[0]) + " " + a.trb(t.args[1]) + ")"
		}
		if numeric(t.args[0]) {
			x, y := a.tr(t.args[0]), a.tr(t.args[1])
			if t.args[0].sort == SInt {
				a.split(x, y)
				a.split(y, x)
			}
			return "(= " + x + " " + y + ")"
		}
	case "<", "<=":
		if numeric(t.args[0]) {
			x, y := a.tr(t.args[0]), a.tr(t.args[1])
			if t.args[0].sort == SInt {
				if t.op == "<" {
					a.split(y, x)
					return "(<= (+ " + x + " 1.0) " + y + ")"
				}
				a.split(x, y)
			}
			return "(" + t.op + " " + x + " " + y + ")"
		}
	}
	return a.fresh("b", "Bool")
}

// split: over the integers x <= y or x >= y+1.
func (a *nra) split(x, y string) {
	s := fmt.Sprintf("(or (<= %s %s) (<= (+ %s 1.0) %s))", x, y, y, x)
	if a.seenP[s] {
		return
	}
	a.seenP[s] = true
	a.side = append(a.side, s)
}

// nraScript returns "" when the query has no non-linear arithmetic.
func (c *Ctx) nraScript(as []*Term) string {
	a := &nra{c: c, num: map[int]string{}, bol: map[int]string{}, ufs: map[string][]*Term{}, seenP: map[string]bool{}}
	ground := map[int][]*Term{} // array term -> index terms read
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "select" && !t.bound {
			ground[t.args[0].id] = append(ground[t.args[0].id], t.args[1])
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	for _, t := range as {
		walk(t)
	}
	var out []*Term
	for _, t := range as {
		out = append(out, t)
		q := t
		var pre *Term
		if q.op == "=>" && q.args[1].op == "forall" {
			pre, q = q.args[0], q.args[1]
		}
		if q.op != "forall" || len(q.qv) != 1 || pre != nil && pre.bound {
			continue
		}
		b := q.qv[0]
		done := map[int]bool{}
		sn := map[int]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if sn[t.id] || !t.bound {
				return
			}
			sn[t.id] = true
			if t.op == "select" && !t.args[0].bound {
				for _, ix := range ground[t.args[0].id] {
					var inst *Term
					switch ax := t.args[1]; {
					case ax == b:
						inst = ix
					case ax.op == "+" && len(ax.args) == 2 && ax.args[1] == b && !ax.args[0].bound:
						inst = c.Sub(ix, ax.args[0])
					case ax.op == "+" && len(ax.args) == 2 && ax.args[0] == b && !ax.args[1].bound:
						inst = c.Sub(ix, ax.args[1])
					}
					if inst != nil && !done[inst.id] && len(done) < 6 {
						done[inst.id] = true
						f := c.Subst(q.args[0], map[int]*Term{b.id: inst})
						if pre != nil {
							f = c.Imp(pre, f)
						}
						out = append(out, f)
					}
				}
			}
			for _, x := range t.args {
				find(x)
			}
		}
		find(q.args[0])
	}
	var fs []string
	for _, t := range out {
		fs = append(fs, a.trb(t))
	}
	if !a.nonl {
		return ""
	}
	var w strings.Builder
	w.WriteString("(set-logic QF_NRA)\n")
	w.WriteString(a.decl.String())
	w.WriteString(a.body.String())
	for _, s := range a.side {
		w.WriteString("(assert " + s + ")\n")
	}
	for _, s := range fs {
		if s != "true" {
			w.WriteString("(assert " + s + ")\n")
		}
	}
	w.WriteString("(check-sat)\n")
	return w.String()
}

// near keeps the hypotheses that speak only about terms occurring in the goal (the last formula).
func (c *Ctx) near(as []*Term) ([]*Term, bool) {
	g := map[int]bool{}
	var reach func(t *Term)
	reach = func(t *Term) {
		if g[t.id] {
			return
		}
		g[t.id] = true
		for _, x := range t.args {
			reach(x)
		}
	}
	goal := as[len(as)-1]
	reach(goal)
	ok := map[int]int{}
	var within func(t *Term) bool
	within = func(t *Term) bool {
		if v, o := ok[t.id]; o {
			return v == 1
		}
		r := true
		switch {
		case g[t.id] || t.isConst() || t.op == "bound":
		case t.op == "sym" || strings.HasPrefix(t.op, "uf:") || t.op == "select" && !t.bound:
			r = false
		default:
			for _, x := range t.args {
				if !within(x) {
					r = false
				}
			}
		}
		ok[t.id] = 2
		if r {
			ok[t.id] = 1
		}
		return r
	}
	var out []*Term
	all := true
	for _, a := range as {
		if within(a) {
			out = append(out, a)
		} else {
			all = false
		}
	}
	return out, all
}
