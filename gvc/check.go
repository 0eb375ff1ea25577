package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type Verdict struct {
	ct       *Contract
	ex       *Exec
	goals    []*Goal
	failed   []*Goal
	nOblig   int
	nDisch   int
	cands    int
	candLive int
	covers   int
	unsup    string
	wall     float64
	bySolver map[string]int
	loops    []string
}

var verbose bool
var debugGoal string

// generate executes the contract symbolically and returns the obligations.
func generate(reg *Registry, ct *Contract) (v *Verdict) {
	ex := NewExec(reg.prog, ct.mode, reg)
	v = &Verdict{ct: ct, ex: ex, bySolver: map[string]int{}}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsup); ok {
				v.unsup = u.msg + " at " + ex.posStr()
				return
			}
			v.unsup = fmt.Sprintf("internal: %v at %s", e, ex.posStr())
			if verbose || os.Getenv("GVC_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	ex.ct = ct
	if ct.locks {
		ex.guards = reg.guards
	}
	for k := range ct.nosafety {
		ex.noSafety[k] = true
	}
	st := &State{guard: ex.c.True(), heap: map[string]*Term{}, cur: ex.base0}
	ex.setupGlobals(ct.fn, st)
	var args []Val
	for _, p := range ct.fn.Params {
		a := ex.fresh(p.Name(), p.Type(), st)
		ts := ex.flatten(a, p.Type())
		for i, l := range ex.leaves(p.Type()) {
			if l.kind == 'r' {
				ts[i].initial = true
			}
			ex.paramT = append(ex.paramT, paramLeaf{p.Name() + l.suf, ts[i], l.typ})
		}
		args = append(args, a)
	}
	_, out := ex.callFn(ct.fn, args, nil, st)
	if ct.locks {
		ex.curPos = ct.fn.Pos()
		ex.locksReleased(out)
	}
	ex.goals = append(ex.goals, &Goal{name: "the contract's end is reachable", kind: "cover", f: out.guard, guard: out.guard, nfacts: len(ex.facts), pos: shortFn(ct.fn)})
	v.goals = ex.goals
	return v
}

var _ = types.Typ

// asserts collects the hypotheses of a goal.
func (ex *Exec) asserts(g *Goal) []*Term {
	var as []*Term
	as = append(as, ex.axs...)
	for _, f := range ex.facts[:g.nfacts] {
		if f.cand != nil && (f.cand.dead || g.alone && f.cand.user && f.cand != g.cand) {
			continue
		}
		as = append(as, f.t)
	}
	return as
}

func (ex *Exec) usesFP(as []*Term) bool { return ex.mode == Bits }

func (ex *Exec) order(g *Goal) []string {
	if ex.mode == Bits {
		return []string{"z3-new", "cvc5", "z3"}
	}
	return []string{"z3-new", "cvc5", "z3", "z3-nl"}
}

// slice keeps only hypotheses connected to the goal through shared symbols (sound: fewer hypotheses).
func slice(as []*Term, goal *Term, limit int) []*Term {
	syms := make([][]string, len(as))
	memo := map[int][]string{}
	var symsOf func(t *Term) []string
	collect := func(t *Term) []string {
		if s, ok := memo[t.id]; ok {
			return s
		}
		seen := map[int]bool{}
		set := map[string]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == "sym" && t.name != "base0" && t.name != "inil" {
				set[t.name] = true
			}
			if strings.HasPrefix(t.op, "uf:") && len(t.args) > 0 {
				// functions do not connect by themselves
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(t)
		out := sortedKeys(set)
		memo[t.id] = out
		return out
	}
	symsOf = collect
	for i, a := range as {
		syms[i] = symsOf(a)
	}
	have := map[string]bool{}
	for _, s := range symsOf(goal) {
		have[s] = true
	}
	in := make([]bool, len(as))
	for round := 0; round < limit; round++ {
		ch := false
		add := map[string]bool{}
		for i := range as {
			if in[i] {
				continue
			}
			hit := len(syms[i]) == 0
			for _, s := range syms[i] {
				if have[s] && s != "base0" && s != "inil" {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for _, s := range syms[i] {
					add[s] = true
				}
			}
		}
		for s := range add {
			have[s] = true
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i := range as {
		if in[i] {
			out = append(out, as[i])
		}
	}
	return out
}

func (v *Verdict) query(g *Goal, model bool) string {
	ex := v.ex
	as := ex.asserts(g)
	var ng *Term
	if g.kind == "cover" {
		ng = g.f
	} else {
		ng = ex.c.Not(g.f)
	}
	as = slice(as, ng, 1000)
	as = append(as, ng)
	var gv []*Term
	if model {
		for _, p := range ex.paramT {
			if p.t.sort == SStr || p.t.sort == SIface || p.t.sort.isArr() {
				continue
			}
			gv = append(gv, p.t)
		}
	}
	sc := ex.c.Script(ex.c.shiftAll(as), gv, "")
	if ex.mode == Real && !model && g.kind != "cover" {
		if n := ex.c.nraScript(as); n != "" {
			sc += nraSep + n
			near, all := ex.c.near(as)
			if !all {
				if n := ex.c.nraScript(near); n != "" {
					sc += nraSep + n
				}
			}
		}
	}
	return sc
}

const nraSep = "\n;;NRA\n"

type config struct {
	quick, full float64
	candT       float64
	cross       bool
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); f(i) }()
	}
	wg.Wait()
}

// discharge decides the obligations of one contract.
func (v *Verdict) discharge(s *Solver, cfg config) {
	t0 := time.Now()
	defer func() { v.wall = time.Since(t0).Seconds() }()
	ex := v.ex
	if v.unsup != "" {
		v.nOblig = 1
		g := &Goal{name: "within the verifier's subset: " + v.unsup, kind: "unsupported", status: "unsupported", pos: v.unsup}
		v.failed = append(v.failed, g)
		return
	}
	full := cfg.full
	if v.ct.timeout > 0 {
		full = float64(v.ct.timeout)
	}
	var candGoals, rest []*Goal
	cset := map[*Cand]bool{}
	for _, g := range v.goals {
		if g.kind == "init" || g.kind == "preserve" {
			candGoals = append(candGoals, g)
			cset[g.cand] = true
		} else {
			rest = append(rest, g)
		}
	}
	v.cands = len(cset)
	// Houdini: drop candidates until the remaining set is inductive
	type key struct {
		g    int
		text string
	}
	var memo, tried sync.Map
	houdini := func(brief bool) {
		for round := 0; ; round++ {
			alive := candGoals[:0:0]
			for _, g := range candGoals {
				if !g.cand.dead {
					alive = append(alive, g)
				}
			}
			scripts := make([]string, len(alive))
			alone := make([]string, len(alive))
			users := map[*Cand]bool{}
			for _, g := range alive {
				if g.cand.user {
					users[g.cand] = true
				}
			}
			for i, g := range alive {
				if !g.f.isTrue() {
					scripts[i] = v.query(g, false)
					if g.cand.user && len(users) > 4 {
						// without the other offered candidates, many of which are false and only slow the proof down
						g.alone = true
						alone[i] = v.query(g, false)
						g.alone = false
						if alone[i] == scripts[i] {
							alone[i] = ""
						}
					}
				}
			}
			bad := make([]bool, len(alive))
			why := make([]string, len(alive))
			parallel(len(alive), func(i int) {
				g := alive[i]
				if g.f.isTrue() {
					return
				}
				if _, ok := memo.Load(scripts[i]); ok {
					return
				}
				if alone[i] != "" {
					if _, ok := memo.Load(alone[i]); ok {
						return
					}
					if _, ok := tried.Load(alone[i]); !ok {
						if r := s.solve(alone[i], min(cfg.quick, 1.2), 0, ex.order(g), false); r.status == "unsat" {
							memo.Store(alone[i], true)
							g.solver = r.solver
							return
						}
						tried.Store(alone[i], true)
					}
				}
				t, f := cfg.candT, 0.0
				if g.cand.user {
					t, f = cfg.quick, min(cfg.full, 12)
					if v.ct.timeout > 0 {
						f = full
					}
					if brief {
						t, f = min(cfg.quick, 1.5), 0
					}
				}
				r := s.solve(scripts[i], t, f, ex.order(g), false)
				if r.status == "unsat" {
					memo.Store(scripts[i], true)
					g.solver = r.solver
				} else {
					bad[i] = true
					why[i] = r.status
				}
			})
			n := 0
			for i, g := range alive {
				if bad[i] && !g.cand.dead {
					g.cand.dead = true
					g.cand.why = g.kind + ":" + why[i]
					g.cand.undecided = why[i] == "unknown" && g.cand.user
					g.cand.refuted = round == 0 && why[i] == "sat"
					n++
				}
			}
			if n == 0 {
				break
			}
		}
	}
	houdini(true)
	var mu sync.Mutex
	// of the alternatives of a group one is enough: try them all briefly before any at length
	atLength := map[string]bool{}
	long := func(g *Goal) float64 {
		if g.group != "" && !atLength[g.group] {
			return 0
		}
		return full
	}
	decide := func(open []*Goal) {
		scripts := make([]string, len(open))
		for i, g := range open {
			if g.kind == "cover" || !g.f.isTrue() {
				scripts[i] = v.query(g, false)
			}
		}
		parallel(len(open), func(i int) {
			g := open[i]
			if g.kind != "cover" && g.f.isTrue() {
				g.status, g.solver = "unsat", "simplifier"
				return
			}
			if g.kind == "cover" {
				r := s.solve(scripts[i], 2, 0, ex.order(g), false)
				g.status, g.solver, g.dur = r.status, r.solver, r.dur
				return
			}
			r := s.solve(scripts[i], cfg.quick, long(g), ex.order(g), false)
			if r.status == "unsat" && cfg.cross {
				// confirm with an independent solver where it can
				for _, o := range []string{"cvc5", "z3", "z3-new"} {
					if o == r.solver {
						continue
					}
					r2 := s.solve(scripts[i], full, 0, []string{o}, false)
					if r2.status == "sat" && ex.mode == Real && false {
						continue
					}
					if r2.status == "unsat" {
						mu.Lock()
						v.bySolver["confirmed by "+o]++
						mu.Unlock()
						break
					}
					if r2.status == "sat" {
						r.status = "sat"
						r.out = "solvers disagree: " + r.solver + " unsat, " + o + " sat"
						break
					}
				}
			}
			g.status, g.solver, g.dur, g.out = r.status, r.solver, r.dur, r.out
		})
	}
	decide(rest)
	proved := map[string]bool{}
	for _, g := range rest {
		proved[g.group] = proved[g.group] || g.status == "unsat"
	}
	var hard []*Goal
	for _, g := range rest {
		if g.group != "" && !proved[g.group] {
			hard = append(hard, g)
			atLength[g.group] = true
		}
	}
	if len(hard) > 0 {
		decide(hard)
	}
	undecided := func() bool {
		for c := range cset {
			if c.undecided {
				return true
			}
		}
		return false
	}
	var again []*Goal
	done := map[string]bool{}
	for _, g := range rest {
		if g.group != "" && g.status == "unsat" {
			done[g.group] = true
		}
	}
	for _, g := range rest {
		if g.kind != "cover" && g.status != "unsat" && !(g.group != "" && done[g.group]) {
			again = append(again, g)
		}
	}
	if len(again) > 0 && undecided() {
		// an obligation is open and some candidates were given up early: decide those at length
		if os.Getenv("GVC_DEBUG") != "" {
			for _, g := range again {
				println("open after the brief pass:", g.kind, g.name, g.status)
			}
			for c := range cset {
				println("  candidate", c.dead, c.name, c.why)
			}
		}
		for c := range cset {
			c.dead, c.undecided = c.refuted, false
		}
		houdini(false)
		decide(again)
	}
	for c := range cset {
		if !c.dead {
			v.candLive++
		}
	}
	groups := map[string]bool{}
	groupGoals := map[string]*Goal{}
	for _, g := range rest {
		if g.group != "" {
			groupGoals[g.group] = g
			if g.status == "unsat" {
				groups[g.group] = true
			}
		}
	}
	gseen := map[string]bool{}
	for _, g := range rest {
		if g.kind == "cover" {
			v.covers++
			if g.status == "unsat" {
				g.name = "not vacuous: " + g.name
				v.failed = append(v.failed, g)
				v.nOblig++
			}
			continue
		}
		if g.group != "" {
			if gseen[g.group] {
				continue
			}
			gseen[g.group] = true
			v.nOblig++
			if groups[g.group] {
				v.nDisch++
				v.bySolver["z3/cvc5 (variant)"]++
			} else {
				gg := *g
				gg.name = g.group
				v.failed = append(v.failed, &gg)
			}
			continue
		}
		v.nOblig++
		if g.status == "unsat" {
			v.nDisch++
			v.bySolver[g.solver]++
		} else {
			v.failed = append(v.failed, g)
		}
	}
	for _, g := range candGoals {
		if !g.cand.dead {
			v.nOblig++
			v.nDisch++
			sv := g.solver
			if sv == "" {
				sv = "simplifier"
			}
			v.bySolver[sv]++
		}
	}
	// counterexamples
	nm := 0
	for _, g := range v.failed {
		if g.status == "sat" && nm < 4 && g.kind != "cover" {
			nm++
			r := s.solve(v.query(g, true), cfg.quick, 0, []string{g.solver}, true)
			g.model = ex.parseModel(r.out)
			g.out = r.out
		}
	}
}

// parseModel reads the (get-value ...) answer positionally.
func (ex *Exec) parseModel(out string) map[string]string {
	i := strings.Index(out, "((")
	if i < 0 {
		return nil
	}
	toks := sexp(out[i:])
	m := map[string]string{}
	l, ok := toks.([]any)
	if !ok {
		return nil
	}
	j := 0
	for _, p := range ex.paramT {
		if p.t.sort == SStr || p.t.sort == SIface || p.t.sort.isArr() {
			continue
		}
		if j < len(l) {
			if pr, ok := l[j].([]any); ok && len(pr) == 2 {
				m[p.path] = sexpStr(pr[1])
			}
		}
		j++
	}
	return m
}

func sexp(s string) any {
	pos := 0
	var rd func() any
	rd = func() any {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			l := []any{}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
					pos++
				}
				if pos >= len(s) {
					return l
				}
				if s[pos] == ')' {
					pos++
					return l
				}
				l = append(l, rd())
			}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t()", rune(s[pos])) {
			pos++
		}
		if pos == st {
			pos++
		}
		return s[st:pos]
	}
	return rd()
}

func sexpStr(x any) string {
	switch y := x.(type) {
	case string:
		return y
	case []any:
		var p []string
		for _, z := range y {
			p = append(p, sexpStr(z))
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	return ""
}

func (v *Verdict) report(w *strings.Builder) {
	fmt.Fprintf(w, "%-60s %3d/%3d obligations, invariants %d/%d, %.1fs\n", v.ct.name, v.nDisch, v.nOblig, v.candLive, v.cands, v.wall)
	if v.unsup != "" {
		fmt.Fprintf(w, "   UNSUPPORTED %s\n", v.unsup)
	}
	for _, g := range v.failed {
		fmt.Fprintf(w, "   FAILED [%s] %s -- %s  (%s by %s) %v\n", g.kind, g.name, g.pos, g.status, g.solver, g.model)
	}
	if verbose {
		var live []string
		for _, g := range v.goals {
			if g.kind == "init" && (verbose) {
				s := "live"
				if g.cand.dead {
					s = "dead " + g.cand.why
				}
				live = append(live, s+"  "+g.cand.name)
			}
		}
		sort.Strings(live)
		for _, l := range live {
			fmt.Fprintf(w, "      inv %s\n", l)
		}
		for _, g := range v.goals {
			if g.kind != "init" && g.kind != "preserve" {
				fmt.Fprintf(w, "      %s [%s] %s -- %s %s %.2fs\n", g.status, g.kind, g.name, g.pos, g.solver, g.dur)
			}
		}
	}
}
