package main

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver drives the external SMT solvers.
type Solver struct {
	soft, hard time.Time
	dir   string
	sem   chan struct{}
	nq    atomic.Int64
	mu    sync.Mutex
	times map[string]float64
	count map[string]int
	cross bool // thorough: confirm each unsat with a second solver
	keep  bool
}

func newSolver(jobs int) *Solver {
	d, _ := os.MkdirTemp("", "gvc")
	return &Solver{dir: d, sem: make(chan struct{}, jobs), times: map[string]float64{}, count: map[string]int{}}
}

func (s *Solver) close() {
	if !s.keep {
		os.RemoveAll(s.dir)
	}
}

type result struct {
	status string // unsat, sat, unknown
	solver string
	out    string
	dur    float64
}

type backend struct {
	name string
	args func(file string, secs float64) []string
	pre  string
}

func itoa(n int) string { return sprintf("%d", n) }

var backends = map[string]backend{
	"z3-new": {"z3-new", func(f string, s float64) []string { return []string{"z3-new", "-T:" + itoa(int(s+0.999)), f} }, ""},
	"z3":     {"z3", func(f string, s float64) []string { return []string{"z3", "-T:" + itoa(int(s+0.999)), f} }, ""},
	"z3-nl": {"z3-nl", func(f string, s float64) []string {
		return []string{"z3-new", "smt.arith.solver=2", "-T:" + itoa(int(s+0.999)), f}
	}, ""},
	"z3-nra": {"z3-nra", func(f string, s float64) []string { return []string{"z3-new", "-T:" + itoa(int(s+0.999)), f} }, ""},
	"cvc5": {"cvc5", func(f string, s float64) []string {
		return []string{"cvc5", "--tlimit=" + itoa(int(s*1000)), "--full-saturate-quant", "--nl-ext-tplanes", f}
	}, ""},
}

func (s *Solver) run(ctx context.Context, be backend, script string, secs float64, model bool) result {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if ctx.Err() != nil {
		return result{status: "unknown"}
	}
	n := s.nq.Add(1)
	f := filepath.Join(s.dir, sprintf("q%d.smt2", n))
	pre := ""
	if model {
		pre = "(set-option :produce-models true)\n"
	}
	if be.name == "cvc5" {
		pre += "(set-logic ALL)\n"
	}
	if err := os.WriteFile(f, []byte(pre+script), 0o644); err != nil {
		return result{status: "unknown", out: err.Error()}
	}
	if !s.keep {
		defer os.Remove(f)
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration((secs+2)*float64(time.Second)))
	defer cancel()
	a := be.args(f, secs)
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0).Seconds()
	r := result{status: "unknown", solver: be.name, dur: d, out: out.String()}
	for _, ln := range strings.Split(r.out, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat", "sat":
			r.status = strings.TrimSpace(ln)
		default:
			continue
		}
		break
	}
	if strings.Contains(r.out, "(error") && !(r.status == "unsat" && strings.Contains(r.out, "model is not available")) && r.status != "sat" {
		if r.status != "unsat" || strings.Index(r.out, "(error") < strings.Index(r.out, "unsat") {
			r.status = "unknown"
		}
	}
	s.mu.Lock()
	s.times[be.name] += d
	s.count[be.name]++
	s.mu.Unlock()
	return r
}

// portfolio: try one solver briefly (and the non-linear abstraction of the query, if there is one), then the others in parallel.
func (s *Solver) solve(script string, quick, full float64, order []string, model bool) result {
	if !s.hard.IsZero() {
		// what is still open when time runs short is tried only briefly, and then not at all: it is reported as undecided
		switch now := time.Now(); {
		case now.After(s.hard):
			return result{status: "unknown", out: "out of time"}
		case now.After(s.soft):
			quick, full = min(quick, 3), min(full, 6)
		}
	}
	parts := strings.Split(script, nraSep)
	script = parts[0]
	round := func(order []string, secs float64) result {
		c2, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan result, len(order)+len(parts))
		n := len(order) + len(parts) - 1
		for _, nra := range parts[1:] {
			go func() {
				r := s.run(c2, backends["z3-nra"], nra, secs, false)
				if r.status != "unsat" {
					r.status = "unknown"
				}
				ch <- r
			}()
		}
		for _, o := range order {
			go func() { ch <- s.run(c2, backends[o], script, secs, model) }()
		}
		best := result{status: "unknown", solver: order[0]}
		for range n {
			x := <-ch
			if x.status != "unknown" {
				return x
			}
			if x.out != "" && x.solver != "z3-nra" {
				best = x
			}
		}
		best.status = "unknown"
		return best
	}
	r := round(order[:1], quick)
	if r.status != "unknown" || full <= 0 {
		return r
	}
	return round(order, full)
}
