package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownFinding struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Status     string `json:"status"` // known | fixed
	Commit     string `json:"commit,omitempty"`
}

func readKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var k []knownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
	}
	return k
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// closure adds the contracts that the selected ones rely on at call sites.
func (r *Registry) closure(cts []*Contract) []*Contract {
	seen := map[string]bool{}
	var out []*Contract
	var add func(c *Contract)
	add = func(c *Contract) {
		if seen[c.name] {
			return
		}
		seen[c.name] = true
		out = append(out, c)
		for _, u := range c.uses {
			if d := r.byName[u]; d != nil && !d.ifaceOnly {
				add(d)
			}
		}
	}
	for _, c := range cts {
		add(c)
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	noReplay := fs.Bool("noreplay", false, "")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	reg, errs, err := load(*verif, *repo)
	if err != nil || len(errs) > 0 {
		fmt.Println("cannot load /repo:", err, strings.Join(errs, "\n"))
		return 2
	}
	var cts []*Contract
	for _, c := range reg.contracts {
		if has(c.props, *prop) && !c.dynamic {
			cts = append(cts, c)
		}
	}
	own := map[string]bool{}
	for _, c := range cts {
		own[c.name] = true
	}
	cts = reg.closure(cts)
	var dropped []droppedContract
	for _, d := range reg.dropped {
		if has(d.props, *prop) {
			dropped = append(dropped, d)
		}
	}
	if len(cts)+len(dropped) == 0 {
		fmt.Println("no contract for", *prop)
		return 2
	}
	cfg := config{quick: 4, full: 45, candT: 2}
	if *tier == "thorough" {
		cfg = config{quick: 10, full: 150, candT: 6, cross: true}
	}
	s := newSolver(8)
	defer s.close()
	limit := 1.0
	if *tier == "thorough" {
		limit = 8
	}
	s.soft = t0.Add(time.Duration(300 * limit * float64(time.Second)))
	s.hard = t0.Add(time.Duration(540 * limit * float64(time.Second)))
	vs := make([]*Verdict, len(cts))
	var wg sync.WaitGroup
	for i, c := range cts {
		vs[i] = generate(reg, c)
		wg.Add(1)
		go func() { defer wg.Done(); vs[i].discharge(s, cfg) }()
	}
	wg.Wait()

	known := readKnown(*verif)
	isKnown := func(ct, ob string) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.Status != "fixed" && k.Property == *prop && k.Contract == ct && k.Obligation == ob {
				return k
			}
		}
		return nil
	}
	var bad []*Verdict
	var knownHit []*knownFinding
	nOb, nDi := 0, 0
	for _, v := range vs {
		nOb += v.nOblig
		nDi += v.nDisch
		var rest []*Goal
		for _, g := range v.failed {
			if k := isKnown(v.ct.name, g.name); k != nil {
				knownHit = append(knownHit, k)
				continue
			}
			rest = append(rest, g)
		}
		v.failed = rest
		if len(rest) > 0 {
			bad = append(bad, v)
		}
	}
	// second attempt with a larger budget before an undecided obligation is reported
	if len(bad) > 0 {
		for _, v := range bad {
			retry := false
			for _, g := range v.failed {
				if g.status == "unknown" {
					retry = true
				}
			}
			if retry && time.Since(t0) < 200*time.Second {
				v2 := generate(reg, v.ct)
				c2 := cfg
				c2.quick, c2.full, c2.candT = 8, 90, 6
				v2.discharge(s, c2)
				for i := range vs {
					if vs[i] == v {
						vs[i] = v2
					}
				}
				nOb += v2.nOblig - v.nOblig
				nDi += v2.nDisch - v.nDisch
				var rest []*Goal
				for _, g := range v2.failed {
					if isKnown(v.ct.name, g.name) == nil {
						rest = append(rest, g)
					}
				}
				v2.failed = rest
				*v = *v2
			}
		}
		var still []*Verdict
		for _, v := range bad {
			if len(v.failed) > 0 {
				still = append(still, v)
			}
		}
		bad = still
	}
	var rep strings.Builder
	for _, v := range vs {
		v.report(&rep)
	}
	fmt.Print(rep.String())
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
	}
	code := 0
	viol := 0
	for _, d := range dropped {
		fmt.Printf("contract %s does not apply to the current code and was not checked: %s\n", d.name, d.why)
	}
	if len(cts) > 0 {
		dropped = nil
	}
	if len(bad) > 0 || len(dropped) > 0 {
		code = 1
		var oc map[string]*outcome
		if !*noReplay && len(bad) > 0 {
			budget := 12.0
			if n := len(bad); n > 10 {
				budget = 120.0 / float64(n)
			}
			oc = replay(reg, *verif, *repo, bad, budget, seed)
		}
		dir := filepath.Join(*verif, "out", "replay", *prop)
		os.MkdirAll(dir, 0o755)
		anyFound := false
		var files []string
		for _, v := range bad {
			viol += len(v.failed)
			var b strings.Builder
			fmt.Fprintf(&b, "property %s\ncontract %s (%s)\n%s\n\n", *prop, v.ct.name, v.ct.file, v.ct.desc)
			for _, g := range v.failed {
				fmt.Fprintf(&b, "failed obligation [%s] %s\n  at %s\n  verdict %s (%s)\n", g.kind, g.name, g.pos, g.status, g.solver)
				if len(g.model) > 0 {
					var ks []string
					for k := range g.model {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						fmt.Fprintf(&b, "    %s = %s\n", k, g.model[k])
					}
				}
				if g.out != "" {
					fmt.Fprintf(&b, "  verifier output:\n%s\n", tail(g.out, 3000))
				}
			}
			o := oc[v.ct.name]
			found := o != nil && o.Found
			if found {
				anyFound = true
				fmt.Fprintf(&b, "\nreplayed against the real code (seed %s, trial %d): %s\n", seed, o.Trial, o.What)
				for _, in := range o.Input {
					fmt.Fprintf(&b, "    %s\n", in)
				}
				if o.Stack != "" {
					fmt.Fprintf(&b, "%s\n", tail(o.Stack, 3000))
				}
			} else if o != nil {
				fmt.Fprintf(&b, "\nreplay: no failing input in %d admitted trials (seed %s)\n", o.Admitted, seed)
			} else {
				fmt.Fprintf(&b, "\nno replay for this contract\n")
			}
			f := filepath.Join(dir, strings.NewReplacer("/", "_", ".", "_").Replace(v.ct.name)+".txt")
			os.WriteFile(f, []byte(b.String()), 0o644)
			if found {
				files = append([]string{f}, files...)
			} else {
				files = append(files, f)
			}
		}
		for _, d := range dropped {
			viol++
			f := filepath.Join(dir, strings.NewReplacer("/", "_", ".", "_").Replace(d.name)+".txt")
			os.WriteFile(f, []byte(fmt.Sprintf("property %s\ncontract %s no longer applies to the code:\n%s\n", *prop, d.name, d.why)), 0o644)
			files = append(files, f)
		}
		if anyFound {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, files[0])
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, files[0])
		}
	}
	writeEvidence(*verif, *prop, *tier, seed, vs, own, s, nOb, nDi, viol, time.Since(t0).Seconds(), knownHit)
	if code == 0 {
		fmt.Printf("%s: %d obligations over %d contracts, all discharged%s (%.1fs)\n", *prop, nOb, len(vs), map[bool]string{true: " except known findings", false: ""}[len(knownHit) > 0], time.Since(t0).Seconds())
	}
	return code
}

func writeEvidence(verif, prop, tier, seed string, vs []*Verdict, own map[string]bool, s *Solver, nOb, nDi, viol int, wall float64, kn []*knownFinding) {
	fnset := map[string]bool{}
	assume := map[string]bool{}
	bySolver := map[string]int{}
	targets := map[string]bool{}
	var per []map[string]any
	modes := map[string]int{}
	covers := 0
	inv := 0
	for _, v := range vs {
		for f := range v.ex.covered {
			fnset[f] = true
		}
		for a := range v.ex.assume {
			assume[a] = true
		}
		for k, n := range v.bySolver {
			bySolver[k] += n
		}
		if v.ct.target != "" {
			targets[v.ct.target] = true
		}
		modes[v.ct.mode.String()]++
		covers += v.covers
		inv += v.candLive
		m := map[string]any{"contract": v.ct.name, "obligations": v.nOblig, "discharged": v.nDisch, "loop_invariants": v.candLive, "mode": v.ct.mode.String(), "wall_s": round2(v.wall)}
		if !own[v.ct.name] {
			m["used_at_call_sites"] = true
		}
		if len(v.ct.opaque) > 0 {
			m["abstracted_callees"] = sortedKeys(v.ct.opaque)
		}
		if len(v.ct.nosafety) > 0 {
			m["run_time_panics_not_checked"] = sortedKeys(v.ct.nosafety)
			assume["run-time panics assumed absent ("+strings.Join(sortedKeys(v.ct.nosafety), ",")+") in "+v.ct.name] = true
		}
		per = append(per, m)
	}
	if modes["real"] > 0 {
		assume["real mode: float64 treated as mathematical reals (no NaN, infinity or rounding), int and int64 as unbounded integers"] = true
	}
	if modes["bits"] > 0 {
		assume["bits mode: float64 exact IEEE-754 binary64, integers exact two's complement bit-vectors"] = true
	}
	st := map[string]any{}
	for k, n := range s.count {
		st[k] = map[string]any{"queries": n, "seconds": round2(s.times[k])}
	}
	var as []string
	for a := range assume {
		as = append(as, a)
	}
	sort.Strings(as)
	sd, _ := strconv.Atoi(seed)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": sd, "level": "proof",
		"coverage": map[string]any{
			"obligations": nOb, "discharged": nDi,
			"checker_cmd":               "bin/gvc check -prop " + prop + " -tier " + tier,
			"trusted_base":              []string{"gvc (symbolic executor over go/ssa, /verif/gvc)", "golang.org/x/tools/go/ssa", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2", "the library models and facts listed under assumptions"},
			"contracts":                 per,
			"functions_under_contract":  sortedKeys(targets),
			"functions_executed":        sortedKeys(fnset),
			"discharged_by":             bySolver,
			"solver_time":               st,
			"loop_invariants_inductive": inv,
			"vacuity_checks":            covers,
			"known_findings":            len(kn),
		},
		"assumptions": as, "wall_s": round2(wall), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
