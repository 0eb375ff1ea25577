package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outcome struct {
	Contract string   `json:"contract"`
	Trials   int      `json:"trials"`
	Admitted int      `json:"admitted"`
	Found    bool     `json:"found"`
	What     string   `json:"what"`
	Input    []string `json:"input"`
	Trial    int      `json:"trial"`
	Seed     int64    `json:"seed"`
	Stack    string   `json:"stack"`
}

// hintOf converts a solver value into Go syntax the replay generator understands.
func hintOf(s string) (string, bool) {
	s = strings.TrimSpace(s)
	switch {
	case s == "true" || s == "false":
		return s, true
	case strings.HasPrefix(s, "#x"), strings.HasPrefix(s, "#b"):
		base := 16
		if s[1] == 'b' {
			base = 2
		}
		n, ok := new(big.Int).SetString(s[2:], base)
		if !ok {
			return "", false
		}
		w := len(s) - 2
		if base == 16 {
			w *= 4
		}
		return bvSigned(n, w).String(), true
	case strings.HasPrefix(s, "(fp "):
		p := strings.Fields(strings.Trim(s, "()"))
		if len(p) != 4 {
			return "", false
		}
		bits := ""
		for _, x := range p[1:] {
			if strings.HasPrefix(x, "#x") {
				n, _ := new(big.Int).SetString(x[2:], 16)
				b := n.Text(2)
				bits += strings.Repeat("0", (len(x)-2)*4-len(b)) + b
			} else {
				bits += x[2:]
			}
		}
		n, ok := new(big.Int).SetString(bits, 2)
		if !ok {
			return "", false
		}
		return strconv.FormatFloat(math.Float64frombits(n.Uint64()), 'g', -1, 64), true
	case strings.HasPrefix(s, "(_ NaN"):
		return "NaN", true
	case strings.HasPrefix(s, "(_ +oo"):
		return "+Inf", true
	case strings.HasPrefix(s, "(_ -oo"):
		return "-Inf", true
	case strings.HasPrefix(s, "(_ +zero"):
		return "0", true
	case strings.HasPrefix(s, "(_ -zero"):
		return "-0", true
	}
	r, ok := ratVal(sexp(s))
	if !ok {
		return "", false
	}
	if r.IsInt() {
		return r.Num().String(), true
	}
	f, _ := r.Float64()
	return strconv.FormatFloat(f, 'g', -1, 64), true
}

func ratVal(x any) (*big.Rat, bool) {
	switch y := x.(type) {
	case string:
		return new(big.Rat).SetString(strings.TrimSuffix(y, "?"))
	case []any:
		if len(y) == 2 && y[0] == "-" {
			r, ok := ratVal(y[1])
			if !ok {
				return nil, false
			}
			return r.Neg(r), true
		}
		if len(y) == 3 && y[0] == "/" {
			a, ok1 := ratVal(y[1])
			b, ok2 := ratVal(y[2])
			if !ok1 || !ok2 || b.Sign() == 0 {
				return nil, false
			}
			return a.Quo(a, b), true
		}
	}
	return nil, false
}

// replay searches for concrete failing inputs of the given contracts on the real code.
func replay(reg *Registry, verif, repo string, vs []*Verdict, budget float64, seed string) map[string]*outcome {
	out := map[string]*outcome{}
	byPkg := map[string][]*Verdict{}
	stands := map[string][]string{}
	for _, v := range vs {
		if v.ct.stress != "" {
			if d := reg.byName[v.ct.name[:strings.LastIndex(v.ct.name, ".")+1]+v.ct.stress]; d != nil {
				if stands[d.name] = append(stands[d.name], v.ct.name); len(stands[d.name]) == 1 {
					byPkg[d.pkgPath] = append(byPkg[d.pkgPath], &Verdict{ct: d})
				}
			}
			if !v.ct.alsoStress {
				continue
			}
		}
		if v.ct.noreplay {
			continue
		}
		byPkg[v.ct.pkgPath] = append(byPkg[v.ct.pkgPath], v)
	}
	var pkgs []string
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	tmp, err := os.MkdirTemp("", "gvcreplay")
	if err != nil {
		return out
	}
	defer os.RemoveAll(tmp)
	for _, p := range pkgs {
		runReplayPkg(reg, tmp, repo, p, byPkg[p], budget, seed, out)
	}
	for d, cs := range stands {
		for _, n := range cs {
			if o := out[d]; o != nil && (out[n] == nil || !out[n].Found) {
				out[n] = o
			}
		}
	}
	return out
}

func runReplayPkg(reg *Registry, tmp, repo, pkg string, vs []*Verdict, budget float64, seed string, out map[string]*outcome) {
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	rep := map[string]string{}
	for k, v := range reg.overlayNow {
		rep[k] = v
	}
	var b strings.Builder
	pname := ""
	var gens []string
	for _, p := range reg.pkgs {
		if p.PkgPath != pkg {
			continue
		}
		pname = p.Name
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			f, ok := sc.Lookup(n).(*types.Func)
			if !ok || !strings.HasPrefix(n, "vgen") {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.Params().Len() != 1 || sig.Results().Len() != 1 {
				continue
			}
			gens = append(gens, n)
		}
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"reflect\"\n\t\"testing\"\n\n\t\"%s\"\n)\n\n", pname, vpPath)
	fmt.Fprintf(&b, "func vgenReg[T any](m map[reflect.Type]func(*vp.Gen) any, f func(*vp.Gen) T) {\n\tm[reflect.TypeOf((*T)(nil)).Elem()] = func(g *vp.Gen) any { return f(g) }\n}\n\n")
	fmt.Fprintf(&b, "func TestZZVerifReplay(t *testing.T) {\n\tgens := map[reflect.Type]func(*vp.Gen) any{}\n")
	for _, g := range gens {
		fmt.Fprintf(&b, "\tvgenReg(gens, %s)\n", g)
	}
	fmt.Fprintf(&b, "\tvp.Main([]vp.Case{\n")
	type rq struct {
		Hints  []map[string]string `json:"hints"`
		Budget float64             `json:"budget"`
		Dict   *dict               `json:"dict"`
	}
	req := map[string]rq{}
	total := 0.0
	for _, v := range vs {
		var ps []string
		for _, p := range v.ct.fn.Params {
			ps = append(ps, strconv.Quote(p.Name()))
		}
		n := 400000
		if v.ct.replayN > 0 {
			n = v.ct.replayN
		}
		fmt.Fprintf(&b, "\t\t{Name: %q, Fn: %s, Bits: %v, Terminates: %v, N: %d, NoPanic: %v, Params: []string{%s}},\n",
			v.ct.name, v.ct.fn.Name(), v.ct.mode == Bits, v.ct.terminates, n, v.ct.nosafety["all"], strings.Join(ps, ", "))
		r := rq{Budget: budget, Dict: dictOf(v.ct.fn)}
		for _, g := range v.failed {
			if len(g.model) == 0 {
				continue
			}
			h := map[string]string{}
			for k, s := range g.model {
				if x, ok := hintOf(s); ok {
					h[k] = x
				}
			}
			r.Hints = append(r.Hints, h)
		}
		req[v.ct.name] = r
		total += budget + 10
	}
	fmt.Fprintf(&b, "\t}, gens)\n}\n")
	tf := filepath.Join(tmp, strings.ReplaceAll(rel, "/", "_")+"_replay_test.go")
	os.WriteFile(tf, []byte(b.String()), 0o644)
	rep[filepath.Join(repo, rel, "zz_verif_replay_test.go")] = tf
	ovb, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(tmp, strings.ReplaceAll(rel, "/", "_")+"_overlay.json")
	os.WriteFile(of, ovb, 0o644)
	rb, _ := json.Marshal(req)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total+240)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", of, "-vet=off", "-count=1", "-v", "-run", "^TestZZVerifReplay$", "-timeout", itoa(int(total)+120)+"s", "./"+rel)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VP_CASES="+string(rb), "VERIF_SEED="+seed)
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	err := cmd.Run()
	n := 0
	for _, ln := range strings.Split(o.String(), "\n") {
		if j, ok := strings.CutPrefix(ln, "VPRESULT "); ok {
			var oc outcome
			if json.Unmarshal([]byte(j), &oc) == nil {
				out[oc.Contract] = &oc
				n++
			}
		}
	}
	if n < len(vs) {
		// a crash of the test process that recover cannot catch (deadlock, fatal error) is itself an observation
		txt := o.String()
		if strings.Contains(txt, "all goroutines are asleep") || strings.Contains(txt, "fatal error: concurrent map") || strings.Contains(txt, "fatal error: sync:") || strings.Contains(txt, "fatal error: stack overflow") {
			for _, v := range vs {
				if out[v.ct.name] == nil {
					out[v.ct.name] = &outcome{Contract: v.ct.name, Found: true, What: "the real code aborts the process", Stack: tail(txt, 4000)}
					break
				}
			}
		} else if verbose || os.Getenv("GVC_TRACE") != "" {
			fmt.Println("replay:", err, tail(txt, 3000))
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// dict holds the constants of the code a contract reaches: inputs at and around them are worth trying.
type dict struct {
	F []float64 `json:"f"`
	I []int64   `json:"i"`
	S []string  `json:"s"`
}

func dictOf(root *ssa.Function) *dict {
	d := &dict{}
	fs, is, ss := map[float64]bool{}, map[int64]bool{}, map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(seen) > 400 {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		if f.Pkg != nil && (!strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Pkg.Pkg.Path() == vpPath) {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					switch x := (*o).(type) {
					case *ssa.Function:
						walk(x)
					case *ssa.Const:
						if x.Value == nil {
							continue
						}
						switch x.Value.Kind() {
						case constant.Int:
							if n, ok := constant.Int64Val(x.Value); ok {
								if n >= -1<<16 && n <= 1<<16 {
									is[n] = true
								}
								fs[float64(n)] = true
							}
						case constant.Float:
							y, _ := constant.Float64Val(x.Value)
							fs[y] = true
						case constant.String:
							if y := constant.StringVal(x.Value); len(y) < 40 && !strings.ContainsAny(y, " %:") {
								ss[y] = true
							}
						}
					}
				}
			}
		}
	}
	walk(root)
	delete(fs, 0)
	for x := range fs {
		d.F = append(d.F, x)
	}
	for x := range is {
		d.I = append(d.I, x)
	}
	for x := range ss {
		d.S = append(d.S, x)
	}
	sort.Float64s(d.F)
	sort.Slice(d.I, func(i, j int) bool { return d.I[i] < d.I[j] })
	sort.Strings(d.S)
	return d
}
