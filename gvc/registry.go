package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Contract struct {
	name       string // package-relative: <pkg>.<func>
	fn         *ssa.Function
	props      []string
	mode       Mode
	target     string
	uses       []string
	opaque     map[string]bool
	locks      bool
	terminates bool
	iface      string
	nosafety   map[string]bool
	noreplay   bool
	timeout    int
	replayN    int
	pos        string
	pkgPath    string
	file       string
	desc       string
	alsoStress bool // the stress run comes on top of the ordinary replay
	stress     string
	ifaceOnly  bool
	dynamic    bool // only run, in the search for a failing input
}

type droppedContract struct {
	name, why string
	props     []string
}

type globInfo struct{}

type Registry struct {
	prog          *ssa.Program
	pkgs          []*packages.Package
	contracts     []*Contract
	byName        map[string]*Contract
	isUsed        map[string]bool
	loopCache     map[*ssa.Function]*loopRes
	statics       map[*Exec]map[string]*FuncV
	wraps         map[*Exec]map[int]*Term
	prov          map[*Exec]map[int]prov
	usedContracts map[string]bool
	guards        map[string]guardSpec
	specFiles     map[string]bool
	curIface      *Contract
	globStores    map[string]bool
	overlay       map[string]string
	overlayNow    map[string]string
	dropped       []droppedContract
	repo          string
}

type loopRes struct {
	l map[*ssa.BasicBlock]*loopInfo
	o []*ssa.BasicBlock
}

func (r *Registry) loops(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, []*ssa.BasicBlock) {
	if x, ok := r.loopCache[fn]; ok {
		return x.l, x.o
	}
	l, o := loopsOf(fn)
	r.loopCache[fn] = &loopRes{l, o}
	return l, o
}

func (r *Registry) isSpec(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if !f.Pos().IsValid() {
		return false
	}
	return r.specFiles[r.prog.Fset.Position(f.Pos()).Filename]
}

func (r *Registry) ifaceContract(ex *Exec, iname string) *Contract {
	for _, c := range r.contracts {
		if c.iface == iname {
			if ex.ct != nil {
				for _, u := range ex.ct.uses {
					if u == c.name {
						return c
					}
				}
			}
		}
	}
	return nil
}

// overlayFiles maps contract files under /verif/contracts into /repo paths.
func overlayFiles(verif, repo string) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verif, "contracts")
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		base := filepath.Base(rel)
		if dir != "internal/vp" {
			base = "zz_verif_" + base
		}
		out[filepath.Join(repo, dir, base)] = p
		return nil
	})
	return out, err
}

func load(verif, repo string) (*Registry, []string, error) {
	ov, err := overlayFiles(verif, repo)
	if err != nil {
		return nil, nil, err
	}
	r := &Registry{byName: map[string]*Contract{}, loopCache: map[*ssa.Function]*loopRes{}, statics: map[*Exec]map[string]*FuncV{},
		wraps: map[*Exec]map[int]*Term{}, prov: map[*Exec]map[int]prov{}, usedContracts: map[string]bool{}, guards: map[string]guardSpec{}, specFiles: map[string]bool{}, globStores: map[string]bool{}, overlay: ov, repo: repo}
	ovl := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ovl[k] = b
		r.specFiles[k] = true
	}
	r.overlayNow = map[string]string{}
	for k, v := range ov {
		r.overlayNow[k] = v
	}
	var pk []*packages.Package
	for attempt := 0; ; attempt++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ovl, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
		pk, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, nil, err
		}
		var errs []string
		var spec []packages.Error
		other := false
		packages.Visit(pk, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				f, _, _ := strings.Cut(e.Pos, ":")
				if r.specFiles[f] {
					spec = append(spec, e)
				} else {
					other = true
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		if (other && len(spec) == 0) || attempt > 5 {
			return r, errs, nil
		}
		// contracts that no longer fit the code are set aside, one declaration at a time
		if !r.dropDecls(ovl, spec) {
			return r, errs, nil
		}
	}
	prog, _ := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	r.prog = prog
	r.pkgs = pk
	for _, p := range pk {
		for _, f := range p.Syntax {
			fname := prog.Fset.Position(f.Package).Filename
			if !r.specFiles[fname] || strings.HasSuffix(p.PkgPath, "internal/vp") {
				continue
			}
			r.scanFile(p, f, fname)
		}
	}
	// globals stored outside package initialisers are not constants
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic == "package initializer" || fn.Name() == "init" && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := rootGlobal(s.Addr); ok {
						r.globStores[g] = true
					}
				}
			}
		}
	}
	sort.Slice(r.contracts, func(i, j int) bool { return r.contracts[i].name < r.contracts[j].name })
	if err := r.resolveUses(); err != nil {
		return nil, nil, err
	}
	return r, nil, nil
}

// dropDecls removes the declarations of contract files that do not type-check.
func (r *Registry) dropDecls(ovl map[string][]byte, errs []packages.Error) bool {
	byFile := map[string][]packages.Error{}
	for _, e := range errs {
		f, _, _ := strings.Cut(e.Pos, ":")
		byFile[f] = append(byFile[f], e)
	}
	did := false
	for f, es := range byFile {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, ovl[f], parser.ParseComments)
		if err != nil {
			continue
		}
		src := ovl[f]
		type span struct{ a, b int }
		var cuts []span
		rel := strings.TrimPrefix(filepath.Dir(f), r.repo)
		rel = strings.TrimPrefix(rel, "/")
		for _, d := range af.Decls {
			a, b := fset.Position(d.Pos()), fset.Position(d.End())
			for _, e := range es {
				parts := strings.Split(e.Pos, ":")
				if len(parts) < 2 {
					continue
				}
				ln := atoi(parts[1])
				if ln < a.Line || ln > b.Line {
					continue
				}
				st := a.Offset
				if fd, ok := d.(*ast.FuncDecl); ok {
					if fd.Doc != nil {
						st = fset.Position(fd.Doc.Pos()).Offset
						for _, c := range fd.Doc.List {
							if v, ok := strings.CutPrefix(c.Text, "//gvc:prop "); ok {
								r.dropped = append(r.dropped, droppedContract{name: rel + "." + fd.Name.Name, why: e.Msg,
									props: strings.FieldsFunc(v, func(r rune) bool { return r == ',' || r == ' ' })})
							}
						}
					}
				} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					// an import left unused after earlier cuts: keep it alive
					for _, sp := range gd.Specs {
						is := sp.(*ast.ImportSpec)
						if fset.Position(is.Pos()).Line == ln {
							cuts = append(cuts, span{fset.Position(is.Pos()).Offset, fset.Position(is.End()).Offset})
						}
					}
					did = true
					break
				}
				cuts = append(cuts, span{st, b.Offset})
				did = true
				break
			}
		}
		sort.Slice(cuts, func(i, j int) bool { return cuts[i].a > cuts[j].a })
		out := append([]byte{}, src...)
		last := len(out) + 1
		for _, c := range cuts {
			if c.b > last {
				continue
			}
			last = c.a
			// blank out, keeping line numbers
			for i := c.a; i < c.b; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
		}
		ovl[f] = out
		tmp := filepath.Join(os.TempDir(), "gvc_ov_"+strings.ReplaceAll(strings.Trim(f, "/"), "/", "_"))
		if os.WriteFile(tmp, out, 0o644) == nil {
			r.overlayNow[f] = tmp
		}
	}
	return did
}

func rootGlobal(v ssa.Value) (string, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x.Pkg.Pkg.Path() + "." + x.Name(), true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return "", false
		}
	}
}

func (r *Registry) scanFile(p *packages.Package, f *ast.File, fname string) {
	rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			// //gvc:guard Type.lock: field field
			if t, ok := strings.CutPrefix(c.Text, "//gvc:guard "); ok {
				l, fs, _ := strings.Cut(t, ":")
				tn, lf, _ := strings.Cut(strings.TrimSpace(l), ".")
				for _, fld := range strings.Fields(fs) {
					r.guards["O:"+rel+"."+tn+"."+fld] = guardSpec{lock: "L:O:" + rel + "." + tn + "." + lf}
				}
			}
		}
	}
	sp := r.prog.Package(p.Types)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		ct := &Contract{opaque: map[string]bool{}, nosafety: map[string]bool{}, file: fname}
		isC := false
		for _, c := range fd.Doc.List {
			t, ok := strings.CutPrefix(c.Text, "//gvc:")
			if !ok {
				if s := strings.TrimSpace(strings.TrimPrefix(c.Text, "//")); s != "" {
					ct.desc += s + " "
				}
				continue
			}
			k, v, _ := strings.Cut(t, " ")
			v = strings.TrimSpace(v)
			switch k {
			case "prop":
				isC = true
				ct.props = strings.FieldsFunc(v, func(r rune) bool { return r == ',' || r == ' ' })
			case "mode":
				if v == "bits" {
					ct.mode = Bits
				}
			case "target":
				ct.target = v
			case "use":
				ct.uses = append(ct.uses, strings.Fields(v)...)
			case "opaque":
				for _, x := range strings.Fields(v) {
					ct.opaque[x] = true
				}
			case "locks":
				ct.locks = true
			case "terminates":
				ct.terminates = true
			case "iface":
				ct.iface = v
				ct.ifaceOnly = true
				isC = true
			case "nosafety":
				for _, x := range strings.Fields(v + " ") {
					ct.nosafety[x] = true
				}
				if v == "" {
					ct.nosafety["all"] = true
				}
			case "noreplay":
				ct.noreplay = true
			case "timeout":
				ct.timeout = atoi(v)
			case "replay":
				ct.replayN = atoi(v)
			case "stress":
				ct.stress = v
			case "schedule":
				ct.stress, ct.alsoStress = v, true
			case "dynamic":
				ct.dynamic = true
				isC = true
			}
		}
		if !isC {
			continue
		}
		ct.pkgPath = p.PkgPath
		ct.name = rel + "." + fd.Name.Name
		ct.fn = sp.Func(fd.Name.Name)
		ct.pos = fname
		r.contracts = append(r.contracts, ct)
		r.byName[ct.name] = ct
	}
}

func atoi(s string) int {
	n := 0
	for _, ch := range s {
		if ch >= '0' && ch <= '9' {
			n = n*10 + int(ch-'0')
		}
	}
	return n
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// globalConst is a hook for package-level variables: handled through the initial heap (setupGlobals).
func (ex *Exec) globalConst(a *Addr, t types.Type) (Val, bool) { return nil, false }

// setupGlobals executes the initialisers of the packages whose variables the contract can reach.
func (ex *Exec) setupGlobals(root *ssa.Function, st *State) {
	pk := map[*ssa.Package]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !ex.inModule(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					switch x := (*o).(type) {
					case *ssa.Global:
						if strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) && !ex.reg.globStores[x.Pkg.Pkg.Path()+"."+x.Name()] {
							pk[x.Pkg] = true
						}
					case *ssa.Function:
						walk(x)
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if cc := c.Common(); cc.IsInvoke() {
						// any implementation in the module
						for _, t := range ex.implementers(cc.Value.Type()) {
							if m := ex.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
								walk(m)
							}
						}
					}
				}
			}
		}
	}
	walk(root)
	if len(pk) == 0 {
		return
	}
	var ps []*ssa.Package
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	cur := ex.c.Int(0)
	saved := st.cur
	st.cur = cur
	for _, p := range ps {
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		func() {
			backup := st.clone()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsup); !ok {
						panic(e)
					}
					*st = *backup
					ex.assumption("package variables of " + p.Pkg.Path() + " treated as arbitrary")
				}
			}()
			ex.initing = true
			ex.runInit(fn, st)
			ex.initing = false
		}()
		ex.initing = false
	}
	ex.axiom(ex.c.Le(st.cur, ex.base0))
	st.cur = saved
	ex.assumption("package-level variables hold their initial values (never reassigned outside initialisers)")
}

func (ex *Exec) implementers(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, p := range ex.reg.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			for _, c := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(c, it) {
					out = append(out, c)
					break
				}
			}
		}
	}
	return out
}

// runInit executes the straight-line initialiser, skipping the guard and imported inits.
func (ex *Exec) runInit(fn *ssa.Function, st *State) {
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}}
	fr.loops, fr.order = ex.reg.loops(fn)
	ex.stack = append(ex.stack, fn)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	// init: b0 tests the guard; b1 does the work
	for _, b := range fr.order {
		if b.Index == 0 {
			continue
		}
		if len(b.Preds) > 0 && b.Comment == "init.done" {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Jump, *ssa.Return, *ssa.If:
				if _, ok := ins.(*ssa.If); ok {
					panic(unsupported("branch in initialiser"))
				}
				continue
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.Name() == "init" {
					continue
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$guard") {
					continue
				}
			}
			ex.instr(fr, ins, st)
		}
	}
}

// resolveUses turns the names of used contracts into full names; a name that matches nothing is an error in the contracts.
func (r *Registry) resolveUses() error {
	for _, ct := range r.contracts {
		for i, u := range ct.uses {
			if r.byName[u] != nil {
				continue
			}
			full := ""
			for n := range r.byName {
				if strings.HasSuffix(n, "/"+u) {
					if full != "" {
						return fmt.Errorf("%s uses %s: ambiguous", ct.name, u)
					}
					full = n
				}
			}
			if full == "" {
				for _, d := range r.dropped {
					if d.name == u || strings.HasSuffix(d.name, "/"+u) {
						full = d.name
					}
				}
			}
			if full == "" {
				return fmt.Errorf("%s uses unknown contract %s", ct.name, u)
			}
			ct.uses[i] = full
		}
	}
	r.isUsed = map[string]bool{}
	for _, ct := range r.contracts {
		for _, u := range ct.uses {
			r.isUsed[u] = true
		}
	}
	return nil
}
