package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc check|prove|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		cmdProve(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		cmdReplay(os.Args[2:])
	case "list":
		reg, errs, err := load("/verif", "/repo")
		if err != nil || len(errs) > 0 {
			fmt.Println(err, errs)
			os.Exit(2)
		}
		for _, c := range reg.contracts {
			fmt.Println(c.name, c.props, c.target)
		}
	default:
		os.Exit(2)
	}
}

// cmdProve: development command, proves the contracts matching a pattern.
func cmdProve(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	fs.BoolVar(&verbose, "v", false, "")
	dump := fs.String("dump", "", "write the query of the named goal")
	q := fs.Float64("q", 3, "")
	full := fs.Float64("t", 20, "")
	cross := fs.Bool("cross", false, "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	pat := "."
	if fs.NArg() > 0 {
		pat = fs.Arg(0)
	}
	re := regexp.MustCompile(pat)
	reg, errs, err := load("/verif", *repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(errs) > 0 {
		fmt.Println(strings.Join(errs, "\n"))
		os.Exit(2)
	}
	s := newSolver(8)
	defer s.close()
	cfg := config{quick: *q, full: *full, candT: 1.5, cross: *cross}
	var cts []*Contract
	for _, c := range reg.contracts {
		if !c.dynamic && (re.MatchString(c.name) || re.MatchString(strings.Join(c.props, ","))) {
			cts = append(cts, c)
		}
	}
	fails := 0
	for _, c := range cts {
		v := generate(reg, c)
		v.discharge(s, cfg)
		var b strings.Builder
		v.report(&b)
		fmt.Print(b.String())
		fails += len(v.failed)
		if *dump != "" {
			for i, g := range v.goals {
				if strings.Contains(g.name, *dump) {
					os.WriteFile(fmt.Sprintf("/tmp/goal%d.smt2", i), []byte(v.query(g, true)), 0o644)
					for k, n := range strings.Split(v.query(g, false), nraSep) {
						os.WriteFile(fmt.Sprintf("/tmp/goal%d.nra%d.smt2", i, k), []byte(n), 0o644)
					}
					fmt.Println("dumped", g.name, fmt.Sprintf("/tmp/goal%d.smt2", i))
				}
			}
		}
	}
	fmt.Println("failed obligations:", fails, s.times, s.count)
}

// cmdReplay runs the contracts matching a pattern on generated inputs (self-test: the unchanged tree must show none failing).
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	fs.BoolVar(&verbose, "v", true, "")
	repo := fs.String("repo", "/repo", "")
	bud := fs.Float64("b", 3, "")
	seed := fs.String("seed", "1", "")
	fs.Parse(args)
	re := regexp.MustCompile(fs.Arg(0))
	reg, errs, err := load("/verif", *repo)
	if err != nil || len(errs) > 0 {
		fmt.Println(err, strings.Join(errs, "\n"))
		os.Exit(2)
	}
	var vs []*Verdict
	for _, c := range reg.contracts {
		if re.MatchString(c.name) || re.MatchString(strings.Join(c.props, ",")) {
			vs = append(vs, &Verdict{ct: c})
		}
	}
	oc := replay(reg, "/verif", *repo, vs, *bud, *seed)
	for _, v := range vs {
		o := oc[v.ct.name]
		if o == nil {
			fmt.Println(v.ct.name, "NO RESULT", v.ct.noreplay)
			continue
		}
		fmt.Printf("%s trials %d admitted %d found %v %s %v %s\n", o.Contract, o.Trials, o.Admitted, o.Found, o.What, o.Input, tail(o.Stack, 1500))
	}
}
