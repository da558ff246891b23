package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	if f := os.Getenv("GOV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	verif, repo := "/verif", "/repo"
	if v := os.Getenv("GOV_VERIF"); v != "" {
		verif = v
	}
	if v := os.Getenv("GOV_REPO"); v != "" {
		repo = v
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(verif, repo, os.Args[2]))
	}
	if len(os.Args) > 2 && os.Args[1] == "triage" {
		os.Exit(runTriage(verif, repo, os.Args[2:]))
	}
	p, err := load(verif, repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if err := p.readDirectives(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p.bindDirectives()
	p.initGlobals()
	if len(os.Args) > 1 && os.Args[1] == "uncovered" {
		for _, f := range p.libFuncs() {
			if p.contracts[f] == nil {
				fmt.Println(f.String(), f.Signature)
			}
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "frame" {
		n := 0
		for _, r := range p.frameResults() {
			n++
			if !r.ok {
				fmt.Printf("FAIL %s\n%s", r.name, r.detail)
			} else if len(os.Args) > 2 {
				fmt.Println("ok", r.name, r.obls)
			}
		}
		fmt.Println(n, "functions")
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "writefields" {
		if err := p.writeFields(verif); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "fields" {
		b, _ := json.MarshalIndent(p.fields(), "", " ")
		fmt.Println(string(b))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "conform" {
		var cs []*Contract
		for _, c := range p.clist {
			if len(os.Args) < 3 || strings.Contains(c.name, os.Args[2]) {
				cs = append(cs, c)
			}
		}
		r := p.replay(verif, repo, cs, 1, 3, 3000, 10*time.Minute)
		if r.err != "" {
			fmt.Println(r.err)
		}
		for _, c := range cs {
			n := caseOf(c)
			fmt.Println(n, r.Runs[n], r.Returned[n], r.Distinct[n])
		}
		for _, f := range r.Findings {
			fmt.Printf("%s #%d %v\n  input %s\n  what %s\n  code %s\n  spec %s\n", f.Case, f.Index, f.Facets, cut(f.Input, 600), f.What, cut(f.Code, 600), cut(f.Spec, 600))
		}
		return
	}
	pat := ""
	if len(os.Args) > 1 {
		pat = os.Args[1]
	}
	nok := 0
	order := append([]*Contract{}, p.clist...)
	if os.Getenv("GOV_ORDER") != "" { // another order of verification: results must not depend on it
		n, _ := strconv.Atoi(os.Getenv("GOV_ORDER"))
		rand.New(rand.NewSource(int64(n))).Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	if os.Getenv("GOV_ORDER") == "inner" {
		sort.SliceStable(order, func(i, j int) bool { return droppable(order[i]) && !droppable(order[j]) })
	}
	var rs []*Result
	for _, c := range order {
		if c.kind == "symbol" {
			continue
		}
		if pat != "" && !strings.Contains(c.name, pat) {
			continue
		}
		r := verifyContract(c)
		rs = append(rs, r)
		s := "ok  "
		if !r.ok {
			s = "FAIL"
		} else {
			nok++
		}
		fmt.Printf("%s %-40s obls=%d struct=%d smt=%d %.2fs %s %s\n", s, r.name, r.obls, r.byStruct, r.bySMT, r.elapsed.Seconds(), r.err, r.pos)
		if !r.ok && os.Getenv("GOV_DEBUG") != "" {
			for _, q := range r.residual {
				fmt.Println("   goal:", cut(q.goal.String(), 1500))
				for i, f := range q.facts {
					if i < 12 || strDepth > 12 {
						fmt.Println("      fact:", cut(f.String(), 300))
					}
				}
			}
		}
	}
	if os.Getenv("GOV_EDGES") != "" {
		for _, r := range rs {
			for _, e := range r.edges {
				fmt.Println("EDGE", e.from, e.to, e.fall, e.pos, e.why)
			}
		}
	}
	for n, es := range descents(rs) {
		nok--
		fmt.Println("FAIL", n, "recursion: the call of", es[0].to, "does not descend", es[0].pos, es[0].why)
	}
	fmt.Println(nok, "of", len(p.clist))
}

func cut(s string, n int) string {
	if strDepth > 12 {
		return s
	}
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// libFuncs are the declared functions and methods of the library.
func (p *Program) libFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(p.ssaProg) {
		if f.Pkg == nil || p.pkgs[f.Pkg.Pkg.Path()] == nil || f.Parent() != nil || p.isSpecFn(f) || f.Synthetic != "" {
			continue
		}
		if strings.Contains(f.Pkg.Pkg.Path(), "/examples") {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}
