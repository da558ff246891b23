package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A check decides one property: every contract labelled with it, and every contract those rest on, is
// verified against the current source; labelled obligations that fail are violations.

// wide properties hold of every function of a kind; a failed contract violates one of these only if what
// was observed says so.
var wideWriter = []string{"B01", "B02", "B03", "S01", "S02", "I01", "I02"}
var wideFunc = []string{"I01"}

// what takes names: S02 says that they are kept
var takesNames = []string{"builder.ToColumn", "builder.ToColumns", "builder.ToTable", "builder.ToTables", "builder.ToFrom",
	"builder.ToInto", "builder.ToSelectExpressions"}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (c *Contract) wide(prop string) bool {
	if c.kind == "writer" {
		return has(wideWriter, prop)
	}
	return has(wideFunc, prop) || prop == "S02" && has(takesNames, c.name)
}

// judged properties are about less than the contracts that imply them: what was observed decides.
func judged(prop string, c *Contract) bool {
	return prop == "J01" || prop == "J02" || prop == "C01" && parses(c)
}

func parses(c *Contract) bool {
	return c != nil && (c.name == "parser.ParseJoin" || c.name == "parser.MustParseJoin")
}

// through are the contracts whose runs may show a failure elsewhere.
func (p *Program) through(prop string, failed *Contract) []*Contract {
	var out []*Contract
	for _, c := range p.clist {
		if judged(prop, failed) && parses(c) || prop == "X01" && c.name == "lexer.(*Lexer).Iterator" {
			out = append(out, c)
		}
	}
	return out
}

// facetsOf says which observed differences falsify a wide property.
func facetsOf(prop, kase string, fs []string) bool {
	any := func(w ...string) bool {
		for _, f := range fs {
			if has(w, f) {
				return true
			}
		}
		return false
	}
	switch prop {
	case "B01":
		return any("std", "misaligned")
	case "B02":
		return any("named", "misaligned")
	case "B03":
		return any("std", "named", "raw")
	case "S01":
		return any("unbound")
	case "S02":
		return any("ident") || has(takesNames, kase) && any("result")
	case "I01":
		return any("mutate")
	case "I02":
		return any("mutate", "again", "concurrent")
	case "C01":
		return !strings.HasPrefix(kase, "parser.") || any("dropped")
	case "J01":
		return kase == "parser.must" || any("panic", "runtime", "hang", "crash")
	case "J02":
		return kase == "parser.join" && any("form") || kase == "parser.must" && any("form")
	}
	return true
}

type checkResult struct {
	all     []*Result
	byName  map[string]*Result
	dropped []string
}

// unexported internal functions can be looked through when their contract does not hold.
func droppable(c *Contract) bool {
	if c.aux {
		return true
	}
	if c.target == nil {
		n := c.name[strings.LastIndex(c.name, ".")+1:]
		return !ast.IsExported(n)
	}
	return !ast.IsExported(c.target.Name())
}

func (p *Program) verifySet(want func(*Contract) bool) *checkResult {
	cr := &checkResult{byName: map[string]*Result{}}
	byName := map[string]*Contract{}
	for _, c := range p.clist {
		byName[c.name] = c
	}
	// internal functions first: when a contract of one does not hold any more its callers look into it
	for round := 0; round < 4; round++ {
		again := false
		for _, c := range p.clist {
			if c.kind == "symbol" || !droppable(c) || has(cr.dropped, c.name) {
				continue
			}
			r := cr.byName[c.name]
			if r == nil {
				r = verifyContract(c)
				cr.byName[c.name] = r
			}
			if !r.ok {
				cr.dropped = append(cr.dropped, c.name)
				if c.target != nil {
					delete(p.contracts, c.target)
				}
				again = true
			}
		}
		if !again {
			break
		}
		// those that rest on a dropped contract are verified again
		for n, r := range cr.byName {
			for _, d := range r.deps {
				if has(cr.dropped, d) && !has(cr.dropped, n) {
					delete(cr.byName, n)
				}
			}
		}
	}
	var todo []*Contract
	for _, c := range p.clist {
		if want(c) {
			todo = append(todo, c)
		}
	}
	done := map[string]bool{}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if done[c.name] || c.kind == "symbol" {
			continue
		}
		done[c.name] = true
		r := cr.byName[c.name]
		if r == nil {
			r = verifyContract(c)
			cr.byName[c.name] = r
		}
		cr.all = append(cr.all, r)
		for _, d := range r.deps {
			if dc := byName[d]; dc != nil && !done[d] {
				todo = append(todo, dc)
			}
		}
	}
	sort.Slice(cr.all, func(i, j int) bool { return cr.all[i].name < cr.all[j].name })
	applyDescents(cr.all)
	return cr
}

// failure is a failed obligation of a property.
type failure struct {
	name, why, detail string
	c                 *Contract
	wide              bool
	frame             bool
	cands             []*Contract // other contracts whose runs may show it
}

func labelled(prop string) func(c *Contract) bool {
	return func(c *Contract) bool { return has(c.props, prop) || c.wide(prop) }
}

// failures lists the failed obligations of a property, and the failed contracts that only others rest on.
func (p *Program) failures(prop string, cr *checkResult, pruned []prunedDecl) (fails []failure, other []string) {
	label := labelled(prop)
	// contracts whose text no longer compiles against the code
	for _, pr := range pruned {
		if has(pr.props, prop) {
			fails = append(fails, failure{name: pr.name, why: "the contract does not fit the code any more: " + pr.err})
		}
	}
	for _, r := range cr.all {
		if r.ok || has(cr.dropped, r.name) {
			continue
		}
		if !label(r.contract) {
			other = append(other, r.name)
			continue
		}
		d := ""
		for i, q := range r.residual {
			if i < 3 {
				d += "  not discharged: " + cut(q.goal.String(), 3000) + "\n"
				for k, f := range q.facts {
					if k < 20 {
						d += "    given " + cut(f.String(), 600) + "\n"
					}
				}
			}
		}
		fails = append(fails, failure{name: r.name, why: r.err + " " + r.pos, detail: d, c: r.contract, wide: !has(r.contract.props, prop) || judged(prop, r.contract), cands: p.through(prop, r.contract)})
	}
	for _, r := range p.extra(prop) {
		cr.all = append(cr.all, r)
		if !r.ok {
			f := failure{name: r.kind + " " + r.name, why: r.err + " " + r.pos, detail: r.detail, c: r.contract}
			if r.fn != nil {
				f.frame = true
				f.c = nil
				f.cands = p.showing(r.fn)
			}
			fails = append(fails, f)
		}
	}
	return fails, other
}

// candidates are the contracts to be run against the code.
func candidates(fails []failure) []*Contract {
	var cs []*Contract
	in := map[*Contract]bool{}
	for _, f := range fails {
		for _, c := range append([]*Contract{f.c}, f.cands...) {
			if c != nil && !in[c] {
				in[c] = true
				cs = append(cs, c)
			}
		}
	}
	return cs
}

// judge decides which failed obligations are violations of the property; concrete counts failing inputs.
func judge(prop string, fails []failure, rep *ReplayReport, found map[string][]Finding, body *strings.Builder) (nviol, concrete int) {
	for _, f := range fails {
		var hit []Finding
		tried := 0
		for _, c := range append([]*Contract{f.c}, f.cands...) {
			if c == nil {
				continue
			}
			for _, g := range found[caseOf(c)] {
				tried++
				if !f.wide && !f.frame || facetsOf(prop, g.Case, g.Facets) {
					hit = append(hit, g)
				}
			}
		}
		if f.wide && tried > 0 && len(hit) == 0 {
			fmt.Fprintf(body, "\nobligation %s: %s\n  (its inputs that differ from the contract do not break %s)\n", f.name, f.why, prop)
			continue
		}
		nviol++
		fmt.Fprintf(body, "\nfailed obligation %s: %s\n%s", f.name, f.why, f.detail)
		for _, g := range hit {
			concrete++
			fmt.Fprintf(body, "  failing input (case %s seed %d index %d)\n    input    %s\n    differs  %s\n    code     %s\n    contract %s\n", g.Case, g.Seed, g.Index, g.Input, g.What, g.Code, g.Spec)
		}
		if len(hit) == 0 {
			n := 0
			for _, c := range append([]*Contract{f.c}, f.cands...) {
				if rep != nil && c != nil {
					n += rep.Runs[caseOf(c)]
				}
			}
			fmt.Fprintf(body, "  no failing input among %d runs of the executable contract\n", n)
		}
	}
	return nviol, concrete
}

// runTriage says under which properties the failed obligations of the present tree are reported: + with a
// failing input, ? without. It serves to test the attribution of failures to properties.
func runTriage(verif, repo string, props []string) int {
	p, pruned, err := loadPruned(verif, repo)
	if err != nil {
		fmt.Println("load", err)
		return 1
	}
	if err := p.readDirectives(); err != nil {
		fmt.Println(err)
		return 2
	}
	p.bindDirectives()
	p.initGlobals()
	cr := p.verifySet(func(*Contract) bool { return true })
	all := map[string][]failure{}
	var every []failure
	bad := map[string]bool{}
	for _, prop := range props {
		c2 := &checkResult{all: cr.all, byName: cr.byName, dropped: cr.dropped}
		fs, other := p.failures(prop, c2, pruned)
		all[prop] = fs
		every = append(every, fs...)
		for _, f := range fs {
			bad[f.name] = true
		}
		for _, o := range other {
			bad[o] = true
		}
	}
	found := map[string][]Finding{}
	var rep *ReplayReport
	if cs := candidates(every); len(cs) > 0 {
		secs := 60.0 / float64(len(cs))
		secs = min(max(secs, 2), 10)
		p.conc = true
		rep = p.replay(verif, repo, cs, 1, secs, 200000, 120*time.Second)
		for _, f := range rep.Findings {
			found[f.Case] = append(found[f.Case], f)
			debugf("%s %v %s\n%s\n code %s\n spec %s\n", f.Case, f.Facets, f.What, f.Input, f.Code, f.Spec)
		}
	}
	var names, out []string
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, prop := range props {
		var b strings.Builder
		n, c := judge(prop, all[prop], rep, found, &b)
		if c > 0 {
			out = append(out, prop+"+")
		} else if n > 0 {
			out = append(out, prop+"?")
		}
	}
	facets := map[string]bool{}
	for _, fs := range found {
		for _, f := range fs {
			for _, x := range f.Facets {
				facets[x] = true
			}
		}
	}
	var fl []string
	for x := range facets {
		fl = append(fl, x)
	}
	sort.Strings(fl)
	fmt.Printf("failed [%s] facets [%s] reported [%s]\n", strings.Join(names, " "), strings.Join(fl, " "), strings.Join(out, " "))
	return 0
}

func runCheck(verif, repo, prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	repDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	repFile := filepath.Join(repDir, prop+".txt")
	os.Remove(repFile)

	p, pruned, err := loadPruned(verif, repo)
	if err != nil {
		body := fmt.Sprintf("property %s\nobligation: the contracts and the code load together\nverifier output:\n%s\n", prop, err)
		os.WriteFile(repFile, []byte(body), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, repFile)
		writeEvidence(verif, prop, tier, seed, nil, nil, nil, 1, start)
		return 1
	}
	if err := p.readDirectives(); err != nil {
		fmt.Println(err)
		return 2
	}
	p.bindDirectives()
	p.initGlobals()
	label := labelled(prop)
	cr := p.verifySet(label)
	fails, other := p.failures(prop, cr, pruned)

	// replay
	var rep *ReplayReport
	nviol := 0
	var body strings.Builder
	if len(fails) > 0 {
		fmt.Fprintf(&body, "property %s\n", prop)
		cs := candidates(fails)
		// the callers of failed contracts are tried too: they may show what an internal function hides
		found := map[string][]Finding{}
		if len(cs) > 0 {
			budget := 240 * time.Second
			secs := 120.0 / float64(len(cs))
			if secs > 25 {
				secs = 25
			}
			if secs < 2 {
				secs = 2
			}
			p.conc = prop == "I02"
			rep = p.replay(verif, repo, cs, seed, secs, 200000, budget)
			for _, f := range rep.Findings {
				found[f.Case] = append(found[f.Case], f)
			}
		}
		concrete := 0
		nviol, concrete = judge(prop, fails, rep, found, &body)
		if rep != nil && rep.err != "" {
			fmt.Fprintf(&body, "\nreplay: %s\n", rep.err)
		}
		os.WriteFile(repFile, []byte(body.String()), 0o644)
		if nviol > 0 {
			fmt.Print(cut(body.String(), 6000), "\n")
			if concrete > 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, repFile)
			} else {
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, repFile)
			}
		}
	}
	for _, n := range other {
		fmt.Printf("note: %s, on which %s does not depend by itself, does not meet its contract\n", n, prop)
	}
	if nviol == 0 && tier == "thorough" && len(fails) == 0 {
		var cs []*Contract
		for _, r := range cr.all {
			if r.contract != nil && label(r.contract) {
				cs = append(cs, r.contract)
			}
		}
		rep = p.replay(verif, repo, cs, seed, 5, 20000, 600*time.Second)
		for _, f := range rep.Findings {
			if len(f.Facets) == 0 {
				continue
			}
			nviol++
			fmt.Fprintf(&body, "sampled run of a proved contract differs\n  case %s seed %d index %d\n    input    %s\n    differs  %s\n    code     %s\n    contract %s\n", f.Case, f.Seed, f.Index, f.Input, f.What, f.Code, f.Spec)
		}
		if nviol > 0 {
			os.WriteFile(repFile, []byte(body.String()), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, repFile)
		}
	}
	writeEvidence(verif, prop, tier, seed, cr, rep, p, nviol, start)
	if nviol > 0 {
		return 1
	}
	n, d := 0, 0
	for _, r := range cr.all {
		n += r.obls
		if r.ok {
			d += r.obls
		}
	}
	fmt.Printf("%s: %d functions and lemmas, %d of %d obligations discharged, %.1fs\n", prop, len(cr.all), d, n, time.Since(start).Seconds())
	return 0
}

func writeEvidence(verif, prop, tier string, seed int64, cr *checkResult, rep *ReplayReport, p *Program, nviol int, start time.Time) {
	cov := map[string]interface{}{
		"obligations": 0, "discharged": 0,
		"checker_cmd": "bin/gov check " + prop,
		"trusted_base": []string{
			"gov: the symbolic executor, loop summariser and prover in /verif/gov (its results are sampled against the code by 'gov conform' and the thorough tier)",
			"go/types and golang.org/x/tools/go/ssa: the translation of the source that is compiled",
			"the contracts in /verif/contracts state the property",
		},
	}
	var assume []string
	if cr != nil {
		obls, dis, st := 0, 0, 0
		var smt time.Duration
		var solve float64
		var fns, exported []string
		used := map[string]bool{}
		smtN := 0
		nrun := 0
		for _, r := range cr.all {
			obls += r.obls
			if r.ok {
				dis += r.obls
			}
			st += r.byStruct
			smtN += r.bySMT
			smt += r.smtTime
			solve += r.elapsed.Seconds()
			if r.contract != nil {
				fns = append(fns, r.name)
				if r.reach {
					nrun++
				}
			} else {
				exported = append(exported, r.kind+" "+r.name)
			}
			for u := range r.used {
				used[u] = true
			}
		}
		sort.Strings(fns)
		for u := range used {
			assume = append(assume, u)
		}
		cov["obligations"] = obls
		cov["discharged"] = dis
		cov["functions_under_contract"] = fns
		cov["functions_under_contract_count"] = len(fns)
		cov["other_obligations"] = exported
		cov["contracts_with_a_returning_path"] = nrun
		cov["goals_closed_by_gov_prover"] = st
		cov["goals_closed_by_smt"] = smtN
		cov["prover_s"] = solve
		cov["smt_s"] = smt.Seconds()
		cov["contracts_looked_through"] = cr.dropped
		if rep != nil {
			tot, ret := 0, 0
			for _, n := range rep.Runs {
				tot += n
			}
			for _, n := range rep.Returned {
				ret += n
			}
			cov["executable_contract_runs"] = tot
			cov["executable_contract_runs_returning"] = ret
			cov["executable_contract_seed"] = seed
		}
	}
	assume = append(assume, standingAssumptions...)
	sort.Strings(assume)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(start).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

var standingAssumptions = []string{
	"standard library functions meet the equations gov has for them (gov/intrin.go); those without equations are pure functions of their arguments",
	"machine integers of lengths and indices are treated as mathematical (no slice is longer than 2^62)",
	"statement implementations outside the library write a text and values that depend on the statement only",
	"callers do not change a slice or map during a call, nor values they bound before rendering",
	"memory is sufficient; no value is cyclic",
}

// prunedDecl is a contract that had to be left out because it does not compile against the code.
type prunedDecl struct {
	name  string
	props []string
	err   string
}

// loadPruned loads code and contracts; declarations of contract files that do not type-check are left out.
func loadPruned(verif, repo string) (*Program, []prunedDecl, error) {
	ov, names, err := contractFiles(verif, repo)
	if err != nil {
		return nil, nil, err
	}
	var pruned []prunedDecl
	for round := 0; ; round++ {
		p, err := loadRenamed(verif, repo, ov, names)
		if err == nil {
			return p, pruned, nil
		}
		if p == nil || round > 12 {
			return nil, pruned, err
		}
		cutAny := false
		byFile := map[string]map[int]string{}
		for _, e := range p.errs {
			// file:line:col: message
			fs := strings.SplitN(e, ":", 4)
			if len(fs) < 4 {
				continue
			}
			f := fs[0]
			if _, ok := ov[f]; !ok {
				continue
			}
			n, _ := strconv.Atoi(fs[1])
			if byFile[f] == nil {
				byFile[f] = map[int]string{}
			}
			byFile[f][n] = fs[3]
		}
		for f, lines := range byFile {
			src, ds := pruneFile(ov[f], lines)
			if len(ds) > 0 {
				cutAny = true
				ov[f] = src
				for _, d := range ds {
					if d.name != "" {
						pruned = append(pruned, d)
					}
				}
			}
		}
		if !cutAny {
			return nil, pruned, err
		}
	}
}

func pruneFile(src []byte, lines map[int]string) ([]byte, []prunedDecl) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, nil
	}
	var out []prunedDecl
	blank := func(a, b int) {
		for i := a; i < b && i < len(src); i++ {
			if src[i] != '\n' {
				src[i] = ' '
			}
		}
	}
	src = append([]byte{}, src...)
	for _, d := range f.Decls {
		from, to := fset.Position(d.Pos()), fset.Position(d.End())
		msg := ""
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				a, b := fset.Position(s.Pos()), fset.Position(s.End())
				if lines[a.Line] != "" {
					blank(a.Offset, b.Offset)
					out = append(out, prunedDecl{})
				}
			}
			continue
		}
		for n, m := range lines {
			if n >= from.Line && n <= to.Line {
				msg = m
			}
		}
		if msg == "" {
			continue
		}
		pd := prunedDecl{err: strings.TrimSpace(msg)}
		a := from.Offset
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			a = fset.Position(fd.Doc.Pos()).Offset
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//@ contract ") {
					pos, o := parseOpts(strings.Fields(c.Text[13:]))
					for _, n := range pos {
						if n != "aux" {
							pd.name = n
							out = append(out, prunedDecl{name: n, props: strings.Split(o["props"], ","), err: pd.err})
						}
					}
				}
			}
		}
		blank(a, to.Offset)
		if pd.name == "" {
			out = append(out, prunedDecl{})
		}
	}
	return src, out
}
