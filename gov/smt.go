package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// What the simplifier and the case splits leave goes to z3: linear arithmetic, booleans and
// uninterpreted functions; searches are described by their defining property.

func init() { smtProve = smtTry }

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var z3p *z3proc

func z3start() *z3proc {
	c := exec.Command("z3", "-in", "-smt2")
	in, e1 := c.StdinPipe()
	out, e2 := c.StdoutPipe()
	if e1 != nil || e2 != nil || c.Start() != nil {
		return nil
	}
	return &z3proc{c, in, bufio.NewReader(out)}
}

func z3stop() {
	if z3p != nil {
		z3p.in.Close()
		_ = z3p.cmd.Process.Kill()
		_ = z3p.cmd.Wait()
		z3p = nil
	}
}

// z3ask gives the first line z3 answers to the script.
func z3ask(script string, limit time.Duration) string {
	if z3p == nil {
		if z3p = z3start(); z3p == nil {
			return "unknown"
		}
	}
	ch := make(chan string, 1)
	p := z3p
	go func() {
		if _, e := io.WriteString(p.in, script); e != nil {
			ch <- "unknown"
			return
		}
		first := ""
		for {
			l, e := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "end-of-answer" {
				break
			}
			if first == "" && l != "" {
				first = l
			}
			if e != nil {
				break
			}
		}
		ch <- first
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit + 2*time.Second):
		z3stop()
		return "unknown"
	}
}

type smtEnc struct {
	sorts  map[string]string
	funs   map[string]string
	decl   strings.Builder
	def    strings.Builder
	memo   map[*Term]string
	strs   []string
	firsts map[*Term]bool
	tags   map[*Term][]string // the type tests on a term
	size   int
	ok     bool
	ground []*Term
}

func newEnc() *smtEnc {
	return &smtEnc{sorts: map[string]string{}, funs: map[string]string{}, memo: map[*Term]string{}, firsts: map[*Term]bool{}, tags: map[*Term][]string{}, ok: true}
}

func (e *smtEnc) sort(s *Sort) string {
	switch s.kind {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	}
	if n, ok := e.sorts[s.name]; ok {
		return n
	}
	n := "S" + strconv.Itoa(len(e.sorts))
	e.sorts[s.name] = n
	fmt.Fprintf(&e.decl, "(declare-sort %s 0)\n", n)
	return n
}

func (e *smtEnc) fun(key string, args []*Sort, res *Sort) string {
	k := key
	for _, a := range args {
		k += "|" + a.name
	}
	k += ">" + res.name
	if n, ok := e.funs[k]; ok {
		return n
	}
	n := "f" + strconv.Itoa(len(e.funs))
	e.funs[k] = n
	var as []string
	for _, a := range args {
		as = append(as, e.sort(a))
	}
	fmt.Fprintf(&e.decl, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), e.sort(res))
	return n
}

var boundMemo = map[*Term][]*Term{}

// boundVars are the variables of binders that occur free in t.
func boundVars(t *Term) []*Term {
	if t.op == OVar {
		if t.name[0] == '#' || t.name[0] == '@' {
			return []*Term{t}
		}
		return nil
	}
	if len(t.args) == 0 {
		return nil
	}
	if r, ok := boundMemo[t]; ok {
		return r
	}
	var out []*Term
	seen := map[*Term]bool{}
	for i, a := range t.args {
		for _, v := range boundVars(a) {
			if isBinder(t) && i == len(t.args)-1 && (v == idxVar(t.idx) || t.op == OFold && v == accVar(t.idx, t.sort)) {
				continue
			}
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	boundMemo[t] = out
	return out
}

// isOpen says whether t has a free variable of a binder.
func isOpen(t *Term) bool { return len(boundVars(t)) > 0 }

func (e *smtEnc) enc(t *Term) string {
	if s, ok := e.memo[t]; ok {
		return s
	}
	if !e.ok {
		return "true"
	}
	s := e.enc0(t)
	e.size += len(s)
	if e.size > 3000000 {
		e.ok = false
	}
	if len(s) > 40 && !isOpen(t) {
		n := "t" + strconv.Itoa(t.id)
		fmt.Fprintf(&e.def, "(define-fun %s () %s %s)\n", n, e.sort(t.sort), s)
		s = n
	}
	e.memo[t] = s
	if t.sort == IntS && t.op != OInt && !isOpen(t) {
		e.ground = append(e.ground, t)
	}
	return s
}

func (e *smtEnc) app(op string, ts ...*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, t := range ts {
		b.WriteString(" " + e.enc(t))
	}
	b.WriteString(")")
	return b.String()
}

func (e *smtEnc) enc0(t *Term) string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OInt:
		if t.n.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.n.String(), "-") + ")"
		}
		return t.n.String()
	case OStr:
		n := e.fun("str:"+t.name, nil, t.sort)
		e.strs = append(e.strs, n)
		return n
	case OVar:
		if t.name[0] == '#' {
			return "b" + t.name[1:]
		}
		if t.name[0] == '@' {
			return e.fun("acc:"+t.name, nil, t.sort)
		}
		return e.fun("var:"+t.name, nil, t.sort)
	case ONot:
		return e.app("not", t.args...)
	case OAnd:
		return e.app("and", t.args...)
	case OOr:
		return e.app("or", t.args...)
	case OEq:
		return e.app("=", t.args...)
	case OIte:
		return e.app("ite", t.args...)
	case OAdd:
		return e.app("+", t.args...)
	case OMul:
		return e.app("*", t.args...)
	case OLe:
		return e.app("<=", t.args...)
	case OMod:
		if t.args[1].op == OInt && t.args[1].n.Sign() > 0 && t.args[0].nonNeg {
			return e.app("mod", t.args...)
		}
	case OExists:
		b := "b" + strconv.Itoa(t.idx)
		lim := ""
		if t.args[0] != Inf {
			lim = "(< " + b + " " + e.enc(t.args[0]) + ")"
		}
		return "(exists ((" + b + " Int)) (and (<= 0 " + b + ") " + lim + " " + e.enc(t.args[1]) + "))"
	}
	if isBinder(t) {
		// a value of its own for every value of the variables around it
		bv := boundVars(t)
		var so []*Sort
		for _, v := range bv {
			if v.name[0] == '@' {
				e.ok = false
				return "true"
			}
			so = append(so, v.sort)
		}
		n := e.fun("binder:"+strconv.Itoa(t.id), so, t.sort)
		if len(bv) == 0 {
			if t.op == OFirst {
				e.firsts[t] = false
			}
			return n
		}
		var b strings.Builder
		b.WriteString("(" + n)
		for _, v := range bv {
			b.WriteString(" " + e.enc(v))
		}
		return b.String() + ")"
	}
	key := strconv.Itoa(int(t.op)) + ":" + t.name + ":" + strconv.Itoa(t.idx)
	var so []*Sort
	for _, a := range t.args {
		so = append(so, a.sort)
	}
	n := e.fun(key, so, t.sort)
	if (t.op == OIsT || t.op == OIsNil) && !isOpen(t) {
		e.tags[t.args[0]] = append(e.tags[t.args[0]], n)
	}
	if len(t.args) == 0 {
		return n
	}
	return e.app(n, t.args...)
}

var smtMemo = map[string]bool{}

const smtBudget = 40 * time.Second

func smtTry(p *Prover, f *Facts, goal *Term) bool {
	if p.smtTime > smtBudget || !smtWorth(f, goal) {
		return false
	}
	return smtAsk(p, f, goal)
}

func smtAsk(p *Prover, f *Facts, goal *Term) bool {
	limit := 4000000 // resource units, not time: the answer does not depend on the machine's load
	if p.quiet {
		limit = 800000
	}
	e := newEnc()
	var as []string
	for _, l := range f.order {
		as = append(as, e.enc(l))
	}
	g := e.enc(goal)
	// searches
	for again := true; again && e.ok; {
		again = false
		for t, done := range e.firsts {
			if done {
				continue
			}
			e.firsts[t] = true
			again = true
			v := e.enc(t)
			as = append(as, "(<= 0 "+v+")")
			at := func(j *Term) string { return e.enc(openB(t, j, nil)) }
			if t.args[0] == Inf {
				as = append(as, at(t))
			} else {
				n := e.enc(t.args[0])
				as = append(as, "(=> (< "+v+" "+n+") "+at(t)+")", "(or (<= "+v+" "+n+") (= "+v+" 0))")
			}
			as = append(as, "(=> (< 0 "+v+") (not "+at(mkInt(0))+"))")
			as = append(as, "(=> (< 0 "+v+") (not "+at(mkSub(t, mkInt(1)))+"))")
			if !isOpen(t) {
				b := "b" + strconv.Itoa(t.idx)
				as = append(as, "(forall (("+b+" Int)) (=> (and (<= 0 "+b+") (< "+b+" "+v+")) (not "+e.enc(t.args[1])+")))")
			}
		}
		if len(e.firsts) > 60 {
			break
		}
	}
	if !e.ok {
		return false
	}
	for _, t := range e.ground {
		if t.nonNeg && t.op != OAdd && t.op != OMul && t.op != OIte {
			as = append(as, "(<= 0 "+e.memo[t]+")")
		}
	}
	for x, ns := range e.tags {
		seen := map[string]bool{}
		var us []string
		for _, n := range ns {
			if !seen[n] {
				seen[n] = true
				us = append(us, n)
			}
		}
		for i := range us {
			for j := 0; j < i; j++ {
				as = append(as, fmt.Sprintf("(not (and (%s %s) (%s %s)))", us[i], e.memo[x], us[j], e.memo[x]))
			}
		}
	}
	var b strings.Builder
	b.WriteString("(reset)\n(set-option :rlimit " + strconv.Itoa(limit) + ")\n")
	open := map[*Term]bool{}
	for _, t := range append([]*Term{goal}, f.order...) {
		for _, v := range boundVars(t) {
			if v.name[0] == '#' && !open[v] {
				open[v] = true
				b.WriteString("(declare-fun b" + v.name[1:] + " () Int)\n(assert (<= 0 b" + v.name[1:] + "))\n")
			}
		}
	}
	b.WriteString(e.decl.String())
	b.WriteString(e.def.String())
	seen := map[string]bool{}
	var us []string
	for _, s := range e.strs {
		if !seen[s] {
			seen[s] = true
			us = append(us, s)
		}
	}
	if len(us) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(us, " ") + "))\n")
	}
	for _, a := range as {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(assert (not " + g + "))\n(check-sat)\n(echo \"end-of-answer\")\n")
	k := b.String()
	if r, ok := smtMemo[k]; ok {
		return r
	}
	t0 := time.Now()
	ans := z3ask(k, 20*time.Second)
	p.smtTime += time.Since(t0)
	if strings.HasPrefix(ans, "(error") {
		debugf("z3: %s\n", ans)
	}
	r := ans == "unsat"
	if r {
		p.smtUsed++
	}
	smtMemo[k] = r
	return r
}

// smtEquiv: the conditions are equivalent where the fact holds.
func smtEquiv(a, b, fact *Term) bool {
	if a == b {
		return true
	}
	m := map[*Term]*Term{}
	for _, t := range []*Term{a, b, fact} {
		for _, v := range boundVars(t) {
			m[v] = mkVar("c"+v.name, v.sort)
		}
	}
	if len(m) > 0 {
		a, b, fact = substMap(a, m), substMap(b, m), substMap(fact, m)
	}
	f := newFacts()
	f.add(fact)
	p := newProver()
	p.quiet = true
	return smtTry(p, f, intern(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}}))
}

// smtWorth: z3 is asked where arithmetic or searches are involved.
func smtWorth(f *Facts, goal *Term) bool {
	if goal.sort != BoolS {
		return false
	}
	return len(firstsIn(goal)) > 0 || arith(goal)
}

func arith(t *Term) bool {
	switch t.op {
	case OLe:
		return true
	case OEq:
		return t.args[0].sort == IntS || arith(t.args[0]) || arith(t.args[1])
	case ONot, OAnd, OOr, OIte:
		for _, a := range t.args {
			if arith(a) {
				return true
			}
		}
	}
	return t == False || t.op == OVar && strings.HasPrefix(t.name, "bottom:") // of an impossible case
}
