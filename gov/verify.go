package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of one verification task.
type Result struct {
	name     string
	kind     string // contract, lemma, dispatch, ...
	props    []string
	ok       bool
	err      string // why it failed
	pos      string
	obls     int // obligations generated
	byStruct int
	bySMT    int
	smtTime  time.Duration
	elapsed  time.Duration
	used     map[string]bool
	deps     []string
	residual []Residual
	contract *Contract
	reach    bool
	detail   string
	fn       *ssa.Function // of a frame obligation
	edges    []callEdge    // calls of the body
}

// extra are the obligations of a property that are not contracts of single functions.
func (p *Program) extra(prop string) []*Result {
	var out []*Result
	switch prop {
	case "I01", "I02":
		out = p.frameFor(prop)
	}
	return out
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

// guard runs f and turns an unsupported construct into an error.
func guard(r *Result, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.ok = false
				r.err = "not verifiable: " + u.msg
				r.pos = P.posStr(u.pos)
				return
			}
			if os.Getenv("GOV_PANIC") != "" {
				panic(e)
			}
			r.ok = false
			r.err = fmt.Sprintf("internal: %v", e)
		}
	}()
	f()
}

func symParam(x *Exec, st *State, name string, t types.Type) Value {
	return mkVar("in:"+name, sortOf(t))
}

func isContextType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/types")
}

// isStatementIface2 tells whether a method is one of the Statement interface, of a type of the library.
func isStatementIface2(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Signature.Recv() != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/stmt")
}

func exitsCond(es []Exit) *Term {
	var cs []*Term
	for _, e := range es {
		cs = append(cs, e.cond)
	}
	return mkOr(cs...)
}

func newProverExec(pr *Prover) *Exec {
	x := newExec()
	x.pr = pr
	x.proveEq = func(st *State, a, b *Term) bool {
		return pr.quietly(func() bool { return pr.prove(st.facts, mkEq(a, b)) })
	}
	return x
}

// outcome of running one function symbolically
type outcome struct {
	st    *State
	vals  []Value
	pan   *Term
	run   *Term // runtime panics only
	exits []Exit
}

func runFn(x *Exec, fn *ssa.Function, st *State, args []Value) outcome {
	mark := len(x.exits)
	vals, ns := x.runBody(st, fn, args, nil, fn.Pos())
	es := append([]Exit{}, x.exits[mark:]...)
	x.exits = x.exits[:mark]
	o := outcome{st: ns, vals: vals, pan: exitsCond(es), exits: es}
	var rt []Exit
	for _, e := range es {
		if e.kind == "runtime" {
			rt = append(rt, e)
		}
	}
	o.run = exitsCond(rt)
	return o
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

func (r *Result) fail(what string, pr *Prover) {
	r.ok = false
	if r.err == "" {
		r.err = what
	}
	r.residual = append(r.residual, pr.residual...)
}

// verifyContract checks one function against its contract.
func verifyContract(c *Contract) *Result {
	r := &Result{name: c.name, kind: "contract", props: c.props, ok: true, contract: c, used: map[string]bool{}}
	start := time.Now()
	defer func() { r.elapsed = time.Since(start) }()
	if c.target == nil {
		r.ok = false
		r.err = "function not found in /repo"
		return r
	}
	startClock()
	defer func() { deadline = time.Time{} }()
	guard(r, func() {
		outOfTime()
		verify1(r, c)
	})
	return r
}

func verify1(r *Result, c *Contract) {
	pr := newProver()
	x := newProverExec(pr)
	x.top = c.target
	fn := c.target
	st := newState()
	sst := newState()
	var args, sargs []Value
	x.open = map[string]bool{}
	for _, n := range strings.Split(c.opts["open"], ",") {
		x.open[n] = true
	}
	isWriter := c.kind == "writer"
	recvRef := -1
	np := len(fn.Params)
	for i, p := range fn.Params {
		if isWriter && i == np-1 {
			args = append(args, ctxVar)
			continue
		}
		if i == 0 && fn.Signature.Recv() != nil && isPtr(p.Type()) {
			el := p.Type().Underlying().(*types.Pointer).Elem()
			v := mkVar("in:"+p.Name(), sortOf(el))
			if w, ok := x.rep(st, v, p.Pos()); w != nil {
				v = w
				st.assume(ok)
				sst.assume(ok)
			}
			id := newRef()
			refSort[id] = v.sort
			st.heap[id] = x.refify(st, v)
			recvRef = id
			args = append(args, PtrV{ref: id, elem: v.sort})
			sargs = append(sargs, v)
			continue
		}
		name := p.Name()
		v := mkVar("in:"+name, sortOf(p.Type()))
		if w, ok := x.rep(st, v, p.Pos()); w != nil && !hasPtr(v.sort) {
			st.assume(ok)
			sst.assume(ok)
		}
		args = append(args, v)
		sargs = append(sargs, v)
	}
	if pre := c.requires; pre != nil {
		o := runFn(x, pre, sst, sargs)
		h := x.res(o.st, o.vals[0], pre.Pos())
		st.assume(h)
		sst.assume(h)
	}
	if nv := c.opts["nonnil"]; nv != "" {
		for i, p := range fn.Params {
			for _, n := range strings.Split(nv, ",") {
				if p.Name() == n {
					st.assume(mkNot(mkIsNil(sargs[i].(*Term))))
					sst.assume(mkNot(mkIsNil(sargs[i].(*Term))))
				}
			}
		}
	}
	base := append([]*Term{}, st.pc...)
	var spec outcome
	var cont0 *Term
	if c.opts["steps"] != "" {
		x.steps = stepFns(c, strings.Split(c.opts["steps"], ","))
		for _, f := range x.steps {
			P.opaque[f] = true
		}
		spec = runFn(x, c.spec, sst, sargs)
		for _, v := range spec.vals {
			t := x.res(spec.st, v, fn.Pos())
			walk(t, map[*Term]bool{}, func(u *Term) {
				if contFn(u) == x.steps[0] {
					cont0 = u
				}
			})
		}
		st.cont = cont0
	}
	x.tracking, x.self = true, c.name
	if len(args) == 1 {
		if t, ok := args[0].(*Term); ok && t.sort == AnyS {
			x.anyParam = t
		}
	}
	code := runFn(x, fn, st, args)
	x.tracking = false
	r.edges = x.edges
	if c.kind == "post" {
		return
	}
	if cont0 == nil {
		spec = runFn(x, c.spec, sst, sargs)
	}
	if len(spec.exits) > 0 && false {
		_ = spec
	}
	for k := range x.used {
		r.used[k] = true
	}
	for d := range x.deps {
		r.deps = append(r.deps, d.name)
	}
	hyp := factsOf(base)
	if os.Getenv("GOV_EXITS") != "" {
		for _, e := range code.exits {
			fmt.Println("code exit", P.posStr(e.pos), e.msg, e.cond)
		}
		for _, e := range spec.exits {
			fmt.Println("spec exit", P.posStr(e.pos), e.msg, e.cond)
		}
	}
	// 1. panics exactly when the contract says so
	r.obls++
	cp, sp := balance(code.pan, spec.pan)
	if !pr.prove(hyp, mkEq(cp, sp)) {
		r.fail("panics under other conditions than its contract says", pr)
	}
	// 1b. IsEmpty of a well-formed statement returns: what the reduction of pan:stmt.vEmp assumes of its parts
	if fn.Name() == "IsEmpty" && len(sargs) == 1 && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "stmt" {
		r.obls++
		h := hyp.clone()
		if v, ok := sargs[0].(*Term); ok && v.sort.kind == SStruct {
			for i, f := range v.sort.fields {
				if f == AnyS {
					h.add(mkNot(mkIsNil(mkSel(i, v))))
				}
			}
		}
		if !pr.prove(h, mkNot(spec.pan)) {
			r.fail("IsEmpty may panic on a well-formed statement", pr)
		}
	}
	// 1e. loops end
	r.obls++
	if says := c.opts["says"]; says != "" { // what it panics with is a text that starts so
		r.obls++
		odd := ""
		for _, e := range code.exits {
			if e.kind == "lib" && !saysFirst(e.msg, says) {
				odd = P.posStr(e.pos) + " " + cut(e.msg, 200)
			}
		}
		if odd != "" {
			r.fail("panics with another value than a message of the library, "+odd, pr)
		} else {
			r.byStruct++
		}
	}
	if len(x.unended) > 0 {
		r.fail("a loop is not shown to end, "+x.unended[0], pr)
	} else {
		r.byStruct++
	}
	// 1c. comparisons of sorts are strict total orders
	for _, l := range x.sortOrders {
		r.obls++
		if !strictOrder(l) {
			r.fail("the comparison of a sort is not shown to be a strict total order", pr)
		}
	}
	// 1d. what calls through the interface are taken to do is the contract of the method
	if sp := P.ifaceSpec[fn.Name()]; sp != nil && len(sargs) == 1 && isStatementIface2(fn) {
		r.obls++
		t := fn.Params[0].Type()
		v := sargs[0].(*Term)
		if _, ok := t.(*types.Pointer); !ok {
			ist := newState()
			for _, a := range sst.pc {
				ist.assume(a)
			}
			run := func(f *ssa.Function, a Value) outcome {
				mark := len(x.exits)
				vals, ns := x.applySpec(ist.clone(), f, []Value{a}, fn.Pos())
				o := outcome{st: ns, vals: vals, pan: exitsCond(append([]Exit{}, x.exits[mark:]...))}
				x.exits = x.exits[:mark]
				return o
			}
			a, b := run(sp, mkBox(typeKey(t), v)), run(c.spec, v)
			ok := pr.prove(hyp, mkEq(a.pan, b.pan)) && (a.st == nil) == (b.st == nil)
			if ok && a.st != nil {
				h := hyp.clone()
				h.add(mkNot(b.pan))
				h.add(mkAnd(append(append([]*Term{}, a.st.inv...), b.st.inv...)...))
				ok = pr.prove(h, mkEq(x.res(a.st, a.vals[0], fn.Pos()), x.res(b.st, b.vals[0], fn.Pos())))
			}
			if !ok {
				r.fail("the method differs from what calls through the interface are taken to do", pr)
			}
		}
	}
	// 2. runtime errors, unless the contract allows them
	hn := hyp.clone()
	hn.add(mkNot(code.pan))
	hn.add(mkNot(spec.pan))
	if cp != code.pan || sp != spec.pan {
		hn.add(mkNot(cp))
		hn.add(mkNot(sp))
	}
	if code.st == nil || spec.st == nil {
		r.obls++
		if !pr.prove(hn, False) {
			r.fail("result differs: one of code and contract never returns", pr)
		}
		r.finish(pr)
		return
	}
	hn.add(mkAnd(append(append([]*Term{}, code.st.inv...), spec.st.inv...)...))
	r.reach = !hn.bad
	eq := func(what string, a, b *Term) {
		r.obls++
		n := len(pr.residual)
		if a.sort != b.sort {
			r.ok = false
			r.err = fmt.Sprintf("%s: sorts %s / %s", what, a.sort.name, b.sort.name)
			return
		}
		a, b = balance(a, b)
		if !pr.prove(hn, mkEq(a, b)) {
			r.fail(what+" differs from its contract", pr)
			debugf("   %s\n   code: %s\n   spec: %s\n", what, cut(hn.simp(a).String(), 2500), cut(hn.simp(b).String(), 2500))
			_ = n
		}
	}
	if isWriter {
		out := x.res(spec.st, spec.vals[0], fn.Pos())
		eq("text", resolve(code.st.text, code.st.heap), mkSel(0, out))
		eq("values", resolve(code.st.vals, code.st.heap), mkSel(1, out))
		r.finish(pr)
		return
	}
	sv := spec.vals
	if recvRef >= 0 {
		if v := resolve(code.st.heap[recvRef], code.st.heap); P.reps[v.sort] != nil && !x.repHolds(code.st, v, fn.Pos()) {
			r.fail("the representation of the receiver is broken", pr)
		}
		was := sargs[0].(*Term)
		if !c.byValue {
			was = x.res(spec.st, sv[0], fn.Pos())
			sv = sv[1:]
		}
		eq("receiver", resolve(code.st.heap[recvRef], code.st.heap), was)
	}
	for i, v := range code.vals {
		a := x.res(code.st, v, fn.Pos())
		b := x.res(spec.st, sv[i], fn.Pos())
		if cont0 != nil {
			r.obls++
			h := hn.clone()
			h.add(mkAnd(code.st.pc...))
			if !pr.cont(h, code.st.cont, contFuel, func(f *Facts, c *Term) bool {
				if c.op != OMk {
					return false
				}
				return pr.prove(f, mkEq(a, substMap(b, map[*Term]*Term{cont0: c})))
			}) {
				r.fail(fmt.Sprintf("result %d differs from its contract", i), pr)
			}
			continue
		}
		eq(fmt.Sprintf("result %d", i), a, b)
	}
	r.finish(pr)
}

func (r *Result) finish(pr *Prover) {
	r.byStruct += pr.structural
	r.bySMT += pr.smtUsed
	r.smtTime += pr.smtTime
}

// saysFirst says whether the first constant text of a boxed text starts with a word.
func saysFirst(msg, word string) bool {
	i := strings.IndexByte(msg, '"')
	return strings.HasPrefix(msg, "box<string>(") && i > 0 && strings.HasPrefix(msg[i+1:], word)
}
