package main

import (
	"fmt"
	"go/token"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised exactly: every location the loop changes gets a closed form in the
// number k of completed iterations (a comprehension, an affine term, or a fold), and the
// closed forms are then checked to be an invariant: they hold for k = 0 by construction and
// one symbolic iteration from their value at k must give their value at k+1.

// slot is one scalar location of the loop state.
type slot struct {
	kind string // phi, cell, text, vals
	phi  *ssa.Phi
	ref  int
	path []int
	sort *Sort
	init *Term
	sym  *Term
	form *Term // closed form in k, nil while unknown
	back *Term
}

func (s *slot) String() string {
	switch s.kind {
	case "phi":
		return fmt.Sprintf("%s%v", s.phi.Name(), s.path)
	case "cell":
		return fmt.Sprintf("cell%d%v", s.ref, s.path)
	}
	return s.kind
}

func leavesOf(t *Term, path []int, f func([]int, *Term)) {
	if t.sort.kind == SStruct && len(t.sort.fields) > 0 {
		for i := range t.sort.fields {
			leavesOf(mkSel(i, t), append(append([]int{}, path...), i), f)
		}
		return
	}
	f(path, t)
}

func leafAt(t *Term, path []int) *Term {
	for _, i := range path {
		t = mkSel(i, t)
	}
	return t
}

func setLeaf(t *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return withField(t, path[0], setLeaf(mkSel(path[0], t), path[1:], v))
}

// foldSort is the canonical tuple sort of a group of slots.
func tupleSort(ss []*Sort) *Sort {
	if len(ss) == 1 {
		return ss[0]
	}
	n := "T("
	for i, s := range ss {
		if i > 0 {
			n += ","
		}
		n += s.name
	}
	n += ")"
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{kind: SStruct, name: n, fields: ss}
	for i := range ss {
		s.fnames = append(s.fnames, fmt.Sprintf("f%d", i))
	}
	return mkSort(s)
}

// resolveNew replaces references that did not exist before by their content.
func resolveNew(t *Term, heap map[int]*Term, old map[int]*Term) *Term {
	if !t.hasRef {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(u *Term) *Term
	rec = func(u *Term) *Term {
		return subst(u, func(y *Term) *Term {
			if !y.hasRef {
				return y
			}
			if y.op == ORef {
				if _, ok := old[y.idx]; ok {
					return y
				}
				c := rec(heap[y.idx])
				if y.sort.kind == SPtr {
					return mkMkPtr(c)
				}
				return c
			}
			return nil
		}, memo)
	}
	return rec(t)
}

type loopRun struct {
	back  *State // merged back edge, nil when the body never comes back
	exits map[*ssa.BasicBlock][]edge
	rets  []ret
	pans  []Exit
}

func (x *Exec) loop(fn *ssa.Function, l *loopInfo, cur *State) (map[*ssa.BasicBlock][]edge, []ret) {
	fi := infoOf(fn)
	pos := l.head.Instrs[0].Pos()
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	var slots []*slot
	index := map[string]*slot{}
	addSlot := func(s *slot) {
		k := s.String()
		if index[k] != nil {
			return
		}
		index[k] = s
		s.sort = s.init.sort
		s.sym = freshVar("a", s.sort)
		slots = append(slots, s)
	}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	fixed := map[*ssa.Phi]bool{} // phi kept at its initial (non-term or reference) value
	cellSeen := map[int]bool{}
	addPhi := func(p *ssa.Phi) {
		v := cur.env[p]
		if pv, ok := v.(PtrV); ok && len(pv.path) == 0 {
			v = x.asTerm(pv, pos)
		}
		t, ok := v.(*Term)
		if !ok {
			x.fail(pos, "loop-carried %T", v)
		}
		leavesOf(t, nil, func(path []int, lt *Term) {
			if lt.sort.kind == SSeq || lt.sort.kind == SMap {
				lt = x.content(cur, lt)
			}
			addSlot(&slot{kind: "phi", phi: p, path: path, init: lt})
		})
	}
	for _, p := range phis {
		v := cur.env[p]
		if _, ok := v.(Poison); ok {
			fixed[p] = true
			continue
		}
		if t, ok := v.(*Term); ok && t.op != ORef {
			addPhi(p)
			continue
		}
		fixed[p] = true
	}
	addSlot(&slot{kind: "text", init: cur.text})
	addSlot(&slot{kind: "vals", init: x.content(cur, cur.vals)})

	// cells whose other fields follow from their representation invariant
	reps := map[int]bool{}
	keep := map[int]bool{} // cells whose representation invariant only restricts their fields
	if len(P.reps) > 0 {
		for id, c := range cur.heap {
			if P.reps[c.sort] != nil && hasPtr(c.sort) && c.op == OMk && x.repHolds(cur, resolve(c, cur.heap), pos) {
				reps[id] = true
			}
			if P.reps[c.sort] != nil && !hasPtr(c.sort) && c.op == OMk && x.repHolds(cur, resolve(c, cur.heap), pos) {
				keep[id] = true
			}
		}
	}

	k := freshNonNeg("k")
	shrinks := map[*slot]bool{}
	steps, probing := x.steps != nil && cur.cont != nil && !x.inSpec(), x.probing
	if steps {
		x.probing = true
		defer func() { x.probing = probing }()
	}
	var head *ssa.Function // what is left to compute at the head, under a steps contract
	start := func() *State {
		st := cur.clone()
		phiVal := map[*ssa.Phi]*Term{}
		for _, s := range slots {
			v := s.sym
			if s.form != nil {
				v = s.form
			}
			switch s.kind {
			case "phi":
				if len(s.path) == 0 {
					phiVal[s.phi] = v
				} else {
					if phiVal[s.phi] == nil {
						phiVal[s.phi] = cur.env[s.phi].(*Term)
					}
					phiVal[s.phi] = setLeaf(phiVal[s.phi], s.path, v)
				}
			case "cell":
				st.heap[s.ref] = setLeaf(st.heap[s.ref], s.path, v)
			case "text":
				st.text = v
			case "vals":
				st.vals = v
			}
		}
		for p, v := range phiVal {
			st.env[p] = v
		}
		for id := range reps {
			c := st.heap[id]
			w, ok := x.rep(st, resolve(c, st.heap), pos)
			for i, f := range c.sort.fields {
				if f.kind != SPtr {
					c = withField(c, i, mkSel(i, w))
				}
			}
			st.heap[id] = c
			st.invariant(ok)
		}
		if steps { // what only grows
			for _, s := range slots {
				if s.sort == IntS && s.form == nil && !shrinks[s] {
					st.invariant(mkLe(s.init, s.sym))
				}
			}
		}
		for id := range keep {
			_, ok := x.rep(st, resolve(st.heap[id], st.heap), pos)
			st.invariant(ok)
		}
		if head != nil {
			st.cont = x.contState(st, head, contApp(cur.cont), cellSeen)
		}
		return st
	}
	calls := len(x.edges)
	run := func() (*loopRun, *State) {
		x.edges = x.edges[:calls] // those of the last round hold for every iteration
		st := start()
		s0 := st.clone()
		mark := len(x.exits)
		out, rets := x.region(fn, l.head, l.blocks, st)
		r := &loopRun{exits: map[*ssa.BasicBlock][]edge{}, rets: rets}
		r.pans = append(r.pans, x.exits[mark:]...)
		x.exits = x.exits[:mark]
		for b, es := range out {
			if b == l.head {
				st2 := x.enter(b, es)
				r.back = st2
				continue
			}
			r.exits[b] = es
		}
		return r, s0
	}

	var r *loopRun
	var s0 *State
	term := 0 // 1: looked at, 2: shown to terminate
	for round := 0; ; round++ {
		if round > 40 {
			x.fail(pos, "loop summary does not converge")
		}
		r, s0 = run()
		if r.back == nil {
			// the body never comes back: at most one iteration
			ex, rs := r.exits, r.rets
			x.exits = append(x.exits, r.pans...)
			if !allUnchangedInit(slots) {
				// run once more from the initial values
				for _, s := range slots {
					s.form = s.init
				}
				r, _ = run()
				ex, rs = r.exits, r.rets
			}
			return ex, rs
		}
		changed := false
		// phis assumed fixed
		for _, p := range phis {
			if !fixed[p] {
				continue
			}
			a, b := cur.env[p], r.back.env[p]
			if _, ok := a.(Poison); ok {
				continue
			}
			if !sameValue(a, b) {
				delete(fixed, p)
				addPhi(p)
				changed = true
			}
		}
		// cells
		var ids []int
		for id := range cur.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if reps[id] {
				// shown once, for any values of what the loop carries: closed forms are instances
				bv := resolve(r.back.heap[id], r.back.heap)
				if sym := symbolic(slots); sym && (!samePtrs(r.back.heap[id], s0.heap[id]) || !x.repHolds(r.back, bv, pos)) {
					debugf("rep not kept: %v\n", r.back.heap[id])
					delete(reps, id)
					changed = true
				}
				continue
			}
			if keep[id] && symbolic(slots) && !x.repHolds(r.back, resolve(r.back.heap[id], r.back.heap), pos) {
				delete(keep, id)
				changed = true
			}
			if r.back.heap[id] != s0.heap[id] && !cellSeen[id] {
				cellSeen[id] = true
				leavesOf(cur.heap[id], nil, func(path []int, lt *Term) {
					if leafAt(r.back.heap[id], path) != leafAt(s0.heap[id], path) {
						if lt.sort.kind == SSeq {
							lt = x.content(cur, lt)
						}
						addSlot(&slot{kind: "cell", ref: id, path: path, init: lt})
						changed = true
					}
				})
			} else if cellSeen[id] {
				leavesOf(cur.heap[id], nil, func(path []int, lt *Term) {
					sl := &slot{kind: "cell", ref: id, path: path, init: lt}
					if lt.sort.kind == SSeq {
						sl.init = x.content(cur, lt)
					}
					if index[sl.String()] == nil && leafAt(r.back.heap[id], path) != leafAt(s0.heap[id], path) {
						addSlot(sl)
						changed = true
					}
				})
			}
		}
		if len(r.back.defers) != len(cur.defers) {
			x.fail(pos, "defer in a loop")
		}
		if changed {
			continue
		}
		// back values
		unknown := 0
		for _, s := range slots {
			var v *Term
			switch s.kind {
			case "phi":
				bv := r.back.env[s.phi]
				if pv, ok := bv.(PtrV); ok && len(pv.path) == 0 {
					bv = x.asTerm(pv, pos)
				}
				t, ok := bv.(*Term)
				if !ok {
					x.fail(pos, "loop-carried %T %v", bv, bv)
				}
				v = leafAt(t, s.path)
			case "cell":
				v = leafAt(r.back.heap[s.ref], s.path)
			case "text":
				v = r.back.text
			case "vals":
				v = r.back.vals
			}
			if v.sort.kind == SSeq {
				v = x.content(r.back, v)
			}
			s.back = r.back.facts.simp(resolveNew(v, r.back.heap, cur.heap))
			if s.form == nil {
				unknown++
			}
		}
		if steps && symbolic(slots) {
			for _, s := range slots {
				if s.sort == IntS && !shrinks[s] && !x.proveEq(r.back, mkLe(s.init, s.back), True) {
					shrinks[s] = true
					changed = true
				}
			}
			if changed {
				continue
			}
		}
		if term == 0 && symbolic(slots) {
			term = 1
			if x.terminates(slots, r, len(cur.pc)) {
				term = 2
			}
			if steps && x.stepState(cur, cellSeen) {
				if x.probing = probing; probing {
					x.exits = append(x.exits, r.pans...)
					return r.exits, r.rets
				}
				done := false
				for _, s := range slots {
					if s.back == s.sym {
						s.form = s.init
					} else if d := s.back; s.sort == IntS && mkSub(d, s.sym).op == OInt {
						s.form = mkAdd(s.init, mkMul(mkSub(d, s.sym), k))
					}
				}
				for _, f := range x.steps {
					t := x.contState(cur, f, contApp(cur.cont), cellSeen)
					if t == nil || !x.contIs(cur, t) {
						continue
					}
					head = f
					r, s0 = run()
					if r.back != nil {
						if t = x.contState(r.back, f, contApp(cur.cont), cellSeen); t == nil || !x.contIs(r.back, t) {
							continue
						}
					}
					done = true
					break
				}
				if done {
					if term != 2 {
						x.fail(pos, "a loop that is not shown to terminate")
					}
					x.exits = append(x.exits, r.pans...)
					return r.exits, r.rets
				}
				x.fail(pos, "the invariant of a loop is not preserved")
			}
			if steps {
				x.probing = probing
				r, s0 = run()
			}
		}
		if unknown == 0 {
			break
		}
		progress := false
		for _, s := range slots {
			if s.form == nil {
				if f := closedForm(s, slots, k, cur.facts); f != nil {
					s.form = f
					progress = true
					m := map[*Term]*Term{s.sym: f}
					for _, o := range slots {
						if o.form == nil {
							o.back = substMap(o.back, m)
						}
					}
				}
			}
		}
		if progress {
			continue
		}
		// what remains depends on itself: a fold over the group
		var group []*slot
		for _, s := range slots {
			if s.form == nil {
				group = append(group, s)
			}
		}
		sort.SliceStable(group, func(i, j int) bool { return group[i].sort.name < group[j].sort.name })
		var ss []*Sort
		var inits, bodies []*Term
		for _, s := range group {
			ss = append(ss, s.sort)
			inits = append(inits, s.init)
			bodies = append(bodies, s.back)
		}
		ts := tupleSort(ss)
		acc := freshVar("a", ts)
		var init, body *Term
		m := map[*Term]*Term{}
		if len(group) == 1 {
			m[group[0].sym] = acc
			init, body = inits[0], substMap(bodies[0], m)
		} else {
			for i, s := range group {
				m[s.sym] = mkSel(i, acc)
			}
			for i := range bodies {
				bodies[i] = substMap(bodies[i], m)
			}
			init, body = mkMk(ts, inits), mkMk(ts, bodies)
		}
		if body.hasRef || init.hasRef {
			body, init = resolve(body, cur.heap), resolve(init, cur.heap)
		}
		f := mkFold(k, init, acc, k, body)
		// the bound and the index are the same variable here: rebuild with a separate index
		j := freshNonNeg("j")
		f = mkFold(k, init, acc, j, repl1(body, k, j))
		for i, s := range group {
			if len(group) == 1 {
				s.form = f
			} else {
				s.form = mkSel(i, f)
			}
		}
		x.used["loop summarised by a fold"] = true
	}

	// the last run started from the closed forms: they must be an invariant
	k1 := mkAdd(k, mkInt(1))
	memo1 := map[*Term]*Term{k: k1}
	for _, s := range slots {
		want := substMapMemo(s.form, memo1)
		want = r.back.facts.simp(resolveNew(want, r.back.heap, cur.heap))
		got := s.back
		if want == got {
			continue
		}
		if x.proveEq != nil && x.proveEq(r.back, got, want) {
			continue
		}
		for _, l := range r.back.facts.order {
			debugf("   fact %s\n", l)
		}
		x.fail(pos, "loop invariant not preserved for %s: got %s want %s", s, got, want)
	}
	x.obls++

	// exits
	np := len(cur.pc)
	type exitE struct {
		to    *ssa.BasicBlock
		e     edge
		q     *Term
		isRet bool
		r     ret
	}
	var all []exitE
	for _, b := range fi.rpo {
		for _, e := range r.exits[b] {
			all = append(all, exitE{to: b, e: e, q: mkAnd(e.st.pc[np:]...)})
		}
	}
	for _, rr := range r.rets {
		all = append(all, exitE{isRet: true, r: rr, q: mkAnd(rr.st.pc[np:]...)})
	}
	// the bound: an exit taken exactly when n <= k
	var N *Term
	bi := -1
	for i, e := range all {
		if e.isRet {
			continue
		}
		if n := boundOf(e.q, k); n != nil {
			N, bi = n, i
			break
		}
	}
	var boundLit *Term
	if N != nil {
		boundLit = all[bi].q
		if !N.nonNeg {
			if cur.facts.simp(mkLe(mkInt(0), N)) != True {
				N = mkIte(mkLe(mkInt(0), N), N, mkInt(0))
			}
		}
	}
	strip := func(q *Term) *Term {
		if boundLit == nil {
			return q
		}
		f := newFacts()
		f.add(mkNot(boundLit))
		return f.simp(q)
	}
	outMap := map[*ssa.BasicBlock][]edge{}
	var outRets []ret
	var early []exitE
	for i, e := range all {
		if i == bi {
			continue
		}
		e.q = strip(e.q)
		if e.q == False {
			continue
		}
		early = append(early, e)
	}
	var stops []*Term
	for _, e := range early {
		stops = append(stops, e.q)
	}
	type panE struct {
		ex Exit
		q  *Term
	}
	var pans []panE
	for _, p := range r.pans {
		q := strip(mkAnd(p.pc[np:]...))
		if q == False {
			continue
		}
		pans = append(pans, panE{p, q})
		stops = append(stops, q)
	}
	stop := mkOr(stops...)
	bnd := N
	if bnd == nil {
		if stop == False {
			x.fail(pos, "loop without exit")
		}
		bnd = Inf
	}
	if stop.hasRef {
		stop = resolve(stop, r.back.heap)
	}
	j := freshNonNeg("j")
	stopJ := repl1(stop, k, j)
	E := mkExists(bnd, j, stopJ)
	if bnd == Inf {
		E = True
		if c := l.head.Comment; c == "rangeindex.loop" || c == "rangeiter.loop" {
			term = 2 // a range over a slice, array, map or string ends
		}
		if term != 2 {
			if x.tracking && !x.inSpec() && !x.probing {
				x.unended = append(x.unended, P.posStr(pos))
			}
			debugf("not shown to terminate: %s %s\n", fn, P.posStr(pos))
		}
		if x.termination != nil {
			x.termination(fn, pos, stop, k)
		}
	}
	first := func() *Term { jj := freshNonNeg("j"); return mkFirst(bnd, jj, repl1(stop, k, jj)) }
	if N != nil {
		st := x.substState(all[bi].e.st, map[*Term]*Term{k: N}, cur)
		ok := true
		if E != False {
			ok = st.assume(mkNot(E))
		}
		if ok {
			outMap[all[bi].to] = append(outMap[all[bi].to], edge{all[bi].e.pred, st})
		}
	}
	if len(early) == 0 {
		for _, p := range pans {
			jj := freshNonNeg("j")
			q := p.q
			if q.hasRef {
				q = resolve(q, r.back.heap)
			}
			c := mkExists(bnd, jj, repl1(q, k, jj))
			c = cur.facts.simp(c)
			if c == False {
				continue
			}
			pc := append(append([]*Term{}, cur.pc...), c)
			x.exits = append(x.exits, Exit{cond: mkAnd(pc...), pc: pc, kind: p.ex.kind, pos: p.ex.pos, msg: p.ex.msg})
		}
	} else {
		rr := first()
		at := map[*Term]*Term{k: rr}
		for _, e := range early {
			var src *State
			if e.isRet {
				src = e.r.st
			} else {
				src = e.e.st
			}
			st := x.substState(src, at, cur)
			if !st.assume(E) {
				continue
			}
			if e.q != stop { // otherwise it holds by what first is
				if !st.assume(substMap(resolveIf(e.q, src.heap), at)) {
					continue
				}
			}
			if bnd != Inf {
				st.facts = st.facts.clone()
				st.facts.add(mkLt(rr, bnd))
			}
			if e.isRet {
				vals := make([]Value, len(e.r.vals))
				for i, v := range e.r.vals {
					vals[i] = substVal(v, at, map[*Term]*Term{})
				}
				outRets = append(outRets, ret{st, vals})
			} else {
				outMap[e.to] = append(outMap[e.to], edge{e.e.pred, st})
			}
		}
		for _, p := range pans {
			pc := append(append([]*Term{}, cur.pc...), E, substMap(resolveIf(p.q, r.back.heap), at))
			c := mkAnd(pc...)
			if c == False {
				continue
			}
			x.exits = append(x.exits, Exit{cond: c, pc: pc, kind: p.ex.kind, pos: p.ex.pos, msg: p.ex.msg})
		}
	}
	return outMap, outRets
}

func resolveIf(t *Term, heap map[int]*Term) *Term {
	if t.hasRef {
		return resolve(t, heap)
	}
	return t
}

func hasPtr(s *Sort) bool {
	for _, f := range s.fields {
		if f.kind == SPtr {
			return true
		}
	}
	return false
}

func samePtrs(a, b *Term) bool {
	for i, f := range a.sort.fields {
		if f.kind == SPtr && mkSel(i, a) != mkSel(i, b) {
			return false
		}
	}
	return true
}

func symbolic(slots []*slot) bool {
	for _, s := range slots {
		if s.form != nil {
			return false
		}
	}
	return true
}

func allUnchangedInit(ss []*slot) bool {
	for _, s := range ss {
		if s.form != s.init {
			return false
		}
	}
	return true
}

func sameValue(a, b Value) bool {
	switch va := a.(type) {
	case *Term:
		if vb, ok := b.(*Term); ok {
			return va == vb
		}
		if pb, ok := b.(PtrV); ok && len(pb.path) == 0 {
			return va.op == ORef && va.idx == pb.ref
		}
	case PtrV:
		if vb, ok := b.(PtrV); ok {
			return samePtr(va, vb)
		}
		if tb, ok := b.(*Term); ok {
			return tb.op == ORef && len(va.path) == 0 && tb.idx == va.ref
		}
	case *Closure:
		vb, ok := b.(*Closure)
		return ok && va == vb
	case iterV:
		vb, ok := b.(iterV)
		return ok && va == vb
	}
	return false
}

func substMapMemo(t *Term, m map[*Term]*Term) *Term { return substMap(t, m) }

// boundOf recognises the condition n <= k (or k = n) and returns n.
func boundOf(q, k *Term) *Term {
	switch q.op {
	case OLe, OEq:
		if q.args[0].sort != IntS {
			return nil
		}
	default:
		return nil
	}
	l := newLin()
	linOf(q.args[1], big.NewInt(1), l)
	linOf(q.args[0], big.NewInt(-1), l)
	c := l.atoms[k]
	if c == nil || !c.IsInt64() {
		return nil
	}
	one := c.Int64()
	if one != 1 && !(q.op == OEq && one == -1) {
		return nil
	}
	delete(l.atoms, k)
	if one == 1 {
		for a := range l.atoms {
			l.atoms[a] = new(big.Int).Neg(l.atoms[a])
		}
		l.c.Neg(l.c)
	}
	n := linTerm(l)
	if occurs(k, n) {
		return nil
	}
	if q.op == OEq && !n.nonNeg {
		return nil
	}
	return n
}

func mentions(t *Term, ss []*slot) bool {
	set := map[*Term]bool{}
	for _, s := range ss {
		if s.form == nil {
			set[s.sym] = true
		}
	}
	found := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(u *Term) {
		if found || seen[u] {
			return
		}
		seen[u] = true
		if set[u] {
			found = true
			return
		}
		for _, a := range u.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

func closedForm(s *slot, slots []*slot, k *Term, facts *Facts) *Term {
	v := s.back
	if v == s.sym {
		return s.init
	}
	if s.sort == IntS {
		d := mkSub(v, s.sym)
		if d.op == OInt {
			return mkAdd(s.init, mkMul(d, k))
		}
	}
	if s.sort == StrS || s.sort.kind == SSeq {
		w := wordAny(v)
		if len(w) > 1 && w[0] == s.sym {
			g := catOf(s.sort, w[1:]...)
			if !mentions(g, slots) && !g.hasRef {
				j := freshNonNeg("j")
				return catOf(s.sort, s.init, mkBigT(k, j, repl1(g, k, j)))
			}
		}
		if len(w) > 1 && w[len(w)-1] == s.sym { // prepending: reversed comprehension is a fold
			return nil
		}
		if v.op == OSeqUpdate && v.args[0] == s.sym && v.args[1] == k && !mentions(v.args[2], slots) {
			ws := seqWord(s.init)
			if len(ws) == 1 && ws[0].op == OApp && ws[0].name == "zeros" {
				j := freshNonNeg("j")
				b := mkBigT(k, j, mkUnit(repl1(v.args[2], k, j)))
				return mkSeqConcat(s.sort, b, mkZeros(s.sort, mkSub(ws[0].args[0], k), ws[0].args[1]))
			}
		}
	}
	if v.op == OExtract && v.args[0] == s.sym && v.args[1].op == OInt && v.args[2] == mkLen(s.sym) { // what is left of a list
		return mkExtract(s.init, mkMul(v.args[1], k), mkLen(s.init))
	}
	if !mentions(v, slots) {
		km := mkSub(k, mkInt(1))
		c := repl1(v, k, km)
		if repl1(v, k, mkInt(-1)) == s.init {
			return c
		}
		return mkIte(mkEq(k, mkInt(0)), s.init, c)
	}
	return nil
}

func substVal(v Value, m map[*Term]*Term, memo map[*Term]*Term) Value {
	f := func(t *Term) *Term {
		return subst(t, func(y *Term) *Term { return m[y] }, memo)
	}
	switch v := v.(type) {
	case *Term:
		return f(v)
	case PtrV:
		ch := false
		path := make([]pathElem, len(v.path))
		for i, e := range v.path {
			path[i] = e
			if e.index != nil {
				n := f(e.index)
				if n != e.index {
					path[i].index = n
					ch = true
				}
			}
		}
		if ch {
			return PtrV{ref: v.ref, path: path, elem: v.elem}
		}
		return v
	case Tuple:
		out := make(Tuple, len(v))
		for i := range v {
			out[i] = substVal(v[i], m, memo)
		}
		return out
	case *Closure:
		if len(v.bindings) == 0 {
			return v
		}
		n := &Closure{fn: v.fn}
		for _, b := range v.bindings {
			n.bindings = append(n.bindings, substVal(b, m, memo))
		}
		return n
	case iterV:
		return iterV{v.ref, f(v.over)}
	}
	return v
}

// substState instantiates the iteration number in a state leaving the loop.
func (x *Exec) substState(src *State, m map[*Term]*Term, cur *State) *State {
	memo := map[*Term]*Term{}
	st := cur.clone()
	st.env = make(map[ssa.Value]Value, len(src.env))
	for r, v := range src.env {
		st.env[r] = substVal(v, m, memo)
	}
	st.heap = make(map[int]*Term, len(src.heap))
	for id, c := range src.heap {
		st.heap[id] = subst(c, func(y *Term) *Term { return m[y] }, memo)
	}
	st.text = subst(src.text, func(y *Term) *Term { return m[y] }, memo)
	st.vals = subst(src.vals, func(y *Term) *Term { return m[y] }, memo)
	for _, t := range src.inv {
		st.invariant(subst(t, func(y *Term) *Term { return m[y] }, memo))
	}
	return st
}

var _ = token.NoPos
