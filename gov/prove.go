package main

import (
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Prover discharges a goal under facts: simplification, case splits, congruence and
// extensionality of comprehensions, and z3 for what is left.
type Prover struct {
	opened     map[*Term]bool // the searches for which a witness is taken
	splits     int
	maxSplit   int
	deadline   time.Time
	residual   []Residual // goals that could not be discharged
	smtUsed    int
	smtTime    time.Duration
	structural int
	quiet      bool
	depth      int
	merged     map[[3]int]bool // pairs of comprehensions that were compared
}

type Residual struct {
	facts []*Term
	goal  *Term
}

func newProver() *Prover {
	return &Prover{maxSplit: 60000, deadline: time.Now().Add(60 * time.Second)}
}

func (p *Prover) out() bool { return p.splits > p.maxSplit || time.Now().After(p.deadline) }

// prove returns true when goal holds under f.
func (p *Prover) prove(f *Facts, goal *Term) bool {
	if f.bad {
		p.structural++
		return true
	}
	goal = f.simp(goal)
	if goal == True {
		p.structural++
		return true
	}
	if p.out() {
		p.note(f, goal)
		return false
	}
	switch goal.op {
	case OAnd:
		for _, a := range goal.args {
			if !p.prove(f, a) {
				return false
			}
		}
		return true
	case OOr:
		return p.proveOr(f, goal)
	case OIte:
		return p.split(f, goal.args[0], goal)
	case ONot:
		a := goal.args[0]
		switch a.op {
		case OAnd:
			g := f.clone()
			for _, y := range a.args[:len(a.args)-1] {
				g.add(y)
				if g.bad {
					return true
				}
			}
			return p.prove(g, mkNot(a.args[len(a.args)-1]))
		case OOr:
			for _, y := range a.args {
				if !p.prove(f, mkNot(y)) {
					return false
				}
			}
			return true
		case OIte:
			return p.split(f, a.args[0], goal)
		case OExists:
			// what a search over the same would have found
			g := f.clone()
			g.add(a)
			if h := p.firsts(g, False); h != nil && h.bad {
				p.structural++
				return true
			}
		}
	case OEq:
		if goal.args[0].sort == BoolS {
			a, b := goal.args[0], goal.args[1]
			g := f.clone()
			g.add(a)
			if !p.prove(g, b) {
				return false
			}
			g = f.clone()
			g.add(b)
			return p.prove(g, a)
		}
	}
	if g := p.firsts(f, goal); g != nil {
		return p.prove(g, goal)
	}
	if c := splitCond(goal); c != nil {
		return p.split(f, c, goal)
	}
	// a disjunction among the facts
	for _, l := range f.order {
		if l.op == ONot && (l.args[0].op == OAnd || l.args[0].op == OIte) {
			s := f.simpArgs(l.args[0])
			if s.op == OAnd || s.op == OIte {
				return p.split(f, s.args[0], goal)
			}
		}
		if l.op == OOr || l.op == OIte {
			s := f.simpArgs(l)
			if s.op == OOr && p.relevant(s, goal) {
				return p.split(f, s.args[0], goal)
			}
			if s.op == OIte {
				return p.split(f, s.args[0], goal)
			}
		}
	}
	if goal.op == OEq && p.eqStruct(f, goal.args[0], goal.args[1]) {
		p.structural++
		return true
	}
	if goal.op == OExists {
		// from a known existential with an equivalent body
		for _, l := range f.order {
			if l.op == OExists && p.implExists(f, l, goal) {
				return true
			}
		}
		if n := goal.args[0]; n != Inf && p.depth < 8 {
			p.depth += 8
			ok := p.quietly(func() bool {
				for _, w := range []*Term{mkInt(0), mkSub(n, mkInt(1))} {
					if p.prove(f, mkAnd(mkLe(mkInt(0), w), mkLt(w, n), openB(goal, w, nil))) {
						return true
					}
				}
				for _, l := range f.order {
					if l.op != OExists || l.args[0] == Inf {
						continue
					}
					d := mkSub(n, l.args[0])
					if d.op != OInt || d.n.Sign() == 0 {
						continue
					}
					j := freshNonNeg("j")
					g := f.clone()
					g.add(mkLt(j, l.args[0]))
					g.add(openB(l, j, nil))
					for _, w := range []*Term{j, mkAdd(j, d)} {
						if p.prove(g, mkAnd(mkLe(mkInt(0), w), mkLt(w, n), openB(goal, w, nil))) {
							return true
						}
					}
				}
				return false
			})
			p.depth -= 8
			if ok {
				return true
			}
		}
	}
	if goal.op == ONot && goal.args[0].op == OExists {
		for _, l := range f.order {
			if l.op == ONot && l.args[0].op == OExists && p.implExists(f, goal.args[0], l.args[0]) {
				return true
			}
		}
		// refute: take a witness
		e := goal.args[0]
		j := freshNonNeg("j")
		g := f.clone()
		g.add(e)
		g.add(mkLt(j, e.args[0]))
		g.add(openB(e, j, nil))
		inst(g, e.args[0], j)
		if p.quietly(func() bool { return p.prove(g, False) }) {
			return true
		}
	}
	if goal == False { // what is known to exist contradicts what is known not to
		for _, l := range f.order {
			if l.op != OExists || l.args[0] == Inf || p.opened[l] {
				continue
			}
			j := freshNonNeg("j")
			g := f.clone()
			g.add(mkLt(j, l.args[0]))
			g.add(openB(l, j, nil))
			inst(g, l.args[0], j)
			if p.opened == nil {
				p.opened = map[*Term]bool{}
			}
			p.opened[l] = true
			ok := p.quietly(func() bool { return p.prove(g, False) })
			delete(p.opened, l)
			if ok {
				return true
			}
		}
	}
	if p.depth < 40 {
		if g := f.resat(); g != nil {
			if g.bad {
				p.structural++
				return true
			}
			if n := g.simp(goal); n != goal || !sameFacts(f, g) {
				p.depth += 8
				r := p.prove(g, n)
				p.depth -= 8
				return r
			}
		}
	}
	if p.depth == 0 {
		if g, n := p.merge(f, goal); g != nil {
			if p.prove(g, n) {
				return true
			}
			return false
		}
	}
	return p.smt(f, goal)
}

// firsts adds what is known about the results of bounded searches: where something is
// there to be found the result satisfies the condition, otherwise it is the bound.
func (p *Prover) firsts(f *Facts, goal *Term) *Facts {
	var todo []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		for _, x := range firstsIn(t) {
			if !seen[x] && !f.firstDone[x] {
				seen[x] = true
				todo = append(todo, x)
			}
		}
	}
	add(goal)
	for _, l := range f.order {
		add(l)
	}
	var g *Facts
	for _, x := range todo {
		e := f.simp(existsOf(x))
		if e != True && e != False {
			continue
		}
		if g == nil {
			g = f.clone()
		}
		g.firstDone[x] = true
		if e == True {
			g.add(openB(x, x, nil))
			inst(g, x.args[0], x)
		} else {
			g.val[x] = x.args[0]
		}
	}
	return g
}

func sameFacts(f, g *Facts) bool {
	if len(f.order) != len(g.order) {
		return false
	}
	for _, l := range g.order {
		if !f.lits[l] {
			return false
		}
	}
	return true
}

func (p *Prover) quietly(fn func() bool) bool {
	q := p.quiet
	p.quiet = true
	r := fn()
	p.quiet = q
	return r
}

func (p *Prover) relevant(or, goal *Term) bool { return true }

func (p *Prover) proveOr(f *Facts, goal *Term) bool {
	g := f.clone()
	// assume the negation of all but the hardest disjunct
	k := 0
	for i, a := range goal.args {
		if weight(a) > weight(goal.args[k]) {
			k = i
		}
	}
	for i, a := range goal.args {
		if i != k {
			g.add(mkNot(a))
			if g.bad {
				return true
			}
		}
	}
	r := g.simp(goal.args[k])
	if r != goal.args[k] || true {
		return p.prove(g, r)
	}
	return false
}

func weight(t *Term) int {
	switch t.op {
	case OExists:
		return 5
	case ONot:
		return weight(t.args[0])
	case OEq:
		if t.args[0].sort != BoolS && (isConst(t.args[0]) || isConst(t.args[1])) {
			return 1
		}
		return 4
	case OAnd, OOr, OIte:
		return 3
	case OIsT, OIsNil, OImpl:
		return 0
	}
	return 1
}

func (p *Prover) split(f *Facts, c, goal *Term) bool {
	p.splits++
	if c.op == OAnd || c.op == OOr { // split on a part
		return p.split(f, c.args[0], goal)
	}
	if c.op == OIte || c.op == ONot {
		return p.split(f, c.args[0], goal)
	}
	if d := splitCond(c); d != nil {
		return p.split(f, d, goal)
	}
	g := f.clone()
	g.add(c)
	if !g.bad && !p.prove(g, goal) {
		return false
	}
	g = f.clone()
	g.add(mkNot(c))
	return g.bad || p.prove(g, goal)
}

// splitCond finds the condition of an ite outside binders.
func splitCond(t *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(u *Term) *Term
	rec = func(u *Term) *Term {
		if seen[u] {
			return nil
		}
		seen[u] = true
		if u.op == OIte {
			if c := rec(u.args[0]); c != nil {
				return c
			}
			return u.args[0]
		}
		if isBinder(u) {
			return rec(u.args[0])
		}
		for _, a := range u.args {
			if c := rec(a); c != nil {
				return c
			}
		}
		return nil
	}
	return rec(t)
}

func (p *Prover) implExists(f *Facts, a, b *Term) bool {
	if !p.quietly(func() bool { return p.prove(f, mkEq(a.args[0], b.args[0])) }) {
		return false
	}
	j := freshNonNeg("j")
	g := f.clone()
	g.add(mkLt(j, a.args[0]))
	g.add(openB(a, j, nil))
	inst(g, a.args[0], j)
	return p.quietly(func() bool { return p.prove(g, openB(b, j, nil)) })
}

// eqStruct: equality by congruence / extensionality. Sufficient, not necessary.
func (p *Prover) eqStruct(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if p.out() {
		return false
	}
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 60 {
		return false
	}
	try := func(x, y *Term) bool {
		if x == y {
			return true
		}
		if x.sort != y.sort {
			return false
		}
		return p.quietly(func() bool { return p.prove(f, mkEq(x, y)) })
	}
	switch a.sort.kind {
	case SStr, SSeq:
		wa, wb := wordAny(a), wordAny(b)
		if len(wa) > 1 || len(wb) > 1 {
			return p.eqWords(f, a.sort, wa, wb)
		}
		if a.op == OBig && b.op == OBig && a.args[0] != b.args[0] && (p.peel(f, a.sort, wa, wb) || p.peel(f, a.sort, wb, wa)) {
			return true
		}
	}
	for _, o := range [][2]*Term{{a, b}, {b, a}} { // what an opaque function returns
		if t, u := o[0], o[1]; t.op == OApp && u.op == OBox {
			if g := appFns[t.name]; g != nil && P.opaque[g] && !isIfaceSpec(g) {
				if v, _ := unfoldOr(g, t.args); v != nil && v != t && try(v, u) {
					return true
				}
			}
		}
	}
	if a.op != b.op || len(a.args) != len(b.args) {
		return false
	}
	switch a.op {
	case OBig, OFirst, OExists:
		if a.args[0] != b.args[0] && !try(a.args[0], b.args[0]) {
			return false
		}
		j := freshNonNeg("j")
		g := f.clone()
		if a.args[0] != Inf {
			g.add(mkLt(j, a.args[0]))
		}
		inst(g, a.args[0], j)
		x, y := openB(a, j, nil), openB(b, j, nil)
		return p.quietly(func() bool { return p.prove(g, mkEq(x, y)) })
	case OFold:
		if !try(a.args[0], b.args[0]) || !try(a.args[1], b.args[1]) {
			return false
		}
		j, acc := freshNonNeg("j"), freshVar("a", a.sort)
		g := f.clone()
		g.add(mkLt(j, a.args[0]))
		inst(g, a.args[0], j)
		return p.quietly(func() bool { return p.prove(g, mkEq(openB(a, j, acc), openB(b, j, acc))) })
	case OApp, OBox, OUnbox, OIsT, OImpl:
		if a.name != b.name {
			return false
		}
	case OSel:
		if a.idx != b.idx {
			return false
		}
	case OVar, OInt, OStr, ORef, OAdd, OMul:
		return false
	}
	if len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if !try(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func (p *Prover) eqWords(f *Facts, s *Sort, wa, wb []*Term) bool {
	same := func(x, y *Term) bool {
		if x == y {
			return true
		}
		if isConst(x) || isConst(y) {
			return false
		}
		return p.quietly(func() bool { return p.prove(f, mkEq(x, y)) })
	}
	for len(wa) > 0 && len(wb) > 0 {
		if same(wa[0], wb[0]) {
			wa, wb = wa[1:], wb[1:]
			continue
		}
		if same(wa[len(wa)-1], wb[len(wb)-1]) {
			wa, wb = wa[:len(wa)-1], wb[:len(wb)-1]
			continue
		}
		if p.peel(f, s, wa, wb) || p.peel(f, s, wb, wa) {
			return true
		}
		if s.kind == SSeq {
			open := func(u, v []*Term) []*Term { // the first element of u, which is a part of a list, against that of v
				if u[0].op == OExtract && v[0].op == OSeqUnit &&
					p.quietly(func() bool { return p.prove(f, mkLt(u[0].args[1], u[0].args[2])) }) {
					q, lo, hi := u[0].args[0], u[0].args[1], u[0].args[2]
					return append([]*Term{mkUnit(mkAt(q, lo)), mkExtract(q, mkAdd(lo, mkInt(1)), hi)}, u[1:]...)
				}
				return nil
			}
			eq := func(x, y *Term) bool {
				return p.quietly(func() bool { return p.prove(f, mkEq(x, y)) })
			}
			if u := open(wa, wb); u != nil && eq(u[0].args[0], wb[0].args[0]) {
				wa, wb = u[1:], wb[1:]
				continue
			}
			if u := open(wb, wa); u != nil && eq(u[0].args[0], wa[0].args[0]) {
				wa, wb = wa[1:], u[1:]
				continue
			}
		}
		x, y := catOf(s, wa...), catOf(s, wb...)
		e := f.simp(mkEq(x, y))
		if e == True {
			return true
		}
		if e.op == OEq && (e.args[0] == x || e.args[1] == x) {
			return false
		}
		return p.quietly(func() bool { return p.prove(f, e) })
	}
	return len(wa) == 0 && len(wb) == 0
}

// peel takes the first or the last part off a comprehension over n when there is one over n - 1 on the other side.
func (p *Prover) peel(f *Facts, s *Sort, wa, wb []*Term) bool {
	for i, x := range wa {
		if x.op != OBig || x.args[0] == Inf {
			continue
		}
		n1 := mkSub(x.args[0], mkInt(1))
		hit := false
		for _, y := range wb {
			hit = hit || y.op == OBig && f.simp(y.args[0]) == n1
		}
		if !hit || f.simp(mkLe(mkInt(1), x.args[0])) != True {
			continue
		}
		j := freshNonNeg("j")
		first := []*Term{openB(x, mkInt(0), nil), mkBigT(n1, j, openB(x, mkAdd(j, mkInt(1)), nil))}
		last := []*Term{mkBigT(n1, j, openB(x, j, nil)), openB(x, n1, nil)}
		for _, parts := range [][]*Term{first, last} {
			ts := append(append(append([]*Term{}, wa[:i]...), parts...), wa[i+1:]...)
			g := f.simp(mkEq(catOf(s, ts...), catOf(s, wb...)))
			if p.quietly(func() bool { return p.prove(f, g) }) {
				return true
			}
		}
	}
	return false
}

func (p *Prover) note(f *Facts, goal *Term) {
	if p.quiet || len(p.residual) > 4 {
		return
	}
	var fs []*Term
	for _, l := range f.order {
		n := l
		if l.op == ONot {
			n = mkNot(f.simpArgs(l.args[0]))
		} else {
			n = f.simpArgs(l)
		}
		if n != True {
			fs = append(fs, n)
		}
	}
	p.residual = append(p.residual, Residual{fs, goal})
}

// opaqueApps finds the applications of opaque contract functions outside of binders.
func opaqueApps(ts ...*Term) map[*Term]*ssa.Function {
	out := map[*Term]*ssa.Function{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i, a := range t.args {
			if isBinder(t) && i == len(t.args)-1 {
				continue // opened later
			}
			rec(a)
		}
		if t.op == OApp {
			if g := appFns[strings.TrimPrefix(t.name, "pan:")]; g != nil && P.opaque[g] && !isIfaceSpec(g) {
				out[t] = g
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// balance unfolds the opaque functions that occur in only one of the two terms.
func balance(a, b *Term) (*Term, *Term) {
	for i := 0; i < 4; i++ {
		oa, ob := opaqueApps(a), opaqueApps(b)
		m := map[*Term]*Term{}
		un := func(t *Term, fn *ssa.Function) {
			if v, pan := unfold(fn, t.args); v != nil {
				if strings.HasPrefix(t.name, "pan:") {
					m[t] = pan
				} else {
					m[t] = v
				}
			}
		}
		for t, fn := range oa {
			if ob[t] == nil {
				un(t, fn)
			}
		}
		for t, fn := range ob {
			if oa[t] == nil {
				un(t, fn)
			}
		}
		if len(m) == 0 {
			break
		}
		a, b = substMap(a, m), substMap(b, m)
	}
	return a, b
}

func (p *Prover) smt(f *Facts, goal *Term) bool {
	if smtProve != nil && smtProve(p, f, goal) {
		return true
	}
	p.note(f, goal)
	return false
}

var smtProve func(p *Prover, f *Facts, goal *Term) bool

// closedBinders lists the comprehensions in t that mention no bound variable of another.
func closedBinders(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t.lvl == 0 || seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		closedBinders(a, seen, out)
	}
	if isBinder(t) && len(boundVars(t)) == 0 {
		*out = append(*out, t)
	}
}

// merge rewrites comprehensions over the same range whose bodies are equal under the facts to one of them.
// It returns nil when there are none.
func (p *Prover) merge(f *Facts, goal *Term) (*Facts, *Term) {
	var bs []*Term
	seen := map[*Term]bool{}
	closedBinders(goal, seen, &bs)
	for _, l := range f.order {
		closedBinders(l, seen, &bs)
	}
	for i, a := range bs {
		for _, b := range bs[:i] {
			if a.args[0] == Inf || a.op != b.op || a.sort != b.sort || a.op == OExists || a.args[0] != b.args[0] || a.op == OFold && a.args[1] != b.args[1] {
				continue
			}
			k := [3]int{a.id, b.id, len(f.order)}
			if p.merged[k] {
				continue
			}
			if p.merged == nil {
				p.merged = map[[3]int]bool{}
			}
			p.merged[k] = true
			g := newFacts() // quantified facts and those about parameters only
			for _, l := range f.order {
				if l.op == ONot && l.args[0].op == OExists || l.lvl == 0 {
					g.add(l)
				}
			}
			j, acc := freshNonNeg("j"), (*Term)(nil)
			if a.op == OFold {
				acc = freshVar("a", a.sort)
			}
			if a.args[0] != Inf {
				g.add(mkLt(j, a.args[0]))
			}
			inst(g, a.args[0], j)
			if !p.quietly(func() bool { return p.prove(g, mkEq(openB(a, j, acc), openB(b, j, acc))) }) {
				continue
			}
			m := map[*Term]*Term{a: b}
			h := newFacts()
			for _, l := range f.order {
				h.add(substMap(l, m))
			}
			return h, substMap(goal, m)
		}
	}
	return nil, nil
}

// inst adds what the facts say of every position below n for the position j.
func inst(f *Facts, n, j *Term) {
	if n == Inf {
		return
	}
	for _, l := range append([]*Term{}, f.order...) {
		if l.op == ONot && l.args[0].op == OExists && l.args[0].args[0] != Inf {
			e := l.args[0]
			if e.args[0] == n {
				f.add(mkNot(openB(e, j, nil)))
			} else if d := mkSub(e.args[0], n); d.op == OInt && d.n.Sign() > 0 { // it goes further
				f.add(mkNot(openB(e, j, nil)))
				f.add(mkNot(openB(e, mkAdd(j, d), nil)))
			} else if d.op == OInt {
				f.add(mkOr(mkLe(e.args[0], j), mkNot(openB(e, j, nil))))
			}
		}
	}
}
