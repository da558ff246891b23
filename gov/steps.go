package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A contract with the option steps=f,g,... says what a function computes by tail-recursive functions over
// its loop state: "from this state on, the result is f of the state". The invariant of a loop is then that
// the result of the whole function is still f of the current state, for one of these functions. It is shown
// on entry and for an arbitrary iteration by unfolding; after the loop it is known of the state it ends in.

// contState gives the arguments of f in a state: its parameters of struct types are what the cells of that
// type hold, the others are passed on.
func (x *Exec) contState(st *State, f *ssa.Function, from *Term, changed map[int]bool) *Term {
	var ts []*Term
	for i, p := range f.Params {
		s := sortOf(p.Type())
		if _, ok := p.Type().Underlying().(*types.Struct); !ok {
			if i >= len(from.args) || from.args[i].sort != s {
				return nil
			}
			ts = append(ts, from.args[i])
			continue
		}
		var best *Term
		n := 0
		for id, c := range st.heap {
			if c.sort == s && c.op == OMk && changed[id] {
				best = resolve(c, st.heap)
				n++
			}
		}
		if n == 0 {
			for _, c := range st.heap {
				if c.sort == s && c.op == OMk {
					best = resolve(c, st.heap)
					n++
				}
			}
		}
		if n != 1 {
			return nil
		}
		ts = append(ts, best)
	}
	appFns[specName(f)] = f
	return mkApp(specName(f), sortOf(f.Signature.Results().At(0).Type()), ts...)
}

// stepState: the loop changes what the steps are about.
func (x *Exec) stepState(cur *State, changed map[int]bool) bool {
	for _, f := range x.steps {
		for _, p := range f.Params {
			for id := range changed {
				if _, ok := p.Type().Underlying().(*types.Struct); ok && cur.heap[id].sort == sortOf(p.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func contFn(t *Term) *ssa.Function {
	if t.op != OApp {
		return nil
	}
	return appFns[t.name]
}

// contApp is the innermost application a continuation comes from (any will do for the parameters passed on).
func contApp(t *Term) *Term {
	var r *Term
	walk(t, map[*Term]bool{}, func(u *Term) {
		if r == nil && contFn(u) != nil && u.sort == t.sort {
			r = u
		}
	})
	return r
}

// cont unfolds what is left to compute until leaf is content with it, on every path.
func (p *Prover) cont(f *Facts, c *Term, fuel int, leaf func(f *Facts, c *Term) bool) bool {
	c = f.simp(c)
	if f.bad {
		return true
	}
	if p.out() {
		return false
	}
	var cond *Term
	if c.op == OIte {
		cond = c.args[0]
	} else if c.op == OMk {
		for _, a := range c.args {
			if a.op == OIte {
				cond = a.args[0]
				break
			}
		}
	}
	if cond != nil {
		for cond.op == OAnd || cond.op == OOr || cond.op == ONot || cond.op == OIte {
			cond = cond.args[0]
		}
		p.splits++
		for _, l := range []*Term{cond, mkNot(cond)} {
			g := f.clone()
			g.add(l)
			if !g.bad && !p.cont(g, c, fuel, leaf) {
				return false
			}
		}
		return true
	}
	if leaf(f, c) {
		return true
	}
	if fn := contFn(c); fn != nil && fuel > 0 {
		v, _ := unfold(fn, c.args)
		if v == nil {
			return false
		}
		return p.cont(f, v, fuel-1, leaf)
	}
	return false
}

const contFuel = 4

// contIs: what is left to compute is the target.
func (x *Exec) contIs(st *State, target *Term) bool {
	debugf("contIs\n  %s\n  %s\n", cut(st.cont.String(), 600), cut(target.String(), 600))
	x.obls++
	return x.pr.quietly(func() bool { return x.pr.contTo(st.facts, st.cont, target) })
}

// contTo splits the cases of the target first: how far to unfold may depend on them.
func (p *Prover) contTo(f *Facts, c, target *Term) bool {
	target = f.simp(target)
	if f.bad {
		return true
	}
	if p.out() {
		return false
	}
	if l := splitCond(target); l != nil {
		for l.op == OAnd || l.op == OOr || l.op == ONot || l.op == OIte {
			l = l.args[0]
		}
		p.splits++
		for _, l := range []*Term{l, mkNot(l)} {
			g := f.clone()
			g.add(l)
			if !g.bad && !p.contTo(g, c, target) {
				return false
			}
		}
		return true
	}
	return p.cont(f, c, contFuel, func(f *Facts, c *Term) bool {
		t := f.simp(target)
		if c == t {
			return true
		}
		if c.op != OApp || t.op != OApp || c.name != t.name {
			return false
		}
		for i := range c.args {
			if c.args[i] != t.args[i] && !p.prove(f, mkEq(c.args[i], t.args[i])) {
				return false
			}
		}
		return true
	})
}

// terminates: some integer the loop carries moves towards a bound in every iteration.
func (x *Exec) terminates(slots []*slot, r *loopRun, np int) bool {
	if r.back == nil || x.pr == nil {
		return true
	}
	f := r.back.facts
	ask := func(g *Term) bool {
		return x.pr.quietly(func() bool { return x.pr.prove(f, g) })
	}
	var ns []*Term
	seen := map[*Term]bool{}
	for _, c := range r.back.pc[np:] {
		walk(c, map[*Term]bool{}, func(u *Term) {
			if (u.op == OLen || u.op == OStrLen) && !seen[u] {
				seen[u] = true
				ns = append(ns, u)
			}
		})
	}
	for _, s := range slots {
		if s.sort != IntS || s.back == s.sym {
			continue
		}
		if ask(mkLt(s.sym, s.back)) {
			for _, n := range ns {
				for c := int64(0); c < 3; c++ {
					if ask(mkLt(s.sym, mkAdd(n, mkInt(c)))) {
						x.obls++
						return true
					}
				}
			}
		}
		if ask(mkLt(s.back, s.sym)) && ask(mkLe(mkInt(0), s.sym)) {
			x.obls++
			return true
		}
	}
	return false
}

// stepFns are the functions a steps contract names.
func stepFns(c *Contract, names []string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range names {
		if f, ok := c.spec.Pkg.Members[n].(*ssa.Function); ok {
			out = append(out, f)
		}
	}
	return out
}

var _ = token.NoPos
