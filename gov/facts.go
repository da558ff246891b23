package main

import (
	"math/big"
	"sort"
	"strings"
)

var minus1 = big.NewInt(-1)

// diff is args[1] - args[0] of a comparison: a linear part, its negation and a constant.
type diff struct {
	key, neg *Term
	c        *big.Int
}

var diffTab = map[*Term]*diff{}

func diffOf(t *Term) *diff {
	if d, ok := diffTab[t]; ok {
		return d
	}
	l := newLin()
	linOf(t.args[1], big.NewInt(1), l)
	linOf(t.args[0], minus1, l)
	d := &diff{c: l.c}
	l.c = new(big.Int)
	d.key = linTerm(l)
	d.neg = mkSub(mkInt(0), d.key)
	diffTab[t] = d
	return d
}

// Facts is what is known on a path: a set of literals with derived information.
type Facts struct {
	lits      map[*Term]bool
	order     []*Term
	tag       map[*Term]string // dynamic type of an interface term
	val       map[*Term]*Term  // term known equal to a constant
	memo      map[*Term]*Term
	bad       bool
	firstDone map[*Term]bool // searches whose result has been described
}

func newFacts() *Facts {
	return &Facts{lits: map[*Term]bool{}, tag: map[*Term]string{}, val: map[*Term]*Term{}, memo: map[*Term]*Term{}, firstDone: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.lits {
		g.lits[k] = v
	}
	g.order = append([]*Term{}, f.order...)
	for k, v := range f.tag {
		g.tag[k] = v
	}
	for k, v := range f.val {
		g.val[k] = v
	}
	for k := range f.firstDone {
		g.firstDone[k] = true
	}
	g.bad = f.bad
	return g
}

// add assumes c.
func (f *Facts) add(c *Term) {
	c = f.simp(c)
	f.add1(c)
}

func (f *Facts) add1(c *Term) {
	if c == True || f.lits[c] {
		return
	}
	if c == False {
		f.bad = true
		return
	}
	f.memo = map[*Term]*Term{}
	if c.op == OAnd {
		for _, a := range c.args {
			f.add1(f.simp(a))
		}
		return
	}
	if c.op == ONot && c.args[0].op == OOr {
		for _, a := range c.args[0].args {
			f.add1(f.simp(mkNot(a)))
		}
		f.lits[c] = true
		return
	}
	f.lits[c] = true
	f.order = append(f.order, c)
	switch c.op {
	case OIsT:
		x := c.args[0]
		if t, ok := f.tag[x]; ok && t != c.name {
			f.bad = true
		}
		f.tag[x] = c.name
	case OIsNil:
		f.val[c.args[0]] = NilAny
	case OMapIsNil:
		f.val[c.args[0]] = mkMapNil(c.args[0].sort)
	case ONot:
		if x := c.args[0]; x.op == OMapIsNil && f.lits[mkEq(mkMapLen(x.args[0]), mkInt(0))] {
			f.val[x.args[0]] = mkMapEmpty(x.args[0].sort)
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		for k, e := range c.args { // an empty string or sequence has no characters or elements
			if z := c.args[1-k]; z.op == OInt && z.n.Sign() == 0 {
				if e.op == OLen {
					f.val[e.args[0]] = mkSeqEmpty(e.args[0].sort)
				} else if e.op == OStrLen {
					f.val[e.args[0]] = mkStr("")
				} else if e.op == OMapLen {
					if m := e.args[0]; f.lits[mkNot(mkMapIsNil(m))] {
						f.val[m] = mkMapEmpty(m.sort)
					}
				}
			}
		}
		if isConst(a) && !isConst(b) {
			f.val[b] = a
		} else if isConst(b) && !isConst(a) {
			f.val[a] = b
		} else if a.sort == IntS {
			// x + .. = y: orient towards a variable-like side when it is a single atom
			if a.op != OAdd && a.op != OMul && !occurs(a, b) {
				f.val[a] = b
			} else if b.op != OAdd && b.op != OMul && !occurs(b, a) {
				f.val[b] = a
			}
		}
	}
	switch { // integers: a bound that is excluded moves, two bounds that meet are an equation
	case c.op == OLe:
		a, b := c.args[0], c.args[1]
		if f.lits[mkNot(mkEq(a, b))] {
			f.add1(f.simp(mkLt(a, b)))
		} else if f.lits[mkLe(b, a)] {
			f.add1(f.simp(mkEq(a, b)))
		} else if b.op == OInt && b.n.Sign() == 0 && a.op == OAdd && a.nonNeg { // a sum of lengths that is zero
			l := newLin()
			linOf(a, big.NewInt(1), l)
			all := l.c.Sign() == 0
			for t, k := range l.atoms {
				all = all && t.nonNeg && k.Sign() > 0
			}
			if all {
				var ts []*Term
				for t := range l.atoms {
					ts = append(ts, t)
				}
				sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
				for _, t := range ts {
					f.add1(f.simp(mkEq(t, mkInt(0))))
				}
			}
		}
	case c.op == ONot && c.args[0].op == OEq && c.args[0].args[0].sort == IntS:
		for k := 0; k < 2; k++ {
			a, b := c.args[0].args[k], c.args[0].args[1-k]
			if l := mkLe(a, b); l != True && f.lits[l] {
				f.add1(f.simp(mkLt(a, b)))
			}
		}
	}
	// propagate into disjunctions that are already known
	for i := 0; i < len(f.order); i++ {
		l := f.order[i]
		if l.op == OOr || l.op == OIte || l.op == ONot && (l.args[0].op == OAnd || l.args[0].op == OIte) {
			var n *Term
			if l.op == ONot {
				n = mkNot(f.simpArgs(l.args[0]))
			} else {
				n = f.simpArgs(l)
			}
			if n == False {
				f.bad = true
			} else if n != l && n != True {
				f.add1(n)
			}
		}
	}
	if f.lits[mkNot(c)] {
		f.bad = true
	}
}

func (f *Facts) simpBinder(t *Term) *Term {
	// look at the closed body first: mostly nothing in it is known
	same := true
	for _, a := range t.args {
		if f.simp(a) != a {
			same = false
			break
		}
	}
	if same {
		return t
	}
	return substBinder(t, func(x *Term) *Term {
		if x.op == OVar && (x.name[0] == 'j' || x.name[0] == 'a') {
			return nil
		}
		return f.simp(x)
	}, map[*Term]*Term{})
}

func (f *Facts) simpArgs(t *Term) *Term {
	if isBinder(t) {
		return f.simpBinder(t)
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = f.simp(a)
	}
	return rebuild(t, as)
}

func (f *Facts) lit(t *Term) *Term {
	if f.lits[t] {
		return True
	}
	if f.lits[mkNot(t)] {
		return False
	}
	switch t.op {
	case OIsT:
		if k, ok := f.tag[t.args[0]]; ok {
			return mkBool(k == t.name)
		}
		if f.lits[mkIsNil(t.args[0])] {
			return False
		}
		for _, l := range f.order { // x does not implement I, t does
			if l.op == ONot && l.args[0].op == OImpl && l.args[0].args[0] == t.args[0] && implements(t.name, l.args[0].name) {
				return False
			}
			if l.op == OImpl && l.args[0] == t.args[0] && !implements(t.name, l.name) {
				return False
			}
		}
	case OIsNil:
		if _, ok := f.tag[t.args[0]]; ok {
			return False
		}
		for _, l := range f.order {
			if l.op == OImpl && l.args[0] == t.args[0] {
				return False
			}
		}
	case OImpl:
		if k, ok := f.tag[t.args[0]]; ok {
			return mkBool(implements(k, t.name))
		}
		if f.lits[mkIsNil(t.args[0])] {
			return False
		}
		for _, l := range f.order {
			if l.op == OImpl && l.args[0] == t.args[0] && subIface(l.name, t.name) {
				return True
			}
		}
		for _, l := range f.order { // one of several types
			if l.op == OOr && typeTests(l.args) && l.args[0].args[0] == t.args[0] {
				all, none := true, true
				for _, a := range l.args {
					if a.args[0] != t.args[0] {
						all, none = false, false
						break
					}
					if implements(a.name, t.name) {
						none = false
					} else {
						all = false
					}
				}
				if all || none {
					return mkBool(all)
				}
			}
		}
	case OLe:
		// a <= b known with a smaller margin
		d := diffOf(t)
		for _, l := range f.order {
			if l.op == OLe {
				e := diffOf(l) // e >= 0
				if d.key == e.key && d.c.Cmp(e.c) >= 0 {
					return True
				}
				if d.key == e.neg && new(big.Int).Add(d.c, e.c).Sign() < 0 {
					return False
				}
			}
			if l.op == ONot && l.args[0].op == OEq && l.args[0].args[0].sort == IntS {
				// x != 0 with x nonneg: 1 <= x
				for i := 0; i < 2; i++ {
					x, z := l.args[0].args[i], l.args[0].args[1-i]
					if z.op == OInt && z.n.Sign() == 0 && x.nonNeg && d.key == x && d.c.Sign() < 0 && d.c.Cmp(minus1) >= 0 {
						return True
					}
				}
			}
		}
	case OEq:
		for k := 0; k < 2 && t.args[0].sort == AnyS; k++ { // a value of known type and a boxed one
			if x, b := t.args[k], t.args[1-k]; b.op == OBox {
				if tag, ok := f.tag[x]; ok {
					if tag != b.name {
						return False
					}
					return mkEq(mkUnbox(tag, b.args[0].sort, x), b.args[0])
				}
			}
		}
		if t.args[0].sort == IntS {
			d := diffOf(t)
			for _, l := range f.order {
				if l.op == OLe {
					// a difference that is positive in one direction
					e := diffOf(l)
					if d.key == e.key && d.c.Cmp(e.c) > 0 || d.neg == e.key && new(big.Int).Neg(d.c).Cmp(e.c) > 0 {
						return False
					}
				}
			}
		}
	}
	return nil
}

// unboxed is t with the values of a type switch back in the interface they came from.
func (f *Facts) unboxed(t *Term) *Term {
	switch {
	case t.op == OBox:
		if u := t.args[0]; u.op == OUnbox && u.name == t.name && f.simp(mkIsT(t.name, u.args[0])) == True {
			return u.args[0]
		}
	case t.sort.kind == SSeq && t.sort.elem == AnyS:
		ws := append([]*Term{}, seqWord(t)...)
		for i, w := range ws {
			if w.op == OSeqUnit {
				ws[i] = mkUnit(f.unboxed(w.args[0]))
			}
		}
		return mkSeqConcat(t.sort, ws...)
	}
	return t
}

// simp rewrites t with what is known.
func (f *Facts) simp(t *Term) *Term {
	if len(f.lits) == 0 && len(f.val) == 0 {
		return t
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := f.simp0(t)
	f.memo[t] = r
	for i := 0; i < 8; i++ { // what a rewriting exposes may be known too
		n := f.simp1(r)
		if n == r {
			break
		}
		r = n
	}
	f.memo[t] = r
	return r
}

func (f *Facts) simp1(t *Term) *Term {
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := f.simp0(t)
	f.memo[t] = r
	return r
}

func (f *Facts) simp0(t *Term) *Term {
	if v, ok := f.val[t]; ok {
		return v
	}
	if t.sort == BoolS && t != True && t != False {
		if v := f.lit(t); v != nil {
			return v
		}
	}
	if len(t.args) == 0 {
		return t
	}
	if isBinder(t) {
		return f.simpBinder(t)
	}
	if t.op == OIte {
		c := f.simp(t.args[0])
		if c == True {
			return f.simp(t.args[1])
		}
		if c == False {
			return f.simp(t.args[2])
		}
		return mkIte(c, f.simp(t.args[1]), f.simp(t.args[2]))
	}
	r := f.simpArgs(t)
	if r.op == OApp && (r.name == "sprintf" || r.name == "sprint") {
		r = f.boxKnown(r)
	}
	if r.op == OApp && len(r.args) == 1 && r.args[0].sort == AnyS && r.args[0].op != OBox && r.args[0].op != OIte {
		// what a statement of a known type does
		if fn := appFns[strings.TrimPrefix(r.name, "pan:")]; fn != nil && isIfaceSpec(fn) {
			if k, ok := f.tag[r.args[0]]; ok && P.typesByKey[k] != nil {
				r = mkApp(r.name, r.sort, mkBox(k, mkUnbox(k, sortOf(P.typesByKey[k]), r.args[0])))
			}
		}
	}
	if r != t {
		if v, ok := f.val[r]; ok {
			return v
		}
		if r.sort == BoolS && r != True && r != False {
			if v := f.lit(r); v != nil {
				return v
			}
		}
	}
	return r
}

// resat adds every fact again, simplified with the others; nil when nothing changes.
func (f *Facts) resat() *Facts {
	g := newFacts()
	changed := false
	for _, l := range f.order {
		n := l
		if l.op == ONot {
			n = mkNot(f.simpArgs(l.args[0]))
		} else if len(l.args) > 0 {
			n = f.simpArgs(l)
		}
		if n != l {
			changed = true
		}
		if n == True { // implied by its own consequences: keep the original
			n = l
			g.add1(n)
			continue
		}
		g.add(n)
		if g.bad {
			return g
		}
	}
	if !changed {
		return nil
	}
	return g
}

// boxKnown shows the operands of a format whose dynamic type is known.
func (f *Facts) boxKnown(t *Term) *Term {
	l := t.args[len(t.args)-1]
	us := allUnits(l)
	ch := false
	for i, u := range us {
		if u.op == OBox {
			continue
		}
		if k, ok := f.tag[u]; ok && P.typesByKey[k] != nil {
			if !ch {
				us = append([]*Term{}, us...)
				ch = true
			}
			us[i] = mkBox(k, mkUnbox(k, sortOf(P.typesByKey[k]), u))
		}
	}
	if !ch {
		return t
	}
	ws := make([]*Term, len(us))
	for i, u := range us {
		ws[i] = mkUnit(u)
	}
	if t.name == "sprint" && len(us) == 1 {
		if r := sprintfTerm("%v", us); r != nil {
			return r
		}
	}
	if t.name == "sprintf" && t.args[0].op == OStr {
		if r := sprintfTerm(t.args[0].name, us); r != nil {
			return r
		}
	}
	as := append([]*Term{}, t.args[:len(t.args)-1]...)
	return mkApp(t.name, t.sort, append(as, mkSeqConcat(l.sort, ws...))...)
}
