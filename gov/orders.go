package main

// A sorted list is what sort makes of it only if the comparison is a strict total order: of each one found
// in a function under contract it is shown that it is irreflexive, transitive and total, from the same of the
// order of strings and of numbers.

var orderOK = map[*Term]bool{}

func strictOrder(l *Term) bool {
	if r, ok := orderOK[l]; ok {
		return r
	}
	orderOK[l] = strictOrder1(l)
	return orderOK[l]
}

func strictOrder1(l *Term) bool {
	var e1, e2 *Term
	walk(l, map[*Term]bool{}, func(t *Term) {
		if t.op == OVar && len(t.name) > 4 {
			switch t.name[:4] {
			case "@s1:":
				e1 = t
			case "@s2:":
				e2 = t
			}
		}
	})
	if e1 == nil || e2 == nil || e1.sort != e2.sort {
		return false
	}
	s := e1.sort
	elem := func(n string) *Term {
		if s.kind != SStruct {
			return freshVar(n, s)
		}
		var fs []*Term
		for _, t := range s.fields {
			fs = append(fs, freshVar(n, t))
		}
		return mkMk(s, fs)
	}
	v := []*Term{elem("x"), elem("y"), elem("z")}
	at := func(i, j int) *Term { return substMap(l, map[*Term]*Term{e1: v[i], e2: v[j]}) }
	// the strings compared, as functions of the element
	keys := map[*Term]bool{}
	walk(l, map[*Term]bool{}, func(t *Term) {
		if t.op == OApp && t.name == "strlt" || t.op == OEq && t.args[0].sort == StrS {
			for _, a := range t.args {
				k := substMap(a, map[*Term]*Term{e2: e1})
				keys[k] = true
			}
		}
	})
	f := newFacts()
	lt := func(a, b *Term) *Term { return mkApp("strlt", BoolS, a, b) }
	for k := range keys {
		key := func(i int) *Term { return substMap(k, map[*Term]*Term{e1: v[i]}) }
		for i := range v {
			for j := range v {
				if i < j {
					f.add(mkOr(mkEq(key(i), key(j)), lt(key(i), key(j)), lt(key(j), key(i))))
				}
				if i != j {
					f.add(mkNot(mkAnd(lt(key(i), key(j)), lt(key(j), key(i)))))
					n := 3 - i - j
					f.add(mkOr(mkNot(lt(key(i), key(j))), mkNot(lt(key(j), key(n))), lt(key(i), key(n))))
				}
			}
		}
	}
	p := newProver()
	p.quiet = true
	ok := func(g *Term) bool { return p.prove(f, g) || smtAsk(p, f, g) }
	return ok(mkNot(at(0, 0))) &&
		ok(mkOr(mkNot(at(0, 1)), mkNot(at(1, 2)), at(0, 2))) &&
		ok(mkOr(at(0, 1), at(1, 0), mkEq(v[0], v[1])))
}

var (
	orderRepOf = map[*Term]*Term{}
	orderReps  = map[string][]*Term{}
)

// orderRep gives equal comparisons the same term: of equivalent ones the first seen.
func orderRep(l *Term) *Term {
	if r, ok := orderRepOf[l]; ok {
		return r
	}
	orderRepOf[l] = l
	var e1, e2 *Term
	walk(l, map[*Term]bool{}, func(t *Term) {
		if t.op == OVar && len(t.name) > 4 {
			switch t.name[:4] {
			case "@s1:":
				e1 = t
			case "@s2:":
				e2 = t
			}
		}
	})
	if e1 == nil || e2 == nil || e1.sort != e2.sort {
		return l
	}
	lt := func(a, b *Term) *Term { return mkApp("strlt", BoolS, a, b) }
	for _, o := range orderReps[e1.sort.name] {
		f := newFacts()
		for _, u := range []*Term{l, o} {
			walk(u, map[*Term]bool{}, func(t *Term) {
				if t.op == OApp && t.name == "strlt" || t.op == OEq && t.args[0].sort == StrS {
					a, b := t.args[0], t.args[1]
					f.add(mkOr(mkEq(a, b), lt(a, b), lt(b, a)))
					f.add(mkNot(mkAnd(lt(a, b), lt(b, a))))
					f.add(mkNot(mkAnd(mkEq(a, b), lt(a, b))))
					f.add(mkNot(mkAnd(mkEq(a, b), lt(b, a))))
				}
			})
		}
		p := newProver()
		p.quiet = true
		if g := mkEq(l, o); p.prove(f, g) || smtAsk(p, f, g) {
			orderRepOf[l] = o
			return o
		}
	}
	orderReps[e1.sort.name] = append(orderReps[e1.sort.name], l)
	return l
}
