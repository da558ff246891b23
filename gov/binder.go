package main

import (
	"fmt"
	"sort"
)

// Binder terms: comprehensions that loops are summarised to. The bound index of a
// binder of level d is the variable "#d", the bound accumulator of a fold "@d:<sort>".
// Levels grow outwards, so two terms that differ in bound names only are identical.

func idxVar(d int) *Term          { return mkVar(fmt.Sprintf("#%d", d), IntS) }
func accVar(d int, s *Sort) *Term { return mkVar(fmt.Sprintf("@%d:%s", d, s.name), s) }
func isBinder(t *Term) bool {
	return t.op == OBig || t.op == OExists || t.op == OFirst || t.op == OFold
}

var Inf = mkVar("inf", IntS)

func occurs(x, t *Term) bool {
	if x.op == OVar && (x.name[0] == '#' || x.name[0] == '@') { // free only
		for _, v := range boundVars(t) {
			if v == x {
				return true
			}
		}
		return false
	}
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(u *Term) bool {
		if u == x {
			return true
		}
		if seen[u] || len(u.args) == 0 {
			return false
		}
		seen[u] = true
		for _, a := range u.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func bindLvl(ts ...*Term) int {
	d := 0
	for _, t := range ts {
		if t.lvl > d {
			d = t.lvl
		}
	}
	return d + 1
}

func repl1(t, x, y *Term) *Term {
	if x == y {
		return t
	}
	return substMap(t, map[*Term]*Term{x: y})
}

// openB instantiates the body of a binder.
func openB(t, j, acc *Term) *Term {
	m := map[*Term]*Term{idxVar(t.idx): j}
	body := t.args[len(t.args)-1]
	if t.op == OFold {
		m[accVar(t.idx, t.sort)] = acc
	}
	return substMap(body, m)
}

func substBinder(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	j := freshNonNeg("j")
	n := subst(t.args[0], f, memo)
	switch t.op {
	case OFold:
		a := freshVar("a", t.sort)
		init := subst(t.args[1], f, memo)
		ob := openB(t, j, a)
		body := subst(ob, f, memo)
		if n == t.args[0] && init == t.args[1] && body == ob {
			return t
		}
		return mkFold(n, init, a, j, body)
	}
	ob := openB(t, j, nil)
	body := subst(ob, f, memo)
	if n == t.args[0] && body == ob {
		return t
	}
	switch t.op {
	case OBig:
		return mkBigT(n, j, body)
	case OExists:
		return mkExists(n, j, body)
	}
	return mkFirst(n, j, body)
}

func closeB(j, body *Term) (int, *Term) {
	d := bindLvl(body)
	return d, repl1(body, j, idxVar(d))
}

func emptyOf(s *Sort) *Term {
	if s.kind == SStr {
		return mkStr("")
	}
	return mkSeqEmpty(s)
}

func catOf(s *Sort, ts ...*Term) *Term {
	if s.kind == SStr {
		return mkConcat(ts...)
	}
	return mkSeqConcat(s, ts...)
}

func wordAny(t *Term) []*Term {
	if t.sort.kind == SStr {
		return wordOf(t)
	}
	return seqWord(t)
}

// splitOff separates n = m + c with c >= 1 constant and m non-negative.
func splitOff(n *Term) (*Term, bool) {
	if n.op != OAdd {
		return nil, false
	}
	last := n.args[len(n.args)-1]
	if last.op != OInt || last.n.Sign() <= 0 {
		return nil, false
	}
	m := mkSub(n, mkInt(1))
	if !m.nonNeg {
		return nil, false
	}
	return m, true
}

const expandMax = 16

func mkBigT(n, j, body *Term) *Term {
	s := body.sort
	if body == emptyOf(s) {
		return body
	}
	if n.op == OInt {
		if n.n.Sign() <= 0 {
			return emptyOf(s)
		}
		if n.n.IsInt64() && n.n.Int64() <= expandMax {
			var ts []*Term
			for i := int64(0); i < n.n.Int64(); i++ {
				ts = append(ts, repl1(body, j, mkInt(i)))
			}
			return catOf(s, ts...)
		}
	}
	if n.op == OIte {
		return mkIte(n.args[0], mkBigT(n.args[1], j, body), mkBigT(n.args[2], j, body))
	}
	if m, ok := splitOff(n); ok {
		return catOf(s, mkBigT(m, j, body), repl1(body, j, m))
	}
	// up to where a search ends, its condition is false
	if n.op == OFirst {
		f := newFacts()
		f.add(mkNot(openB(n, j, nil)))
		if nb := f.simp(body); !f.bad && nb != body {
			return mkBigT(n, j, nb)
		}
		hyp := mkAnd(mkLe(mkInt(0), j), mkNot(openB(n, j, nil)))
		for _, c := range intTests(body) {
			for _, v := range []*Term{True, False} {
				if smtEquiv(c, v, hyp) {
					f.add(mkEq(c, v))
					if nb := f.simp(body); !f.bad && nb != body {
						return mkBigT(n, j, nb)
					}
				}
			}
		}
	}
	if l, v, b := flatOver(n, j, body); l != nil {
		return overElems(l, func(e *Term) *Term { return repl1(b, v, e) }, mkBigT,
			func(ts ...*Term) *Term { return catOf(s, ts...) })
	}
	w := wordAny(body)
	// identity comprehension
	if s.kind == SSeq && len(w) == 1 && w[0].op == OSeqUnit {
		u := w[0].args[0]
		if u.op == OAt && u.args[1] == j && u.args[0].sort == s && !occurs(j, u.args[0]) {
			if n == mkLen(u.args[0]) {
				return u.args[0]
			}
		}
	}
	// a literal after a separator goes with the separator
	if s.kind == SStr && len(w) > 1 && w[0].op == OIte && w[0].args[0] == mkEq(j, mkInt(0)) && w[1].op == OStr && n != Inf && !occurs(j, w[0].args[1]) {
		rest := append([]*Term{mkIte(w[0].args[0], emptyOf(s), mkConcat(w[0].args[2], w[1]))}, w[2:]...)
		return catOf(s, mkIte(mkLe(n, mkInt(0)), emptyOf(s), mkConcat(w[0].args[1], w[1])), mkBigT(n, j, catOf(s, rest...)))
	}
	// something before the first element only
	if w[0].op == OIte && w[0].args[0] == mkEq(j, mkInt(0)) && w[0].args[1] != emptyOf(s) && !occurs(j, w[0].args[1]) && n != Inf {
		rest := append([]*Term{mkIte(w[0].args[0], emptyOf(s), w[0].args[2])}, w[1:]...)
		return catOf(s, mkIte(mkLe(n, mkInt(0)), emptyOf(s), w[0].args[1]), mkBigT(n, j, catOf(s, rest...)))
	}
	// trailing separator: A(j) . [j != n-1] s   ==>   [j != 0] s . A(j)
	if len(w) > 1 {
		last := w[len(w)-1]
		if last.op == OIte && !occurs(j, n) {
			isLast := mkEq(mkAdd(j, mkInt(1)), n)
			c, x, y := last.args[0], last.args[1], last.args[2]
			var sep, end *Term // after an element that is not the last one; after the last one
			switch c {
			case isLast, mkLe(n, mkAdd(j, mkInt(1))):
				sep, end = y, x
			case mkNot(isLast), mkLe(mkAdd(j, mkInt(2)), n): // j + 1 < n
				sep, end = x, y
			}
			if sep != nil && !occurs(j, sep) && !occurs(j, end) && n != Inf {
				rest := catOf(s, w[:len(w)-1]...)
				return catOf(s, mkBigT(n, j, catOf(s, mkIte(mkEq(j, mkInt(0)), emptyOf(s), sep), rest)), mkIte(mkLe(n, mkInt(0)), emptyOf(s), end))
			}
		}
	}
	d, b := closeB(j, body)
	return intern(&Term{op: OBig, sort: s, idx: d, args: []*Term{n, b}})
}

// flatOver: n is the length of a concatenation over something, and body uses
// j only for the element of it: the concatenation, and body over the element v.
func flatOver(n, j, body *Term) (l, v, b *Term) {
	if n.op != OLen || n.args[0].op != OBig || occurs(j, n) {
		return nil, nil, nil
	}
	l = n.args[0]
	v = freshVar("v", l.sort.elem)
	b = repl1(body, intern(&Term{op: OAt, sort: l.sort.elem, args: []*Term{l, j}}), v)
	if b == body || occurs(j, b) {
		return nil, nil, nil
	}
	return l, v, b
}

func eachCase(t *Term, of func(*Term) *Term) *Term {
	if t.op == OIte {
		return mkIte(t.args[0], eachCase(t.args[1], of), eachCase(t.args[2], of))
	}
	return of(t)
}

// overElems is what of gives for each element of the sequence s, together.
func overElems(s *Term, of func(elem *Term) *Term, each func(n, j, body *Term) *Term, join func(ts ...*Term) *Term) *Term {
	switch s.op {
	case OSeqUnit:
		return eachCase(s.args[0], of)
	case OSeqConcat:
		var ts []*Term
		for _, a := range s.args {
			ts = append(ts, overElems(a, of, each, join))
		}
		return join(ts...)
	case OIte:
		return mkIte(s.args[0], overElems(s.args[1], of, each, join), overElems(s.args[2], of, each, join))
	case OBig:
		i := freshNonNeg("j")
		return each(s.args[0], i, overElems(openB(s, i, nil), of, each, join))
	}
	j := freshNonNeg("j")
	return each(mkLen(s), j, of(mkAt(s, j)))
}

// intTests lists the conditions on numbers that decide what t is.
func intTests(t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var rec func(u *Term)
	rec = func(u *Term) {
		if seen[u] || isBinder(u) {
			return
		}
		seen[u] = true
		if u.op == OIte && arith(u.args[0]) && len(r) < 8 {
			r = append(r, u.args[0])
		}
		for _, a := range u.args {
			rec(a)
		}
	}
	rec(t)
	return r
}

func mkExists(n, j, body *Term) *Term {
	if body == False {
		return False
	}
	if n.op == OInt {
		if n.n.Sign() <= 0 {
			return False
		}
		if n.n.IsInt64() && n.n.Int64() <= expandMax {
			var ts []*Term
			for i := int64(0); i < n.n.Int64(); i++ {
				ts = append(ts, repl1(body, j, mkInt(i)))
			}
			return mkOr(ts...)
		}
	}
	if !occurs(j, body) {
		if n == Inf {
			return body
		}
		return mkAnd(mkLe(mkInt(1), n), body)
	}
	if n.op == OIte {
		return mkIte(n.args[0], mkExists(n.args[1], j, body), mkExists(n.args[2], j, body))
	}
	if m, ok := splitOff(n); ok {
		return mkOr(mkExists(m, j, body), repl1(body, j, m))
	}
	if l, v, b := flatOver(n, j, body); l != nil {
		return overElems(l, func(e *Term) *Term { return repl1(b, v, e) }, mkExists, mkOr)
	}
	if body.op == OOr {
		var ts []*Term
		for _, a := range body.args {
			ts = append(ts, mkExists(n, j, a))
		}
		return mkOr(ts...)
	}
	if body.op == OAnd {
		var in, out []*Term
		for _, a := range body.args {
			if occurs(j, a) {
				in = append(in, a)
			} else {
				out = append(out, a)
			}
		}
		if len(out) > 0 {
			return mkAnd(append(out, mkExists(n, j, mkAnd(in...)))...)
		}
	}
	d, b := closeB(j, body)
	return intern(&Term{op: OExists, sort: BoolS, idx: d, args: []*Term{n, b}})
}

// existsOf is whether a bounded search finds anything.
func existsOf(f *Term) *Term {
	j := freshNonNeg("j")
	return mkExists(f.args[0], j, openB(f, j, nil))
}

var firstMemo = map[*Term][]*Term{}

// firstsIn lists the searches in t outside comprehensions.
func firstsIn(t *Term) []*Term {
	if t.lvl == 0 || len(t.args) == 0 {
		return nil
	}
	if r, ok := firstMemo[t]; ok {
		return r
	}
	var r []*Term
	if t.op == OFirst {
		r = append(r, t)
	} else if !isBinder(t) {
		seen := map[*Term]bool{}
		for _, a := range t.args {
			for _, x := range firstsIn(a) {
				if !seen[x] {
					seen[x] = true
					r = append(r, x)
				}
			}
		}
	}
	firstMemo[t] = r
	return r
}

func mkFirst(n, j, body *Term) *Term {
	if n == Inf {
		// the first j with n <= j or P(j) is the first j < n with P(j), n when there is none
		ds := []*Term{body}
		if body.op == OOr {
			ds = body.args
		}
		for i, d := range ds {
			if d.op == OLe && d.args[1] == j && d.args[0].nonNeg && !occurs(j, d.args[0]) {
				rest := append(append([]*Term{}, ds[:i]...), ds[i+1:]...)
				return mkFirst(d.args[0], j, mkOr(rest...))
			}
		}
	}
	if body == False && n != Inf {
		return n
	}
	if body == True && n == Inf {
		return mkInt(0)
	}
	if n.op == OInt && n.n.Sign() <= 0 {
		return mkInt(0)
	}
	if n.op == OInt && n.n.IsInt64() && n.n.Int64() <= expandMax {
		r := n
		for i := n.n.Int64() - 1; i >= 0; i-- {
			r = mkIte(repl1(body, j, mkInt(i)), mkInt(i), r)
		}
		return r
	}
	// a search that is over after a few steps
	for k := int64(0); k < 4; k++ {
		if trueAt(body, j, k) {
			r := mkInt(k)
			for i := k - 1; i >= 0; i-- {
				end := False
				if n != Inf {
					end = mkLe(n, mkInt(i))
				}
				r = mkIte(mkOr(repl1(body, j, mkInt(i)), end), mkInt(i), r)
			}
			return r
		}
	}
	d, b := closeB(j, body)
	return sameFirst(intern(&Term{op: OFirst, sort: IntS, idx: d, args: []*Term{n, b}}))
}

// trueAt is whether the condition holds at k because of where k is.
func trueAt(body, j *Term, k int64) bool {
	ds := []*Term{body}
	if body.op == OOr {
		ds = body.args
	}
	for _, d := range ds {
		a := d
		if a.op == ONot {
			a = a.args[0]
		}
		if (a.op == OEq || a.op == OLe) && a.args[0].sort == IntS && (a.args[0].op == OInt || a.args[1].op == OInt) && repl1(d, j, mkInt(k)) == True {
			return true
		}
	}
	return false
}

var (
	firstRep   = map[*Term]*Term{}
	firstClass = map[string][]*Term{}
)

// sameFirst gives equal searches the same term: of those whose conditions are equivalent, the first seen.
func sameFirst(t *Term) *Term {
	if r, ok := firstRep[t]; ok {
		return r
	}
	k := fmt.Sprint(t.args[0].id) + ":" + boolAtoms(t.args[1])
	j := mkVar("j!first", IntS)
	for _, o := range firstClass[k] {
		if smtEquiv(openB(t, j, nil), openB(o, j, nil), mkLe(mkInt(0), j)) {
			firstRep[t] = o
			return o
		}
	}
	firstClass[k] = append(firstClass[k], t)
	firstRep[t] = t
	return t
}

// boolAtoms names what a condition is about.
func boolAtoms(t *Term) string {
	seen := map[*Term]bool{}
	var ids []int
	var rec func(u *Term)
	rec = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		switch u.op {
		case OTrue, OFalse, OInt:
			return
		case ONot, OAnd, OOr, OEq, OIte, OAdd, OMul, OLe:
			for _, a := range u.args {
				rec(a)
			}
			return
		}
		ids = append(ids, u.id)
	}
	rec(t)
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// elemUpd is the new element at j when a step changes nothing else.
func elemUpd(body, acc, j *Term) *Term {
	switch {
	case body == acc:
		return mkAt(acc, j)
	case body.op == OSeqUpdate && body.args[0] == acc && body.args[1] == j:
		return body.args[2]
	case body.op == OIte:
		a, b := elemUpd(body.args[1], acc, j), elemUpd(body.args[2], acc, j)
		if a != nil && b != nil {
			return mkIte(body.args[0], a, b)
		}
	}
	return nil
}

func mkFold(n, init, acc, j, body *Term) *Term {
	if body == acc {
		return init
	}
	if n.op == OInt {
		if n.n.Sign() <= 0 {
			return init
		}
		if n.n.IsInt64() && n.n.Int64() <= expandMax {
			r := init
			for i := int64(0); i < n.n.Int64(); i++ {
				r = substMap(body, map[*Term]*Term{j: mkInt(i), acc: r})
			}
			return r
		}
	}
	if n.op == OIte {
		return mkIte(n.args[0], mkFold(n.args[1], init, acc, j, body), mkFold(n.args[2], init, acc, j, body))
	}
	if m, ok := splitOff(n); ok {
		r := mkFold(m, init, acc, j, body)
		return substMap(body, map[*Term]*Term{j: m, acc: r})
	}
	// copying a map entry by entry
	if body.op == OMapPut && body.args[0] == acc && init.op == OMapEmpty && n.op == OMapLen && n.args[0].sort == init.sort {
		m := n.args[0]
		key := mkApp("keyAt", m.sort.key, m, j)
		if body.args[1] == key && body.args[2] == mkMapGetRaw(m, key) {
			return mkIte(mkMapIsNil(m), init, m)
		}
	}
	// replacing the elements of a sequence one after the other
	if init.sort.kind == SSeq {
		if v := elemUpd(body, acc, j); v != nil {
			v = substMap(v, map[*Term]*Term{mkAt(acc, j): mkAt(init, j), mkLen(acc): mkLen(init)})
			if !occurs(acc, v) {
				return mkSeqConcat(init.sort, mkBigT(n, j, mkUnit(v)), mkExtract(init, n, mkLen(init)))
			}
		}
	}
	d := bindLvl(body)
	b := substMap(body, map[*Term]*Term{j: idxVar(d), acc: accVar(d, init.sort)})
	return intern(&Term{op: OFold, sort: init.sort, idx: d, args: []*Term{n, init, b}})
}

// sliceOf are the components of a loop's group of variables that component i depends on; nil when all.
func sliceOf(t *Term, i int) []int {
	body := t.args[2]
	if t.sort.kind != SStruct || t.sort.name[:2] != "T(" || body.op != OMk || t.args[1].op != OMk {
		return nil
	}
	acc := accVar(t.idx, t.sort)
	deps := func(u *Term) (map[int]bool, bool) { // which components; false when the group is used as a whole
		out := map[int]bool{}
		seen := map[*Term]bool{}
		ok := true
		var rec func(u *Term)
		rec = func(u *Term) {
			if seen[u] || !ok {
				return
			}
			seen[u] = true
			if u == acc {
				ok = false
				return
			}
			if u.op == OSel && u.args[0] == acc {
				out[u.idx] = true
				return
			}
			for _, a := range u.args {
				rec(a)
			}
		}
		rec(u)
		return out, ok
	}
	in := map[int]bool{i: true}
	todo := []int{i}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		d, ok := deps(body.args[k])
		if !ok {
			return nil
		}
		for x := range d {
			if !in[x] {
				in[x] = true
				todo = append(todo, x)
			}
		}
	}
	if len(in) == len(body.args) {
		return nil
	}
	var out []int
	for k := range body.args {
		if in[k] {
			out = append(out, k)
		}
	}
	return out
}

// selFold is one variable of a group computed by a loop: the variables it does not depend on are left out.
func selFold(i int, t *Term) *Term {
	keep := sliceOf(t, i)
	if keep == nil {
		return nil
	}
	var ss []*Sort
	for _, k := range keep {
		ss = append(ss, t.sort.fields[k])
	}
	s := tupleSort(ss)
	j, acc, old := freshNonNeg("j"), freshVar("a", s), freshVar("a", t.sort)
	body := openB(t, j, old)
	m := map[*Term]*Term{}
	pos := 0
	for x, k := range keep {
		if k == i {
			pos = x
		}
		if len(keep) == 1 {
			m[mkSel(k, old)] = acc
		} else {
			m[mkSel(k, old)] = mkSel(x, acc)
		}
	}
	var is, bs []*Term
	for _, k := range keep {
		is = append(is, mkSel(k, t.args[1]))
		bs = append(bs, substMap(mkSel(k, body), m))
	}
	if len(keep) == 1 {
		return mkFold(t.args[0], is[0], acc, j, bs[0])
	}
	return mkSel(pos, mkFold(t.args[0], mkMk(s, is), acc, j, mkMk(s, bs)))
}
