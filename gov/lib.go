package main

import (
	"go/token"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that build or rearrange slices and maps.

// fresh gives a value of a reference type memory of its own.
func (x *Exec) fresh(st *State, t *Term) *Term {
	id := newRef()
	refSort[id] = t.sort
	st.heap[id] = t
	return mkRef(id, t.sort)
}

// cmpTerm is the three-way comparison of two ordered values; nil when the type is not modelled.
func cmpTerm(a, b *Term) *Term {
	var lt *Term
	switch a.sort {
	case StrS:
		lt = mkApp("strlt", BoolS, a, b)
	case IntS:
		lt = mkLt(a, b)
	default:
		return nil
	}
	return mkIte(mkEq(a, b), mkInt(0), mkIte(lt, mkInt(-1), mkInt(1)))
}

// orderOf turns a comparison of two elements into a formula over two fixed variables.
func (x *Exec) orderOf(st *State, cl *Closure, s *Sort, three bool, pos token.Pos) *Term {
	e1, e2 := mkVar("@s1:"+s.name, s), mkVar("@s2:"+s.name, s)
	mark := len(x.exits)
	vals, ns := x.runClosure(st.clone(), cl, []Value{e1, e2}, pos)
	if ns == nil || len(x.exits) != mark {
		x.fail(pos, "comparison may panic")
	}
	l := x.res(ns, vals[0], pos)
	if three {
		l = mkLt(l, mkInt(0))
	}
	x.sortOrders = append(x.sortOrders, l)
	return l
}

func lessOf(s *Sort) *Term {
	e1, e2 := mkVar("@s1:"+s.name, s), mkVar("@s2:"+s.name, s)
	if s == StrS {
		return mkApp("strlt", BoolS, e1, e2)
	}
	if s == IntS {
		return mkLt(e1, e2)
	}
	return nil
}

func (x *Exec) ownedSeq(v Value, pos token.Pos) int {
	t := x.asTerm(v, pos)
	if t.op == OBox {
		t = t.args[0]
	}
	if t.op != ORef || t.sort.kind != SSeq || roRefs[t.idx] {
		x.fail(pos, "rearrangement of a slice that is not owned by the function")
	}
	return t.idx
}

// keysOnce: the sorted keys of a map are its keys in one of the orders a range may have. A contract leaves that order
// open, so code that uses no other order of the map may be taken to range in this one.
func (x *Exec) keysOnce(st *State, seq *Term) bool {
	if x.inSpec() || seq.sort.elem != StrS {
		return false
	}
	for m, rs := range x.ranged {
		if len(rs) != 1 || m.sort.key != seq.sort.elem {
			continue
		}
		j := freshNonNeg("j")
		n := st.facts.simp(m)
		if mkEq(seq, mkBigT(mkMapLen(n), j, mkUnit(mkApp("keyAt", n.sort.key, n, j)))) == True {
			if x.inOrder == nil {
				x.inOrder = map[*Term]bool{}
			}
			x.inOrder[m] = true
			return true
		}
	}
	return false
}

// iterSeq is the sequence of values of an iterator the engine knows.
func (x *Exec) iterSeq(st *State, v Value, pos token.Pos) *Term {
	t := x.asTerm(v, pos)
	if t.op != OApp {
		x.fail(pos, "iterator over an unknown source")
	}
	j := freshNonNeg("j")
	m := t.args[0]
	switch t.name {
	case "maps.Keys":
		return mkBigT(mkMapLen(m), j, mkUnit(mkApp("keyAt", m.sort.key, m, j)))
	case "maps.Values":
		return mkBigT(mkMapLen(m), j, mkUnit(mkMapGetRaw(m, mkApp("keyAt", m.sort.key, m, j))))
	case "slices.Values":
		return m
	}
	x.fail(pos, "iterator over an unknown source")
	return nil
}

func init() {
	type in = intrinsic
	iter := func(name string) in {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			m := x.res(st, args[0], pos)
			return []Value{intern(&Term{op: OApp, sort: sortOf(fn.Signature.Results().At(0).Type()), name: name, args: []*Term{m}})}, st
		}
	}
	cmp := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		if c := cmpTerm(x.res(st, args[0], pos), x.res(st, args[1], pos)); c != nil {
			return []Value{c}, st
		}
		return x.external(st, fn, args, pos)
	}
	sortNat := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		r := x.ownedSeq(args[0], pos)
		seq := resolve(st.heap[r], st.heap)
		l := lessOf(seq.sort.elem)
		if l == nil {
			return x.external(st, fn, args, pos)
		}
		if x.keysOnce(st, seq) {
			return nil, st
		}
		st.heap[r] = mkApp("sorted", seq.sort, seq, orderRep(l))
		return nil, st
	}
	sortFunc := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		r := x.ownedSeq(args[0], pos)
		seq := resolve(st.heap[r], st.heap)
		cl, ok := args[1].(*Closure)
		if !ok {
			x.fail(pos, "comparison is not a known function")
		}
		st.heap[r] = mkApp("sorted", seq.sort, seq, orderRep(x.orderOf(st, cl, seq.sort.elem, true, pos)))
		return nil, st
	}
	// contains and index: the first position
	find := func(x *Exec, st *State, args []Value, pos token.Pos) (*Term, *Term) {
		s := x.res(st, args[0], pos)
		v := x.res(st, args[1], pos)
		if !comparableSort(v.sort) {
			x.fail(pos, "search for a value whose comparison may panic")
		}
		j := freshNonNeg("j")
		return mkLen(s), mkFirst(mkLen(s), j, mkEq(mkAt(s, j), v))
	}
	for n, f := range map[string]in{
		"maps.Keys":     iter("maps.Keys"),
		"maps.Values":   iter("maps.Values"),
		"slices.Values": iter("slices.Values"),
		"slices.Collect": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{x.fresh(st, x.iterSeq(st, args[0], pos))}, st
		},
		"slices.Sorted": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			q := x.iterSeq(st, args[0], pos)
			l := lessOf(q.sort.elem)
			if l == nil {
				x.fail(pos, "sort of elements without a modelled order")
			}
			return []Value{x.fresh(st, mkApp("sorted", q.sort, q, orderRep(l)))}, st
		},
		"slices.SortedFunc": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			q := x.iterSeq(st, args[0], pos)
			cl, ok := args[1].(*Closure)
			if !ok {
				x.fail(pos, "comparison is not a known function")
			}
			return []Value{x.fresh(st, mkApp("sorted", q.sort, q, orderRep(x.orderOf(st, cl, q.sort.elem, true, pos))))}, st
		},
		"slices.Clone": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{x.fresh(st, x.content(st, x.asTerm(args[0], pos)))}, st
		},
		"slices.Clip": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{args[0]}, st
		},
		"slices.Grow": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			if n := x.asTerm(args[1], pos); !n.nonNeg && !x.need(st, mkLe(mkInt(0), n), pos, "negative growth") {
				return nil, nil
			}
			return []Value{x.content(st, x.asTerm(args[0], pos))}, st
		},
		"slices.Concat": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			us := allUnits(x.res(st, args[0], pos))
			if us == nil {
				x.fail(pos, "concatenation of an unknown number of slices")
			}
			return []Value{x.fresh(st, mkSeqConcat(sortOf(fn.Signature.Results().At(0).Type()), us...))}, st
		},
		"slices.Contains": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			n, f := find(x, st, args, pos)
			return []Value{st.facts.simp(mkLt(f, n))}, st
		},
		"slices.Index": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			n, f := find(x, st, args, pos)
			return []Value{st.facts.simp(mkIte(mkLt(f, n), f, mkInt(-1)))}, st
		},
		"maps.Clone": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{x.fresh(st, x.res(st, args[0], pos))}, st
		},
		"maps.Copy": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			d, m := x.asTerm(args[0], pos), x.res(st, args[1], pos)
			if d.op != ORef || roRefs[d.idx] {
				x.fail(pos, "update of a map that is not owned by the function")
			}
			c := st.heap[d.idx]
			if !x.need(st, mkOr(mkEq(mkMapLen(m), mkInt(0)), mkNot(mkMapIsNil(c))), pos, "assignment to entry in nil map") {
				return nil, nil
			}
			j := freshNonNeg("j")
			acc := freshVar("@acc", c.sort)
			key := mkApp("keyAt", m.sort.key, m, j)
			st.heap[d.idx] = mkFold(mkMapLen(m), c, acc, j, mkMapPut(acc, key, mkMapGetRaw(m, key)))
			return nil, st
		},
		"sort.Strings":          sortNat,
		"sort.Ints":             sortNat,
		"slices.Sort":           sortNat,
		"slices.SortFunc":       sortFunc,
		"slices.SortStableFunc": sortFunc,
		"strings.Compare":       cmp,
		"cmp.Compare":           cmp,
		"cmp.Less": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			if c := cmpTerm(x.res(st, args[0], pos), x.res(st, args[1], pos)); c != nil {
				return []Value{mkLt(c, mkInt(0))}, st
			}
			return x.external(st, fn, args, pos)
		},
		"strings.IndexRune": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			if r := indexRune(x, args, pos); r != nil {
				return []Value{r}, st
			}
			return x.external(st, fn, args, pos)
		},
		"strings.ContainsRune": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			if r := indexRune(x, args, pos); r != nil {
				return []Value{mkLe(mkInt(0), r)}, st
			}
			return x.external(st, fn, args, pos)
		},
		"strings.IndexByte": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			if s := x.asTerm(args[0], pos); s.op == OStr && isASCII(s.name) {
				return []Value{indexRune(x, args, pos)}, st
			}
			return x.external(st, fn, args, pos)
		},
		"strings.Split": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			t := mkApp("split", seqSort(StrS), x.asTerm(args[0], pos), x.asTerm(args[1], pos))
			if sep := x.asTerm(args[1], pos); sep.op == OStr && sep.name != "" && t.op == OApp {
				// Split with a separator never returns an empty slice
				st.facts = st.facts.clone()
				st.facts.add(mkLe(mkInt(1), mkLen(t)))
			}
			return []Value{x.fresh(st, t)}, st
		},
		"fmt.Fprintf":    fprint("fmt.Sprintf"),
		"fmt.Fprint":     fprint("fmt.Sprint"),
		"io.WriteString": fprint(""),
	} {
		intrinsics[n] = f
	}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

// indexRune is the position of a character in a constant; nil when the constant is not valid text.
func indexRune(x *Exec, args []Value, pos token.Pos) *Term {
	s, c := x.asTerm(args[0], pos), x.asTerm(args[1], pos)
	if s.op != OStr || !utf8.ValidString(s.name) || strings.ContainsRune(s.name, utf8.RuneError) {
		return nil
	}
	type at struct {
		i int
		r rune
	}
	var cs []at
	for i, r := range s.name {
		cs = append(cs, at{i, r})
	}
	t := mkInt(-1)
	for k := len(cs) - 1; k >= 0; k-- {
		t = mkIte(mkEq(c, mkInt(int64(cs[k].r))), mkInt(int64(cs[k].i)), t)
	}
	return t
}

// fprint writes to a builder what the named function returns as a string.
func fprint(of string) intrinsic {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		w := x.asTerm(args[0], pos)
		if w.op != OBox || w.name != "*strings.Builder" && w.name != "*bytes.Buffer" {
			x.fail(pos, "output to an unknown writer")
		}
		p := x.ptrArg(st, w.args[0], pos)
		var t *Term
		if of == "" {
			t = x.asTerm(args[1], pos)
		} else {
			vals, ns := intrinsics[of](x, st, fn, args[1:], pos)
			if ns == nil {
				return nil, nil
			}
			st, t = ns, x.asTerm(vals[0], pos)
		}
		x.store(st, p, mkConcat(x.load(st, p, pos), t), pos)
		return []Value{mkStrLen(t), NilAny}, st
	}
}

// comparableSort: == on the Go values of this sort neither panics nor differs from term equality.
func comparableSort(s *Sort) bool {
	switch s.kind {
	case SBool, SInt, SStr:
		return true
	case SStruct:
		for _, f := range s.fields {
			if !comparableSort(f) {
				return false
			}
		}
		return true
	}
	return false
}
