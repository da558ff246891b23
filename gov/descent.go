package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Recursion. A caller is checked against the contracts of its callees, so that a function that calls itself
// with the arguments it was given would satisfy any contract. Each call between functions under contract is
// therefore recorded with how its arguments compare with the parameters: the height of a value (how deep
// structs, lists and maps are nested in it) must fall on every cycle of the call graph. Values are finite and not cyclic.

const noBound = -1 << 20

// callEdge is a call of a function under contract, or through an interface, from the body of another.
type callEdge struct {
	from, to string
	fall     int // the arguments are at least so much lower than the parameters of the caller
	pos      string
	why      string
	kind     string          // of a call of itself with a parameter boxed anew: the dynamic type
	not      map[string]bool // and the types that the parameter is known not to have
}

// isAtom says whether the values of a sort have height 0.
func isAtom(s *Sort) bool {
	switch s.kind {
	case SBool, SInt, SStr, SOpaque:
		return true
	}
	return false
}

// fallOf gives k such that height(t) <= H - k, where H is the greatest height of an input.
// A number or a text has height 0, which is not above any.
func fallOf(t *Term) int { return fallIn(t, 0) }

func fallIn(t *Term, depth int) int {
	if depth > 200 {
		return noBound
	}
	floor := noBound
	if isAtom(t.sort) {
		floor = 0
	}
	up := func(k int) int {
		if k < floor {
			return floor
		}
		return k
	}
	least := func(ts []*Term) int {
		// a value of height 0 does not count: whatever lies k below an input shows the input to be k high
		m, any := 0, false
		for _, a := range ts {
			if isAtom(a.sort) {
				continue
			}
			k, ok := constHeight(a)
			if ok { // what the others are taken from may show the inputs to be higher
				h := 0
				for _, b := range ts {
					if r := reach(b, 0); r > h {
						h = r
					}
				}
				k = h - k
			} else {
				k = fallIn(a, depth+1)
			}
			if !any || k < m {
				m, any = k, true
			}
		}
		return m
	}
	switch t.op {
	case OVar:
		if strings.HasPrefix(t.name, "in:") {
			return 0
		}
		return up(noBound)
	case OSel, OAt, OMapGet:
		return up(fallIn(t.args[0], depth+1) + 1)
	case OBox, OUnbox, ODeref, OMkPtr, OExtract:
		return up(fallIn(t.args[0], depth+1))
	case ONilAny, OSeqEmpty, OMapEmpty, OMapNil, OPtrNil:
		return 0
	case OIte:
		return up(least(t.args[1:]))
	case OMk, OSeqUnit:
		return least(t.args) - 1
	case OSeqConcat:
		return up(least(t.args))
	case OSeqUpdate:
		a, b := fallIn(t.args[0], depth+1), fallIn(t.args[2], depth+1)-1
		if b < a {
			a = b
		}
		return up(a)
	case OMapPut:
		a, b := fallIn(t.args[0], depth+1), least(t.args[1:])-1
		if b < a {
			a = b
		}
		return up(a)
	case OBig:
		return up(fallIn(t.args[len(t.args)-1], depth+1))
	case OApp:
		if strings.HasPrefix(t.name, "m:") { // a method of an implementation of the caller: what it gives is a part of it
			return up(fallIn(t.args[0], depth+1) + 1)
		}
	}
	return up(noBound)
}

// minHeight is the least height of the values of a sort.
func minHeight(s *Sort) int {
	if s.kind != SStruct {
		return 0
	}
	h := 0
	for _, f := range s.fields {
		if k := minHeight(f); k > h {
			h = k
		}
	}
	return h + 1
}

// constHeight is the height of a value that does not depend on the inputs.
func constHeight(t *Term) (int, bool) {
	switch t.op {
	case OTrue, OFalse, OInt, OStr, ONilAny, OSeqEmpty, OMapEmpty, OMapNil, OPtrNil:
		return 0, true
	case OBox, OMkPtr:
		return constHeight(t.args[0])
	case OMk, OSeqUnit:
		m := 0
		for _, a := range t.args {
			h, ok := constHeight(a)
			if !ok {
				return 0, false
			}
			if h > m {
				m = h
			}
		}
		return m + 1, true
	}
	return 0, false
}

// reach is a height that the inputs have because t is taken from them.
func reach(t *Term, depth int) int {
	if depth > 20 {
		return 0
	}
	h := 0
	switch t.op {
	case OVar, OSel, OAt, OMapGet, OUnbox, ODeref:
		if k := fallIn(t, depth+1); k > noBound/2 {
			h = k + minHeight(t.sort)
		}
	case OBox, OMk, OSeqUnit, OMkPtr:
	default:
		return 0
	}
	for _, a := range t.args {
		if r := reach(a, depth+1); r > h {
			h = r
		}
	}
	return h
}

// calls notes a call from the body that is being verified.
func (x *Exec) calls(st *State, to string, args []*Term, pos token.Pos) {
	if !x.tracking || x.inSpec() || x.probing {
		return
	}
	k, why := 1<<20, ""
	for _, a := range args {
		if a == nil || a == ctxVar || isAtom(a.sort) {
			continue
		}
		a = st.facts.simp(a)
		if f := fallOf(a); f < k {
			k, why = f, cut(a.String(), 200)
		}
	}
	if k == 1<<20 { // none but numbers and texts
		k = 0
		for _, a := range args {
			if a != nil && a != ctxVar && len(args) == 1 {
				k = fallOf(st.facts.simp(a))
			}
		}
	}
	e := callEdge{from: x.self, to: to, fall: k, pos: P.posStr(pos), why: why}
	if to == x.self && k == 0 && len(args) == 1 && args[0] != nil && x.anyParam != nil {
		x.perKind(st, st.facts.simp(args[0]), e)
		return
	}
	x.edges = append(x.edges, e)
}

// perKind notes a call of the function itself for each of the values that its one argument may be.
func (x *Exec) perKind(st *State, t *Term, e callEdge) {
	if t.op == OIte {
		x.perKind(st, t.args[1], e)
		x.perKind(st, t.args[2], e)
		return
	}
	e.fall = fallOf(t)
	if e.fall == 0 {
		e.kind, e.not = x.kinds(st, t)
	}
	x.edges = append(x.edges, e)
}

var basicKeys = strings.Fields("bool string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64")

// kinds gives the dynamic type of a value boxed anew, or nil, and those that the parameter is known not to have.
func (x *Exec) kinds(st *State, b *Term) (string, map[string]bool) {
	in := x.anyParam
	kind := ""
	switch b.op {
	case OBox:
		kind = b.name
	case ONilAny:
		kind = "nil"
	default:
		return "", nil
	}
	not := map[string]bool{}
	for _, k := range append(basicKeys, kind) {
		f := mkIsNil(in)
		if k != "nil" {
			f = mkIsT(k, in)
		}
		if st.facts.simp(f) == False {
			not[k] = true
		}
	}
	return kind, not
}

// kindsFall says whether the dynamic types of the calls of a function of itself are in an order.
func kindsFall(es []callEdge) bool {
	next := map[string][]callEdge{}
	var all []string
	for _, e := range es {
		if e.kind == "" {
			return false
		}
		all = append(all, e.kind)
	}
	for _, e := range es {
		for _, k := range all { // e may follow a call that gave a k
			if !e.not[k] {
				next[k] = append(next[k], callEdge{from: k, to: e.kind})
			}
		}
	}
	comp := components(next)
	for _, ns := range next {
		for _, e := range ns {
			if e.from == e.to || comp[e.from] == comp[e.to] {
				return false
			}
		}
	}
	return true
}

func nodeOf(c *Contract) string { return c.name }

// descents checks that every cycle of calls descends; it returns for each contract the calls that may not.
func descents(rs []*Result) map[string][]callEdge {
	out := map[string][]callEdge{}
	adj := map[string][]callEdge{}
	known := map[string]bool{}
	for _, r := range rs {
		known[r.name] = true
	}
	for _, r := range rs {
		for _, e := range r.edges {
			adj[e.from] = append(adj[e.from], e)
		}
		if c := r.contract; c != nil && c.target != nil {
			if n := c.target.Name(); P.ifaceSpec[n] != nil && isStatementIface2(c.target) {
				adj["iface."+n] = append(adj["iface."+n], callEdge{from: "iface." + n, to: r.name})
			}
		}
	}
	// calls that are not known to descend and lie on a cycle: height may grow, or not fall all the way round
	scc := components(adj)
	for _, es := range adj {
		for _, e := range es {
			if scc[e.from] == scc[e.to] && e.fall < 0 {
				out[e.from] = append(out[e.from], e)
			}
		}
	}
	level := map[string][]callEdge{}
	for n, es := range adj {
		for _, e := range es {
			if e.fall <= 0 {
				level[n] = append(level[n], e)
			}
		}
	}
	flat := components(level)
	size := map[int]int{}
	for _, k := range flat {
		size[k]++
	}
	for n, es := range level {
		if size[flat[n]] == 1 {
			var own []callEdge
			for _, e := range es {
				if e.to == n {
					own = append(own, e)
				}
			}
			if kindsFall(own) {
				continue
			}
		}
		for _, e := range es {
			if flat[e.from] == flat[e.to] && (size[flat[e.from]] > 1 || e.from == e.to) && e.fall == 0 {
				out[e.from] = append(out[e.from], e)
			}
		}
	}
	for n := range out {
		sort.Slice(out[n], func(i, j int) bool { return fmt.Sprint(out[n][i]) < fmt.Sprint(out[n][j]) })
	}
	return out
}

// components numbers the strongly connected components.
func components(adj map[string][]callEdge) map[string]int {
	idx, low, comp := map[string]int{}, map[string]int{}, map[string]int{}
	var stack []string
	on := map[string]bool{}
	n, c := 0, 0
	var visit func(v string)
	visit = func(v string) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, e := range adj[v] {
			if idx[e.to] == 0 {
				visit(e.to)
				if low[e.to] < low[v] {
					low[v] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[v] {
				low[v] = idx[e.to]
			}
		}
		if low[v] == idx[v] {
			c++
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp[w] = c
				if w == v {
					break
				}
			}
		}
	}
	var names []string
	for v := range adj {
		names = append(names, v)
	}
	sort.Strings(names)
	for _, v := range names {
		if idx[v] == 0 {
			visit(v)
		}
	}
	return comp
}

// given are the arguments of a call as terms.
func (x *Exec) given(st *State, args []Value, pos token.Pos) []*Term {
	if !x.tracking || x.inSpec() || x.probing {
		return nil
	}
	var out []*Term
	for _, a := range args {
		out = append(out, x.res(st, a, pos))
	}
	return out
}

// applyDescents adds the obligation that recursion ends to the results.
func applyDescents(rs []*Result) {
	bad := descents(rs)
	for _, r := range rs {
		r.obls++
		es := bad[r.name]
		if len(es) == 0 {
			r.byStruct++
			continue
		}
		r.ok = false
		if r.err == "" {
			r.err = fmt.Sprintf("recursion may not end: the call of %s does not descend", es[0].to)
		}
		for _, e := range es {
			r.detail += fmt.Sprintf("  %s calls %s with arguments not shown to be smaller: %s %s\n", e.from, e.to, e.pos, e.why)
		}
	}
}
