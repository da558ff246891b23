package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is what an SSA register holds: *Term, PtrV, Tuple, *Closure, Poison.
type Value interface{}

// PtrV is an address inside a heap cell.
type PtrV struct {
	ref  int
	path []pathElem
	elem *Sort
}

type pathElem struct {
	field int
	index *Term // non-nil: element of a sequence
}

type Tuple []Value

type Closure struct {
	fn       *ssa.Function
	bindings []Value
}

type Poison struct{ why string }

type deferred struct {
	fn     *ssa.Function
	cl     *Closure
	recv   *Term
	method *types.Func
	args   []Value
	inst   ssa.CallInstruction
}

func (x *Exec) runDeferred(st *State, d deferred, pos token.Pos) *State {
	var ns *State
	switch {
	case d.method != nil:
		_, ns = x.invoke(st, d.recv, d.method, d.args, pos)
	case d.cl != nil:
		_, ns = x.runClosure(st, d.cl, d.args, pos)
	default:
		_, ns = x.callFn(st, d.fn, d.args, pos)
	}
	return ns
}

// State is a symbolic program state.
type State struct {
	pc     []*Term
	facts  *Facts
	heap   map[int]*Term
	env    map[ssa.Value]Value
	text   *Term // ghost output: text with a mark per bound value
	vals   *Term
	defers []deferred
	cont   *Term   // what is left to compute, under a steps contract
	inv    []*Term // loop invariants: they hold of every state there is, and are no part of the path
}

func (s *State) clone() *State {
	n := &State{pc: append([]*Term{}, s.pc...), facts: s.facts, heap: make(map[int]*Term, len(s.heap)+4),
		env: make(map[ssa.Value]Value, len(s.env)+8), text: s.text, vals: s.vals, defers: append([]deferred{}, s.defers...), inv: s.inv, cont: s.cont}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

// assume adds c to the path; false when the path becomes infeasible.
func (s *State) assume(c *Term) bool {
	c = s.facts.simp(c)
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	s.facts = s.facts.clone()
	if c.op == OAnd {
		for _, a := range c.args {
			s.pc = append(s.pc, a)
		}
	} else {
		s.pc = append(s.pc, c)
	}
	s.facts.add(c)
	return !s.facts.bad
}

func factsOf(pc []*Term) *Facts {
	f := newFacts()
	for _, c := range pc {
		f.add(c)
	}
	return f
}

// Exit is a panicking path.
type Exit struct {
	cond *Term
	pc   []*Term
	kind string // lib, runtime, spec
	pos  token.Pos
	msg  string
}

type unsupported struct {
	msg string
	pos token.Pos
}

// Exec runs functions symbolically.
type Exec struct {
	exits       []Exit
	depth       int
	stack       []*ssa.Function
	unroll      int
	top         *ssa.Function // function whose body is being verified
	used        map[string]bool
	deps        map[*Contract]bool
	specDepth   int
	noContract  map[*ssa.Function]bool
	proveEq     func(st *State, a, b *Term) bool
	termination func(fn *ssa.Function, pos token.Pos, stop, k *Term)
	obls        int
	sortOrders  []*Term
	pr          *Prover
	steps       []*ssa.Function // of a steps contract
	probing     bool            // only what a loop changes is asked for
	open        map[string]bool // opaque specifications seen through
	ranged      map[*Term]map[*ssa.Range]bool
	inOrder     map[*Term]bool
	tracking    bool // calls of the body being verified are noted
	self        string
	anyParam    *Term // of a function of one parameter of any type
	edges       []callEdge
	unended     []string // loops that are not shown to end
}

func newExec() *Exec {
	return &Exec{used: map[string]bool{}, deps: map[*Contract]bool{}, noContract: map[*ssa.Function]bool{}}
}

func (x *Exec) inSpec() bool { return x.specDepth > 0 }

func (x *Exec) fail(pos token.Pos, f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...), pos})
}

var refCount int
var refSort = map[int]*Sort{}

func newRef() int { refCount++; return refCount }

var outText0, outVals0 = mkStr(""), mkSeqEmpty(seqSort(AnyS))

const holeMark = "\uE0FF\uE0FE"

var ctxVar = mkVar("ctx", AnyS)

func newState() *State {
	s := &State{facts: newFacts(), heap: map[int]*Term{}, env: map[ssa.Value]Value{}, text: outText0, vals: outVals0}
	if P != nil {
		for k, v := range P.heap0 {
			s.heap[k] = v
		}
	}
	return s
}

// ---------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------

func zeroOf(t types.Type) *Term { return zeroSort(sortOf(t)) }

func zeroSort(s *Sort) *Term {
	switch s.kind {
	case SBool:
		return False
	case SInt:
		return mkInt(0)
	case SStr:
		return mkStr("")
	case SAny:
		return NilAny
	case SSeq:
		return mkSeqEmpty(s)
	case SStruct:
		fs := make([]*Term, len(s.fields))
		for i, f := range s.fields {
			fs[i] = zeroSort(f)
		}
		return mkMk(s, fs)
	case SMap:
		return mkMapNil(s)
	case SPtr:
		return mkPtrNil(s)
	}
	return mkVar("zero:"+s.name, s)
}

func zeroVal(t types.Type) *Term {
	if a, ok := t.Underlying().(*types.Array); ok {
		z := zeroVal(a.Elem())
		return mkZeros(sortOf(t), mkInt(a.Len()), z)
	}
	return zeroOf(t)
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		s := sortOf(t)
		if s == IntS {
			b := new(big.Int)
			b.SetString(c.Value.ExactString(), 10)
			return mkBig(b)
		}
		return mkVar("const:"+c.Value.ExactString(), s)
	}
	return mkVar("const:"+c.Value.ExactString(), sortOf(t))
}

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Builtin:
		return v
	}
	r, ok := st.env[v]
	if !ok {
		x.fail(v.Pos(), "no value for %s in %s", v.Name(), v.Parent())
	}
	if p, ok := r.(Poison); ok {
		x.fail(v.Pos(), "%s", p.why)
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	return x.asTerm(x.val(st, v), v.Pos())
}

func (x *Exec) asTerm(v Value, pos token.Pos) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case PtrV:
		if len(v.path) == 0 {
			return mkRef(v.ref, ptrSort(v.elem))
		}
		x.fail(pos, "address of a part of a variable stored or passed on")
	case *Closure:
		return v.term()
	}
	x.fail(pos, "value %T not representable", v)
	return nil
}

// closures are the function values that occur in terms.
var closures = map[*Term]*Closure{}

func (c *Closure) term() *Term {
	n := "func:" + c.fn.String()
	if len(c.bindings) > 0 {
		n = fmt.Sprintf("%s@%p", n, c)
	}
	t := mkVar(n, FuncS)
	closures[t] = c
	return t
}

// callValue calls a function value.
func (x *Exec) callValue(st *State, f Value, args []Value, pos token.Pos) ([]Value, *State) {
	switch f := f.(type) {
	case *Closure:
		return x.runClosure(st, f, args, pos)
	case *Term:
		f = st.facts.simp(resolve(f, st.heap))
		if cl := closures[f]; cl != nil {
			return x.runClosure(st, cl, args, pos)
		}
		if f.op == OIte {
			return x.fork(st, f.args[0],
				func(s *State) ([]Value, *State) { return x.callValue(s, f.args[1], args, pos) },
				func(s *State) ([]Value, *State) { return x.callValue(s, f.args[2], args, pos) })
		}
		if f == zeroSort(FuncS) {
			x.exit(st, True, "runtime", pos, "call of a nil function")
			return nil, nil
		}
	}
	x.fail(pos, "dynamic call")
	return nil, nil
}

// isNilFunc tells whether a function value is nil.
func isNilFunc(v Value) *Term {
	switch v := v.(type) {
	case *Closure:
		return False
	case *Term:
		if closures[v] != nil {
			return False
		}
		if v.op == OIte {
			return mkIte(v.args[0], isNilFunc(v.args[1]), isNilFunc(v.args[2]))
		}
		return mkEq(v, zeroSort(FuncS))
	}
	return nil
}

var globalRef = map[*ssa.Global]int{}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	elem := sortOf(g.Type().Underlying().(*types.Pointer).Elem())
	id, ok := globalRef[g]
	if !ok {
		id = newRef()
		globalRef[g] = id
		refSort[id] = elem
	}
	if _, ok := st.heap[id]; !ok {
		st.heap[id] = mkVar("global:"+g.String(), elem)
		if g.String() == "io.EOF" {
			st.heap[id] = eofVal
		}
	}
	return PtrV{ref: id, elem: elem}
}

// resolve replaces references by what they refer to.
func resolve(t *Term, heap map[int]*Term) *Term {
	if !t.hasRef {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(u *Term) *Term
	rec = func(u *Term) *Term {
		return subst(u, func(y *Term) *Term {
			if !y.hasRef {
				return y
			}
			if y.op == ORef {
				c, ok := heap[y.idx]
				if !ok {
					panic(unsupported{fmt.Sprintf("dangling reference %d", y.idx), token.NoPos})
				}
				c = rec(c)
				if y.sort.kind == SPtr {
					return mkMkPtr(c)
				}
				return c
			}
			return nil
		}, memo)
	}
	return rec(t)
}

func (x *Exec) res(st *State, v Value, pos token.Pos) *Term {
	switch p := v.(type) {
	case PtrV:
		if len(p.path) > 0 {
			return resolve(mkMkPtr(x.load(st, v, pos)), st.heap)
		}
	}
	return resolve(x.asTerm(v, pos), st.heap)
}

// refify gives a term of a struct sort map cells of its own so that updates have an identity.
func (x *Exec) refify(st *State, t *Term) *Term {
	if !hasMap(t.sort) {
		return t
	}
	switch t.sort.kind {
	case SMap:
		if t.op == ORef {
			return t
		}
		id := newRef()
		refSort[id] = t.sort
		st.heap[id] = resolveMap(t, st.heap)
		return mkRef(id, t.sort)
	case SPtr:
		if t.op == ORef || t.op == OPtrNil || t.op == OIte {
			return t
		}
		id := newRef()
		refSort[id] = t.sort.elem
		st.heap[id] = x.refify(st, mkDeref(t))
		return mkRef(id, t.sort)
	case SStruct:
		fs := make([]*Term, len(t.sort.fields))
		for i := range fs {
			fs[i] = x.refify(st, mkSel(i, t))
		}
		return mkMk(t.sort, fs)
	}
	return t
}

var hasMapTab = map[*Sort]bool{}

func hasMap(s *Sort) bool {
	if s.kind == SMap || s.kind == SPtr && s.elem.name == "bufio.Reader" {
		return true
	}
	if s.kind != SStruct {
		return false
	}
	if v, ok := hasMapTab[s]; ok {
		return v
	}
	hasMapTab[s] = false
	r := false
	for _, f := range s.fields {
		if hasMap(f) {
			r = true
		}
	}
	hasMapTab[s] = r
	return r
}

// ---------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------

func (x *Exec) deref(st *State, v Value, pos token.Pos) (Value, bool) {
	// turns pointer terms into PtrV
	t, ok := v.(*Term)
	if !ok {
		return v, true
	}
	if t.op == ORef && t.sort.kind == SPtr {
		return PtrV{ref: t.idx, elem: t.sort.elem}, true
	}
	return v, false
}

func (x *Exec) load(st *State, p Value, pos token.Pos) *Term {
	v, ok := x.deref(st, p, pos)
	if ok {
		pv := v.(PtrV)
		c, ok := st.heap[pv.ref]
		if !ok {
			x.fail(pos, "load from unknown cell")
		}
		return x.readPath(st, c, pv.path, pos)
	}
	t := v.(*Term)
	if t.op == OIte {
		a := x.tryLoad(st, t.args[1], pos)
		b := x.tryLoad(st, t.args[2], pos)
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		return mkIte(t.args[0], a, b)
	}
	return mkDeref(t)
}

func (x *Exec) tryLoad(st *State, t *Term, pos token.Pos) *Term {
	if t.op == OPtrNil {
		return nil
	}
	return x.load(st, t, pos)
}

func (x *Exec) readPath(st *State, c *Term, path []pathElem, pos token.Pos) *Term {
	for _, e := range path {
		if e.index != nil {
			if c.op == ORef {
				c = st.heap[c.idx]
			}
			c = mkAt(c, e.index)
		} else {
			c = mkSel(e.field, c)
		}
	}
	return c
}

func (x *Exec) writePath(st *State, c *Term, path []pathElem, v *Term, pos token.Pos) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.index != nil {
		if c.op == ORef {
			if len(path) > 1 {
				st.heap[c.idx] = mkSeqUpdate(st.heap[c.idx], e.index, x.writePath(st, mkAt(st.heap[c.idx], e.index), path[1:], v, pos))
			} else {
				st.heap[c.idx] = mkSeqUpdate(st.heap[c.idx], e.index, v)
			}
			return c
		}
		return mkSeqUpdate(c, e.index, x.writePath(st, mkAt(c, e.index), path[1:], v, pos))
	}
	return withField(c, e.field, x.writePath(st, mkSel(e.field, c), path[1:], v, pos))
}

func (x *Exec) store(st *State, p Value, v *Term, pos token.Pos) {
	d, ok := x.deref(st, p, pos)
	if !ok {
		x.fail(pos, "store through a pointer that is not owned by the function")
	}
	pv := d.(PtrV)
	c, ok := st.heap[pv.ref]
	if !ok {
		x.fail(pos, "store to unknown cell")
	}
	if v.sort != pathSort(c.sort, pv.path) {
		x.fail(pos, "store of sort %s to %s", v.sort.name, pathSort(c.sort, pv.path).name)
	}
	st.heap[pv.ref] = x.writePath(st, c, pv.path, v, pos)
}

func pathSort(s *Sort, path []pathElem) *Sort {
	for _, e := range path {
		if e.index != nil {
			s = s.elem
		} else {
			s = s.fields[e.field]
		}
	}
	return s
}

func (x *Exec) field(st *State, p Value, f int, pos token.Pos) Value {
	d, ok := x.deref(st, p, pos)
	if !ok {
		t := d.(*Term)
		// read-only view of a symbolic pointer
		id := newRef()
		refSort[id] = t.sort.elem
		st.heap[id] = x.load(st, t, pos)
		roRefs[id] = true
		return PtrV{ref: id, path: []pathElem{{field: f}}, elem: t.sort.elem.fields[f]}
	}
	pv := d.(PtrV)
	s := pathSort(st.heap[pv.ref].sort, pv.path)
	if s.kind != SStruct || f >= len(s.fields) {
		x.fail(pos, "field of %s", s.name)
	}
	return PtrV{ref: pv.ref, path: append(append([]pathElem{}, pv.path...), pathElem{field: f}), elem: s.fields[f]}
}

var roRefs = map[int]bool{}

// content of a sequence or map term that may be a reference
func (x *Exec) content(st *State, t *Term) *Term {
	for t.op == ORef && t.sort.kind != SPtr {
		c, ok := st.heap[t.idx]
		if !ok {
			x.fail(token.NoPos, "unknown cell")
		}
		t = c
	}
	if t.op == OIte && t.hasRef {
		return mkIte(t.args[0], x.content(st, t.args[1]), x.content(st, t.args[2]))
	}
	return t
}

// ---------------------------------------------------------------------------
// Control flow
// ---------------------------------------------------------------------------

type edge struct {
	pred *ssa.BasicBlock
	st   *State
}

type ret struct {
	st   *State
	vals []Value
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo         []*ssa.BasicBlock
	order       map[*ssa.BasicBlock]int
	loops       map[*ssa.BasicBlock]*loopInfo
	irreducible bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.order[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.order[s] <= fi.order[b] { // back edge
				if !s.Dominates(b) {
					fi.irreducible = true
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						if _, ok := fi.order[p]; ok {
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	// a block that only panics belongs to the loop it is entered from
	for _, l := range fi.loops {
		for again := true; again; {
			again = false
			for _, b := range fi.rpo {
				if l.blocks[b] || !allIn(b.Preds, l.blocks) || len(b.Preds) == 0 {
					continue
				}
				if len(b.Instrs) > 0 {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
						l.blocks[b] = true
						again = true
					}
				}
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

func allIn(bs []*ssa.BasicBlock, m map[*ssa.BasicBlock]bool) bool {
	for _, b := range bs {
		if !m[b] {
			return false
		}
	}
	return true
}

// merge joins states whose path conditions are exclusive.
func (x *Exec) merge(list []ret) ret {
	if len(list) == 1 {
		return list[0]
	}
	p := 0
	for {
		if p >= len(list[0].st.pc) {
			break
		}
		c := list[0].st.pc[p]
		same := true
		for _, s := range list[1:] {
			if p >= len(s.st.pc) || s.st.pc[p] != c {
				same = false
				break
			}
		}
		if !same {
			break
		}
		p++
	}
	prefix := append([]*Term{}, list[0].st.pc[:p]...)
	r, cond := x.mergeTree(list, p)
	st := r.st
	st.pc = prefix
	if cond != True {
		if cond.op == OAnd {
			st.pc = append(st.pc, cond.args...)
		} else {
			st.pc = append(st.pc, cond)
		}
	}
	st.facts = factsOf(st.pc)
	var inv []*Term
	for _, l := range list {
		inv = append(inv, l.st.inv...)
	}
	st.inv = nil
	st.invariant(inv...)
	return r
}

// invariant adds what holds of every state.
func (s *State) invariant(ts ...*Term) {
	cloned := false
next:
	for _, t := range ts {
		for _, o := range s.inv {
			if o == t {
				continue next
			}
		}
		s.inv = append(s.inv[:len(s.inv):len(s.inv)], t)
		if t = s.facts.simp(t); t == True {
			continue
		}
		if !cloned {
			s.facts, cloned = s.facts.clone(), true
		}
		s.facts.add(t)
	}
}

func (x *Exec) mergeTree(list []ret, p int) (ret, *Term) {
	if len(list) == 1 {
		return ret{list[0].st.clone(), append([]Value{}, list[0].vals...)}, mkAnd(list[0].st.pc[p:]...)
	}
	first := list[0]
	if len(first.st.pc) > p {
		l := first.st.pc[p]
		n := mkNot(l)
		var a, b []ret
		ok := true
		for _, s := range list {
			if len(s.st.pc) <= p {
				ok = false
				break
			}
			if s.st.pc[p] == l {
				a = append(a, s)
			} else if s.st.pc[p] == n {
				b = append(b, s)
			} else {
				ok = false
				break
			}
		}
		if ok && len(b) > 0 {
			ra, ca := x.mergeTree(a, p+1)
			rb, cb := x.mergeTree(b, p+1)
			return x.combine(l, ra, rb), mkIte(l, ca, cb)
		}
		if ok {
			ra, ca := x.mergeTree(a, p+1)
			return ra, mkAnd(l, ca)
		}
		// some literal shared with its negation further on: try to find a splitting literal
		for _, cand := range first.st.pc[p:] {
			nc := mkNot(cand)
			a, b = nil, nil
			ok = true
			for _, s := range list {
				has := 0
				for _, q := range s.st.pc[p:] {
					if q == cand {
						has = 1
					} else if q == nc {
						has = 2
					}
				}
				switch has {
				case 1:
					a = append(a, s)
				case 2:
					b = append(b, s)
				default:
					ok = false
				}
			}
			if ok && len(a) > 0 && len(b) > 0 {
				ra, ca := x.mergeTree(drop(a, p, cand), p)
				rb, cb := x.mergeTree(drop(b, p, nc), p)
				return x.combine(cand, ra, rb), mkIte(cand, ca, cb)
			}
		}
	}
	// a case of several types: a path has the disjunction, the others have the negation of
	// each of its parts
	for _, s := range list {
		for _, cand := range s.st.pc[min(p, len(s.st.pc)):] {
			if cand.op != OOr || !typeTests(cand.args) {
				continue
			}
			var a, b []ret
			ok := true
			for _, s := range list {
				pc := s.st.pc[min(p, len(s.st.pc)):]
				if hasTerm(pc, cand) {
					a = append(a, s)
					continue
				}
				for _, d := range cand.args {
					if !hasTerm(pc, mkNot(d)) {
						ok = false
					}
				}
				b = append(b, s)
			}
			if ok && len(a) > 0 && len(b) > 0 {
				for _, d := range cand.args {
					b = drop(b, p, mkNot(d))
				}
				ra, ca := x.mergeTree(drop(a, p, cand), p)
				rb, cb := x.mergeTree(b, p)
				return x.combine(cand, ra, rb), mkIte(cand, ca, cb)
			}
		}
	}
	c := mkAnd(first.st.pc[p:]...)
	rb, cb := x.mergeTree(list[1:], p)
	ra := ret{first.st.clone(), append([]Value{}, first.vals...)}
	return x.combine(c, ra, rb), mkOr(c, cb)
}

func typeTests(ts []*Term) bool {
	for _, t := range ts {
		if t.op != OIsT {
			return false
		}
	}
	return true
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, o := range ts {
		if o == t {
			return true
		}
	}
	return false
}

func drop(l []ret, p int, c *Term) []ret {
	var out []ret
	for _, r := range l {
		s := r.st.clone()
		pc := append([]*Term{}, s.pc[:p]...)
		for _, q := range s.pc[p:] {
			if q != c {
				pc = append(pc, q)
			}
		}
		s.pc = pc
		out = append(out, ret{s, r.vals})
	}
	return out
}

func (x *Exec) combine(c *Term, a, b ret) ret {
	st := a.st
	for k, v := range b.st.heap {
		if w, ok := st.heap[k]; ok {
			if w != v {
				st.heap[k] = mkIte(c, w, v)
			}
		} else {
			st.heap[k] = v
		}
	}
	for k, w := range st.env {
		v, ok := b.st.env[k]
		if !ok {
			delete(st.env, k)
			continue
		}
		st.env[k] = x.mergeVal(c, w, v)
	}
	st.text = mkIte(c, st.text, b.st.text)
	st.vals = mkIte(c, st.vals, b.st.vals)
	if st.cont != nil && b.st.cont != nil {
		st.cont = mkIte(c, st.cont, b.st.cont)
	}
	if len(st.defers) != len(b.st.defers) {
		x.fail(token.NoPos, "conditional defer")
	}
	for i := range a.vals {
		a.vals[i] = x.mergeVal(c, a.vals[i], b.vals[i])
	}
	return ret{st, a.vals}
}

func (x *Exec) mergeVal(c *Term, a, b Value) Value {
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok {
			if ta == tb {
				return ta
			}
			if ta.sort != tb.sort {
				return Poison{"merge of different sorts"}
			}
			return mkIte(c, ta, tb)
		}
		if pb, ok := b.(PtrV); ok && len(pb.path) == 0 {
			return x.mergeVal(c, a, x.asTerm(pb, 0))
		}
		if cl, ok := b.(*Closure); ok && ta.sort == FuncS {
			return mkIte(c, ta, cl.term())
		}
		return Poison{"merge of different kinds of values"}
	}
	switch va := a.(type) {
	case PtrV:
		if vb, ok := b.(PtrV); ok && samePtr(va, vb) {
			return a
		}
		if len(va.path) == 0 {
			if vb, ok := b.(PtrV); ok && len(vb.path) > 0 {
				return Poison{"merge of different addresses"}
			}
			return x.mergeVal(c, x.asTerm(va, 0), b)
		}
	case Tuple:
		if vb, ok := b.(Tuple); ok && len(va) == len(vb) {
			out := make(Tuple, len(va))
			for i := range va {
				out[i] = x.mergeVal(c, va[i], vb[i])
			}
			return out
		}
	case *Closure:
		if vb, ok := b.(*Closure); ok && (va == vb || va.fn == vb.fn && len(va.bindings) == 0 && len(vb.bindings) == 0) {
			return a
		}
		if vb, ok := b.(*Closure); ok && va.fn == vb.fn && len(va.bindings) == len(vb.bindings) {
			n := &Closure{fn: va.fn}
			for i := range va.bindings {
				n.bindings = append(n.bindings, x.mergeVal(c, va.bindings[i], vb.bindings[i]))
			}
			return n
		}
		switch vb := b.(type) {
		case *Closure:
			return mkIte(c, va.term(), vb.term())
		case *Term:
			if vb.sort == FuncS {
				return mkIte(c, va.term(), vb)
			}
		}
	}
	return Poison{"merge of different values"}
}

func samePtr(a, b PtrV) bool {
	if a.ref != b.ref || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// region executes the blocks of a function (or of one loop body) in reverse postorder.
// Edges that leave the region, or go back to its entry, are returned.
func (x *Exec) region(fn *ssa.Function, entry *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, st *State) (map[*ssa.BasicBlock][]edge, []ret) {
	fi := infoOf(fn)
	if fi.irreducible {
		x.fail(fn.Pos(), "irreducible control flow in %s", fn)
	}
	in := map[*ssa.BasicBlock][]edge{}
	out := map[*ssa.BasicBlock][]edge{}
	var rets []ret
	done := map[*ssa.BasicBlock]bool{}
	push := func(from, to *ssa.BasicBlock, s *State) {
		if to == entry || (within != nil && !within[to]) {
			out[to] = append(out[to], edge{from, s})
		} else {
			in[to] = append(in[to], edge{from, s})
		}
	}
	for _, b := range fi.rpo {
		if within != nil && !within[b] || done[b] {
			continue
		}
		var cur *State
		if b == entry {
			cur = st
		} else {
			es := in[b]
			if len(es) == 0 {
				continue
			}
			cur = x.enter(b, es)
			if l := fi.loops[b]; l != nil {
				ex, rs := x.loop(fn, l, cur)
				for _, lb := range fi.rpo {
					if l.blocks[lb] {
						done[lb] = true
					}
				}
				rets = append(rets, rs...)
				for _, tb := range fi.rpo {
					for _, e := range ex[tb] {
						push(e.pred, tb, e.st)
					}
				}
				continue
			}
		}
		if b == entry && within == nil {
			if l := fi.loops[b]; l != nil {
				x.fail(fn.Pos(), "loop at function entry")
			}
		}
		x.block(b, cur, func(to *ssa.BasicBlock, s *State) { push(b, to, s) }, func(r ret) { rets = append(rets, r) })
	}
	return out, rets
}

// enter merges the incoming states of a block and sets its phis.
func (x *Exec) enter(b *ssa.BasicBlock, es []edge) *State {
	var list []ret
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	for _, e := range es {
		pi := -1
		for i, p := range b.Preds {
			if p == e.pred {
				pi = i
			}
		}
		var vals []Value
		for _, p := range phis {
			v := x.tryVal(e.st, p.Edges[pi])
			vals = append(vals, v)
		}
		list = append(list, ret{e.st, vals})
	}
	r := x.merge(list)
	for i, p := range phis {
		r.st.env[p] = r.vals[i]
	}
	return r.st
}

func (x *Exec) tryVal(st *State, v ssa.Value) Value {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return x.val(st, v)
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return Poison{"undefined phi operand"}
}

func (x *Exec) exit(st *State, c *Term, kind string, pos token.Pos, msg string) bool {
	c = st.facts.simp(c)
	if c == False {
		return true
	}
	pc := append(append([]*Term{}, st.pc...), c)
	x.exits = append(x.exits, Exit{cond: mkAnd(pc...), pc: pc, kind: kind, pos: pos, msg: msg})
	return st.assume(mkNot(c))
}

// check adds a runtime panic when ok may be false; returns false if the path ends here.
func (x *Exec) need(st *State, ok *Term, pos token.Pos, msg string) bool {
	if x.inSpec() {
		return true
	}
	return x.exit(st, mkNot(ok), "runtime", pos, msg)
}

func (x *Exec) block(b *ssa.BasicBlock, st *State, push func(*ssa.BasicBlock, *State), onRet func(ret)) {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := st.facts.simp(x.term(st, i.Cond))
			if c == True {
				push(b.Succs[0], st)
				return
			}
			if c == False {
				push(b.Succs[1], st)
				return
			}
			s2 := st.clone()
			if st.assume(c) {
				push(b.Succs[0], st)
			}
			if s2.assume(mkNot(c)) {
				push(b.Succs[1], s2)
			}
			return
		case *ssa.Jump:
			push(b.Succs[0], st)
			return
		case *ssa.Return:
			var vals []Value
			for _, r := range i.Results {
				vals = append(vals, x.val(st, r))
			}
			onRet(ret{st, vals})
			return
		case *ssa.Panic:
			kind := "lib"
			if x.inSpec() {
				kind = "spec"
			}
			msg := ""
			if t, ok := x.tryVal(st, i.X).(*Term); ok {
				msg = t.String()
			}
			x.exit(st, True, kind, i.Pos(), msg)
			return
		case *ssa.RunDefers:
			for k := len(st.defers) - 1; k >= 0; k-- {
				d := st.defers[k]
				ns := x.runDeferred(st, d, i.Pos())
				if ns == nil {
					return
				}
				st = ns
			}
			st.defers = nil
		default:
			st = x.instr(st, in)
			if st == nil {
				return
			}
		}
	}
}

// ---------------------------------------------------------------------------
// Instructions
// ---------------------------------------------------------------------------

func (x *Exec) instr(st *State, in ssa.Instruction) *State {
	set := func(v ssa.Value, r Value) { st.env[v] = r }
	pos := in.Pos()
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		elem := i.Type().Underlying().(*types.Pointer).Elem()
		id := newRef()
		refSort[id] = sortOf(elem)
		st.heap[id] = zeroVal(elem)
		set(i, PtrV{ref: id, elem: sortOf(elem)})
	case *ssa.BinOp:
		r := x.binop(st, i)
		if r == nil {
			return nil
		}
		set(i, r)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p := x.val(st, i.X)
			if t, ok := p.(*Term); ok {
				if !x.need(st, mkNot(mkPtrIsNil(t)), pos, "nil pointer dereference") {
					return nil
				}
			}
			set(i, x.load(st, p, pos))
		case token.NOT:
			set(i, mkNot(x.term(st, i.X)))
		case token.SUB:
			t := x.term(st, i.X)
			if t.sort != IntS {
				x.fail(pos, "negation of %s", t.sort.name)
			}
			set(i, mkSub(mkInt(0), t))
		case token.XOR:
			t := x.term(st, i.X)
			set(i, mkApp("bitnot:"+i.Type().String(), IntS, t))
		default:
			x.fail(pos, "operator %s", i.Op)
		}
	case *ssa.Call:
		v, ns := x.call(st, i)
		if ns == nil {
			return nil
		}
		st = ns
		st.env[i] = v
	case *ssa.Defer:
		c := i.Common()
		d := deferred{fn: c.StaticCallee(), inst: i}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(st, a))
		}
		if c.IsInvoke() {
			d.recv, d.method = x.term(st, c.Value), c.Method
		} else if _, ok := c.Value.(*ssa.MakeClosure); ok || d.fn == nil {
			v := x.val(st, c.Value)
			cl, ok := v.(*Closure)
			if t, isT := v.(*Term); isT {
				cl = closures[st.facts.simp(t)]
				ok = cl != nil
			}
			if !ok {
				x.fail(pos, "deferred dynamic call")
			}
			d.cl = cl
		}
		st.defers = append(st.defers, d)
	case *ssa.ChangeInterface:
		set(i, x.val(st, i.X))
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if t, ok := v.(*Term); ok && t.sort != sortOf(i.Type()) {
			t2 := convSort(t, sortOf(i.Type()))
			if t2 == nil {
				x.fail(pos, "change type %s to %s", t.sort.name, sortOf(i.Type()).name)
			}
			v = t2
		}
		set(i, v)
	case *ssa.Convert:
		set(i, x.convert(st, i))
	case *ssa.Extract:
		set(i, x.val(st, i.Tuple).(Tuple)[i.Index])
	case *ssa.Field:
		set(i, mkSel(i.Field, x.term(st, i.X)))
	case *ssa.FieldAddr:
		p := x.val(st, i.X)
		if t, ok := p.(*Term); ok {
			if !x.need(st, mkNot(mkPtrIsNil(t)), pos, "nil pointer dereference") {
				return nil
			}
		}
		set(i, x.field(st, p, i.Field, pos))
	case *ssa.Index:
		s := x.content(st, x.term(st, i.X))
		k := x.term(st, i.Index)
		if s.sort == StrS {
			if !x.bounds(st, k, mkStrLen(s), pos) {
				return nil
			}
			set(i, mkApp("byteat", IntS, s, k))
			break
		}
		if !x.bounds(st, k, mkLen(s), pos) {
			return nil
		}
		set(i, mkAt(s, k))
	case *ssa.IndexAddr:
		k := x.term(st, i.Index)
		if _, isPtr := i.X.Type().Underlying().(*types.Pointer); isPtr {
			p, ok := x.deref(st, x.val(st, i.X), pos)
			if !ok {
				x.fail(pos, "index of array through symbolic pointer")
			}
			pv := p.(PtrV)
			arr := x.content(st, x.readPath(st, st.heap[pv.ref], pv.path, pos))
			if !x.bounds(st, k, mkLen(arr), pos) {
				return nil
			}
			set(i, PtrV{ref: pv.ref, path: append(append([]pathElem{}, pv.path...), pathElem{index: k}), elem: arr.sort.elem})
			break
		}
		s := x.term(st, i.X)
		c := x.content(st, s)
		if !x.bounds(st, k, mkLen(c), pos) {
			return nil
		}
		if s.op == ORef {
			set(i, PtrV{ref: s.idx, path: []pathElem{{index: k}}, elem: s.sort.elem})
		} else {
			// a read-only view of a pure sequence
			id := newRef()
			refSort[id] = c.sort.elem
			st.heap[id] = mkAt(c, k)
			roRefs[id] = true
			set(i, PtrV{ref: id, elem: c.sort.elem})
		}
	case *ssa.Lookup:
		m := x.content(st, x.term(st, i.X))
		k := x.res(st, x.val(st, i.Index), pos)
		if m.sort == StrS {
			if !x.bounds(st, k, mkStrLen(m), pos) {
				return nil
			}
			set(i, mkApp("byteat", IntS, m, k))
			break
		}
		v := st.facts.simp(mkMapGet(m, k, zeroSort(m.sort.elem)))
		if i.CommaOk {
			set(i, Tuple{v, st.facts.simp(mkMapHas(m, k))})
		} else {
			set(i, v)
		}
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.bindings = append(c.bindings, x.val(st, b))
		}
		set(i, c)
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		t := i.X.Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			set(i, v)
			break
		}
		set(i, mkBox(typeKey(t), x.asTerm(v, pos)))
	case *ssa.MakeMap:
		id := newRef()
		s := sortOf(i.Type())
		refSort[id] = s
		st.heap[id] = mkMapEmpty(s)
		set(i, mkRef(id, s))
	case *ssa.MakeSlice:
		n := x.term(st, i.Len)
		s := sortOf(i.Type())
		if !n.nonNeg && !x.need(st, mkLe(mkInt(0), n), pos, "negative make length") {
			return nil
		}
		id := newRef()
		refSort[id] = s
		st.heap[id] = mkZeros(s, n, zeroSort(s.elem))
		set(i, mkRef(id, s))
	case *ssa.MapUpdate:
		m := x.term(st, i.Map)
		k := x.res(st, x.val(st, i.Key), pos)
		v := x.res(st, x.val(st, i.Value), pos)
		if m.op == OIte { // one of several owned maps: each is updated where it is the one
			var leaves func(t, c *Term) bool
			type leaf struct{ r, c *Term }
			var ls []leaf
			leaves = func(t, c *Term) bool {
				if t.op == OIte {
					return leaves(t.args[1], mkAnd(c, t.args[0])) && leaves(t.args[2], mkAnd(c, mkNot(t.args[0])))
				}
				ls = append(ls, leaf{t, c})
				return t.op == ORef
			}
			if leaves(m, True) {
				for _, l := range ls {
					if !x.need(st, mkOr(mkNot(l.c), mkNot(mkMapIsNil(st.heap[l.r.idx]))), pos, "assignment to entry in nil map") {
						return nil
					}
				}
				for _, l := range ls {
					st.heap[l.r.idx] = mkIte(l.c, mkMapPut(st.heap[l.r.idx], k, v), st.heap[l.r.idx])
				}
				return st
			}
		}
		if m.op != ORef {
			if mkMapIsNil(m) == True {
				x.exit(st, True, "runtime", pos, "assignment to entry in nil map")
				return nil
			}
			x.fail(pos, "update of a map that is not owned by the function")
		}
		c := st.heap[m.idx]
		if !x.need(st, mkNot(mkMapIsNil(c)), pos, "assignment to entry in nil map") {
			return nil
		}
		st.heap[m.idx] = mkMapPut(c, k, v)
	case *ssa.Range:
		t := x.content(st, x.term(st, i.X))
		id := newRef()
		refSort[id] = IntS
		st.heap[id] = mkInt(0)
		over := x.res(st, t, pos)
		if over.sort.kind == SMap {
			if x.ranged == nil {
				x.ranged = map[*Term]map[*ssa.Range]bool{}
			}
			if x.ranged[over] == nil {
				x.ranged[over] = map[*ssa.Range]bool{}
			}
			x.ranged[over][i] = true
			if x.inOrder[over] && len(x.ranged[over]) > 1 {
				x.fail(pos, "range over a map in any order and in that of its keys")
			}
		}
		set(i, iterV{id, over})
	case *ssa.Next:
		it := x.val(st, i.Iter).(iterV)
		k := st.heap[it.ref]
		if i.IsString {
			rs := mkApp("runes", seqSort(IntS), it.over)
			ok := st.facts.simp(mkLt(k, mkLen(rs)))
			set(i, Tuple{ok, mkApp("runeoff", IntS, it.over, k), mkAt(rs, k)})
		} else {
			ok := st.facts.simp(mkLt(k, mkMapLen(it.over)))
			key := mkApp("keyAt", it.over.sort.key, it.over, k)
			v := mkMapGetRaw(it.over, key)
			set(i, Tuple{ok, key, v})
		}
		st.heap[it.ref] = mkAdd(k, mkInt(1))
	case *ssa.Slice:
		r := x.slice(st, i)
		if r == nil {
			return nil
		}
		set(i, r)
	case *ssa.Store:
		p := x.val(st, i.Addr)
		if t, ok := p.(*Term); ok {
			if !x.need(st, mkNot(mkPtrIsNil(t)), pos, "nil pointer dereference") {
				return nil
			}
		}
		if pv, ok := p.(PtrV); ok && roRefs[pv.ref] {
			x.fail(pos, "store into memory that is not owned by the function")
		}
		x.store(st, p, x.term(st, i.Val), pos)
	case *ssa.TypeAssert:
		v := x.term(st, i.X)
		var is, r, z *Term
		if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			is = mkImpl(ifaceKey(i.AssertedType), v)
			if to := i.AssertedType.Underlying().(*types.Interface); to.NumMethods() == 0 || types.Implements(i.X.Type(), to) {
				is = mkNot(mkIsNil(v))
			}
			r, z = v, NilAny
		} else {
			k := typeKey(i.AssertedType)
			is = mkIsT(k, v)
			s := sortOf(i.AssertedType)
			r, z = mkUnbox(k, s, v), zeroSort(s)
		}
		is = st.facts.simp(is)
		r = st.facts.simp(r)
		if i.CommaOk {
			set(i, Tuple{mkIte(is, r, z), is})
		} else {
			if x.inSpec() {
				if !x.exit(st, mkNot(is), "spec", pos, "type assertion") {
					return nil
				}
			} else if !x.need(st, is, pos, "type assertion") {
				return nil
			}
			set(i, r)
		}
	default:
		x.fail(pos, "instruction %T", in)
	}
	return st
}

type iterV struct {
	ref  int
	over *Term
}

func convSort(t *Term, s *Sort) *Term {
	if t.sort == s {
		return t
	}
	if t.sort.kind == SStruct && s.kind == SStruct && len(t.sort.fields) == len(s.fields) {
		fs := make([]*Term, len(s.fields))
		for i := range fs {
			f := convSort(mkSel(i, t), s.fields[i])
			if f == nil {
				return nil
			}
			fs[i] = f
		}
		return mkMk(s, fs)
	}
	return nil
}

func (x *Exec) bounds(st *State, k, n *Term, pos token.Pos) bool {
	if x.inSpec() {
		return true
	}
	return x.need(st, mkAnd(mkLe(mkInt(0), k), mkLt(k, n)), pos, "index out of range")
}

func (x *Exec) slice(st *State, i *ssa.Slice) Value {
	pos := i.Pos()
	var lo, hi, max *Term
	if i.Low != nil {
		lo = x.term(st, i.Low)
	} else {
		lo = mkInt(0)
	}
	if i.High != nil {
		hi = x.term(st, i.High)
	}
	if i.Max != nil {
		max = x.term(st, i.Max)
	}
	if _, isPtr := i.X.Type().Underlying().(*types.Pointer); isPtr {
		p, ok := x.deref(st, x.val(st, i.X), pos)
		if !ok || len(p.(PtrV).path) > 0 {
			x.fail(pos, "slice of array field")
		}
		pv := p.(PtrV)
		c := st.heap[pv.ref]
		if lo == mkInt(0) && (hi == nil || hi == mkLen(c)) {
			return mkRef(pv.ref, sortOf(i.Type()))
		}
		if hi == nil {
			hi = mkLen(c)
		}
		if !x.need(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkLen(c))), pos, "slice bounds out of range") {
			return nil
		}
		return mkExtract(c, lo, hi)
	}
	t := x.term(st, i.X)
	c := x.content(st, t)
	if c.sort == StrS {
		n := mkStrLen(c)
		if hi == nil {
			hi = n
		}
		if lo == mkInt(0) && hi == n {
			return c
		}
		if !x.need(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), pos, "slice bounds out of range") {
			return nil
		}
		return mkApp("substr", StrS, c, lo, hi)
	}
	n := mkLen(c)
	if hi == nil {
		hi = n
	}
	_ = max
	if lo == mkInt(0) && hi == n {
		if max != nil && t.op == ORef {
			return t
		}
		return t
	}
	// growing a slice into its capacity is not modelled
	if !x.need(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), pos, "slice bounds out of range") {
		return nil
	}
	return mkExtract(x.content(st, t), lo, hi)
}

func intRange(t types.Type) (*big.Int, *big.Int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := 64
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func (x *Exec) convert(st *State, i *ssa.Convert) Value {
	pos := i.Pos()
	from, to := i.X.Type(), i.Type()
	t := x.term(st, i.X)
	fs, ts := sortOf(from), sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	switch {
	case fs == IntS && ts == IntS:
		flo, fhi, _ := intRange(from)
		tlo, thi, _ := intRange(to)
		if tlo.Cmp(flo) <= 0 && thi.Cmp(fhi) >= 0 {
			return t
		}
		// wraps unless in range
		low, high := True, True
		if tlo.Cmp(flo) > 0 {
			low = st.facts.simp(mkLe(mkBig(tlo), t))
		}
		if thi.Cmp(fhi) < 0 {
			high = st.facts.simp(mkLe(t, mkBig(thi)))
		}
		// once around
		width := new(big.Int).Sub(thi, tlo)
		width.Add(width, big.NewInt(1))
		if low == True && new(big.Int).Sub(fhi, width).Cmp(thi) <= 0 {
			return mkIte(high, t, mkSub(t, mkBig(width)))
		}
		if high == True && new(big.Int).Add(flo, width).Cmp(tlo) >= 0 {
			return mkIte(low, t, mkAdd(t, mkBig(width)))
		}
		return mkIte(mkAnd(low, high), t, mkApp("wrap:"+to.Underlying().String(), IntS, t))
	case fs == IntS && ts == StrS:
		return mkApp("chr", StrS, t)
	case ts == StrS && fs.kind == SSeq:
		c := x.content(st, t)
		el := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Int32 {
			return mkApp("runesToStr", StrS, c)
		}
		return mkApp("bytesToStr", StrS, c)
	case fs == StrS && ts.kind == SSeq:
		el := to.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Int32 {
			return mkApp("runes", seqSort(IntS), t)
		}
		return mkApp("bytesOf", seqSort(IntS), t)
	case fs == ts:
		return t
	}
	if fb != nil {
		return mkApp("conv:"+from.Underlying().String()+":"+to.Underlying().String(), ts, t)
	}
	x.fail(pos, "conversion from %s to %s", from, to)
	return nil
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Value {
	pos := i.Pos()
	av, bv := x.val(st, i.X), x.val(st, i.Y)
	if i.Op == token.EQL || i.Op == token.NEQ {
		r := x.equal(st, av, bv, i.X.Type(), pos)
		if i.Op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	a, b := x.asTerm(av, pos), x.asTerm(bv, pos)
	switch a.sort.kind {
	case SInt:
		switch i.Op {
		case token.ADD:
			return mkAdd(a, b)
		case token.SUB:
			return mkSub(a, b)
		case token.MUL:
			return mkMul(a, b)
		case token.LSS:
			return mkLt(a, b)
		case token.LEQ:
			return mkLe(a, b)
		case token.GTR:
			return mkLt(b, a)
		case token.GEQ:
			return mkLe(b, a)
		case token.QUO, token.REM:
			if !x.need(st, mkNot(mkEq(b, mkInt(0))), pos, "division by zero") {
				return nil
			}
			if i.Op == token.REM && a.nonNeg && b.op == OInt && b.n.Sign() > 0 {
				return mkMod(a, b)
			}
			return mkApp("int"+i.Op.String(), IntS, a, b)
		default:
			return mkApp("int"+i.Op.String()+i.Type().String(), IntS, a, b)
		}
	case SStr:
		switch i.Op {
		case token.ADD:
			return mkConcat(a, b)
		case token.LSS:
			return mkApp("strlt", BoolS, a, b)
		case token.GTR:
			return mkApp("strlt", BoolS, b, a)
		case token.LEQ:
			return mkNot(mkApp("strlt", BoolS, b, a))
		case token.GEQ:
			return mkNot(mkApp("strlt", BoolS, a, b))
		}
	case SBool:
		switch i.Op {
		case token.AND:
			return mkAnd(a, b)
		case token.OR:
			return mkOr(a, b)
		}
	case SOpaque:
		s := sortOf(i.Type())
		return mkApp("op"+i.Op.String()+i.X.Type().String(), s, a, b)
	}
	x.fail(pos, "operator %s on %s", i.Op, a.sort.name)
	return nil
}

func (x *Exec) equal(st *State, av, bv Value, t types.Type, pos token.Pos) *Term {
	if _, ok := t.Underlying().(*types.Signature); ok { // comparison with nil only
		if n := isNilFunc(av); n != nil && n != True {
			return n
		}
		if n := isNilFunc(bv); n != nil {
			return n
		}
	}
	if pa, ok := av.(PtrV); ok {
		if pb, ok := bv.(PtrV); ok {
			return mkBool(samePtr(pa, pb))
		}
		if tb, ok := bv.(*Term); ok && tb.op == OPtrNil {
			return False
		}
		if len(pa.path) > 0 {
			x.fail(pos, "comparison of addresses")
		}
		av = x.asTerm(pa, pos)
	}
	if pb, ok := bv.(PtrV); ok {
		_ = pb
		return x.equal(st, bv, av, t, pos)
	}
	a, b := x.asTerm(av, pos), x.asTerm(bv, pos)
	if a.sort != b.sort {
		if a.sort == AnyS || b.sort == AnyS {
			x.fail(pos, "mixed comparison")
		}
	}
	switch a.sort.kind {
	case SSeq: // comparison with nil: a nil slice and an empty one are not distinguished by length
		other := a
		if a.op == OSeqEmpty {
			other = b
		}
		c := x.content(st, other)
		if other.op == ORef {
			return False
		}
		if x.inSpec() {
			return mkEq(mkLen(c), mkInt(0))
		}
		return mkAnd(mkEq(mkLen(c), mkInt(0)), mkApp("isnilslice", BoolS, c)) // a nil slice is empty
	case SMap:
		other := a
		if a.op == OMapNil {
			other = b
		}
		return mkMapIsNil(x.content(st, other))
	case SPtr:
		if a.op == OPtrNil {
			return mkPtrIsNil(b)
		}
		if b.op == OPtrNil {
			return mkPtrIsNil(a)
		}
		return mkApp("ptreq", BoolS, x.res(st, a, pos), x.res(st, b, pos))
	case SOpaque:
		if a == b {
			return True
		}
		return mkApp("opeq", BoolS, a, b)
	}
	if a.sort.kind == SStruct || a.sort.kind == SAny {
		a, b = x.res(st, a, pos), x.res(st, b, pos)
	}
	return st.facts.simp(mkEq(a, b))
}

// ---------------------------------------------------------------------------
// Functions
// ---------------------------------------------------------------------------

const maxDepth = 40

// runBody executes the body of fn; the result state is nil when every path panics.
func (x *Exec) runBody(st *State, fn *ssa.Function, args []Value, free []Value, pos token.Pos) ([]Value, *State) {
	if len(fn.Blocks) == 0 {
		x.fail(pos, "function %s has no body", fn)
	}
	if x.depth > maxDepth {
		x.fail(pos, "call depth exceeded at %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			n := 0
			for _, g := range x.stack {
				if g == fn {
					n++
				}
			}
			if n > 2 {
				x.fail(pos, "recursive call of %s, which has no contract", fn)
			}
		}
	}
	x.depth++
	x.stack = append(x.stack, fn)
	spec := P.isSpecFn(fn)
	if spec {
		x.specDepth++
	}
	savedDefers := st.defers
	savedSpec := x.specDepth
	if !spec && x.specDepth > 0 {
		// code called from a contract is code
		x.specDepth = 0
	}
	defer func() {
		x.depth--
		x.stack = x.stack[:len(x.stack)-1]
		x.specDepth = savedSpec
		if spec {
			x.specDepth--
		}
	}()
	s := st.clone()
	outer := s.env
	s.env = map[ssa.Value]Value{}
	s.defers = nil
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		s.env[f] = free[i]
	}
	_, rets := x.region(fn, fn.Blocks[0], nil, s)
	if len(rets) == 0 {
		return nil, nil
	}
	r := x.merge(rets)
	n := r.st.clone()
	n.env = outer
	n.defers = savedDefers
	return r.vals, n
}

func (x *Exec) call(st *State, i *ssa.Call) (Value, *State) {
	c := i.Common()
	pos := i.Pos()
	if c.IsInvoke() {
		recv := x.term(st, c.Value)
		var args []Value
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
		vals, ns := x.invoke(st, recv, c.Method, args, pos)
		return pack(vals, c.Signature()), ns
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, i, b)
	}
	callee := c.StaticCallee()
	if callee != nil && len(c.Args) > 0 && rearranges(callee) {
		x.ownBuilt(st, i, c.Args[0])
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if callee == nil {
		vals, ns := x.callValue(st, x.val(st, c.Value), args, pos)
		return pack(vals, c.Signature()), ns
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		cl := x.val(st, mc).(*Closure)
		vals, ns := x.runClosure(st, cl, args, pos)
		return pack(vals, c.Signature()), ns
	}
	vals, ns := x.callFn(st, callee, args, pos)
	return pack(vals, c.Signature()), ns
}

// rearranges says whether a function of the standard library changes the order of its first argument in place.
func rearranges(fn *ssa.Function) bool {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	switch fn.String() {
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Float64s",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		return true
	}
	return false
}

// ownBuilt gives a slice that a loop built, and that is known as a value only, a place in memory. That no other
// slice refers to the same elements is a frame condition.
func (x *Exec) ownBuilt(st *State, at *ssa.Call, v ssa.Value) {
	var box []*ssa.MakeInterface
	for {
		if m, ok := v.(*ssa.MakeInterface); ok {
			box = append(box, m)
			v = m.X
		} else {
			break
		}
	}
	t, ok := st.env[v].(*Term)
	if !ok || t.sort == nil || t.sort.kind != SSeq || t.op == ORef || t.op == OIte {
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	for _, l := range infoOf(at.Parent()).loops {
		if l.blocks[at.Block()] && !l.blocks[in.Block()] {
			return // each turn would change it
		}
	}
	id := newRef()
	refSort[id] = t.sort
	st.heap[id] = x.content(st, t)
	r := mkRef(id, t.sort)
	switch v := v.(type) {
	case *ssa.Phi:
	case *ssa.UnOp:
		p, ok := st.env[v.X].(PtrV)
		if !ok || x.load(st, p, at.Pos()) != t {
			return
		}
		for _, l := range infoOf(at.Parent()).loops {
			if d, ok := v.X.(ssa.Instruction); !ok || l.blocks[at.Block()] && !l.blocks[d.Block()] {
				return
			}
		}
		x.store(st, p, r, at.Pos())
	default:
		return
	}
	st.env[v] = r
	for i := len(box) - 1; i >= 0; i-- {
		st.env[box[i]] = mkBox(typeKey(box[i].X.Type()), r)
	}
}

func (x *Exec) runClosure(st *State, cl *Closure, args []Value, pos token.Pos) ([]Value, *State) {
	if len(cl.bindings) == 0 {
		return x.callFn(st, cl.fn, args, pos)
	}
	return x.runBody(st, cl.fn, args, cl.bindings, pos)
}

func pack(vals []Value, sig *types.Signature) Value {
	if sig.Results().Len() == 1 && len(vals) == 1 {
		return vals[0]
	}
	return Tuple(vals)
}

func (x *Exec) builtin(st *State, i *ssa.Call, b *ssa.Builtin) (Value, *State) {
	pos := i.Pos()
	args := i.Common().Args
	switch b.Name() {
	case "len":
		t := x.content(st, x.term(st, args[0]))
		switch t.sort.kind {
		case SStr:
			return st.facts.simp(mkStrLen(t)), st
		case SMap:
			return st.facts.simp(mkMapLen(t)), st
		}
		return st.facts.simp(mkLen(t)), st
	case "cap":
		t := x.content(st, x.term(st, args[0]))
		if x.inSpec() {
			return mkLen(t), st
		}
		return freshNonNeg("cap"), st
	case "append":
		a := x.content(st, x.term(st, args[0]))
		t := x.term(st, args[1])
		if t.sort == StrS {
			t = mkApp("bytesOf", seqSort(IntS), t)
		}
		bb := x.content(st, t)
		// a new array: growing into the spare capacity of a shared one is excluded by the frame conditions
		id := newRef()
		refSort[id] = a.sort
		st.heap[id] = mkSeqConcat(a.sort, a, bb)
		return mkRef(id, a.sort), st
	case "copy":
		d, lo := x.term(st, args[0]), mkInt(0)
		var hi *Term
		if sl, ok := args[0].(*ssa.Slice); ok && d.op != ORef { // a part of a slice
			if t, ok := x.val(st, sl.X).(*Term); ok && t.op == ORef {
				if d = t; sl.Low != nil {
					lo = x.term(st, sl.Low)
				}
				if sl.High != nil {
					hi = x.term(st, sl.High)
				}
			}
		}
		if d.op != ORef || roRefs[d.idx] {
			x.fail(pos, "copy into memory that is not owned by the function")
		}
		s := x.content(st, x.term(st, args[1]))
		c := st.heap[d.idx]
		if hi == nil {
			hi = mkLen(c)
		}
		if s.sort == StrS {
			s = mkApp("bytesOf", seqSort(IntS), s)
		}
		room, n := mkSub(hi, lo), mkLen(s)
		short := st.facts.simp(mkLe(n, room))
		if short == False {
			n = room
		} else if short != True {
			n = mkIte(short, n, room)
		}
		if n != mkLen(s) {
			s = mkExtract(s, mkInt(0), n)
		}
		st.heap[d.idx] = mkSeqConcat(c.sort, mkExtract(c, mkInt(0), lo), s, mkExtract(c, mkAdd(lo, n), mkLen(c)))
		return n, st
	case "ssa:wrapnilchk":
		return x.val(st, args[0]), st
	case "min", "max":
		a, bb := x.term(st, args[0]), x.term(st, args[1])
		if len(args) == 2 && a.sort == IntS {
			if b.Name() == "min" {
				return mkIte(mkLe(a, bb), a, bb), st
			}
			return mkIte(mkLe(a, bb), bb, a), st
		}
	case "delete":
		m := x.term(st, args[0])
		if m.op == ORef {
			st.heap[m.idx] = mkApp("mapdel", m.sort, st.heap[m.idx], x.res(st, x.val(st, args[1]), pos))
			return Tuple{}, st
		}
	case "clear":
		m := x.term(st, args[0])
		if m.op == ORef && m.sort.kind == SMap {
			st.heap[m.idx] = mkMapEmpty(m.sort)
			return Tuple{}, st
		}
	case "print", "println":
	}
	x.fail(pos, "builtin %s", b.Name())
	return nil, nil
}

// fork runs f on both branches of an ite value.
func (x *Exec) fork(st *State, c *Term, a, b func(*State) ([]Value, *State)) ([]Value, *State) {
	s1, s2 := st, st.clone()
	s1 = st.clone()
	var list []ret
	if s1.assume(c) {
		if v, s := a(s1); s != nil {
			list = append(list, ret{s, v})
		}
	}
	if s2.assume(mkNot(c)) {
		if v, s := b(s2); s != nil {
			list = append(list, ret{s, v})
		}
	}
	if len(list) == 0 {
		return nil, nil
	}
	r := x.merge(list)
	return r.vals, r.st
}

func (x *Exec) invoke(st *State, recv *Term, m *types.Func, args []Value, pos token.Pos) ([]Value, *State) {
	recv = st.facts.simp(recv)
	name := m.Name()
	// the abstract context
	if recv == ctxVar {
		switch name {
		case "Write":
			st.text = mkConcat(st.text, x.asTerm(args[0], pos))
			return nil, st
		case "Bind":
			st.text = mkConcat(st.text, mkStr(holeMark))
			st.vals = mkSeqConcat(st.vals.sort, st.vals, mkUnit(x.res(st, args[0], pos)))
			return nil, st
		}
		x.fail(pos, "context method %s", name)
	}
	if k, ok := st.facts.tag[recv]; ok && recv.op != OBox {
		if t := P.typesByKey[k]; t != nil {
			recv = mkBox(k, st.facts.simp(mkUnbox(k, sortOf(t), recv)))
		}
	}
	switch recv.op {
	case OIte:
		if hasBox(recv) {
			return x.fork(st, recv.args[0],
				func(s *State) ([]Value, *State) { return x.invoke(s, recv.args[1], m, args, pos) },
				func(s *State) ([]Value, *State) { return x.invoke(s, recv.args[2], m, args, pos) })
		}
	case OBox:
		t := P.typesByKey[recv.name]
		if t == nil {
			x.fail(pos, "unknown dynamic type %s", recv.name)
		}
		fn := P.ssaProg.LookupMethod(t, m.Pkg(), name)
		if fn != nil && (P.inModule(fn) || intrinsics[fn.String()] != nil) {
			a := append([]Value{recv.args[0]}, args...)
			return x.callFn(st, fn, a, pos)
		}
	case ONilAny:
		x.exit(st, True, "runtime", pos, "method call on nil interface")
		return nil, nil
	}
	sig := m.Type().(*types.Signature)
	if sp := P.ifaceSpec[name]; sp != nil && isStatementIface(m) {
		r := x.res(st, recv, pos)
		x.calls(st, "iface."+name, []*Term{r}, pos)
		if !x.exit(st, mkApp("pan:"+specName(sp), BoolS, r), "lib", pos, name) {
			return nil, nil
		}
		res := mkApp(specName(sp), sortOf(sp.Signature.Results().At(0).Type()), r)
		if name == "Write" {
			return nil, x.emit(st, args[0], res, pos)
		}
		return []Value{st.facts.simp(res)}, st
	}
	// uninterpreted method of an unknown implementation
	if !x.exit(st, mkIsNil(recv), "runtime", pos, "method call on nil interface") {
		return nil, nil
	}
	x.used["method "+name+" of a caller-supplied implementation is a pure function of the receiver"] = true
	targs := []*Term{x.res(st, recv, pos)}
	for _, a := range args {
		targs = append(targs, x.res(st, a, pos))
	}
	if !x.exit(st, mkApp("pan:m:"+name, BoolS, targs...), "lib", pos, name) {
		return nil, nil
	}
	var out []Value
	for k := 0; k < sig.Results().Len(); k++ {
		out = append(out, mkApp(fmt.Sprintf("m:%s:%d", name, k), sortOf(sig.Results().At(k).Type()), targs...))
	}
	return out, st
}

func isStatementIface(m *types.Func) bool {
	return m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "/stmt")
}

func hasBox(t *Term) bool {
	if t.op == OBox || t == NilAny || t == ctxVar {
		return true
	}
	if t.op == OIte {
		return hasBox(t.args[1]) || hasBox(t.args[2])
	}
	return false
}

func specName(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.Name()
}

// emit adds a piece of output (term of sort Out) to a context.
func (x *Exec) emit(st *State, ctx Value, out *Term, pos token.Pos) *State {
	c := x.asTerm(ctx, pos)
	text, vals := mkSel(0, out), mkSel(1, out)
	if c == ctxVar {
		st.text = mkConcat(st.text, text)
		st.vals = mkSeqConcat(st.vals.sort, st.vals, vals)
		return st
	}
	if c.op == OBox && c.args[0].op == ORef {
		return x.emitConcrete(st, c.name, c.args[0].idx, text, vals, pos)
	}
	x.fail(pos, "output to an unknown context")
	return nil
}

// callFn calls a function: intrinsic, contract, inlined body or uninterpreted external.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
	if in := intrinsics[fn.String()]; in != nil {
		return in(x, st, fn, args, pos)
	}
	if fn.Origin() != nil {
		if in := intrinsics[fn.Origin().String()]; in != nil {
			return in(x, st, fn, args, pos)
		}
	}
	if c := P.contracts[fn]; c != nil && !x.noContract[fn] {
		return x.applyContract(st, c, args, pos)
	}
	if P.isSpecFn(fn) {
		return x.applySpec(st, fn, args, pos)
	}
	if P.inModule(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 && isModuleWrapper(fn) {
		return x.runBody(st, fn, args, nil, pos)
	}
	return x.external(st, fn, args, pos)
}

func isModuleWrapper(fn *ssa.Function) bool {
	if o, ok := fn.Object().(*types.Func); ok && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return strings.Contains(fn.String(), modPath)
}

func (p *Program) inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.pkgs[f.Pkg.Pkg.Path()] != nil
	}
	return isModuleWrapper(f) && len(f.Blocks) > 0
}

// external treats a function of a dependency as a pure function of its arguments.
func (x *Exec) external(st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
	name := fn.String()
	if !pureExternal(fn) {
		x.fail(pos, "call of %s, which has no contract", name)
	}
	x.used["dependency "+name+" is a pure, total function of its arguments"] = true
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.res(st, a, pos))
	}
	var out []Value
	for k := 0; k < fn.Signature.Results().Len(); k++ {
		n := "ext:" + name
		if k > 0 {
			n += fmt.Sprintf(":%d", k)
		}
		out = append(out, mkApp(n, sortOf(fn.Signature.Results().At(k).Type()), ts...))
	}
	return out, st
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "fmt": true, "math": true,
	"errors": true, "github.com/pkg/errors": true, "encoding/hex": true, "time": true, "bytes": true, "reflect": true, "slices": true, "path": true}

// functions of those packages that are not functions of their arguments, or change them
var impure = map[string]bool{"time.Now": true, "time.Since": true, "time.Until": true, "time.After": true, "time.Tick": true, "time.Sleep": true,
	"time.LoadLocation": true, "slices.Insert": true, "slices.Delete": true, "slices.DeleteFunc": true, "slices.Replace": true,
	"slices.Compact": true, "slices.CompactFunc": true, "fmt.Print": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Scan": true}

func pureExternal(fn *ssa.Function) bool {
	var pk *types.Package
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		pk = o.Pkg()
	}
	if pk == nil || !purePkgs[pk.Path()] || impure[pk.Path()+"."+fn.Name()] || fn.Origin() != nil && impure[fn.Origin().String()] {
		return false
	}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		switch sig.Params().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Chan, *types.Map:
			return false
		}
	}
	if r := sig.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			return false
		}
	}
	if sig.Results().Len() == 0 {
		return false
	}
	return true
}

// applySpec calls a contract function: inlined, or left as an application when recursive or opaque.
func (x *Exec) applySpec(st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
	if P.opaque[fn] && !x.open[fn.Name()] || P.recursive[fn] {
		var ts []*Term
		for _, a := range args {
			t := st.facts.simp(x.res(st, a, pos))
			if !isIfaceSpec(fn) {
				t = st.facts.unboxed(t)
			}
			ts = append(ts, t)
		}
		unfold := false
		if P.recursive[fn] && isIfaceSpec(fn) && ts[0].op == OBox {
			unfold = true
		}
		if isIfaceSpec(fn) && ts[0].op == OIte && hasBox(ts[0]) {
			return x.fork(st, ts[0].args[0],
				func(s *State) ([]Value, *State) { return x.applySpec(s, fn, []Value{ts[0].args[1]}, pos) },
				func(s *State) ([]Value, *State) { return x.applySpec(s, fn, []Value{ts[0].args[2]}, pos) })
		}
		if !unfold {
			appFns[specName(fn)] = fn
			if P.mayPanic[fn] && !neverPanics(fn, ts) {
				if !x.exit(st, mkApp("pan:"+specName(fn), BoolS, ts...), "lib", pos, specName(fn)) {
					return nil, nil
				}
			}
			var out []Value
			for k := 0; k < fn.Signature.Results().Len(); k++ {
				n := specName(fn)
				if k > 0 {
					n += fmt.Sprintf(":%d", k)
				}
				out = append(out, st.facts.simp(mkApp(n, sortOf(fn.Signature.Results().At(k).Type()), ts...)))
			}
			return out, st
		}
		vs := make([]Value, len(ts))
		for i, t := range ts {
			vs[i] = t
		}
		args = vs
	}
	return x.runBody(st, fn, args, nil, pos)
}

// neverPanics: the dynamic types of the arguments decide that the function does not panic.
func neverPanics(fn *ssa.Function, ts []*Term) bool {
	if !P.opaque[fn] {
		return false
	}
	for _, t := range ts {
		if t.op == OBox {
			_, pan := unfoldOr(fn, ts)
			return pan == False
		}
	}
	return false
}

// unfoldOr is unfold, with no answer for impossible arguments.
func unfoldOr(fn *ssa.Function, ts []*Term) (v, pan *Term) {
	defer func() {
		if recover() != nil {
			v, pan = nil, nil
		}
	}()
	return unfold(fn, ts)
}

var appFns = map[string]*ssa.Function{}

func isIfaceSpec(fn *ssa.Function) bool {
	for _, s := range P.ifaceSpec {
		if s == fn {
			return true
		}
	}
	return false
}

// applyContract replaces a call by the contract of the callee.
func (x *Exec) applyContract(st *State, c *Contract, args []Value, pos token.Pos) ([]Value, *State) {
	x.deps[c] = true
	switch c.kind {
	case "writer":
		var sargs []Value
		for _, a := range args[:len(args)-1] {
			sargs = append(sargs, x.specArg(st, a, pos))
		}
		x.calls(st, c.name, x.given(st, sargs, pos), pos)
		vals, ns := x.applySpec(st, c.spec, sargs, pos)
		if ns == nil {
			return nil, nil
		}
		return nil, x.emit(ns, args[len(args)-1], x.asTerm(vals[0], pos), pos)
	case "func":
		var sargs []Value
		recvRef := -1
		guard := False // the path condition, where the soundness of the representation depends on it
		for i, a := range args {
			if i == 0 && c.target.Signature.Recv() != nil && isPtr(c.target.Signature.Recv().Type()) {
				d, ok := x.deref(st, a, pos)
				if !ok {
					x.fail(pos, "method call through symbolic pointer")
				}
				pv := d.(PtrV)
				recvRef = 0
				v := x.res(st, x.load(st, pv, pos), pos)
				if !x.repHolds(st, v, pos) {
					x.fail(pos, "call of %s on a %s whose representation is not shown to be sound", c.name, v.sort.name)
				}
				if _, ok := x.rep(st, v, pos); ok != nil && !among(ok, st.inv) {
					guard = mkNot(mkAnd(st.pc...))
				}
				sargs = append(sargs, v)
				continue
			}
			sa := x.specArg(st, a, pos)
			if t, ok := sa.(*Term); ok && P.reps[t.sort] != nil && !hasPtr(t.sort) && !x.repHolds(st, t, pos) {
				x.fail(pos, "call of %s with a %s whose representation is not shown to be sound", c.name, t.sort.name)
			}
			sargs = append(sargs, sa)
		}
		x.calls(st, c.name, x.given(st, sargs, pos), pos)
		vals, ns := x.applySpec(st, c.spec, sargs, pos)
		if ns == nil {
			return nil, nil
		}
		if recvRef == 0 && !c.byValue {
			nv := x.asTerm(vals[0], pos)
			x.assign(ns, args[0], nv, pos)
			vals = vals[1:]
			if _, ok := x.rep(ns, nv, pos); ok != nil { // the callee keeps its representation sound
				ns.invariant(mkOr(guard, ok))
			}
		}
		for i, v := range vals {
			if t, ok := v.(*Term); ok {
				vals[i] = x.refify(ns, t)
			}
		}
		return vals, ns
	}
	if c.kind == "symbol" { // a deterministic function of its arguments
		var ts []*Term
		for _, a := range args {
			ts = append(ts, st.facts.simp(x.res(st, a, pos)))
		}
		if !x.exit(st, mkApp("pan:"+c.name, BoolS, ts...), "lib", pos, c.name) {
			return nil, nil
		}
		var out []Value
		for k := 0; k < c.target.Signature.Results().Len(); k++ {
			out = append(out, x.refify(st, mkApp(fmt.Sprintf("sym:%s:%d", c.name, k), sortOf(c.target.Signature.Results().At(k).Type()), ts...)))
		}
		return out, st
	}
	x.fail(pos, "contract kind %s at a call", c.kind)
	return nil, nil
}

// among: every conjunct of t is one of the terms.
func among(t *Term, ts []*Term) bool {
	if t == True {
		return true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !among(a, ts) {
				return false
			}
		}
		return true
	}
	for _, o := range ts {
		if o == t || o.op == OAnd && among(t, o.args) {
			return true
		}
	}
	return false
}

// rep computes what the representation invariant of a type makes of a value.
func (x *Exec) rep(st *State, v *Term, pos token.Pos) (*Term, *Term) {
	fn := P.reps[v.sort]
	if fn == nil {
		return nil, nil
	}
	mark := len(x.exits)
	vals, ns := x.runBody(st, fn, []Value{v}, nil, pos)
	x.exits = x.exits[:mark]
	return st.facts.simp(x.res(ns, vals[0], pos)), x.asTerm(vals[1], pos)
}

func (x *Exec) repHolds(st *State, v *Term, pos token.Pos) bool {
	w, ok := x.rep(st, v, pos)
	if w == nil {
		return true
	}
	x.obls++
	if st.facts.simp(ok) != True && (x.proveEq == nil || !x.proveEq(st, ok, True)) {
		return false
	}
	for i := range v.sort.fields {
		a, b := st.facts.simp(mkSel(i, v)), mkSel(i, w)
		if a.sort.kind == SPtr {
			continue // the part the others are determined by
		}
		if a != b && (x.proveEq == nil || !x.proveEq(st, a, b)) {
			return false
		}
	}
	return true
}

// assign stores a pure value into a cell, keeping the identity of the map cells it holds.
func (x *Exec) assign(st *State, p Value, v *Term, pos token.Pos) {
	old := x.load(st, p, pos)
	x.store(st, p, x.keepRefs(st, old, v), pos)
}

func (x *Exec) keepRefs(st *State, old, v *Term) *Term {
	if old.op == ORef && (old.sort.kind == SMap) {
		st.heap[old.idx] = v
		return old
	}
	if old.op == ORef && old.sort.kind == SPtr && v.op == OMkPtr {
		st.heap[old.idx] = x.keepRefs(st, st.heap[old.idx], v.args[0])
		return old
	}
	if old.sort.kind == SStruct && old.op == OMk && len(old.sort.fields) > 0 {
		fs := make([]*Term, len(old.args))
		for i := range fs {
			fs[i] = x.keepRefs(st, old.args[i], mkSel(i, v))
		}
		return mkMk(old.sort, fs)
	}
	return v
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (x *Exec) specArg(st *State, a Value, pos token.Pos) Value {
	switch v := a.(type) {
	case *Closure:
		return v
	}
	return x.res(st, a, pos)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// resolveMap is the content of a map given by value.
func resolveMap(t *Term, heap map[int]*Term) *Term {
	if !t.hasRef {
		return t
	}
	return resolve(t, heap)
}
