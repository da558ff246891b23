package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Frame conditions. For every function of the library: each store, map update, append, copy, sort and call
// changes only memory the call itself allocated, or memory its frame clause lets it change:
//
//   - a method with a pointer receiver may change what the receiver holds,
//   - a types.Context and an io.Reader argument may be written to and read from,
//   - an unexported function may change what its parameters hold (its callers answer for that),
//   - nothing else, and no package-level variable at all after initialisation.
//
// Appending to a slice that is not clipped changes the memory behind it. Ownership is inferred by an abstract
// interpretation over go/ssa (field and flow sensitive, one abstract object per allocation, older instances of
// one apart), modular over the call graph: a call is judged by the summary of the callee.

// ---- abstract objects and values ----

type fobj struct {
	kind  int // fSite fOld fParam fGlobal fExt
	site  ssa.Value
	sub   int // result index of a call site
	idx   int // parameter
	level int // 0 directly referenced by the parameter, 1 by what that holds, and so on
	glob  *ssa.Global
	typ   types.Type // content type when known
}

const (
	fSite = iota
	fOld
	fParam
	fGlobal
	fFresh // in summaries: memory the callee allocated
)

func (o *fobj) String() string {
	switch o.kind {
	case fSite:
		return "new@" + P.posStr(o.site.Pos())
	case fOld:
		return "earlier@" + P.posStr(o.site.Pos())
	case fParam:
		return fmt.Sprintf("arg%d%s", o.idx, strings.Repeat("*", o.level))
	case fGlobal:
		return "global " + o.glob.String() + strings.Repeat("*", o.level)
	}
	return "fresh"
}

// floc is a reference into an object; path names the part, flags say what is known of a slice header.
type floc struct {
	o    *fobj
	path string
}

const (
	fClip = 1 // capacity equals length
	fSub  = 2 // part of the slice only
	fUsed = 4 // an append through another header went into the spare capacity
)

// fval abstracts a value: the references it holds, by field.
type fval struct {
	locs map[floc]int
	f    []*fval // struct fields
}

var fnone = &fval{}

func flat(t types.Type) bool { // no references inside
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !flat(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return flat(u.Elem())
	}
	return false
}

// spread makes a value of type t all of whose references may be one of locs.
func spread(locs map[floc]int, t types.Type) *fval {
	if len(locs) == 0 || flat(t) {
		return fnone
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &fval{f: make([]*fval, u.NumFields())}
		for i := range v.f {
			v.f[i] = spread(locs, u.Field(i).Type())
		}
		return v
	case *types.Array:
		return spread(locs, u.Elem())
	}
	return &fval{locs: locs}
}

// flatten collects the references of a value.
func (v *fval) flatten() map[floc]int {
	out := map[floc]int{}
	v.walk(func(l floc, fl int) { addLoc(out, l, fl) })
	return out
}

func addLoc(m map[floc]int, l floc, fl int) bool {
	if old, ok := m[l]; ok {
		n := old&fl&fClip | (old|fl)&(fSub|fUsed)
		if n == old {
			return false
		}
		m[l] = n
		return true
	}
	m[l] = fl
	return true
}

func (v *fval) walk(f func(floc, int)) {
	if v == nil {
		return
	}
	for l, fl := range v.locs {
		f(l, fl)
	}
	for _, x := range v.f {
		x.walk(f)
	}
}

func (v *fval) equal(w *fval) bool {
	if v == w {
		return true
	}
	if len(v.locs) != len(w.locs) || len(v.f) != len(w.f) {
		return false
	}
	for l, fl := range v.locs {
		if g, ok := w.locs[l]; !ok || g != fl {
			return false
		}
	}
	for i := range v.f {
		if !v.f[i].equal(w.f[i]) {
			return false
		}
	}
	return true
}

func fjoin(a, b *fval) *fval {
	if a == nil {
		a = fnone
	}
	if a == b || b == nil || len(b.locs) == 0 && len(b.f) == 0 {
		return a
	}
	if a == nil || len(a.locs) == 0 && len(a.f) == 0 {
		return b
	}
	v := &fval{}
	if len(a.f) != len(b.f) { // different shapes: keep the references only
		v.locs = a.flatten()
		b.walk(func(l floc, fl int) { addLoc(v.locs, l, fl) })
		return v
	}
	if len(a.locs)+len(b.locs) > 0 {
		v.locs = make(map[floc]int, len(a.locs)+len(b.locs))
		for l, fl := range a.locs {
			v.locs[l] = fl
		}
		for l, fl := range b.locs {
			addLoc(v.locs, l, fl)
		}
	}
	for i := range a.f {
		v.f = append(v.f, fjoin(a.f[i], b.f[i]))
	}
	if v.equal(a) {
		return a
	}
	return v
}

func (v *fval) field(i int) *fval {
	if v == nil {
		return fnone
	}
	if len(v.f) > i {
		return v.f[i]
	}
	if len(v.f) == 0 {
		return v
	}
	return fnone
}

func (v *fval) rename(m func(floc) floc) *fval {
	hit := false
	v.walk(func(l floc, _ int) {
		if m(l) != l {
			hit = true
		}
	})
	if !hit {
		return v
	}
	n := &fval{}
	if v.locs != nil {
		n.locs = map[floc]int{}
		for l, fl := range v.locs {
			addLoc(n.locs, m(l), fl)
		}
	}
	for _, x := range v.f {
		n.f = append(n.f, x.rename(m))
	}
	return n
}

// ---- state ----

type fstate struct {
	env   map[ssa.Value]*fval
	heap  map[*fobj]*fval
	spent map[*fobj]bool // an append went into the spare capacity
	alias map[*fobj]map[*fobj]bool
}

func (s *fstate) clone() *fstate {
	n := &fstate{env: make(map[ssa.Value]*fval, len(s.env)), heap: make(map[*fobj]*fval, len(s.heap)), spent: make(map[*fobj]bool, len(s.spent)), alias: map[*fobj]map[*fobj]bool{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.spent {
		n.spent[k] = v
	}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	return n
}

var dbgJoin bool

func (v *fval) str() string {
	if v == nil {
		return "nil"
	}
	r := ""
	for l, fl := range v.locs {
		r += fmt.Sprintf("%v%s:%d ", l.o, l.path, fl)
	}
	for _, x := range v.f {
		r += "{" + x.str() + "}"
	}
	return r
}

// joinIn merges o into s; it tells whether s changed.
func (s *fstate) joinIn(o *fstate) bool {
	ch := false
	for k, v := range o.env {
		w := s.env[k]
		j := fjoin(w, v)
		if w == nil || !j.equal(w) {
			if dbgJoin {
				debugf("  env %v: %v -> %v\n", k.Name(), w.str(), j.str())
			}
			s.env[k] = j
			ch = true
		}
	}
	for k, v := range o.heap {
		w := s.heap[k]
		j := fjoin(w, v)
		if w == nil || !j.equal(w) {
			if dbgJoin {
				debugf("  heap %v: %v -> %v\n", k, w.str(), j.str())
			}
			s.heap[k] = j
			ch = true
		}
	}
	for k := range o.spent {
		if !s.spent[k] {
			s.spent[k] = true
			ch = true
		}
	}
	for k, m := range o.alias {
		for a := range m {
			if !s.alias[k][a] {
				n := map[*fobj]bool{a: true}
				for b := range s.alias[k] {
					n[b] = true
				}
				s.alias[k] = n
				ch = true
			}
		}
	}
	return ch
}

// ---- summaries ----

type fkey struct {
	idx, level int // parameter object; idx -1: fresh
}

type fsum struct {
	mods    map[fkey]string            // where, for messages
	res     []map[string]map[fkey]bool // references of the results, by part; level of fresh memory tells parts apart
	fresh   map[fkey]bool              // what fresh memory refers to
	flows   map[fkey]map[fkey]bool
	globs   map[*ssa.Global]string // package variables changed (also by callees)
	globRes map[*fobj]bool         // package-level memory the results refer to
}

func newSum(n int) *fsum {
	s := &fsum{mods: map[fkey]string{}, res: make([]map[string]map[fkey]bool, n), fresh: map[fkey]bool{}, flows: map[fkey]map[fkey]bool{}, globs: map[*ssa.Global]string{}, globRes: map[*fobj]bool{}}
	for i := range s.res {
		s.res[i] = map[string]map[fkey]bool{}
	}
	return s
}

func (s *fsum) size() int {
	n := len(s.mods) + len(s.fresh) + len(s.globs)
	for _, r := range s.res {
		for _, q := range r {
			n += 1 + len(q)
		}
	}
	for _, r := range s.flows {
		n += len(r)
	}
	return n
}

type frames struct {
	sums    map[*ssa.Function]*fsum
	params  map[fkey]*fobj
	globs   map[string]*fobj
	sites   map[ssa.Value]map[int]*fobj
	olds    map[*fobj]*fobj
	funcs   []*ssa.Function
	impls   map[string][]*ssa.Function
	changed bool
	report  map[*ssa.Function]*frameReport // filled in the last round
	final   bool
}

type frameReport struct {
	fn     *ssa.Function
	sites  int
	bad    []string
	global []*ssa.Global
}

func (fr *frames) param(i, level int) *fobj {
	k := fkey{i, level}
	if fr.params[k] == nil {
		fr.params[k] = &fobj{kind: fParam, idx: i, level: level}
	}
	return fr.params[k]
}

func (fr *frames) global(g *ssa.Global, level int) *fobj {
	k := fmt.Sprintf("%s/%d", g.String(), level)
	if fr.globs[k] == nil {
		fr.globs[k] = &fobj{kind: fGlobal, glob: g, level: level}
	}
	return fr.globs[k]
}

func (fr *frames) site(v ssa.Value, sub int) *fobj {
	if fr.sites[v] == nil {
		fr.sites[v] = map[int]*fobj{}
	}
	if fr.sites[v][sub] == nil {
		fr.sites[v][sub] = &fobj{kind: fSite, site: v, sub: sub}
	}
	return fr.sites[v][sub]
}

func (fr *frames) old(o *fobj) *fobj {
	if o.kind != fSite {
		return o
	}
	if fr.olds[o] == nil {
		fr.olds[o] = &fobj{kind: fOld, site: o.site, sub: o.sub}
	}
	return fr.olds[o]
}

// ---- analysis of one function ----

type fanalysis struct {
	fr   *frames
	fn   *ssa.Function
	sum  *fsum
	rep  *frameReport
	live map[ssa.Instruction]map[ssa.Value]bool
	fix  map[string]bool // findings already reported
	rets map[int]map[string]map[*fobj]bool
	deep map[*fobj]bool // memory referred to from other memory that leaves the function
}

func nparams(fn *ssa.Function) int { return len(fn.Params) }

func (fr *frames) analyse(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	a := &fanalysis{fr: fr, fn: fn, sum: newSum(fn.Signature.Results().Len()), fix: map[string]bool{}}
	a.rep = &frameReport{fn: fn}
	st := &fstate{env: map[ssa.Value]*fval{}, heap: map[*fobj]*fval{}, spent: map[*fobj]bool{}, alias: map[*fobj]map[*fobj]bool{}}
	all := append([]ssa.Value{}, valuesOf(fn)...)
	for i, p := range all {
		o := fr.param(i, 0)
		st.env[p] = spread(map[floc]int{{o, ""}: 0}, p.Type())
		st.heap[o] = fnone
	}
	in := map[*ssa.BasicBlock]*fstate{fn.Blocks[0]: st}
	if fn.Recover != nil {
		in[fn.Recover] = st.clone()
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	queued := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	rounds := 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		queued[b] = false
		rounds++
		if rounds > 3990 {
			debugf("round %d %s block %d\n", rounds, fn, b.Index)
			dbgJoin = true
		}
		if rounds > 4000 {
			dbgJoin = false
			a.bad(fn.Pos(), "analysis of ownership does not settle")
			break
		}
		s := in[b].clone()
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Phi); ok {
				continue
			}
			a.instr(s, i)
		}
		for _, t := range b.Succs {
			n := s.clone()
			pi := 0
			for k, p := range t.Preds {
				if p == b {
					pi = k
				}
			}
			type pv struct {
				p *ssa.Phi
				v *fval
			}
			var pvs []pv
			for _, i := range t.Instrs {
				if p, ok := i.(*ssa.Phi); ok {
					pvs = append(pvs, pv{p, a.val(s, p.Edges[pi])})
				}
			}
			for _, x := range pvs {
				n.env[x.p] = x.v
			}
			ch := false
			if in[t] == nil {
				in[t] = n
				ch = true
			} else {
				ch = in[t].joinIn(n)
			}
			if ch && !queued[t] {
				queued[t] = true
				work = append(work, t)
			}
		}
	}
	a.close()
	// count the places that change memory
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Store, *ssa.MapUpdate, ssa.CallInstruction:
				a.rep.sites++
			}
		}
	}
	old := fr.sums[fn]
	if old == nil || old.size() != a.sum.size() {
		fr.changed = true
	}
	fr.sums[fn] = a.sum
	if fr.final {
		sort.Strings(a.rep.bad)
		fr.report[fn] = a.rep
	}
}

// valuesOf are the parameters and, of a closure, what it captures.
func valuesOf(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, p := range fn.Params {
		out = append(out, p)
	}
	for _, f := range fn.FreeVars {
		out = append(out, f)
	}
	return out
}

func (a *fanalysis) bad(pos token.Pos, f string, args ...interface{}) {
	m := P.posStr(pos) + ": " + fmt.Sprintf(f, args...)
	if !a.fix[m] {
		a.fix[m] = true
		a.rep.bad = append(a.rep.bad, m)
	}
}

func (a *fanalysis) val(s *fstate, v ssa.Value) *fval {
	switch g := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return fnone
	case *ssa.Global:
		return &fval{locs: map[floc]int{{a.fr.global(g, 0), ""}: 0}}
	}
	if x := s.env[v]; x != nil {
		return x
	}
	return fnone
}

// content of an object at a path, as a value of type t.
func (a *fanalysis) content(s *fstate, l floc, t types.Type) *fval {
	o := l.o
	switch o.kind {
	case fGlobal:
		return spread(map[floc]int{{a.fr.global(o.glob, min2(o.level+1)), ""}: 0}, t)
	}
	c := s.heap[o]
	if c == nil && o.kind == fParam {
		c = fnone
	}
	if c != nil {
		for _, p := range splitPath(l.path) {
			c = c.field(p)
		}
	} else {
		c = fnone
	}
	if o.kind == fParam && !o.definite(l.path, s) {
		lv := min2(o.level + 1)
		c = fjoin(c, spread(map[floc]int{{a.fr.param(o.idx, lv), ""}: 0}, t))
	}
	return shape(c, t)
}

// maxLevel is how deep the memory of a parameter is told apart; the last level includes all below it.
const maxLevel = 3

func min2(n int) int {
	if n > maxLevel {
		return maxLevel
	}
	return n
}

// shape gives a value the form its type has.
func shape(v *fval, t types.Type) *fval {
	if v == nil || flat(t) {
		return fnone
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		if len(v.f) == u.NumFields() && len(v.locs) == 0 {
			return v
		}
		if len(v.f) == 0 {
			return spread(v.locs, t)
		}
		return spread(v.flatten(), t)
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		return shape(v, u.Elem())
	}
	if len(v.f) > 0 {
		return &fval{locs: v.flatten()}
	}
	return v
}

// definite: the part of a parameter's object was overwritten in this function.
func (o *fobj) definite(path string, s *fstate) bool {
	return s.spent[defKey(o, path)]
}

var defKeys = map[string]*fobj{}

// defKey stands for "this part of the parameter's object holds what the function stored".
func defKey(o *fobj, path string) *fobj {
	k := fmt.Sprintf("%d/%d/%s", o.idx, o.level, path)
	if defKeys[k] == nil {
		defKeys[k] = &fobj{kind: fFresh, idx: o.idx, level: -1}
	}
	return defKeys[k]
}

func splitPath(p string) []int {
	var out []int
	for _, x := range strings.Split(p, ".") {
		if x == "" {
			continue
		}
		n := 0
		fmt.Sscan(x, &n)
		out = append(out, n)
	}
	return out
}

func setPath(c *fval, path []int, v *fval, strong bool, n func(int) int, depth int) *fval {
	if len(path) == 0 {
		if strong {
			return v
		}
		return fjoin(c, v)
	}
	if c == nil {
		c = fnone
	}
	k := path[0]
	r := &fval{}
	w := len(c.f)
	if w <= k {
		w = k + 1
		if m := n(depth); m > w {
			w = m
		}
	}
	r.f = make([]*fval, w)
	for i := range r.f {
		r.f[i] = c.field(i)
		if r.f[i] == nil {
			r.f[i] = fnone
		}
	}
	r.f[k] = setPath(r.f[k], path[1:], v, strong, n, depth+1)
	return r
}

// mod records a change of memory.
func (a *fanalysis) mod(s *fstate, l floc, pos token.Pos, what string) {
	switch l.o.kind {
	case fParam:
		k := fkey{l.o.idx, l.o.level}
		if _, ok := a.sum.mods[k]; !ok {
			a.sum.mods[k] = P.posStr(pos) + ": " + what
		}
	case fGlobal:
		if _, ok := a.sum.globs[l.o.glob]; !ok {
			a.sum.globs[l.o.glob] = P.posStr(pos) + ": " + what
		}
		a.rep.global = append(a.rep.global, l.o.glob)
		if a.fn.Name() != "init" || a.fn.Synthetic == "" {
			a.bad(pos, "%s changes package-level memory (%s)", what, l.o)
		}
	}
}

// elemMod is a change of elements behind slice headers: other headers of the same memory must be dead.
func (a *fanalysis) elemMod(s *fstate, v *fval, at ssa.Instruction, what string) {
	// the slice itself may be one of several headers that an append left
	self := map[ssa.Value]bool{}
	var cell map[floc]int
	var of ssa.Value
	switch i := at.(type) {
	case *ssa.Store:
		if ix, ok := i.Addr.(*ssa.IndexAddr); ok {
			of = ix.X
		}
	case ssa.CallInstruction:
		if c := i.Common(); len(c.Args) > 0 && !c.IsInvoke() {
			of = c.Args[0]
		}
	}
	for of != nil {
		self[of] = true
		if m, ok := of.(*ssa.MakeInterface); ok {
			of = m.X
			continue
		}
		if u, ok := of.(*ssa.UnOp); ok && isAlloc(u.X) && s.env[u.X] != nil && len(s.env[u.X].locs) == 1 {
			cell = s.env[u.X].locs
		}
		break
	}
	for l := range v.locs {
		a.mod(s, l, at.Pos(), what)
		if l.o.kind != fSite && l.o.kind != fOld {
			continue
		}
		grp := map[*fobj]bool{}
		for x := range s.alias[l.o] {
			grp[x] = true
		}
		subs := false
		check := func(w *fval, self bool) {
			w.walk(func(m floc, fl int) {
				if grp[m.o] && m.o != l.o && !self || m.o == l.o && fl&fSub != 0 {
					subs = true
				}
			})
		}
		lv := a.liveAt(at)
		for x, w := range s.env {
			if lv[x] {
				check(w, self[x])
			}
		}
		for o, w := range s.heap {
			if w != nil {
				_, held := cell[floc{o, ""}]
				check(w, held && isAlloc(o.site))
			}
		}
		if subs {
			a.bad(at.Pos(), "%s changes memory another slice still refers to", what)
		}
	}
}

// liveAt are the values used at or after an instruction.
func (a *fanalysis) liveAt(at ssa.Instruction) map[ssa.Value]bool {
	if a.live == nil {
		a.live = liveness(a.fn)
	}
	return a.live[at]
}

func liveness(fn *ssa.Function) map[ssa.Instruction]map[ssa.Value]bool {
	out := map[ssa.Instruction]map[ssa.Value]bool{}
	liveIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for again := true; again; {
		again = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[ssa.Value]bool{}
			for _, t := range b.Succs {
				for v := range liveIn[t] {
					cur[v] = true
				}
				pi := 0
				for k, p := range t.Preds {
					if p == b {
						pi = k
					}
				}
				for _, i := range t.Instrs {
					if p, ok := i.(*ssa.Phi); ok {
						delete(cur, p)
						cur[p.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				after := make(map[ssa.Value]bool, len(cur))
				for v := range cur {
					after[v] = true
				}
				out[i] = after // live after the instruction
				if v, ok := i.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				var buf [8]*ssa.Value
				for _, o := range i.Operands(buf[:0]) {
					if *o != nil {
						cur[*o] = true
					}
				}
			}
			if len(cur) != len(liveIn[b]) {
				liveIn[b] = cur
				again = true
			}
		}
	}
	return out
}

// define makes the object of an allocation anew: references to an earlier one become references to "old".
func (a *fanalysis) define(s *fstate, o *fobj) {
	if _, ok := s.heap[o]; !ok {
		return
	}
	od := a.fr.old(o)
	m := func(l floc) floc {
		if l.o == o {
			return floc{od, l.path}
		}
		return l
	}
	for k, v := range s.env {
		s.env[k] = v.rename(m)
	}
	for k, v := range s.heap {
		if v != nil {
			s.heap[k] = v.rename(m)
		}
	}
	s.heap[od] = fjoin(s.heap[od], s.heap[o])
	if s.heap[od] == nil {
		s.heap[od] = fnone
	}
	delete(s.heap, o)
	for k, g := range s.alias {
		if g[o] {
			n := map[*fobj]bool{od: true}
			for x := range g {
				if x != o {
					n[x] = true
				}
			}
			s.alias[k] = n
		}
	}
	if g := s.alias[o]; g != nil {
		n := map[*fobj]bool{}
		for x := range s.alias[od] {
			n[x] = true
		}
		for x := range g {
			n[x] = true
		}
		s.alias[od] = n
		delete(s.alias, o)
	}
}

// mark notes in every reference to o that its spare capacity is taken.
func (s *fstate) mark(o *fobj) {
	f := func(v *fval) *fval { return v.flag(o) }
	for k, v := range s.env {
		s.env[k] = f(v)
	}
	for k, v := range s.heap {
		s.heap[k] = f(v)
	}
}

func (v *fval) flag(o *fobj) *fval {
	hit := false
	v.walk(func(l floc, fl int) {
		if l.o == o && fl&(fUsed|fClip) == 0 {
			hit = true
		}
	})
	if !hit {
		return v
	}
	n := &fval{}
	if v.locs != nil {
		n.locs = map[floc]int{}
		for l, fl := range v.locs {
			if l.o == o && fl&fClip == 0 {
				fl |= fUsed
			}
			n.locs[l] = fl
		}
	}
	for _, x := range v.f {
		n.f = append(n.f, x.flag(o))
	}
	return n
}

func (a *fanalysis) alloc(s *fstate, v ssa.Value, sub int) *fobj {
	o := a.fr.site(v, sub)
	a.define(s, o)
	s.heap[o] = fnone
	return o
}

// load through an address value.
func (a *fanalysis) load(s *fstate, p *fval, t types.Type) *fval {
	r := fnone
	for l := range p.locs {
		r = fjoin(r, a.content(s, l, t))
	}
	return shape(r, t)
}

func (a *fanalysis) store(s *fstate, p *fval, v *fval, t types.Type, pos token.Pos, what string) {
	strong := len(p.locs) == 1
	for l := range p.locs {
		a.mod(s, l, pos, what)
		a.put(s, l, v, t, strong)
	}
}

// put writes v at a location.
func (a *fanalysis) put(s *fstate, l floc, v *fval, t types.Type, strong bool) {
	o := l.o
	if o.kind == fGlobal {
		return
	}
	st := strong && !strings.Contains(l.path, "[]") && (o.kind == fSite && isAlloc(o.site) || o.kind == fParam && o.level == 0)
	path := splitPath(strings.ReplaceAll(l.path, "[]", ""))
	c := s.heap[o]
	if c == nil {
		c = fnone
	}
	s.heap[o] = setPath(c, path, shape(v, t), st, func(int) int { return 0 }, 0)
	if o.kind == fParam {
		if st {
			s.spent[defKey(o, l.path)] = true
		}
		k := fkey{o.idx, o.level}
		a.flow(k, s, v)
	}
}

func isAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func keyOf(l floc) (fkey, bool) {
	switch l.o.kind {
	case fParam:
		return fkey{l.o.idx, l.o.level}, true
	case fSite, fOld:
		return fkey{-1, 0}, true
	}
	return fkey{}, false
}

// flow notes what memory of a parameter refers to from now on.
func (a *fanalysis) flow(k fkey, s *fstate, v *fval) {
	if a.sum.flows[k] == nil {
		a.sum.flows[k] = map[fkey]bool{}
	}
	v.walk(func(l floc, _ int) {
		if q, ok := keyOf(l); ok {
			a.sum.flows[k][q] = true
			if q.idx == -1 {
				a.freshRefs(s, l.o, map[*fobj]bool{})
				a.deep[l.o] = true
			}
		}
	})
}

// freshRefs notes what memory allocated here refers to.
func (a *fanalysis) freshRefs(s *fstate, o *fobj, seen map[*fobj]bool) {
	if seen[o] {
		return
	}
	seen[o] = true
	if a.deep == nil {
		a.deep = map[*fobj]bool{}
	}
	if c := s.heap[o]; c != nil {
		c.walk(func(l floc, _ int) {
			a.deep[l.o] = true
			if q, ok := keyOf(l); ok {
				a.sum.fresh[q] = true
				if q.idx == -1 {
					a.freshRefs(s, l.o, seen)
				}
			}
			if l.o.kind == fGlobal {
				a.sum.fresh[fkey{-2, 0}] = true
			}
		})
	}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return t
}

func (a *fanalysis) instr(s *fstate, in ssa.Instruction) {
	set := func(v ssa.Value, x *fval) {
		if x == nil {
			x = fnone
		}
		s.env[v] = x
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		o := a.alloc(s, i, 0)
		set(i, &fval{locs: map[floc]int{{o, ""}: 0}})
	case *ssa.MakeSlice:
		o := a.alloc(s, i, 0)
		set(i, &fval{locs: map[floc]int{{o, ""}: 0}})
	case *ssa.MakeMap:
		o := a.alloc(s, i, 0)
		set(i, &fval{locs: map[floc]int{{o, ""}: 0}})
	case *ssa.MakeChan:
		o := a.alloc(s, i, 0)
		set(i, &fval{locs: map[floc]int{{o, ""}: 0}})
	case *ssa.MakeClosure:
		locs := map[floc]int{}
		for _, b := range i.Bindings {
			a.val(s, b).walk(func(l floc, fl int) { addLoc(locs, l, fl) })
		}
		o := a.alloc(s, i, 0)
		s.heap[o] = &fval{locs: locs}
		set(i, &fval{locs: map[floc]int{{o, ""}: 0}})
		// whatever it changes of what it captured may change from now on
		fn := i.Fn.(*ssa.Function)
		if sum := a.fr.sums[fn]; sum != nil {
			np := nparams(fn)
			args := make([]*fval, np+len(i.Bindings))
			for k := range args {
				args[k] = fnone
				if k >= np {
					args[k] = a.val(s, i.Bindings[k-np])
				}
			}
			a.apply(s, sum, args, nil, i, fn.String())
		}
	case *ssa.MakeInterface:
		set(i, &fval{locs: a.val(s, i.X).flatten()})
	case *ssa.ChangeInterface:
		set(i, a.val(s, i.X))
	case *ssa.ChangeType:
		set(i, shape(a.val(s, i.X), i.Type()))
	case *ssa.Convert:
		if flat(i.Type()) {
			set(i, fnone)
		} else if flat(i.X.Type()) {
			o := a.alloc(s, i, 0)
			set(i, &fval{locs: map[floc]int{{o, ""}: 0}})
		} else {
			set(i, shape(a.val(s, i.X), i.Type()))
		}
	case *ssa.SliceToArrayPointer:
		set(i, a.val(s, i.X))
	case *ssa.UnOp:
		if i.Op == token.MUL {
			set(i, a.load(s, a.val(s, i.X), i.Type()))
		} else {
			set(i, fnone)
		}
	case *ssa.BinOp:
		set(i, fnone)
	case *ssa.Field:
		set(i, a.val(s, i.X).field(i.Field))
	case *ssa.FieldAddr:
		locs := map[floc]int{}
		for l := range a.val(s, i.X).locs {
			locs[floc{l.o, l.path + fmt.Sprintf(".%d", i.Field)}] = 0
		}
		set(i, &fval{locs: locs})
	case *ssa.IndexAddr:
		locs := map[floc]int{}
		_, ptr := i.X.Type().Underlying().(*types.Pointer)
		for l := range a.val(s, i.X).locs {
			p := l.path
			if !ptr {
				p = l.path
			}
			locs[floc{l.o, p + "[]"}] = 0
		}
		set(i, &fval{locs: locs})
	case *ssa.Index:
		set(i, shape(a.val(s, i.X), i.Type()))
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			set(i, fnone)
			break
		}
		et := i.X.Type().Underlying().(*types.Map).Elem()
		v := a.load(s, a.val(s, i.X), et)
		if i.CommaOk {
			set(i, &fval{f: []*fval{v, fnone}})
		} else {
			set(i, v)
		}
	case *ssa.Range:
		set(i, a.val(s, i.X))
	case *ssa.Next:
		if i.IsString {
			set(i, fnone)
			break
		}
		rg := i.Iter.(*ssa.Range)
		m := rg.X.Type().Underlying().(*types.Map)
		locs := map[floc]int{}
		for l := range a.val(s, i.Iter).locs {
			a.content(s, l, m).walk(func(x floc, fl int) { addLoc(locs, x, fl) })
		}
		set(i, &fval{f: []*fval{fnone, spread(locs, m.Key()), spread(locs, m.Elem())}})
	case *ssa.Extract:
		set(i, shape(a.val(s, i.Tuple).field(i.Index), i.Type()))
	case *ssa.TypeAssert:
		v := a.val(s, i.X)
		r := shape(&fval{locs: v.flatten()}, i.AssertedType)
		if i.CommaOk {
			r = &fval{f: []*fval{r, fnone}}
		}
		set(i, r)
	case *ssa.Slice:
		v := a.val(s, i.X)
		if flat(i.Type()) {
			set(i, fnone)
			break
		}
		fl := 0
		if i.Max != nil && i.High != nil && sameSSA(i.Max, i.High) {
			fl |= fClip
		}
		whole := (i.Low == nil || isZero(i.Low)) && (i.High == nil || isLenOf(i.High, i.X))
		if !whole {
			fl |= fSub
		}
		if i.Max == nil && whole {
			if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
				fl |= fClip // the whole of an array
			}
		}
		if al, ok := i.X.(*ssa.Alloc); ok && al.Comment == "makeslice" { // make with constant length and capacity
			fl &^= fSub
		}
		locs := map[floc]int{}
		for l, old := range v.locs {
			f := fl
			if i.Max == nil && whole {
				f |= old & fClip
			}
			if i.Max == nil && i.High == nil {
				f |= old & fClip
			}
			locs[l] = f | old&(fSub|fUsed)
		}
		set(i, &fval{locs: locs})
	case *ssa.Store:
		p := a.val(s, i.Addr)
		a.store(s, p, a.val(s, i.Val), i.Val.Type(), i.Pos(), "store")
		if ix, ok := i.Addr.(*ssa.IndexAddr); ok {
			if _, ptr := ix.X.Type().Underlying().(*types.Pointer); !ptr {
				a.elemMod(s, a.val(s, ix.X), i, "store to an element")
			}
		}
	case *ssa.MapUpdate:
		m := a.val(s, i.Map)
		v := fjoin(&fval{locs: a.val(s, i.Key).flatten()}, &fval{locs: a.val(s, i.Value).flatten()})
		for l := range m.locs {
			a.mod(s, l, i.Pos(), "map update")
			a.put(s, floc{l.o, l.path}, v, types.NewInterfaceType(nil, nil), false)
		}
	case *ssa.Send:
		a.bad(i.Pos(), "channel operation")
	case *ssa.Go:
		a.bad(i.Pos(), "goroutine started")
	case *ssa.Select:
		a.bad(i.Pos(), "select")
	case *ssa.Call:
		set(i, a.call(s, i.Common(), i, i))
	case *ssa.Defer:
		a.call(s, i.Common(), i, nil)
	case *ssa.Return:
		for k, r := range i.Results {
			a.ret(s, k, "", a.val(s, r))
		}
	}
}

// ret notes the references of a part of a result.
func (a *fanalysis) ret(s *fstate, k int, path string, v *fval) {
	if a.rets == nil {
		a.rets = map[int]map[string]map[*fobj]bool{}
		a.deep = map[*fobj]bool{}
	}
	if a.rets[k] == nil {
		a.rets[k] = map[string]map[*fobj]bool{}
	}
	if a.rets[k][path] == nil {
		a.rets[k][path] = map[*fobj]bool{}
	}
	for l := range v.locs {
		a.rets[k][path][l.o] = true
		if l.o.kind == fSite || l.o.kind == fOld {
			a.freshRefs(s, l.o, map[*fobj]bool{})
		}
	}
	for i, x := range v.f {
		a.ret(s, k, fmt.Sprintf("%s.%d", path, i), x)
	}
}

// close fills in the results: fresh memory only one part of one result refers to gets a name of its own.
func (a *fanalysis) close() {
	n := map[*fobj]int{}
	for _, r := range a.rets {
		for _, os := range r {
			for o := range os {
				n[o]++
			}
		}
	}
	for k, r := range a.rets {
		for path, os := range r {
			m := map[fkey]bool{}
			for o := range os {
				switch o.kind {
				case fParam:
					m[fkey{o.idx, o.level}] = true
				case fGlobal:
					m[fkey{-2, o.level}] = true
					a.sum.globRes[o] = true
				case fSite, fOld:
					if n[o] > 1 || a.deep[o] || path == "" {
						m[fkey{-1, 0}] = true
					} else {
						m[fkey{-1, pathID(path)}] = true
					}
				}
			}
			a.sum.res[k][path] = m
		}
	}
}

var pathIDs = map[string]int{}

func pathID(p string) int {
	if pathIDs[p] == 0 {
		pathIDs[p] = len(pathIDs) + 1
	}
	return pathIDs[p]
}

func sameSSA(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && ca.Value != nil && cb.Value != nil {
		return ca.Value.ExactString() == cb.Value.ExactString()
	}
	// len(x) twice
	la, lb := lenArg(a), lenArg(b)
	return la != nil && lb != nil && sameLoad(la, lb)
}

func lenArg(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// sameLoad: the same value, or two loads of one address (nothing is stored in between within an expression).
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.Block() == y.Block() && sameAddr(x.X, y.X) {
		return noStoreBetween(x, y)
	}
	fx, ok1 := a.(*ssa.Field)
	fy, ok2 := b.(*ssa.Field)
	return ok1 && ok2 && fx.Field == fy.Field && sameLoad(fx.X, fy.X)
}

func noStoreBetween(x, y ssa.Instruction) bool {
	in := false
	for _, i := range x.Block().Instrs {
		if i == x || i == y {
			if in {
				return true
			}
			in = true
			continue
		}
		if in {
			switch c := i.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				return false
			case *ssa.Call:
				if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

func isLenOf(n, s ssa.Value) bool {
	l := lenArg(n)
	return l != nil && sameLoad(l, s)
}

// reach collects the objects a value leads to, by level.
func (a *fanalysis) reach(s *fstate, v *fval) [maxLevel + 1]map[floc]bool {
	var out [maxLevel + 1]map[floc]bool
	for i := range out {
		out[i] = map[floc]bool{}
	}
	v.walk(func(l floc, _ int) { out[0][l] = true })
	next := func(ls map[floc]bool) map[floc]bool {
		r := map[floc]bool{}
		for l := range ls {
			switch l.o.kind {
			case fGlobal:
				r[floc{a.fr.global(l.o.glob, min2(l.o.level+1)), ""}] = true
				continue
			case fParam:
				lv := min2(l.o.level + 1)
				r[floc{a.fr.param(l.o.idx, lv), ""}] = true
			}
			c := s.heap[l.o]
			if c == nil {
				continue
			}
			for _, p := range splitPath(strings.ReplaceAll(l.path, "[]", "")) {
				c = c.field(p)
			}
			c.walk(func(x floc, _ int) { r[x] = true })
		}
		return r
	}
	for k := 1; k < maxLevel; k++ {
		out[k] = next(out[k-1])
	}
	cur := next(out[maxLevel-1])
	for l := range cur {
		out[maxLevel][l] = true
	}
	for k := 0; k < 50; k++ {
		n := next(cur)
		grew := false
		for l := range n {
			if !out[maxLevel][l] {
				out[maxLevel][l] = true
				grew = true
			}
		}
		if !grew {
			break
		}
		cur = n
	}
	return out
}

// apply judges a call by the summary of the callee.
func (a *fanalysis) apply(s *fstate, sum *fsum, args []*fval, res ssa.Value, at ssa.Instruction, name string) *fval {
	rs := make([][maxLevel + 1]map[floc]bool, len(args))
	for i, v := range args {
		rs[i] = a.reach(s, v)
	}
	locsOf := func(k fkey) map[floc]bool {
		if k.idx >= 0 && k.idx < len(rs) {
			return rs[k.idx][k.level]
		}
		return nil
	}
	for k := range sum.mods {
		for l := range locsOf(k) {
			a.mod(s, l, at.Pos(), "call of "+short(name))
			// a change through another name of memory that slices here share
		}
	}
	for g := range sum.globs {
		a.sum.globs[g] = P.posStr(at.Pos()) + ": call of " + short(name)
	}
	// memory the callee allocated
	subs := map[int]bool{}
	if len(sum.fresh) > 0 {
		subs[0] = true
	}
	for _, r := range sum.res {
		for _, q := range r {
			for k := range q {
				if k.idx == -1 {
					subs[k.level] = true
				}
			}
		}
	}
	for _, r := range sum.flows {
		for k := range r {
			if k.idx == -1 {
				subs[0] = true
			}
		}
	}
	if _, isMk := at.(*ssa.MakeClosure); isMk {
		subs = nil
	}
	cs := map[int]*fobj{}
	var ids []int
	for k := range subs {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		if cv, ok := at.(ssa.Value); ok {
			cs[k] = a.alloc(s, cv, k)
		} else if d, ok := at.(*ssa.Defer); ok {
			cs[k] = a.fr.site(deferKey(d), k)
			s.heap[cs[k]] = fnone
		}
	}
	if len(ids) > 0 {
		// the arguments and what they lead to, with older memory of this call set apart
		for i := range args {
			args[i] = args[i].rename(func(l floc) floc {
				for _, c := range cs {
					if l.o == c {
						return floc{a.fr.old(c), l.path}
					}
				}
				return l
			})
		}
		for i, v := range args {
			rs[i] = a.reach(s, v)
		}
		locs := map[floc]int{}
		for k := range sum.fresh {
			if k.idx == -1 {
				locs[floc{cs[0], ""}] = 0
			}
			for l := range locsOf(k) {
				addLoc(locs, l, 0)
			}
		}
		for o := range sum.globRes {
			_ = o
		}
		for _, c := range cs {
			s.heap[c] = &fval{locs: locs}
		}
	}
	toLocs := func(ks map[fkey]bool) map[floc]int {
		locs := map[floc]int{}
		for k := range ks {
			if k.idx == -1 {
				if c := cs[k.level]; c != nil {
					locs[floc{c, ""}] = 0
				}
				continue
			}
			if k.idx == -2 {
				for o := range sum.globRes {
					locs[floc{o, ""}] = 0
				}
				continue
			}
			for l := range locsOf(k) {
				addLoc(locs, l, 0)
			}
		}
		return locs
	}
	var parts func(r map[string]map[fkey]bool, path string, t types.Type) *fval
	parts = func(r map[string]map[fkey]bool, path string, t types.Type) *fval {
		v := spread(toLocs(r[path]), t)
		if u, ok := t.Underlying().(*types.Struct); ok && !flat(t) {
			n := &fval{}
			for i := 0; i < u.NumFields(); i++ {
				n.f = append(n.f, fjoin(v.field(i), parts(r, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type())))
			}
			return n
		}
		return v
	}
	for k, to := range sum.flows {
		v := &fval{locs: toLocs(to)}
		if len(v.locs) == 0 {
			continue
		}
		for l := range locsOf(k) {
			if l.o.kind == fGlobal {
				continue
			}
			path := splitPath(strings.ReplaceAll(l.path, "[]", ""))
			cc := s.heap[l.o]
			if cc == nil {
				cc = fnone
			}
			s.heap[l.o] = mergeAt(cc, path, v)
			if l.o.kind == fParam {
				a.flow(fkey{l.o.idx, l.o.level}, s, v)
			}
		}
	}
	if res == nil {
		return fnone
	}
	sig := res.Type()
	if tup, ok := sig.(*types.Tuple); ok {
		v := &fval{}
		for k := 0; k < tup.Len(); k++ {
			v.f = append(v.f, parts(sum.res[k], "", tup.At(k).Type()))
		}
		return v
	}
	if len(sum.res) == 0 {
		return fnone
	}
	return parts(sum.res[0], "", sig)
}

var deferKeys = map[*ssa.Defer]ssa.Value{}

func deferKey(d *ssa.Defer) ssa.Value {
	if deferKeys[d] == nil {
		deferKeys[d] = &ssa.Alloc{}
	}
	return deferKeys[d]
}

// mergeAt adds references to all parts below a path.
func mergeAt(c *fval, path []int, v *fval) *fval {
	if len(path) == 0 {
		if len(c.f) > 0 {
			n := &fval{locs: c.locs}
			for _, x := range c.f {
				n.f = append(n.f, mergeAt(x, nil, v))
			}
			return n
		}
		return fjoin(c, v)
	}
	k := path[0]
	w := len(c.f)
	if w <= k {
		w = k + 1
	}
	r := &fval{f: make([]*fval, w)}
	for i := range r.f {
		r.f[i] = c.field(i)
		if r.f[i] == nil {
			r.f[i] = fnone
		}
	}
	r.f[k] = mergeAt(r.f[k], path[1:], v)
	return r
}

func short(n string) string { return strings.ReplaceAll(n, modPath+"/", "") }

func (a *fanalysis) call(s *fstate, c *ssa.CallCommon, at ssa.Instruction, res ssa.Value) *fval {
	var args []*fval
	if c.IsInvoke() {
		args = append(args, a.val(s, c.Value))
	}
	for _, x := range c.Args {
		args = append(args, a.val(s, x))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(s, b, c, args, at, res)
	}
	if c.IsInvoke() {
		sum := a.fr.invoke(c)
		return a.apply(s, sum, args, res, at, c.Method.FullName())
	}
	callee := c.StaticCallee()
	if callee == nil { // a closure value: its effects were counted where it was made
		if res == nil {
			return fnone
		}
		locs := map[floc]int{}
		for _, v := range append(args, a.val(s, c.Value)) {
			for _, ls := range a.reach(s, v) {
				for l := range ls {
					addLoc(locs, l, 0)
				}
			}
		}
		return spreadResult(locs, res.Type())
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			args = append(args, a.val(s, b))
		}
	}
	if sum := a.fr.sums[callee]; sum != nil {
		return a.apply(s, sum, args, res, at, callee.String())
	}
	if len(callee.Blocks) > 0 && (P.inModule(callee) || isModuleWrapper(callee)) {
		return fnone // not reached yet in this round
	}
	return a.external(s, callee, c, args, at, res)
}

func spreadResult(locs map[floc]int, t types.Type) *fval {
	if tup, ok := t.(*types.Tuple); ok {
		v := &fval{}
		for k := 0; k < tup.Len(); k++ {
			v.f = append(v.f, spread(locs, tup.At(k).Type()))
		}
		return v
	}
	return spread(locs, t)
}

func (a *fanalysis) builtin(s *fstate, b *ssa.Builtin, c *ssa.CallCommon, args []*fval, at ssa.Instruction, res ssa.Value) *fval {
	switch b.Name() {
	case "append":
		base := args[0]
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		cont := fnone
		var spentNow []*fobj
		locs := map[floc]int{}
		for l, fl := range base.locs {
			cont = fjoin(cont, a.content(s, floc{l.o, l.path}, el))
			if fl&fClip != 0 {
				if !oneOrMore(c.Args[1]) {
					addLoc(locs, l, fl)
				}
				continue
			}
			switch l.o.kind {
			case fSite, fOld:
				if fl&fSub != 0 && !emptyMade(c.Args[0]) {
					a.bad(at.Pos(), "append to a part of a slice overwrites what follows it")
				}
				if fl&fUsed != 0 {
					a.bad(at.Pos(), "two slices grow into the same spare capacity")
				}
				spentNow = append(spentNow, l.o)
			default:
				a.mod(s, l, at.Pos(), "append to a slice that is not clipped")
				addLoc(locs, l, 0)
			}
		}
		for l := range args[1].locs {
			cont = fjoin(cont, a.content(s, floc{l.o, l.path}, el))
		}
		for _, o := range spentNow {
			s.mark(o)
		}
		cv := at.(ssa.Value)
		self := a.fr.site(cv, 0)
		a.define(s, self)
		// references kept in the content were renamed with the rest
		cont = cont.rename(func(l floc) floc {
			if l.o == self {
				return floc{a.fr.old(self), l.path}
			}
			return l
		})
		s.heap[self] = cont
		grp := map[*fobj]bool{}
		for _, o := range spentNow {
			if o == self {
				o = a.fr.old(self)
			}
			grp[o] = true
			for x := range s.alias[o] {
				grp[x] = true
			}
		}
		if len(grp) > 0 {
			s.alias[self] = grp
		}
		locs2 := map[floc]int{{self, ""}: 0}
		for l, fl := range locs {
			if l.o == self {
				l.o = a.fr.old(self)
			}
			addLoc(locs2, l, fl)
		}
		return &fval{locs: locs2}
	case "copy":
		a.elemMod(s, args[0], at, "copy")
		for l := range args[0].locs {
			for m := range args[1].locs {
				el := elemType(c.Args[0].Type())
				a.put(s, floc{l.o, l.path}, a.content(s, m, el), el, false)
			}
		}
		return fnone
	case "delete":
		for l := range args[0].locs {
			a.mod(s, l, at.Pos(), "delete")
		}
		return fnone
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			a.elemMod(s, args[0], at, "clear")
		} else {
			for l := range args[0].locs {
				a.mod(s, l, at.Pos(), "clear")
			}
		}
		return fnone
	case "close":
		a.bad(at.Pos(), "channel operation")
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max", "len", "cap", "print", "println", "real", "imag", "complex", "recover":
	}
	return fnone
}

// oneOrMore: the appended elements are written out in the call, so there is at least one.
func oneOrMore(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	p, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	return ok && arr.Len() > 0 && sl.Low == nil && sl.High == nil
}

// emptyMade: s[:0] of memory made for it.
func emptyMade(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.High != nil && isZero(sl.High) && isAlloc(sl.X)
}

// invoke joins the summaries of the library's implementations of an interface method.
func (fr *frames) invoke(c *ssa.CallCommon) *fsum {
	sig := c.Signature()
	out := newSum(sig.Results().Len())
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	for _, f := range fr.methods(it, c.Method) {
		if s := fr.sums[f]; s != nil {
			mergeSum(out, s)
		}
	}
	// an implementation of a caller: it may write to a context it is given, and read a reader
	for i := 0; i < sig.Params().Len(); i++ {
		if isContextType(sig.Params().At(i).Type()) {
			out.mods[fkey{i + 1, 0}] = "context"
			out.mods[fkey{i + 1, 1}] = "context"
		}
	}
	if isContextType(c.Value.Type()) || isReader(c.Value.Type()) {
		out.mods[fkey{0, 0}] = c.Method.Name()
		out.mods[fkey{0, 1}] = c.Method.Name()
	}
	for k := range out.res {
		if out.res[k][""] == nil {
			out.res[k][""] = map[fkey]bool{}
		}
		out.res[k][""][fkey{-1, 0}] = true
		for lv := 0; lv <= maxLevel; lv++ {
			out.res[k][""][fkey{0, lv}] = true
		}
	}
	return out
}

func isReader(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() != "Writer"
}

func mergeSum(d, s *fsum) {
	for k, v := range s.mods {
		if _, ok := d.mods[k]; !ok {
			d.mods[k] = v
		}
	}
	for k := range s.fresh {
		d.fresh[k] = true
	}
	for i := range s.res {
		if i < len(d.res) {
			for p, q := range s.res[i] {
				if d.res[i][p] == nil {
					d.res[i][p] = map[fkey]bool{}
				}
				for k := range q {
					d.res[i][p][k] = true
				}
			}
		}
	}
	for k, m := range s.flows {
		if d.flows[k] == nil {
			d.flows[k] = map[fkey]bool{}
		}
		for q := range m {
			d.flows[k][q] = true
		}
	}
	for g, v := range s.globs {
		d.globs[g] = v
	}
	for o := range s.globRes {
		d.globRes[o] = true
	}
}

func (fr *frames) methods(it *types.Interface, m *types.Func) []*ssa.Function {
	key := m.FullName()
	if r, ok := fr.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, sp := range P.pkgs {
		for _, mem := range sp.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if _, ok := t.Underlying().(*types.Interface); ok {
					continue
				}
				if it == nil || !types.Implements(t, it) {
					continue
				}
				if f := P.ssaProg.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	fr.impls[key] = out
	return out
}

// external functions: pure ones, those that change their first argument, and unknown ones that may change all.
func (a *fanalysis) external(s *fstate, fn *ssa.Function, c *ssa.CallCommon, args []*fval, at ssa.Instruction, res ssa.Value) *fval {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	all := func() map[floc]int {
		locs := map[floc]int{}
		for _, v := range args {
			r := a.reach(s, v)
			for k := range r {
				for l := range r[k] {
					addLoc(locs, l, 0)
				}
			}
		}
		return locs
	}
	fresh := func(cont map[floc]int) *fval {
		if res == nil || flatRes(res.Type()) {
			return fnone
		}
		o := a.alloc(s, res, 0)
		m := func(l floc) floc {
			if l.o == o {
				return floc{a.fr.old(o), l.path}
			}
			return l
		}
		v := (&fval{locs: cont}).rename(m)
		s.heap[o] = v
		return spreadResult(map[floc]int{{o, ""}: 0}, res.Type())
	}
	switch name {
	case "slices.Clone", "maps.Clone", "slices.Concat", "slices.Collect", "slices.Sorted", "maps.Keys", "maps.Values", "slices.Repeat", "bytes.Clone":
		return fresh(all())
	case "slices.Clip":
		locs := map[floc]int{}
		for l, fl := range args[0].locs {
			locs[l] = fl | fClip
		}
		return &fval{locs: locs}
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Sort", "sort.Stable":
		a.elemMod(s, args[0], at, "sorting")
		for l := range a.reach(s, args[0])[1] {
			if name == "sort.Sort" || name == "sort.Stable" {
				a.mod(s, l, at.Pos(), "sorting")
			}
		}
		return fnone
	case "slices.Contains", "slices.Index", "slices.Equal", "slices.ContainsFunc", "slices.IndexFunc", "slices.Max", "slices.Min", "slices.IsSorted", "maps.Equal", "slices.EqualFunc", "slices.BinarySearch", "sort.Search", "sort.SearchStrings", "sort.SliceIsSorted":
		return fnone
	case "maps.Copy":
		for l := range args[0].locs {
			a.mod(s, l, at.Pos(), "map copy")
		}
		for l := range args[0].locs {
			for m := range args[1].locs {
				a.put(s, l, a.content(s, m, types.NewInterfaceType(nil, nil)), types.NewInterfaceType(nil, nil), false)
			}
		}
		return fnone
	}
	mods := map[int]bool{}
	pure := pkg == "strings" || pkg == "strconv" || pkg == "unicode" || pkg == "unicode/utf8" || pkg == "fmt" || pkg == "errors" || pkg == "math" || pkg == "math/bits" || pkg == "time" ||
		pkg == "encoding/hex" || pkg == "github.com/pkg/errors" || pkg == "reflect" || pkg == "bytes" || pkg == "bufio" || pkg == "io" || pkg == "cmp" || pkg == "database/sql/driver"
	sig := fn.Signature
	if !pure {
		for i := range args {
			mods[i] = true
		}
	}
	if sig.Recv() != nil && isPtr(sig.Recv().Type()) && !readOnly[name] {
		mods[0] = true
	}
	if strings.HasPrefix(name, "fmt.F") || strings.HasPrefix(name, "io.") {
		mods[0] = true
	}
	for i := range args {
		if !mods[i] {
			continue
		}
		for k, ls := range a.reach(s, args[i]) {
			if k > 0 && pure && !(sig.Recv() != nil && pkg == "bufio") {
				break
			}
			for l := range ls {
				a.mod(s, l, at.Pos(), "call of "+name)
			}
		}
	}
	locs := all()
	v := fresh(locs)
	if res != nil && !flatRes(res.Type()) && !(pkg == "strings" || pkg == "strconv" || pkg == "fmt") {
		// the result may alias the arguments
		v = fjoin(v, spreadResult(locs, res.Type()))
	}
	return v
}

// readOnly are methods with pointer receiver that change nothing that can be seen.
var readOnly = map[string]bool{
	"(*strings.Replacer).Replace": true, "(*strings.Builder).String": true, "(*strings.Builder).Len": true, "(*strings.Builder).Cap": true,
	"(*bytes.Buffer).String": true, "(*bytes.Buffer).Len": true, "(*bytes.Buffer).Cap": true, "(*bytes.Buffer).Available": true,
	"(*strings.Reader).Len": true, "(*strings.Reader).Size": true, "(*bufio.Reader).Buffered": true, "(*time.Location).String": true,
}

func flatRes(t types.Type) bool {
	if tup, ok := t.(*types.Tuple); ok {
		for k := 0; k < tup.Len(); k++ {
			if !flat(tup.At(k).Type()) {
				return false
			}
		}
		return true
	}
	return flat(t)
}

// frameFuncs are the functions of the library with closures, wrappers and initialisers.
func (p *Program) frameFuncs() []*ssa.Function {
	if p.ffuncs != nil {
		return p.ffuncs
	}
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(p.ssaProg) {
		if len(f.Blocks) == 0 || p.isSpecFn(f) {
			continue
		}
		if !p.inModule(f) && !(f.Synthetic != "" && isModuleWrapper(f)) {
			continue
		}
		if f.Pkg != nil && (strings.Contains(f.Pkg.Pkg.Path(), "/examples") || f.Pkg.Pkg.Path() == specPkgPath) {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	p.ffuncs = fs
	return fs
}

func (p *Program) runFrames() *frames {
	fr := &frames{sums: map[*ssa.Function]*fsum{}, params: map[fkey]*fobj{}, globs: map[string]*fobj{}, sites: map[ssa.Value]map[int]*fobj{},
		olds: map[*fobj]*fobj{}, impls: map[string][]*ssa.Function{}, report: map[*ssa.Function]*frameReport{}}
	fr.funcs = p.frameFuncs()
	for _, f := range fr.funcs {
		fr.sums[f] = newSum(f.Signature.Results().Len())
	}
	for k := 0; k < 40; k++ {
		fr.changed = false
		for _, f := range fr.funcs {
			fr.analyse(f)
		}
		if !fr.changed {
			break
		}
	}
	fr.final = true
	for _, f := range fr.funcs {
		fr.analyse(f)
	}
	return fr
}

// frameResults are the frame obligations, one per function.
func (p *Program) frameResults() []*Result {
	start := time.Now()
	fr := p.fr
	var out []*Result
	for _, f := range fr.funcs {
		rep := fr.report[f]
		if rep == nil {
			continue
		}
		r := &Result{name: short(f.String()), kind: "frame", fn: f, ok: true, obls: 1 + rep.sites, byStruct: 1 + rep.sites, contract: p.contracts[f], pos: p.posStr(f.Pos())}
		bad := append([]string{}, rep.bad...)
		sum := fr.sums[f]
		for _, k := range modKeys(sum) {
			if !mayModify(f, k) {
				bad = append(bad, fmt.Sprintf("%s (memory of %s, which %s may not change)", sum.mods[k], paramName(f, k), short(f.String())))
			}
		}
		if len(bad) > 0 {
			r.ok = false
			r.err = "changes memory outside its frame: " + bad[0]
			r.detail = "  " + strings.Join(bad, "\n  ") + "\n"
		}
		out = append(out, r)
	}
	if len(out) > 0 {
		out[0].elapsed = time.Since(start)
	}
	return out
}

// frameFor are the frame obligations a property rests on: all of them for I01, for I02 (rendering is pure)
// those of the functions rendering may call, and that no function changes package-level memory.
func (p *Program) frameFor(prop string) []*Result {
	rs := p.frameResults()
	if prop == "I01" {
		return rs
	}
	render := p.renderFuncs()
	var out []*Result
	for _, r := range rs {
		if r.ok || render[r.fn] || strings.Contains(r.detail, "package-level") {
			out = append(out, r)
		}
	}
	return out
}

func (p *Program) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var buf [16]*ssa.Value
			for _, o := range in.Operands(buf[:0]) {
				if g, ok := (*o).(*ssa.Function); ok && len(g.Blocks) > 0 {
					out = append(out, g)
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				n := c.Common().Method.Name()
				for _, g := range p.frameFuncs() {
					if g.Name() == n && g.Signature.Recv() != nil {
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// renderFuncs are the functions rendering may call.
func (p *Program) renderFuncs() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range p.frameFuncs() {
		switch f.Name() {
		case "String", "NamedQuery", "Query", "Write", "Statement":
			todo = append(todo, f)
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] || !p.inModule(f) {
			continue
		}
		seen[f] = true
		todo = append(todo, p.callees(f)...)
	}
	return seen
}

// showing are contracts whose runs may show what happens in f: its own, or those of its nearest callers.
func (p *Program) showing(f *ssa.Function) []*Contract {
	rev := map[*ssa.Function][]*ssa.Function{}
	for _, g := range p.frameFuncs() {
		for _, h := range p.callees(g) {
			rev[h] = append(rev[h], g)
		}
	}
	byFn := map[*ssa.Function]*Contract{}
	for _, c := range p.clist {
		if c.target != nil && caseOf(c) != "" {
			byFn[c.target] = c
		}
	}
	seen := map[*ssa.Function]bool{f: true}
	level := []*ssa.Function{f}
	var out []*Contract
	for d := 0; d < 8 && len(level) > 0 && len(out) < 6; d++ {
		var next []*ssa.Function
		for _, g := range level {
			if c := byFn[g]; c != nil && len(out) < 12 {
				out = append(out, c)
			}
			for _, h := range rev[g] {
				if !seen[h] {
					seen[h] = true
					next = append(next, h)
				}
			}
			if q := g.Parent(); q != nil && !seen[q] {
				seen[q] = true
				next = append(next, q)
			}
		}
		level = next
	}
	return out
}

func modKeys(s *fsum) []fkey {
	var ks []fkey
	for k := range s.mods {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].idx < ks[j].idx || ks[i].idx == ks[j].idx && ks[i].level < ks[j].level
	})
	return ks
}

func paramName(f *ssa.Function, k fkey) string {
	vs := valuesOf(f)
	if k.idx < len(vs) {
		return vs[k.idx].Name() + strings.Repeat("*", k.level)
	}
	return "?"
}

func mayModify(f *ssa.Function, k fkey) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return true // judged where it is made or called
	}
	if k.idx >= len(f.Params) {
		return true
	}
	t := f.Params[k.idx].Type()
	if isContextType(t) || isReader(t) {
		return true
	}
	if k.idx == 0 && f.Signature.Recv() != nil && isPtr(t) {
		return true
	}
	if o := f.Object(); o != nil && !o.Exported() {
		return true // its callers answer for it
	}
	return false
}
