package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------
// Sorts
// ---------------------------------------------------------------------------

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SStr
	SAny
	SSeq
	SStruct
	SMap
	SPtr
	SOpaque
)

// Sort is the sort of a term.
type Sort struct {
	kind   SortKind
	name   string
	elem   *Sort // Seq, Ptr, Map value
	key    *Sort
	fields []*Sort
	fnames []string
}

var sortTab = map[string]*Sort{}

func mkSort(s *Sort) *Sort {
	if o, ok := sortTab[s.name]; ok {
		return o
	}
	sortTab[s.name] = s
	return s
}

var (
	BoolS = mkSort(&Sort{kind: SBool, name: "Bool"})
	IntS  = mkSort(&Sort{kind: SInt, name: "Int"})
	StrS  = mkSort(&Sort{kind: SStr, name: "String"})
	AnyS  = mkSort(&Sort{kind: SAny, name: "Any"})
)

func seqSort(e *Sort) *Sort { return mkSort(&Sort{kind: SSeq, name: "Seq<" + e.name + ">", elem: e}) }
func mapSort(k, v *Sort) *Sort {
	return mkSort(&Sort{kind: SMap, name: "Map<" + k.name + "," + v.name + ">", key: k, elem: v})
}
func ptrSort(e *Sort) *Sort { return mkSort(&Sort{kind: SPtr, name: "Ptr<" + e.name + ">", elem: e}) }

var FuncS = opaqueSort("func")

func opaqueSort(n string) *Sort { return mkSort(&Sort{kind: SOpaque, name: "O:" + n}) }

var goSort = map[types.Type]*Sort{}

// special struct types modelled as a value of another sort
func specialSort(n string) *Sort {
	switch n {
	case "strings.Builder", "bytes.Buffer":
		return StrS
	case "time.Time":
		return opaqueSort("time.Time")
	case "bufio.Reader":
		return mkSort(&Sort{kind: SStruct, name: "bufio.Reader", fields: []*Sort{seqSort(IntS), IntS}, fnames: []string{"runes", "pos"}})
	case "strings.Reader":
		return StrS
	}
	return nil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sortOf(t types.Type) *Sort {
	if s, ok := goSort[t]; ok {
		return s
	}
	s := sortOf0(t)
	goSort[t] = s
	return s
}

func sortOf0(t types.Type) *Sort {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if s := specialSort(typeName(n)); s != nil {
			return s
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Kind() == types.UntypedNil:
			return AnyS
		default:
			return opaqueSort(u.Name())
		}
	case *types.Struct:
		name := typeName(t)
		if s, ok := sortTab["S:"+name]; ok {
			return s
		}
		s := mkSort(&Sort{kind: SStruct, name: "S:" + name})
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, sortOf(u.Field(i).Type()))
			s.fnames = append(s.fnames, u.Field(i).Name())
		}
		return s
	case *types.Slice:
		return seqSort(sortOf(u.Elem()))
	case *types.Array:
		return seqSort(sortOf(u.Elem()))
	case *types.Map:
		return mapSort(sortOf(u.Key()), sortOf(u.Elem()))
	case *types.Pointer:
		return ptrSort(sortOf(u.Elem()))
	case *types.Interface:
		return AnyS
	case *types.Signature:
		return FuncS
	}
	return opaqueSort(typeName(t))
}

// ---------------------------------------------------------------------------
// Terms
// ---------------------------------------------------------------------------

type Op int

const (
	OVar Op = iota
	OTrue
	OFalse
	OInt
	OStr
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // linear sum: args are atoms or OMul(const, atom); last may be OInt
	OMul // args[0] const, args[1] atom
	OMod // args[0] mod args[1]
	OLe  // a <= b
	OConcat
	OSeqConcat
	OSeqUnit
	OSeqEmpty
	OLen
	OStrLen
	OAt
	OExtract   // seq, lo, hi
	OSeqUpdate // seq, i, v
	OMk
	OSel
	OBox   // name = type key, args[0] payload
	OUnbox // name = type key
	OIsT   // name = type key
	OIsNil // of Any
	ONilAny
	OImpl // name = iface key, args[0] any
	OMapEmpty
	OMapNil
	OMapPut
	OMapGet // value when present (zero otherwise is put by the executor)
	OMapHas
	OMapLen
	OMapIsNil
	OApp // uninterpreted / spec application
	ORef // heap reference leaf
	OPtrNil
	OPtrIsNil
	OMkPtr
	ODeref
	OBig    // concatenation over 0 <= j < n: args n, body
	OExists // exists 0 <= j < n: args n, body
	OFirst  // least 0 <= j < n with body, else n: args n, body
	OFold   // iterate body n times from init: args n, init, body
)

type Term struct {
	id     int
	op     Op
	sort   *Sort
	args   []*Term
	name   string
	n      *big.Int
	idx    int
	goT    types.Type // Go type of leaf variables / boxes, when known
	nonNeg bool
	hasRef bool
	not    *Term // of a comparison
	lvl    int   // highest binder level inside
}

var termTab = map[string]*Term{}
var termCount int

var (
	started  = time.Now()
	deadline time.Time // of the contract being verified
)

const (
	contractTime = 100 * time.Second
	totalTime    = 420 * time.Second
	maxTerms     = 15000000
)

// startClock gives a contract its time; outOfTime ends the attempt when it is over. The limits are far beyond what
// any contract needs on the present code (a second or so), so what is verified does not depend on the machine.
func startClock() {
	deadline = time.Now().Add(contractTime)
	if d := started.Add(totalTime); d.Before(deadline) {
		deadline = d
	}
}

func outOfTime() {
	if deadline.IsZero() {
		return
	}
	if time.Now().After(deadline) {
		panic(unsupported{msg: "not decided within the time limit"})
	}
	if termCount > maxTerms {
		panic(unsupported{msg: "not decided within the memory limit"})
	}
}

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.n != nil {
		b.WriteString(t.n.String())
	}
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.idx))
	b.WriteByte('|')
	b.WriteString(t.sort.name)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	if termCount&0xfff == 0 {
		outOfTime()
	}
	if t.op == ORef {
		t.hasRef = true
	}
	for _, a := range t.args {
		if a.hasRef {
			t.hasRef = true
		}
		if a.lvl > t.lvl {
			t.lvl = a.lvl
		}
	}
	switch t.op {
	case OBig, OExists, OFirst, OFold:
		t.lvl = t.idx
		t.nonNeg = t.op == OFirst
	case OVar:
		t.nonNeg = t.sort == IntS && t.name[0] == '#'
	case OIte:
		t.nonNeg = t.args[1].nonNeg && t.args[2].nonNeg
	case OMod:
		t.nonNeg = t.args[1].op == OInt && t.args[1].n.Sign() > 0
	case OLen, OStrLen, OMapLen:
		t.nonNeg = true
	case OUnbox:
		if lo, _, ok := unboxRange(t.name); ok && t.sort == IntS {
			t.nonNeg = lo.Sign() == 0
		}
	case OInt:
		t.nonNeg = t.n.Sign() >= 0
	case OAdd:
		t.nonNeg = true
		for _, a := range t.args {
			if !a.nonNeg {
				t.nonNeg = false
			}
		}
	case OMul:
		t.nonNeg = t.args[0].n.Sign() >= 0 && t.args[1].nonNeg
	}
	termTab[k] = t
	return t
}

var (
	True   = intern(&Term{op: OTrue, sort: BoolS})
	False  = intern(&Term{op: OFalse, sort: BoolS})
	NilAny = intern(&Term{op: ONilAny, sort: AnyS})
)

var varCount int

func freshVar(prefix string, s *Sort) *Term {
	varCount++
	return mkVar(fmt.Sprintf("%s!%d", prefix, varCount), s)
}

func mkVar(name string, s *Sort) *Term { return intern(&Term{op: OVar, sort: s, name: name}) }

func freshNonNeg(prefix string) *Term {
	varCount++
	t := &Term{op: OVar, sort: IntS, name: fmt.Sprintf("%s!%d", prefix, varCount)}
	t = intern(t)
	t.nonNeg = true
	return t
}

func mkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func mkInt(i int64) *Term    { return mkBig(big.NewInt(i)) }
func mkBig(i *big.Int) *Term { return intern(&Term{op: OInt, sort: IntS, n: i}) }
func mkStr(s string) *Term   { return intern(&Term{op: OStr, sort: StrS, name: s}) }
func isConst(t *Term) bool   { return t.op == OInt || t.op == OStr || t.op == OTrue || t.op == OFalse }

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OLe: // not (a <= b)  ==  b+1 <= a
		if a.not == nil {
			a.not = mkLe(mkAdd(a.args[1], mkInt(1)), a.args[0])
		}
		return a.not
	}
	return intern(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}

func flatten(op Op, in []*Term, out []*Term) []*Term {
	for _, a := range in {
		if a.op == op {
			out = flatten(op, a.args, out)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func mkAnd(as ...*Term) *Term { return mkNary(OAnd, True, False, as) }
func mkOr(as ...*Term) *Term  { return mkNary(OOr, False, True, as) }

func mkNary(op Op, unit, zero *Term, as []*Term) *Term {
	fl := flatten(op, as, nil)
	seen := map[*Term]bool{}
	var out []*Term
	for _, a := range fl {
		if a == unit || seen[a] {
			continue
		}
		if a == zero {
			return zero
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[mkNot(a)] {
			return zero
		}
	}
	changed := false
	// what comes before something else is not the same
	for i, a := range out {
		if a.op == OEq && a.args[0].sort == StrS || a.op == ONot && a.args[0].op == OEq && a.args[0].args[0].sort == StrS {
			eq := a
			if a.op == ONot {
				eq = a.args[0]
			}
			lt, gt := mkApp("strlt", BoolS, eq.args[0], eq.args[1]), mkApp("strlt", BoolS, eq.args[1], eq.args[0])
			if op == OOr {
				lt, gt = mkNot(lt), mkNot(gt)
			}
			if seen[lt] || seen[gt] {
				if (a == eq) == (op == OAnd) {
					return zero
				}
				out[i] = unit
				changed = true
			}
		}
	}
	// unit resolution inside: for And, drop from disjunctions what is already known
	for i, a := range out {
		dual := OOr
		if op == OOr {
			dual = OAnd
		}
		if a.op == dual {
			var keep []*Term
			drop := false
			absorbed := false
			for _, x := range a.args {
				if seen[x] { // a & (a|b) = a
					absorbed = true
					break
				}
				if seen[mkNot(x)] {
					drop = true
					continue
				}
				keep = append(keep, x)
			}
			if absorbed {
				out[i] = unit
				changed = true
			} else if drop {
				if dual == OOr {
					out[i] = mkOr(keep...)
				} else {
					out[i] = mkAnd(keep...)
				}
				changed = true
			}
		}
	}
	if changed {
		return mkNary(op, unit, zero, out)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	if op == OOr { // what all disjuncts have in common
		if c := commonArgs(out); len(c) > 0 {
			in := map[*Term]bool{}
			for _, x := range c {
				in[x] = true
			}
			var ds []*Term
			for _, a := range out {
				var rest []*Term
				for _, x := range a.args {
					if !in[x] {
						rest = append(rest, x)
					}
				}
				ds = append(ds, mkAnd(rest...))
			}
			return mkAnd(append(c, mkOr(ds...))...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: op, sort: BoolS, args: out})
}

// commonArgs are the conjuncts that occur in every one of the conjunctions.
func commonArgs(ds []*Term) []*Term {
	for _, d := range ds {
		if d.op != OAnd {
			return nil
		}
	}
	var c []*Term
	for _, x := range ds[0].args {
		all := true
		for _, d := range ds[1:] {
			in := false
			for _, y := range d.args {
				if x == y {
					in = true
				}
			}
			all = all && in
		}
		if all {
			c = append(c, x)
		}
	}
	return c
}

func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

// ---- integers ----

type lin struct {
	c     *big.Int
	atoms map[*Term]*big.Int
}

func linOf(t *Term, k *big.Int, l *lin) {
	switch t.op {
	case OInt:
		l.c.Add(l.c, new(big.Int).Mul(k, t.n))
	case OAdd:
		for _, a := range t.args {
			linOf(a, k, l)
		}
	case OMul:
		linOf(t.args[1], new(big.Int).Mul(k, t.args[0].n), l)
	default:
		o := l.atoms[t]
		if o == nil {
			o = new(big.Int)
		}
		l.atoms[t] = new(big.Int).Add(o, k)
	}
}

func linTerm(l *lin) *Term {
	var atoms []*Term
	for a, c := range l.atoms {
		if c.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var args []*Term
	for _, a := range atoms {
		c := l.atoms[a]
		if c.IsInt64() && c.Int64() == 1 {
			args = append(args, a)
		} else {
			args = append(args, intern(&Term{op: OMul, sort: IntS, args: []*Term{mkBig(c), a}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, mkBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{op: OAdd, sort: IntS, args: args})
}

func newLin() *lin { return &lin{c: new(big.Int), atoms: map[*Term]*big.Int{}} }

func mkAdd(as ...*Term) *Term {
	l := newLin()
	for _, a := range as {
		linOf(a, big.NewInt(1), l)
	}
	return linTerm(l)
}

func mkSub(a, b *Term) *Term {
	l := newLin()
	linOf(a, big.NewInt(1), l)
	linOf(b, big.NewInt(-1), l)
	return linTerm(l)
}

func mkMul(a, b *Term) *Term {
	if a.op == OInt {
		l := newLin()
		linOf(b, a.n, l)
		return linTerm(l)
	}
	if b.op == OInt {
		return mkMul(b, a)
	}
	return mkApp("mul", IntS, a, b)
}

func mkMod(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.n.Sign() > 0 {
		return mkBig(new(big.Int).Mod(a.n, b.n))
	}
	return intern(&Term{op: OMod, sort: IntS, args: []*Term{a, b}})
}

// le0: 0 <= t ; normalised form is args (lhs, rhs) with all positive on each side.
// constTree: a choice among constants.
func constTree(t *Term) bool {
	return isConst(t) || t.op == OIte && constTree(t.args[1]) && constTree(t.args[2])
}

// unboxRange is the range of the numbers of a type.
func unboxRange(key string) (*big.Int, *big.Int, bool) {
	if P == nil || P.typesByKey[key] == nil {
		return nil, nil, false
	}
	return intRange(P.typesByKey[key])
}

func mkLe(a, b *Term) *Term {
	d := newLin() // b - a >= 0
	linOf(b, big.NewInt(1), d)
	linOf(a, big.NewInt(-1), d)
	pos, neg := newLin(), newLin()
	n := 0
	var single *Term
	var singleC *big.Int
	allNN, allNP := true, true
	for at, c := range d.atoms {
		switch c.Sign() {
		case 1:
			pos.atoms[at] = c
			n++
			single, singleC = at, c
			if !at.nonNeg {
				allNN = false
			}
			allNP = false
		case -1:
			neg.atoms[at] = new(big.Int).Neg(c)
			n++
			single, singleC = at, c
			if !at.nonNeg {
				allNP = false
			}
			allNN = false
		}
	}
	if n == 0 {
		return mkBool(d.c.Sign() >= 0)
	}
	if allNN && d.c.Sign() >= 0 {
		return True
	}
	if allNP && d.c.Sign() < 0 {
		return False
	}
	if n == 1 && single.op == OUnbox && singleC.IsInt64() && (singleC.Int64() == 1 || singleC.Int64() == -1) {
		if lo, hi, ok := unboxRange(single.name); ok {
			if singleC.Sign() < 0 {
				lo, hi = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
			}
			if new(big.Int).Add(lo, d.c).Sign() >= 0 {
				return True
			}
			if new(big.Int).Add(hi, d.c).Sign() < 0 {
				return False
			}
		}
	}
	// single nonneg atom with unit coefficient: 1 <= x  is  not (x = 0); x <= 0 is x = 0
	if n == 1 && single.nonNeg {
		if singleC.IsInt64() && singleC.Int64() == 1 && d.c.IsInt64() && d.c.Int64() == -1 {
			return mkNot(mkEq(single, mkInt(0)))
		}
		if singleC.IsInt64() && singleC.Int64() == -1 && d.c.Sign() == 0 {
			return mkEq(single, mkInt(0))
		}
	}
	for at, c := range d.atoms {
		if at.op == OFirst && at.args[0] != Inf && (c.Cmp(big.NewInt(1)) == 0 || c.Cmp(big.NewInt(-1)) == 0) {
			// compared with its bound: whether there is one at all
			rest := newLin()
			for a2, c2 := range d.atoms {
				if a2 != at {
					rest.atoms[a2] = c2
				}
			}
			rest.c = new(big.Int).Set(d.c)
			sg := int64(c.Sign())
			linOf(at.args[0], big.NewInt(sg), rest)
			k := linTerm(rest)
			if k.op != OInt {
				continue
			}
			switch {
			case sg > 0 && k.n.Sign() == 0: // n <= first
				return mkNot(existsOf(at))
			case sg > 0 && k.n.Sign() < 0:
				return False
			case sg < 0 && k.n.Sign() >= 0:
				return True
			case sg < 0 && k.n.Cmp(big.NewInt(-1)) == 0: // first < n
				return existsOf(at)
			}
		}
	}
	for at, c := range d.atoms { // decided in one of the cases
		if at.op == OIte {
			rest := newLin()
			for a2, c2 := range d.atoms {
				if a2 != at {
					rest.atoms[a2] = c2
				}
			}
			rest.c = new(big.Int).Set(d.c)
			r := linTerm(rest)
			side := func(v *Term) *Term { return mkLe(mkInt(0), mkAdd(r, mkMul(mkBig(c), v))) }
			x, y := side(at.args[1]), side(at.args[2])
			if isConst(x) || isConst(y) || n == 1 && constTree(at) {
				return mkIte(at.args[0], x, y)
			}
		}
	}
	if d.c.Sign() > 0 {
		pos.c = d.c
	} else {
		neg.c = new(big.Int).Neg(d.c)
	}
	return intern(&Term{op: OLe, sort: BoolS, args: []*Term{linTerm(neg), linTerm(pos)}})
}

func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkInt(1)), b) }

// ---- equality ----

func mkEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq: sorts differ: %s %s (%s / %s)", a.sort.name, b.sort.name, a, b))
	}
	if isConst(a) && isConst(b) {
		return False
	}
	switch a.sort.kind {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return mkNot(b)
		}
		if b == False {
			return mkNot(a)
		}
		if mkNot(a) == b {
			return False
		}
	case SInt:
		d := newLin()
		linOf(a, big.NewInt(1), d)
		linOf(b, big.NewInt(-1), d)
		pos, neg := newLin(), newLin()
		n := 0
		g := new(big.Int)
		for at, c := range d.atoms {
			if c.Sign() > 0 {
				pos.atoms[at] = c
				n++
			} else if c.Sign() < 0 {
				neg.atoms[at] = new(big.Int).Neg(c)
				n++
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if n == 0 {
			return mkBool(d.c.Sign() == 0)
		}
		if g.Sign() > 0 && new(big.Int).Mod(d.c, g).Sign() != 0 {
			return False
		}
		allNN := len(neg.atoms) == 0 && d.c.Sign() > 0
		allNP := len(pos.atoms) == 0 && d.c.Sign() < 0
		if allNN {
			ok := true
			for at := range pos.atoms {
				ok = ok && at.nonNeg
			}
			if ok {
				return False
			}
		}
		if allNP {
			ok := true
			for at := range neg.atoms {
				ok = ok && at.nonNeg
			}
			if ok {
				return False
			}
		}
		if d.c.Sign() > 0 {
			pos.c = d.c
		} else {
			neg.c = new(big.Int).Neg(d.c)
		}
		a, b = linTerm(pos), linTerm(neg)
	case SStruct:
		if a.op == OMk && b.op == OMk {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, mkEq(a.args[i], b.args[i]))
			}
			return mkAnd(cs...)
		}
		if a.op == OMk || b.op == OMk {
			var cs []*Term
			for i := range a.sort.fields {
				cs = append(cs, mkEq(mkSel(i, a), mkSel(i, b)))
			}
			return mkAnd(cs...)
		}
	case SAny:
		if a.op == OBox && b.op == OBox {
			if a.name != b.name {
				return False
			}
			return mkEq(a.args[0], b.args[0])
		}
		for k := 0; k < 2; k++ { // x = box_T(unbox_T(x)) exactly when x is a T
			if y, z := []*Term{a, b}[k], []*Term{a, b}[1-k]; y.op == OBox && y.args[0].op == OUnbox && y.args[0].name == y.name && y.args[0].args[0] == z {
				return mkIsT(y.name, z)
			}
		}
		if a == NilAny {
			return mkIsNil(b)
		}
		if b == NilAny {
			return mkIsNil(a)
		}
	case SStr:
		if a.op == OConcat || b.op == OConcat || a.op == OStr || b.op == OStr {
			ra, rb, ok := cancelWords(wordOf(a), wordOf(b), true)
			if !ok {
				return False
			}
			a, b = mkConcat(ra...), mkConcat(rb...)
			if a == b {
				return True
			}
			if isConst(a) && isConst(b) {
				return False
			}
		}
	case SSeq:
		ra, rb, ok := cancelWords(seqWord(a), seqWord(b), false)
		if !ok {
			return False
		}
		a, b = mkSeqConcat(a.sort, ra...), mkSeqConcat(b.sort, rb...)
		if a == b {
			return True
		}
		if a.op == OSeqUnit && b.op == OSeqUnit {
			return mkEq(a.args[0], b.args[0])
		}
		if a.op == OSeqEmpty && (b.op == OSeqUnit) || b.op == OSeqEmpty && a.op == OSeqUnit {
			return False
		}
		ua, ub := allUnits(a), allUnits(b)
		if ua != nil && ub != nil {
			if len(ua) != len(ub) {
				return False
			}
			var cs []*Term
			for i := range ua {
				cs = append(cs, mkEq(ua[i], ub[i]))
			}
			return mkAnd(cs...)
		}
	case SPtr:
		if a.op == OPtrNil {
			return mkPtrIsNil(b)
		}
		if b.op == OPtrNil {
			return mkPtrIsNil(a)
		}
		if a.op == OMkPtr && b.op == OMkPtr {
			return mkEq(a.args[0], b.args[0])
		}
	}
	if a.sort.kind == SAny {
		con := func(t *Term) bool { return t.op == OBox || t == NilAny }
		if a.op == OIte && b.op == OBox && (con(a.args[1]) || con(a.args[2])) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == OIte && a.op == OBox && (con(b.args[1]) || con(b.args[2])) {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
	}
	if a.sort.kind != SBool {
		// ite with constants: (c ? x : y) == z
		if a.op == OIte && isConst(b) && (isConst(a.args[1]) || isConst(a.args[2]) || constTree(a)) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == OIte && isConst(a) && (isConst(b.args[1]) || isConst(b.args[2]) || constTree(b)) {
			return mkIte(b.args[0], mkEq(b.args[1], a), mkEq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}

func allUnits(t *Term) []*Term {
	out := []*Term{}
	for _, w := range seqWord(t) {
		if w.op != OSeqUnit {
			return nil
		}
		out = append(out, w.args[0])
	}
	return out
}

// ---- words ----

func wordOf(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t.op == OStr && t.name == "" {
		return nil
	}
	return []*Term{t}
}

func seqWord(t *Term) []*Term {
	if t.op == OSeqConcat {
		return t.args
	}
	if t.op == OSeqEmpty {
		return nil
	}
	return []*Term{t}
}

// cancelWords strips the common prefix and suffix. ok=false: definitely different.
func cancelWords(a, b []*Term, str bool) ([]*Term, []*Term, bool) {
	a = append([]*Term{}, a...)
	b = append([]*Term{}, b...)
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		if str && a[0].op == OStr && b[0].op == OStr {
			x, y := a[0].name, b[0].name
			n := 0
			for n < len(x) && n < len(y) && x[n] == y[n] {
				n++
			}
			if n < len(x) && n < len(y) {
				return nil, nil, false
			}
			if n == 0 {
				break
			}
			a[0], b[0] = mkStr(x[n:]), mkStr(y[n:])
			if x[n:] == "" {
				a = a[1:]
			}
			if y[n:] == "" {
				b = b[1:]
			}
			continue
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		la, lb := a[len(a)-1], b[len(b)-1]
		if la == lb {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		if str && la.op == OStr && lb.op == OStr {
			x, y := la.name, lb.name
			n := 0
			for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
				n++
			}
			if n < len(x) && n < len(y) {
				return nil, nil, false
			}
			if n == 0 {
				break
			}
			x, y = x[:len(x)-n], y[:len(y)-n]
			a[len(a)-1], b[len(b)-1] = mkStr(x), mkStr(y)
			if x == "" {
				a = a[:len(a)-1]
			}
			if y == "" {
				b = b[:len(b)-1]
			}
			continue
		}
		break
	}
	return a, b, true
}

func mkConcat(as ...*Term) *Term {
	var out []*Term
	for _, a := range flatten(OConcat, as, nil) {
		if a.op == OStr {
			if a.name == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].op == OStr {
				out[len(out)-1] = mkStr(out[len(out)-1].name + a.name)
				continue
			}
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OConcat, sort: StrS, args: out})
}

func mkSeqEmpty(s *Sort) *Term { return intern(&Term{op: OSeqEmpty, sort: s}) }
func mkUnit(e *Term) *Term {
	return intern(&Term{op: OSeqUnit, sort: seqSort(e.sort), args: []*Term{e}})
}

func mkSeqConcat(s *Sort, as ...*Term) *Term {
	var out []*Term
	for _, a := range flatten(OSeqConcat, as, nil) {
		if a.sort != s {
			panic("mkSeqConcat: sort " + a.sort.name + " in " + s.name)
		}
		if a.op == OSeqEmpty {
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return mkSeqEmpty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OSeqConcat, sort: s, args: out})
}

func mkLen(s *Term) *Term {
	switch s.op {
	case OSeqEmpty:
		return mkInt(0)
	case OSeqUnit:
		return mkInt(1)
	case OSeqConcat:
		var as []*Term
		for _, a := range s.args {
			as = append(as, mkLen(a))
		}
		return mkAdd(as...)
	case OSeqUpdate:
		return mkLen(s.args[0])
	case OApp:
		if s.name == "zeros" {
			return s.args[0]
		}
		if s.name == "sorted" {
			return mkLen(s.args[0])
		}
	case OExtract:
		return mkSub(s.args[2], s.args[1])
	case OBig:
		if l := mkLen(s.args[1]); l.op == OInt {
			return mkMul(l, s.args[0])
		}
	case OIte:
		return mkIte(s.args[0], mkLen(s.args[1]), mkLen(s.args[2]))
	}
	return intern(&Term{op: OLen, sort: IntS, args: []*Term{s}})
}

func mkStrLen(s *Term) *Term {
	switch s.op {
	case OStr:
		return mkInt(int64(len(s.name)))
	case OConcat:
		var as []*Term
		for _, a := range s.args {
			as = append(as, mkStrLen(a))
		}
		return mkAdd(as...)
	}
	return intern(&Term{op: OStrLen, sort: IntS, args: []*Term{s}})
}

func mkAt(s, i *Term) *Term {
	switch s.op {
	case OSeqUnit:
		return s.args[0]
	case OSeqConcat:
		// walk while offsets are decidable
		off := i
		for k, w := range s.args {
			l := mkLen(w)
			if k == len(s.args)-1 {
				return mkAt(w, off)
			}
			c := mkLt(off, l)
			if c == True {
				return mkAt(w, off)
			}
			if c == False {
				off = mkSub(off, l)
				continue
			}
			return mkIte(c, mkAt(w, off), mkAt(mkSeqConcat(s.sort, s.args[k+1:]...), mkSub(off, l)))
		}
	case OIte:
		return mkIte(s.args[0], mkAt(s.args[1], i), mkAt(s.args[2], i))
	case OSeqUpdate:
		return mkIte(mkEq(s.args[1], i), s.args[2], mkAt(s.args[0], i))
	case OApp:
		if s.name == "zeros" {
			return s.args[1]
		}
	case OExtract:
		return mkAt(s.args[0], mkAdd(s.args[1], i))
	case OBig:
		if s.args[1].op == OSeqUnit {
			return openB(s, i, nil).args[0]
		}
	}
	return intern(&Term{op: OAt, sort: s.sort.elem, args: []*Term{s, i}})
}

func mkExtract(s, lo, hi *Term) *Term {
	if lo == hi {
		return mkSeqEmpty(s.sort)
	}
	if lo.op == OInt && lo.n.Sign() == 0 && hi == mkLen(s) {
		return s
	}
	if s.op == OExtract {
		return mkExtract(s.args[0], mkAdd(s.args[1], lo), mkAdd(s.args[1], hi))
	}
	if s.op == OBig && s.args[1].op == OSeqUnit {
		j := freshNonNeg("j")
		return mkBigT(mkSub(hi, lo), j, openB(s, mkAdd(lo, j), nil))
	}
	if s.op == OSeqConcat { // whole parts
		at, from, to := mkInt(0), -1, -1
		for i, p := range s.args {
			if at == lo {
				from = i
			}
			at = mkAdd(at, mkLen(p))
			if at == hi {
				to = i + 1
			}
		}
		if from >= 0 && from < to {
			return mkSeqConcat(s.sort, s.args[from:to]...)
		}
	}
	if us := allUnits(s); us != nil && lo.op == OInt && hi.op == OInt {
		l, h := lo.n.Int64(), hi.n.Int64()
		if 0 <= l && l <= h && int(h) <= len(us) {
			var as []*Term
			for _, u := range us[l:h] {
				as = append(as, mkUnit(u))
			}
			return mkSeqConcat(s.sort, as...)
		}
	}
	return intern(&Term{op: OExtract, sort: s.sort, args: []*Term{s, lo, hi}})
}

func mkSeqUpdate(s, i, v *Term) *Term {
	if us := allUnits(s); us != nil && i.op == OInt && i.n.IsInt64() {
		k := int(i.n.Int64())
		if 0 <= k && k < len(us) {
			var as []*Term
			for j, u := range us {
				if j == k {
					u = v
				}
				as = append(as, mkUnit(u))
			}
			return mkSeqConcat(s.sort, as...)
		}
	}
	// concat(prefix, zeros(n, z)) updated at len(prefix)  =>  prefix . v . zeros(n-1)
	ws := seqWord(s)
	if len(ws) > 0 {
		last := ws[len(ws)-1]
		pre := mkSeqConcat(s.sort, ws[:len(ws)-1]...)
		if last.op == OApp && last.name == "zeros" && mkLen(pre) == i {
			return mkSeqConcat(s.sort, pre, mkUnit(v), mkZeros(s.sort, mkSub(last.args[0], mkInt(1)), last.args[1]))
		}
		if last.op == OExtract && mkLen(pre) == i {
			return mkSeqConcat(s.sort, pre, mkUnit(v), mkExtract(last.args[0], mkAdd(last.args[1], mkInt(1)), last.args[2]))
		}
	}
	return intern(&Term{op: OSeqUpdate, sort: s.sort, args: []*Term{s, i, v}})
}

func mkZeros(s *Sort, n, z *Term) *Term {
	if n.op == OInt && n.n.Sign() >= 0 && n.n.IsInt64() && n.n.Int64() <= 64 {
		var as []*Term
		for i := int64(0); i < n.n.Int64(); i++ {
			as = append(as, mkUnit(z))
		}
		return mkSeqConcat(s, as...)
	}
	return mkApp("zeros", s, n, z)
}

// ---- structs ----

func mkMk(s *Sort, fs []*Term) *Term {
	// eta: Mk(Sel0 t, Sel1 t, ...) = t
	if len(fs) > 0 && fs[0].op == OSel && fs[0].idx == 0 && fs[0].args[0].sort == s {
		t := fs[0].args[0]
		all := true
		for i, f := range fs {
			if f.op != OSel || f.idx != i || f.args[0] != t {
				all = false
				break
			}
		}
		if all {
			return t
		}
	}
	for i, f := range fs {
		if f.sort != s.fields[i] {
			panic(fmt.Sprintf("mkMk %s field %d: got %s want %s", s.name, i, f.sort.name, s.fields[i].name))
		}
	}
	return intern(&Term{op: OMk, sort: s, args: fs})
}

func mkSel(i int, t *Term) *Term {
	switch t.op {
	case OMk:
		return t.args[i]
	case OIte:
		return mkIte(t.args[0], mkSel(i, t.args[1]), mkSel(i, t.args[2]))
	case OFold:
		if r := selFold(i, t); r != nil {
			return r
		}
	}
	return intern(&Term{op: OSel, sort: t.sort.fields[i], idx: i, args: []*Term{t}})
}

func withField(t *Term, i int, v *Term) *Term {
	fs := make([]*Term, len(t.sort.fields))
	for j := range fs {
		if j == i {
			fs[j] = v
		} else {
			fs[j] = mkSel(j, t)
		}
	}
	return mkMk(t.sort, fs)
}

// ---- ite ----

func pick(c *Term, val bool, t *Term) *Term {
	if t.op == OIte {
		if t.args[0] == c {
			if val {
				return pick(c, val, t.args[1])
			}
			return pick(c, val, t.args[2])
		}
		if t.args[0] == mkNot(c) {
			if val {
				return pick(c, val, t.args[2])
			}
			return pick(c, val, t.args[1])
		}
	}
	if t.op == OConcat || t.op == OSeqConcat {
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = a
			if a.op == OIte {
				as[i] = pick(c, val, a)
				if as[i] != a {
					ch = true
				}
			}
		}
		if ch {
			if t.op == OConcat {
				return mkConcat(as...)
			}
			return mkSeqConcat(t.sort, as...)
		}
	}
	return t
}

func mkIte(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkIte sorts %s %s", a.sort.name, b.sort.name))
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	a, b = pick(c, true, a), pick(c, false, b)
	if a == b {
		return a
	}
	if c.op == OIsT && b.op == OIte && b.args[1] == a && (b.args[0].op == OIsT || b.args[0].op == OOr && typeTests(b.args[0].args)) {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2]) // several types treated alike
	}
	if c.op == OEq && (c.args[0] == a && c.args[1] == b || c.args[0] == b && c.args[1] == a) {
		return b
	}
	switch a.sort.kind {
	case SBool:
		if a == True {
			return mkOr(c, b)
		}
		if a == False {
			return mkAnd(mkNot(c), b)
		}
		if b == True {
			return mkOr(mkNot(c), a)
		}
		if b == False {
			return mkAnd(c, a)
		}
		if a == c {
			return mkOr(c, b)
		}
	case SStruct:
		if len(a.sort.fields) > 0 {
			fs := make([]*Term, len(a.sort.fields))
			if a.op == OMk || b.op == OMk {
				for i := range fs {
					fs[i] = mkIte(c, mkSel(i, a), mkSel(i, b))
				}
				return mkMk(a.sort, fs)
			}
		} else {
			return a
		}
	case SStr, SSeq:
		var wa, wb []*Term
		if a.sort.kind == SStr {
			wa, wb = wordOf(a), wordOf(b)
		} else {
			wa, wb = seqWord(a), seqWord(b)
		}
		if a.sort.kind == SSeq && len(wa) == 1 && len(wb) == 1 && wa[0].op == OSeqUnit && wb[0].op == OSeqUnit {
			return mkUnit(mkIte(c, wa[0].args[0], wb[0].args[0]))
		}
		p := 0
		for p < len(wa) && p < len(wb) && wa[p] == wb[p] {
			p++
		}
		s := 0
		for s < len(wa)-p && s < len(wb)-p && wa[len(wa)-1-s] == wb[len(wb)-1-s] {
			s++
		}
		if a.sort.kind == SStr {
			// a literal that begins (or ends) the other side's
			if p+s < len(wa) && p+s < len(wb) {
				if la, lb := wa[p], wb[p]; la.op == OStr && lb.op == OStr && la != lb {
					l := la.name
					if len(lb.name) < len(l) {
						l = lb.name
					}
					if strings.HasPrefix(la.name, l) && strings.HasPrefix(lb.name, l) {
						na := append([]*Term{mkStr(la.name[len(l):])}, wa[p+1:]...)
						nb := append([]*Term{mkStr(lb.name[len(l):])}, wb[p+1:]...)
						return mkConcat(append(append([]*Term{}, wa[:p]...), mkStr(l), mkIte(c, mkConcat(na...), mkConcat(nb...)))...)
					}
				}
				if la, lb := wa[len(wa)-1-s], wb[len(wb)-1-s]; la.op == OStr && lb.op == OStr && la != lb {
					l := la.name
					if len(lb.name) < len(l) {
						l = lb.name
					}
					if strings.HasSuffix(la.name, l) && strings.HasSuffix(lb.name, l) {
						na := append(append([]*Term{}, wa[:len(wa)-1-s]...), mkStr(strings.TrimSuffix(la.name, l)))
						nb := append(append([]*Term{}, wb[:len(wb)-1-s]...), mkStr(strings.TrimSuffix(lb.name, l)))
						ts := []*Term{mkIte(c, mkConcat(na...), mkConcat(nb...)), mkStr(l)}
						return mkConcat(append(ts, wa[len(wa)-s:]...)...)
					}
				}
			}
		}
		if p+s > 0 {
			cat := func(ts ...*Term) *Term {
				if a.sort.kind == SStr {
					return mkConcat(ts...)
				}
				return mkSeqConcat(a.sort, ts...)
			}
			pre, suf := wa[:p], wa[len(wa)-s:]
			mid := mkIte(c, cat(wa[p:len(wa)-s]...), cat(wb[p:len(wb)-s]...))
			ts := append(append(append([]*Term{}, pre...), mid), suf...)
			return cat(ts...)
		}
	case SAny:
		// (is_T(x) ? box_T(unbox_T(x)) : x) = x
		if a.op == OBox && a.args[0].op == OUnbox && a.args[0].name == a.name && a.args[0].args[0] == b && c.op == OIsT && c.name == a.name && c.args[0] == b {
			return b
		}
	}
	return intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// ---- any ----

func mkBox(key string, v *Term) *Term {
	return intern(&Term{op: OBox, sort: AnyS, name: key, args: []*Term{v}})
}

func mkUnbox(key string, s *Sort, x *Term) *Term {
	if x.op == OBox && x.name == key {
		return x.args[0]
	}
	if x.op == OIte {
		a, b := x.args[1], x.args[2]
		// only meaningful when the tag matches: drop branches of another constructor
		if isOtherCtor(a, key) {
			return mkUnbox(key, s, b)
		}
		if isOtherCtor(b, key) {
			return mkUnbox(key, s, a)
		}
		return mkIte(x.args[0], mkUnbox(key, s, a), mkUnbox(key, s, b))
	}
	return intern(&Term{op: OUnbox, sort: s, name: key, args: []*Term{x}})
}

func isOtherCtor(x *Term, key string) bool {
	return x == NilAny || (x.op == OBox && x.name != key)
}

func mkIsT(key string, x *Term) *Term {
	switch x.op {
	case OBox:
		return mkBool(x.name == key)
	case ONilAny:
		return False
	case OIte:
		return mkIte(x.args[0], mkIsT(key, x.args[1]), mkIsT(key, x.args[2]))
	}
	return intern(&Term{op: OIsT, sort: BoolS, name: key, args: []*Term{x}})
}

func mkIsNil(x *Term) *Term {
	if x == ctxVar { // a writer is given a context
		return False
	}
	switch x.op {
	case OBox:
		return False
	case ONilAny:
		return True
	case OIte:
		return mkIte(x.args[0], mkIsNil(x.args[1]), mkIsNil(x.args[2]))
	}
	return intern(&Term{op: OIsNil, sort: BoolS, args: []*Term{x}})
}

func mkImpl(iface string, x *Term) *Term {
	switch x.op {
	case OBox:
		return mkBool(implements(x.name, iface))
	case ONilAny:
		return False
	case OIte:
		return mkIte(x.args[0], mkImpl(iface, x.args[1]), mkImpl(iface, x.args[2]))
	}
	return intern(&Term{op: OImpl, sort: BoolS, name: iface, args: []*Term{x}})
}

// ---- maps ----

func mkMapEmpty(s *Sort) *Term { return intern(&Term{op: OMapEmpty, sort: s}) }
func mkMapNil(s *Sort) *Term   { return intern(&Term{op: OMapNil, sort: s}) }
func mkMapPut(m, k, v *Term) *Term {
	if m.op == OMapPut && m.args[1] == k {
		m = m.args[0]
	}
	return intern(&Term{op: OMapPut, sort: m.sort, args: []*Term{m, k, v}})
}

// mkMapHas: the keys met in a traversal are in the map (keyAt is only used for positions below its length).
func mkMapHas(m, k *Term) *Term {
	if k.op == OApp && k.name == "keyAt" && k.args[0] == m {
		return True
	}
	switch m.op {
	case OMapEmpty, OMapNil:
		return False
	case OMapPut:
		return mkOr(mkEq(m.args[1], k), mkMapHas(m.args[0], k))
	case OIte:
		return mkIte(m.args[0], mkMapHas(m.args[1], k), mkMapHas(m.args[2], k))
	}
	return intern(&Term{op: OMapHas, sort: BoolS, args: []*Term{m, k}})
}
func mkMapGet(m, k, zero *Term) *Term {
	switch m.op {
	case OMapEmpty, OMapNil:
		return zero
	case OMapPut:
		return mkIte(mkEq(m.args[1], k), m.args[2], mkMapGet(m.args[0], k, zero))
	case OIte:
		return mkIte(m.args[0], mkMapGet(m.args[1], k, zero), mkMapGet(m.args[2], k, zero))
	}
	return mkIte(mkMapHas(m, k), mkMapGetRaw(m, k), zero)
}

// onlyValue is the constant that every entry of m has, if there is one (nil, true: m is empty).
func onlyValue(m, acc *Term) (*Term, bool) {
	join := func(a, b *Term) (*Term, bool) {
		va, ok := onlyValue(a, acc)
		if !ok {
			return nil, false
		}
		vb, ok := onlyValue(b, acc)
		if !ok || va != nil && vb != nil && va != vb {
			return nil, false
		}
		if va == nil {
			va = vb
		}
		return va, true
	}
	switch m.op {
	case OMapEmpty, OMapNil:
		return nil, true
	case OMapPut:
		v, ok := onlyValue(m.args[0], acc)
		switch c := m.args[2]; c.op {
		case OTrue, OFalse, OInt, OStr:
			return c, ok && (v == nil || v == c)
		}
		return nil, false
	case OIte:
		return join(m.args[1], m.args[2])
	case OFold:
		v, ok := onlyValue(m.args[1], acc)
		if !ok {
			return nil, false
		}
		b, ok := onlyValue(m.args[2], accVar(m.idx, m.sort))
		if !ok || v != nil && b != nil && v != b {
			return nil, false
		}
		if v == nil {
			v = b
		}
		return v, true
	}
	return nil, m == acc
}
func mkMapLen(m *Term) *Term {
	switch m.op {
	case OMapEmpty, OMapNil:
		return mkInt(0)
	case OMapPut:
		return mkAdd(mkMapLen(m.args[0]), mkIte(mkMapHas(m.args[0], m.args[1]), mkInt(0), mkInt(1)))
	case OIte:
		return mkIte(m.args[0], mkMapLen(m.args[1]), mkMapLen(m.args[2]))
	}
	return intern(&Term{op: OMapLen, sort: IntS, args: []*Term{m}})
}

// neverNil: one step of a loop does not turn a map into nil.
func neverNil(step, acc *Term) bool {
	if step == acc || step.op == OMapPut || step.op == OMapEmpty {
		return true
	}
	return step.op == OIte && neverNil(step.args[1], acc) && neverNil(step.args[2], acc)
}

func mkMapIsNil(m *Term) *Term {
	switch m.op {
	case OMapEmpty, OMapPut:
		return False
	case OMapNil:
		return True
	case OFold:
		if mkMapIsNil(m.args[1]) == False && neverNil(m.args[2], accVar(m.idx, m.sort)) {
			return False
		}
	case OSel: // one variable of a group
		if f := m.args[0]; f.op == OFold && mkMapIsNil(mkSel(m.idx, f.args[1])) == False &&
			neverNil(mkSel(m.idx, f.args[2]), mkSel(m.idx, accVar(f.idx, f.sort))) {
			return False
		}
	case OIte:
		return mkIte(m.args[0], mkMapIsNil(m.args[1]), mkMapIsNil(m.args[2]))
	}
	return intern(&Term{op: OMapIsNil, sort: BoolS, args: []*Term{m}})
}

// ---- pointers ----

func mkPtrNil(s *Sort) *Term { return intern(&Term{op: OPtrNil, sort: s}) }
func mkPtrIsNil(p *Term) *Term {
	switch p.op {
	case OPtrNil:
		return True
	case ORef, OMkPtr:
		return False
	case OIte:
		return mkIte(p.args[0], mkPtrIsNil(p.args[1]), mkPtrIsNil(p.args[2]))
	}
	return intern(&Term{op: OPtrIsNil, sort: BoolS, args: []*Term{p}})
}
func mkMkPtr(v *Term) *Term {
	if v.op == ODeref {
		return v.args[0]
	}
	return intern(&Term{op: OMkPtr, sort: ptrSort(v.sort), args: []*Term{v}})
}
func mkDeref(p *Term) *Term {
	switch p.op {
	case OMkPtr:
		return p.args[0]
	case OIte:
		if p.args[1].op == OPtrNil {
			return mkDeref(p.args[2])
		}
		if p.args[2].op == OPtrNil {
			return mkDeref(p.args[1])
		}
		return mkIte(p.args[0], mkDeref(p.args[1]), mkDeref(p.args[2]))
	}
	return intern(&Term{op: ODeref, sort: p.sort.elem, args: []*Term{p}})
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	if r := simpApp(name, s, args); r != nil {
		return r
	}
	return intern(&Term{op: OApp, sort: s, name: name, args: args})
}

func mkRef(id int, s *Sort) *Term { return intern(&Term{op: ORef, sort: s, idx: id}) }

// ---------------------------------------------------------------------------
// Rebuild / substitute
// ---------------------------------------------------------------------------

func rebuild(t *Term, as []*Term) *Term {
	same := true
	for i := range as {
		if as[i] != t.args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.op {
	case ONot:
		return mkNot(as[0])
	case OAnd:
		return mkAnd(as...)
	case OOr:
		return mkOr(as...)
	case OEq:
		return mkEq(as[0], as[1])
	case OIte:
		return mkIte(as[0], as[1], as[2])
	case OAdd:
		return mkAdd(as...)
	case OMul:
		return mkMul(as[0], as[1])
	case OMod:
		return mkMod(as[0], as[1])
	case OLe:
		return mkLe(as[0], as[1])
	case OConcat:
		return mkConcat(as...)
	case OSeqConcat:
		return mkSeqConcat(t.sort, as...)
	case OSeqUnit:
		return mkUnit(as[0])
	case OLen:
		return mkLen(as[0])
	case OStrLen:
		return mkStrLen(as[0])
	case OAt:
		return mkAt(as[0], as[1])
	case OExtract:
		return mkExtract(as[0], as[1], as[2])
	case OSeqUpdate:
		return mkSeqUpdate(as[0], as[1], as[2])
	case OMk:
		return mkMk(t.sort, as)
	case OSel:
		return mkSel(t.idx, as[0])
	case OBox:
		return mkBox(t.name, as[0])
	case OUnbox:
		return mkUnbox(t.name, t.sort, as[0])
	case OIsT:
		return mkIsT(t.name, as[0])
	case OIsNil:
		return mkIsNil(as[0])
	case OImpl:
		return mkImpl(t.name, as[0])
	case OMapPut:
		return mkMapPut(as[0], as[1], as[2])
	case OMapHas:
		return mkMapHas(as[0], as[1])
	case OMapGet:
		return mkMapGetRaw(as[0], as[1])
	case OMapLen:
		return mkMapLen(as[0])
	case OMapIsNil:
		return mkMapIsNil(as[0])
	case OPtrIsNil:
		return mkPtrIsNil(as[0])
	case OMkPtr:
		return mkMkPtr(as[0])
	case ODeref:
		return mkDeref(as[0])
	case OApp:
		return mkApp(t.name, t.sort, as...)
	}
	panic(fmt.Sprintf("rebuild: op %d", t.op))
}

// raw get (guarded by has elsewhere)
func mkMapGetRaw(m, k *Term) *Term {
	switch m.op {
	case OMapPut:
		return mkIte(mkEq(m.args[1], k), m.args[2], mkMapGetRaw(m.args[0], k))
	case OIte:
		return mkIte(m.args[0], mkMapGetRaw(m.args[1], k), mkMapGetRaw(m.args[2], k))
	}
	if m.op == OFold {
		if v, ok := onlyValue(m, nil); ok && v != nil {
			return v
		}
	}
	return intern(&Term{op: OMapGet, sort: m.sort.elem, args: []*Term{m, k}})
}

func subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	r := t
	if isBinder(t) {
		r = substBinder(t, f, memo)
	} else if len(t.args) > 0 {
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = subst(a, f, memo)
		}
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func substMap(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return newSubster(m).sub(t)
}

// subster replaces terms; binders in which none of them occurs stay as they are, and where no variable
// can be captured a binder is rebuilt without opening it.
type subster struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	occ  map[*Term]bool
	lvl  int // highest binder level in what is put in
}

func newSubster(m map[*Term]*Term) *subster {
	s := &subster{m: m, memo: map[*Term]*Term{}, occ: map[*Term]bool{}}
	for _, v := range m {
		if v.lvl > s.lvl {
			s.lvl = v.lvl
		}
	}
	return s
}

func (s *subster) occurs(t *Term) bool {
	if _, ok := s.m[t]; ok {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := s.occ[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if s.occurs(a) {
			r = true
			break
		}
	}
	s.occ[t] = r
	return r
}

// captures: what is put in mentions the variables of the binder.
func (s *subster) captures(t *Term) bool {
	if s.lvl >= t.idx {
		return true
	}
	for k, v := range s.m {
		for _, b := range boundVars(v) {
			if b == idxVar(t.idx) || b.name[0] == '@' && b == accVar(t.idx, b.sort) {
				return true
			}
		}
		for _, b := range boundVars(k) {
			if b == idxVar(t.idx) || b.name[0] == '@' && b == accVar(t.idx, b.sort) {
				return true
			}
		}
	}
	return false
}

func (s *subster) sub(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := t
	switch {
	case !s.occurs(t):
	case isBinder(t) && s.captures(t):
		r = substBinder(t, func(x *Term) *Term { return s.m[x] }, s.memo)
	case isBinder(t):
		j := idxVar(t.idx)
		n, body := s.sub(t.args[0]), s.sub(t.args[len(t.args)-1])
		switch t.op {
		case OFold:
			init := s.sub(t.args[1])
			r = mkFold(n, init, accVar(t.idx, t.sort), j, body)
		case OBig:
			r = mkBigT(n, j, body)
		case OExists:
			r = mkExists(n, j, body)
		default:
			r = mkFirst(n, j, body)
		}
	default:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s.sub(a)
		}
		r = rebuild(t, as)
	}
	s.memo[t] = r
	return r
}

func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	f(t)
}

// ---------------------------------------------------------------------------
// Printing
// ---------------------------------------------------------------------------

func (t *Term) String() string { return t.str(strDepth) }

var strDepth = func() int {
	if d, err := strconv.Atoi(os.Getenv("GOV_DEPTH")); err == nil {
		return d
	}
	return 12
}()

func (t *Term) str(d int) string {
	if d <= 0 {
		return "…"
	}
	js := func(sep string) string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d-1))
		}
		return strings.Join(p, sep)
	}
	switch t.op {
	case OVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OInt:
		return t.n.String()
	case OStr:
		return strconv.Quote(t.name)
	case ONot:
		return "¬" + t.args[0].str(d-1)
	case OAnd:
		return "(" + js(" ∧ ") + ")"
	case OOr:
		return "(" + js(" ∨ ") + ")"
	case OEq:
		return "(" + js(" = ") + ")"
	case OIte:
		return "(" + t.args[0].str(d-1) + " ? " + t.args[1].str(d-1) + " : " + t.args[2].str(d-1) + ")"
	case OAdd:
		return "(" + js("+") + ")"
	case OMul:
		return js("*")
	case OLe:
		return "(" + js(" ≤ ") + ")"
	case OConcat, OSeqConcat:
		return "⟨" + js(" · ") + "⟩"
	case OSeqUnit:
		return "[" + js("") + "]"
	case OSeqEmpty:
		return "[]"
	case OLen, OStrLen, OMapLen:
		return "|" + js("") + "|"
	case OAt:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case OExtract:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":" + t.args[2].str(d-1) + "]"
	case OMk:
		n := strings.TrimPrefix(t.sort.name, "S:")
		return n + "{" + js(", ") + "}"
	case OSel:
		n := strconv.Itoa(t.idx)
		if t.idx < len(t.args[0].sort.fnames) {
			n = t.args[0].sort.fnames[t.idx]
		}
		return t.args[0].str(d-1) + "." + n
	case OBox:
		return "box<" + t.name + ">(" + js("") + ")"
	case OUnbox:
		return t.args[0].str(d-1) + ".(" + t.name + ")"
	case OIsT:
		return "is<" + t.name + ">(" + js("") + ")"
	case OIsNil, OPtrIsNil, OMapIsNil:
		return "isnil(" + js("") + ")"
	case ONilAny, OPtrNil, OMapNil:
		return "nil"
	case OImpl:
		return "impl<" + t.name + ">(" + js("") + ")"
	case OMapEmpty:
		return "{}"
	case OMapPut:
		return "put(" + js(", ") + ")"
	case OMapGet:
		return "get(" + js(", ") + ")"
	case OMapHas:
		return "has(" + js(", ") + ")"
	case OApp:
		return t.name + "(" + js(", ") + ")"
	case ORef:
		return fmt.Sprintf("ref#%d", t.idx)
	case OMkPtr:
		return "&" + js("")
	case ODeref:
		return "*" + js("")
	case OBig:
		return fmt.Sprintf("Σ#%d<%s.(%s)", t.idx, t.args[0].str(d-1), t.args[1].str(d-1))
	case OExists:
		return fmt.Sprintf("∃#%d<%s.(%s)", t.idx, t.args[0].str(d-1), t.args[1].str(d-1))
	case OFirst:
		return fmt.Sprintf("first#%d<%s.(%s)", t.idx, t.args[0].str(d-1), t.args[1].str(d-1))
	case OFold:
		return fmt.Sprintf("fold#%d<%s from %s.(%s)", t.idx, t.args[0].str(d-1), t.args[1].str(d-1), t.args[2].str(d-1))
	case OMod:
		return "(" + js(" mod ") + ")"
	case OSeqUpdate:
		return "upd(" + js(", ") + ")"
	}
	return "?"
}
