package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State)

var intrinsics map[string]intrinsic

// ---------------------------------------------------------------------------
// Simplification of applications
// ---------------------------------------------------------------------------

func simpApp(name string, s *Sort, args []*Term) *Term {
	c := func(i int) bool { return args[i].op == OStr }
	// distribute over case splits of constants
	switch name {
	case "chr":
		if args[0].op == OInt {
			n := args[0].n
			if !n.IsInt64() || n.Int64() < 0 || n.Int64() > 0x10ffff {
				return mkStr(string(utf8.RuneError))
			}
			return mkStr(string(rune(n.Int64())))
		}
		if args[0].op == OIte {
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1]), mkApp(name, s, args[0].args[2]))
		}
	case "itoa":
		if args[0].op == OInt {
			return mkStr(args[0].n.String())
		}
	case "replaceAll":
		if c(1) && c(2) {
			if c(0) {
				return mkStr(strings.ReplaceAll(args[0].name, args[1].name, args[2].name))
			}
			if utf8.RuneCountInString(args[1].name) == 1 {
				if args[0].op == OConcat {
					var ts []*Term
					for _, a := range args[0].args {
						ts = append(ts, mkApp(name, s, a, args[1], args[2]))
					}
					return mkConcat(ts...)
				}
				if args[0].op == OApp && args[0].name == "itoa" && !strings.ContainsAny(args[1].name, "-0123456789") {
					return args[0]
				}
				// the same character already removed
				if args[0].op == OApp && args[0].name == "replaceAll" && args[0].args[1] == args[1] &&
					args[0].args[2].op == OStr && !strings.Contains(args[0].args[2].name, args[1].name) {
					return args[0]
				}
				// independent replacements commute: order by the replaced character
				if args[0].op == OApp && args[0].name == "replaceAll" && args[0].args[1].op == OStr && args[0].args[2].op == OStr {
					o1, n1, o2, n2 := args[0].args[1].name, args[0].args[2].name, args[1].name, args[2].name
					if utf8.RuneCountInString(o1) == 1 && o2 < o1 && !strings.Contains(n1, o2) && !strings.Contains(n2, o1) {
						return mkApp(name, s, mkApp(name, s, args[0].args[0], args[1], args[2]), args[0].args[1], args[0].args[2])
					}
				}
			}
			if args[1] == args[2] {
				return args[0]
			}
		}
		if args[0].op == OIte {
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1], args[1], args[2]), mkApp(name, s, args[0].args[2], args[1], args[2]))
		}
	case "split":
		if c(0) && c(1) {
			var ts []*Term
			for _, p := range strings.Split(args[0].name, args[1].name) {
				ts = append(ts, mkUnit(mkStr(p)))
			}
			return mkSeqConcat(s, ts...)
		}
	case "join":
		if us := allUnits(args[0]); us != nil {
			var ts []*Term
			for i, u := range us {
				if i > 0 {
					ts = append(ts, args[1])
				}
				ts = append(ts, u)
			}
			return mkConcat(ts...)
		}
		if args[0].op == OIte {
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1], args[1]), mkApp(name, s, args[0].args[2], args[1]))
		}
		if len(seqWord(args[0])) == 1 && !args[0].hasRef && !args[1].hasRef {
			j := freshNonNeg("j")
			var el *Term
			n := mkLen(args[0])
			if args[0].op == OBig && args[0].args[1].op == OSeqUnit {
				el = openB(args[0], j, nil).args[0]
				n = args[0].args[0]
			} else if args[0].op == OVar || args[0].op == OSel || args[0].op == OApp || args[0].op == OUnbox {
				el = mkAt(args[0], j)
			}
			if el != nil {
				return mkBigT(n, j, mkConcat(mkIte(mkEq(j, mkInt(0)), mkStr(""), args[1]), el))
			}
		}
	case "toUpper", "toLower", "trimSpace":
		if c(0) {
			switch name {
			case "toUpper":
				return mkStr(strings.ToUpper(args[0].name))
			case "toLower":
				return mkStr(strings.ToLower(args[0].name))
			}
			return mkStr(strings.TrimSpace(args[0].name))
		}
		if name == "trimSpace" && args[0].op == OApp && args[0].name == name {
			return args[0]
		}
		if args[0].op == OIte {
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1]), mkApp(name, s, args[0].args[2]))
		}
	case "runes":
		if c(0) {
			var ts []*Term
			for _, r := range args[0].name {
				ts = append(ts, mkUnit(mkInt(int64(r))))
			}
			return mkSeqConcat(s, ts...)
		}
	case "runesToStr":
		switch args[0].op {
		case OSeqEmpty:
			return mkStr("")
		case OSeqUnit:
			return mkApp("chr", StrS, args[0].args[0])
		case OSeqConcat:
			var ts []*Term
			for _, a := range args[0].args {
				ts = append(ts, mkApp(name, s, a))
			}
			return mkConcat(ts...)
		case OIte:
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1]), mkApp(name, s, args[0].args[2]))
		case OBig:
			j := freshNonNeg("j")
			return mkBigT(args[0].args[0], j, mkApp(name, s, openB(args[0], j, nil)))
		}
	case "strlt":
		if args[0] == args[1] {
			return False
		}
		if args[0].op == OStr && args[1].op == OStr {
			return mkBool(args[0].name < args[1].name)
		}
	case "sprintf":
		if args[0].op == OStr {
			if us := allUnits(args[1]); us != nil {
				if r := sprintfTerm(args[0].name, us); r != nil {
					return r
				}
			}
		}
	case "ext:strings.Replace":
		if args[3].op == OInt && args[3].n.Sign() < 0 {
			return mkApp("replaceAll", StrS, args[:3]...)
		}
		if c(0) && c(1) {
			return mkBool(args[0].name < args[1].name)
		}
	case "sorted":
		a := args[0]
		if a.op == OSeqEmpty || a.op == OSeqUnit {
			return a
		}
		if a.op == OApp && a.name == "sorted" && a.args[1] == args[1] {
			return a
		}
		if a.op == OSeqConcat { // a sorted part of a multiset is that part
			ch := false
			var ts []*Term
			for _, w := range a.args {
				if w.op == OApp && w.name == "sorted" {
					ts = append(ts, w.args[0])
					ch = true
				} else {
					ts = append(ts, w)
				}
			}
			n := mkSeqConcat(a.sort, ts...)
			ws := append([]*Term{}, seqWord(n)...)
			sort.Slice(ws, func(i, j int) bool { return ws[i].id < ws[j].id })
			n2 := mkSeqConcat(a.sort, ws...)
			if ch || n2 != a {
				return mkApp(name, s, n2, args[1])
			}
		}
	case "zeros":
		if n := args[0]; n.op == OInt && n.n.Sign() >= 0 && n.n.IsInt64() && n.n.Int64() <= 64 {
			return mkZeros(s, n, args[1])
		}
	case "mul":
		if args[0].op == OInt || args[1].op == OInt {
			return mkMul(args[0], args[1])
		}
		if args[0].id > args[1].id {
			return intern(&Term{op: OApp, sort: s, name: name, args: []*Term{args[1], args[0]}})
		}
	case "isnilslice":
		if args[0].op == OSeqEmpty {
			return True
		}
		if us := allUnits(args[0]); us != nil && len(us) > 0 {
			return False
		}
	case "vspec.Std":
		if args[0] == mkStr("") {
			return args[0]
		}
	}
	switch name {
	case "pan:stmt.vRecordEmpty":
		return False
	case "pan:stmt.vEmp":
		// IsEmpty of a well-formed statement returns (lemma isEmptyTotal, verify.go)
		if args[0].op != OBox && args[0].op != OIte && args[0] != NilAny {
			return mkIsNil(args[0])
		}
	}
	if f := appFns[strings.TrimPrefix(name, "pan:")]; f != nil && P != nil && len(args) > 0 && isIfaceSpec(f) {
		if args[0].op == OBox || args[0] == NilAny {
			v, p := unfold(f, args)
			if v == nil {
				return nil
			}
			if strings.HasPrefix(name, "pan:") {
				return p
			}
			return v
		}
		if args[0].op == OIte && hasBox(args[0]) {
			return mkIte(args[0].args[0], mkApp(name, s, args[0].args[1]), mkApp(name, s, args[0].args[2]))
		}
	}
	return nil
}

type unfolded struct{ v, p *Term }

var unfoldMemo = map[string]*unfolded{}
var unfoldBusy = map[string]bool{}

// unfold executes a contract function on the given arguments: value and panic condition.
func unfold(f *ssa.Function, args []*Term) (*Term, *Term) {
	key := f.String()
	for _, a := range args {
		if a.hasRef {
			return nil, nil
		}
		key += "," + strconv.Itoa(a.id)
	}
	if u, ok := unfoldMemo[key]; ok {
		return u.v, u.p
	}
	if unfoldBusy[key] {
		return nil, nil
	}
	unfoldBusy[key] = true
	defer delete(unfoldBusy, key)
	x := newExec()
	st := newState()
	var vs []Value
	for _, a := range args {
		vs = append(vs, a)
	}
	vals, ns := x.runBody(st, f, vs, nil, f.Pos())
	var ps []*Term
	for _, e := range x.exits {
		ps = append(ps, e.cond)
	}
	u := &unfolded{p: mkOr(ps...)}
	if ns == nil {
		u.v = mkVar("bottom:"+f.Name(), sortOf(f.Signature.Results().At(0).Type()))
	} else {
		u.v = x.res(ns, vals[0], f.Pos())
	}
	unfoldMemo[key] = u
	return u.v, u.p
}

// ---------------------------------------------------------------------------
// Output to a concrete context
// ---------------------------------------------------------------------------

// emitConcrete appends a piece of output to one of the three contexts of package types. That the
// context renders it as Std / Named / Inline does is what the contracts of Write and Bind establish.
func (x *Exec) emitConcrete(st *State, key string, ref int, text, vals *Term, pos token.Pos) *State {
	text, vals = x.res(st, text, pos), x.res(st, vals, pos)
	c := st.heap[ref]
	get := func(what string, is func(s *Sort) bool) (int, *Term) {
		for i, f := range c.sort.fields {
			if is(f) {
				return i, mkSel(i, c)
			}
		}
		x.fail(pos, "context %s has no field for the %s", key, what)
		return 0, nil
	}
	text1 := func(s *Sort) bool { return s.kind == SStruct }
	switch key {
	case "*types.StdContext":
		ri, raw := get("text", text1)
		vi, v := get("values", func(s *Sort) bool { return s.kind == SSeq })
		v = x.content(st, v)
		if mkLen(v) != mkInt(0) {
			x.fail(pos, "output to a context that already has values")
		}
		raw = withField(raw, 0, mkConcat(mkSel(0, raw), mkApp("vspec.Std", StrS, text)))
		c = withField(withField(c, ri, raw), vi, vals)
	case "*types.NamedContext":
		ri, raw := get("text", text1)
		vi, v := get("values", func(s *Sort) bool { return s.kind == SMap })
		if x.content(st, v).op != OMapNil {
			x.fail(pos, "output to a context that already has values")
		}
		raw = withField(raw, 0, mkConcat(mkSel(0, raw), mkApp("vspec.NamedText", StrS, text)))
		c = withField(withField(c, ri, raw), vi, mkApp("vspec.NamedVals", v.sort, vals))
	case "*types.RawContext":
		if !x.exit(st, mkApp("pan:types.Inline", BoolS, text, vals), "lib", pos, "value cannot be formatted") {
			return nil
		}
		c = withField(c, 0, mkConcat(mkSel(0, c), mkApp("types.Inline", StrS, text, vals)))
	default:
		x.fail(pos, "output to context of type %s", key)
	}
	st.heap[ref] = c
	return st
}

// ---------------------------------------------------------------------------
// Models of library functions
// ---------------------------------------------------------------------------

func (x *Exec) ptrArg(st *State, v Value, pos token.Pos) PtrV {
	d, ok := x.deref(st, v, pos)
	if !ok {
		x.fail(pos, "library call on memory that is not owned by the function: %v", v)
	}
	return d.(PtrV)
}

// sprintfTerm renders a constant format; nil when it is not understood.
func sprintfTerm(format string, args []*Term) *Term {
	var out []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			return nil
		}
		a := args[ai]
		ai++
		if a.op != OBox {
			return nil
		}
		t := P.typesByKey[a.name]
		switch format[i] {
		case 's', 'v':
			if a.name == "string" || t != nil && a.args[0].sort == StrS && !hasMethods(t) {
				out = append(out, mkStr(lit), a.args[0])
				lit = ""
				continue
			}
			if format[i] == 'v' && t != nil && a.args[0].sort == BoolS && !hasMethods(t) {
				out = append(out, mkStr(lit), mkIte(a.args[0], mkStr("true"), mkStr("false")))
				lit = ""
				continue
			}
			if format[i] == 'v' && t != nil && a.args[0].sort == IntS && !hasMethods(t) {
				out = append(out, mkStr(lit), mkApp("itoa", StrS, a.args[0]))
				lit = ""
				continue
			}
			return nil
		case 'x':
			if a.name == "[]byte" || a.name == "[]uint8" {
				out = append(out, mkStr(lit), mkApp("ext:encoding/hex.EncodeToString", StrS, a.args[0]))
				lit = ""
				continue
			}
			return nil
		case 't':
			if a.args[0].sort == BoolS {
				out = append(out, mkStr(lit), mkIte(a.args[0], mkStr("true"), mkStr("false")))
				lit = ""
				continue
			}
			return nil
		case 'd':
			if a.args[0].sort == IntS {
				out = append(out, mkStr(lit), mkApp("itoa", StrS, a.args[0]))
				lit = ""
				continue
			}
			return nil
		}
		return nil
	}
	if ai != len(args) {
		return nil
	}
	out = append(out, mkStr(lit))
	return mkConcat(out...)
}

// stringKind tells whether a boxed value is of a string type.
func stringKind(u *Term) bool {
	if u.op != OBox {
		return false
	}
	if u.name == "string" {
		return true
	}
	t := P.typesByKey[u.name]
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// stringers calls the String methods that %s and %v use.
func (x *Exec) stringers(st *State, format string, us []*Term, pos token.Pos) ([]*Term, *State) {
	us = append([]*Term{}, us...)
	ai := 0
	for i := 0; i+1 < len(format) && ai < len(us); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		u := us[ai]
		ai++
		if format[i] != 's' && format[i] != 'v' || u.op != OBox {
			continue
		}
		t := P.typesByKey[u.name]
		if t == nil {
			continue
		}
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "Format") != nil {
			continue
		}
		m := ms.Lookup(nil, "String")
		if m == nil {
			continue
		}
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sortOf(sig.Results().At(0).Type()) != StrS {
			continue
		}
		fn := P.ssaProg.MethodValue(m)
		if fn == nil || !P.inModule(fn) {
			continue
		}
		vals, ns := x.callFn(st, fn, []Value{u.args[0]}, pos)
		if ns == nil {
			return nil, nil
		}
		st = ns
		us[ai-1] = mkBox("string", x.res(st, vals[0], pos))
	}
	return us, st
}

func hasMethods(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.NumMethods() > 0
}

var eofVal = mkBox("*errors.errorString", mkVar("io.EOF", ptrSort(opaqueSort("errors.errorString"))))

func init() {
	one := func(name string, s *Sort) intrinsic {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.res(st, a, pos))
			}
			return []Value{st.facts.simp(mkApp(name, s, ts...))}, st
		}
	}
	wr := func(conv func(x *Exec, st *State, a Value, pos token.Pos) *Term) intrinsic {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			p := x.ptrArg(st, args[0], pos)
			t := conv(x, st, args[1], pos)
			x.store(st, p, mkConcat(x.load(st, p, pos), t), pos)
			var out []Value
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				s := sortOf(rs.At(i).Type())
				switch s {
				case IntS:
					out = append(out, mkStrLen(t))
				default:
					out = append(out, zeroSort(s))
				}
			}
			return out, st
		}
	}
	wrS := wr(func(x *Exec, st *State, a Value, pos token.Pos) *Term { return x.asTerm(a, pos) })
	wrR := wr(func(x *Exec, st *State, a Value, pos token.Pos) *Term {
		return mkApp("chr", StrS, x.asTerm(a, pos))
	})
	wrB := wr(func(x *Exec, st *State, a Value, pos token.Pos) *Term {
		t := x.asTerm(a, pos)
		if t.op == OInt && t.n.IsInt64() && t.n.Int64() < 128 {
			return mkApp("chr", StrS, t)
		}
		return mkApp("byteStr", StrS, t)
	})
	wrBs := wr(func(x *Exec, st *State, a Value, pos token.Pos) *Term {
		return mkApp("bytesToStr", StrS, x.content(st, x.asTerm(a, pos)))
	})
	get := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		return []Value{x.load(st, x.ptrArg(st, args[0], pos), pos)}, st
	}
	blen := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		return []Value{mkStrLen(x.load(st, x.ptrArg(st, args[0], pos), pos))}, st
	}
	nop := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		return nil, st
	}
	reset := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		x.store(st, x.ptrArg(st, args[0], pos), mkStr(""), pos)
		return nil, st
	}
	itoa := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		if len(args) == 2 && x.asTerm(args[1], pos) != mkInt(10) {
			return x.external(st, fn, args, pos)
		}
		return []Value{mkApp("itoa", StrS, x.asTerm(args[0], pos))}, st
	}
	newErr := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.errArg(st, a, pos))
		}
		return []Value{mkBox("error:"+fn.String(), mkApp("err:"+fn.String(), opaqueSort("error"), ts...))}, st
	}
	wrapErr := func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
		e := st.facts.simp(x.asTerm(args[0], pos))
		nn := st.facts.simp(mkIsNil(e)) // which error it is counts, not its text
		w := mkBox("error:wrapped", mkApp("err:wrapped", opaqueSort("error"), e))
		return []Value{mkIte(nn, NilAny, w)}, st
	}
	intrinsics = map[string]intrinsic{
		"strings.ReplaceAll": one("replaceAll", StrS),
		"strings.Join":       one("join", StrS),
		"strings.TrimSpace":  one("trimSpace", StrS),
		"strings.ToUpper":    one("toUpper", StrS),
		"strings.ToLower":    one("toLower", StrS),
		"strings.Repeat":     one("repeat", StrS),
		"strings.NewReader": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			id := newRef()
			refSort[id] = StrS
			st.heap[id] = x.asTerm(args[0], pos)
			return []Value{PtrV{ref: id, elem: StrS}}, st
		},
		"strings.NewReplacer": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{mkApp("replacer", sortOf(fn.Signature.Results().At(0).Type()), x.content(st, x.asTerm(args[0], pos)))}, st
		},
		"(*strings.Replacer).Replace": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			r, s := x.asTerm(args[0], pos), x.asTerm(args[1], pos)
			if r.op == OApp && r.name == "replacer" {
				us := allUnits(r.args[0])
				// single-character replacements whose outputs contain none of the replaced characters
				ok := us != nil && len(us)%2 == 0
				for i := 0; ok && i < len(us); i += 2 {
					if us[i].op != OStr || us[i+1].op != OStr || utf8.RuneCountInString(us[i].name) != 1 {
						ok = false
					}
					for k := 0; ok && k < len(us); k += 2 {
						if us[k].op != OStr || strings.Contains(us[i+1].name, us[k].name) {
							ok = k == i && len(us) == 2
						}
						if k != i && us[k] == us[i] {
							ok = false
						}
					}
				}
				if ok {
					t := s
					for i := 0; i < len(us); i += 2 {
						t = mkApp("replaceAll", StrS, t, us[i], us[i+1])
					}
					return []Value{t}, st
				}
			}
			return []Value{mkApp("replace", StrS, r, s)}, st
		},
		"strconv.FormatBool": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{mkIte(x.asTerm(args[0], pos), mkStr("true"), mkStr("false"))}, st
		},
		"strconv.FormatInt":                 itoa,
		"strconv.FormatUint":                itoa,
		"strconv.Itoa":                      itoa,
		"(*strings.Builder).WriteString":    wrS,
		"(*strings.Builder).WriteRune":      wrR,
		"(*strings.Builder).WriteByte":      wrB,
		"(*strings.Builder).Write":          wrBs,
		"(*strings.Builder).String":         get,
		"(*strings.Builder).Len":            blen,
		"(*strings.Builder).Grow":           nop,
		"(*strings.Builder).Reset":          reset,
		"(*bytes.Buffer).WriteString":       wrS,
		"(*bytes.Buffer).WriteRune":         wrR,
		"(*bytes.Buffer).WriteByte":         wrB,
		"(*bytes.Buffer).Write":             wrBs,
		"(*bytes.Buffer).String":            get,
		"(*bytes.Buffer).Len":               blen,
		"(*bytes.Buffer).Grow":              nop,
		"(*bytes.Buffer).Reset":             reset,
		"fmt.Errorf":                        newErr,
		"errors.New":                        newErr,
		"github.com/pkg/errors.New":         newErr,
		"github.com/pkg/errors.Errorf":      newErr,
		"github.com/pkg/errors.Wrapf":       wrapErr,
		"github.com/pkg/errors.Wrap":        wrapErr,
		"github.com/pkg/errors.WithStack":   wrapErr,
		"github.com/pkg/errors.WithMessage": wrapErr,
		"fmt.Sprintf": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			f := x.asTerm(args[0], pos)
			as := x.content(st, x.asTerm(args[1], pos))
			if f.op == OStr {
				if us := allUnits(as); us != nil {
					if us, st = x.stringers(st, f.name, us, pos); st == nil {
						return nil, nil
					}
					if r := sprintfTerm(f.name, us); r != nil {
						return []Value{r}, st
					}
				}
			}
			return []Value{mkApp("sprintf", StrS, f, x.errArg(st, args[1], pos))}, st
		},
		"fmt.Sprint": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			as := x.content(st, x.asTerm(args[0], pos))
			if us := allUnits(as); us != nil && len(us) > 0 {
				// Sprint adds spaces only between operands that are both not strings
				f := ""
				for i, u := range us {
					if i > 0 && !stringKind(u) && !stringKind(us[i-1]) {
						f += " "
					}
					f += "%v"
				}
				if us, st = x.stringers(st, f, us, pos); st == nil {
					return nil, nil
				}
				if r := sprintfTerm(f, us); r != nil {
					return []Value{r}, st
				}
			}
			return []Value{mkApp("sprint", StrS, x.errArg(st, args[0], pos))}, st
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"bufio.NewReader": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			runes := x.readerRunes(st, args[0], pos)
			s := specialSort("bufio.Reader")
			id := newRef()
			refSort[id] = s
			st.heap[id] = mkMk(s, []*Term{runes, mkInt(0)})
			return []Value{PtrV{ref: id, elem: s}}, st
		},
		"(*bufio.Reader).ReadRune": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			p := x.ptrArg(st, args[0], pos)
			c := x.load(st, p, pos)
			rs, at := mkSel(0, c), mkSel(1, c)
			in := st.facts.simp(mkLt(at, mkLen(rs)))
			x.store(st, p, withField(c, 1, mkAdd(at, mkInt(1))), pos)
			return []Value{mkIte(in, mkAt(rs, at), mkInt(0)), mkIte(in, mkApp("runeSize", IntS, mkAt(rs, at)), mkInt(0)), mkIte(in, NilAny, eofVal)}, st
		},
		specPkgPath + ".ReaderRunes": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{x.readerRunes(st, args[0], pos)}, st
		},
		specPkgPath + ".Runes": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{mkSel(0, mkDeref(x.res(st, args[0], pos)))}, st
		},
		specPkgPath + ".Pos": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{mkSel(1, mkDeref(x.res(st, args[0], pos)))}, st
		},
		specPkgPath + ".Reader": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{mkMkPtr(mkMk(specialSort("bufio.Reader"), []*Term{x.res(st, args[0], pos), x.asTerm(args[1], pos)}))}, st
		},
		specPkgPath + ".MapPut": func(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
			return []Value{mkMapPut(x.content(st, x.res(st, args[0], pos)), x.res(st, args[1], pos), x.res(st, args[2], pos))}, st
		},
		"(*sync.Once).Do": nil,
	}
	delete(intrinsics, "(*sync.Once).Do")
}

func (x *Exec) readerRunes(st *State, r Value, pos token.Pos) *Term {
	rd := x.asTerm(r, pos)
	if rd.op == OBox && rd.name == "*strings.Reader" {
		c := rd.args[0]
		if c.op == ORef {
			return mkApp("runes", seqSort(IntS), x.load(st, c, pos))
		}
		return mkApp("runes", seqSort(IntS), mkDeref(c))
	}
	x.used["a reader given to the lexer yields a fixed rune sequence and no error but EOF"] = true
	return mkApp("readerRunes", seqSort(IntS), x.res(st, rd, pos))
}

// errArg resolves an argument that is only used in a message.
func (x *Exec) errArg(st *State, a Value, pos token.Pos) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			t = mkVar("message argument", opaqueSort("message"))
		}
	}()
	return x.res(st, a, pos)
}

// sortSlice: the result is the sorted permutation, a function of the multiset when the comparison is a
// strict order that separates different elements (a separate obligation on the comparison).
func sortSlice(x *Exec, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, *State) {
	b := x.asTerm(args[0], pos)
	if b.op != OBox || b.args[0].op != ORef || b.args[0].sort.kind != SSeq {
		x.fail(pos, "sort of a slice that is not owned by the function")
	}
	ref := b.args[0].idx
	seq := st.heap[ref]
	cl, ok := args[1].(*Closure)
	if !ok {
		x.fail(pos, "comparison is not a function literal")
	}
	i, j := freshNonNeg("si"), freshNonNeg("sj")
	probe := freshVar("sq", seq.sort)
	s2 := st.clone()
	s2.heap[ref] = probe
	s2.assume(mkLt(i, mkLen(probe)))
	s2.assume(mkLt(j, mkLen(probe)))
	mark := len(x.exits)
	vals, ns := x.runClosure(s2, cl, []Value{i, j}, pos)
	if ns == nil || len(x.exits) != mark {
		x.fail(pos, "comparison may panic")
	}
	l := x.res(ns, vals[0], pos)
	e1, e2 := mkVar("@s1:"+seq.sort.elem.name, seq.sort.elem), mkVar("@s2:"+seq.sort.elem.name, seq.sort.elem)
	l = substMap(l, map[*Term]*Term{mkAt(probe, i): e1, mkAt(probe, j): e2})
	if occurs(probe, l) || occurs(i, l) || occurs(j, l) {
		x.fail(pos, "comparison looks at more than the two elements")
	}
	x.sortOrders = append(x.sortOrders, l)
	st.heap[ref] = mkApp("sorted", seq.sort, resolve(seq, st.heap), orderRep(l))
	return nil, st
}

// runeAt is 0 past the end; fold it when known.
func init() {
	_ = big.NewInt
	_ = fmt.Sprint
}
