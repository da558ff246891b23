package main

import (
	"go/types"
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A loop that computes the same thing before it is entered and at the end of each turn,
//
//	for x := f(); ok(x); x = f() { ... }
//
// is rewritten to compute it at the start of each turn. The code is the same instructions in the same
// order: a tail that all predecessors of a block have in common runs at the start of the block instead.

func rotateLoops(prog *ssa.Program, in func(*ssa.Function) bool) {
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) == 0 || !in(f) {
			continue
		}
		for _, b := range f.Blocks {
			if len(b.Preds) == 2 && b.Preds[0] != b.Preds[1] && (b.Dominates(b.Preds[0]) != b.Dominates(b.Preds[1])) {
				sinkTails(b)
			}
		}
	}
}

func sinkTails(h *ssa.BasicBlock) {
	p, q := h.Preds[0], h.Preds[1]
	if len(p.Succs) != 1 || len(q.Succs) != 1 {
		return
	}
	n := 0
	for n < len(p.Instrs)-1 && n < len(q.Instrs)-1 && sameShape(p.Instrs[len(p.Instrs)-2-n], q.Instrs[len(q.Instrs)-2-n]) {
		n++
	}
	for ; n > 0; n-- {
		if sink(h, p, q, n) {
			return
		}
	}
}

// sink moves the last n instructions of the predecessors into the block, if they are the same.
func sink(h, p, q *ssa.BasicBlock, n int) bool {
	tp, tq := p.Instrs[len(p.Instrs)-1-n:len(p.Instrs)-1], q.Instrs[len(q.Instrs)-1-n:len(q.Instrs)-1]
	mate := map[ssa.Value]ssa.Value{}
	work := false
	for k := range tp {
		op, oq := tp[k].Operands(nil), tq[k].Operands(nil)
		if len(op) != len(oq) {
			return false
		}
		for i := range op {
			x, y := *op[i], *oq[i]
			if m, ok := mate[x]; ok && m == y {
				continue
			}
			if x == nil && y == nil || x == y || sameConst(x, y) {
				continue
			}
			return false
		}
		if x, ok := tp[k].(ssa.Value); ok {
			mate[x] = tq[k].(ssa.Value)
		}
		if _, ok := tp[k].(*ssa.Call); ok {
			work = true
		}
	}
	if !work { // nothing that is worth the trouble
		return false
	}
	inTail := map[ssa.Instruction]bool{}
	for k := range tp {
		inTail[tp[k]], inTail[tq[k]] = true, true
	}
	phiOf := map[*ssa.Phi]ssa.Value{}
	var phis []*ssa.Phi
	for _, i := range h.Instrs {
		if f, ok := i.(*ssa.Phi); ok {
			phis = append(phis, f)
		}
	}
	edge := func(f *ssa.Phi, b *ssa.BasicBlock) ssa.Value {
		for i, x := range h.Preds {
			if x == b {
				return f.Edges[i]
			}
		}
		return nil
	}
	for _, f := range phis {
		x, y := edge(f, p), edge(f, q)
		if m, ok := mate[x]; ok {
			if m != y {
				return false
			}
			phiOf[f] = y
			continue
		}
		for _, m := range mate {
			if m == y {
				return false
			}
		}
	}
	// the values are used by the tail itself and the phis of the block only
	for k := range tp {
		for _, t := range []ssa.Instruction{tp[k], tq[k]} {
			v, ok := t.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if inTail[r] {
					continue
				}
				if f, ok := r.(*ssa.Phi); ok && f.Block() == h && phiOf[f] != nil {
					continue
				}
				return false
			}
		}
	}
	// the operands of the tail at the end of the turn have to be defined where the block starts
	for k := range tq {
		for _, o := range tq[k].Operands(nil) {
			if i, ok := (*o).(ssa.Instruction); ok && !inTail[i] {
				d := i.Block()
				if d == nil || !(d != h && d.Dominates(h)) {
					return false
				}
			}
		}
	}
	for f, v := range phiOf {
		for _, r := range append([]ssa.Instruction{}, *f.Referrers()...) {
			for _, o := range r.Operands(nil) {
				if *o == ssa.Value(f) {
					*o = v
				}
			}
			*v.Referrers() = append(*v.Referrers(), r)
		}
		*f.Referrers() = nil
	}
	var ins []ssa.Instruction
	rest := h.Instrs
	for len(rest) > 0 {
		f, ok := rest[0].(*ssa.Phi)
		if !ok {
			break
		}
		if phiOf[f] == nil {
			ins = append(ins, f)
		}
		rest = rest[1:]
	}
	ins = append(append(ins, tq...), rest...)
	for _, t := range tp {
		for _, o := range t.Operands(nil) {
			if *o == nil || (*o).Referrers() == nil {
				continue
			}
			rs := (*o).Referrers()
			var keep []ssa.Instruction
			for _, r := range *rs {
				if r != t {
					keep = append(keep, r)
				}
			}
			*rs = keep
		}
	}
	p.Instrs = append(append([]ssa.Instruction{}, p.Instrs[:len(p.Instrs)-1-n]...), p.Instrs[len(p.Instrs)-1])
	q.Instrs = append(append([]ssa.Instruction{}, q.Instrs[:len(q.Instrs)-1-n]...), q.Instrs[len(q.Instrs)-1])
	for _, t := range tq {
		f := reflect.ValueOf(t).Elem().FieldByName("block")
		*(**ssa.BasicBlock)(unsafe.Pointer(f.UnsafeAddr())) = h
	}
	h.Instrs = ins
	return true
}

func sameConst(x, y ssa.Value) bool {
	a, ok1 := x.(*ssa.Const)
	b, ok2 := y.(*ssa.Const)
	return ok1 && ok2 && types.Identical(a.Type(), b.Type()) && a.String() == b.String()
}

// sameShape: the two instructions do the same to their operands.
func sameShape(a, b ssa.Instruction) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if x, ok := a.(ssa.Value); ok && !types.Identical(x.Type(), b.(ssa.Value).Type()) {
		return false
	}
	switch x := a.(type) {
	case *ssa.Call:
		y := b.(*ssa.Call)
		return x.Call.Method == y.Call.Method && len(x.Call.Args) == len(y.Call.Args)
	case *ssa.UnOp:
		y := b.(*ssa.UnOp)
		return x.Op == y.Op && x.CommaOk == y.CommaOk
	case *ssa.BinOp:
		return x.Op == b.(*ssa.BinOp).Op
	case *ssa.FieldAddr:
		return x.Field == b.(*ssa.FieldAddr).Field
	case *ssa.Field:
		return x.Field == b.(*ssa.Field).Field
	case *ssa.Extract:
		return x.Index == b.(*ssa.Extract).Index
	case *ssa.Lookup:
		return x.CommaOk == b.(*ssa.Lookup).CommaOk
	case *ssa.TypeAssert:
		y := b.(*ssa.TypeAssert)
		return x.CommaOk == y.CommaOk && types.Identical(x.AssertedType, y.AssertedType)
	case *ssa.Store, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		return true
	}
	return false
}
