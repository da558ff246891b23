package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// initGlobals executes the package initialisers symbolically: package-level variables have the value
// they are initialised with, unless a function changes them later (as the frame analysis finds).
func (p *Program) initGlobals() {
	var paths []string
	for path := range p.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		fn := p.pkgs[path].Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		x := newExec()
		st := newState()
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x.initInstr(st, in)
			}
		}
		for id, c := range st.heap {
			p.heap0[id] = c
		}
	}
	// those a function changes later can have any value
	p.fr = p.runFrames()
	for _, f := range p.fr.funcs {
		if f.Synthetic != "" && f.Name() == "init" || p.fr.report[f] == nil {
			continue
		}
		for _, g := range p.fr.report[f].global {
			if id, ok := globalRef[g]; ok {
				p.heap0[id] = mkVar("global:"+g.String(), refSort[id])
			}
		}
	}
}

func (x *Exec) initInstr(st *State, in ssa.Instruction) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
			if v, ok := in.(ssa.Value); ok {
				st.env[v] = Poison{"initialiser not understood"}
			}
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					pv := x.globalPtr(st, g).(PtrV)
					st.heap[pv.ref] = mkVar("global:"+g.String(), sortOf(g.Type().Underlying().(*types.Pointer).Elem()))
				}
			}
		}
	}()
	switch i := in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return:
		return
	case *ssa.Call:
		if c := i.Common().StaticCallee(); c != nil && c.Name() == "init" && c.Synthetic != "" {
			return
		}
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
			return
		}
	}
	if x.instr(st, in) == nil {
		panic(unsupported{"initialiser panics", in.Pos()})
	}
}
