package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ulule/loukoum/v3"
const specPkgPath = modPath + "/vspec"

// Program is the loaded tree plus the contracts.
type Program struct {
	ffuncs     []*ssa.Function
	reps       map[*Sort]*ssa.Function // representation invariants
	fr         *frames
	fset       *token.FileSet
	ssaProg    *ssa.Program
	pkgs       map[string]*ssa.Package // by path
	pkgAST     map[string]*packages.Package
	contracts  map[*ssa.Function]*Contract
	conc       bool // replay also runs the code from several goroutines
	clist      []*Contract
	folds      []*ssa.Function
	rests      []*ssa.Function
	lemmas     []*Lemma
	opaque     map[*ssa.Function]bool
	recursive  map[*ssa.Function]bool
	mayPanic   map[*ssa.Function]bool
	ifaceSpec  map[string]*ssa.Function // "Write"/"IsEmpty" -> spec function
	typesByKey map[string]types.Type
	globals    map[*ssa.Global]*Term
	heap0      map[int]*Term
	errs       []string
	specFiles  map[string]bool
	directives []*directive
	loopHints  map[string][]string
	overlay    map[string][]byte
	loaded     []*packages.Package
}

var P *Program

func contractFiles(verif, repo string) (map[string][]byte, map[string]bool, error) {
	ov := map[string][]byte{}
	names := map[string]bool{}
	root := filepath.Join(verif, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		if dir == "root" {
			dir = "."
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, dir, "zz_"+filepath.Base(p))
		ov[dst] = b
		names[dst] = true
		return nil
	})
	return ov, names, err
}

func load(verif, repo string) (*Program, error) {
	ov, names, err := contractFiles(verif, repo)
	if err != nil {
		return nil, err
	}
	return loadRenamed(verif, repo, ov, names)
}

func loadOverlay(repo string, ov map[string][]byte, names map[string]bool) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: repo, Fset: fset, Overlay: ov,
	}
	cfg.Mode = packages.LoadSyntax
	pats := []string{"./...", specPkgPath}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: fset, pkgs: map[string]*ssa.Package{}, pkgAST: map[string]*packages.Package{},
		contracts: map[*ssa.Function]*Contract{}, opaque: map[*ssa.Function]bool{}, recursive: map[*ssa.Function]bool{},
		mayPanic: map[*ssa.Function]bool{}, ifaceSpec: map[string]*ssa.Function{}, typesByKey: map[string]types.Type{},
		globals: map[*ssa.Global]*Term{}, heap0: map[int]*Term{}, reps: map[*Sort]*ssa.Function{}, specFiles: names, loopHints: map[string][]string{}, overlay: ov}
	p.loaded = pkgs
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return p, fmt.Errorf("loading: %s", strings.Join(p.errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	p.ssaProg = prog
	for i, s := range sp {
		if s == nil {
			return p, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		p.pkgs[pkgs[i].PkgPath] = s
		p.pkgAST[pkgs[i].PkgPath] = pkgs[i]
	}
	prog.Build()
	P = p
	rotateLoops(prog, func(f *ssa.Function) bool { return p.inModule(f) })
	p.collectTypes()
	return p, nil
}

func (p *Program) isSpecFn(f *ssa.Function) bool {
	if f.Pkg == nil {
		if f.Origin() != nil {
			return p.isSpecFn(f.Origin())
		}
		return false
	}
	if f.Pkg.Pkg.Path() == specPkgPath {
		return true
	}
	fn := f
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return p.specFiles[p.fset.Position(fn.Pos()).Filename]
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(pk *types.Package) string {
		return strings.TrimPrefix(pk.Path(), modPath+"/")
	})
}

// collectTypes gathers every type that is boxed or asserted anywhere.
func (p *Program) collectTypes() {
	add := func(t types.Type) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return
		}
		p.typesByKey[typeKey(t)] = t
	}
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if fn.Pkg != nil && p.pkgs[fn.Pkg.Pkg.Path()] == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MakeInterface:
					add(i.X.Type())
				case *ssa.TypeAssert:
					add(i.AssertedType)
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					add(nt)
				}
			}
		}
	}
}

var ifaceByKey = map[string]*types.Interface{}

func ifaceKey(t types.Type) string {
	k := typeKey(t)
	if it, ok := t.Underlying().(*types.Interface); ok {
		ifaceByKey[k] = it
	}
	return k
}

func implements(key, iface string) bool {
	t := P.typesByKey[key]
	it := ifaceByKey[iface]
	if t == nil || it == nil {
		return false
	}
	return types.Implements(t, it)
}

// subIface is whether every implementation of one interface implements another.
func subIface(i, j string) bool {
	a, b := ifaceByKey[i], ifaceByKey[j]
	return a != nil && b != nil && types.Implements(a, b)
}

// ---------------------------------------------------------------------------
// Directives
// ---------------------------------------------------------------------------

type directive struct {
	kind string // contract, fold, rest, interface, lemma, opaque
	fn   *ssa.Function
	args []string
	opts map[string]string
	pos  string
	text string
}

// Contract binds a spec function to a function of /repo.
type Contract struct {
	name     string
	target   *ssa.Function
	spec     *ssa.Function
	byValue  bool   // the contract has the receiver's value, the method a pointer to it
	kind     string // writer | func | post
	props    []string
	opts     map[string]string
	pos      string
	requires *ssa.Function
	ensures  []*ssa.Function
	aux      bool // of an internal function: dropped when it does not hold, callers then look into the body
}

type Lemma struct {
	name  string
	fn    *ssa.Function
	props []string
	opts  map[string]string
}

func parseOpts(fields []string) ([]string, map[string]string) {
	var pos []string
	o := map[string]string{}
	for _, f := range fields {
		if i := strings.Index(f, "="); i > 0 {
			o[f[:i]] = f[i+1:]
		} else {
			pos = append(pos, f)
		}
	}
	return pos, o
}

// readDirectives collects `//@ kind args` lines from the doc comments of spec functions.
func (p *Program) readDirectives() error {
	var paths []string
	for path := range p.pkgAST {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.pkgAST[path]
		for _, f := range pk.Syntax {
			fname := p.fset.Position(f.Pos()).Filename
			if !p.specFiles[fname] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := p.ssaProg.FuncValue(obj)
				for _, c := range fd.Doc.List {
					c.Text = strings.Replace(c.Text, "// @ ", "//@ ", 1)
					if !strings.HasPrefix(c.Text, "//@ ") {
						continue
					}
					fs := strings.Fields(c.Text[4:])
					if len(fs) == 0 {
						continue
					}
					a, o := parseOpts(fs[1:])
					p.directives = append(p.directives, &directive{kind: fs[0], fn: fn, args: a, opts: o,
						pos: filepath.Base(p.fset.Position(fd.Pos()).Filename), text: c.Text})
				}
			}
		}
	}
	return nil
}

// findTarget finds "stmt.Column.Write", "stmt.(*PairContainer).Add", "builder.ToColumn".
func (p *Program) findTarget(name string) *ssa.Function {
	i := strings.Index(name, ".")
	pkgName, rest := name[:i], name[i+1:]
	path := modPath + "/" + pkgName
	if pkgName == "loukoum" {
		path = modPath
	}
	sp := p.pkgs[path]
	if sp == nil {
		return nil
	}
	ptr := false
	if strings.HasPrefix(rest, "(*") {
		ptr = true
		rest = strings.Replace(rest[2:], ")", "", 1)
	}
	if j := strings.Index(rest, "."); j >= 0 {
		tn, ok := sp.Pkg.Scope().Lookup(rest[:j]).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = tn.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := p.ssaProg.MethodSets.MethodSet(t).Lookup(sp.Pkg, rest[j+1:])
		if sel == nil {
			return nil
		}
		return p.ssaProg.MethodValue(sel)
	}
	return sp.Func(rest)
}

// pointerMethod is a method that is named with a value receiver and has a
// pointer receiver now: its contract says what it was, and that it leaves the
// receiver as it is.
func (p *Program) pointerMethod(name string) *ssa.Function {
	i := strings.Index(name, ".")
	j := strings.LastIndex(name, ".")
	if i == j || strings.HasPrefix(name[i+1:j], "(*") {
		return nil // the method set of the pointer has the methods of the value too
	}
	return p.findTarget(name[:i+1] + "(*" + name[i+1:j] + ")" + name[j:])
}

func (p *Program) bindDirectives() {
	for _, d := range p.directives {
		switch d.kind {
		case "contract":
			aux := false
			for _, tgt := range d.args {
				if tgt == "aux" {
					aux = true
				}
			}
			for _, tgt := range d.args {
				if tgt == "aux" {
					continue
				}
				t := p.findTarget(tgt)
				byValue := false
				if t == nil && d.opts["kind"] == "" {
					t = p.pointerMethod(tgt)
					byValue = t != nil
				}
				if aux && t == nil {
					continue // an internal function that is gone is looked through
				}
				c := &Contract{byValue: byValue, name: tgt, target: t, spec: d.fn, kind: d.opts["kind"], opts: d.opts, pos: d.pos, aux: aux}
				if c.kind == "" {
					c.kind = "func"
				}
				if s := d.opts["props"]; s != "" {
					c.props = strings.Split(s, ",")
				}
				p.clist = append(p.clist, c)
				if t != nil && c.kind != "post" {
					p.contracts[t] = c
				}
			}
		case "fold":
			p.folds = append(p.folds, d.fn)
		case "rest":
			p.rests = append(p.rests, d.fn)
		case "opaque":
			p.opaque[d.fn] = true
		case "rep":
			p.reps[sortOf(d.fn.Signature.Params().At(0).Type())] = d.fn
		case "interface":
			p.ifaceSpec[d.args[0]] = d.fn
			appFns[specName(d.fn)] = d.fn
		case "lemma":
			l := &Lemma{name: d.fn.Name(), fn: d.fn, opts: d.opts}
			if s := d.opts["props"]; s != "" {
				l.props = strings.Split(s, ",")
			}
			p.lemmas = append(p.lemmas, l)
		}
	}
	p.analyseSpecs()
}

// analyseSpecs finds recursive spec functions and those that may panic.
func (p *Program) analyseSpecs() {
	var specs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	calls := map[*ssa.Function][]*ssa.Function{}
	panics := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.isSpecFn(f) {
			return
		}
		seen[f] = true
		specs = append(specs, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Panic:
					panics[f] = true
				case ssa.CallInstruction:
					c := i.Common()
					if c.IsInvoke() {
						if s := p.ifaceSpec[c.Method.Name()]; s != nil {
							calls[f] = append(calls[f], s)
							visit(s)
						}
						continue
					}
					if callee := c.StaticCallee(); callee != nil {
						calls[f] = append(calls[f], callee)
						visit(callee)
					}
				case *ssa.TypeAssert:
					if !i.CommaOk {
						panics[f] = true
					}
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if p.isSpecFn(fn) {
			visit(fn)
		}
	}
	isIface := map[*ssa.Function]bool{}
	for _, f := range p.ifaceSpec {
		isIface[f] = true
	}
	reach := func(from, to *ssa.Function) bool {
		st := []*ssa.Function{from}
		s2 := map[*ssa.Function]bool{}
		for len(st) > 0 {
			f := st[len(st)-1]
			st = st[:len(st)-1]
			for _, c := range calls[f] {
				if c == to {
					return true
				}
				// unfolding stops at the interface contracts
				if !s2[c] && !isIface[c] {
					s2[c] = true
					st = append(st, c)
				}
			}
		}
		return false
	}
	for _, f := range specs {
		if isIface[f] || reach(f, f) {
			p.recursive[f] = true
		}
		// non-spec callee (code called from a spec): assume it may panic
		s2 := map[*ssa.Function]bool{}
		var may func(g *ssa.Function) bool
		may = func(g *ssa.Function) bool {
			if s2[g] {
				return false
			}
			s2[g] = true
			if panics[g] {
				return true
			}
			for _, c := range calls[g] {
				if may(c) {
					return true
				}
			}
			return false
		}
		p.mayPanic[f] = may(f)
	}
}
