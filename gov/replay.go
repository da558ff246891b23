package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Replay of failed obligations: the contracts are executable Go, so they are run against the real functions
// on generated inputs.

type Finding struct {
	Case   string   `json:"case"`
	Seed   int64    `json:"seed"`
	Index  int      `json:"index"`
	Input  string   `json:"input"`
	What   string   `json:"what"`
	Code   string   `json:"code"`
	Spec   string   `json:"contract"`
	Facets []string `json:"facets"`
}

type ReplayReport struct {
	Findings []Finding      `json:"findings"`
	Runs     map[string]int `json:"runs"`
	Returned map[string]int `json:"returned"`
	Distinct map[string]int `json:"distinct"`
	err      string
}

// caseOf names the replay case of a contract, "" when there is none.
func caseOf(c *Contract) string {
	switch {
	case strings.HasPrefix(c.name, "types.(*"):
		return "types.contexts"
	case strings.HasPrefix(c.name, "lexer."):
		return "lexer.tokens"
	case c.name == "parser.ParseJoin":
		return "parser.join"
	case c.name == "parser.MustParseJoin":
		return "parser.must"
	}
	if c.opts["norun"] != "" || c.kind == "post" || c.kind == "symbol" || c.target == nil {
		return ""
	}
	return c.name
}

func pkgQual(self *types.Package) types.Qualifier {
	return func(p *types.Package) string {
		if p == self {
			return ""
		}
		return p.Name()
	}
}

// harvest collects what the code distinguishes: constants and dynamic types.
func (p *Program) harvest(roots ...*ssa.Function) (strs []string, ints []int64, hints, anys []string) {
	ss, is, hs, as := map[string]bool{}, map[int64]bool{}, map[string]bool{}, map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 3 || f.Pkg == nil || p.pkgs[f.Pkg.Pkg.Path()] == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var buf [16]*ssa.Value
				for _, o := range in.Operands(buf[:0]) {
					switch v := (*o).(type) {
					case *ssa.Const:
						if v.Value == nil {
							continue
						}
						switch v.Value.Kind() {
						case constant.String:
							s := constant.StringVal(v.Value)
							if len(s) < 40 && !strings.Contains(s, "loukoum") && !strings.Contains(s, "$") && !strings.Contains(s, ":arg") && !strings.Contains(s, "\uE0FF") {
								ss[s] = true
							}
						case constant.Int:
							if n, ok := constant.Int64Val(v.Value); ok {
								is[n] = true
								if n > 31 && n < 0x3000 && f.Pkg.Pkg.Name() != "lexer" {
									ss[string(rune(n))] = true
								}
							}
						}
					case *ssa.Function:
						visit(v, d+1)
					case *ssa.Global: // what a table holds
						if v.Pkg == f.Pkg && f.Name() != "init" {
							visit(f.Pkg.Func("init"), d+1)
						}
					}
				}
				switch i := in.(type) {
				case *ssa.TypeAssert:
					h := types.TypeString(types.Unalias(i.AssertedType), func(p *types.Package) string { return p.Name() })
					hs[h] = true
					if it, ok := i.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
						as[h] = true
					}
				case *ssa.MakeClosure:
					if g, ok := i.Fn.(*ssa.Function); ok {
						visit(g, d+1)
					}
				case ssa.CallInstruction:
					if g := i.Common().StaticCallee(); g != nil {
						visit(g, d+1)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f, 0)
	}
	for s := range ss {
		strs = append(strs, s)
	}
	for i := range is {
		ints = append(ints, i)
	}
	for h := range hs {
		hints = append(hints, h)
	}
	for h := range as {
		anys = append(anys, h)
	}
	sort.Strings(anys)
	sort.Strings(strs)
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(hints)
	return
}

// exprOf is the Go expression of a function inside its package.
func exprOf(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		if pt, ok := r.Type().(*types.Pointer); ok {
			return "(*" + types.TypeString(pt.Elem(), pkgQual(f.Pkg.Pkg)) + ")." + f.Name()
		}
		return types.TypeString(r.Type(), pkgQual(f.Pkg.Pkg)) + "." + f.Name()
	}
	return f.Name()
}

// replayOverlay writes the replay program and returns the overlay file.
func (p *Program) replayOverlay(dir, verif, repo string, cs []*Contract) (string, error) {
	ov := map[string]string{}
	for dst, b := range p.overlay {
		f := filepath.Join(dir, "c"+strconv.Itoa(len(ov))+".go")
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		ov[dst] = f
	}
	ov[filepath.Join(repo, "vreplay", "vreplay.go")] = filepath.Join(verif, "replay", "vreplay.go")
	ov[filepath.Join(repo, "stmt", "zz_replay_glue.go")] = filepath.Join(verif, "replay", "glue_stmt.go")
	for _, pkg := range []string{"types", "lexer", "parser"} {
		ov[filepath.Join(repo, pkg, "zz_replay_glue.go")] = filepath.Join(verif, "replay", "glue_"+pkg+".go")
	}
	byPkg := map[string][]*Contract{}
	for _, c := range cs {
		if caseOf(c) == c.name { // the others have code of their own
			byPkg[c.target.Pkg.Pkg.Path()] = append(byPkg[c.target.Pkg.Pkg.Path()], c)
		}
	}
	main := "package main\n\nimport (\n\t\"os\"\n\t\"" + modPath + "/vreplay\"\n"
	var paths []string
	for path := range p.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := p.pkgs[path]
		if path == specPkgPath || sp.Pkg.Name() == "main" || strings.Contains(path, "/examples") {
			continue
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"reflect\"\n\t\"%s/vreplay\"\n)\n\nfunc init() {\n", sp.Pkg.Name(), modPath)
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 || n == "vrec" {
				continue
			}
			if _, ok := nt.Underlying().(*types.Interface); ok {
				fmt.Fprintf(&b, "\tvreplay.Ifaces = append(vreplay.Ifaces, reflect.TypeOf((*%s)(nil)).Elem())\n", n)
			} else {
				fmt.Fprintf(&b, "\tvreplay.Types = append(vreplay.Types, reflect.TypeOf((*%s)(nil)).Elem())\n", n)
			}
		}
		if sp.Pkg.Name() == "stmt" {
			fmt.Fprintf(&b, "\tvreplay.Types = append(vreplay.Types, reflect.TypeOf(ZZForeign{}))\n")
		}
		for _, c := range byPkg[path] {
			kind := "func"
			if c.kind == "writer" {
				kind = "writer"
			} else if r := c.target.Signature.Recv(); r != nil && isPtr(r.Type()) {
				kind = "ptr"
			}
			strs, ints, hints, anys := p.harvest(c.target, c.spec)
			fmt.Fprintf(&b, "\tvreplay.Cases = append(vreplay.Cases, &vreplay.Case{Name: %q, Kind: %q, Code: %s, Spec: %s, Strs: %#v, Ints: %#v, Hints: %#v, Anys: %#v",
				c.name, kind, exprOf(c.target), exprOf(c.spec), strs, ints, hints, anys)
			if nv := c.opts["nonnil"]; nv != "" {
				var ks []string
				for i, q := range c.target.Params {
					for _, n := range strings.Split(nv, ",") {
						if n == q.Name() {
							ks = append(ks, strconv.Itoa(i))
						}
					}
				}
				fmt.Fprintf(&b, ", NonNil: []int{%s}", strings.Join(ks, ", "))
			}
			b.WriteString("})\n")
		}
		b.WriteString("\t_ = reflect.TypeOf\n\t_ = vreplay.Cases\n}\n")
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		f := filepath.Join(dir, "r_"+strings.ReplaceAll(rel, "/", "_")+".go")
		if err := os.WriteFile(f, []byte(b.String()), 0o644); err != nil {
			return "", err
		}
		ov[filepath.Join(repo, rel, "zz_replay.go")] = f
		main += "\t_ \"" + path + "\"\n"
	}
	extra, imps := p.told()
	for path, name := range imps {
		main += "\t" + name + " \"" + path + "\"\n"
	}
	if len(extra) > 0 {
		main += "\t\"reflect\"\n"
	}
	main += ")\n\nfunc init() {\n"
	for _, e := range extra {
		main += "\tvreplay.Extra = append(vreplay.Extra, reflect.TypeOf((*" + e + ")(nil)).Elem())\n"
	}
	main += fmt.Sprintf("\tvreplay.Words = %#v\n", p.words())
	main += "}\n\nfunc main() {\n\tvreplay.Known = map[string]map[string]bool{\n"
	kn := map[string][]string{}
	if b, err := os.ReadFile(filepath.Join(verif, "replay", "fields.json")); err == nil {
		json.Unmarshal(b, &kn)
	}
	var ks []string
	for k := range kn {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		main += fmt.Sprintf("\t\t%q: {", k)
		for _, f := range kn[k] {
			main += fmt.Sprintf("%q: true, ", f)
		}
		main += "},\n"
	}
	main += "\t}\n\tvreplay.Main(os.Args[1:])\n}\n"
	f := filepath.Join(dir, "main.go")
	if err := os.WriteFile(f, []byte(main), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(repo, "zzreplay", "main.go")] = f
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	o := filepath.Join(dir, "overlay.json")
	return o, os.WriteFile(o, b, 0o644)
}

// words are texts and characters that the code that reads joins mentions.
func (p *Program) words() []string {
	var fs []*ssa.Function
	for _, f := range p.libFuncs() {
		switch f.Pkg.Pkg.Name() {
		case "lexer", "parser", "token":
			fs = append(fs, f)
		}
	}
	strs, ints, _, _ := p.harvest(fs...)
	var out []string
	for _, s := range strs {
		if len(s) < 20 && !strings.Contains(s, "%") {
			out = append(out, s)
		}
	}
	for _, n := range ints {
		if n >= 128 && n <= utf8.MaxRune && utf8.ValidRune(rune(n)) {
			out = append(out, string(rune(n)))
		}
	}
	return out
}

// told are the types of other packages that the library's code asserts, and the packages they need.
func (p *Program) told() ([]string, map[string]string) {
	imps := map[string]string{}
	var expr func(t types.Type) string
	list := func(ts ...types.Type) []string {
		var out []string
		for _, t := range ts {
			e := expr(t)
			if e == "" {
				return nil
			}
			out = append(out, e)
		}
		return out
	}
	var used map[string]string
	expr = func(t types.Type) string {
		switch t := types.Unalias(t).(type) {
		case *types.Basic:
			if t.Info()&types.IsUntyped == 0 && t.Kind() != types.UnsafePointer {
				return t.Name()
			}
		case *types.Interface:
			if t.NumMethods() == 0 && !t.IsComparable() {
				return "interface{}"
			}
		case *types.Slice:
			if e := expr(t.Elem()); e != "" {
				return "[]" + e
			}
		case *types.Array:
			if e := expr(t.Elem()); e != "" && t.Len() < 1000 {
				return fmt.Sprintf("[%d]%s", t.Len(), e)
			}
		case *types.Pointer:
			if e := expr(t.Elem()); e != "" {
				return "*" + e
			}
		case *types.Map:
			if l := list(t.Key(), t.Elem()); l != nil {
				return "map[" + l[0] + "]" + l[1]
			}
		case *types.Named:
			o := t.Obj()
			if o.Pkg() == nil || !o.Exported() || o.Parent() != o.Pkg().Scope() || p.pkgs[o.Pkg().Path()] != nil ||
				strings.Contains(o.Pkg().Path(), "internal") {
				return ""
			}
			var as []types.Type
			for i := 0; i < t.TypeArgs().Len(); i++ {
				as = append(as, t.TypeArgs().At(i))
			}
			l := list(as...)
			if len(l) != len(as) {
				return ""
			}
			used[o.Pkg().Path()] = o.Pkg().Name()
			e := o.Pkg().Name() + "." + o.Name()
			if len(l) > 0 {
				e += "[" + strings.Join(l, ", ") + "]"
			}
			return e
		}
		return ""
	}
	found := map[string]bool{}
	names := map[string]string{"reflect": "reflect", "os": "os", "vreplay": "vreplay"} // of a package, its path
	for _, f := range p.libFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.TypeAssert)
				if !ok || types.IsInterface(a.AssertedType) {
					continue
				}
				used = map[string]string{}
				e := expr(a.AssertedType)
				if e == "" || found[e] {
					continue
				}
				for path, n := range used {
					if q := names[n]; q != "" && q != path {
						e = ""
					}
				}
				if e == "" {
					continue
				}
				found[e] = true
				for path, n := range used {
					names[n] = path
					if path != "os" && path != "reflect" {
						imps[path] = n
					}
				}
			}
		}
	}
	var out []string
	for e := range found {
		out = append(out, e)
	}
	sort.Strings(out)
	return out, imps
}

// fields lists the fields of the library's struct types.
func (p *Program) fields() map[string][]string {
	out := map[string][]string{}
	for _, sp := range p.pkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				var fs []string
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, st.Field(i).Name())
				}
				out[sp.Pkg.Name()+"."+n] = fs
			}
		}
	}
	return out
}

// replay runs the executable contracts of cs against the code.
func (p *Program) replay(verif, repo string, cs []*Contract, seed int64, secs float64, max int, total time.Duration) *ReplayReport {
	rep := &ReplayReport{Runs: map[string]int{}, Returned: map[string]int{}, Distinct: map[string]int{}}
	dir, err := os.MkdirTemp("", "govreplay")
	if err != nil {
		rep.err = err.Error()
		return rep
	}
	defer os.RemoveAll(dir)
	ov, err := p.replayOverlay(dir, verif, repo, cs)
	if err != nil {
		rep.err = err.Error()
		return rep
	}
	if os.Getenv("GOV_KEEP") != "" {
		exec.Command("cp", "-r", dir, os.Getenv("GOV_KEEP")).Run()
	}
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzreplay")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		rep.err = "replay program does not build: " + cut(string(out), 2000)
		return rep
	}
	var names []string
	seen := map[string]bool{}
	for _, c := range cs {
		if n := caseOf(c); n != "" && !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	sort.Strings(names)
	end := time.Now().Add(total)
	for len(names) > 0 && time.Now().Before(end) {
		res := filepath.Join(dir, "out.json")
		os.Remove(res)
		n := 12 // a case that hangs ends its process: few at a time
		if p.conc {
			n = 1
		}
		if n > len(names) {
			n = len(names)
		}
		args := append([]string{res, strconv.FormatInt(seed, 10), fmt.Sprint(secs), strconv.Itoa(max)}, names[:n]...)
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
		if p.conc {
			cmd.Env = append(cmd.Env, "VREPLAY_CONC=1")
		}
		done := make(chan error, 1)
		var errb strings.Builder
		cmd.Stderr = &errb
		if err := cmd.Start(); err != nil {
			rep.err = err.Error()
			return rep
		}
		go func() { done <- cmd.Wait() }()
		select {
		case err = <-done:
		case <-time.After(time.Until(end) + time.Duration(secs*float64(n)+20)*time.Second):
			cmd.Process.Kill()
			<-done
			err = fmt.Errorf("timeout")
		}
		var r ReplayReport
		b, rerr := os.ReadFile(res)
		if rerr == nil {
			json.Unmarshal(b, &r)
		} else if n > 1 { // find the case that crashes
			rest := names[n:]
			for _, one := range names[:n] {
				names = append([]string{one}, nil...)
				sub := p.runOne(bin, dir, one, seed, secs, max)
				rep.merge(sub)
			}
			names = rest
			continue
		} else {
			r.Findings = []Finding{{Case: names[0], Seed: seed, What: "the process dies", Code: cut(errb.String(), 1500), Facets: []string{"crash"}}}
		}
		rep.merge(&r)
		if hung := hungCase(&r); hung != "" {
			var rest []string
			for _, x := range names {
				if x != hung && r.Runs[x] == 0 {
					rest = append(rest, x)
				}
			}
			// the findings of the cases before are lost with the process: run them again
			for _, x := range names[:n] {
				if x < hung {
					rest = append(rest, x)
				}
			}
			names = uniq(rest)
			continue
		}
		names = names[n:]
	}
	return rep
}

func uniq(a []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range a {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func hungCase(r *ReplayReport) string {
	for _, f := range r.Findings {
		if len(f.Facets) == 1 && f.Facets[0] == "hang" {
			return f.Case
		}
	}
	return ""
}

func (p *Program) runOne(bin, dir, name string, seed int64, secs float64, max int) *ReplayReport {
	res := filepath.Join(dir, "one.json")
	os.Remove(res)
	cmd := exec.Command("timeout", strconv.Itoa(int(secs)+30), bin, res, strconv.FormatInt(seed, 10), fmt.Sprint(secs), strconv.Itoa(max), name)
	cmd.Dir = dir
	out, _ := cmd.CombinedOutput()
	var r ReplayReport
	if b, err := os.ReadFile(res); err == nil {
		json.Unmarshal(b, &r)
	} else {
		r.Findings = []Finding{{Case: name, Seed: seed, What: "the process dies", Code: cut(string(out), 1500), Facets: []string{"crash"}}}
	}
	return &r
}

func (r *ReplayReport) merge(o *ReplayReport) {
	r.Findings = append(r.Findings, o.Findings...)
	for k, v := range o.Runs {
		r.Runs[k] += v
	}
	for k, v := range o.Returned {
		r.Returned[k] += v
	}
	for k, v := range o.Distinct {
		r.Distinct[k] += v
	}
}
