package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Contracts name the unexported fields of the types they describe. Where the code calls such a field
// something else than when the contract was written, the contract is read with the new name: which name a
// field has is not observable, and every contract is checked against the code that uses it all the same.

type fieldDecl struct {
	Name string
	Type string
}

// unexportedFields lists the fields of the structs of the packages: for one with an unexported field, all of them.
func unexportedFields(pkgs []*packages.Package) map[string][]fieldDecl {
	out := map[string][]fieldDecl{}
	for _, pk := range pkgs {
		if pk.Types == nil || pk.PkgPath == specPkgPath {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var fs []fieldDecl
			priv := false
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				priv = priv || !f.Exported()
				fs = append(fs, fieldDecl{f.Name(), typeKey(f.Type())})
			}
			if priv {
				out[pk.PkgPath+"."+n] = fs
			}
		}
	}
	return out
}

func fieldsFile(verif string) string { return filepath.Join(verif, "contracts", "fields.json") }

// writeFields records the fields the contracts are written against.
func (p *Program) writeFields(verif string) error {
	var pks []*packages.Package
	for _, pk := range p.pkgAST {
		pks = append(pks, pk)
	}
	b, err := json.MarshalIndent(unexportedFields(pks), "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(fieldsFile(verif), append(b, '\n'), 0o644)
}

// renamedFields maps package path, type and field to the present name of a renamed field.
func renamedFields(verif string, pkgs []*packages.Package) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(fieldsFile(verif))
	if err != nil {
		return out
	}
	old := map[string][]fieldDecl{}
	if json.Unmarshal(b, &old) != nil {
		return out
	}
	now := unexportedFields(pkgs)
	for ty, fs := range old {
		cur := now[ty]
		has := func(l []fieldDecl, n string) bool {
			for _, f := range l {
				if f.Name == n {
					return true
				}
			}
			return false
		}
		gone, came := map[string][]string{}, map[string][]string{}
		for _, f := range fs {
			if !has(cur, f.Name) {
				gone[f.Type] = append(gone[f.Type], f.Name)
			}
		}
		for _, f := range cur {
			if !has(fs, f.Name) {
				came[f.Type] = append(came[f.Type], f.Name)
			}
		}
		for t, g := range gone {
			if len(g) != len(came[t]) {
				continue
			}
			for i, n := range g {
				out[ty+"."+n] = came[t][i]
			}
		}
	}
	// fields of embedded structs
	for depth := 0; depth < 4; depth++ {
		for ty, fs := range old {
			for _, f := range fs {
				if !strings.HasSuffix(f.Type, "."+f.Name) {
					continue
				}
				from := ty[:strings.LastIndex(ty, ".")+1] + f.Name + "."
				for k, to := range out {
					if strings.HasPrefix(k, from) && out[ty+"."+k[len(from):]] == "" {
						out[ty+"."+k[len(from):]] = to
					}
				}
			}
		}
	}
	return out
}

var (
	noFieldRE  = regexp.MustCompile(`\.(\w+) undefined \(type \*?([\w.]+) has no field or method \w+`)
	litFieldRE = regexp.MustCompile(`unknown field (\w+) in struct literal of type \*?([\w.]+)`)
)

// rename changes the overlay files for the renamed fields that errors are about; it tells whether it did.
func rename(verif, repo string, p *Program, ov map[string][]byte) bool {
	var ren map[string]string
	type edit struct {
		col      int
		from, to string
	}
	edits := map[string]map[int][]edit{}
	seen := map[string]bool{}
	for _, e := range p.errs {
		fs := strings.SplitN(e, ":", 4)
		if len(fs) < 4 || ov[fs[0]] == nil || seen[e] {
			continue
		}
		seen[e] = true
		m := noFieldRE.FindStringSubmatch(fs[3])
		if m == nil {
			m = litFieldRE.FindStringSubmatch(fs[3])
		}
		if m == nil {
			continue
		}
		if ren == nil {
			ren = renamedFields(verif, p.loaded)
		}
		dir, err := filepath.Rel(repo, filepath.Dir(fs[0]))
		if err != nil {
			continue
		}
		pk := modPath
		if dir != "." {
			pk += "/" + filepath.ToSlash(dir)
		}
		to, ok := ren[pk+"."+m[2][strings.LastIndex(m[2], ".")+1:]+"."+m[1]]
		if !ok {
			continue
		}
		line, _ := strconv.Atoi(fs[1])
		col, _ := strconv.Atoi(fs[2])
		if edits[fs[0]] == nil {
			edits[fs[0]] = map[int][]edit{}
		}
		edits[fs[0]][line] = append(edits[fs[0]][line], edit{col, m[1], to})
	}
	did := false
	for f, ls := range edits {
		lines := strings.Split(string(ov[f]), "\n")
		for n, es := range ls {
			if n < 1 || n > len(lines) {
				continue
			}
			l := lines[n-1]
			sort.Slice(es, func(i, j int) bool { return es[i].col > es[j].col })
			last := -1
			for _, e := range es {
				if e.col == last {
					continue
				}
				last = e.col
				if i := e.col - 1; i >= 0 && strings.HasPrefix(l[min(i, len(l)):], e.from) {
					l = l[:i] + e.to + l[i+len(e.from):]
					did = true
				} else if i >= 0 && i < len(l) { // the position of the operand
					if k := strings.Index(l[i:], "."+e.from); k >= 0 {
						l = l[:i+k+1] + e.to + l[i+k+1+len(e.from):]
						did = true
					}
				}
			}
			lines[n-1] = l
		}
		ov[f] = []byte(strings.Join(lines, "\n"))
	}
	return did
}

// loadRenamed loads code and contracts, following renamed fields.
func loadRenamed(verif, repo string, ov map[string][]byte, names map[string]bool) (*Program, error) {
	for round := 0; ; round++ {
		p, err := loadOverlay(repo, ov, names)
		if err == nil || p == nil || round > 40 || !rename(verif, repo, p, ov) {
			return p, err
		}
	}
}

var _ = fmt.Sprint
