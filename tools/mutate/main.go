//go:build ignore

// mutate lists small changes of the Go files given: one JSON line per change (file, offsets, new text, kind).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File     string
	Lo, Hi   int
	New      string
	Kind     string
	Line     int
	Old      string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		out := func(lo, hi token.Pos, s, kind string) {
			old := string(src[off(lo):off(hi)])
			if old == s {
				return
			}
			enc.Encode(mut{fn, off(lo), off(hi), s, kind, fs.Position(lo).Line, old})
		}
		rep := func(n ast.Node, s, kind string) { out(n.Pos(), n.End(), s, kind) }
		inFunc := false
		var visit func(n ast.Node) bool
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.SwitchStmt:
					rep(s, "", "delete")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						rep(s, "", "delete")
					}
				case *ast.ReturnStmt:
					if i < len(l)-1 || len(x.Results) == 0 {
						rep(s, "", "delete")
					}
				}
				if i+1 < len(l) {
					a, b := text(s), text(l[i+1])
					out(s.Pos(), l[i+1].End(), b+"\n"+a, "swap")
				}
			}
		}
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					return false
				}
				inFunc = true
				ast.Inspect(x.Body, visit)
				inFunc = false
				return false
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i := range x.List {
						if i == 0 {
							out(x.List[0].Pos(), x.List[1].Pos(), "", "drop case")
						} else {
							out(x.List[i-1].End(), x.List[i].End(), "", "drop case")
						}
					}
				}
				rep(x, "", "drop clause")
			case *ast.IfStmt:
				rep(x.Cond, "!("+text(x.Cond)+")", "negate")
				rep(x.Cond, "("+text(x.Cond)+") && false", "never")
				rep(x.Cond, "("+text(x.Cond)+") || true", "always")
				if x.Else != nil {
					out(x.Body.End(), x.Else.End(), "", "drop else")
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">", "!="}, token.LEQ: {"<"}, token.GTR: {">=", "<", "!="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}}
				for _, o := range sw[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.ADD {
					rep(x, text(x.X), "left only")
					rep(x, text(x.Y), "right only")
				}
				if x.Op == token.ADD {
					rep(x, text(x.Y)+" + "+text(x.X), "swap operands")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					rep(x, text(x.X), "drop not")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, e := strconv.Atoi(x.Value); e == nil {
						rep(x, strconv.Itoa(v+1), "int")
						if v > 0 {
							rep(x, strconv.Itoa(v-1), "int")
						}
					}
				case token.STRING:
					if v, e := strconv.Unquote(x.Value); e == nil && !strings.Contains(v, "loukoum:") {
						if v != "" {
							rep(x, `""`, "string")
							rep(x, strconv.Quote(strings.TrimSpace(v)), "string")
							rep(x, strconv.Quote(v[:len(v)-1]), "string")
							rep(x, strconv.Quote(v+" "), "string")
							rep(x, strconv.Quote(strings.ToLower(v)), "string")
						} else {
							rep(x, `"x"`, "string")
						}
					}
				case token.CHAR:
					rep(x, `'x'`, "char")
				}
			case *ast.CallExpr:
				if !inFunc {
					break
				}
				if len(x.Args) == 1 {
					rep(x, text(x.Args[0]), "drop call")
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
					rep(x, text(s.X), "drop call")
				}
				for i := 0; i+1 < len(x.Args); i++ {
					out(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap args")
				}
				if len(x.Args) > 0 {
					for i, a := range x.Args {
						for j, b := range x.Args {
							if i != j {
								rep(a, text(b), "same arg")
							}
						}
					}
				}
			case *ast.SliceExpr:
				if x.Max != nil {
					out(x.High.End(), x.Max.End(), "", "drop max")
					rep(x, text(x.X), "drop slice")
				}
				if x.Low != nil {
					rep(x, text(x.X), "drop slice")
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						hi := off(kv.End())
						for hi < len(src) && (src[hi] == ',' || src[hi] == ' ') {
							hi++
						}
						enc.Encode(mut{fn, off(kv.Pos()), hi, "", "drop field", fs.Position(kv.Pos()).Line, text(kv)})
					}
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					rep(x, "false", "bool")
				case "false":
					rep(x, "true", "bool")
				case "break":
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					rep(x, "break", "branch")
				}
				if x.Tok == token.BREAK {
					rep(x, "continue", "branch")
				}
			case *ast.RangeStmt:
				rep(x.X, text(x.X)+"[:0]", "no elements")
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name != "true" && id.Name != "false" && id.Name != "nil" {
						rep(r, "nil", "nil")
					}
				}
			}
			return true
		}
		ast.Inspect(f, visit)
		// other fields of the same receiver and other functions of the same shape
		var names []string
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				names = append(names, fd.Name.Name)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			fd, ok := n.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				return true
			}
			sels := map[string][]*ast.SelectorExpr{}
			ast.Inspect(fd.Body, func(m ast.Node) bool {
				if s, ok := m.(*ast.SelectorExpr); ok {
					sels[text(s.X)] = append(sels[text(s.X)], s)
				}
				return true
			})
			for _, l := range sels {
				seen := map[string]bool{}
				for _, s := range l {
					seen[s.Sel.Name] = true
				}
				if len(seen) > 12 {
					continue
				}
				for _, s := range l {
					for o := range seen {
						if o != s.Sel.Name {
							rep(s.Sel, o, "other field")
						}
					}
				}
			}
			return false
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
