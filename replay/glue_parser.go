package parser

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	"github.com/pkg/errors"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/vreplay"
)

// zzKind says whether an error is the documented one.
func zzKind(err error) string {
	if err == nil {
		return ""
	}
	if errors.Cause(err) == ErrJoinInvalidCondition {
		return "invalid condition"
	}
	panic(fmt.Sprintf("undocumented error %T %v", err, err))
}

func zzParseJoin(s string) (string, stmt.Join) {
	j, err := ParseJoin(s)
	return zzKind(err), j
}

func zzParseJoinSpec(s string) (string, stmt.Join) {
	j, err := cParseJoin(s)
	return zzKind(err), j
}

// zzMust parses or panics; only the message of the library is a result.
func zzMust(s string) (j stmt.Join, msg string) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(string); ok && strings.HasPrefix(m, "loukoum: ") {
				msg = "refused"
				return
			}
			panic(e)
		}
	}()
	return MustParseJoin(s), ""
}

func zzMustSpec(s string) (stmt.Join, string) {
	j, err := ParseJoin(s)
	if err != nil {
		return stmt.Join{}, "refused"
	}
	return j, ""
}

func zzPick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func zzCase(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToLower(s)[i]
			}
		}
		return string(b)
	}
	return s
}

func zzName(r *rand.Rand) string {
	if r.Intn(30) == 0 { // a long one
		return strings.Repeat(zzPick(r, "a", "_", "9", "x."), 1+r.Intn(1<<uint(r.Intn(11)))) + "z"
	}
	if len(vreplay.Words) > 0 && r.Intn(5) == 0 { // around a word of the code
		if w := strings.TrimSpace(vreplay.Words[r.Intn(len(vreplay.Words))]); zzWhole.MatchString(w) {
			return zzPick(r, "", "", "a", "_") + zzCase(r, w) + zzPick(r, "", "a", "b.c", "_")
		}
	}
	return zzPick(r, "a", "b", "c", "d", "t", "u.id", "t1.user_id", "_x", "A9", "9", ".", "x.y.z", "ands", "ona", "joins", "inner_", "Left.id", "on.id", "and.b", "or_")
}

// zzText is a join, or something close to one.
func zzText(r *rand.Rand) string {
	if r.Intn(8) == 0 {
		return lexer.ZZText(r)
	}
	var w []string
	add := func(s ...string) { w = append(w, s...) }
	switch r.Intn(6) {
	case 0:
		add(zzCase(r, "JOIN"))
	case 1:
		add(zzCase(r, "INNER"), zzCase(r, "JOIN"))
	case 2:
		add(zzCase(r, "LEFT"), zzCase(r, "JOIN"))
	case 3:
		add(zzCase(r, "RIGHT"), zzCase(r, "JOIN"))
	}
	add(zzName(r), zzCase(r, "ON"))
	par := r.Intn(4) == 0
	if par {
		add("(")
	}
	n := 1 + r.Intn(4)
	if r.Intn(10) == 0 {
		n = r.Intn(40)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			add(zzCase(r, zzPick(r, "AND", "OR")))
		}
		add(zzName(r), "=", zzName(r))
	}
	if par {
		add(")")
	}
	if r.Intn(2) == 0 {
		for k := 1 + r.Intn(3); k > 0 && len(w) > 0; k-- {
			i := r.Intn(len(w))
			switch r.Intn(4) {
			case 0:
				w = append(w[:i:i], w[i+1:]...)
			case 1:
				w = w[:i]
			case 2:
				w[i] = zzPick(r, "=", "AND", "OR", "ON", "JOIN", "LEFT", "INNER", "RIGHT", "(", ")", "a", ",", ";", "*", "<", "cross", "using", "")
			case 3:
				w = append(w[:i:i], append([]string{w[r.Intn(len(w))]}, w[i:]...)...)
			}
		}
	}
	var b strings.Builder
	if r.Intn(4) == 0 {
		b.WriteString(zzPick(r, " ", "\n", "\t "))
	}
	for i, x := range w {
		if i > 0 {
			p := w[i-1]
			sign := func(s string) bool { return s == "=" || s == "(" || s == ")" }
			if !(sign(x) || sign(p)) || r.Intn(2) == 0 {
				b.WriteString(zzPick(r, " ", " ", "  ", "\n", "\t", "\r\n"))
			}
		}
		b.WriteString(x)
	}
	if r.Intn(4) == 0 {
		b.WriteString(zzPick(r, " ", "\n"))
	}
	return b.String()
}

var (
	zzWord  = `([A-Za-z0-9_.]+)`
	zzEq    = `\s*` + zzWord + `\s*=\s*` + zzWord
	zzOne   = regexp.MustCompile(`^\s*(?i:(?:(?:INNER|LEFT|RIGHT)\s+)?JOIN\s+)?` + zzWord + `\s+(?i:ON)(?:\s+|(\s*\())` + zzEq + `((?:\s+(?i:AND|OR)\s+` + zzEq + `)*)\s*(\)?)\s*$`)
	zzWhole = regexp.MustCompile(`^[A-Za-z0-9_.]+$`)
	zzWords = regexp.MustCompile(zzWord)
)

// zzForm says whether a text is one of those that a join is written as.
func zzForm(in []reflect.Value) []string {
	s := in[0].String()
	m := zzOne.FindStringSubmatch(s)
	if m == nil || (m[2] != "") != (m[len(m)-1] != "") {
		return nil
	}
	names := []string{m[1], m[3], m[4]}
	for i, x := range zzWords.FindAllString(m[5], -1) {
		if i%3 != 0 {
			names = append(names, x)
		}
	}
	for _, n := range names {
		if token.Lookup(n) != token.Literal {
			return nil
		}
	}
	return []string{"form"}
}

// zzCount is the number of conditions of a join.
func zzCount(e interface{}) int {
	switch v := e.(type) {
	case stmt.OnClause:
		return 1
	case stmt.InfixOnExpression:
		return zzCount(v.Left) + zzCount(v.Right)
	}
	return 0
}

// zzDropped says whether conditions of a text are left out without an error, unlike in the contract.
func zzDropped(in []reflect.Value) (fs []string) {
	defer func() { recover() }()
	s := in[0].String()
	bad, j := zzParseJoin(s)
	want, k := zzParseJoinSpec(s)
	n := zzCount(j.Condition)
	if bad == "" && n < strings.Count(s, "=") && (want != "" || n < zzCount(k.Condition)) {
		return []string{"dropped"}
	}
	return nil
}

func zzFacets(in []reflect.Value) []string { return append(zzForm(in), zzDropped(in)...) }

func init() {
	vreplay.Cases = append(vreplay.Cases,
		&vreplay.Case{Name: "parser.join", Kind: "func", Code: zzParseJoin, Spec: zzParseJoinSpec, Str: zzText, Facet: zzFacets},
		&vreplay.Case{Name: "parser.must", Kind: "func", Code: zzMust, Spec: zzMustSpec, Str: zzText, Facet: zzFacets})
}
