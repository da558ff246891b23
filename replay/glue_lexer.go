package lexer

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/vreplay"
)

type zzSeen struct {
	Next  []token.Token // what Next reports, and twice more at the end
	List  []token.Token
	Steps string // what the iterator says on the way
}

func zzSteps(it *Iteratee, n int) string {
	var b strings.Builder
	for i := 0; ; i++ {
		if !it.HasNext() {
			fmt.Fprint(&b, i, it.Is(token.Literal), it.Is(""))
			return b.String()
		}
		if i > n {
			return b.String() + " more tokens than characters"
		}
		ty := it.list[i].Type
		fmt.Fprint(&b, it.Is(ty), it.Is(token.And), it.Is(""))
		t := it.Next()
		fmt.Fprint(&b, t)
	}
}

// zzTokens reads a text.
func zzTokens(s string) zzSeen {
	var o zzSeen
	l := New(strings.NewReader(s))
	for end := 0; end < 3 && len(o.Next) < len(s)+4; {
		t := l.Next()
		o.Next = append(o.Next, t)
		if t.Type == token.EOF {
			end++
		}
		if end > 0 && strings.Contains(s, "\x00") {
			break
		}
	}
	m := New(strings.NewReader(s))
	it := m.Iterator()
	o.List = append([]token.Token{}, it.list...)
	o.Steps = zzSteps(it, len(s)+4)
	return o
}

func zzTokensSpec(s string) zzSeen {
	r := []rune(s)
	o := zzSeen{List: VTokens(r, 2)}
	o.Next = append(o.Next, o.List...)
	for k := 0; k < 3; k++ {
		o.Next = append(o.Next, token.Token{Type: token.Type("EOF")})
		if strings.Contains(s, "\x00") {
			break
		}
	}
	var b strings.Builder
	for i := 0; i < len(o.List); i++ {
		ty := o.List[i].Type
		fmt.Fprint(&b, true, ty == "AND", ty == "")
		fmt.Fprint(&b, o.List[i])
	}
	fmt.Fprint(&b, len(o.List), false, false)
	o.Steps = b.String()
	return o
}

// ZZText is a text of words, blanks and signs.
func ZZText(r *rand.Rand) string {
	pieces := []string{" ", " ", "  ", "\n", "\t", "\r", "a", "b", "Z", "z9", "_", ".", "a.b", "t_1", "7", "0", "9", "select", "From", "WHERE", "and", "Or", "join", "LEFT", "distinct on", "aNd", "i", "I", "ı", "ſ", "K", "wıth", "=", "*", ";", ",", ":", "(", ")", "<", ">", "-", "\"", "'", "$", "é", "世", "\x00", "\v", "\f", "\u0085", "\u00a0", "\u2028", "@", "[", "`", "{", "/", "\x7f", "\ufffd", "A", "x", "n", "o", "t"}
	n := r.Intn(9)
	if r.Intn(60) == 0 {
		n = 6000 // more than a buffer
	}
	whole := r.Intn(2) == 0 // no end of text before the end
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(40) == 0 { // a long word
			b.WriteString(strings.Repeat(string("aZ9_."[r.Intn(5)]), r.Intn(1<<uint(r.Intn(11)))))
		}
		if len(vreplay.Words) > 0 && r.Intn(12) == 0 {
			b.WriteString(vreplay.Words[r.Intn(len(vreplay.Words))])
			continue
		}
		p := pieces[r.Intn(len(pieces))]
		if whole && (p == "\x00" || n > 100 && p == "") {
			p = "="
		}
		b.WriteString(p)
	}
	return b.String()
}

func init() {
	vreplay.Cases = append(vreplay.Cases, &vreplay.Case{Name: "lexer.tokens", Kind: "func", Code: zzTokens, Spec: zzTokensSpec, Str: ZZText})
}
