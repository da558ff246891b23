package lexer

import (
	"io"

	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/vspec"
)

// vAt is the character at a position, NUL behind the end.
func vAt(r []rune, i int) rune {
	if i < len(r) {
		return r[i]
	}
	return 0
}

func vSpace(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// vWord are the characters of words: letters, digits, underscores and dots.
func vWord(c rune) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c == '.' || '0' <= c && c <= '9'
}

// vSymbol types a token of one character.
func vSymbol(c rune) token.Type {
	switch c {
	case '*':
		return token.Type("*")
	case '=':
		return token.Type("=")
	case ';':
		return token.Type(";")
	case ',':
		return token.Type(",")
	case ':':
		return token.Type(":")
	case '(':
		return token.Type("(")
	case ')':
		return token.Type(")")
	}
	return token.Type("Illegal")
}

// vNext is the token at or after position i, and the position behind it.
func vNext(r []rune, i int) (token.Token, int) {
	for vSpace(vAt(r, i)) {
		i++
	}
	c := vAt(r, i)
	if c == 0 {
		return token.Token{Type: token.Type("EOF")}, i + 1
	}
	if !vWord(c) {
		return token.Token{Type: vSymbol(c), Value: string(c)}, i + 1
	}
	w := []rune{}
	for vWord(vAt(r, i)) {
		w = append(w, r[i])
		i++
	}
	return token.Token{Type: token.Lookup(string(w)), Value: string(w)}, i
}

// vTokens are the tokens that a lexer which has read p characters still finds, up to the end of the text
// or a NUL character, and the number of characters read then.
func vTokens(r []rune, p int) ([]token.Token, int) {
	ts := []token.Token{}
	for {
		t, n := vNext(r, p-2)
		p = n + 2
		if t.Type == token.Type("EOF") {
			return ts, p
		}
		ts = append(ts, t)
	}
}

// VTokens are the tokens of a text.
//
//@ opaque
func VTokens(r []rune, p int) []token.Token {
	ts, _ := vTokens(r, p)
	return ts
}

//@ opaque
func vEnd(r []rune, p int) int {
	_, n := vTokens(r, p)
	return n
}

// repLexer: a lexer that has read p characters is at position p-2 and knows the next two.
//
//@ rep
func repLexer(l Lexer) (Lexer, bool) {
	r, p := vspec.Runes(l.input), vspec.Pos(l.input)
	return vLexer(r, p-2), p >= 2 && l.input != nil
}

func vLexer(r []rune, i int) Lexer {
	return Lexer{input: vspec.Reader(r, i+2), e0: vAt(r, i), en: vAt(r, i+1)}
}

//@ contract lexer.New props=J01,J02,X01 norun=1
func cNew(input io.Reader) Lexer {
	return vLexer(vspec.ReaderRunes(input), 0)
}

//@ contract lexer.(*Lexer).Next props=J01,J02,X01 norun=1
func cNext(l Lexer) (Lexer, token.Token) {
	r, p := vspec.Runes(l.input), vspec.Pos(l.input)
	t, n := vNext(r, p-2)
	return vLexer(r, n), t
}

//@ contract lexer.(*Lexer).Iterator props=J01,J02,X01 norun=1 open=VTokens,vEnd
func cIterator(l Lexer) (Lexer, *Iteratee) {
	r, p := vspec.Runes(l.input), vspec.Pos(l.input)
	return vLexer(r, vEnd(r, p)-2), &Iteratee{list: VTokens(r, p)}
}

// repIteratee: the position is never negative.
//
//@ rep
func repIteratee(it Iteratee) (Iteratee, bool) { return it, it.cursor >= 0 }

//@ contract lexer.Iteratee.HasNext props=J01,J02,X01 norun=1
func cHasNext(it Iteratee) bool { return it.cursor < len(it.list) }

//@ contract lexer.Iteratee.Is props=J01,J02,X01 norun=1
func cIs(it Iteratee, t token.Type) bool {
	return it.cursor < len(it.list) && it.list[it.cursor].Type == t
}

//@ contract lexer.(*Iteratee).Next props=J01,J02,X01 norun=1
func cIterNext(it Iteratee) (Iteratee, token.Token) {
	if it.cursor >= len(it.list) {
		panic("no token left")
	}
	return Iteratee{cursor: it.cursor + 1, list: it.list}, it.list[it.cursor]
}

// What the contract of the parser uses.

// VType is the type of the d-th token from the current one on, empty when there is none.
func VType(it Iteratee, d int) token.Type {
	if it.cursor+d < len(it.list) {
		return it.list[it.cursor+d].Type
	}
	return ""
}

func VValue(it Iteratee, d int) string { return it.list[it.cursor+d].Value }

func VSkip(it Iteratee, d int) Iteratee { return Iteratee{cursor: it.cursor + d, list: it.list} }

func VIteratee(ts []token.Token) Iteratee { return Iteratee{list: ts} }
