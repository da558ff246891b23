// Package vspec holds what the contracts of all packages share. It is only ever seen by the verifier
// (and by the generated replay tests); it is no part of the library.
package vspec

import (
	"bufio"
	"io"
	"strconv"
	"strings"
)

// Hole is the letter that stands, in the abstract text of a statement, for the place of a bound value. In
// the logic it is a letter of its own, different from every character of every Go string.
const Hole = "\uE0FF\uE0FE"

// Out is what a statement writes to a context: a text with holes and the value of every hole.
type Out struct {
	Text string
	Vals []interface{}
}

// T appends a piece of text.
func (o Out) T(s string) Out {
	return Out{Text: o.Text + s, Vals: o.Vals}
}

// V appends a bound value.
func (o Out) V(v interface{}) Out {
	return Out{Text: o.Text + Hole, Vals: append(o.Vals[:len(o.Vals):len(o.Vals)], v)}
}

// W appends another piece of output.
func (o Out) W(p Out) Out {
	return Out{Text: o.Text + p.Text, Vals: append(o.Vals[:len(o.Vals):len(o.Vals)], p.Vals...)}
}

// Std replaces the holes by $1, $2, ... from left to right.
//
//@ opaque
func Std(text string) string {
	var b strings.Builder
	for i, p := range strings.Split(text, Hole) {
		if i > 0 {
			b.WriteString("$" + strconv.Itoa(i))
		}
		b.WriteString(p)
	}
	return b.String()
}

// NamedText replaces the holes by :arg_1, :arg_2, ... from left to right.
//
//@ opaque
func NamedText(text string) string {
	var b strings.Builder
	for i, p := range strings.Split(text, Hole) {
		if i > 0 {
			b.WriteString(":arg_" + strconv.Itoa(i))
		}
		b.WriteString(p)
	}
	return b.String()
}

// NamedVals gives the i-th value the name arg_i.
//
//@ opaque
func NamedVals(vals []interface{}) map[string]interface{} {
	if len(vals) == 0 {
		return nil
	}
	m := map[string]interface{}{}
	for i, v := range vals {
		m["arg_"+strconv.Itoa(i+1)] = v
	}
	return m
}

// MapPut is the map with one entry set.
func MapPut[K comparable, V any](m map[K]V, k K, v V) map[K]V {
	r := make(map[K]V, len(m)+1)
	for a, b := range m {
		r[a] = b
	}
	r[k] = v
	return r
}

// What a lexer reads from is, in the logic, a sequence of characters and a position in it.

func Runes(r *bufio.Reader) []rune          { panic("ghost") }
func Pos(r *bufio.Reader) int               { panic("ghost") }
func Reader(r []rune, pos int) *bufio.Reader { panic("ghost") }
func ReaderRunes(r io.Reader) []rune        { panic("ghost") }
