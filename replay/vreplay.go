// Package vreplay runs the executable contracts against the real functions, on generated inputs. It is
// laid over /repo for the replay program only.
package vreplay

import (
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Case is one function with its contract.
type Case struct {
	Name   string
	Kind   string // func | ptr (pointer receiver) | writer
	Code   interface{}
	Spec   interface{}
	Strs   []string
	Ints   []int64
	Hints  []string // dynamic types the code distinguishes
	Anys   []string // those it tells apart in values of any type
	NonNil []int
	Str    func(*rand.Rand) string           // texts made for it
	Facet  func(in []reflect.Value) []string // what its input is like
}

var (
	Cases  []*Case
	Types  []reflect.Type // library types, of which *T and []T are used too
	Ifaces []reflect.Type
	Extra  []reflect.Type // types of other packages that the code tells apart
	// Render shows a statement under all contexts.
	Render func(write func(interface{})) []Obs
	// Hole is the letter of a bound value in a text.
	Hole string
	// WriterObs runs a Write method under every context; SpecObs says what the contract expects.
	WriterObs func(stmt interface{}, write reflect.Value) Obs
	SpecObs   func(out reflect.Value) Obs
	Observe   func(v interface{}) (Obs, bool) // of a statement
	Known     map[string]map[string]bool      // fields of the struct types when the contracts were written
)

// Obs is what can be seen of a statement.
type Obs struct {
	Text      string // with holes
	Vals      []interface{}
	Std       string
	StdVals   []interface{}
	Named     string
	NamedVals map[string]interface{}
	Raw       string
	RawPanic  bool
	Panic     string
	Again     string // what a second rendering shows, when it differs
	Empty     bool
}

// ---- values of foreign types ----

type MyString string
type MyInt int
type MyBytes []byte
type StrEnc struct{ S string }

func (s StrEnc) String() string { return s.S }

type IntEnc struct{ N int64 }

func (s IntEnc) Int64() int64 { return s.N }

type BoolEnc struct{ B bool }

func (s BoolEnc) Bool() bool { return s.B }

type TimeEnc struct{ T time.Time }

func (s TimeEnc) Time() time.Time { return s.T }

// Two is encoder of two kinds.
type Two struct {
	S string
	N int64
}

func (s Two) String() string { return s.S }
func (s Two) Int64() int64   { return s.N }

// IntBool, BoolTime and TimeStr are encoders of two kinds too.
type IntBool struct {
	N int64
	B bool
}

func (s IntBool) Int64() int64 { return s.N }
func (s IntBool) Bool() bool   { return s.B }

type BoolTime struct {
	B bool
	T time.Time
}

func (s BoolTime) Bool() bool      { return s.B }
func (s BoolTime) Time() time.Time { return s.T }

type TimeStr struct {
	S string
	T time.Time
}

func (s TimeStr) String() string  { return s.S }
func (s TimeStr) Time() time.Time { return s.T }

// ValStr is an encoder that gives the driver its value itself.
type ValStr struct {
	S string
	N int64
}

func (v ValStr) String() string               { return v.S }
func (v ValStr) Int64() int64                 { return v.N }
func (v ValStr) Value() (driver.Value, error) { return v.S + "!", nil }

type Val struct {
	V   interface{}
	Bad bool
}

func (v Val) Value() (driver.Value, error) {
	if v.Bad {
		return nil, errors.New("bad value")
	}
	return v.V, nil
}

type PVal struct{ V interface{} }

func (v *PVal) Value() (driver.Value, error) { return v.V, nil }

type Opaque struct{ A, B int }

// Types of interfaces that the library does not know.
type Oops struct{ S string }

func (o Oops) Error() string { return o.S }

type Texty struct{ S string }

func (t Texty) MarshalText() ([]byte, error) { return []byte(t.S), nil }
func (t Texty) MarshalJSON() ([]byte, error) { return []byte(strconv.Quote(t.S)), nil }

type Zeroer struct{ N int64 }

func (z Zeroer) IsZero() bool     { return z.N == 0 }
func (z Zeroer) GoString() string { return "Z" }

type MyBool bool
type MyFloat float64

var foreign = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf([]byte(nil)), reflect.TypeOf(time.Time{}), reflect.TypeOf(&time.Time{}),
	reflect.TypeOf([]string(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf([]int64(nil)), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf([][]interface{}(nil)),
	reflect.TypeOf([]bool(nil)), reflect.TypeOf([2]string{}), reflect.TypeOf([3]int{}), reflect.TypeOf([]float64(nil)), reflect.TypeOf([]time.Time(nil)), reflect.TypeOf([][]string(nil)), reflect.TypeOf([][]byte(nil)),
	reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf(MyString("")), reflect.TypeOf(MyInt(0)), reflect.TypeOf(MyBytes(nil)),
	reflect.TypeOf(StrEnc{}), reflect.TypeOf(&StrEnc{}), reflect.TypeOf(IntEnc{}), reflect.TypeOf(BoolEnc{}), reflect.TypeOf(TimeEnc{}), reflect.TypeOf(Two{}),
	reflect.TypeOf(IntBool{}), reflect.TypeOf(BoolTime{}), reflect.TypeOf(TimeStr{}), reflect.TypeOf(ValStr{}),
	reflect.TypeOf(Oops{}), reflect.TypeOf(&Oops{}), reflect.TypeOf(Texty{}), reflect.TypeOf(Zeroer{}), reflect.TypeOf(MyBool(false)), reflect.TypeOf(MyFloat(0)), reflect.TypeOf(time.Duration(0)),
	reflect.TypeOf(Val{}), reflect.TypeOf(&Val{}), reflect.TypeOf(&PVal{}), reflect.TypeOf(Opaque{}), reflect.TypeOf(&Opaque{}), reflect.TypeOf(new(string)), reflect.TypeOf(new(int)),
	reflect.TypeOf([]MyString(nil)), reflect.TypeOf([]StrEnc(nil)), reflect.TypeOf(complex(1, 2)), reflect.TypeOf([]*string(nil)), reflect.TypeOf([0]int{}), reflect.TypeOf([]int8(nil)), reflect.TypeOf([]uint(nil)), reflect.TypeOf([]uint64(nil)), reflect.TypeOf([]int32(nil)),
}

var dyn []reflect.Type

// Words are texts that the code that reads joins mentions.
var Words []string
var byName = map[string][]reflect.Type{}
var implCache = map[reflect.Type][]reflect.Type{}

func norm(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, " ", ""), "any", "interface{}")
}

// resolve finds the types a name of the code stands for.
func resolve(n string) []reflect.Type {
	if r := byName[n]; len(r) > 0 {
		return r
	}
	var out []reflect.Type
	switch {
	case strings.HasPrefix(n, "[]"):
		for _, e := range resolve(n[2:]) {
			out = append(out, reflect.SliceOf(e))
		}
	case strings.HasPrefix(n, "*"):
		for _, e := range resolve(n[1:]) {
			out = append(out, reflect.PtrTo(e))
		}
	case strings.HasPrefix(n, "map["):
		d := 0
		for i := 3; i < len(n); i++ {
			if n[i] == '[' {
				d++
			} else if n[i] == ']' {
				if d--; d == 0 {
					for _, k := range resolve(n[4:i]) {
						for _, e := range resolve(n[i+1:]) {
							if k.Comparable() {
								out = append(out, reflect.MapOf(k, e))
							}
						}
					}
					break
				}
			}
		}
	case strings.HasPrefix(n, "["):
		if i := strings.IndexByte(n, ']'); i > 0 {
			if k, err := strconv.Atoi(n[1:i]); err == nil && k < 1000 {
				for _, e := range resolve(n[i+1:]) {
					out = append(out, reflect.ArrayOf(k, e))
				}
			}
		}
	case n == "interface{}":
		return []reflect.Type{reflect.TypeOf((*interface{})(nil)).Elem()}
	case n == "byte":
		return []reflect.Type{reflect.TypeOf(byte(0))}
	case n == "rune":
		return []reflect.Type{reflect.TypeOf(rune(0))}
	}
	return out
}

func generable(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Struct:
		if t == timeT {
			return true
		}
		if strings.HasPrefix(t.PkgPath(), "strings") || strings.HasPrefix(t.PkgPath(), "bufio") || strings.HasPrefix(t.PkgPath(), "bytes") {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if !generable(t.Field(i).Type, seen) {
				return false
			}
		}
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return generable(t.Elem(), seen)
	case reflect.Map:
		return generable(t.Elem(), seen) && generable(t.Key(), seen)
	}
	return true
}

var timeT = reflect.TypeOf(time.Time{})

func prepare() {
	sort.Slice(Types, func(i, j int) bool { return Types[i].String() < Types[j].String() })
	dyn = append(dyn, foreign...)
	for _, t := range Types {
		if generable(t, map[reflect.Type]bool{}) {
			dyn = append(dyn, t, reflect.PtrTo(t), reflect.SliceOf(t))
		}
	}
	for _, t := range Extra {
		known := false
		for _, d := range dyn {
			known = known || d == t
		}
		if !known && generable(t, map[reflect.Type]bool{}) {
			dyn = append(dyn, t)
		}
	}
	for _, t := range dyn {
		byName[norm(t.String())] = append(byName[norm(t.String())], t)
	}
	for _, t := range Ifaces {
		byName[norm(t.String())] = append(byName[norm(t.String())], t)
	}
}

var costMemo = map[reflect.Type]int{}

// cost is the depth a value of the type needs at least.
func cost(t reflect.Type) int {
	if c, ok := costMemo[t]; ok {
		return c
	}
	costMemo[t] = 100
	c := 0
	switch t.Kind() {
	case reflect.Struct:
		if t != timeT {
			for i := 0; i < t.NumField(); i++ {
				if x := cost(t.Field(i).Type); x > c {
					c = x
				}
			}
		}
	case reflect.Interface:
		c = 1
	case reflect.Slice, reflect.Array, reflect.Ptr, reflect.Map:
		c = cost(t.Elem())
	}
	costMemo[t] = c
	return c
}

func impls(t reflect.Type) []reflect.Type {
	if r, ok := implCache[t]; ok {
		return r
	}
	var r []reflect.Type
	for _, d := range dyn {
		if d.Implements(t) {
			r = append(r, d)
		}
	}
	implCache[t] = r
	return r
}

// G generates values.
type G struct {
	r     *rand.Rand
	strs  []string
	ints  []int64
	hints []reflect.Type
	anys  []reflect.Type
	plain bool // well-formed values mostly
	last  []string
	vals  []reflect.Value
	text  func(*rand.Rand) string
}

var strPool = []string{"", "a", "b", "id", "name", "user", "a.b", "x.y.z", "*", "a.*", `q"q`, `"`, `""`, "it's", `back\slash`, `\`, "new\nline", "cr\rx", "tab\t", " pad ", "  ", "\n", "é", "世界", "😀", "NULL", "1", "0", "10", "-1", "007", "9223372036854775807", "9223372036854775808", "1e3", "a,b", "a b", "a;b", "--", "/*", "DESC", "count(id)", "a = b", ".", "..", "a.", ".a", "\u2028", "\u0085", "\v", "\f", "%s", "%d%%", "\x00", "ABC", "abc", "Abc", "010", "08", "0x10", "1_000", "+5", " 5", "5 ", "0b1", "0o7", "5.0", "NaN", "true", "nil", "''", "\\\\", "\xff", "a\xffb", "\x7f", "\b", "\u00a0", "İ", "ß", "K", "select", "SELECT 1", "(", ")", "()", "a)b", "[]", "<>", "=", "!=", "_", "-"}

func (g *G) str() string {
	if len(g.last) > 0 && g.r.Intn(7) == 0 {
		s := g.last[g.r.Intn(len(g.last))]
		if g.r.Intn(12) == 0 {
			return strings.ToUpper(s)
		}
		return s
	}
	s := g.str1()
	if len(s) < 30 && g.r.Intn(16) == 0 { // other letters
		b := []byte(s)
		for i, c := range b {
			if g.r.Intn(2) == 0 && ('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') {
				b[i] = c ^ 0x20
			}
		}
		s = string(b)
	}
	if g.plain && s == "" && g.r.Intn(8) != 0 {
		s = "c" + strconv.Itoa(g.r.Intn(4))
	}
	if len(g.last) < 12 {
		g.last = append(g.last, s)
	}
	return s
}

func (g *G) str1() string {
	if g.text != nil && g.r.Intn(8) != 0 {
		return g.text(g.r)
	}
	switch g.r.Intn(12) {
	case 0, 1, 2:
		if len(g.strs) > 0 {
			return g.strs[g.r.Intn(len(g.strs))]
		}
	case 3:
		return strPool[g.r.Intn(len(strPool))] + strPool[g.r.Intn(len(strPool))]
	case 4:
		if len(g.strs) > 0 {
			s, p := g.strs[g.r.Intn(len(g.strs))], strPool[g.r.Intn(len(strPool))]
			if g.r.Intn(3) == 0 {
				return p + s
			}
			return s + p
		}
	case 5:
		n := g.r.Intn(6)
		if g.r.Intn(6) == 0 {
			n = g.size()
		}
		b := make([]rune, n)
		al := []rune(`abcxyz019_.'"\*- ,;()=<>%:?` + "\n\r\té世")
		for i := range b {
			b[i] = al[g.r.Intn(len(al))]
		}
		return string(b)
	case 6, 7, 8:
		return string(rune('a' + g.r.Intn(26)))
	}
	return strPool[g.r.Intn(len(strPool))]
}

// size is a length: mostly small, sometimes around a number of the code.
func (g *G) size() int {
	switch g.r.Intn(40) {
	case 0:
		return 4 + g.r.Intn(10)
	case 1:
		return 10 + g.r.Intn(60)
	case 2:
		if g.r.Intn(6) == 0 {
			return 100 + g.r.Intn(40)
		}
	case 3, 4:
		if len(g.ints) > 0 {
			n := g.ints[g.r.Intn(len(g.ints))] + int64(g.r.Intn(3)) - 1
			if n >= 0 && n < 1100 {
				return int(n)
			}
		}
	}
	return g.r.Intn(4)
}

func (g *G) int() int64 {
	switch g.r.Intn(6) {
	case 0:
		if len(g.ints) > 0 {
			return g.ints[g.r.Intn(len(g.ints))] + int64(g.r.Intn(3)) - 1
		}
	case 1:
		e := []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1}
		return e[g.r.Intn(len(e))]
	case 2:
		return g.r.Int63() - g.r.Int63()
	}
	return int64(g.r.Intn(14) - 3)
}

var timePool = []time.Time{{}, time.Unix(0, 0), time.Date(2021, 3, 4, 5, 6, 7, 123456789, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 1000, time.FixedZone("x", 3600*5+1800)), time.Date(2020, 2, 29, 0, 0, 0, 0, time.FixedZone("w", -3600*8)), time.Date(12020, 2, 28, 0, 0, 0, 999999999, time.UTC)}

func set(dst, v reflect.Value) {
	reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem().Set(v)
}

// Gen makes a value of the type; it is addressable.
func (g *G) Gen(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(g.str())
	case reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.int()))
	case reflect.Float32, reflect.Float64:
		f := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, 1e21, 1e-9, math.Pi, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 123456789.25, 16777217, 0.30000000000000004}
		v.SetFloat(f[g.r.Intn(len(f))])
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(1, 2))
	case reflect.Struct:
		if t == timeT {
			v.Set(reflect.ValueOf(timePool[g.r.Intn(len(timePool))]))
			break
		}
		if t.PkgPath() != "" && !strings.HasPrefix(t.PkgPath(), "github.com/ulule/loukoum") && closed(t) {
			break // its package alone knows which values make sense
		}
		for i := 0; i < t.NumField(); i++ {
			if g.r.Intn(12) == 0 && !g.plain {
				continue
			}
			set(v.Field(i), g.Gen(t.Field(i).Type, depth))
		}
	case reflect.Ptr:
		if depth >= 0 && (g.r.Intn(5) != 0 || g.plain && g.r.Intn(4) != 0) {
			p := reflect.New(t.Elem())
			p.Elem().Set(g.Gen(t.Elem(), depth-1))
			v.Set(p)
		}
	case reflect.Slice:
		if depth < 0 {
			break
		}
		n := g.size()
		if cost(t.Elem()) > 0 && n > 16 && depth < 4 {
			n = g.r.Intn(4)
		}
		if depth <= 1 && n > 2 && cost(t.Elem()) > 0 {
			n = g.r.Intn(3)
		}
		if n == 0 && g.r.Intn(2) == 0 {
			break
		}
		extra := 0
		if g.r.Intn(2) == 0 {
			extra = 1 + g.r.Intn(4)
		}
		s := reflect.MakeSlice(t, n+extra, n+extra)
		for i := 0; i < n; i++ {
			if i > 0 && g.r.Intn(8) == 0 {
				s.Index(i).Set(s.Index(g.r.Intn(i)))
				continue
			}
			s.Index(i).Set(g.Gen(t.Elem(), depth-1))
		}
		v.Set(s.Slice(0, n))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.Gen(t.Elem(), depth-1))
		}
	case reflect.Map:
		if depth < 0 || g.r.Intn(8) == 0 {
			break
		}
		n := g.r.Intn(5)
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := g.Gen(t.Key(), depth-1)
			if !hashable(k) || pointers(k) {
				continue
			}
			m.SetMapIndex(k, g.Gen(t.Elem(), depth-1))
		}
		v.Set(m)
	case reflect.Interface:
		if depth < 0 && g.r.Intn(3) == 0 && !g.plain || g.r.Intn(14) == 0 && (!g.plain || t.NumMethod() == 0 && g.r.Intn(3) == 0) {
			break
		}
		if t == readerT {
			v.Set(reflect.ValueOf(strings.NewReader(g.str() + " " + g.str() + "=" + g.str())))
			break
		}
		var c []reflect.Type
		if len(g.hints) > 0 && g.r.Intn(3) != 0 {
			h := g.hints[g.r.Intn(len(g.hints))]
			if len(g.anys) > 0 && t.NumMethod() == 0 && g.r.Intn(4) != 0 {
				h = g.anys[g.r.Intn(len(g.anys))]
			}
			if h.Kind() == reflect.Interface {
				c = impls(h)
			} else {
				c = []reflect.Type{h}
			}
		} else if t.NumMethod() == 0 {
			c = dyn
			if g.r.Intn(2) == 0 {
				c = foreign
			}
		}
		var ok []reflect.Type
		pick := func(c []reflect.Type) {
			for _, d := range c {
				if d.Implements(t) && cost(d) <= depth+1 {
					ok = append(ok, d)
				}
			}
		}
		pick(c)
		if len(ok) == 0 {
			pick(impls(t))
		}
		if len(ok) == 0 {
			for _, d := range impls(t) {
				if cost(d) == 0 {
					ok = append(ok, d)
				}
			}
		}
		if len(ok) == 0 {
			break
		}
		d := ok[g.r.Intn(len(ok))]
		x := g.Gen(d, depth-1)
		if t.NumMethod() > 0 && d.Kind() == reflect.Ptr && x.IsNil() {
			x = reflect.New(d.Elem()) // well-formed: no nil pointer in a statement
			x.Elem().Set(g.Gen(d.Elem(), depth-2))
		}
		v.Set(x)
	}
	return v
}

var readerT = reflect.TypeOf((*io.Reader)(nil)).Elem()

// pointers tells whether a map key has pointers in it, so that an equal one cannot be made again.
func pointers(v reflect.Value) bool {
	if !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil()
	case reflect.Interface:
		return pointers(v.Elem())
	case reflect.Struct:
		if v.Type() == timeT {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			if pointers(v.Field(i)) {
				return true
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if pointers(v.Index(i)) {
				return true
			}
		}
	case reflect.Float32, reflect.Float64:
		return v.Float() != v.Float()
	}
	return false
}

// closed says whether a struct type has fields of its own package.
func closed(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath != "" {
			return true
		}
	}
	return false
}

func hashable(v reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	m := map[interface{}]bool{}
	m[open(v).Interface()] = true
	return true
}

// open makes a value that was reached through unexported fields readable.
func open(v reflect.Value) reflect.Value {
	if v.IsValid() && !v.CanInterface() {
		(*(*[3]uintptr)(unsafe.Pointer(&v)))[2] &^= 1<<5 | 1<<6
	}
	return v
}

var addrRE = regexp.MustCompile(`0x[0-9a-fx]{6,}`)

// noAddr leaves the addresses out that fmt shows of pointers.
func noAddr(s string) string { return addrRE.ReplaceAllString(s, "0x") }

var errT = reflect.TypeOf((*error)(nil)).Elem()

// same compares two values; with full the spare capacity of slices as well.
func same(a, b reflect.Value, full bool, depth int) string {
	if depth > 60 {
		return ""
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return "one is nil"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("types %s and %s", a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.String:
		if a.String() != b.String() && noAddr(a.String()) != noAddr(b.String()) {
			return fmt.Sprintf("%q and %q", cut(a.String()), cut(b.String()))
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%v and %v", a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%v and %v", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%v and %v", a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%v and %v", a.Float(), b.Float())
		}
	case reflect.Complex64, reflect.Complex128:
		if a.Complex() != b.Complex() {
			return "complex numbers"
		}
	case reflect.Struct:
		if a.Type() == timeT {
			x, y := open(a).Interface().(time.Time), open(b).Interface().(time.Time)
			if !x.Equal(y) || x.Location().String() != y.Location().String() {
				return fmt.Sprintf("%v and %v", x, y)
			}
			return ""
		}
		if strings.HasPrefix(a.Type().PkgPath(), "strings") {
			return ""
		}
		if a.Type().String() == "stmt.PairContainer" && fmt.Sprint(open(a.FieldByName("Mode"))) == "1" && fmt.Sprint(open(b.FieldByName("Mode"))) == "1" && !full {
			// keyed by column: the order is that of a Go map until the pairs are rendered
			x, y := sortedShow(a.FieldByName("Columns")), sortedShow(b.FieldByName("Columns"))
			if x != y {
				return ".Columns: " + x + " and " + y
			}
			return same(a.FieldByName("Map"), b.FieldByName("Map"), full, depth+1)
		}
		kn := Known[a.Type().String()]
		for i := 0; i < a.NumField(); i++ {
			if kn != nil && !kn[a.Type().Field(i).Name] {
				continue // a field the contracts know nothing about
			}
			if d := same(a.Field(i), b.Field(i), full, depth+1); d != "" {
				return "." + a.Type().Field(i).Name + ": " + d
			}
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return "one is nil"
		}
		if !a.IsNil() && a.Pointer() != b.Pointer() {
			return same(a.Elem(), b.Elem(), full, depth+1)
		}
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return "one is nil"
		}
		if a.Type() == errT {
			return ""
		}
		return same(a.Elem(), b.Elem(), full, depth+1)
	case reflect.Slice, reflect.Array:
		x, y := a, b
		if a.Len() != b.Len() {
			return fmt.Sprintf("lengths %d and %d", a.Len(), b.Len())
		}
		if full && a.Kind() == reflect.Slice {
			if a.Cap() != b.Cap() {
				return "capacities"
			}
			x, y = a.Slice(0, a.Cap()), b.Slice(0, b.Cap())
		}
		for i := 0; i < x.Len(); i++ {
			if d := same(x.Index(i), y.Index(i), full, depth+1); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("lengths %d and %d", a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			w := b.MapIndex(k)
			if !w.IsValid() {
				for _, k2 := range b.MapKeys() {
					if show(k, 0) == show(k2, 0) {
						w = b.MapIndex(k2)
					}
				}
			}
			if !w.IsValid() {
				return fmt.Sprintf("key %v is missing", k)
			}
			if d := same(a.MapIndex(k), w, full, depth+1); d != "" {
				return fmt.Sprintf("[%v]: %s", k, d)
			}
		}
	}
	return ""
}

func sortedShow(v reflect.Value) string {
	var r []string
	for i := 0; i < v.Len(); i++ {
		r = append(r, show(v.Index(i), 0))
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// show writes a value out.
func show(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 12 {
		return "..."
	}
	switch v.Kind() {
	case reflect.String:
		s := strconv.Quote(v.String())
		if v.Type().PkgPath() != "" {
			return v.Type().String() + "(" + s + ")"
		}
		return s
	case reflect.Struct:
		if v.Type() == timeT {
			return "time(" + open(v).Interface().(time.Time).String() + ")"
		}
		var b []string
		for i := 0; i < v.NumField(); i++ {
			b = append(b, v.Type().Field(i).Name+": "+show(v.Field(i), depth+1))
		}
		return v.Type().String() + "{" + strings.Join(b, ", ") + "}"
	case reflect.Ptr:
		if v.IsNil() {
			return "(" + v.Type().String() + ")(nil)"
		}
		return "&" + show(v.Elem(), depth+1)
	case reflect.Interface:
		return show(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return v.Type().String() + "(nil)"
		}
		var b []string
		for i := 0; i < v.Len(); i++ {
			b = append(b, show(v.Index(i), depth+1))
		}
		s := v.Type().String() + "{" + strings.Join(b, ", ") + "}"
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			s += fmt.Sprintf("[:%d:%d]", v.Len(), v.Cap())
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return v.Type().String() + "(nil)"
		}
		var b []string
		for _, k := range v.MapKeys() {
			b = append(b, show(k, depth+1)+": "+show(v.MapIndex(k), depth+1))
		}
		sort.Strings(b)
		return v.Type().String() + "{" + strings.Join(b, ", ") + "}"
	case reflect.Int, reflect.Bool:
		if v.Type().PkgPath() == "" {
			return fmt.Sprint(v)
		}
		return fmt.Sprintf("%s(%v)", v.Type(), v)
	}
	return fmt.Sprintf("%s(%v)", v.Type(), v)
}

func call(f reflect.Value, in []reflect.Value) (out []reflect.Value, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprintf("%T: %v", e, e)
		}
	}()
	if f.Type().IsVariadic() {
		return f.CallSlice(in), ""
	}
	return f.Call(in), ""
}

// Finding is an input on which code and contract differ.
type Finding struct {
	Case   string   `json:"case"`
	Seed   int64    `json:"seed"`
	Index  int      `json:"index"`
	Input  string   `json:"input"`
	What   string   `json:"what"`
	Code   string   `json:"code"`
	Spec   string   `json:"contract"`
	Facets []string `json:"facets"`
}

type Report struct {
	Findings []Finding      `json:"findings"`
	Runs     map[string]int `json:"runs"`
	Returned map[string]int `json:"returned"`
	Distinct map[string]int `json:"distinct"`
}

var current atomic.Value // of string: the input that runs
var started int64

func watch(rep *Report, out string) {
	for {
		time.Sleep(50 * time.Millisecond)
		var m runtime.MemStats
		t0 := atomic.LoadInt64(&started)
		if t0 == 0 {
			continue
		}
		late := time.Now().UnixNano()-t0 > int64(4*time.Second)
		if !late {
			runtime.ReadMemStats(&m)
		}
		if late || m.HeapAlloc > 3<<30 {
			c := current.Load().(Finding)
			c.What = "does not return"
			if m.HeapAlloc > 3<<30 {
				c.What = "uses up memory"
			}
			c.Facets = []string{"hang"}
			b, _ := json.Marshal(map[string]interface{}{"findings": []Finding{c}, "runs": map[string]int{c.Case: c.Index + 1}})
			os.WriteFile(out, b, 0o644)
			os.Exit(0)
		}
	}
}

func inputs(c *Case, seed int64, i int) []reflect.Value {
	h := fnv.New64a()
	fmt.Fprint(h, c.Name, seed, i)
	g := &G{r: rand.New(rand.NewSource(int64(h.Sum64()))), strs: c.Strs, ints: c.Ints, text: c.Str}
	g.plain = g.r.Intn(2) == 0
	for _, n := range c.Hints {
		g.hints = append(g.hints, resolve(norm(n))...)
	}
	for _, n := range c.Anys {
		g.anys = append(g.anys, resolve(norm(n))...)
	}
	if g.r.Intn(6) == 0 {
		g.hints = nil
	}
	ft := reflect.TypeOf(c.Code)
	n := ft.NumIn()
	if c.Kind == "writer" {
		n--
	}
	depth := 2 + g.r.Intn(4)
	if i%50 == 0 {
		depth = 0
	}
	var in []reflect.Value
	for k := 0; k < n; k++ {
		t := ft.In(k)
		if k == 0 && c.Kind == "ptr" {
			t = t.Elem()
		}
		v := g.Gen(t, depth)
		for _, nn := range c.NonNil {
			for try := 0; nn == k && v.Kind() == reflect.Interface && v.IsNil() && try < 20; try++ {
				v = g.Gen(t, depth)
			}
		}
		in = append(in, v)
	}
	return in
}

func showAll(in []reflect.Value) string {
	var b []string
	for _, v := range in {
		b = append(b, show(v, 0))
	}
	return strings.Join(b, ", ")
}

func (o Obs) String() string {
	if o.Panic != "" {
		return "panic " + cut(o.Panic)
	}
	return fmt.Sprintf("text %q values %s", cut(strings.ReplaceAll(o.Text, Hole, "‹?›")), cut(show(reflect.ValueOf(o.Vals), 0)))
}

// differ compares two observations of a statement; facets name the kinds of difference.
func differ(code, spec Obs) (string, []string) {
	var fs []string
	what := ""
	add := func(w, f string) {
		if what == "" {
			what = w
		}
		fs = append(fs, f)
	}
	if (code.Panic != "") != (spec.Panic != "") {
		return "one of code and contract panics", []string{"panic"}
	}
	if code.Panic != "" {
		return "", nil
	}
	vals := same(reflect.ValueOf(code.Vals), reflect.ValueOf(spec.Vals), false, 0)
	if code.Text != spec.Text {
		add("text", "text")
		if misquoted(code.Text, spec.Text) {
			fs = append(fs, "ident")
		}
	}
	if vals != "" {
		add("values: "+vals, "vals")
		if code.Text == spec.Text || misplaced(code, spec) {
			fs = append(fs, "misaligned")
		}
	}
	if len(code.Vals) < len(spec.Vals) {
		fs = append(fs, "unbound")
	}
	if w := placeholders(code.Std, "$", len(code.StdVals)); w != "" {
		add(w, "std")
	}
	if code.Std != spec.Std && what == "" {
		add("text of Query", "std")
	}
	if d := same(reflect.ValueOf(code.StdVals), reflect.ValueOf(spec.StdVals), false, 0); d != "" && what == "" {
		add("arguments of Query: "+d, "std")
	}
	if w := placeholders(code.Named, ":arg_", len(code.NamedVals)); w != "" {
		add(w, "named")
	}
	if code.Named != spec.Named && what == "" {
		add("text of NamedQuery", "named")
	}
	if d := same(reflect.ValueOf(code.NamedVals), reflect.ValueOf(spec.NamedVals), false, 0); d != "" && what == "" {
		add("arguments of NamedQuery: "+d, "named")
	}
	if code.RawPanic != spec.RawPanic && len(fs) == 0 {
		add("String panics or not", "raw")
	}
	if noAddr(code.Raw) != noAddr(spec.Raw) && len(fs) == 0 {
		add("text of String", "raw")
	}
	if code.Again != "" && spec.Again == "" {
		add("a second rendering differs: "+code.Again, "again")
	}
	return what, fs
}

// misplaced says whether a value stands in a place of the statement for which another one, or NULL, was given.
func misplaced(code, spec Obs) bool {
	const null = "NULL"
	if strings.ReplaceAll(code.Text, null, Hole) != strings.ReplaceAll(spec.Text, null, Hole) {
		return false
	}
	places := func(o Obs) (ps []reflect.Value) {
		k := 0
		for s := o.Text; s != ""; {
			switch {
			case strings.HasPrefix(s, null):
				ps, s = append(ps, reflect.Value{}), s[len(null):]
			case strings.HasPrefix(s, Hole):
				if k >= len(o.Vals) {
					return nil
				}
				ps, s, k = append(ps, reflect.ValueOf(&o.Vals[k]).Elem()), s[len(Hole):], k+1
			default:
				s = s[1:]
			}
		}
		return ps
	}
	a, b := places(code), places(spec)
	for i := range a {
		if i < len(b) && a[i].IsValid() && (!b[i].IsValid() || same(a[i], b[i], false, 0) != "") {
			return true
		}
	}
	return false
}

// identifiers splits a text into its quoted identifiers and what is outside of them.
func identifiers(s string) (names []string, outside string, closed bool) {
	var out strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '"' {
			out.WriteByte(s[i])
			continue
		}
		var name strings.Builder
		for i++; ; i++ {
			if i >= len(s) {
				return names, out.String(), false
			}
			if s[i] == '"' {
				if i+1 < len(s) && s[i+1] == '"' {
					i++
				} else {
					break
				}
			}
			name.WriteByte(s[i])
		}
		names = append(names, name.String())
		out.WriteByte('\x00')
	}
	return names, out.String(), true
}

// misquoted says whether a name that the contract quotes is written without quotes, cut short or changed.
func misquoted(code, spec string) bool {
	cn, co, cc := identifiers(code)
	sn, so, sc := identifiers(spec)
	if cc != sc {
		return true
	}
	count := map[string]int{}
	for _, n := range sn {
		count[n]++
	}
	for _, n := range cn {
		count[n]--
	}
	lost, other := 0, 0
	for n, k := range count {
		if k < 0 {
			other -= k
			continue
		}
		lost += k
		for _, part := range strings.Split(n, `"`) {
			if k > 0 && part != "" && strings.Contains(co, part) && !strings.Contains(so, part) {
				return true
			}
		}
	}
	return lost > 0 && lost == other
}

func placeholders(s, mark string, n int) string {
	i := 1
	for {
		k := strings.Index(s, mark)
		if k < 0 {
			break
		}
		s = s[k+len(mark):]
		d := 0
		for d < len(s) && s[d] >= '0' && s[d] <= '9' {
			d++
		}
		if s[:d] == "" {
			continue
		}
		if !strings.HasPrefix(s, strconv.Itoa(i)) {
			return fmt.Sprintf("placeholder %s%s where %s%d was expected", mark, s[:d], mark, i)
		}
		i++
	}
	if i-1 != n {
		return fmt.Sprintf("%d placeholders and %d arguments", i-1, n)
	}
	return ""
}

// run tries one input; it returns what differs.
func (c *Case) run(seed int64, i int) (what string, f Finding, returned bool) {
	in := inputs(c, seed, i)
	f = Finding{Case: c.Name, Seed: seed, Index: i}
	cur := f
	cur.Input = "case " + strconv.Itoa(i)
	current.Store(cur)
	spIn := inputs(c, seed, i)
	ref := inputs(c, seed, i)
	if c.Kind == "writer" {
		spec := reflect.ValueOf(c.Spec)
		out, pan := call(spec, spIn)
		var so Obs
		if pan != "" {
			so.Panic = pan
		} else {
			so = SpecObs(out[0])
		}
		co := WriterObs(open(in[0]).Interface(), reflect.ValueOf(c.Code))
		w, fs := differ(co, so)
		if w == "" {
			if d := sameAll(in, ref); d != "" {
				w, fs = "an argument is changed: "+d, []string{"mutate"}
			}
		}
		if w != "" {
			f.Input, f.What, f.Code, f.Spec, f.Facets = showAll(ref), w, co.String(), so.String(), fs
			if w == "text of Query" || strings.Contains(w, "Query") || strings.Contains(w, "placeholder") {
				f.Code, f.Spec = fmt.Sprintf("%q %v | %q %v", cut(co.Std), co.StdVals, cut(co.Named), co.NamedVals), fmt.Sprintf("%q %v | %q %v", cut(so.Std), so.StdVals, cut(so.Named), so.NamedVals)
			}
			if strings.Contains(w, "String") {
				f.Code, f.Spec = co.Raw, so.Raw
			}
		}
		return w, f, so.Panic == ""
	}
	code := reflect.ValueOf(c.Code)
	cin := append([]reflect.Value{}, in...)
	if c.Kind == "ptr" {
		cin[0] = in[0].Addr()
	}
	out, pan := call(code, cin)
	sout, span := call(reflect.ValueOf(c.Spec), spIn)
	if (pan != "") != (span != "") {
		f.What, f.Facets = "one of code and contract panics", []string{"panic"}
		if strings.HasPrefix(pan, "runtime.") || strings.HasPrefix(pan, "*runtime.") {
			f.Facets = append(f.Facets, "runtime")
		}
		f.Input, f.Code, f.Spec = showAll(ref), "panic "+pan, "panic "+span
		if pan == "" {
			f.Code = "returns " + showAll(out)
		}
		if span == "" {
			f.Spec = "returns " + showAll(sout)
		}
		return f.What, f, span == ""
	}
	if pan == "" {
		so := sout
		if c.Kind == "ptr" {
			if d := same(in[0], so[0], false, 0); d != "" {
				f.What, f.Facets, f.Input, f.Code, f.Spec = "receiver: "+d, []string{"result"}, showAll(ref), show(in[0], 0), show(so[0], 0)
				return f.What, f, true
			}
			so = so[1:]
		}
		for k := range out {
			if d := same(out[k], so[k], false, 0); d != "" {
				f.What, f.Facets, f.Input, f.Code, f.Spec = "result: "+d, []string{"result"}, showAll(ref), cut(show(out[k], 0)), cut(show(so[k], 0))
				return f.What, f, true
			}
		}
	}
	from := 0
	if c.Kind == "ptr" {
		from = 1
	}
	if d := sameAll(in[from:], ref[from:]); d != "" {
		f.What, f.Facets, f.Input, f.Code, f.Spec = "an argument is changed: "+d, []string{"mutate"}, showAll(ref), showAll(in), showAll(ref)
		return f.What, f, true
	}
	return "", f, span == ""
}

// try shields the run from errors of the comparison itself.
func (c *Case) try(seed int64, i int) (what string, f Finding, returned bool) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintln(os.Stderr, "replay:", c.Name, i, e)
			what = ""
		}
	}()
	return c.run(seed, i)
}

func sameAll(a, b []reflect.Value) string {
	for i := range a {
		if d := same(a[i], b[i], true, 0); d != "" {
			return fmt.Sprintf("argument %d%s", i, d)
		}
	}
	return ""
}

// obs shows everything that can be observed of one run of the code.
func (c *Case) obs(seed int64, i int) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprintf("panic %T: %v", e, e)
		}
	}()
	in := inputs(c, seed, i)
	if c.Kind == "writer" {
		o := WriterObs(open(in[0]).Interface(), reflect.ValueOf(c.Code))
		return noAddr(o.String() + o.Std + o.Named + o.Raw + o.Again)
	}
	if c.Kind == "ptr" {
		in[0] = in[0].Addr()
	}
	out, pan := call(reflect.ValueOf(c.Code), in)
	if pan != "" {
		return noAddr("panic " + pan)
	}
	return noAddr(showAll(out) + showAll(in))
}

// steady: alone, the code always does the same (it may depend on the order of a map).
func (c *Case) steady(seed int64, i int, want string) bool {
	for n := 0; n < 300; n++ {
		if c.obs(seed, i) != want {
			return false
		}
	}
	return true
}

// together runs the code from several goroutines on the same new inputs, and each alone afterwards.
func (c *Case) together(seed int64, d time.Duration) (f Finding, bad bool) {
	const workers, most = 4, 400
	got := make([][]string, workers)
	var wg sync.WaitGroup
	end := time.Now().Add(d)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < most && time.Now().Before(end); i++ {
				got[w] = append(got[w], c.obs(seed, i))
			}
		}(w)
	}
	wg.Wait()
	for w := range got {
		for i, g := range got[w] {
			a := c.obs(seed, i)
			if g != a && c.steady(seed, i, a) {
				return Finding{Case: c.Name, Seed: seed, Index: i, Input: "run from 4 goroutines: " + showAll(inputs(c, seed, i)), What: "a run beside others differs from a run alone",
					Code: cut(g), Spec: cut(a), Facets: []string{"concurrent"}}, true
			}
		}
	}
	return
}

// concurrent runs the code from several goroutines and compares with what it does alone.
func (c *Case) concurrent(seed int64, d time.Duration) (f Finding, bad bool) {
	if f, bad = c.together(seed+7919, d); bad { // with inputs nothing has seen before
		return
	}
	var ids []int
	want := map[int]string{}
	end := time.Now().Add(d)
	for i := 0; i < 400 && len(ids) < 64 && time.Now().Before(end); i++ {
		if i%50 == 0 {
			continue
		}
		a := c.obs(seed, i)
		if a == c.obs(seed, i) && a == c.obs(seed, i) {
			ids, want[i] = append(ids, i), a
		}
	}
	if len(ids) == 0 {
		return
	}
	var stop int32
	res := make(chan Finding, 16)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(w)))
			end := time.Now().Add(d)
			for time.Now().Before(end) && atomic.LoadInt32(&stop) == 0 {
				i := ids[r.Intn(len(ids))]
				if got := c.obs(seed, i); got != want[i] {
					atomic.StoreInt32(&stop, 1)
					res <- Finding{Case: c.Name, Seed: seed, Index: i, Input: "run from 8 goroutines: " + showAll(inputs(c, seed, i)), What: "a run beside others differs from a run alone",
						Code: cut(got), Spec: cut(want[i]), Facets: []string{"concurrent"}}
					return
				}
			}
		}(w)
	}
	wg.Wait()
	close(res)
	for f = range res {
		if c.steady(seed, f.Index, want[f.Index]) {
			return f, true
		}
	}
	return f, false
}

// Main runs the cases: args are output file, seed, seconds per case, at most this many runs per case, then case names.
func Main(args []string) {
	debug.SetMaxStack(1 << 28)
	prepare()
	out := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	secs, _ := strconv.ParseFloat(args[2], 64)
	max, _ := strconv.Atoi(args[3])
	only := map[string]bool{}
	for _, n := range args[4:] {
		only[n] = true
	}
	rep := &Report{Runs: map[string]int{}, Returned: map[string]int{}, Distinct: map[string]int{}}
	go watch(rep, out)
	sort.Slice(Cases, func(i, j int) bool { return Cases[i].Name < Cases[j].Name })
	for _, c := range Cases {
		if len(only) > 0 && !only[c.Name] {
			continue
		}
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		facets := map[string]bool{}
		seen := map[uint64]bool{}
		for i := 0; i < max && time.Now().Before(end); i++ {
			atomic.StoreInt64(&started, time.Now().UnixNano())
			w, f, ret := c.try(seed, i)
			if w != "" && c.Facet != nil {
				f.Facets = append(f.Facets, c.Facet(inputs(c, seed, i))...)
			}
			atomic.StoreInt64(&started, 0)
			rep.Runs[c.Name]++
			if ret {
				rep.Returned[c.Name]++
			}
			if i < 2000 {
				h := fnv.New64a()
				io.WriteString(h, showAll(inputs(c, seed, i)))
				seen[h.Sum64()] = true
			}
			if w != "" {
				k := strings.Join(f.Facets, ",")
				if !facets[k] {
					facets[k] = true
					rep.Findings = append(rep.Findings, f)
				}
				if len(facets) > 6 {
					break
				}
			}
		}
		rep.Distinct[c.Name] = len(seen)
		if os.Getenv("VREPLAY_CONC") != "" {
			// an unsynchronised map ends the process: what is known is left behind first
			die := *rep
			die.Findings = append(append([]Finding{}, rep.Findings...), Finding{Case: c.Name, Seed: seed, Input: "run from 8 goroutines", What: "the process dies", Facets: []string{"concurrent"}})
			if b, err := json.Marshal(die); err == nil {
				os.WriteFile(out, b, 0o644)
			}
			if f, bad := c.concurrent(seed, 1500*time.Millisecond); bad {
				rep.Findings = append(rep.Findings, f)
			}
			os.Remove(out)
		}
	}
	b, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}
