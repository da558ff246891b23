package format

import (
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"time"
)

// vEsc is how one character appears inside a literal.
func vEsc(r rune) string {
	switch r {
	case '\'':
		return "\\'"
	case '\\':
		return "\\\\"
	case '\n':
		return "\\n"
	case '\r':
		return "\\r"
	case '\t':
		return "\\t"
	}
	return string(r)
}

// vString is a quoted literal.
//
//@ contract format.String props=S04,B03
func vString(s string) string {
	o := "'"
	for _, r := range s {
		o += vEsc(r)
	}
	return o + "'"
}

//@ contract format.Bytes props=S04,B03
func vBytes(b []byte) string {
	return "decode('" + hex.EncodeToString(b) + "', 'hex')"
}

//@ contract format.Int props=S04,B03
func vInt(n int64) string {
	return strconv.FormatInt(n, 10)
}

//@ contract format.Uint props=S04,B03
func vUint(n uint64) string {
	return strconv.FormatUint(n, 10)
}

//@ contract format.Bool props=S04,B03
func vBool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// vFloat is the shortest decimal that reads back as the number.
//
//@ contract format.Float props=S04,B03
func vFloat(f float64) string {
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// vTime is the moment in UTC.
//
//@ contract format.Time props=S04,B03
func vTime(t time.Time) string {
	return "'" + t.UTC().Format("2006-01-02 15:04:05.999999") + "+00'"
}

// vValue is the literal of a value, by its dynamic type.
//
//@ opaque
//@ contract format.Value props=S04,B03
func vValue(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "NULL"
	case string:
		return vString(t)
	case []byte:
		return vBytes(t)
	case time.Time:
		return vTime(t)
	case driver.Valuer:
		r := reflect.ValueOf(t)
		if r.Kind() == reflect.Ptr && r.IsNil() {
			return "NULL"
		}
		x, err := t.Value()
		if err != nil {
			panic("valuer failed")
		}
		return vValue(x)
	case int:
		return vInt(int64(t))
	case int8:
		return vInt(int64(t))
	case int16:
		return vInt(int64(t))
	case int32:
		return vInt(int64(t))
	case int64:
		return vInt(t)
	case uint:
		return vUint(uint64(t))
	case uint8:
		return vUint(uint64(t))
	case uint16:
		return vUint(uint64(t))
	case uint32:
		return vUint(uint64(t))
	case uint64:
		return vUint(t)
	case bool:
		return vBool(t)
	case float32:
		return vFloat(float64(t))
	case float64:
		return vFloat(t)
	}
	return fmt.Sprint(v)
}

// VValue is the literal of a value, for other packages' specifications.
func VValue(v interface{}) string { return vValue(v) }
