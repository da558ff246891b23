package types

import (
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/vspec"
)

// Inline replaces every hole by the literal of its value.
//
//@ opaque
func Inline(text string, vals []interface{}) string {
	var b strings.Builder
	for i, p := range strings.Split(text, vspec.Hole) {
		if i > 0 {
			b.WriteString(format.VValue(vals[i-1]))
		}
		b.WriteString(p)
	}
	return b.String()
}

// The contracts of the contexts are the defining equations of Std, NamedText/NamedVals and Inline:
// a piece of text is appended as it is, a bound value appends its placeholder (or literal) and is recorded.

//@ contract types.(*RawContext).Write props=B01,B02,B03,G01 norun=1
func cRawWrite(c RawContext, s string) RawContext {
	c.buffer.WriteString(s)
	return c
}

//@ contract types.(*RawContext).Bind props=B03,S04 norun=1
func cRawBind(c RawContext, v interface{}) RawContext {
	c.buffer.WriteString(format.Value(v))
	return c
}

//@ contract types.(*RawContext).Query props=B01,B02,B03 norun=1
func cRawQuery(c RawContext) (RawContext, string) {
	return c, c.buffer.String()
}

//@ contract types.(*StdContext).Bind props=B01,B03,S01,V03 norun=1
func cStdBind(c StdContext, v interface{}) StdContext {
	c.buffer.WriteString("$" + strconv.Itoa(len(c.values)+1))
	c.values = append(c.values[:len(c.values):len(c.values)], v)
	return c
}

//@ contract types.(*StdContext).Values props=B01,B03 norun=1
func cStdValues(c StdContext) (StdContext, []interface{}) {
	return c, c.values
}

//@ contract types.(*NamedContext).Bind props=B02,B03,S01,V03 norun=1
func cNamedBind(c NamedContext, v interface{}) NamedContext {
	m := c.values
	if m == nil {
		m = map[string]interface{}{}
	}
	name := "arg_" + strconv.Itoa(len(m)+1)
	c.values = vspec.MapPut(m, name, v)
	c.buffer.WriteString(":" + name)
	return c
}

//@ contract types.(*NamedContext).Values props=B02,B03 norun=1
func cNamedValues(c NamedContext) (NamedContext, map[string]interface{}) {
	return c, c.values
}

//@ contract types.ComparisonOperator.String props=C02
func cComparisonOperatorString(s ComparisonOperator) string { return string(s) }

//@ contract types.LogicalOperator.String props=C02
func cLogicalOperatorString(s LogicalOperator) string { return string(s) }

//@ contract types.JoinType.String props=J02,G01
func cJoinTypeString(s JoinType) string { return string(s) }

//@ contract types.OrderType.String props=G01
func cOrderTypeString(s OrderType) string { return string(s) }
