package builder

import (
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

//@ contract builder.IsSelectBuilder props=K01
func cIsSelect(b Builder) bool {
	_, v := b.(Select)
	_, p := b.(*Select)
	return v || p
}

//@ contract builder.IsInsertBuilder props=K01
func cIsInsert(b Builder) bool {
	_, v := b.(Insert)
	_, p := b.(*Insert)
	return v || p
}

//@ contract builder.IsUpdateBuilder props=K01
func cIsUpdate(b Builder) bool {
	_, v := b.(Update)
	_, p := b.(*Update)
	return v || p
}

//@ contract builder.IsDeleteBuilder props=K01
func cIsDelete(b Builder) bool {
	_, v := b.(Delete)
	_, p := b.(*Delete)
	return v || p
}

// vCol refuses an undefined column.
func vCol(c stmt.Column) stmt.Column {
	if c.Name == "" {
		panic("undefined column")
	}
	return c
}

// vColumn is one column; a name is trimmed, never split.
//
//@ contract builder.ToColumn props=E01,V01,G01
func vColumn(v interface{}) stmt.Column {
	switch t := v.(type) {
	case string:
		return vCol(stmt.Column{Name: strings.TrimSpace(t)})
	case stmt.Column:
		return vCol(t)
	}
	panic("unsupported column")
}

// vNames are the columns of a comma-separated list of names.
func vNames(s string) []stmt.Column {
	var cs []stmt.Column
	for _, n := range strings.Split(s, ",") {
		cs = append(cs, vCol(stmt.Column{Name: strings.TrimSpace(n)}))
	}
	return cs
}

func vColumnArg(v interface{}) []stmt.Column {
	switch t := v.(type) {
	case string:
		return vNames(t)
	case stmt.Column:
		return []stmt.Column{vCol(t)}
	}
	panic("unsupported column")
}

// vColumns are the columns of all arguments, in the order given.
//
//@ opaque
//@ contract builder.ToColumns props=E01,G01
func vColumns(vs []interface{}) []stmt.Column {
	if len(vs) == 1 {
		switch t := vs[0].(type) {
		case []stmt.Column:
			var cs []stmt.Column
			for _, c := range t {
				cs = append(cs, vCol(c))
			}
			return cs
		case []string:
			if len(t) == 1 {
				return vNames(t[0])
			}
			var cs []stmt.Column
			for _, s := range t {
				cs = append(cs, vNames(s)...)
			}
			return cs
		}
	}
	var cs []stmt.Column
	for _, v := range vs {
		cs = append(cs, vColumnArg(v)...)
	}
	return cs
}

func vSelectName(n string) stmt.SelectExpression {
	return vCol(stmt.Column{Name: n})
}

func vSelectArg(v interface{}) []stmt.SelectExpression {
	switch t := v.(type) {
	case stmt.SelectExpression:
		if stmt.VEmp(t) {
			panic("undefined column")
		}
		return []stmt.SelectExpression{t}
	case string:
		var es []stmt.SelectExpression
		for _, n := range strings.Split(t, ",") {
			es = append(es, vSelectName(strings.TrimSpace(n)))
		}
		return es
	}
	panic("unsupported column")
}

// vSelects are the select expressions of all arguments, in the order given.
//
//@ opaque
//@ contract builder.ToSelectExpressions props=E01,G01
func vSelects(vs []interface{}) []stmt.SelectExpression {
	var es []stmt.SelectExpression
	if len(vs) == 1 {
		switch t := vs[0].(type) {
		case []stmt.SelectExpression:
			for _, e := range t {
				if e == nil || stmt.VEmp(e) {
					panic("undefined column")
				}
				es = append(es, e)
			}
			return es
		case []stmt.Column:
			for _, c := range t {
				es = append(es, vCol(c))
			}
			return es
		case []string:
			for _, n := range t {
				es = append(es, vSelectName(n))
			}
			return es
		}
	}
	for _, v := range vs {
		es = append(es, vSelectArg(v)...)
	}
	return es
}

// vTable is one table.
//
//@ contract builder.ToTable props=E01,G01
func vTable(v interface{}) stmt.Table {
	var r stmt.Table
	switch t := v.(type) {
	case string:
		r = stmt.Table{Name: t}
	case stmt.Table:
		r = t
	default:
		panic("unsupported table")
	}
	if r.Name == "" {
		panic("undefined table")
	}
	return r
}

//@ contract builder.ToTables props=E01,G01
func vTables(vs []interface{}) []stmt.Table {
	var ts []stmt.Table
	for _, v := range vs {
		ts = append(ts, vTable(v))
	}
	return ts
}

func vFromArg(v interface{}) []stmt.Statement {
	switch t := v.(type) {
	case string:
		return []stmt.Statement{stmt.Table{Name: t}}
	case stmt.From:
		return t.Tables
	case stmt.Table:
		return []stmt.Statement{t}
	case stmt.Raw:
		return []stmt.Statement{t}
	}
	panic("unsupported table")
}

// vFrom are the tables of all arguments, in the order given.
//
//@ contract builder.ToFrom props=E01,G01
func vFrom(vs ...interface{}) stmt.From {
	var ts []stmt.Statement
	for _, v := range vs {
		ts = append(ts, vFromArg(v)...)
	}
	for _, t := range ts {
		if t == nil || stmt.VEmp(t) {
			panic("undefined table")
		}
	}
	if len(ts) == 0 {
		panic("no table")
	}
	return stmt.From{Tables: ts}
}

//@ contract builder.ToInto props=E01,G01
func vInto(v interface{}) stmt.Into {
	var r stmt.Into
	switch t := v.(type) {
	case string:
		r.Table.Name = t
	case stmt.Into:
		r = t
	case stmt.Table:
		r.Table = t
	default:
		panic("unsupported table")
	}
	if r.Table.Name == "" {
		panic("undefined table")
	}
	return r
}

//@ contract builder.ToSuffix props=E01,G01
func vSuffix(v interface{}) stmt.Suffix {
	s, ok := v.(stmt.Suffix)
	if !ok {
		t, ok := v.(string)
		if !ok {
			panic("unsupported suffix")
		}
		s.Suffix = t
	}
	if s.Suffix == "" {
		panic("undefined suffix")
	}
	return s
}

//@ contract builder.ToPrefix props=E01,G01
func vPrefix(v interface{}) stmt.Prefix {
	s, ok := v.(stmt.Prefix)
	if !ok {
		t, ok := v.(string)
		if !ok {
			panic("unsupported prefix")
		}
		s.Prefix = t
	}
	if s.Prefix == "" {
		panic("undefined prefix")
	}
	return s
}

// vInt64 is the number of any integer type or decimal string, when it fits.
//
//@ contract builder.ToInt64 props=L01
func vInt64(v interface{}) (int64, bool) {
	switch t := v.(type) {
	case int:
		return int64(t), true
	case int8:
		return int64(t), true
	case int16:
		return int64(t), true
	case int32:
		return int64(t), true
	case int64:
		return t, true
	case uint8:
		return int64(t), true
	case uint16:
		return int64(t), true
	case uint32:
		return int64(t), true
	case uint:
		if t < 1<<63 {
			return int64(t), true
		}
	case uint64:
		if t < 1<<63 {
			return int64(t), true
		}
	case string:
		if n, err := strconv.ParseInt(t, 10, 64); err == nil {
			return n, true
		}
	}
	return 0, false
}

//@ contract builder.ToLimit props=L01,E01
func vLimit(v interface{}) stmt.Limit {
	l, ok := v.(stmt.Limit)
	if !ok {
		if l.Count, ok = vInt64(v); !ok {
			panic("unsupported limit")
		}
	}
	if l.Count < 1 {
		panic("limit must be positive")
	}
	return l
}

//@ contract builder.ToOffset props=L01,E01
func vOffset(v interface{}) stmt.Offset {
	o, ok := v.(stmt.Offset)
	if !ok {
		if o.Start, ok = vInt64(v); !ok {
			panic("unsupported offset")
		}
	}
	if o.Start < 0 {
		panic("offset must not be negative")
	}
	return o
}

// vGiven is the column of a map key that no other key of the map has given.
func vGiven(given map[stmt.Column]bool, k interface{}) stmt.Column {
	c := vColumn(k)
	if given[c] {
		panic("column given twice")
	}
	given[c] = true
	return c
}

// vMergeSet adds pairs and columns to a SET clause.
//
//@ opaque
//@ contract builder.MergeSet props=V01,V03,C03,I02,E01
func vMergeSet(s stmt.Set, vs []interface{}) stmt.Set {
	p := stmt.VPairClone(s.Pairs)
	for _, v := range vs {
		switch t := v.(type) {
		case string, stmt.Column:
			for _, c := range vColumns([]interface{}{t}) {
				p = stmt.VPairSet(p, c)
			}
		case map[string]interface{}:
			given := map[stmt.Column]bool{}
			for k, e := range t {
				p = stmt.VPairAdd(p, vGiven(given, k), stmt.VWrap(stmt.VExpr(e)))
			}
		case types.Map:
			given := map[stmt.Column]bool{}
			for k, e := range t {
				p = stmt.VPairAdd(p, vGiven(given, k), stmt.VWrap(stmt.VExpr(e)))
			}
		case types.Pair:
			p = stmt.VPairAdd(p, vColumn(t.Key), stmt.VWrap(stmt.VExpr(t.Value)))
		default:
			panic("unsupported pair")
		}
	}
	s.Pairs = p
	return s
}

//@ opaque
//@ contract builder.ToSet props=V01,E01
func vSet(vs []interface{}) stmt.Set {
	s := stmt.VNewSet()
	s.Pairs.Mode = stmt.PairAssociativeMode
	return vMergeSet(s, vs)
}
