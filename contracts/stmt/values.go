package stmt

import (
	"database/sql/driver"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
)

func vNoComment(s Select) Select {
	s.Comment = Comment{}
	return s
}

//@ contract stmt.Select.withoutComment props=S03
func cSelectWithoutComment(s Select) Select { return vNoComment(s) }

// vExpr is the expression that stands for a Go value: statements as they are, values bound as they are.
//
//@ opaque
//@ contract stmt.NewExpression props=V03,S01,C03,S03
func vExpr(v interface{}) Expression {
	if v == nil {
		return Value{Value: nil}
	}
	switch t := v.(type) {
	case Select:
		return vNoComment(t)
	case Expression:
		return t
	case string, bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32, float64, []byte:
		return Value{Value: v}
	case driver.Valuer, pgtype.RangeValuer:
		return Value{Value: v}
	case []int64, []string, pgtype.FlatArray[string], pgtype.FlatArray[int64], map[string]string, map[string]interface{}:
		return Value{Value: v}
	case time.Time:
		return Value{Value: t}
	case *time.Time:
		if t == nil {
			return Value{Value: nil}
		}
		return Value{Value: *t}
	case StatementEncoder:
		e, ok := t.Statement().(Expression)
		if !ok {
			panic("unsupported value")
		}
		if s, ok := e.(Select); ok {
			return vNoComment(s)
		}
		return e
	case Int64Encoder:
		return Value{Value: t.Int64()}
	case BoolEncoder:
		return Value{Value: t.Bool()}
	case TimeEncoder:
		return Value{Value: t.Time()}
	case StringEncoder:
		return Value{Value: t.String()}
	}
	panic("unsupported value")
}

func vEach[T any](vs []T) []Expression {
	var es []Expression
	for _, v := range vs {
		es = append(es, vExpr(v))
	}
	return es
}

// vElems are the elements of one argument that may be a list.
//
//@ opaque
func vElems(v interface{}) []Expression {
	if v == nil {
		return nil
	}
	switch t := v.(type) {
	case []string:
		return vEach(t)
	case []int:
		return vEach(t)
	case []int8:
		return vEach(t)
	case []int16:
		return vEach(t)
	case []int32:
		return vEach(t)
	case []int64:
		return vEach(t)
	case []uint:
		return vEach(t)
	case []uint16:
		return vEach(t)
	case []uint32:
		return vEach(t)
	case []uint64:
		return vEach(t)
	case []bool:
		return vEach(t)
	case []float32:
		return vEach(t)
	case []float64:
		return vEach(t)
	case [][]byte:
		return vEach(t)
	case []Expression:
		return vEach(t)
	case []interface{}:
		return vEach(t)
	}
	return []Expression{vExpr(v)}
}

// vArrayOf is a list with one place per element.
//
//@ contract stmt.NewArrayExpression props=V02,V03,S01
func vArrayOf(vs []interface{}) Expression {
	if len(vs) == 1 {
		return Array{Values: vElems(vs[0])}
	}
	return Array{Values: vEach(vs)}
}

//@ contract stmt.(*Array).Append props=V02,V03
func cArrayAppend(a Array, v interface{}) Array {
	a.Values = append(a.Values, vExpr(v))
	return a
}

// vRow is one parenthesised row.
//
//@ contract stmt.newRow aux props=V02,C03
func vRow(vs []interface{}) Expression {
	if len(vs) == 1 && vs[0] == nil {
		return Array{Values: []Expression{Value{Value: nil}}}
	}
	if len(vs) == 1 {
		es := vElems(vs[0])
		if len(es) == 1 {
			return Array{Values: []Expression{vWrap(es[0])}}
		}
		return Array{Values: es}
	}
	return Array{Values: vEach(vs)}
}

func vRaws[T any](vs []T) []interface{} {
	var rs []interface{}
	for _, v := range vs {
		rs = append(rs, v)
	}
	return rs
}

func vRows[T any](vs [][]T) []Expression {
	var es []Expression
	for _, v := range vs {
		es = append(es, vRow(vRaws(v)))
	}
	return es
}

// vRowList are the rows of one argument that is a list of lists.
func vRowList(v interface{}) []Expression {
	switch t := v.(type) {
	case [][]interface{}:
		var es []Expression
		for _, r := range t {
			es = append(es, vRow(r))
		}
		return es
	case [][]string:
		return vRows(t)
	case [][]int:
		return vRows(t)
	case [][]int64:
		return vRows(t)
	case [][]bool:
		return vRows(t)
	case [][]Expression:
		return vRows(t)
	}
	return nil
}

// vInsertRows are the rows of a VALUES clause.
//
//@ contract stmt.NewArrayListExpression props=V02,V03,S01,C03
func vInsertRows(vs []interface{}) Expression {
	if len(vs) == 0 {
		panic("no values")
	}
	rows := vRowList(vs[0])
	if len(rows) == 0 {
		return ArrayList{Values: []Expression{vRow(vs)}}
	}
	return ArrayList{Values: rows}
}
