package loukoum

import (
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

//@ contract loukoum.Pair props=V01
func cPair(k, v interface{}) types.Pair { return types.Pair{Key: k, Value: v} }

//@ contract loukoum.Value props=V03,S01
func cValue(v interface{}) stmt.Value { return stmt.Value{Value: v} }

//@ contract loukoum.Select props=G01,E01
func cSelect(cs ...interface{}) builder.Select { return builder.NewSelect().Columns(cs...) }

//@ contract loukoum.Column props=S02,G01
func cColumn(n string) stmt.Column { return stmt.Column{Name: n} }

//@ contract loukoum.Table props=S02,G01
func cTable(n string) stmt.Table { return stmt.Table{Name: n} }

//@ contract loukoum.On props=C02,J02
func cOn(l, r string) stmt.OnClause {
	return stmt.OnClause{Left: stmt.Column{Name: l}, Right: stmt.Column{Name: r}}
}

//@ contract loukoum.AndOn props=C01,C02
func cAndOn(l, r stmt.OnExpression) stmt.OnExpression {
	return stmt.InfixOnExpression{Left: l, Operator: stmt.LogicalOperator{Operator: "AND"}, Right: r}
}

//@ contract loukoum.OrOn props=C01,C02
func cOrOn(l, r stmt.OnExpression) stmt.OnExpression {
	return stmt.InfixOnExpression{Left: l, Operator: stmt.LogicalOperator{Operator: "OR"}, Right: r}
}

//@ contract loukoum.Condition props=C02,S02
func cCondition(c interface{}) stmt.Identifier { return stmt.Identifier{Identifier: c} }

//@ contract loukoum.Order props=G01
func cOrder(c string, o ...types.OrderType) stmt.Order {
	k := types.OrderType("ASC")
	if len(o) > 0 {
		k = o[0]
	}
	return stmt.Order{Expression: c, Type: k}
}

//@ contract loukoum.Offset props=L01
func cOffset(n int64) stmt.Offset { return stmt.Offset{Start: n} }

//@ contract loukoum.Limit props=L01
func cLimit(n int64) stmt.Limit { return stmt.Limit{Count: n} }

//@ contract loukoum.And props=C01,C02,C03
func cAnd(l, r stmt.Expression) stmt.InfixExpression {
	return stmt.VLogic(stmt.VWrap(l), "AND", r)
}

//@ contract loukoum.Or props=C01,C02,C03
func cOr(l, r stmt.Expression) stmt.InfixExpression {
	return stmt.VLogic(stmt.VWrap(l), "OR", r)
}

//@ contract loukoum.Raw props=S01,G01
func cRaw(s string) stmt.Raw { return stmt.Raw{Value: s} }

//@ contract loukoum.Exists props=C03
func cExists(v interface{}) stmt.Exists { return stmt.Exists{Subquery: stmt.VExpr(v)} }

//@ contract loukoum.NotExists props=C03
func cNotExists(v interface{}) stmt.NotExists { return stmt.NotExists{Subquery: stmt.VExpr(v)} }

//@ contract loukoum.Count props=G01
func cCount(s string) stmt.Count { return stmt.Count{Value: stmt.Raw{Value: s}} }

//@ contract loukoum.Max props=G01
func cMax(s string) stmt.Max { return stmt.Max{Value: stmt.Raw{Value: s}} }

//@ contract loukoum.Min props=G01
func cMin(s string) stmt.Min { return stmt.Min{Value: stmt.Raw{Value: s}} }

//@ contract loukoum.Sum props=G01
func cSum(s string) stmt.Sum { return stmt.Sum{Value: stmt.Raw{Value: s}} }

//@ contract loukoum.With props=C03,G01
func cWith(n string, v interface{}) stmt.WithQuery {
	return stmt.WithQuery{Name: n, Subquery: stmt.VExpr(v)}
}

//@ contract loukoum.Insert props=G01,E01
func cInsert(t interface{}) builder.Insert { return builder.NewInsert().Into(t) }

//@ contract loukoum.Delete props=G01,E01
func cDelete(t interface{}) builder.Delete { return builder.NewDelete().From(t) }

//@ contract loukoum.Update props=G01,E01
func cUpdate(t interface{}) builder.Update { return builder.NewUpdate(t) }

//@ contract loukoum.DoNothing props=G01
func cDoNothing() stmt.ConflictNoAction { return stmt.ConflictNoAction{} }

//@ contract loukoum.DoUpdate props=G01,V01
func cDoUpdate(vs ...interface{}) stmt.ConflictUpdateAction {
	return stmt.ConflictUpdateAction{Set: builder.ToSet(vs)}
}
