package stmt

import "github.com/ulule/loukoum/v3/types"

// Written by tools/genconds.py.

func vCmp(left Expression, op string, right interface{}) InfixExpression {
	return InfixExpression{Left: left, Operator: ComparisonOperator{types.ComparisonOperator(op)}, Right: vWrap(vExpr(right))}
}

func vLogic(left Expression, op string, right Expression) InfixExpression {
	return InfixExpression{Left: left, Operator: LogicalOperator{types.LogicalOperator(op)}, Right: vWrap(right)}
}

func vInList(left Expression, op string, values []interface{}) In {
	return In{Expression: left, Operator: ComparisonOperator{types.ComparisonOperator(op)}, Value: vArrayOf(values)}
}

//@ contract stmt.Identifier.Contains props=C02,C03,S01,V03
func cIdentifierContains(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "@>", v)
}

//@ contract stmt.Identifier.IsContainedBy props=C02,C03,S01,V03
func cIdentifierIsContainedBy(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "<@", v)
}

//@ contract stmt.Identifier.Overlap props=C02,C03,S01,V03
func cIdentifierOverlap(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "&&", v)
}

//@ contract stmt.Identifier.Equal props=C02,C03,S01,V03
func cIdentifierEqual(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "=", v)
}

//@ contract stmt.Identifier.NotEqual props=C02,C03,S01,V03
func cIdentifierNotEqual(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "!=", v)
}

//@ contract stmt.Identifier.Is props=C02,C03,S01,V03
func cIdentifierIs(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "IS", v)
}

//@ contract stmt.Identifier.IsNot props=C02,C03,S01,V03
func cIdentifierIsNot(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "IS NOT", v)
}

//@ contract stmt.Identifier.GreaterThan props=C02,C03,S01,V03
func cIdentifierGreaterThan(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, ">", v)
}

//@ contract stmt.Identifier.GreaterThanOrEqual props=C02,C03,S01,V03
func cIdentifierGreaterThanOrEqual(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, ">=", v)
}

//@ contract stmt.Identifier.LessThan props=C02,C03,S01,V03
func cIdentifierLessThan(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "<", v)
}

//@ contract stmt.Identifier.LessThanOrEqual props=C02,C03,S01,V03
func cIdentifierLessThanOrEqual(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "<=", v)
}

//@ contract stmt.Identifier.Like props=C02,C03,S01,V03
func cIdentifierLike(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "LIKE", v)
}

//@ contract stmt.Identifier.NotLike props=C02,C03,S01,V03
func cIdentifierNotLike(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "NOT LIKE", v)
}

//@ contract stmt.Identifier.ILike props=C02,C03,S01,V03
func cIdentifierILike(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "ILIKE", v)
}

//@ contract stmt.Identifier.NotILike props=C02,C03,S01,V03
func cIdentifierNotILike(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "NOT ILIKE", v)
}

//@ contract stmt.Identifier.IsDistinctFrom props=C02,C03,S01,V03
func cIdentifierIsDistinctFrom(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "IS DISTINCT FROM", v)
}

//@ contract stmt.Identifier.IsNotDistinctFrom props=C02,C03,S01,V03
func cIdentifierIsNotDistinctFrom(s Identifier, v interface{}) InfixExpression {
	return vCmp(s, "IS NOT DISTINCT FROM", v)
}

//@ contract stmt.Value.Overlap props=C02,C03,S01,V03
func cValueOverlap(s Value, v interface{}) InfixExpression {
	return vCmp(s, "&&", v)
}

//@ contract stmt.Value.Equal props=C02,C03,S01,V03
func cValueEqual(s Value, v interface{}) InfixExpression {
	return vCmp(s, "=", v)
}

//@ contract stmt.Value.NotEqual props=C02,C03,S01,V03
func cValueNotEqual(s Value, v interface{}) InfixExpression {
	return vCmp(s, "!=", v)
}

//@ contract stmt.Value.Contains props=C02,C03,S01,V03
func cValueContains(s Value, v interface{}) InfixExpression {
	return vCmp(s, "@>", v)
}

//@ contract stmt.Value.IsContainedBy props=C02,C03,S01,V03
func cValueIsContainedBy(s Value, v interface{}) InfixExpression {
	return vCmp(s, "<@", v)
}

//@ contract stmt.Call.Equal props=C02,C03,S01,V03
func cCallEqual(s Call, v interface{}) InfixExpression {
	return vCmp(s, "=", v)
}

//@ contract stmt.Call.GreaterThan props=C02,C03,S01,V03
func cCallGreaterThan(s Call, v interface{}) InfixExpression {
	return vCmp(s, ">", v)
}

//@ contract stmt.Call.LessThan props=C02,C03,S01,V03
func cCallLessThan(s Call, v interface{}) InfixExpression {
	return vCmp(s, "<", v)
}

//@ contract stmt.Call.Like props=C02,C03,S01,V03
func cCallLike(s Call, v interface{}) InfixExpression {
	return vCmp(s, "LIKE", v)
}

//@ contract stmt.Call.ILike props=C02,C03,S01,V03
func cCallILike(s Call, v interface{}) InfixExpression {
	return vCmp(s, "ILIKE", v)
}

//@ contract stmt.Call.Overlap props=C02,C03,S01,V03
func cCallOverlap(s Call, v interface{}) InfixExpression {
	return vCmp(s, "&&", v)
}

//@ contract stmt.Identifier.In props=C02,C03,S01,V02
func cIdentifierIn(s Identifier, vs ...interface{}) In {
	return vInList(s, "IN", vs)
}

//@ contract stmt.Identifier.NotIn props=C02,C03,S01,V02
func cIdentifierNotIn(s Identifier, vs ...interface{}) In {
	return vInList(s, "NOT IN", vs)
}

//@ contract stmt.Call.In props=C02,C03,S01,V02
func cCallIn(s Call, vs ...interface{}) In {
	return vInList(s, "IN", vs)
}

//@ contract stmt.Identifier.Between props=C02,C03,S01,V03
func cIdentifierBetween(s Identifier, from, to interface{}) Between {
	return Between{Identifier: s, Operator: ComparisonOperator{types.ComparisonOperator("BETWEEN")}, From: vWrap(vExpr(from)),
		And: LogicalOperator{types.LogicalOperator("AND")}, To: vWrap(vExpr(to))}
}

//@ contract stmt.NewBetween props=C02
func cNewBetween(s Identifier, from, to Expression) Between {
	return Between{Identifier: s, Operator: ComparisonOperator{types.ComparisonOperator("BETWEEN")}, From: from,
		And: LogicalOperator{types.LogicalOperator("AND")}, To: to}
}

//@ contract stmt.Identifier.NotBetween props=C02,C03,S01,V03
func cIdentifierNotBetween(s Identifier, from, to interface{}) Between {
	return Between{Identifier: s, Operator: ComparisonOperator{types.ComparisonOperator("NOT BETWEEN")}, From: vWrap(vExpr(from)),
		And: LogicalOperator{types.LogicalOperator("AND")}, To: vWrap(vExpr(to))}
}

//@ contract stmt.NewNotBetween props=C02
func cNewNotBetween(s Identifier, from, to Expression) Between {
	return Between{Identifier: s, Operator: ComparisonOperator{types.ComparisonOperator("NOT BETWEEN")}, From: from,
		And: LogicalOperator{types.LogicalOperator("AND")}, To: to}
}

//@ contract stmt.Identifier.IsNull props=C02
func cIdentifierIsNull(s Identifier, yes bool) InfixExpression {
	if yes {
		return vCmp(s, "IS", nil)
	}
	return vCmp(s, "IS NOT", nil)
}

//@ contract stmt.In.And props=C01,C02,C03
func cInAnd(s In, v Expression) InfixExpression {
	return vLogic(s, "AND", v)
}

//@ contract stmt.In.Or props=C01,C02,C03
func cInOr(s In, v Expression) InfixExpression {
	return vLogic(s, "OR", v)
}

//@ contract stmt.InfixExpression.And props=C01,C02,C03
func cInfixExpressionAnd(s InfixExpression, v Expression) InfixExpression {
	return vLogic(s, "AND", v)
}

//@ contract stmt.InfixExpression.Or props=C01,C02,C03
func cInfixExpressionOr(s InfixExpression, v Expression) InfixExpression {
	return vLogic(s, "OR", v)
}

//@ contract stmt.OnClause.And props=C01,C02,J02
func cOnClauseAnd(s OnClause, v OnExpression) OnExpression {
	return InfixOnExpression{Left: s, Operator: LogicalOperator{types.LogicalOperator("AND")}, Right: v}
}

//@ contract stmt.OnClause.Or props=C01,C02,J02
func cOnClauseOr(s OnClause, v OnExpression) OnExpression {
	return InfixOnExpression{Left: s, Operator: LogicalOperator{types.LogicalOperator("OR")}, Right: v}
}

//@ contract stmt.InfixOnExpression.And props=C01,C02,J02
func cInfixOnExpressionAnd(s InfixOnExpression, v OnExpression) OnExpression {
	return InfixOnExpression{Left: s, Operator: LogicalOperator{types.LogicalOperator("AND")}, Right: v}
}

//@ contract stmt.InfixOnExpression.Or props=C01,C02,J02
func cInfixOnExpressionOr(s InfixOnExpression, v OnExpression) OnExpression {
	return InfixOnExpression{Left: s, Operator: LogicalOperator{types.LogicalOperator("OR")}, Right: v}
}

//@ contract stmt.Where.And props=C01,C02,C03
func cWhereAnd(s Where, v Expression) Where {
	if s.Condition == nil || vEmp(s.Condition) || v == nil || vEmp(v) {
		panic("undefined condition")
	}
	s.Condition = vLogic(s.Condition, "AND", v)
	return s
}

//@ contract stmt.Where.Or props=C01,C02,C03
func cWhereOr(s Where, v Expression) Where {
	if s.Condition == nil || vEmp(s.Condition) || v == nil || vEmp(v) {
		panic("undefined condition")
	}
	s.Condition = vLogic(s.Condition, "OR", v)
	return s
}

//@ contract stmt.NewWhere props=C01,C02,C03
func cNewWhere(v Expression) Where {
	if v == nil || vEmp(v) {
		panic("undefined condition")
	}
	return Where{Condition: vWrap(v)}
}

//@ contract stmt.Having.And props=C01,C02,C03
func cHavingAnd(s Having, v Expression) Having {
	if s.Condition == nil || vEmp(s.Condition) || v == nil || vEmp(v) {
		panic("undefined condition")
	}
	s.Condition = vLogic(s.Condition, "AND", v)
	return s
}

//@ contract stmt.Having.Or props=C01,C02,C03
func cHavingOr(s Having, v Expression) Having {
	if s.Condition == nil || vEmp(s.Condition) || v == nil || vEmp(v) {
		panic("undefined condition")
	}
	s.Condition = vLogic(s.Condition, "OR", v)
	return s
}

//@ contract stmt.NewHaving props=C01,C02,C03
func cNewHaving(v Expression) Having {
	if v == nil || vEmp(v) {
		panic("undefined condition")
	}
	return Having{Condition: vWrap(v)}
}

//@ contract stmt.NewAndOperator props=C02
func cNewAndOperator() LogicalOperator {
	return LogicalOperator{types.LogicalOperator("AND")}
}

//@ contract stmt.NewOrOperator props=C02
func cNewOrOperator() LogicalOperator {
	return LogicalOperator{types.LogicalOperator("OR")}
}

//@ contract stmt.NewIn props=C02,V02
func cNewIn(e, v Expression) In {
	return In{Expression: e, Operator: ComparisonOperator{types.ComparisonOperator("IN")}, Value: v}
}

//@ contract stmt.NewNotIn props=C02,V02
func cNewNotIn(e, v Expression) In {
	return In{Expression: e, Operator: ComparisonOperator{types.ComparisonOperator("NOT IN")}, Value: v}
}
