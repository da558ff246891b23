package stmt

import (
	"github.com/ulule/loukoum/v3/types"
	"github.com/ulule/loukoum/v3/vspec"
)

func vNewPairs() PairContainer {
	return PairContainer{Map: map[Column]Expression{}, Columns: []Column{}, Expressions: []Expression{}}
}

func vNewSet() Set { return Set{Pairs: vNewPairs()} }

// vPairAdd sets a pair: the last write wins, a column is listed once.
//
//@ contract stmt.(*PairContainer).Add props=V01,I02
func vPairAdd(s PairContainer, c Column, e Expression) PairContainer {
	if s.Mode != PairUnknownMode && s.Mode != PairAssociativeMode || s.Map == nil {
		panic("column-list form")
	}
	s.Mode = PairAssociativeMode
	if _, ok := s.Map[c]; !ok {
		s.Columns = append(s.Columns[:len(s.Columns):len(s.Columns)], c)
	}
	s.Map = vspec.MapPut(s.Map, c, e)
	return s
}

// vPairSet lists a column.
//
//@ contract stmt.(*PairContainer).Set props=V01
func vPairSet(s PairContainer, c Column) PairContainer {
	if s.Mode != PairUnknownMode && s.Mode != PairArrayMode {
		panic("key-value form")
	}
	s.Mode = PairArrayMode
	s.Columns = append(s.Columns[:len(s.Columns):len(s.Columns)], c)
	return s
}

// vPairUse gives the value of the next column.
//
//@ contract stmt.(*PairContainer).Use props=V01
func vPairUse(s PairContainer, e Expression) PairContainer {
	if s.Mode != PairArrayMode {
		panic("no columns")
	}
	s.Expressions = append(s.Expressions[:len(s.Expressions):len(s.Expressions)], e)
	return s
}

// vPairClone is a container of its own with the same pairs.
//
//@ contract stmt.PairContainer.Clone props=V01,I01
func vPairClone(s PairContainer) PairContainer {
	if s.Map == nil {
		s.Map = map[Column]Expression{}
	}
	return s
}

//@ contract stmt.NewIdentifier props=S02,C02
func cNewIdentifier(v interface{}) Identifier {
	return Identifier{Identifier: v}
}

//@ contract stmt.NewValue props=V03,S01
func cNewValue(v interface{}) Value {
	return Value{Value: v}
}

//@ contract stmt.NewRaw props=S01,G01
func cNewRaw(v string) Raw {
	return Raw{Value: v}
}

//@ contract stmt.NewCall props=G01
func cNewCall(name string, args ...Expression) Call {
	return Call{function: name, args: args}
}

//@ contract stmt.NewColumn props=S02,G01
func cNewColumn(name string) Column {
	return Column{Name: name}
}

//@ contract stmt.NewColumnAlias props=S02,G01
func cNewColumnAlias(name, alias string) Column {
	return Column{Name: name, Alias: alias}
}

//@ contract stmt.NewTable props=S02,G01
func cNewTable(name string) Table {
	return Table{Name: name}
}

//@ contract stmt.NewTableAlias props=S02,G01
func cNewTableAlias(name, alias string) Table {
	return Table{Name: name, Alias: alias}
}

//@ contract stmt.NewComment props=S03
func cNewComment(s string) Comment {
	return Comment{Comment: s}
}

//@ contract stmt.NewComparisonOperator props=C02
func cNewComparisonOperator(op types.ComparisonOperator) ComparisonOperator {
	return ComparisonOperator{Operator: op}
}

//@ contract stmt.NewLogicalOperator props=C02
func cNewLogicalOperator(op types.LogicalOperator) LogicalOperator {
	return LogicalOperator{Operator: op}
}

//@ contract stmt.NewConflictNoAction props=G01
func cNewConflictNoAction() ConflictNoAction {
	return ConflictNoAction{}
}

//@ contract stmt.NewConflictTarget props=G01
func cNewConflictTarget(cs []Column) ConflictTarget {
	return ConflictTarget{Columns: cs}
}

//@ contract stmt.NewConflictUpdateAction props=G01,V01
func cNewConflictUpdateAction(s Set) ConflictUpdateAction {
	return ConflictUpdateAction{Set: s}
}

//@ contract stmt.NewOnConflict props=G01
func cNewOnConflict(t ConflictTarget, a ConflictAction) OnConflict {
	return OnConflict{Target: t, Action: a}
}

//@ contract stmt.NewCount props=G01
func cNewCount(s string) Count {
	return Count{Value: Raw{Value: s}}
}

//@ contract stmt.NewMax props=G01
func cNewMax(s string) Max {
	return Max{Value: Raw{Value: s}}
}

//@ contract stmt.NewMin props=G01
func cNewMin(s string) Min {
	return Min{Value: Raw{Value: s}}
}

//@ contract stmt.NewSum props=G01
func cNewSum(s string) Sum {
	return Sum{Value: Raw{Value: s}}
}

//@ contract stmt.NewSelect props=G01
func cNewSelect() Select {
	return Select{}
}

//@ contract stmt.NewInsert props=G01
func cNewInsert() Insert {
	return Insert{}
}

//@ contract stmt.NewDelete props=G01
func cNewDelete() Delete {
	return Delete{}
}

//@ contract stmt.NewUpdate props=G01,V01
func cNewUpdate(t Table) Update {
	return Update{Table: t, Set: vNewSet()}
}

//@ contract stmt.NewSet props=V01
func cNewSet() Set {
	return vNewSet()
}

//@ contract stmt.NewPairContainer props=V01
func cNewPairContainer() PairContainer {
	return vNewPairs()
}

//@ contract stmt.NewDistinctOn props=G01
func cNewDistinctOn(cs []Column) DistinctOn {
	return DistinctOn{Columns: cs}
}

//@ contract stmt.NewGroupBy props=G01
func cNewGroupBy(cs []Column) GroupBy {
	return GroupBy{Columns: cs}
}

//@ contract stmt.NewFrom props=G01
func cNewFrom(ts []Statement) From {
	return From{Tables: ts}
}

//@ contract stmt.NewUsing props=G01
func cNewUsing(ts []Table) Using {
	return Using{Tables: ts}
}

//@ contract stmt.NewInto props=G01
func cNewInto(t Table) Into {
	return Into{Table: t}
}

//@ contract stmt.NewOrder props=G01
func cNewOrder(e string, k types.OrderType) Order {
	return Order{Expression: e, Type: k}
}

//@ contract stmt.NewOrderBy props=G01
func cNewOrderBy(os []Order) OrderBy {
	return OrderBy{Orders: os}
}

//@ contract stmt.NewPrefix props=G01
func cNewPrefix(s string) Prefix {
	return Prefix{Prefix: s}
}

//@ contract stmt.NewSuffix props=G01
func cNewSuffix(s string) Suffix {
	return Suffix{Suffix: s}
}

//@ contract stmt.NewReturning props=G01
func cNewReturning(es []SelectExpression) Returning {
	return Returning{Columns: es}
}

//@ contract stmt.NewValues props=G01,V02
func cNewValues(v Expression) Values {
	return Values{Values: v}
}

//@ contract stmt.NewWith props=G01
func cNewWith(qs []WithQuery) With {
	return With{Queries: qs}
}

//@ contract stmt.NewWithQuery props=C03,G01,S03
func cNewWithQuery(name string, v interface{}) WithQuery {
	return WithQuery{Name: name, Subquery: vExpr(v)}
}

//@ contract stmt.NewExists props=C03,S03
func cNewExists(v interface{}) Exists {
	return Exists{Subquery: vExpr(v)}
}

//@ contract stmt.NewNotExists props=C03,S03
func cNewNotExists(v interface{}) NotExists {
	return NotExists{Subquery: vExpr(v)}
}

//@ contract stmt.NewLimit props=L01
func cNewLimit(n int64) Limit {
	return Limit{Count: n}
}

//@ contract stmt.NewOffset props=L01
func cNewOffset(n int64) Offset {
	return Offset{Start: n}
}

//@ contract stmt.NewInfixExpression props=C01,C02
func cNewInfixExpression(l Expression, op Operator, r Expression) InfixExpression {
	return InfixExpression{Left: l, Operator: op, Right: r}
}

//@ contract stmt.NewInfixOnExpression props=C01,C02,J02
func cNewInfixOnExpression(l OnExpression, op LogicalOperator, r OnExpression) InfixOnExpression {
	return InfixOnExpression{Left: l, Operator: op, Right: r}
}

//@ contract stmt.NewOnClause props=C02,J02
func cNewOnClause(l, r Column) OnClause {
	return OnClause{Left: l, Right: r}
}

//@ contract stmt.NewJoin props=G01,J02
func cNewJoin(k types.JoinType, t Table, e Expression) Join {
	return Join{Type: k, Table: t, Condition: e}
}

//@ contract stmt.NewInnerJoin props=G01,J02
func cNewInnerJoin(t Table, e Expression) Join {
	return Join{Type: types.JoinType("INNER JOIN"), Table: t, Condition: e}
}

//@ contract stmt.NewLeftJoin props=G01,J02
func cNewLeftJoin(t Table, e Expression) Join {
	return Join{Type: types.JoinType("LEFT JOIN"), Table: t, Condition: e}
}

//@ contract stmt.NewRightJoin props=G01,J02
func cNewRightJoin(t Table, e Expression) Join {
	return Join{Type: types.JoinType("RIGHT JOIN"), Table: t, Condition: e}
}

//@ contract stmt.Count.As props=G01,S02
func cCountAs(s Count, alias string) Count {
	s.Alias = alias
	return s
}

//@ contract stmt.Max.As props=G01,S02
func cMaxAs(s Max, alias string) Max {
	s.Alias = alias
	return s
}

//@ contract stmt.Min.As props=G01,S02
func cMinAs(s Min, alias string) Min {
	s.Alias = alias
	return s
}

//@ contract stmt.Sum.As props=G01,S02
func cSumAs(s Sum, alias string) Sum {
	s.Alias = alias
	return s
}

//@ contract stmt.Column.As props=G01,S02
func cColumnAs(s Column, alias string) Column {
	s.Alias = alias
	return s
}

//@ contract stmt.Table.As props=G01,S02
func cTableAs(s Table, alias string) Table {
	s.Alias = alias
	return s
}

//@ contract stmt.Count.Distinct props=G01
func cCountDistinct(s Count, yes bool) Count {
	s.IsDistinct = yes
	return s
}

//@ contract stmt.Table.Only props=G01
func cTableOnly(s Table) Table {
	s.only = true
	return s
}

//@ contract stmt.Column.Asc props=G01
func cColumnAsc(s Column) Order {
	e := s.Alias
	if e == "" {
		e = s.Name
	}
	return Order{Expression: e, Type: types.OrderType("ASC")}
}

//@ contract stmt.Column.Desc props=G01
func cColumnDesc(s Column) Order {
	e := s.Alias
	if e == "" {
		e = s.Name
	}
	return Order{Expression: e, Type: types.OrderType("DESC")}
}
