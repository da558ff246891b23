package stmt

import (
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/types"
	"github.com/ulule/loukoum/v3/vspec"
)

// vrec records what a statement of the caller writes.
type vrec struct{ o vspec.Out }

func (r *vrec) Write(q string)     { r.o = r.o.T(q) }
func (r *vrec) Bind(v interface{}) { r.o = r.o.V(v) }

// vRecord is the output of a statement implemented outside of the library.
//
//@ opaque
func vRecord(s Statement) vspec.Out {
	var c types.Context = &vrec{}
	s.Write(c)
	return c.(*vrec).o
}

// vQuote is the quoting of identifiers: every dot-separated part in double quotes, inner quotes doubled,
// a lone asterisk bare.
//
//@ contract stmt.quote props=S02,C02,G01
func vQuote(ident string) string {
	o := ""
	for i, p := range strings.Split(ident, ".") {
		if i > 0 {
			o += "."
		}
		if p == "*" {
			o += p
		} else {
			o += "\"" + strings.ReplaceAll(p, "\"", "\"\"") + "\""
		}
	}
	return o
}

func vOut(s string) vspec.Out { return vspec.Out{Text: s} }

// vAs is an optional alias of a table or a column.
func vAs(alias string) string {
	if alias == "" {
		return ""
	}
	return " AS " + vQuote(alias)
}

func vRawAs(alias string) string {
	if alias == "" {
		return ""
	}
	return " AS " + alias
}

func vColumns(cs []Column) vspec.Out {
	var o vspec.Out
	for i, c := range cs {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vColumn(c))
	}
	return o
}

func vExprs(es []Expression) vspec.Out {
	var o vspec.Out
	for i, e := range es {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vW(e))
	}
	return o
}

// vItems lists expressions, giving sub-selects their own parentheses when there are several.
func vItems(es []Expression) vspec.Out {
	var o vspec.Out
	for i, e := range es {
		if i > 0 {
			o = o.T(", ")
		}
		if len(es) > 1 {
			e = vWrap(e)
		}
		o = o.W(vW(e))
	}
	return o
}

// vWrap is an expression as an operand: selects and EXISTS get parentheses of their own.
//
//@ contract stmt.NewWrapper props=C03,C02,S03
func vWrap(e Expression) Expression {
	switch v := e.(type) {
	case Select:
		v.Comment = Comment{}
		return &Wrapper{Value: v}
	case Exists:
		return &Wrapper{Value: v}
	case NotExists:
		return &Wrapper{Value: v}
	}
	return e
}

//@ contract stmt.Count.Write kind=writer props=G01
func vCount(s Count) vspec.Out {
	if s.IsDistinct {
		return vOut("COUNT(DISTINCT " + s.Value.Value + ")" + vRawAs(s.Alias))
	}
	return vOut("COUNT(" + s.Value.Value + ")" + vRawAs(s.Alias))
}

//@ contract stmt.Count.IsEmpty props=E01,G01,C01
func eCount(s Count) bool {
	return s.Value.Value == ""
}

//@ contract stmt.Max.Write kind=writer props=G01
func vMax(s Max) vspec.Out {
	return vOut("MAX(" + s.Value.Value + ")" + vRawAs(s.Alias))
}

//@ contract stmt.Max.IsEmpty props=E01,G01,C01
func eMax(s Max) bool {
	return s.Value.Value == ""
}

//@ contract stmt.Min.Write kind=writer props=G01
func vMin(s Min) vspec.Out {
	return vOut("MIN(" + s.Value.Value + ")" + vRawAs(s.Alias))
}

//@ contract stmt.Min.IsEmpty props=E01,G01,C01
func eMin(s Min) bool {
	return s.Value.Value == ""
}

//@ contract stmt.Sum.Write kind=writer props=G01
func vSum(s Sum) vspec.Out {
	return vOut("SUM(" + s.Value.Value + ")" + vRawAs(s.Alias))
}

//@ contract stmt.Sum.IsEmpty props=E01,G01,C01
func eSum(s Sum) bool {
	return s.Value.Value == ""
}

//@ contract stmt.Between.Write kind=writer props=C02,C03,C01,G01,S01,S02
func vBetween(s Between) vspec.Out {
	if eBetween(s) {
		panic("undefined")
	}
	return vOut("(").W(vIdentifier(s.Identifier)).T(" " + string(s.Operator.Operator) + " ").W(vW(s.From)).
		T(" " + string(s.And.Operator) + " ").W(vW(s.To)).T(")")
}

//@ contract stmt.Between.IsEmpty props=C01,E01,C02
func eBetween(s Between) bool {
	return eIdentifier(s.Identifier) || s.Operator.Operator == "" || s.And.Operator == "" ||
		s.From == nil || s.To == nil || vEmp(s.From) || vEmp(s.To)
}

//@ contract stmt.Column.Write kind=writer props=S02,G01,V01
func vColumn(s Column) vspec.Out {
	return vOut(vQuote(s.Name) + vAs(s.Alias))
}

//@ contract stmt.Column.IsEmpty props=E01,G01,C01
func eColumn(s Column) bool {
	return s.Name == ""
}

//@ contract stmt.Comment.Write kind=writer props=S03
func vComment(s Comment) vspec.Out {
	if s.Comment == "" {
		return vspec.Out{}
	}
	return vOut("-- " + strings.ReplaceAll(strings.ReplaceAll(s.Comment, "\n", " "), "\r", " "))
}

//@ contract stmt.Comment.IsEmpty props=S03
func eComment(s Comment) bool {
	return s.Comment == ""
}

//@ contract stmt.OnConflict.Write kind=writer props=G01,E01,S01
func vOnConflict(s OnConflict) vspec.Out {
	if eOnConflict(s) {
		return vspec.Out{}
	}
	o := vOut("ON CONFLICT ")
	if len(s.Target.Columns) > 0 {
		o = o.T("(").W(vColumns(s.Target.Columns)).T(") ")
	}
	return o.W(vW(s.Action))
}

//@ contract stmt.OnConflict.IsEmpty props=E01,G01,C01
func eOnConflict(s OnConflict) bool {
	return s.Action == nil || vEmp(s.Action)
}

//@ contract stmt.ConflictTarget.Write kind=writer props=G01
func vConflictTarget(s ConflictTarget) vspec.Out {
	if len(s.Columns) == 0 {
		return vspec.Out{}
	}
	return vOut("(").W(vColumns(s.Columns)).T(")")
}

//@ contract stmt.ConflictTarget.IsEmpty props=E01,G01,C01
func eConflictTarget(s ConflictTarget) bool {
	return len(s.Columns) == 0
}

//@ contract stmt.ConflictUpdateAction.Write kind=writer props=G01,S01,E01
func vConflictUpdateAction(s ConflictUpdateAction) vspec.Out {
	return vOut("DO UPDATE ").W(vSet(s.Set))
}

//@ contract stmt.ConflictUpdateAction.IsEmpty props=E01,G01,C01
func eConflictUpdateAction(s ConflictUpdateAction) bool {
	return eSet(s.Set)
}

//@ contract stmt.ConflictNoAction.Write kind=writer props=G01
func vConflictNoAction(s ConflictNoAction) vspec.Out {
	return vOut("DO NOTHING")
}

//@ contract stmt.ConflictNoAction.IsEmpty props=E01,G01,C01
func eConflictNoAction(s ConflictNoAction) bool {
	return false
}

//@ contract stmt.Delete.Write kind=writer props=G01,C01,S03,E01,S01,B03
func vDelete(s Delete) vspec.Out {
	if eDelete(s) {
		panic("undefined")
	}
	o := vOut("DELETE ").W(vFrom(s.From))
	if !eUsing(s.Using) {
		o = o.T(" ").W(vUsing(s.Using))
	}
	if !eWhere(s.Where) {
		o = o.T(" ").W(vWhere(s.Where))
	}
	if !eReturning(s.Returning) {
		o = o.T(" ").W(vReturning(s.Returning))
	}
	if s.Comment.Comment != "" {
		o = o.T("; ").W(vComment(s.Comment))
	}
	return o
}

//@ contract stmt.Delete.IsEmpty props=E01,G01,C01
func eDelete(s Delete) bool {
	return len(s.From.Tables) == 0
}

//@ contract stmt.DistinctOn.Write kind=writer props=G01
func vDistinctOn(s DistinctOn) vspec.Out {
	if len(s.Columns) == 0 {
		return vspec.Out{}
	}
	return vOut("DISTINCT ON (").W(vColumns(s.Columns)).T(")")
}

//@ contract stmt.DistinctOn.IsEmpty props=E01,G01,C01
func eDistinctOn(s DistinctOn) bool {
	return len(s.Columns) == 0
}

//@ contract stmt.From.Write kind=writer props=G01,S02
func vFrom(s From) vspec.Out {
	o := vOut("FROM ")
	for i, t := range s.Tables {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vW(t))
	}
	return o
}

//@ contract stmt.From.IsEmpty props=E01,G01,C01
func eFrom(s From) bool {
	return len(s.Tables) == 0
}

//@ contract stmt.GroupBy.Write kind=writer props=G01
func vGroupBy(s GroupBy) vspec.Out {
	return vOut("GROUP BY ").W(vColumns(s.Columns))
}

//@ contract stmt.GroupBy.IsEmpty props=E01,G01,C01
func eGroupBy(s GroupBy) bool {
	return len(s.Columns) == 0
}

//@ contract stmt.Having.Write kind=writer props=C01,G01,S01,C02
func vHaving(s Having) vspec.Out {
	if eHaving(s) {
		panic("undefined")
	}
	return vOut("HAVING ").W(vW(s.Condition))
}

//@ contract stmt.Having.IsEmpty props=E01,G01,C01
func eHaving(s Having) bool {
	return s.Condition == nil || vEmp(s.Condition)
}

//@ contract stmt.Where.Write kind=writer props=C01,G01,S01,C02
func vWhere(s Where) vspec.Out {
	if eWhere(s) {
		panic("undefined")
	}
	return vOut("WHERE ").W(vW(s.Condition))
}

//@ contract stmt.Where.IsEmpty props=E01,G01,C01
func eWhere(s Where) bool {
	return s.Condition == nil || vEmp(s.Condition)
}

//@ contract stmt.In.Write kind=writer props=C02,V02,C01,S01,C03
func vIn(s In) vspec.Out {
	if eIn(s) {
		panic("undefined")
	}
	o := vOut("(").W(vW(s.Expression)).T(" " + string(s.Operator.Operator) + " (")
	if !vEmp(s.Value) {
		o = o.W(vW(s.Value))
	}
	return o.T("))")
}

//@ contract stmt.In.IsEmpty props=C01,E01,C02
func eIn(s In) bool {
	return vEmp(s.Expression) || s.Operator.Operator == "" || s.Value == nil
}

//@ contract stmt.InfixExpression.Write kind=writer props=C02,C01,S01,C03,B03
func vInfixExpression(s InfixExpression) vspec.Out {
	if eInfixExpression(s) {
		panic("undefined")
	}
	return vOut("(").W(vW(s.Left)).T(" ").W(vW(s.Operator)).T(" ").W(vW(s.Right)).T(")")
}

//@ contract stmt.InfixExpression.IsEmpty props=C01,E01,C02
func eInfixExpression(s InfixExpression) bool {
	return s.Left == nil || s.Operator == nil || s.Right == nil ||
		vEmp(s.Left) || vEmp(s.Operator) || vEmp(s.Right)
}

//@ contract stmt.Insert.Write kind=writer props=G01,S03,E01,V02,S01,B03
func vInsert(s Insert) vspec.Out {
	if eInsert(s) {
		panic("undefined")
	}
	o := vOut("INSERT ").W(vInto(s.Into))
	if len(s.Columns) > 0 {
		o = o.T(" (").W(vColumns(s.Columns)).T(")")
	}
	if !eValues(s.Values) {
		o = o.T(" ").W(vValues(s.Values))
	}
	if !eOnConflict(s.OnConflict) {
		o = o.T(" ").W(vOnConflict(s.OnConflict))
	}
	if !eReturning(s.Returning) {
		o = o.T(" ").W(vReturning(s.Returning))
	}
	if s.Comment.Comment != "" {
		o = o.T("; ").W(vComment(s.Comment))
	}
	return o
}

//@ contract stmt.Insert.IsEmpty props=E01,G01,C01
func eInsert(s Insert) bool {
	return s.Into.Table.Name == ""
}

//@ contract stmt.Into.Write kind=writer props=G01,S02
func vInto(s Into) vspec.Out {
	return vOut("INTO ").W(vTable(s.Table))
}

//@ contract stmt.Into.IsEmpty props=E01,G01,C01
func eInto(s Into) bool {
	return s.Table.Name == ""
}

//@ contract stmt.Join.Write kind=writer props=G01,C01,J02,C03
func vJoin(s Join) vspec.Out {
	return vOut(string(s.Type) + " ").W(vTable(s.Table)).T(" ON ").W(vW(s.Condition))
}

//@ contract stmt.Join.IsEmpty props=E01,G01,C01
func eJoin(s Join) bool {
	return s.Type == "" || s.Table.Name == "" || s.Condition == nil || vEmp(s.Condition)
}

//@ contract stmt.Limit.Write kind=writer props=L01,G01
func vLimit(s Limit) vspec.Out {
	if s.Count == 0 {
		return vspec.Out{}
	}
	return vOut("LIMIT " + strconv.FormatInt(s.Count, 10))
}

//@ contract stmt.Limit.IsEmpty props=L01,G01
func eLimit(s Limit) bool {
	return s.Count == 0
}

//@ contract stmt.Offset.Write kind=writer props=L01,G01
func vOffset(s Offset) vspec.Out {
	if s.Start == 0 {
		return vspec.Out{}
	}
	return vOut("OFFSET " + strconv.FormatInt(s.Start, 10))
}

//@ contract stmt.Offset.IsEmpty props=L01,G01
func eOffset(s Offset) bool {
	return s.Start == 0
}

//@ contract stmt.OnClause.Write kind=writer props=C02,J02,S02
func vOnClause(s OnClause) vspec.Out {
	return vColumn(s.Left).T(" = ").W(vColumn(s.Right))
}

//@ contract stmt.OnClause.IsEmpty props=J02,C01,E01
func eOnClause(s OnClause) bool {
	return s.Left.Name == "" || s.Right.Name == ""
}

//@ contract stmt.InfixOnExpression.Write kind=writer props=C02,C01,J02
func vInfixOnExpression(s InfixOnExpression) vspec.Out {
	if eInfixOnExpression(s) {
		panic("undefined")
	}
	return vOut("(").W(vW(s.Left)).T(" " + string(s.Operator.Operator) + " ").W(vW(s.Right)).T(")")
}

//@ contract stmt.InfixOnExpression.IsEmpty props=C01,E01,J02
func eInfixOnExpression(s InfixOnExpression) bool {
	return s.Left == nil || s.Right == nil ||
		vEmp(s.Left) || s.Operator.Operator == "" || vEmp(s.Right)
}

//@ contract stmt.LogicalOperator.Write kind=writer props=C02
func vLogicalOperator(s LogicalOperator) vspec.Out {
	return vOut(string(s.Operator))
}

//@ contract stmt.LogicalOperator.IsEmpty props=E01,G01,C01
func eLogicalOperator(s LogicalOperator) bool {
	return s.Operator == ""
}

//@ contract stmt.ComparisonOperator.Write kind=writer props=C02
func vComparisonOperator(s ComparisonOperator) vspec.Out {
	return vOut(string(s.Operator))
}

//@ contract stmt.ComparisonOperator.IsEmpty props=E01,G01,C01
func eComparisonOperator(s ComparisonOperator) bool {
	return s.Operator == ""
}

//@ contract stmt.Order.Write kind=writer props=G01
func vOrder(s Order) vspec.Out {
	if s.Expression == "" {
		return vspec.Out{}
	}
	return vOut(s.Expression + " " + string(s.Type))
}

//@ contract stmt.Order.IsEmpty props=E01,G01,C01
func eOrder(s Order) bool {
	return s.Expression == ""
}

//@ contract stmt.OrderBy.Write kind=writer props=G01
func vOrderBy(s OrderBy) vspec.Out {
	if len(s.Orders) == 0 {
		return vspec.Out{}
	}
	o := vOut("ORDER BY ")
	for i, t := range s.Orders {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vOrder(t))
	}
	return o
}

//@ contract stmt.OrderBy.IsEmpty props=E01,G01,C01
func eOrderBy(s OrderBy) bool {
	return len(s.Orders) == 0
}

//@ contract stmt.Prefix.Write kind=writer props=G01
func vPrefix(s Prefix) vspec.Out {
	return vOut(s.Prefix)
}

//@ contract stmt.Prefix.IsEmpty props=E01,G01,C01
func ePrefix(s Prefix) bool {
	return s.Prefix == ""
}

//@ contract stmt.Suffix.Write kind=writer props=G01
func vSuffix(s Suffix) vspec.Out {
	return vOut(s.Suffix)
}

//@ contract stmt.Suffix.IsEmpty props=E01,G01,C01
func eSuffix(s Suffix) bool {
	return s.Suffix == ""
}

//@ contract stmt.Returning.Write kind=writer props=G01
func vReturning(s Returning) vspec.Out {
	o := vOut("RETURNING ")
	for i, t := range s.Columns {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vW(t))
	}
	return o
}

//@ contract stmt.Returning.IsEmpty props=E01,G01,C01
func eReturning(s Returning) bool {
	return len(s.Columns) == 0
}

//@ opaque
//@ contract stmt.Select.Write kind=writer props=G01,C01,S03,E01,S01,B03,L01,C03
func vSelect(s Select) vspec.Out {
	if eSelect(s) {
		panic("undefined")
	}
	o := vspec.Out{}
	if s.Prefix.Prefix != "" {
		o = o.T(s.Prefix.Prefix + " ")
	}
	if len(s.With.Queries) > 0 {
		o = o.W(vWith(s.With)).T(" ")
	}
	o = o.T("SELECT")
	if !eDistinctOn(s.DistinctOn) {
		o = o.T(" ").W(vDistinctOn(s.DistinctOn))
	}
	if s.Distinct {
		o = o.T(" DISTINCT")
	}
	o = o.T(" ")
	for i, e := range s.Expressions {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vW(e))
	}
	if !eFrom(s.From) {
		o = o.T(" ").W(vFrom(s.From))
	}
	for _, j := range s.Joins {
		o = o.T(" ").W(vJoin(j))
	}
	if !eWhere(s.Where) {
		o = o.T(" ").W(vWhere(s.Where))
	}
	if !eGroupBy(s.GroupBy) {
		o = o.T(" ").W(vGroupBy(s.GroupBy))
	}
	if !eHaving(s.Having) {
		o = o.T(" ").W(vHaving(s.Having))
	}
	if !eOrderBy(s.OrderBy) {
		o = o.T(" ").W(vOrderBy(s.OrderBy))
	}
	if !eLimit(s.Limit) {
		o = o.T(" ").W(vLimit(s.Limit))
	}
	if !eOffset(s.Offset) {
		o = o.T(" ").W(vOffset(s.Offset))
	}
	if !eSuffix(s.Suffix) {
		o = o.T(" ").W(vSuffix(s.Suffix))
	}
	if s.Comment.Comment != "" {
		o = o.T("; ").W(vComment(s.Comment))
	}
	return o
}

//@ contract stmt.Select.IsEmpty props=E01,G01,C01
func eSelect(s Select) bool {
	return len(s.Expressions) == 0
}

//@ contract stmt.Set.Write kind=writer props=G01,V01,E01
func vSet(s Set) vspec.Out {
	return vOut("SET ").W(vPairContainer(s.Pairs))
}

//@ contract stmt.Set.IsEmpty props=E01,G01,C01
func eSet(s Set) bool {
	return ePairContainer(s.Pairs)
}

//@ contract stmt.PairContainer.Write kind=writer props=V01,G01,E01,S01,C03
func vPairContainer(s PairContainer) vspec.Out {
	if ePairContainer(s) {
		panic("no values")
	}
	switch s.Mode {
	case PairAssociativeMode:
		return vAssociative(s)
	case PairArrayMode:
		return vArrayPairs(s)
	}
	return vspec.Out{}
}

// vArrayPairs writes the columns and the expressions as two lists.
//
//@ contract stmt.PairContainer.WriteArray kind=writer props=V01,G01,S01,C03
func vArrayPairs(s PairContainer) vspec.Out {
	return vOut("(").W(vColumns(s.Columns)).T(") = (").W(vItems(s.Expressions)).T(")")
}

//@ contract stmt.PairContainer.IsEmpty props=V01,E01
func ePairContainer(s PairContainer) bool {
	return s.Mode == PairUnknownMode || len(s.Map) == 0 && len(s.Expressions) == 0
}

//@ contract stmt.Exists.Write kind=writer props=C03,G01,S01
func vExists(s Exists) vspec.Out {
	return vOut("EXISTS (").W(vW(s.Subquery)).T(")")
}

//@ contract stmt.Exists.IsEmpty props=E01,G01,C01
func eExists(s Exists) bool {
	return false
}

//@ contract stmt.NotExists.Write kind=writer props=C03,G01,S01
func vNotExists(s NotExists) vspec.Out {
	return vOut("NOT EXISTS (").W(vW(s.Subquery)).T(")")
}

//@ contract stmt.NotExists.IsEmpty props=E01,G01,C01
func eNotExists(s NotExists) bool {
	return false
}

//@ contract stmt.Table.Write kind=writer props=S02,G01
func vTable(s Table) vspec.Out {
	o := ""
	if s.only {
		o = "ONLY "
	}
	return vOut(o + vQuote(s.Name) + vAs(s.Alias))
}

//@ contract stmt.Table.IsEmpty props=E01,G01,C01
func eTable(s Table) bool {
	return s.Name == ""
}

//@ contract stmt.Update.Write kind=writer props=G01,C01,S03,E01,V01,S01,B03
func vUpdate(s Update) vspec.Out {
	if eUpdate(s) {
		panic("undefined")
	}
	o := vspec.Out{}
	if len(s.With.Queries) > 0 {
		o = o.W(vWith(s.With)).T(" ")
	}
	o = o.T("UPDATE ")
	if s.Only {
		o = o.T("ONLY ")
	}
	o = o.W(vTable(s.Table)).T(" ").W(vSet(s.Set))
	if !eFrom(s.From) {
		o = o.T(" ").W(vFrom(s.From))
	}
	if !eWhere(s.Where) {
		o = o.T(" ").W(vWhere(s.Where))
	}
	if !eReturning(s.Returning) {
		o = o.T(" ").W(vReturning(s.Returning))
	}
	if s.Comment.Comment != "" {
		o = o.T("; ").W(vComment(s.Comment))
	}
	return o
}

//@ contract stmt.Update.IsEmpty props=E01,G01,C01
func eUpdate(s Update) bool {
	return s.Table.Name == "" || eSet(s.Set)
}

//@ contract stmt.Using.Write kind=writer props=G01,S02
func vUsing(s Using) vspec.Out {
	if len(s.Tables) == 0 {
		return vspec.Out{}
	}
	o := vOut("USING ")
	for i, t := range s.Tables {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vTable(t))
	}
	return o
}

//@ contract stmt.Using.IsEmpty props=E01,G01,C01
func eUsing(s Using) bool {
	return len(s.Tables) == 0
}

//@ contract stmt.Values.Write kind=writer props=G01,V02,S01
func vValues(s Values) vspec.Out {
	if eValues(s) {
		return vspec.Out{}
	}
	return vOut("VALUES ").W(vW(s.Values))
}

//@ contract stmt.Values.IsEmpty props=E01,G01,C01
func eValues(s Values) bool {
	return s.Values == nil || vEmp(s.Values)
}

//@ contract stmt.With.Write kind=writer props=G01,C03
func vWith(s With) vspec.Out {
	if len(s.Queries) == 0 {
		return vspec.Out{}
	}
	o := vOut("WITH ")
	for i, q := range s.Queries {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vWithQuery(q))
	}
	return o
}

//@ contract stmt.With.IsEmpty props=E01,G01,C01
func eWith(s With) bool {
	return len(s.Queries) == 0
}

//@ contract stmt.WithQuery.Write kind=writer props=G01,C03,S01
func vWithQuery(s WithQuery) vspec.Out {
	if eWithQuery(s) {
		return vspec.Out{}
	}
	return vOut(s.Name + " AS (").W(vW(s.Subquery)).T(")")
}

//@ contract stmt.WithQuery.IsEmpty props=E01,G01,C01
func eWithQuery(s WithQuery) bool {
	return s.Name == "" || s.Subquery == nil || vEmp(s.Subquery)
}

//@ contract stmt.Identifier.Write kind=writer props=S02,C02,S01
func vIdentifier(s Identifier) vspec.Out {
	switch t := s.Identifier.(type) {
	case string:
		return vOut(vQuote(t))
	case Raw:
		return vOut(t.Value)
	}
	return vspec.Out{}
}

//@ contract stmt.Identifier.IsEmpty props=E01,C01
func eIdentifier(s Identifier) bool {
	return s.Identifier == ""
}

//@ contract stmt.Value.Write kind=writer props=S01,V03,B01,B02
func vValue(s Value) vspec.Out {
	if s.Value == nil {
		return vOut("NULL")
	}
	return vspec.Out{}.V(s.Value)
}

//@ contract stmt.Value.IsEmpty props=C01,V03
func eValue(s Value) bool {
	return false
}

//@ contract stmt.ArrayList.Write kind=writer props=V02,S01,B01,B02
func vArrayList(s ArrayList) vspec.Out {
	var o vspec.Out
	for i, e := range s.Values {
		if i > 0 {
			o = o.T(", ")
		}
		o = o.T("(").W(vW(e)).T(")")
	}
	return o
}

//@ contract stmt.ArrayList.IsEmpty props=V02
func eArrayList(s ArrayList) bool {
	return len(s.Values) == 0
}

//@ contract stmt.Array.Write kind=writer props=V02,S01,C03,B01,B02
func vArray(s Array) vspec.Out {
	return vItems(s.Values)
}

//@ contract stmt.Array.IsEmpty props=V02
func eArray(s Array) bool {
	return len(s.Values) == 0
}

//@ contract stmt.Raw.Write kind=writer props=S01,G01
func vRaw(s Raw) vspec.Out {
	return vOut(s.Value)
}

//@ contract stmt.Raw.IsEmpty props=E01,G01,C01
func eRaw(s Raw) bool {
	return s.Value == ""
}

//@ contract stmt.Wrapper.Write kind=writer props=C03,C02,C01
func vWrapper(s Wrapper) vspec.Out {
	return vOut("(").W(vW(s.Value)).T(")")
}

//@ contract stmt.Wrapper.IsEmpty props=E01,G01,C01
func eWrapper(s Wrapper) bool {
	return vEmp(s.Value)
}

//@ contract stmt.Call.Write kind=writer props=G01,C02,S01
func vCall(s Call) vspec.Out {
	return vOut(s.function + "(").W(vExprs(s.args)).T(")")
}

//@ contract stmt.Call.IsEmpty props=E01,G01,C01
func eCall(s Call) bool {
	return false
}

// vAssociative writes key/value assignments, sorted by column.
//
//@ contract stmt.PairContainer.WriteAssociative kind=writer props=V01,G01,S01,C03
func vAssociative(s PairContainer) vspec.Out {
	cs, es := vPairValues(s)
	var o vspec.Out
	for i := range cs {
		if i >= len(es) {
			panic("column without expression")
		}
		if i > 0 {
			o = o.T(", ")
		}
		o = o.W(vColumn(cs[i])).T(" = ").W(vW(es[i]))
	}
	return o
}


// vW is what any statement writes, by its dynamic type.
//
//@ interface Write
func vW(s Statement) vspec.Out {
	switch t := s.(type) {
	case Count:
		return vCount(t)
	case Max:
		return vMax(t)
	case Min:
		return vMin(t)
	case Sum:
		return vSum(t)
	case Between:
		return vBetween(t)
	case Column:
		return vColumn(t)
	case Comment:
		return vComment(t)
	case OnConflict:
		return vOnConflict(t)
	case ConflictTarget:
		return vConflictTarget(t)
	case ConflictUpdateAction:
		return vConflictUpdateAction(t)
	case ConflictNoAction:
		return vConflictNoAction(t)
	case Delete:
		return vDelete(t)
	case DistinctOn:
		return vDistinctOn(t)
	case From:
		return vFrom(t)
	case GroupBy:
		return vGroupBy(t)
	case Having:
		return vHaving(t)
	case Where:
		return vWhere(t)
	case In:
		return vIn(t)
	case InfixExpression:
		return vInfixExpression(t)
	case Insert:
		return vInsert(t)
	case Into:
		return vInto(t)
	case Join:
		return vJoin(t)
	case Limit:
		return vLimit(t)
	case Offset:
		return vOffset(t)
	case OnClause:
		return vOnClause(t)
	case InfixOnExpression:
		return vInfixOnExpression(t)
	case LogicalOperator:
		return vLogicalOperator(t)
	case ComparisonOperator:
		return vComparisonOperator(t)
	case Order:
		return vOrder(t)
	case OrderBy:
		return vOrderBy(t)
	case Prefix:
		return vPrefix(t)
	case Suffix:
		return vSuffix(t)
	case Returning:
		return vReturning(t)
	case Select:
		return vSelect(t)
	case Set:
		return vSet(t)
	case PairContainer:
		return vPairContainer(t)
	case Exists:
		return vExists(t)
	case NotExists:
		return vNotExists(t)
	case Table:
		return vTable(t)
	case Update:
		return vUpdate(t)
	case Using:
		return vUsing(t)
	case Values:
		return vValues(t)
	case With:
		return vWith(t)
	case WithQuery:
		return vWithQuery(t)
	case Identifier:
		return vIdentifier(t)
	case Value:
		return vValue(t)
	case ArrayList:
		return vArrayList(t)
	case Array:
		return vArray(t)
	case Raw:
		return vRaw(t)
	case Wrapper:
		return vWrapper(t)
	case Call:
		return vCall(t)
	case *Wrapper:
		return vWrapper(*t)
	}
	if s == nil {
		panic("nil statement")
	}
	return vRecord(s)
}

//@ opaque
func vRecordEmpty(s Statement) bool {
	return s.IsEmpty()
}

// vEmp tells whether a statement is undefined, by its dynamic type.
//
//@ interface IsEmpty
func vEmp(s Statement) bool {
	switch t := s.(type) {
	case Count:
		return eCount(t)
	case Max:
		return eMax(t)
	case Min:
		return eMin(t)
	case Sum:
		return eSum(t)
	case Between:
		return eBetween(t)
	case Column:
		return eColumn(t)
	case Comment:
		return eComment(t)
	case OnConflict:
		return eOnConflict(t)
	case ConflictTarget:
		return eConflictTarget(t)
	case ConflictUpdateAction:
		return eConflictUpdateAction(t)
	case ConflictNoAction:
		return eConflictNoAction(t)
	case Delete:
		return eDelete(t)
	case DistinctOn:
		return eDistinctOn(t)
	case From:
		return eFrom(t)
	case GroupBy:
		return eGroupBy(t)
	case Having:
		return eHaving(t)
	case Where:
		return eWhere(t)
	case In:
		return eIn(t)
	case InfixExpression:
		return eInfixExpression(t)
	case Insert:
		return eInsert(t)
	case Into:
		return eInto(t)
	case Join:
		return eJoin(t)
	case Limit:
		return eLimit(t)
	case Offset:
		return eOffset(t)
	case OnClause:
		return eOnClause(t)
	case InfixOnExpression:
		return eInfixOnExpression(t)
	case LogicalOperator:
		return eLogicalOperator(t)
	case ComparisonOperator:
		return eComparisonOperator(t)
	case Order:
		return eOrder(t)
	case OrderBy:
		return eOrderBy(t)
	case Prefix:
		return ePrefix(t)
	case Suffix:
		return eSuffix(t)
	case Returning:
		return eReturning(t)
	case Select:
		return eSelect(t)
	case Set:
		return eSet(t)
	case PairContainer:
		return ePairContainer(t)
	case Exists:
		return eExists(t)
	case NotExists:
		return eNotExists(t)
	case Table:
		return eTable(t)
	case Update:
		return eUpdate(t)
	case Using:
		return eUsing(t)
	case Values:
		return eValues(t)
	case With:
		return eWith(t)
	case WithQuery:
		return eWithQuery(t)
	case Identifier:
		return eIdentifier(t)
	case Value:
		return eValue(t)
	case ArrayList:
		return eArrayList(t)
	case Array:
		return eArray(t)
	case Raw:
		return eRaw(t)
	case Wrapper:
		return eWrapper(t)
	case Call:
		return eCall(t)
	case *Wrapper:
		return eWrapper(*t)
	}
	if s == nil {
		panic("nil statement")
	}
	return vRecordEmpty(s)
}
