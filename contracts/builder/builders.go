package builder

import (
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
	"github.com/ulule/loukoum/v3/vspec"
)

// Generated by tools/genbuilders.py.

// vWhereAnd is a first condition, or the conjunction of what is there with one more.
func vWhereAnd(w stmt.Where, c stmt.Expression) stmt.Where {
	if w.Condition == nil || stmt.VEmp(w.Condition) {
		return stmt.Where{Condition: stmt.VFirstCond(c)}
	}
	return vWhereMore(w, "AND", c)
}

// vWhereMore combines the condition that is there with one more.
func vWhereMore(w stmt.Where, op string, c stmt.Expression) stmt.Where {
	return stmt.Where{Condition: stmt.VCond(w.Condition, op, c)}
}

// vRefuse panics when the clause is there already.
func vRefuse(there bool) {
	if there {
		panic("already defined")
	}
}

func vHasValues(v stmt.Values) bool {
	return v.Values != nil && !stmt.VEmp(v.Values)
}

func vMoreWith(w stmt.With, qs []stmt.WithQuery) stmt.With {
	return stmt.With{Queries: append(w.Queries[:len(w.Queries):len(w.Queries)], qs...)}
}

// vJoinOn is a join of a table given apart from its condition.
func vJoinOn(args []interface{}) stmt.Join {
	var t stmt.Table
	switch v := args[0].(type) {
	case string:
		t = stmt.Table{Name: v}
	case stmt.Table:
		t = v
	default:
		panic("unsupported table")
	}
	var j stmt.Join
	switch v := args[1].(type) {
	case string:
		j = parser.MustParseJoin(v)
	case stmt.OnClause:
		j = stmt.Join{Type: stmt.VInner(), Condition: v}
	case stmt.InfixOnExpression:
		j = stmt.Join{Type: stmt.VInner(), Condition: v}
	default:
		panic("unsupported condition")
	}
	j.Table = t
	return j
}

// vAddJoin adds a complete join.
func vAddJoin(s stmt.Select, j stmt.Join) stmt.Select {
	if j.Type == "" || j.Table.Name == "" || j.Condition == nil || stmt.VEmp(j.Condition) {
		panic("undefined join")
	}
	s.Joins = append(s.Joins[:len(s.Joins):len(s.Joins)], j)
	return s
}

//@ contract builder.NewSelect props=G01
func cNewSelect() Select {
	return Select{}
}

//@ contract builder.NewInsert props=G01
func cNewInsert() Insert {
	return Insert{}
}

//@ contract builder.NewDelete props=G01
func cNewDelete() Delete {
	return Delete{}
}

//@ contract builder.NewUpdate props=G01,E01,V01
func cNewUpdate(t interface{}) Update {
	return Update{query: stmt.Update{Table: vTable(t), Set: stmt.VNewSet()}}
}

//@ contract builder.Select.Query props=B01,B03,S01
func cSelectQuery(b Select) (string, []interface{}) {
	o := stmt.VSelect(b.query)
	return vspec.Std(o.Text), o.Vals
}

//@ contract builder.Select.NamedQuery props=B02,B03,S01
func cSelectNamedQuery(b Select) (string, map[string]interface{}) {
	o := stmt.VSelect(b.query)
	return vspec.NamedText(o.Text), vspec.NamedVals(o.Vals)
}

//@ contract builder.Select.String props=B03,S04
func cSelectString(b Select) string {
	o := stmt.VSelect(b.query)
	return types.Inline(o.Text, o.Vals)
}

//@ contract builder.Select.Statement props=G01,C03,B03
func cSelectStatement(b Select) stmt.Statement {
	return b.query
}

//@ contract builder.Select.Comment props=S03,G01
func cSelectComment(b Select, s string) Select {
	b.query.Comment = stmt.Comment{Comment: s}
	return b
}

//@ contract builder.Insert.Query props=B01,B03,S01
func cInsertQuery(b Insert) (string, []interface{}) {
	o := stmt.VInsert(b.query)
	return vspec.Std(o.Text), o.Vals
}

//@ contract builder.Insert.NamedQuery props=B02,B03,S01
func cInsertNamedQuery(b Insert) (string, map[string]interface{}) {
	o := stmt.VInsert(b.query)
	return vspec.NamedText(o.Text), vspec.NamedVals(o.Vals)
}

//@ contract builder.Insert.String props=B03,S04
func cInsertString(b Insert) string {
	o := stmt.VInsert(b.query)
	return types.Inline(o.Text, o.Vals)
}

//@ contract builder.Insert.Statement props=G01,C03,B03
func cInsertStatement(b Insert) stmt.Statement {
	return b.query
}

//@ contract builder.Insert.Comment props=S03,G01
func cInsertComment(b Insert, s string) Insert {
	b.query.Comment = stmt.Comment{Comment: s}
	return b
}

//@ contract builder.Update.Query props=B01,B03,S01
func cUpdateQuery(b Update) (string, []interface{}) {
	o := stmt.VUpdate(b.query)
	return vspec.Std(o.Text), o.Vals
}

//@ contract builder.Update.NamedQuery props=B02,B03,S01
func cUpdateNamedQuery(b Update) (string, map[string]interface{}) {
	o := stmt.VUpdate(b.query)
	return vspec.NamedText(o.Text), vspec.NamedVals(o.Vals)
}

//@ contract builder.Update.String props=B03,S04
func cUpdateString(b Update) string {
	o := stmt.VUpdate(b.query)
	return types.Inline(o.Text, o.Vals)
}

//@ contract builder.Update.Statement props=G01,C03,B03
func cUpdateStatement(b Update) stmt.Statement {
	return b.query
}

//@ contract builder.Update.Comment props=S03,G01
func cUpdateComment(b Update, s string) Update {
	b.query.Comment = stmt.Comment{Comment: s}
	return b
}

//@ contract builder.Delete.Query props=B01,B03,S01
func cDeleteQuery(b Delete) (string, []interface{}) {
	o := stmt.VDelete(b.query)
	return vspec.Std(o.Text), o.Vals
}

//@ contract builder.Delete.NamedQuery props=B02,B03,S01
func cDeleteNamedQuery(b Delete) (string, map[string]interface{}) {
	o := stmt.VDelete(b.query)
	return vspec.NamedText(o.Text), vspec.NamedVals(o.Vals)
}

//@ contract builder.Delete.String props=B03,S04
func cDeleteString(b Delete) string {
	o := stmt.VDelete(b.query)
	return types.Inline(o.Text, o.Vals)
}

//@ contract builder.Delete.Statement props=G01,C03,B03
func cDeleteStatement(b Delete) stmt.Statement {
	return b.query
}

//@ contract builder.Delete.Comment props=S03,G01
func cDeleteComment(b Delete, s string) Delete {
	b.query.Comment = stmt.Comment{Comment: s}
	return b
}

//@ contract builder.Select.Where props=C01,C02,G01
func cSelectWhere(b Select, c stmt.Expression) Select {
	b.query.Where = vWhereAnd(b.query.Where, c)
	return b
}

//@ contract builder.Select.And props=C01,C02,G01
func cSelectAnd(b Select, c stmt.Expression) Select {
	b.query.Where = vWhereMore(b.query.Where, "AND", c)
	return b
}

//@ contract builder.Select.Or props=C01,C02,G01
func cSelectOr(b Select, c stmt.Expression) Select {
	b.query.Where = vWhereMore(b.query.Where, "OR", c)
	return b
}

//@ contract builder.Update.Where props=C01,C02,G01
func cUpdateWhere(b Update, c stmt.Expression) Update {
	b.query.Where = vWhereAnd(b.query.Where, c)
	return b
}

//@ contract builder.Update.And props=C01,C02,G01
func cUpdateAnd(b Update, c stmt.Expression) Update {
	b.query.Where = vWhereMore(b.query.Where, "AND", c)
	return b
}

//@ contract builder.Update.Or props=C01,C02,G01
func cUpdateOr(b Update, c stmt.Expression) Update {
	b.query.Where = vWhereMore(b.query.Where, "OR", c)
	return b
}

//@ contract builder.Delete.Where props=C01,C02,G01
func cDeleteWhere(b Delete, c stmt.Expression) Delete {
	b.query.Where = vWhereAnd(b.query.Where, c)
	return b
}

//@ contract builder.Delete.And props=C01,C02,G01
func cDeleteAnd(b Delete, c stmt.Expression) Delete {
	b.query.Where = vWhereMore(b.query.Where, "AND", c)
	return b
}

//@ contract builder.Delete.Or props=C01,C02,G01
func cDeleteOr(b Delete, c stmt.Expression) Delete {
	b.query.Where = vWhereMore(b.query.Where, "OR", c)
	return b
}

//@ contract builder.Select.With props=G01,I01
func cSelectWith(b Select, qs ...stmt.WithQuery) Select {
	b.query.With = vMoreWith(b.query.With, qs)
	return b
}

//@ contract builder.Update.With props=G01,I01
func cUpdateWith(b Update, qs ...stmt.WithQuery) Update {
	b.query.With = vMoreWith(b.query.With, qs)
	return b
}

//@ contract builder.Insert.Returning props=D01,G01,E01
func cInsertReturning(b Insert, vs ...interface{}) Insert {
	vRefuse(len(b.query.Returning.Columns) > 0)
	b.query.Returning = stmt.Returning{Columns: vSelects(vs)}
	return b
}

//@ contract builder.Update.Returning props=D01,G01,E01
func cUpdateReturning(b Update, vs ...interface{}) Update {
	vRefuse(len(b.query.Returning.Columns) > 0)
	b.query.Returning = stmt.Returning{Columns: vSelects(vs)}
	return b
}

//@ contract builder.Delete.Returning props=D01,G01,E01
func cDeleteReturning(b Delete, vs ...interface{}) Delete {
	vRefuse(len(b.query.Returning.Columns) > 0)
	b.query.Returning = stmt.Returning{Columns: vSelects(vs)}
	return b
}

//@ contract builder.Select.DistinctOn props=D01,G01,E01
func cSelectDistinctOn(b Select, vs ...interface{}) Select {
	vRefuse(len(b.query.DistinctOn.Columns) > 0)
	cs := vColumns(vs)
	if len(cs) == 0 {
		panic("undefined distinct on")
	}
	b.query.DistinctOn = stmt.DistinctOn{Columns: cs}
	return b
}

//@ contract builder.Select.Distinct props=G01
func cSelectDistinct(b Select) Select {
	b.query.Distinct = true
	return b
}

//@ contract builder.Select.Columns props=G01,E01
func cSelectColumns(b Select, vs ...interface{}) Select {
	if len(vs) == 0 {
		vs = []interface{}{"*"}
	}
	b.query.Expressions = vSelects(vs)
	return b
}

//@ contract builder.Select.From props=D01,G01,E01
func cSelectFrom(b Select, vs ...interface{}) Select {
	vRefuse(len(b.query.From.Tables) > 0)
	b.query.From = vFrom(vs...)
	return b
}

//@ contract builder.Delete.From props=D01,G01,E01
func cDeleteFrom(b Delete, vs ...interface{}) Delete {
	vRefuse(len(b.query.From.Tables) > 0)
	b.query.From = vFrom(vs...)
	return b
}

//@ contract builder.Update.From props=D01,G01,E01
func cUpdateFrom(b Update, v interface{}) Update {
	vRefuse(len(b.query.From.Tables) > 0)
	b.query.From = vFrom(v)
	return b
}

//@ contract builder.Select.Join props=G01,E01,C01,J02
func cSelectJoin(b Select, args ...interface{}) Select {
	var j stmt.Join
	switch len(args) {
	case 1:
		switch v := args[0].(type) {
		case string:
			j = parser.MustParseJoin(v)
		case stmt.Join:
			j = v
		default:
			panic("unsupported join")
		}
	case 2:
		j = vJoinOn(args)
	case 3:
		j = vJoinOn(args)
		k, ok := args[2].(types.JoinType)
		if !ok {
			panic("unsupported join type")
		}
		j.Type = k
	default:
		panic("invalid join")
	}
	b.query = vAddJoin(b.query, j)
	return b
}

//@ contract builder.Select.GroupBy props=D01,G01,E01
func cSelectGroupBy(b Select, vs ...interface{}) Select {
	vRefuse(len(b.query.GroupBy.Columns) > 0)
	cs := vColumns(vs)
	if len(cs) == 0 {
		panic("undefined group by")
	}
	b.query.GroupBy = stmt.GroupBy{Columns: cs}
	return b
}

//@ contract builder.Select.Having props=D01,C01,G01
func cSelectHaving(b Select, c stmt.Expression) Select {
	vRefuse(b.query.Having.Condition != nil && !stmt.VEmp(b.query.Having.Condition))
	b.query.Having = stmt.Having{Condition: stmt.VFirstCond(c)}
	return b
}

//@ contract builder.Select.OrderBy props=G01,I01
func cSelectOrderBy(b Select, os ...stmt.Order) Select {
	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders[:len(b.query.OrderBy.Orders):len(b.query.OrderBy.Orders)], os...)
	return b
}

//@ contract builder.Select.Limit props=D01,L01,G01
func cSelectLimit(b Select, v interface{}) Select {
	vRefuse(b.query.Limit.Count != 0)
	b.query.Limit = vLimit(v)
	return b
}

//@ contract builder.Select.Offset props=D01,L01,G01
func cSelectOffset(b Select, v interface{}) Select {
	vRefuse(b.query.Offset.Start != 0)
	b.query.Offset = vOffset(v)
	return b
}

//@ contract builder.Select.Suffix props=D01,G01,E01
func cSelectSuffix(b Select, v interface{}) Select {
	vRefuse(b.query.Suffix.Suffix != "")
	b.query.Suffix = vSuffix(v)
	return b
}

//@ contract builder.Select.Prefix props=D01,G01,E01
func cSelectPrefix(b Select, v interface{}) Select {
	vRefuse(b.query.Prefix.Prefix != "")
	b.query.Prefix = vPrefix(v)
	return b
}

//@ contract builder.Insert.Into props=D01,G01,E01
func cInsertInto(b Insert, v interface{}) Insert {
	vRefuse(b.query.Into.Table.Name != "")
	b.query.Into = vInto(v)
	return b
}

//@ contract builder.Insert.Columns props=D01,G01,E01
func cInsertColumns(b Insert, vs ...interface{}) Insert {
	if len(vs) == 0 {
		return b
	}
	vRefuse(len(b.query.Columns) > 0)
	b.query.Columns = vColumns(vs)
	return b
}

//@ contract builder.Insert.Values props=D01,V02,V03,S01,G01
func cInsertValues(b Insert, vs ...interface{}) Insert {
	vRefuse(vHasValues(b.query.Values))
	b.query.Values = stmt.Values{Values: stmt.VInsertRows(vs)}
	return b
}

//@ contract builder.Insert.Set props=D01,V01,V02,V03,S01,G01
func cInsertSet(b Insert, vs ...interface{}) Insert {
	vRefuse(len(b.query.Columns) > 0)
	vRefuse(vHasValues(b.query.Values))
	cs, es := stmt.VPairValues(vSet(vs).Pairs)
	b.query.Columns = cs
	b.query.Values = stmt.Values{Values: stmt.VInsertRows([]interface{}{es})}
	return b
}

//@ contract builder.Insert.OnConflict props=D01,G01,E01
func cInsertOnConflict(b Insert, vs ...interface{}) Insert {
	vRefuse(b.query.OnConflict.Action != nil && !stmt.VEmp(b.query.OnConflict.Action))
	cs := b.query.OnConflict.Target.Columns
	for _, v := range vs {
		switch t := v.(type) {
		case string:
			cs = append(cs[:len(cs):len(cs)], vColumn(t))
		case stmt.Column:
			cs = append(cs[:len(cs):len(cs)], vColumn(t))
		case stmt.ConflictNoAction:
			b.query.OnConflict = stmt.OnConflict{Target: stmt.ConflictTarget{Columns: cs}, Action: t}
			return b
		case stmt.ConflictUpdateAction:
			if len(cs) == 0 || stmt.VEmp(t) {
				panic("incomplete update")
			}
			b.query.OnConflict = stmt.OnConflict{Target: stmt.ConflictTarget{Columns: cs}, Action: t}
			return b
		default:
			panic("unsupported argument")
		}
	}
	if len(vs) >= 0 {
		panic("no action")
	}
	return b
}

//@ contract builder.Update.Only props=G01
func cUpdateOnly(b Update) Update {
	b.query.Only = true
	return b
}

//@ contract builder.Update.Set props=V01,V03,E01,G01,S01
func cUpdateSet(b Update, vs ...interface{}) Update {
	if len(vs) == 0 {
		panic("no argument")
	}
	b.query.Set = vMergeSet(b.query.Set, vs)
	return b
}

//@ contract builder.Update.Using props=V01,V03,E01,G01,S01
func cUpdateUsing(b Update, vs ...interface{}) Update {
	if b.query.Set.Pairs.Mode != stmt.PairArrayMode || len(vs) == 0 {
		panic("no columns or no argument")
	}
	p := stmt.VPairClone(b.query.Set.Pairs)
	for _, v := range vs {
		p = stmt.VPairUse(p, stmt.VExpr(v))
	}
	b.query.Set.Pairs = p
	return b
}

//@ contract builder.Delete.Using props=D01,G01,E01
func cDeleteUsing(b Delete, vs ...interface{}) Delete {
	vRefuse(len(b.query.Using.Tables) > 0)
	b.query.Using = stmt.Using{Tables: vTables(vs)}
	return b
}
