#!/usr/bin/env python3
"""Writes contracts/builder/builders.go: the contracts of the four query builders."""
import os
out = []
w = out.append
w('''package builder

import (
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
	"github.com/ulule/loukoum/v3/vspec"
)

// Generated by tools/genbuilders.py.

// vWhereAnd is a first condition, or the conjunction of what is there with one more.
func vWhereAnd(w stmt.Where, c stmt.Expression) stmt.Where {
	if w.Condition == nil || stmt.VEmp(w.Condition) {
		return stmt.Where{Condition: stmt.VFirstCond(c)}
	}
	return vWhereMore(w, "AND", c)
}

// vWhereMore combines the condition that is there with one more.
func vWhereMore(w stmt.Where, op string, c stmt.Expression) stmt.Where {
	return stmt.Where{Condition: stmt.VCond(w.Condition, op, c)}
}

// vRefuse panics when the clause is there already.
func vRefuse(there bool) {
	if there {
		panic("already defined")
	}
}

func vHasValues(v stmt.Values) bool {
	return v.Values != nil && !stmt.VEmp(v.Values)
}

func vMoreWith(w stmt.With, qs []stmt.WithQuery) stmt.With {
	return stmt.With{Queries: append(w.Queries[:len(w.Queries):len(w.Queries)], qs...)}
}

// vJoinOn is a join of a table given apart from its condition.
func vJoinOn(args []interface{}) stmt.Join {
	var t stmt.Table
	switch v := args[0].(type) {
	case string:
		t = stmt.Table{Name: v}
	case stmt.Table:
		t = v
	default:
		panic("unsupported table")
	}
	var j stmt.Join
	switch v := args[1].(type) {
	case string:
		j = parser.MustParseJoin(v)
	case stmt.OnClause:
		j = stmt.Join{Type: stmt.VInner(), Condition: v}
	case stmt.InfixOnExpression:
		j = stmt.Join{Type: stmt.VInner(), Condition: v}
	default:
		panic("unsupported condition")
	}
	j.Table = t
	return j
}

// vAddJoin adds a complete join.
func vAddJoin(s stmt.Select, j stmt.Join) stmt.Select {
	if j.Type == "" || j.Table.Name == "" || j.Condition == nil || stmt.VEmp(j.Condition) {
		panic("undefined join")
	}
	s.Joins = append(s.Joins[:len(s.Joins):len(s.Joins)], j)
	return s
}

//@ contract builder.NewSelect props=G01
func cNewSelect() Select {
	return Select{}
}

//@ contract builder.NewInsert props=G01
func cNewInsert() Insert {
	return Insert{}
}

//@ contract builder.NewDelete props=G01
func cNewDelete() Delete {
	return Delete{}
}

//@ contract builder.NewUpdate props=G01,E01,V01
func cNewUpdate(t interface{}) Update {
	return Update{query: stmt.Update{Table: vTable(t), Set: stmt.VNewSet()}}
}
''')

def c(ty, name, sig, props, body):
    w(f'''
//@ contract builder.{ty}.{name} props={props}
func c{ty}{name}(b {ty}{", " if sig else ""}{sig}) {ty} {{
{body}
	return b
}}
''')

# what renders
for ty in 'Select Insert Update Delete'.split():
    fn = {'Select':'VSelect','Insert':'VInsert','Update':'VUpdate','Delete':'VDelete'}[ty]
    w(f'''
//@ contract builder.{ty}.Query props=B01,B03,S01
func c{ty}Query(b {ty}) (string, []interface{{}}) {{
	o := stmt.{fn}(b.query)
	return vspec.Std(o.Text), o.Vals
}}

//@ contract builder.{ty}.NamedQuery props=B02,B03,S01
func c{ty}NamedQuery(b {ty}) (string, map[string]interface{{}}) {{
	o := stmt.{fn}(b.query)
	return vspec.NamedText(o.Text), vspec.NamedVals(o.Vals)
}}

//@ contract builder.{ty}.String props=B03,S04
func c{ty}String(b {ty}) string {{
	o := stmt.{fn}(b.query)
	return types.Inline(o.Text, o.Vals)
}}

//@ contract builder.{ty}.Statement props=G01,C03,B03
func c{ty}Statement(b {ty}) stmt.Statement {{
	return b.query
}}
''')
    c(ty,'Comment','s string','S03,G01','	b.query.Comment = stmt.Comment{Comment: s}')

for ty in 'Select Update Delete'.split():
    c(ty,'Where','c stmt.Expression','C01,C02,G01','	b.query.Where = vWhereAnd(b.query.Where, c)')
    c(ty,'And','c stmt.Expression','C01,C02,G01','	b.query.Where = vWhereMore(b.query.Where, "AND", c)')
    c(ty,'Or','c stmt.Expression','C01,C02,G01','	b.query.Where = vWhereMore(b.query.Where, "OR", c)')
for ty in 'Select Update'.split():
    c(ty,'With','qs ...stmt.WithQuery','G01,I01','	b.query.With = vMoreWith(b.query.With, qs)')
for ty in 'Insert Update Delete'.split():
    c(ty,'Returning','vs ...interface{}','D01,G01,E01','''	vRefuse(len(b.query.Returning.Columns) > 0)
	b.query.Returning = stmt.Returning{Columns: vSelects(vs)}''')
c('Select','DistinctOn','vs ...interface{}','D01,G01,E01','''	vRefuse(len(b.query.DistinctOn.Columns) > 0)
	cs := vColumns(vs)
	if len(cs) == 0 {
		panic("undefined distinct on")
	}
	b.query.DistinctOn = stmt.DistinctOn{Columns: cs}''')
c('Select','Distinct','','G01','	b.query.Distinct = true')
c('Select','Columns','vs ...interface{}','G01,E01','''	if len(vs) == 0 {
		vs = []interface{}{"*"}
	}
	b.query.Expressions = vSelects(vs)''')
for ty in 'Select Delete'.split():
    c(ty,'From','vs ...interface{}','D01,G01,E01','''	vRefuse(len(b.query.From.Tables) > 0)
	b.query.From = vFrom(vs...)''')
c('Update','From','v interface{}','D01,G01,E01','''	vRefuse(len(b.query.From.Tables) > 0)
	b.query.From = vFrom(v)''')
c('Select','Join','args ...interface{}','G01,E01,C01,J02','''	var j stmt.Join
	switch len(args) {
	case 1:
		switch v := args[0].(type) {
		case string:
			j = parser.MustParseJoin(v)
		case stmt.Join:
			j = v
		default:
			panic("unsupported join")
		}
	case 2:
		j = vJoinOn(args)
	case 3:
		j = vJoinOn(args)
		k, ok := args[2].(types.JoinType)
		if !ok {
			panic("unsupported join type")
		}
		j.Type = k
	default:
		panic("invalid join")
	}
	b.query = vAddJoin(b.query, j)''')
c('Select','GroupBy','vs ...interface{}','D01,G01,E01','''	vRefuse(len(b.query.GroupBy.Columns) > 0)
	cs := vColumns(vs)
	if len(cs) == 0 {
		panic("undefined group by")
	}
	b.query.GroupBy = stmt.GroupBy{Columns: cs}''')
c('Select','Having','c stmt.Expression','D01,C01,G01','''	vRefuse(b.query.Having.Condition != nil && !stmt.VEmp(b.query.Having.Condition))
	b.query.Having = stmt.Having{Condition: stmt.VFirstCond(c)}''')
c('Select','OrderBy','os ...stmt.Order','G01,I01','	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders[:len(b.query.OrderBy.Orders):len(b.query.OrderBy.Orders)], os...)')
c('Select','Limit','v interface{}','D01,L01,G01','''	vRefuse(b.query.Limit.Count != 0)
	b.query.Limit = vLimit(v)''')
c('Select','Offset','v interface{}','D01,L01,G01','''	vRefuse(b.query.Offset.Start != 0)
	b.query.Offset = vOffset(v)''')
c('Select','Suffix','v interface{}','D01,G01,E01','''	vRefuse(b.query.Suffix.Suffix != "")
	b.query.Suffix = vSuffix(v)''')
c('Select','Prefix','v interface{}','D01,G01,E01','''	vRefuse(b.query.Prefix.Prefix != "")
	b.query.Prefix = vPrefix(v)''')
c('Insert','Into','v interface{}','D01,G01,E01','''	vRefuse(b.query.Into.Table.Name != "")
	b.query.Into = vInto(v)''')
c('Insert','Columns','vs ...interface{}','D01,G01,E01','''	if len(vs) == 0 {
		return b
	}
	vRefuse(len(b.query.Columns) > 0)
	b.query.Columns = vColumns(vs)''')
c('Insert','Values','vs ...interface{}','D01,V02,V03,S01,G01','''	vRefuse(vHasValues(b.query.Values))
	b.query.Values = stmt.Values{Values: stmt.VInsertRows(vs)}''')
c('Insert','Set','vs ...interface{}','D01,V01,V02,V03,S01,G01','''	vRefuse(len(b.query.Columns) > 0)
	vRefuse(vHasValues(b.query.Values))
	cs, es := stmt.VPairValues(vSet(vs).Pairs)
	b.query.Columns = cs
	b.query.Values = stmt.Values{Values: stmt.VInsertRows([]interface{}{es})}''')
c('Insert','OnConflict','vs ...interface{}','D01,G01,E01','''	vRefuse(b.query.OnConflict.Action != nil && !stmt.VEmp(b.query.OnConflict.Action))
	cs := b.query.OnConflict.Target.Columns
	for _, v := range vs {
		switch t := v.(type) {
		case string:
			cs = append(cs[:len(cs):len(cs)], vColumn(t))
		case stmt.Column:
			cs = append(cs[:len(cs):len(cs)], vColumn(t))
		case stmt.ConflictNoAction:
			b.query.OnConflict = stmt.OnConflict{Target: stmt.ConflictTarget{Columns: cs}, Action: t}
			return b
		case stmt.ConflictUpdateAction:
			if len(cs) == 0 || stmt.VEmp(t) {
				panic("incomplete update")
			}
			b.query.OnConflict = stmt.OnConflict{Target: stmt.ConflictTarget{Columns: cs}, Action: t}
			return b
		default:
			panic("unsupported argument")
		}
	}
	if len(vs) >= 0 {
		panic("no action")
	}''')
c('Update','Only','','G01','	b.query.Only = true')
c('Update','Set','vs ...interface{}','V01,V03,E01,G01,S01','''	if len(vs) == 0 {
		panic("no argument")
	}
	b.query.Set = vMergeSet(b.query.Set, vs)''')
c('Update','Using','vs ...interface{}','V01,V03,E01,G01,S01','''	if b.query.Set.Pairs.Mode != stmt.PairArrayMode || len(vs) == 0 {
		panic("no columns or no argument")
	}
	p := stmt.VPairClone(b.query.Set.Pairs)
	for _, v := range vs {
		p = stmt.VPairUse(p, stmt.VExpr(v))
	}
	b.query.Set.Pairs = p''')
c('Delete','Using','vs ...interface{}','D01,G01,E01','''	vRefuse(len(b.query.Using.Tables) > 0)
	b.query.Using = stmt.Using{Tables: vTables(vs)}''')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'builder', 'builders.go')
open(p, 'w').write(''.join(out))
