From cabab58a8e91e0c5a25edba863356cafc498fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 01/24] fix: double the quotes inside quoted identifiers
 instead of backslash-escaping them

SQL knows no backslash escapes in quoted identifiers: strconv.Quote let an
identifier containing a double quote end its own quoting.
---
 stmt/stmt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..b172a94 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -20,7 +19,7 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
 }
-- 
2.43.0


From a894782dc42f4a6b666e622456d390f95fb76e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 02/24] fix: do not quote a lone asterisk, SELECT "*" selects a
 column named *

---
 stmt/stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index b172a94..dcaeea6 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -19,6 +19,10 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
+		if split[i] == "*" {
+			quoted = append(quoted, split[i])
+			continue
+		}
 		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
-- 
2.43.0


From 8ffe84d7f8262da444f3e282a3979a80afe83521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 03/24] fix: keep a comment on one line so that it cannot
 continue as SQL

---
 stmt/comment.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..a31557d 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -24,7 +26,7 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	ctx.Write(strings.ReplaceAll(strings.ReplaceAll(comment.Comment, "\n", " "), "\r", " "))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From 86a4badb920c165225c0deda9c3eedb985719cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/24] fix: leave the comment of a sub-query out of the outer
 statement

A comment runs to the end of the line and swallowed the rest of the outer statement.
---
 stmt/expression.go | 7 ++++++-
 stmt/select.go     | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..9c85590 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -21,6 +21,8 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		return NewValue(nil)
 	}
 	switch value := arg.(type) {
+	case Select:
+		return value.withoutComment()
 	case Expression:
 		return value
 	case string, bool, int, int8, int16, int32, int64,
@@ -39,6 +41,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
+		if selekt, ok := expression.(Select); ok {
+			return selekt.withoutComment()
+		}
 		return expression
 	case Int64Encoder:
 		return NewValue(value.Int64())
@@ -550,7 +555,7 @@ func NewWrapper(arg Expression) Expression {
 	switch value := arg.(type) {
 	case Select:
 		return &Wrapper{
-			Value: value,
+			Value: value.withoutComment(),
 		}
 	case Exists:
 		return &Wrapper{
diff --git a/stmt/select.go b/stmt/select.go
index 0ec5519..6f360ef 100644
--- a/stmt/select.go
+++ b/stmt/select.go
@@ -139,6 +139,13 @@ func (selekt Select) IsEmpty() bool {
 	return len(selekt.Expressions) == 0
 }
 
+// withoutComment returns the statement as it has to be written inside another one,
+// where a comment would hide the remainder of the line.
+func (selekt Select) withoutComment() Select {
+	selekt.Comment = Comment{}
+	return selekt
+}
+
 func (Select) expression() {}
 
 // Ensure that Select is an Expression
-- 
2.43.0


From c0f2437c89725d58cbd64c3654949ae336ec0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 05/24] fix: parenthesise sub-selects used as operands of every
 operator and in lists

---
 loukoum.go         |  4 ++--
 stmt/expression.go | 27 +++++++++++++++------------
 stmt/having.go     |  6 +++---
 stmt/in.go         |  4 ++--
 stmt/set.go        |  6 +++++-
 5 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/loukoum.go b/loukoum.go
index 22ecacf..8422c66 100644
--- a/loukoum.go
+++ b/loukoum.go
@@ -92,12 +92,12 @@ func Limit(count int64) stmt.Limit {
 
 // And is a wrapper to create a new InfixExpression statement.
 func And(left stmt.Expression, right stmt.Expression) stmt.InfixExpression {
-	return stmt.NewInfixExpression(left, stmt.NewLogicalOperator(types.And), right)
+	return stmt.NewInfixExpression(stmt.NewWrapper(left), stmt.NewLogicalOperator(types.And), stmt.NewWrapper(right))
 }
 
 // Or is a wrapper to create a new InfixExpression statement.
 func Or(left stmt.Expression, right stmt.Expression) stmt.InfixExpression {
-	return stmt.NewInfixExpression(left, stmt.NewLogicalOperator(types.Or), right)
+	return stmt.NewInfixExpression(stmt.NewWrapper(left), stmt.NewLogicalOperator(types.Or), stmt.NewWrapper(right))
 }
 
 // Raw is a wrapper to create a new Raw expression.
diff --git a/stmt/expression.go b/stmt/expression.go
index 9c85590..a98bf4b 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -124,13 +124,13 @@ func (identifier Identifier) NotEqual(value interface{}) InfixExpression {
 // Is performs a "is" comparison.
 func (identifier Identifier) Is(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Is)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNot performs a "is not" comparison.
 func (identifier Identifier) IsNot(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNot)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNull performs a "is null" comparison.
@@ -178,47 +178,47 @@ func (identifier Identifier) NotIn(value ...interface{}) In {
 // Like performs a "like" condition.
 func (identifier Identifier) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotLike performs a "not like" condition.
 func (identifier Identifier) NotLike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotLike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (identifier Identifier) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // NotILike performs a "not ilike" condition.
 func (identifier Identifier) NotILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.NotILike)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Between performs a "between" condition.
 func (identifier Identifier) Between(from, to interface{}) Between {
-	return NewBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // NotBetween performs a "not between" condition.
 func (identifier Identifier) NotBetween(from, to interface{}) Between {
-	return NewNotBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewNotBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // IsDistinctFrom performs an "is distinct from" comparison.
 func (identifier Identifier) IsDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // IsNotDistinctFrom performs an "is not distinct from" comparison.
 func (identifier Identifier) IsNotDistinctFrom(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.IsNotDistinctFrom)
-	return NewInfixExpression(identifier, operator, NewExpression(value))
+	return NewInfixExpression(identifier, operator, NewWrapper(NewExpression(value)))
 }
 
 // Ensure that Identifier is an Expression
@@ -489,6 +489,9 @@ func (array Array) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		if len(array.Values) > 1 {
+			value = NewWrapper(value)
+		}
 		value.Write(ctx)
 	}
 }
@@ -641,13 +644,13 @@ func (call Call) LessThan(value interface{}) InfixExpression {
 // Like performs a "like" condition.
 func (call Call) Like(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.Like)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // ILike performs a "ilike" condition.
 func (call Call) ILike(value interface{}) InfixExpression {
 	operator := NewComparisonOperator(types.ILike)
-	return NewInfixExpression(call, operator, NewExpression(value))
+	return NewInfixExpression(call, operator, NewWrapper(NewExpression(value)))
 }
 
 // In adds a IN expression.
diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..2410cba 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -14,7 +14,7 @@ type Having struct {
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
 	return Having{
-		Condition: expression,
+		Condition: NewWrapper(expression),
 	}
 }
 
@@ -42,7 +42,7 @@ func (having Having) And(right Expression) Having {
 
 	left := having.Condition
 	operator := NewAndOperator()
-	having.Condition = NewInfixExpression(left, operator, right)
+	having.Condition = NewInfixExpression(left, operator, NewWrapper(right))
 	return having
 }
 
@@ -54,7 +54,7 @@ func (having Having) Or(right Expression) Having {
 
 	left := having.Condition
 	operator := NewOrOperator()
-	having.Condition = NewInfixExpression(left, operator, right)
+	having.Condition = NewInfixExpression(left, operator, NewWrapper(right))
 	return having
 }
 
diff --git a/stmt/in.go b/stmt/in.go
index ad3b1c1..5768eb5 100644
--- a/stmt/in.go
+++ b/stmt/in.go
@@ -56,13 +56,13 @@ func (in In) IsEmpty() bool {
 // And creates a new InfixExpression using given Expression.
 func (in In) And(value Expression) InfixExpression {
 	operator := NewAndOperator()
-	return NewInfixExpression(in, operator, value)
+	return NewInfixExpression(in, operator, NewWrapper(value))
 }
 
 // Or creates a new InfixExpression using given Expression.
 func (in In) Or(value Expression) InfixExpression {
 	operator := NewOrOperator()
-	return NewInfixExpression(in, operator, value)
+	return NewInfixExpression(in, operator, NewWrapper(value))
 }
 
 // Ensure that In is an Expression
diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..e9461b4 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -195,7 +195,11 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
-		pairs.Expressions[i].Write(ctx)
+		expression := pairs.Expressions[i]
+		if len(pairs.Expressions) > 1 {
+			expression = NewWrapper(expression)
+		}
+		expression.Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From 0ff38043078c3d6ee3b4fb239d8f9c1fb9dd2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 06/24] fix: do not share appended clauses between queries
 derived from one base

Appending to the slice of a copied builder may write into spare capacity that
another query derived from the same base uses as well.
---
 builder/select.go | 10 +++++-----
 builder/update.go |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index 276e0c1..eb89d6a 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,7 +93,7 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -104,7 +104,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -123,7 +123,7 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	b.query.Joins = append(b.query.Joins[:len(b.query.Joins):len(b.query.Joins)], join)
 
 	return b
 }
@@ -135,7 +135,7 @@ func (b Select) With(args ...stmt.WithQuery) Select {
 		return b
 	}
 
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	b.query.With.Queries = append(b.query.With.Queries[:len(b.query.With.Queries):len(b.query.With.Queries)], args...)
 	return b
 }
 
@@ -197,7 +197,7 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders[:len(b.query.OrderBy.Orders):len(b.query.OrderBy.Orders)], orders...) // nolint: lll
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..a0b1373 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -58,7 +58,7 @@ func (b Update) With(args ...stmt.WithQuery) Update {
 		return b
 	}
 
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	b.query.With.Queries = append(b.query.With.Queries[:len(b.query.With.Queries):len(b.query.With.Queries)], args...)
 	return b
 }
 
-- 
2.43.0


From a488965b99ca1a3e8c1182543643fd68c568c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 07/24] fix: copy the pairs of a query before adding to them

Update.Set and Update.Using changed the map and slices shared with the query
they were called on and with every query derived from it.
---
 builder/builder.go |  1 +
 builder/update.go  |  1 +
 stmt/set.go        | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..6165cc7 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -322,6 +322,7 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 
 // MergeSet merges new pairs into existing ones (last write wins).
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	set.Pairs = set.Pairs.Clone()
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/update.go b/builder/update.go
index a0b1373..e682ce6 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
diff --git a/stmt/set.go b/stmt/set.go
index e9461b4..a12ca82 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,18 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy that shares no storage with current instance.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := NewPairContainer()
+	clone.Mode = pairs.Mode
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	clone.Columns = append(clone.Columns, pairs.Columns...)
+	clone.Expressions = append(clone.Expressions, pairs.Expressions...)
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From 552f81b24e463fe647993250b321760ab86aab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 08/24] fix: do not sort the columns of a statement in place
 while rendering it

---
 stmt/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stmt/set.go b/stmt/set.go
index a12ca82..68a6fce 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -140,6 +140,7 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
+	pairs.Columns = append([]Column{}, pairs.Columns...)
 	sort.Slice(pairs.Columns, func(i, j int) bool {
 		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
 			pairs.Columns[i].Alias < pairs.Columns[j].Alias
-- 
2.43.0


From 534fa3e18e260c2fc56bf0c889f8511669b246a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 09/24] fix: sort SET columns by a consistent order

Name < Name || Alias < Alias is not an ordering: the result depended on the
initial order, which depends on map iteration.
---
 stmt/set.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 68a6fce..bae2c29 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -142,8 +142,10 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 
 	pairs.Columns = append([]Column{}, pairs.Columns...)
 	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+		if pairs.Columns[i].Name == pairs.Columns[j].Name {
+			return pairs.Columns[i].Alias < pairs.Columns[j].Alias
+		}
+		return pairs.Columns[i].Name < pairs.Columns[j].Name
 	})
 
 	columns := make([]Column, 0, len(pairs.Columns))
-- 
2.43.0


From 3a8298e1dba78da52d78bfd5f9529fdc47ec4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 10/24] fix: refuse an ON CONFLICT update without pairs instead
 of dropping the clause

---
 builder/insert.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..74435d4 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -83,6 +83,8 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 		panic("loukoum: on conflict clause requires arguments")
 	}
 
+	columns := b.query.OnConflict.Target.Columns
+	b.query.OnConflict.Target.Columns = columns[:len(columns):len(columns)]
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
@@ -94,6 +96,9 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one pair")
+			}
 			b.query.OnConflict.Action = value
 			return b
 		default:
-- 
2.43.0


From caca8cc1ff690699820d9bb3ff5f69d884d7de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 11/24] fix: refuse undefined conditions instead of dropping
 the WHERE or HAVING clause

Delete("t").Where(nil), or one more And with an undefined condition, rendered
DELETE FROM "t".
---
 stmt/having.go | 7 +++++--
 stmt/where.go  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/stmt/having.go b/stmt/having.go
index 2410cba..355886c 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -13,6 +13,9 @@ type Having struct {
 
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: a having clause expects at least one condition")
+	}
 	return Having{
 		Condition: NewWrapper(expression),
 	}
@@ -36,7 +39,7 @@ func (having Having) IsEmpty() bool {
 
 // And appends given Expression using AND as logical operator.
 func (having Having) And(right Expression) Having {
-	if having.IsEmpty() {
+	if having.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -48,7 +51,7 @@ func (having Having) And(right Expression) Having {
 
 // Or appends given Expression using OR as logical operator.
 func (having Having) Or(right Expression) Having {
-	if having.IsEmpty() {
+	if having.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
diff --git a/stmt/where.go b/stmt/where.go
index 8757fe3..4af7e98 100644
--- a/stmt/where.go
+++ b/stmt/where.go
@@ -12,6 +12,9 @@ type Where struct {
 
 // NewWhere returns a new Where instance.
 func NewWhere(expression Expression) Where {
+	if expression == nil || expression.IsEmpty() {
+		panic("loukoum: a where clause expects at least one condition")
+	}
 	return Where{
 		Condition: NewWrapper(expression),
 	}
@@ -35,7 +38,7 @@ func (where Where) IsEmpty() bool {
 
 // And appends given Expression using AND as logical operator.
 func (where Where) And(right Expression) Where {
-	if where.IsEmpty() {
+	if where.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
 
@@ -47,7 +50,7 @@ func (where Where) And(right Expression) Where {
 
 // Or appends given Expression using OR as logical operator.
 func (where Where) Or(right Expression) Where {
-	if where.IsEmpty() {
+	if where.IsEmpty() || right == nil || right.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
 
-- 
2.43.0


From 551f3c47c3af4d455f887268ce67b68bd3e730fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 12/24] fix: guard suffix, prefix and distinct on by their own
 clause

---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index eb89d6a..d4b527e 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -223,7 +223,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -234,7 +234,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From b8de5685946830fbfa5b7f3a99c5b86cf2cbeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 13/24] fix: keep the tables of a FROM clause given as such and
 refuse undefined tables

---
 builder/builder.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 6165cc7..b1aa751 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -200,25 +200,29 @@ func ToTables(values []interface{}) []stmt.Table {
 
 // ToFrom takes an empty interfaces and returns a From instance.
 func ToFrom(args ...interface{}) stmt.From {
-	from := stmt.From{}
-
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
 	}
 
-	from = stmt.NewFrom(tables)
+	for i := range tables {
+		if tables[i] == nil || tables[i].IsEmpty() {
+			panic("loukoum: given table is undefined")
+		}
+	}
+
+	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
 	}
-- 
2.43.0


From 71c16672664f658859a424da5240af04818075e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 14/24] fix: refuse undefined columns given as a slice

---
 builder/builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index b1aa751..4de39ec 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -122,6 +122,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i] == nil || array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return array
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -135,6 +140,9 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
+				if array[i] == "" {
+					panic("loukoum: given column is undefined")
+				}
 				expressions = append(expressions, stmt.NewColumn(array[i]))
 			}
 			return expressions
-- 
2.43.0


From 48c2761c826fd9473767f21487ea4f69fbc8f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 15/24] fix: return an error when a join condition ends after
 AND or OR and a column

ParseJoin("a = b AND c") crashed with an index out of range.
---
 parser/join.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..6e8f2f4 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -89,6 +89,11 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 						e = it.Next()
 						left := stmt.NewColumn(e.Value)
 
+						if !it.HasNext() {
+							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+							return stmt.Join{}, err
+						}
+
 						// Check that we have a right condition
 						e = it.Next()
 						if e.Type != token.Equals || !it.Is(token.Literal) {
@@ -114,6 +119,11 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 						e = it.Next()
 						left := stmt.NewColumn(e.Value)
 
+						if !it.HasNext() {
+							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+							return stmt.Join{}, err
+						}
+
 						// Check that we have a right condition
 						e = it.Next()
 						if e.Type != token.Equals || !it.Is(token.Literal) {
-- 
2.43.0


From 29a841c15d1807c9a9f91692e97ec76243db66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 16/24] fix: return an error instead of dropping a join
 condition after a parenthesis

"(a = b) AND (c = d)" was parsed as a = b, "a = b c = d" as c = d.
---
 parser/join.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/join.go b/parser/join.go
index 6e8f2f4..c1fd0ca 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -63,6 +63,11 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 				// Left condition
 				left := stmt.NewColumn(e.Value)
 
+				if join.Condition != nil {
+					err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+					return stmt.Join{}, err
+				}
+
 				// Check that we have a right condition
 				e = it.Next()
 				if e.Type != token.Equals || !it.Is(token.Literal) {
@@ -144,6 +149,11 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 
 		case token.On, token.LParen, token.RParen:
 			continue
+
+		case token.And, token.Or:
+			// Do not drop a condition that is not part of the first one.
+			err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+			return stmt.Join{}, err
 		}
 
 		// Ignore invalid token and stop iterating.
-- 
2.43.0


From 14ee3f8da58f686a395ee51998d8f08383585628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 17/24] fix: accept uint as limit and offset like the other
 integer types

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 4de39ec..16b7627 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -313,6 +313,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 		return int64(cast), true
 	case int32:
 		return int64(cast), true
+	case uint:
+		if uint64(cast) <= math.MaxInt64 {
+			return int64(cast), true
+		}
 	case uint8:
 		return int64(cast), true
 	case uint16:
-- 
2.43.0


From 93179042c36ae3ef40ad5305b047dd683e91a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 18/24] fix: check limit and offset given as clause values like
 the others

---
 builder/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 16b7627..10e9e6a 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -375,6 +375,9 @@ func ToSet(args []interface{}) stmt.Set {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
+		if value.Count <= 0 {
+			panic("loukoum: limit must be a positive integer")
+		}
 		return value
 	default:
 		limit, ok := ToInt64(value)
@@ -392,6 +395,9 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
+		if value.Start < 0 {
+			panic("loukoum: offset must be a non-negative integer")
+		}
 		return value
 	default:
 		offset, ok := ToInt64(value)
-- 
2.43.0


From 68aa5cfcef0cebca40bad3d0ba478dd2d796a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 19/24] fix: treat a nil time pointer as NULL

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index a98bf4b..48cec36 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -34,6 +34,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From ebab92c9d5b10ac1c331a4bfbb2b2a3810e7ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 20/24] fix: recognise the builders given as values, as they
 always are

---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 10e9e6a..47f4d4e 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // ToColumn takes an empty interfaces and returns a Column instance.
-- 
2.43.0


From 2ef452d99e97eee3edd3e34c1ae576383e7e6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 21/24] fix: insert NULL for a row made of a single nil, VALUES
 () is not SQL

---
 stmt/expression.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 48cec36..4a27ca6 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -306,18 +306,27 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 	// We pass only one argument and it's a slice or an expression.
 	arraylist := toArrayList(values[0])
 	if len(arraylist.Values) == 0 {
-		arraylist.Values = []Expression{NewArrayExpression(values...)}
+		arraylist.Values = []Expression{newRow(values...)}
 
 	}
 	return arraylist
 }
 
+// newRow creates the expression of a row of values.
+func newRow(values ...interface{}) Expression {
+	// A row always has a value, even if there is only an undefined one.
+	if len(values) == 1 && values[0] == nil {
+		return Array{Values: []Expression{NewValue(nil)}}
+	}
+	return NewArrayExpression(values...)
+}
+
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	arraylist := ArrayList{}
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, newRow(values[i]...))
 		}
 	case [][]string:
 		for i := range values {
@@ -326,7 +335,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 				raws[j] = values[i][j]
 			}
 
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]int:
 		for i := range values {
@@ -334,7 +343,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]int64:
 		for i := range values {
@@ -342,7 +351,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]bool:
 		for i := range values {
@@ -350,7 +359,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]Expression:
 		for i := range values {
@@ -358,7 +367,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	}
 
-- 
2.43.0


From 7ef86751d2a38b4963d38a78d4b383d752d308ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 22/24] fix: treat a join without condition as undefined
 instead of crashing

---
 stmt/join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..e35fdc8 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -49,7 +49,7 @@ func (join Join) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (join Join) IsEmpty() bool {
-	return join.Type == "" || join.Table.IsEmpty() || join.Condition.IsEmpty()
+	return join.Type == "" || join.Table.IsEmpty() || join.Condition == nil || join.Condition.IsEmpty()
 }
 
 // Ensure that Join is a Statement
-- 
2.43.0


From 648b15977568dbb38c182d9a3d467482849bc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 23/24] fix: parenthesise a sub-select that is the only value
 of an inserted row

---
 stmt/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 4a27ca6..4324b02 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -318,7 +318,12 @@ func newRow(values ...interface{}) Expression {
 	if len(values) == 1 && values[0] == nil {
 		return Array{Values: []Expression{NewValue(nil)}}
 	}
-	return NewArrayExpression(values...)
+	row := NewArrayExpression(values...)
+	// A sub-select needs its own parenthesis besides those of the row.
+	if array, ok := row.(Array); ok && len(array.Values) == 1 {
+		return Array{Values: []Expression{NewWrapper(array.Values[0])}}
+	}
+	return row
 }
 
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
-- 
2.43.0


From 32a33ddf3f04c5e951f223bfc8b788cd329aa009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 24/24] fix: refuse a map that gives several values for one
 column

---
 builder/builder.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 47f4d4e..deb8f8b 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -363,12 +363,14 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 				set.Pairs.Set(columns[y])
 			}
 		case map[string]interface{}:
+			given := make(map[stmt.Column]bool, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				set.Pairs.Add(toGivenColumn(given, k), stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Map:
+			given := make(map[stmt.Column]bool, len(value))
 			for k, v := range value {
-				set.Pairs.Add(ToColumn(k), stmt.NewWrapper(stmt.NewExpression(v)))
+				set.Pairs.Add(toGivenColumn(given, k), stmt.NewWrapper(stmt.NewExpression(v)))
 			}
 		case types.Pair:
 			set.Pairs.Add(ToColumn(value.Key), stmt.NewWrapper(stmt.NewExpression(value.Value)))
@@ -379,6 +381,17 @@ func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
 	return set
 }
 
+// toGivenColumn returns the column of a map key. Since a map has no order, there is no last write to prefer
+// when several of its keys give the same column.
+func toGivenColumn(given map[stmt.Column]bool, key interface{}) stmt.Column {
+	column := ToColumn(key)
+	if given[column] {
+		panic("loukoum: given map has several values for a column")
+	}
+	given[column] = true
+	return column
+}
+
 // ToSet takes either a types.Map or slice of types.Pair and returns a stmt.Set instance.
 func ToSet(args []interface{}) stmt.Set {
 	set := stmt.NewSet()
-- 
2.43.0

