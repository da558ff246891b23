#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
W="stmt/*.go Write methods"
CTX="types/context.go"
p("B01","Positional placeholders line up with the returned arguments",
 "For every query, Query() returns a text whose library-generated placeholders are $1..$n, each exactly once and in ascending order from left to right, together with exactly n arguments. The i-th argument is the very value (unchanged in type and content) the caller supplied for the place where $i stands.",
 ["inputs","programs"],"every query that can be built (any statement kind, nesting, clause combination) and any bound values",
 "Tests compare a few fixed texts and argument lists; numbering must hold for any number of values at any nesting depth and position.",
 ["types/context.go","stmt/expression.go","builder/*.go"],
 [("StdContext.Bind numbers from the number of values bound so far",CTX),("statement writers emit values only through Context.Bind",W)],
 ["Query() of the four builders"])
p("B02","Named placeholders line up with the returned argument map",
 "For every query, NamedQuery() returns a text whose library-generated placeholders are :arg_1..:arg_n, each exactly once and in ascending order from left to right, together with a map whose keys are exactly arg_1..arg_n. The entry arg_i is the very value the caller supplied for the place where :arg_i stands.",
 ["inputs","programs"],"every query that can be built and any bound values, including more than nine of them and repeated equal values",
 "Tests check a handful of queries with one to five values; a collision or a shared name shows only for particular counts or values.",
 ["types/context.go","stmt/expression.go","builder/*.go"],
 [("NamedContext.Bind names from the size of the value map",CTX)],["NamedQuery() of the four builders"])
p("B03","The three renderings are the same statement",
 "For every query, String(), NamedQuery() and Query() describe the same statement: the three texts are identical except at the places of bound values, where Query() has $i, NamedQuery() has :arg_i and String() has the formatted literal of the same value. Either all three succeed or all three panic because of the statement (String() may in addition panic when a value cannot be formatted).",
 ["inputs","programs"],"every query that can be built",
 "Tests compare the renderings for sample queries only; a writer that looks at the context or a builder that renders something else for one method goes unnoticed elsewhere.",
 ["builder/delete.go","builder/insert.go","builder/select.go","builder/update.go","types/context.go"],
 [("one Write per statement, parameterised only by the Context","stmt/*.go"),("the contexts' Write and Bind",CTX)],["String(), NamedQuery(), Query()"])
p("S01","Values never become part of the SQL text",
 "Every value handed to a condition (=, <, LIKE, BETWEEN, IN, IS, ...), to Insert.Values/Set, to Update.Set/Using or to DoUpdate is emitted by Query() and NamedQuery() only as a bound argument: the text depends only on whether each value is nil (written NULL) and, for a list, on its length. Only text the caller explicitly marked as SQL (Raw, sub-queries, column expressions) is copied into the statement.",
 ["inputs","programs"],"all values of all supported types in every value position",
 "Tests use a few harmless strings and numbers; injection safety is a statement about every string in every position.",
 ["stmt/expression.go","stmt/in.go","stmt/between.go","stmt/infix.go","builder/builder.go"],
 [("NewExpression turns plain Go values into Value, whose Write binds","stmt/expression.go")],["Query(), NamedQuery()"])
p("S02","Identifiers cannot break out of their quotes",
 "Every table name, column name, alias of a table or column, and condition identifier given as a string is written as dot-separated parts, each part enclosed in double quotes with every inner double quote doubled and nothing else changed, so that SQL reads back exactly the given parts; a part that is a lone asterisk is written bare. No identifier text can therefore end the quoted identifier it is in. (Order expressions, arguments and aliases of aggregates, names of WITH queries and of functions, and Raw are SQL, written as given.)",
 ["inputs"],"all strings used as identifiers, in every place an identifier can be given",
 "Tests use plain lower-case names; quotes, backslashes, control characters and non-ASCII text are not reached.",
 ["stmt/stmt.go","stmt/column.go","stmt/table.go","stmt/expression.go","stmt/on.go"],
 [("quote","stmt/stmt.go")],["text of any rendering"])
p("S03","A comment cannot alter the statement",
 "Adding a comment to a query only appends '; -- ' and a single-line comment after the complete statement: the text before it and the arguments are what they would be without the comment, and no comment text can start a new line. An empty comment adds nothing, and the comment of a query used as a sub-query is not rendered inside the outer statement.",
 ["inputs"],"all comment strings on all four statement kinds, nested or not",
 "Tests use one-line comments on top-level queries.",
 ["stmt/comment.go","stmt/select.go","stmt/insert.go","stmt/update.go","stmt/delete.go","stmt/expression.go"],
 [("Comment.Write","stmt/comment.go"),("NewExpression drops the comment of a nested select","stmt/expression.go")],["text of any rendering"])
p("S04","String() shows every value as a readable literal",
 "In the debugging rendering String(), every bound string of valid UTF-8 is a single-quoted literal in which quote, backslash, newline, carriage return and tab are backslash-escaped and everything else is verbatim, so it decodes back to the string; numbers and booleans are their exact decimal or true/false text, byte strings decode('<hex>', 'hex'), times a quoted UTC timestamp, and nil, as well as a nil pointer to a Valuer, NULL. A Valuer is shown as the value it yields.",
 ["inputs"],"all values of the supported types",
 "Tests format a few plain strings and numbers.",
 ["format/format.go","types/context.go"],[("format.Value and its helpers","format/format.go")],["String()"])
p("I01","Deriving a query never changes another one",
 "Builders are values: calling any builder or statement method on a query, or rendering it, never changes any other query obtained earlier or later from the same base, nor any slice or map the caller passed in. Two queries derived from a common base render as if each had been built alone.",
 ["histories","inputs"],"all sequences of builder calls that share a prefix, all slice capacities and maps",
 "Every test builds each query once, in one chain; sharing shows only when a base is reused and a backing array has spare room.",
 ["builder/select.go","builder/update.go","builder/insert.go","builder/builder.go","stmt/set.go"],
 [("value receivers; appends on clipped slices; copied pair containers","builder/*.go, stmt/set.go")],["any rendering of the base and of every derived query"])
p("I02","Rendering is pure, repeatable and order-independent",
 "Rendering a query has no side effect: repeating it, interleaving it with renderings of other queries or running it from several goroutines gives the same text and arguments every time. The result does not depend on the iteration order of any Go map given by the caller; a map whose keys give one column several values, for which it would, is refused.",
 ["histories","schedules","inputs"],"all queries, any number and interleaving of renderings, all map iteration orders",
 "Tests render each query once per method, in one goroutine, and cannot control map iteration order.",
 ["stmt/*.go","types/context.go","builder/builder.go"],
 [("writers write nothing but the context; columns are sorted by a strict total order before writing","stmt/set.go")],["any rendering"])
p("C01","A condition given is a condition rendered",
 "A condition passed to Where, And, Or, Having, a join or an expression combinator is never silently dropped: either the call (or rendering) panics, as it must for a nil or undefined condition, or the rendered statement contains it. In particular a DELETE or UPDATE for which a condition was given never renders without it.",
 ["inputs","histories"],"all conditions including nil and undefined ones, in any sequence of Where/And/Or/Having calls",
 "Tests pass well-formed conditions and check a couple of nil cases of Select only.",
 ["stmt/where.go","stmt/having.go","stmt/infix.go","stmt/in.go","stmt/between.go","builder/*.go"],
 [("NewWhere/And/Or refuse undefined conditions","stmt/where.go")],["text of any rendering, panics"])
p("C02","Operators and grouping mean what was written",
 "Each condition method renders its own operator between its own operands in the given order, and every comparison, IN, BETWEEN and AND/OR combination is enclosed in its own parentheses, so that the nesting of calls determines the nesting in SQL regardless of operator precedence. Successive Where/And/Or calls associate to the left.",
 ["inputs","programs"],"all condition trees of any depth over all operators",
 "Tests cover each operator once or twice at small depth.",
 ["stmt/expression.go","stmt/infix.go","stmt/in.go","stmt/between.go","stmt/operator.go","stmt/on.go","types/operator.go","loukoum.go"],
 [("InfixExpression.Write and friends","stmt/infix.go")],["text of any rendering"])
p("C03","Nested selects are always parenthesised",
 "Whenever a SELECT (a builder or a statement) is used as an operand or value - in a comparison of any kind, IN, BETWEEN, EXISTS, a logical combination, WITH, or as an assigned value - it is rendered inside exactly one pair of parentheses of its own. Its own clauses and values appear in place, unchanged.",
 ["inputs","programs"],"all positions that accept an expression and all sub-queries",
 "Tests nest sub-queries in =, IN, EXISTS and SET only.",
 ["stmt/expression.go","stmt/subquery.go","stmt/with.go","stmt/in.go","builder/builder.go"],
 [("NewWrapper","stmt/expression.go")],["text of any rendering"])
p("G01","Each clause appears once, complete and in SQL order",
 "A rendered statement consists of exactly the clauses that were set on it, each once, in the order SQL requires for that statement kind, each listing exactly its elements in the order given (with separators only between them), and nothing else. Clauses that were not set leave no trace.",
 ["inputs","programs"],"all subsets of clauses with any number of elements on the four statement kinds",
 "There are thousands of clause combinations; tests sample a few dozen.",
 ["stmt/select.go","stmt/insert.go","stmt/update.go","stmt/delete.go","stmt/*.go","builder/*.go"],
 [("statement Write methods",W),("builder methods store each clause","builder/*.go")],["text of any rendering"])
p("V01","SET pairs: last write wins, columns and values stay aligned",
 "For key/value pairs given to Update.Set, Insert.Set or DoUpdate over any number of calls and argument forms, each distinct column is rendered exactly once, sorted by column name (then alias), with the value last given for it; a single map that gives several values for one column is refused. With the column-list form columns and expressions keep the order given; mixing the two forms is refused.",
 ["inputs","histories"],"all sequences of Set calls and all mixes of maps, pairs and columns ",
 "Tests use up to four columns; sorting and alignment of many columns, aliases and repeated keys are not explored.",
 ["stmt/set.go","builder/builder.go","builder/insert.go","builder/update.go"],
 [("PairContainer","stmt/set.go"),("MergeSet","builder/builder.go")],["text and arguments of any rendering"])
p("V02","Inserted rows and IN lists keep every element in order",
 "Insert.Values renders one parenthesised row per given row and IN renders one list, with exactly one place per given element, in the order given; no element is dropped, duplicated, merged or reordered, whatever the element type and count, and a lone nil passed to Insert.Values is one NULL. Insert.Set renders its columns and one row with the value of each column at that column's position.",
 ["inputs"],"all list lengths and supported element types, including nil elements, empty lists and sub-queries",
 "Tests use lists of one to three elements of some of the supported types.",
 ["stmt/expression.go","builder/insert.go","stmt/values.go","stmt/in.go"],
 [("NewArrayExpression, NewArrayListExpression","stmt/expression.go")],["text and arguments of any rendering"])
p("V03","Values are converted exactly or refused",
 "A Go value used as an expression becomes exactly one bound argument equal to it - encoders and time pointers are replaced by what they encode or point to, nil and a nil time pointer become NULL, statements and expressions are kept as they are - and a value of an unsupported type is refused with a panic, never altered or dropped.",
 ["inputs"],"all Go values of all types, supported or not, including nil pointers",
 "Tests pass one value of each common type.",
 ["stmt/expression.go","stmt/encoder.go"],[("NewExpression","stmt/expression.go")],["arguments of any rendering, panics"])
p("L01","LIMIT and OFFSET are exactly the number given or refused",
 "Limit accepts a positive and Offset a non-negative integer of any Go integer type, as a decimal string or as a clause value, and the statement then contains exactly that decimal number; anything else - zero or negative limits, negative offsets, numbers beyond int64, non-numeric strings, other types - is refused with a panic.",
 ["inputs"],"all integers of all Go integer types, all strings, all other values",
 "Tests use small numbers of a few types.",
 ["builder/builder.go","builder/select.go","stmt/limit.go","stmt/offset.go"],
 [("ToInt64, ToLimit, ToOffset","builder/builder.go")],["text of any rendering, panics"])
p("D01","A single-use clause cannot be silently replaced",
 "Once a query has a FROM, USING, INTO, columns, VALUES, ON CONFLICT, RETURNING, DISTINCT ON, GROUP BY, HAVING, LIMIT, non-zero OFFSET, prefix or suffix clause, setting that clause again through the builder panics. Conversely setting a clause that is not yet set is never refused because of some other clause.",
 ["histories"],"all sequences of builder calls (Select.Columns, Comment and Delete/Update/Select Where excepted: they replace or extend by design)",
 "Tests check some of the guards in one order of calls.",
 ["builder/select.go","builder/insert.go","builder/update.go","builder/delete.go"],
 [("the IsEmpty guards of the builder methods","builder/*.go")],["panics of builder methods"])
p("E01","Incomplete or unsupported input is refused, not rendered",
 "A SELECT without columns, INSERT or DELETE without a table, UPDATE without a table or assignments, a comparison with an undefined operand, an empty column, table, join, prefix or suffix argument, ON CONFLICT without an action or with an empty update, and an argument of a type a method does not accept are all refused with a library panic. Input that is complete and supported is never refused.",
 ["inputs","programs"],"all inputs of the builder functions and all statements",
 "Tests check a few panics; absence of silent acceptance is a statement over all inputs.",
 ["builder/builder.go","builder/*.go","stmt/*.go"],
 [("IsEmpty checks in builder conversions and Write methods","builder/builder.go, stmt/*.go")],["panics of builder methods and renderings"])
p("J01","The join parser never crashes",
 "Parsing any string as a join clause terminates and either returns a join or the documented invalid-condition error; it never panics with a runtime error. The must-variant panics only with the library's own message when parsing reports an error.",
 ["inputs"],"all strings",
 "Tests parse about a dozen strings.",
 ["parser/join.go","lexer/lexer.go","lexer/iteratee.go"],[("ParseJoin checks a token's presence before consuming it","parser/join.go")],["ParseJoin, MustParseJoin, Select.Join"])
p("J02","A parsed join says what the text says",
 "For a text of the form '[[INNER|LEFT|RIGHT] JOIN] table ON a = b {AND|OR c = d}' in any letter case and spacing, with identifiers that are not keywords of the library and optional parentheses around the whole condition, the parsed join has exactly that kind (INNER by default), table and conditions, combined with the given connectives from left to right; nothing is dropped, swapped or invented.",
 ["inputs"],"all texts of that form with any identifiers and any number of conditions",
 "Tests parse texts with at most three conditions.",
 ["parser/join.go","token/token.go","lexer/lexer.go"],[("ParseJoin","parser/join.go")],["ParseJoin, Select.Join"])
p("X01","Tokenising loses nothing",
 "Tokenising any text of valid UTF-8 (up to a NUL character) yields tokens whose values, concatenated in order, are the text without its white space; each maximal run of letters, digits, underscores and dots is one token, typed as a keyword exactly when it equals one ignoring case, and every other character is a token of its own, typed by that character. Tokenising terminates.",
 ["inputs"],"all texts",
 "Tests tokenise a few short SQL fragments.",
 ["lexer/lexer.go","lexer/iteratee.go","token/token.go"],[("Lexer.Next","lexer/lexer.go")],["Lexer.Next, Lexer.Iterator, Iteratee"])
p("K01","Builder kind predicates tell the truth",
 "For every builder of the library, exactly the kind predicate of its own kind is true and the other three are false, whether it is given as a value or as a pointer.",
 ["inputs"],"all builders of the four kinds",
 "No test calls the predicates.",
 ["builder/builder.go"],[("IsSelectBuilder and friends","builder/builder.go")],["IsSelectBuilder, IsInsertBuilder, IsUpdateBuilder, IsDeleteBuilder"])
p("N01","Every rendered statement is accepted by PostgreSQL",
 "Every statement the library renders without panicking is grammatically valid PostgreSQL, provided that Raw fragments, prefixes, suffixes, order expressions and names used verbatim are.",
 ["inputs","programs"],"all statements",
 "Tests never run a database.",
 ["stmt/*.go"],[("statement Write methods",W)],["text of any rendering"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
