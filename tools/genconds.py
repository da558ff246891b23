#!/usr/bin/env python3
"""Writes contracts/stmt/conds.go: the contracts of the comparison methods, from a table."""
OPS = {  # method: SQL operator, as the properties state it
 "Contains": "@>", "IsContainedBy": "<@", "Overlap": "&&", "Equal": "=", "NotEqual": "!=", "Is": "IS",
 "IsNot": "IS NOT", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "LessThan": "<", "LessThanOrEqual": "<=",
 "Like": "LIKE", "NotLike": "NOT LIKE", "ILike": "ILIKE", "NotILike": "NOT ILIKE",
 "IsDistinctFrom": "IS DISTINCT FROM", "IsNotDistinctFrom": "IS NOT DISTINCT FROM",
}
HAS = {
 "Identifier": list(OPS),
 "Value": ["Overlap", "Equal", "NotEqual", "Contains", "IsContainedBy"],
 "Call": ["Equal", "GreaterThan", "LessThan", "Like", "ILike", "Overlap"],
}
out = ["package stmt", "", 'import "github.com/ulule/loukoum/v3/types"', "",
"// Written by tools/genconds.py.", "",
"func vCmp(left Expression, op string, right interface{}) InfixExpression {",
"\treturn InfixExpression{Left: left, Operator: ComparisonOperator{types.ComparisonOperator(op)}, Right: vWrap(vExpr(right))}",
"}", "",
"func vLogic(left Expression, op string, right Expression) InfixExpression {",
"\treturn InfixExpression{Left: left, Operator: LogicalOperator{types.LogicalOperator(op)}, Right: vWrap(right)}",
"}", "",
"func vInList(left Expression, op string, values []interface{}) In {",
"\treturn In{Expression: left, Operator: ComparisonOperator{types.ComparisonOperator(op)}, Value: vArrayOf(values)}",
"}", ""]
for t, ms in HAS.items():
    for m in ms:
        out += [f"//@ contract stmt.{t}.{m} props=C02,C03,S01,V03",
                f"func c{t}{m}(s {t}, v interface{{}}) InfixExpression {{",
                f"\treturn vCmp(s, \"{OPS[m]}\", v)", "}", ""]
for t, m, op in [("Identifier", "In", "IN"), ("Identifier", "NotIn", "NOT IN"), ("Call", "In", "IN")]:
    out += [f"//@ contract stmt.{t}.{m} props=C02,C03,S01,V02",
            f"func c{t}{m}(s {t}, vs ...interface{{}}) In {{", f"\treturn vInList(s, \"{op}\", vs)", "}", ""]
for m, op in [("Between", "BETWEEN"), ("NotBetween", "NOT BETWEEN")]:
    out += [f"//@ contract stmt.Identifier.{m} props=C02,C03,S01,V03",
            f"func cIdentifier{m}(s Identifier, from, to interface{{}}) Between {{",
            f"\treturn Between{{Identifier: s, Operator: ComparisonOperator{{types.ComparisonOperator(\"{op}\")}}, From: vWrap(vExpr(from)),",
            "\t\tAnd: LogicalOperator{types.LogicalOperator(\"AND\")}, To: vWrap(vExpr(to))}", "}", ""]
    out += [f"//@ contract stmt.New{m} props=C02",
            f"func cNew{m}(s Identifier, from, to Expression) Between {{",
            f"\treturn Between{{Identifier: s, Operator: ComparisonOperator{{types.ComparisonOperator(\"{op}\")}}, From: from,",
            "\t\tAnd: LogicalOperator{types.LogicalOperator(\"AND\")}, To: to}", "}", ""]
out += ["//@ contract stmt.Identifier.IsNull props=C02", "func cIdentifierIsNull(s Identifier, yes bool) InfixExpression {",
        "\tif yes {", "\t\treturn vCmp(s, \"IS\", nil)", "\t}", "\treturn vCmp(s, \"IS NOT\", nil)", "}", ""]
for t in ["In", "InfixExpression"]:
    for m, op in [("And", "AND"), ("Or", "OR")]:
        out += [f"//@ contract stmt.{t}.{m} props=C01,C02,C03", f"func c{t}{m}(s {t}, v Expression) InfixExpression {{",
                f"\treturn vLogic(s, \"{op}\", v)", "}", ""]
for t in ["OnClause", "InfixOnExpression"]:
    for m, op in [("And", "AND"), ("Or", "OR")]:
        out += [f"//@ contract stmt.{t}.{m} props=C01,C02,J02", f"func c{t}{m}(s {t}, v OnExpression) OnExpression {{",
                f"\treturn InfixOnExpression{{Left: s, Operator: LogicalOperator{{types.LogicalOperator(\"{op}\")}}, Right: v}}", "}", ""]
for t in ["Where", "Having"]:
    for m, op in [("And", "AND"), ("Or", "OR")]:
        out += [f"//@ contract stmt.{t}.{m} props=C01,C02,C03", f"func c{t}{m}(s {t}, v Expression) {t} {{",
                "\tif s.Condition == nil || vEmp(s.Condition) || v == nil || vEmp(v) {", "\t\tpanic(\"undefined condition\")", "\t}",
                f"\ts.Condition = vLogic(s.Condition, \"{op}\", v)", "\treturn s", "}", ""]
    out += [f"//@ contract stmt.New{t} props=C01,C02,C03", f"func cNew{t}(v Expression) {t} {{",
            "\tif v == nil || vEmp(v) {", "\t\tpanic(\"undefined condition\")", "\t}", f"\treturn {t}{{Condition: vWrap(v)}}", "}", ""]
for t, op in [("And", "AND"), ("Or", "OR")]:
    out += [f"//@ contract stmt.New{t}Operator props=C02", f"func cNew{t}Operator() LogicalOperator {{",
            f"\treturn LogicalOperator{{types.LogicalOperator(\"{op}\")}}", "}", ""]
for t, op in [("In", "IN"), ("NotIn", "NOT IN")]:
    out += [f"//@ contract stmt.New{t} props=C02,V02", f"func cNew{t}(e, v Expression) In {{",
            f"\treturn In{{Expression: e, Operator: ComparisonOperator{{types.ComparisonOperator(\"{op}\")}}, Value: v}}", "}", ""]
open("/verif/contracts/stmt/conds.go", "w").write("\n".join(out))
