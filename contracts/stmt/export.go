package stmt

import (
	"github.com/ulule/loukoum/v3/types"
	"github.com/ulule/loukoum/v3/vspec"
)

// What the contracts of the other packages use.

func VW(s Statement) vspec.Out                { return vW(s) }
func VEmp(s Statement) bool                   { return vEmp(s) }
func VExpr(v interface{}) Expression          { return vExpr(v) }
func VWrap(e Expression) Expression           { return vWrap(e) }
func VInsertRows(v []interface{}) Expression  { return vInsertRows(v) }
func VNewSet() Set                            { return vNewSet() }
func VSelect(s Select) vspec.Out              { return vSelect(s) }
func VInsert(s Insert) vspec.Out              { return vInsert(s) }
func VUpdate(s Update) vspec.Out              { return vUpdate(s) }
func VDelete(s Delete) vspec.Out              { return vDelete(s) }
func VPairAdd(p PairContainer, c Column, e Expression) PairContainer { return vPairAdd(p, c, e) }
func VPairSet(p PairContainer, c Column) PairContainer { return vPairSet(p, c) }
func VPairUse(p PairContainer, e Expression) PairContainer { return vPairUse(p, e) }
func VPairClone(p PairContainer) PairContainer { return vPairClone(p) }
func VPairValues(p PairContainer) ([]Column, []Expression) { return vPairValues(p) }

func VLogic(l Expression, op string, r Expression) InfixExpression { return vLogic(l, op, r) }

// VCond adds a condition to what is there.
func VCond(have Expression, op string, c Expression) Expression {
	if have == nil || vEmp(have) || c == nil || vEmp(c) {
		panic("undefined condition")
	}
	return vLogic(have, op, c)
}

// VFirstCond is a first condition.
func VFirstCond(c Expression) Expression {
	if c == nil || vEmp(c) {
		panic("undefined condition")
	}
	return vWrap(c)
}

func VInner() types.JoinType { return types.JoinType("INNER JOIN") }
