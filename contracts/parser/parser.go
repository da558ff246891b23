package parser

import (
	"github.com/pkg/errors"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/types"
)

// cMustParseJoin is the join that ParseJoin reports.
//
//@ contract parser.MustParseJoin props=J01,J02,C01 says=loukoum:
func cMustParseJoin(s string) stmt.Join {
	j, err := ParseJoin(s)
	if err != nil {
		panic("invalid join")
	}
	return j
}

type vParsed struct {
	join stmt.Join
	err  error
}

func vBad(s string) vParsed {
	return vParsed{err: errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", s)}
}

func vOn(it lexer.Iteratee, l, r int) stmt.OnClause {
	return stmt.NewOnClause(stmt.NewColumn(lexer.VValue(it, l)), stmt.NewColumn(lexer.VValue(it, r)))
}

// vParse is what the tokens from the current one on make of a join. Whatever is not part of a join ends it.
func vParse(s string, it lexer.Iteratee, join stmt.Join) vParsed {
	switch lexer.VType(it, 0) {
	case token.Join, token.On, token.LParen, token.RParen:
		return vParse(s, lexer.VSkip(it, 1), join)
	case token.Inner, token.Left, token.Right:
		if lexer.VType(it, 1) == token.Join {
			switch lexer.VType(it, 0) {
			case token.Inner:
				join.Type = types.JoinType("INNER JOIN")
			case token.Left:
				join.Type = types.JoinType("LEFT JOIN")
			default:
				join.Type = types.JoinType("RIGHT JOIN")
			}
			return vParse(s, lexer.VSkip(it, 2), join)
		}
	case token.Literal:
		switch lexer.VType(it, 1) {
		case token.On:
			join.Table = stmt.NewTable(lexer.VValue(it, 0))
			return vParse(s, lexer.VSkip(it, 2), join)
		case token.Equals:
			if join.Condition != nil || lexer.VType(it, 2) != token.Literal {
				return vBad(s)
			}
			join.Condition = vOn(it, 0, 2)
			return vMore(s, lexer.VSkip(it, 3), join)
		}
	case token.And, token.Or:
		return vBad(s)
	}
	return vParsed{join: join}
}

// vMore: a condition may be followed by others, which are combined from left to right.
func vMore(s string, it lexer.Iteratee, join stmt.Join) vParsed {
	t := lexer.VType(it, 0)
	if t != token.And && t != token.Or {
		return vParse(s, it, join)
	}
	if lexer.VType(it, 1) != token.Literal || lexer.VType(it, 2) != token.Equals || lexer.VType(it, 3) != token.Literal {
		return vBad(s)
	}
	op := types.LogicalOperator("AND")
	if t == token.Or {
		op = types.LogicalOperator("OR")
	}
	join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(op), vOn(it, 1, 3))
	return vMore(s, lexer.VSkip(it, 4), join)
}

// vTokens are the tokens of a text.
//
//@ contract parser.ParseJoin props=J01,J02,C01 steps=vParse,vMore
func cParseJoin(s string) (stmt.Join, error) {
	p := vParse(s, lexer.VIteratee(lexer.VTokens([]rune(s), 2)), stmt.Join{Type: types.JoinType("INNER JOIN")})
	return p.join, p.err
}
