package token

import "strings"

// cLookup: a text is a keyword exactly when it equals one of these, ignoring case.
//
//@ contract token.Lookup props=J01,J02,X01
func cLookup(e string) Type {
	switch strings.ToUpper(e) {
	case "SELECT":
		return Type("SELECT")
	case "UPDATE":
		return Type("UPDATE")
	case "INSERT":
		return Type("INSERT")
	case "DELETE":
		return Type("DELETE")
	case "FROM":
		return Type("FROM")
	case "WHERE":
		return Type("WHERE")
	case "AND":
		return Type("AND")
	case "OR":
		return Type("OR")
	case "LIMIT":
		return Type("LIMIT")
	case "OFFSET":
		return Type("OFFSET")
	case "SET":
		return Type("SET")
	case "AS":
		return Type("AS")
	case "INNER":
		return Type("INNER")
	case "CROSS":
		return Type("CROSS")
	case "LEFT":
		return Type("LEFT")
	case "RIGHT":
		return Type("RIGHT")
	case "JOIN":
		return Type("JOIN")
	case "ON":
		return Type("ON")
	case "GROUP":
		return Type("GROUP")
	case "BY":
		return Type("BY")
	case "HAVING":
		return Type("HAVING")
	case "ORDER":
		return Type("ORDER")
	case "DISTINCT":
		return Type("DISTINCT")
	case "DISTINCT ON":
		return Type("DISTINCT ON")
	case "ONLY":
		return Type("ONLY")
	case "USING":
		return Type("USING")
	case "RETURNING":
		return Type("RETURNING")
	case "VALUES":
		return Type("VALUES")
	case "INTO":
		return Type("INTO")
	case "CONFLICT":
		return Type("CONFLICT")
	case "DO":
		return Type("DO")
	case "NOTHING":
		return Type("NOTHING")
	case "WITH":
		return Type("WITH")
	case "NOT":
		return Type("NOT")
	case "EXISTS":
		return Type("EXISTS")
	case "COUNT":
		return Type("COUNT")
	case "MAX":
		return Type("MAX")
	case "MIN":
		return Type("MIN")
	case "SUM":
		return Type("SUM")
	}
	return Type("Literal")
}

// cNew holds what it is given.
//
//@ contract token.New props=J01,J02,X01
func cNew(t Type, v string) Token { return Token{Type: t, Value: v} }
