package stmt

import "sort"

// vSortColumns sorts by name, then alias.
func vSortColumns(cs []Column) []Column {
	r := append([]Column{}, cs...)
	sort.Slice(r, func(i, j int) bool {
		if r[i].Name != r[j].Name {
			return r[i].Name < r[j].Name
		}
		return r[i].Alias < r[j].Alias
	})
	return r
}

// vPairValues are the columns and expressions of a container, in the order in which they are written.
//
//@ contract stmt.PairContainer.Values props=V01,I02
func vPairValues(s PairContainer) ([]Column, []Expression) {
	if s.Mode != PairAssociativeMode {
		return s.Columns, s.Expressions
	}
	cs := vSortColumns(s.Columns)
	es := []Expression{}
	for _, c := range cs {
		e, ok := s.Map[c]
		if !ok {
			panic("column without value")
		}
		es = append(es, e)
	}
	return cs, es
}
