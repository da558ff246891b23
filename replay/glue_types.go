package types

import (
	"github.com/ulule/loukoum/v3/vreplay"
	"github.com/ulule/loukoum/v3/vspec"
)

// zzContexts drives the three contexts with the same pieces of text and values.
func zzContexts(pieces []string, vals []interface{}, more uint8) (string, []interface{}, string, map[string]interface{}, string) {
	vals = zzMore(vals, more)
	run := func(c Context) {
		for i, v := range vals {
			if i < len(pieces) {
				c.Write(pieces[i])
			}
			c.Bind(v)
		}
		for i := len(vals); i < len(pieces); i++ {
			c.Write(pieces[i])
		}
	}
	s, n, r := &StdContext{}, &NamedContext{}, &RawContext{}
	run(s)
	run(n)
	run(r)
	return s.Query(), s.Values(), n.Query(), n.Values(), r.Query()
}

func zzContextsSpec(pieces []string, vals []interface{}, more uint8) (string, []interface{}, string, map[string]interface{}, string) {
	vals = zzMore(vals, more)
	var o vspec.Out
	for i, v := range vals {
		if i < len(pieces) {
			o = o.T(pieces[i])
		}
		o = o.V(v)
	}
	for i := len(vals); i < len(pieces); i++ {
		o = o.T(pieces[i])
	}
	return vspec.Std(o.Text), o.Vals, vspec.NamedText(o.Text), vspec.NamedVals(o.Vals), Inline(o.Text, o.Vals)
}

// zzMore repeats the values when there are to be many.
func zzMore(vals []interface{}, more uint8) []interface{} {
	n := int(more)
	if n < 90 || len(vals) == 0 {
		return vals
	}
	if n == 255 {
		n = 1100
	}
	out := append([]interface{}{}, vals...)
	for len(out) < n {
		out = append(out, vals[len(out)%len(vals)])
	}
	return out
}

func init() {
	vreplay.Cases = append(vreplay.Cases, &vreplay.Case{Name: "types.contexts", Kind: "func", Code: zzContexts, Spec: zzContextsSpec})
}
