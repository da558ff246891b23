package stmt

import (
	"fmt"
	"reflect"

	"github.com/ulule/loukoum/v3/types"
	"github.com/ulule/loukoum/v3/vreplay"
	"github.com/ulule/loukoum/v3/vspec"
)

// ZZForeign is a statement of a caller.
type ZZForeign struct {
	A, B string
	V    []interface{}
	None bool
}

func (f ZZForeign) Write(ctx types.Context) {
	ctx.Write(f.A)
	for _, v := range f.V {
		ctx.Bind(v)
		ctx.Write(f.B)
	}
}

func (f ZZForeign) IsEmpty() bool { return f.None }

func zzTry(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("%T: %v", e, e)
		}
	}()
	f()
	return ""
}

func init() {
	vreplay.Hole = vspec.Hole
	vreplay.WriterObs = func(s interface{}, write reflect.Value) vreplay.Obs {
		w := func(c types.Context) { write.Call([]reflect.Value{reflect.ValueOf(s), reflect.ValueOf(&c).Elem()}) }
		var o vreplay.Obs
		rec := &vrec{}
		o.Panic = zzTry(func() { w(rec) })
		if o.Panic != "" {
			return o
		}
		o.Text, o.Vals = rec.o.Text, rec.o.Vals
		std := &types.StdContext{}
		if o.Panic = zzTry(func() { w(std) }); o.Panic != "" {
			return o
		}
		o.Std, o.StdVals = std.Query(), std.Values()
		named := &types.NamedContext{}
		if o.Panic = zzTry(func() { w(named) }); o.Panic != "" {
			return o
		}
		o.Named, o.NamedVals = named.Query(), named.Values()
		raw := &types.RawContext{}
		if zzTry(func() { w(raw) }) != "" {
			o.RawPanic = true
		} else {
			o.Raw = raw.Query()
		}
		rec2 := &vrec{}
		if p := zzTry(func() { w(rec2) }); p != "" {
			o.Again = p
		} else if rec2.o.Text != rec.o.Text || len(rec2.o.Vals) != len(rec.o.Vals) {
			o.Again = rec2.o.Text
		}
		return o
	}
	vreplay.SpecObs = func(out reflect.Value) vreplay.Obs {
		p := out.Interface().(vspec.Out)
		o := vreplay.Obs{Text: p.Text, Vals: p.Vals, Std: vspec.Std(p.Text), StdVals: p.Vals, Named: vspec.NamedText(p.Text), NamedVals: vspec.NamedVals(p.Vals)}
		if zzTry(func() { o.Raw = types.Inline(p.Text, p.Vals) }) != "" {
			o.RawPanic, o.Raw = true, ""
		}
		return o
	}
}
