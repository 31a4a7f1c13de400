package checks

import (
	"fmt"
	"hash/maphash"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	"google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C07"] = c07 }

// printer takes the state of values apart, unexported parts included.
type printer struct {
	h    maphash.Hash
	seen map[[2]uintptr]bool
	n    int
	full bool // go into collections and registries as well
}

var fpSeed = maphash.MakeSeed()

func newPrinter(full bool) *printer {
	p := &printer{seen: map[[2]uintptr]bool{}, full: full}
	p.h.SetSeed(fpSeed)
	return p
}

func (p *printer) num(x uint64) {
	var b [8]byte
	for i := range b {
		b[i] = byte(x >> (8 * i))
	}
	p.h.Write(b[:])
}

// leaves that hold caches or locks rather than values, or that are allowed to
// grow: extension sets take up the functions that are used
func (p *printer) opaque(t reflect.Type) bool {
	pk := t.PkgPath()
	switch {
	case strings.HasPrefix(pk, "google.golang.org/protobuf/internal"), pk == "sync", pk == "sync/atomic", pk == "reflect":
		return true
	case p.full:
		return t.Name() == "set" && strings.HasSuffix(pk, "/extensions")
	case strings.HasSuffix(pk, "/extensions"):
		return t.Name() == "Collection" || t.Name() == "set"
	}
	return false
}

func (p *printer) see(v reflect.Value, whole bool) {
	p.n++
	switch v.Kind() {
	case reflect.Invalid, reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Uintptr:
	case reflect.Bool:
		if v.Bool() {
			p.num(1)
		} else {
			p.num(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		p.num(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		p.num(v.Uint())
	case reflect.Float32, reflect.Float64:
		p.num(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
	case reflect.String:
		p.num(uint64(v.Len()))
		p.h.WriteString(v.String())
	case reflect.Interface:
		if v.IsNil() {
			p.num(2)
			return
		}
		p.h.WriteString(v.Elem().Type().String())
		p.see(v.Elem(), false)
	case reflect.Pointer:
		if v.IsNil() {
			p.num(3)
			return
		}
		if p.opaque(v.Type().Elem()) {
			return
		}
		if v.Type().Implements(tMsg) {
			// only the content, not what protobuf keeps with it
			bs, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(proto.Message))
			p.num(uint64(len(bs)))
			p.h.Write(bs)
			if err != nil {
				p.h.WriteString(err.Error())
			}
			return
		}
		k := [2]uintptr{v.Pointer(), reflect.ValueOf(v.Type()).Pointer()}
		if p.seen[k] {
			return
		}
		p.seen[k] = true
		p.see(v.Elem(), false)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice {
			p.num(uint64(v.Len()))
			if whole { // what a caller sees of its slice includes the spare elements
				v = v.Slice(0, v.Cap())
			}
		}
		for i := 0; i < v.Len(); i++ {
			p.see(v.Index(i), false)
		}
	case reflect.Map:
		p.num(uint64(v.Len()))
		// in an order that does not depend on the iteration: what is seen
		// first is what counts
		type entry struct {
			h uint64
			v reflect.Value
		}
		var es []entry
		it := v.MapRange()
		for it.Next() {
			q := newPrinter(p.full)
			q.see(it.Key(), false)
			es = append(es, entry{q.h.Sum64(), it.Value()})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].h < es[j].h })
		for _, e := range es {
			p.num(e.h)
			p.see(e.v, false)
		}
	case reflect.Struct:
		if p.opaque(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			p.see(v.Field(i), false)
		}
	}
}

func fingerprint(v reflect.Value, full bool) uint64 {
	p := newPrinter(full)
	p.see(v, true)
	return p.h.Sum64()
}

// reader writes down what the reading methods and exported fields of a value
// say, to a limited depth.
type reader struct {
	b    strings.Builder
	left int
	on   map[any]bool
}

func (d *reader) see(v reflect.Value, depth int) {
	if !v.IsValid() || d.left <= 0 {
		return
	}
	d.left--
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			d.see(v.Elem(), depth)
			return
		}
	}
	if v.CanInterface() {
		if m, ok := v.Interface().(proto.Message); ok {
			bs, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			fmt.Fprintf(&d.b, "%x", bs)
			return
		}
	}
	t := v.Type()
	e := t
	if e.Kind() == reflect.Pointer {
		e = e.Elem()
	}
	lib := strings.HasPrefix(e.PkgPath(), libPath)
	if lib && v.CanInterface() {
		x := v.Interface()
		if t.Kind() == reflect.Pointer {
			if d.on[x] {
				d.b.WriteString("^")
				return
			}
			d.on[x] = true
			defer delete(d.on, x)
		}
		fmt.Fprintf(&d.b, "%v{", t)
		if s, ok := x.(fmt.Stringer); ok {
			vk.Try(func() { d.b.WriteString(s.String()) })
		}
		if depth > 0 {
			for i := 0; i < t.NumMethod(); i++ {
				m := t.Method(i)
				if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 || writes(m.Name) || m.Name == "String" {
					continue
				}
				fmt.Fprintf(&d.b, " %s:", m.Name)
				vk.Try(func() {
					for _, r := range v.Method(i).Call(nil) {
						d.see(r, depth-1)
					}
				})
			}
			if s := reflect.Indirect(v); s.Kind() == reflect.Struct {
				for i := 0; i < s.NumField(); i++ {
					if s.Type().Field(i).IsExported() {
						fmt.Fprintf(&d.b, " %s=", s.Type().Field(i).Name)
						d.see(s.Field(i), depth-1)
					}
				}
			}
		}
		d.b.WriteString("}")
		if k := reflect.Indirect(v).Kind(); k != reflect.Slice && k != reflect.Map {
			switch k {
			case reflect.Struct, reflect.Pointer, reflect.Interface:
			default:
				fmt.Fprintf(&d.b, "=%v", reflect.Indirect(v))
			}
			return
		}
		v = reflect.Indirect(v)
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		d.b.WriteString("[")
		for i := 0; i < v.Len() && i < 60; i++ {
			d.see(v.Index(i), depth)
			d.b.WriteString(",")
		}
		d.b.WriteString("]")
	case reflect.Map:
		var ls []string
		it := v.MapRange()
		for it.Next() {
			q := &reader{left: 50, on: d.on}
			q.see(it.Key(), depth-1)
			q.b.WriteString(":")
			q.see(it.Value(), depth-1)
			ls = append(ls, q.b.String())
		}
		sort.Strings(ls)
		fmt.Fprintf(&d.b, "map%v", ls)
	case reflect.Pointer:
		d.see(v.Elem(), depth)
	case reflect.Struct:
		if !lib {
			fmt.Fprintf(&d.b, "%v", e)
			return
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		fmt.Fprintf(&d.b, "%v", v)
	}
}

func reading(v reflect.Value) string { return readingTo(v, 1500) }

func readingTo(v reflect.Value, left int) string {
	d := &reader{left: left, on: map[any]bool{}}
	if v.Kind() == reflect.Slice { // with the spare elements
		fmt.Fprintf(&d.b, "%d of ", v.Len())
		v = v.Slice(0, v.Cap())
	}
	d.see(v, 4)
	return d.b.String()
}

// writes reports methods whose purpose is to change their receiver or argument.
func writes(name string) bool {
	for _, p := range []string{"Set", "Must", "Add", "UnmarshalYAML", "FromProto", "Load", "Evaluate", "Encode", "Bind", "Visit"} {
		if strings.HasPrefix(name, p) {
			return name != "Visit"
		}
	}
	return strings.HasSuffix(name, "Anchor")
}

// byValue are the structures that are passed by value.
var byValue = map[reflect.Type]bool{reflect.TypeOf(types.RecordType{}): true, reflect.TypeOf(types.NamedStruct{}): true}

type pooled struct {
	v    reflect.Value
	from string
	fp   uint64
	obs  string
}

// world is a set of values and the operations tried on them.
type world struct {
	t     *vk.T
	pool  []*pooled
	tools []reflect.Value // values that operations may change
	ops   int
	max   int
	hist  []string
	calls []matched
	// for use by several goroutines (C17)
	cold  bool                   // values are kept without looking at them
	fresh []func() reflect.Value // tools of which every goroutine needs its own
	out   *strings.Builder       // operations write down their results, and the world stays as it is
}

// matched is a function and arguments it takes.
type matched struct {
	v    extensions.FunctionVariant
	args []types.Type
	expr []types.FuncArg
	reg  *expr.ExtensionRegistry
}

func (w *world) add(v reflect.Value, from string) {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || !w.ours(t.Elem()) {
			return
		}
		for _, p := range w.pool {
			if p.v.Kind() == reflect.Pointer && p.v.Pointer() == v.Pointer() && p.v.Type() == t {
				return
			}
		}
	case reflect.Slice, reflect.Map:
		if v.Len() == 0 || v.IsNil() || !w.ours(t) && !w.ours(t.Elem()) && !(t.Elem().Kind() == reflect.Pointer && w.ours(t.Elem().Elem())) {
			return
		}
	case reflect.Struct:
		if !w.ours(t) {
			return
		}
		// methods of addressable values are needed as well
		n := reflect.New(t)
		n.Elem().Set(v)
		v = n
	default:
		if !w.ours(t) || t.NumMethod() == 0 {
			return
		}
	}
	if name := t.String(); strings.HasSuffix(name, "Registry") || strings.HasSuffix(name, "Builder") || strings.HasSuffix(name, "builder") || strings.HasSuffix(name, "extensions.set") || strings.HasSuffix(name, "extensions.Collection") {
		if strings.HasSuffix(name, "plan.AggregateRelBuilder") && v.Kind() == reflect.Pointer && t.NumMethod() > 0 {
			if len(w.tools) < 8 {
				w.tools = append(w.tools, v)
			} else {
				w.tools[len(w.tools)-1] = v
			}
		}
		return
	}
	p := &pooled{v: v, from: from}
	if w.cold {
		w.pool = append(w.pool, p)
		return
	}
	p.fp = fingerprint(v, false)
	p.obs = reading(v)
	if len(w.pool) < w.max {
		w.pool = append(w.pool, p)
	} else {
		w.pool[w.t.R.N(len(w.pool))] = p
	}
}

func (w *world) ours(t reflect.Type) bool {
	return strings.HasPrefix(t.PkgPath(), libPath) || strings.HasSuffix(t.PkgPath(), "/substraitpb")
}

// look compares every value with what it was.
func (w *world) look(what string) {
	for _, p := range w.pool {
		w.t.Count(1)
		fp := fingerprint(p.v, false)
		if fp == p.fp {
			continue
		}
		obs := reading(p.v)
		if obs != p.obs {
			i := 0
			for i < len(obs) && i < len(p.obs) && obs[i] == p.obs[i] {
				i++
			}
			at := max(0, i-80)
			w.t.Failf("changed:"+p.v.Type().String()+":"+strings.SplitN(what, "(", 2)[0], "%s changed a %v (from %s):\n  was ...%s\n  now ...%s\nhistory:\n  %s",
				what, p.v.Type(), p.from, trim(p.obs[at:], 300), trim(obs[at:], 300), strings.Join(w.hist, "\n  "))
		} else {
			w.t.C.AddExtra("unobservable_changes", 1)
			w.t.C.AddExtra("unobservable:"+p.v.Type().String(), 1)
		}
		p.fp, p.obs = fp, obs
	}
}

var (
	tMsg    = reflect.TypeOf((*proto.Message)(nil)).Elem()
	tBool   = reflect.TypeOf(true)
	tString = reflect.TypeOf("")
	tAny    = reflect.TypeOf((*any)(nil)).Elem()
	tSyms   = reflect.TypeOf(map[string]any(nil))
	tVisit  = reflect.TypeOf(expr.VisitFunc(nil))
	tRew    = reflect.TypeOf(plan.RewriteFunc(nil))
)

// arg makes an argument, mostly of what is there already.
func (w *world) arg(t reflect.Type, depth int) (reflect.Value, bool) {
	r := w.t.R
	switch t {
	case tVisit:
		k := r.N(3)
		return reflect.ValueOf(expr.VisitFunc(func(e expr.Expression) expr.Expression {
			if k == 0 {
				if n, ok := w.arg(reflect.TypeOf((*expr.Expression)(nil)).Elem(), 0); ok && r.P(1, 3) && !n.IsNil() {
					return n.Interface().(expr.Expression)
				}
			}
			return e
		})), true
	case tRew:
		k := r.N(3)
		return reflect.ValueOf(plan.RewriteFunc(func(e expr.Expression) (expr.Expression, error) {
			if k == 0 && e != nil {
				if n, ok := w.arg(reflect.TypeOf((*expr.Expression)(nil)).Elem(), 0); ok && r.P(1, 3) && !n.IsNil() {
					return n.Interface().(expr.Expression), nil
				}
			}
			return e, nil
		})), true
	case tSyms:
		return reflect.ValueOf(map[string]any{"P": int64(5), "S": int64(2), "L1": int64(3)}), true
	case tString:
		return reflect.ValueOf(vk.Pick(r, []string{"", "a", "b", "x", "add", "sum", "extension:io.substrait:functions_arithmetic"})), true
	}
	// something of the pool
	if k := t.Kind(); k != reflect.Bool && k != reflect.Slice || r.Bool() {
		off := r.N(len(w.pool) + 1)
		for i := range w.pool {
			p := w.pool[(i+off)%len(w.pool)]
			if t != tAny && p.v.Type().AssignableTo(t) {
				return p.v, true
			}
			if p.v.Kind() == reflect.Pointer && p.v.Type().Elem() == t && (w.out == nil || byValue[t]) {
				return p.v.Elem(), true
			}
		}
		for _, v := range w.tools {
			if t != tAny && v.Type().AssignableTo(t) {
				return v, true
			}
			if v.Kind() == reflect.Pointer && v.Type().Elem() == t {
				return v.Elem(), true
			}
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(r.Bool()).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return reflect.ValueOf(r.N(4)).Convert(t), true
	case reflect.String:
		return reflect.ValueOf("a").Convert(t), true
	case reflect.Float32, reflect.Float64:
		return reflect.ValueOf(1.5).Convert(t), true
	case reflect.Slice:
		if depth == 0 {
			return reflect.Zero(t), true
		}
		n := r.N(4)
		// spare room that is not empty: appending in place would show
		s := reflect.MakeSlice(t, n+2, n+2)
		for i := 0; i < n+2; i++ {
			x, ok := w.arg(t.Elem(), depth-1)
			if !ok {
				return reflect.Zero(t), n == 0
			}
			s.Index(i).Set(x)
		}
		return s.Slice(0, n), true
	case reflect.Interface:
		if t == tAny {
			return reflect.Zero(t), true
		}
		return reflect.Zero(t), r.P(1, 4)
	case reflect.Pointer:
		return reflect.Zero(t), r.P(1, 4)
	case reflect.Struct:
		if depth == 0 || !w.ours(t) && t.PkgPath() != "" {
			return reflect.Value{}, false
		}
		s := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			if x, ok := w.arg(t.Field(i).Type, depth-1); ok {
				s.Field(i).Set(x)
			}
		}
		return s, true
	}
	return reflect.Value{}, false
}

// call runs an operation and looks at every value there was before.
func (w *world) call(name string, f reflect.Value) {
	ft := f.Type()
	var args []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		a, ok := w.arg(ft.In(i), 2)
		if !ok {
			w.t.C.AddExtra("no_argument", 1)
			return
		}
		args = append(args, a)
	}
	type given struct {
		v  reflect.Value
		is []string
	}
	var gs []given
	for _, a := range args {
		switch a.Kind() {
		case reflect.Slice, reflect.Map:
			if !a.IsNil() && ft.NumIn() > 0 {
				gs = append(gs, given{a, contents(a)})
			}
		}
	}
	var res []reflect.Value
	panicked, _ := vk.Try(func() {
		if ft.IsVariadic() {
			res = f.CallSlice(args)
		} else {
			res = f.Call(args)
		}
	})
	w.ops++
	if w.out != nil {
		fmt.Fprintf(w.out, "%s%v %v:", name, argTypesOf(args), panicked)
		for _, x := range res {
			w.out.WriteString(readingTo(x, 500))
			w.out.WriteString("; ")
		}
		return
	}
	w.hist = append(w.hist, fmt.Sprintf("%s%v", name, argTypesOf(args)))
	if panicked != nil {
		w.t.C.AddExtra("panicking_operations", 1)
	}
	for i, g := range gs {
		w.t.Check(slices.Equal(contents(g.v), g.is), "argument:"+name, "%s wrote to its argument %d, a %v\nhistory:\n  %s", name, i, g.v.Type(), strings.Join(w.hist, "\n  "))
	}
	w.look(name)
	w.t.Obs("op", name, fmt.Sprint(panicked == nil))
	for _, x := range res {
		if x.IsValid() && x.Type().String() != "error" {
			w.add(x, name)
		}
	}
	for _, a := range args {
		if a.Kind() == reflect.Slice && w.t.R.P(1, 4) {
			w.add(a, "argument of "+name)
		}
	}
}

func argTypesOf(args []reflect.Value) (out []string) {
	for _, a := range args {
		out = append(out, a.Type().String())
	}
	return
}

// step picks an operation.
func (w *world) step() {
	r := w.t.R
	switch {
	case r.P(1, 3):
		w.directed()
	case r.P(1, 6):
		i := r.N(len(sharedFuncs))
		w.call(sharedFuncs[i].name, reflect.ValueOf(sharedFuncs[i].f))
	case r.P(1, 5) && len(w.tools) > 0:
		v := vk.Pick(r, w.tools)
		if v.Type().NumMethod() == 0 {
			return
		}
		m := v.Type().Method(r.N(v.Type().NumMethod()))
		if !strings.HasPrefix(m.Name, "Must") && m.Name != "Load" && m.Name != "SetSubqueryConverter" {
			w.call("("+v.Type().String()+")."+m.Name, v.Method(m.Index))
		}
	case len(w.pool) > 0:
		v := vk.Pick(r, w.pool).v
		t := v.Type()
		if t.NumMethod() == 0 {
			return
		}
		m := t.Method(r.N(t.NumMethod()))
		for i := 0; i < 3 && m.Type.NumIn() == 1; i++ { // rather those that take something
			m = t.Method(r.N(t.NumMethod()))
		}
		if writes(m.Name) || m.Type.NumOut() == 0 || strings.HasSuffix(elemOf(t).PkgPath(), "/substraitpb") {
			return
		}
		w.call("("+t.String()+")."+m.Name, v.Method(m.Index))
	}
}

var otherTypes = []types.Type{
	&types.DecimalType{Precision: 38, Scale: 3}, &types.DecimalType{Precision: 20, Scale: 0, Nullability: types.NullabilityNullable},
	&types.VarCharType{Length: 60}, &types.FixedCharType{Length: 40}, &types.FixedBinaryType{Length: 16}, &types.UUIDType{},
	&types.PrecisionTimeType{Precision: 9}, &types.PrecisionTimestampType{Precision: 9},
	&types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: 0}},
	&types.IntervalDayType{Precision: 6},
}

// directed runs an operation with arguments it accepts.
func (w *world) directed() {
	r := w.t.R
	if len(w.calls) > 0 && r.P(1, 2) {
		c := vk.Pick(r, w.calls)
		set := extensions.NewSet()
		switch r.N(4) {
		case 0:
			w.call("(matching "+fmt.Sprintf("%T", c.v)+").ResolveType", reflect.ValueOf(func() (types.Type, error) { return c.v.ResolveType(c.args, set) }))
		case 1:
			w.call("(matching "+fmt.Sprintf("%T", c.v)+").Match", reflect.ValueOf(func() (bool, error) { return c.v.Match(c.args) }))
		case 2:
			w.call("(matching "+fmt.Sprintf("%T", c.v)+").ExprBuilder", reflect.ValueOf(func() (expr.FunctionInvocation, error) {
				return invoke(w.regOf(c), c.v, r.Bool(), c.expr)
			}))
		default:
			w.call("functions.by-name", reflect.ValueOf(func() []extensions.FunctionVariant {
				_, freg := functions.NewExtensionAndFunctionRegistries(extensions.GetDefaultCollectionWithNoError())
				var out []extensions.FunctionVariant
				for _, f := range freg.GetScalarFunctions(c.v.Name(), len(c.args)) {
					out = append(out, f)
				}
				return out
			}))
		}
		return
	}
	for n := 0; n < 20 && len(w.pool) > 0; n++ {
		v := vk.Pick(r, w.pool).v
		if !v.CanInterface() {
			continue
		}
		changed := 0
		other := func(e expr.Expression) expr.Expression {
			if r.P(1, 2) {
				changed++
				for i := 0; i < 5; i++ {
					if x, ok := vk.Pick(r, w.pool).v.Interface().(expr.Expression); ok {
						return x
					}
				}
				return expr.NewPrimitiveLiteral(r.Bool(), false)
			}
			return e
		}
		name := fmt.Sprintf("(%T)", v.Interface())
		switch x := v.Interface().(type) {
		case plan.Rel:
			w.rel(x, name, other)
		case expr.Literal:
			ty := vk.Pick(r, otherTypes)
			if r.P(1, 3) {
				vk.Try(func() {
					ty = x.GetType().WithNullability(vk.PickOf(r, types.NullabilityNullable, types.NullabilityRequired))
				})
			}
			for _, o := range otherTypes { // most literals take only a type of their own kind
				if reflect.TypeOf(o) == reflect.TypeOf(x.GetType()) && r.P(2, 3) {
					ty = o
				}
			}
			w.call(name+".WithType", reflect.ValueOf(func() (any, error) {
				if y, ok := x.(interface {
					WithType(types.Type) (expr.Literal, error)
				}); ok {
					return y.WithType(ty)
				}
				return nil, nil
			}))
		case expr.Expression:
			w.call(name+".Visit", reflect.ValueOf(func() expr.Expression { return x.Visit(other) }))
		case types.Type:
			if r.Bool() {
				w.call(name+".WithNullability", reflect.ValueOf(func() types.Type {
					return x.WithNullability(vk.PickOf(r, types.NullabilityNullable, types.NullabilityRequired, types.NullabilityUnspecified))
				}))
			} else {
				w.call(name+" to and from proto", reflect.ValueOf(func() types.Type { return types.TypeFromProto(types.TypeToProto(x)) }))
			}
		default:
			continue
		}
		if changed > 0 {
			w.t.C.AddExtra("expressions_replaced", int64(changed))
		}
		return
	}
}

func (w *world) regOf(c matched) *expr.ExtensionRegistry {
	if w.out == nil {
		return c.reg
	}
	reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
	return &reg
}

func (w *world) rel(x plan.Rel, name string, other func(expr.Expression) expr.Expression) {
	r := w.t.R
	in := append(make([]plan.Rel, 0, 4), x.GetInputs()...)
	if ar, ok := x.(*plan.AggregateRel); ok && r.Bool() {
		// two relations from one, which must not show in each other
		// (the first one made has room at the ends of its lists)
		for i := 0; i < 3; i++ {
			w.call(name+".ToBuilder and Build", reflect.ValueOf(func() (*plan.AggregateRel, error) {
				b := ar.ToBuilder()
				k := b.AddExpression(expr.NewPrimitiveLiteral(int32(r.N(1000)), false))
				for n := r.N(5); n >= 0; n-- {
					b.AddGroupingSet([]uint32{k, uint32(n)})
				}
				if ms := ar.Measures(); len(ms) > 0 && r.Bool() {
					ar2 := *ar
					ar2.SetMeasures(append(append([]plan.AggRelMeasure{}, ms...), ms[0]))
					return &ar2, nil
				}
				made, err := b.Build()
				if i == 0 && err == nil {
					ar = made
				}
				return made, err
			}))
		}
		return
	}
	switch r.N(4) {
	case 0:
		w.call(name+".CopyWithExpressionRewrite", reflect.ValueOf(func() (plan.Rel, error) {
			return x.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
				if e == nil {
					return nil, nil
				}
				return other(e), nil
			}, in...)
		}))
	case 1:
		w.call(name+".Copy", reflect.ValueOf(func() (plan.Rel, error) { return x.Copy(in...) }))
	default:
		n := 0
		vk.Try(func() { rt := x.RecordType(); n = int(rt.FieldCount()) })
		m := make([]int32, 0, 8)
		for i := r.N(5); i > 0 && n > 0; i-- {
			m = append(m, int32(r.N(n)))
		}
		w.call(name+".Remap", reflect.ValueOf(func() (plan.Rel, error) { return x.Remap(m...) }))
	}
}

// invoke makes an invocation of a function.
func invoke(reg *expr.ExtensionRegistry, v extensions.FunctionVariant, custom bool, args []types.FuncArg) (expr.FunctionInvocation, error) {
	id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
	switch v := v.(type) {
	case *extensions.ScalarFunctionVariant:
		if custom {
			return expr.NewCustomScalarFunc(*reg, v, &types.Int32Type{}, nil, args...)
		}
		return expr.NewScalarFunc(*reg, id, nil, args...)
	case *extensions.AggregateFunctionVariant:
		return expr.NewAggregateFunc(*reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...)
	default:
		return expr.NewWindowFunc(*reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, args...)
	}
}

// match makes arguments for a function.
func (w *world) match(v extensions.FunctionVariant, sg *spec.Sig, reg *expr.ExtensionRegistry) {
	r := w.t.R
	c := matched{v: v, reg: reg}
	ts := sg.Args(r, func(string) uint32 { return 1 })
	c.args = make([]types.Type, 0, len(ts)+3)
	c.expr = make([]types.FuncArg, 0, len(ts)+3)
	for _, a := range ts {
		if a == nil {
			c.args = append(c.args, nil)
			c.expr = append(c.expr, types.Enum("A"))
			continue
		}
		g := a.Go()
		w.val(g, "matching type")
		c.args = append(c.args, g)
		var x types.FuncArg = expr.NewNullLiteral(g)
		if spec.Litable(a) && !longFixed(a) && r.P(3, 4) {
			vk.Try(func() { x = spec.GenLit(r, a).Go(true) })
		}
		c.expr = append(c.expr, x)
		w.val(x, "matching argument")
	}
	spare := append(c.args, &types.Int32Type{}, &types.StringType{})
	_ = append(c.expr, types.Enum("spare"), types.Enum("spare"))
	w.val(c.args, "matching types")
	w.val(c.expr, "matching arguments")
	_ = spare
	w.calls = append(w.calls, c)
}

type namedFunc struct {
	name string
	f    any
}

var sharedFuncs = []namedFunc{
	{"types.TypeToProto", types.TypeToProto},
	{"types.NewRecordTypeFromTypes", types.NewRecordTypeFromTypes},
	{"types.NewRecordTypeFromStruct", types.NewRecordTypeFromStruct},
	{"types.AreSyncTypeParametersMatching", types.AreSyncTypeParametersMatching},
	{"types.ReferencedUserDefinedTypes", types.ReferencedUserDefinedTypes},
	{"types.DecodeType", types.DecodeType},
	{"types.DecodeNamedStruct", types.DecodeNamedStruct},
	{"types.TypeParamFromProto", types.TypeParamFromProto},
	{"extensions.HasSyncParams", extensions.HasSyncParams},
	{"extensions.EvaluateTypeExpression", extensions.EvaluateTypeExpression},
	{"extensions.ValidateConstrainedAnyTypeConsistency", extensions.ValidateConstrainedAnyTypeConsistency},
	{"extensions.GetExtensionSet", extensions.GetExtensionSet},
	{"expr.FuncArgFromProto", expr.FuncArgFromProto},
	{"expr.ExprFromProto", expr.ExprFromProto},
	{"expr.NewIfThen", expr.NewIfThen},
	{"expr.NewSwitch", expr.NewSwitch},
	{"expr.NewListExpr", expr.NewListExpr},
	{"expr.NewExpressionReference", expr.NewExpressionReference},
	{"expr.NewMeasureReference", expr.NewMeasureReference},
	{"expr.RefSegmentFromProto", expr.RefSegmentFromProto},
	{"expr.FlattenRefSegments", expr.FlattenRefSegments},
	{"expr.NewMapKeyRef", expr.NewMapKeyRef},
	{"expr.MaskExpressionFromProto", expr.MaskExpressionFromProto},
	{"expr.NewRootFieldRef", expr.NewRootFieldRef},
	{"expr.NewFieldRef", expr.NewFieldRef},
	{"expr.FieldReferenceFromProto", expr.FieldReferenceFromProto},
	{"expr.FuncArgsEqual", expr.FuncArgsEqual},
	{"expr.SortFieldFromProto", expr.SortFieldFromProto},
	{"expr.BoundFromProto", expr.BoundFromProto},
	{"expr.NewScalarFunc", expr.NewScalarFunc},
	{"expr.NewCustomScalarFunc", expr.NewCustomScalarFunc},
	{"expr.NewWindowFunc", expr.NewWindowFunc},
	{"expr.NewCustomWindowFunc", expr.NewCustomWindowFunc},
	{"expr.NewAggregateFunc", expr.NewAggregateFunc},
	{"expr.NewCustomAggregateFunc", expr.NewCustomAggregateFunc},
	{"expr.NewAggregateFunctionFromProto", expr.NewAggregateFunctionFromProto},
	{"expr.NewNullLiteral", expr.NewNullLiteral},
	{"expr.NewNestedLiteral[struct]", expr.NewNestedLiteral[expr.StructLiteralValue]},
	{"expr.NewNestedLiteral[list]", expr.NewNestedLiteral[expr.ListLiteralValue]},
	{"expr.NewNestedLiteral[map]", expr.NewNestedLiteral[expr.MapLiteralValue]},
	{"expr.NewEmptyMapLiteral", expr.NewEmptyMapLiteral},
	{"expr.NewEmptyListLiteral", expr.NewEmptyListLiteral},
	{"expr.NewByteSliceLiteral", expr.NewByteSliceLiteral[[]byte]},
	{"expr.NewFixedBinaryLiteral", expr.NewFixedBinaryLiteral},
	{"expr.LiteralFromProto", expr.LiteralFromProto},
	{"expr.StructLiteralFromProto", expr.StructLiteralFromProto},
	{"literal.NewList", literal.NewList},
	{"literal.NewMap", literal.NewMap},
	{"literal.NewEmptyMap", literal.NewEmptyMap},
	{"literal.NewEmptyList", literal.NewEmptyList},
	{"literal.NewUserDefinedLiteral", literal.NewUserDefinedLiteral},
	{"literal.NewDecimalFromTwosComplement", literal.NewDecimalFromTwosComplement},
	{"literal.NewUUIDFromBytes", literal.NewUUIDFromBytes},
	{"plan.RemapHelper", plan.RemapHelper},
	{"plan.RelFromProto", plan.RelFromProto},
	{"plan.ValidateParameterBindings", plan.ValidateParameterBindings},
	{"plan.NewComparisonJoinKey", plan.NewComparisonJoinKey},
	{"plan.NewEqualityJoinKey", plan.NewEqualityJoinKey},
	{"plan.NewScalarSubquery", plan.NewScalarSubquery},
	{"plan.NewInPredicateSubquery", plan.NewInPredicateSubquery},
	{"plan.NewSetPredicateSubquery", plan.NewSetPredicateSubquery},
	{"plan.NewSetComparisonSubquery", plan.NewSetComparisonSubquery},
	{"plan.FromProto", plan.FromProto},
}

func (w *world) val(x any, from string) { w.add(reflect.ValueOf(x), from) }

// settle puts values of every kind into the world.
func (w *world) settle(kind int) {
	r := w.t.R
	coll := extensions.GetDefaultCollectionWithNoError()
	w.tools = append(w.tools, reflect.ValueOf(coll))
	types1 := func(n int) {
		for ; n > 0; n-- {
			w.val(spec.GenType(r, spec.TypeOpt{Depth: 2}).Go(), "generated type")
		}
	}
	switch kind {
	case 0: // types, schemas and signatures
		types1(12)
		var ts []types.Type
		for n := 1 + r.N(4); n > 0; n-- {
			ts = append(ts, spec.GenType(r, spec.TypeOpt{Depth: 1}).Go())
		}
		s := make([]types.Type, len(ts), len(ts)+3)
		copy(s, ts)
		w.val(types.NewRecordTypeFromTypes(s), "generated schema")
		w.val(s, "generated column types")
		w.val(types.NamedStruct{Names: []string{"a", "b"}, Struct: types.StructType{Types: ts}}, "generated named struct")
		freg := expr.NewEmptyExtensionRegistry(coll)
		for n := 3; n > 0; n-- {
			sg := genSig(r)
			for _, a := range sg.Args(r, func(string) uint32 { return 1 }) {
				if a == nil {
					continue
				}
				w.val(a.Go(), "matching type")
			}
			for _, v := range variants(sg, "f") {
				w.val(v, "generated variant")
				w.match(v, sg, &freg)
				vk.Try(func() {
					for _, a := range v.Args() {
						w.val(a.GetTypeExpression(), "parameter type")
					}
				})
			}
		}
		var names []string
		reg := types.GetTypeNameToTypeMap()
		for k := range reg {
			names = append(names, string(k))
		}
		sort.Strings(names)
		for n := 4; n > 0; n-- {
			w.val(reg[vk.Pick(r, names)], "type of the type table")
		}
		w.tools = append(w.tools, reflect.ValueOf(functions.NewTypeRegistry()))
	case 1: // functions of the bundled extensions, and their arguments
		types1(6)
		freg := expr.NewEmptyExtensionRegistry(coll)
		for n := 5; n > 0; n-- {
			v := vk.Pick(r, bundledOnce())
			w.val(v, "bundled function")
			if sg := sigOf(v); sg != nil {
				w.match(v, sg, &freg)
				w.match(v, sg, &freg)
			}
		}
		reg := expr.NewEmptyExtensionRegistry(coll)
		w.tools = append(w.tools, reflect.ValueOf(&reg), reflect.ValueOf(reg.Set))
		w.fresh = append(w.fresh, func() reflect.Value {
			reg := expr.NewEmptyExtensionRegistry(coll)
			return reflect.ValueOf(&reg)
		}, func() reflect.Value { return reflect.ValueOf(extensions.NewSet()) })
	case 2: // expressions
		d := genFnDecls(r)
		reg, err := d.reg()
		w.t.Must(err == nil, "reg", "%v", err)
		reg.SetSubqueryConverter(&plan.ExpressionConverter{})
		s := genSchema(r)
		rt := recordOf(s)
		w.val(rt, "schema")
		for n := 6; n > 0; n-- {
			m := newXG(r, s, d).GenAny(r.N(3)).P
			w.val(m, "expression message")
			if x, err := expr.ExprFromProto(m, rt, reg); err == nil {
				w.val(x, "decoded expression")
			}
		}
		for n := 6; n > 0; n-- {
			vk.Try(func() { w.val(spec.GenLit(r, spec.GenLitType(r, 2)).Go(r.Bool()), "literal") })
		}
		types1(3)
		w.tools = append(w.tools, reflect.ValueOf(&reg))
		b := expr.ExprBuilder{Reg: reg, BaseSchema: rt}
		w.tools = append(w.tools, reflect.ValueOf(&b))
		w.fresh = append(w.fresh, func() reflect.Value {
			reg, _ := d.reg()
			return reflect.ValueOf(&reg)
		}, func() reflect.Value {
			reg, _ := d.reg()
			return reflect.ValueOf(&expr.ExprBuilder{Reg: reg, BaseSchema: rt})
		})
	default: // relations
		x := genPlan(r, func(g *spec.PG) { c04tune(g) })
		w.val(x.P, "plan message")
		pl, err := decodePlan(x.P)
		w.t.Must(err == nil, "rejected", "%v", err)
		w.val(pl, "decoded plan")
		for _, rel := range relsOf(pl) {
			w.val(rel, "decoded relation")
			for _, in := range rel.GetInputs() {
				w.val(in, "input of a relation")
			}
			rt := rel.RecordType()
			w.val(rt, "schema of a relation")
			// literals and references to build with
			vk.Try(func() {
				ref, err := expr.NewRootFieldRef(expr.NewStructFieldRef(0), &rt)
				if err == nil {
					w.val(ref, "reference")
				}
			})
		}
		w.val(expr.NewPrimitiveLiteral(true, false), "literal")
		w.val(expr.NewPrimitiveLiteral(int32(1), false), "literal")
		types1(2)
		m := make([]int32, 2, 4)
		m[1] = 1
		w.val(m, "mapping")
		b := plan.NewBuilder(coll)
		w.tools = append(w.tools, reflect.ValueOf(b), reflect.ValueOf(b))
		w.fresh = append(w.fresh, func() reflect.Value { return reflect.ValueOf(plan.NewBuilder(coll)) })
		// a schema whose slices have room, with something in it
		cols := []types.Type{&types.BooleanType{}, &types.Int32Type{}, &types.StringType{Nullability: types.NullabilityNullable}, &types.DateType{}, &types.Float64Type{}}
		names := []string{"a", "b", "c", "d", "e"}
		w.val(cols, "caller's columns")
		w.val(names, "caller's names")
		scan := b.NamedScan(names[:1], types.NamedStruct{Names: names[:3], Struct: types.StructType{Types: cols[:3], Nullability: types.NullabilityRequired}})
		w.val(scan, "scan")
		if p, err := b.Project(scan, expr.NewPrimitiveLiteral(int32(1), false)); err == nil {
			w.val(p, "projection of the scan")
			if q, err := b.Project(p, expr.NewPrimitiveLiteral(true, false), expr.NewPrimitiveLiteral(true, false)); err == nil {
				w.val(q, "projection of a projection")
			}
			if q, err := b.Cross(scan, p); err == nil {
				w.val(q, "cross of the scan")
			}
		}
	}
}

func c07(c *vk.C) {
	loadFnPool()
	c.Rule("types, functions, expressions, relations: a pool of values (of the kind the section is named for, and whatever operations return) on which operations found by reflection (methods that do not set, package functions, builder methods) are run with arguments of the pool and with slices that have used spare room; after each one every value's complete state is compared with the one before, and where that differs what its methods and fields say; non-trivial = distinct operation and outcome")
	for k, name := range []string{"types", "functions", "expressions", "relations"} {
		n := []int{1200, 1000, 1000, 1000}[k]
		c.ParSection(name, c.Scale(n, n*60), func(t *vk.T) {
			w := &world{t: t, max: 40}
			w.settle(k)
			t.Desc = func() string { return "" }
			for i := 0; i < 40; i++ {
				w.step()
			}
			t.C.AddExtra("operations", int64(w.ops))
		})
	}
	c.Rule("rewrites: every relation of generated plans is rewritten (each expression kept, replaced or both in turn), copied, remapped, asked for its schema and encoded, and every relation of the plan is what it was; non-trivial = distinct plan shape")
	c.ParSection("rewrites", c.Scale(6000, 200000), rewriteAll)
	c.Rule("visits: generated expressions visited by a visitor that replaces the k-th operand, for each k, and each but the k-th; the expression, its operands and the results of the earlier visits stay what they were; non-trivial = distinct (kind, operands)")
	c.ParSection("visits", c.Scale(6000, 200000), visitAll)
	c.Rule("registries: the bundled collection, the registries and a dialect over it, the type table: their complete state before and after all histories, and around groups of lookups")
	c.Section("registries", c.Scale(20, 400), func(t *vk.T) { registriesUnchanged(t) })
}

var bundledOnce = sync.OnceValue(bundled)

// registriesUnchanged looks at the complete state of what all callers share
// around groups of lookups.
func registriesUnchanged(t *vk.T) {
	coll := extensions.GetDefaultCollectionWithNoError()
	var all [3][]extensions.FunctionVariant
	for k := fnScalar; k <= fnWin; k++ {
		vs := allFn(coll, k)
		sort.Slice(vs, func(a, b int) bool {
			return vs[a].URN()+"|"+vs[a].CompoundName() < vs[b].URN()+"|"+vs[b].CompoundName()
		})
		all[k] = vs
	}
	shared := map[string]any{
		"default collection": coll,
		"function registry":  functions.NewFunctionRegistry(coll),
		"type registry":      functions.NewTypeRegistry(),
		"type table":         types.GetTypeNameToTypeMap(),
		"all bundled":        bundledOnce(),
	}
	freg := shared["function registry"].(functions.FunctionRegistry)
	if d := genDialect(t.R, coll, all); d != nil {
		text := d.text(t.R)
		t.Desc = func() string { return text }
		dia, err := functions.LoadDialect("d", strings.NewReader(text))
		t.Must(err == nil, "rejects", "%v", err)
		shared["dialect"] = dia
		lreg, err := dia.LocalizeFunctionRegistry(freg)
		t.Must(err == nil, "rejects", "%v", err)
		shared["local function registry"] = lreg
		ltr, err := dia.GetLocalTypeRegistry()
		t.Must(err == nil, "rejects", "%v", err)
		shared["local type registry"] = ltr
	}
	names := make([]string, 0, len(shared))
	for n := range shared {
		names = append(names, n)
	}
	sort.Strings(names)
	before, said := map[string]uint64{}, map[string]string{}
	parts := 0
	for _, n := range names {
		p := newPrinter(true)
		p.see(reflect.ValueOf(shared[n]), true)
		before[n] = p.h.Sum64()
		said[n] = registryReading(shared[n])
		parts += p.n
	}
	t.C.AddExtra("registry_parts_watched", int64(parts))
	w := &world{t: t, max: 60}
	for _, n := range names {
		w.tools = append(w.tools, reflect.ValueOf(shared[n]))
	}
	for n := 6; n > 0; n-- {
		f := vk.Pick(t.R, bundledOnce())
		w.pool = append(w.pool, &pooled{v: reflect.ValueOf(f)}, &pooled{v: reflect.ValueOf(extensions.FunctionID{URN: f.URN(), Name: f.CompoundName()})})
	}
	w.pool = append(w.pool, &pooled{v: reflect.ValueOf(functions.LocalFunctionName("add"))}, &pooled{v: reflect.ValueOf(functions.SubstraitFunctionName("add"))})
	for _, p := range w.pool {
		p.fp, p.obs = fingerprint(p.v, false), reading(p.v)
	}
	for i := 0; i < 60; i++ {
		w.step()
		if i%20 != 19 {
			continue
		}
		for _, n := range names {
			// what it keeps may change, what it says may not
			ok := fingerprint(reflect.ValueOf(shared[n]), true) == before[n] && i < 59
			t.Check(ok || registryReading(shared[n]) == said[n], "registry:"+n, "the %s is not what it was before:\n  %s", n, strings.Join(w.hist, "\n  "))
		}
	}
	t.C.AddExtra("operations", int64(w.ops))
}

// longFixed reports types whose literals would be very long.
func longFixed(t *spec.TS) bool {
	if (t.K == spec.FixedChar || t.K == spec.FixedBinary) && t.Len > 100 || t.K == spec.Decimal && t.Prec > 38 {
		return true
	}
	for _, k := range t.Kids {
		if longFixed(k) {
			return true
		}
	}
	for _, p := range t.Params {
		if p.T != nil && longFixed(p.T) {
			return true
		}
	}
	return false
}

func elemOf(t reflect.Type) reflect.Type {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map:
		return t.Elem()
	}
	return t
}

// contents are the elements of a slice or map themselves, the spare ones of a
// slice included, not what they refer to.
func contents(v reflect.Value) (out []string) {
	one := func(x reflect.Value) string {
		for x.Kind() == reflect.Interface && !x.IsNil() {
			x = x.Elem()
		}
		switch x.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Func, reflect.Slice:
			return fmt.Sprintf("%v %x", x.Type(), x.Pointer())
		}
		return fmt.Sprintf("%x", fingerprint(x, false))
	}
	if v.Kind() == reflect.Map {
		it := v.MapRange()
		for it.Next() {
			out = append(out, one(it.Key())+": "+one(it.Value()))
		}
		sort.Strings(out)
		return
	}
	v = v.Slice(0, v.Cap())
	for i := 0; i < v.Len(); i++ {
		out = append(out, one(v.Index(i)))
	}
	return
}

// registryReading is what lookups in a registry say.
func registryReading(x any) string {
	var b strings.Builder
	fn := func(v extensions.FunctionVariant) {
		if reflect.ValueOf(v).IsNil() {
			b.WriteString("nil;")
			return
		}
		d := &reader{left: 60, on: map[any]bool{}}
		d.see(reflect.ValueOf(v), 2)
		b.WriteString(d.b.String())
		b.WriteString(";")
	}
	names := map[string]bool{}
	for _, v := range bundledOnce() {
		names[v.Name()] = true
	}
	sorted := make([]string, 0, len(names))
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	list := func(vs []extensions.FunctionVariant) {
		var ls []string
		for _, v := range vs {
			ls = append(ls, fmt.Sprintf("%T %s %s", v, v.URN(), v.CompoundName()))
		}
		fmt.Fprintln(&b, ls)
	}
	switch x := x.(type) {
	case *extensions.Collection:
		for _, v := range bundledOnce() {
			id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
			s, ok1 := x.GetScalarFunc(id)
			a, ok2 := x.GetAggregateFunc(id)
			w, ok3 := x.GetWindowFunc(id)
			fmt.Fprintln(&b, v.URN(), v.CompoundName(), ok1, ok2, ok3, x.URNLoaded(v.URN()))
			fn(s)
			fn(a)
			fn(w)
		}
		fmt.Fprintln(&b, len(x.GetAllScalarFunctions()), len(x.GetAllAggregateFunctions()), len(x.GetAllWindowFunctions()))
	case functions.FunctionRegistry:
		list(x.GetAllFunctions())
		for _, n := range sorted {
			fmt.Fprintln(&b, n, len(x.GetScalarFunctionsByName(n)), len(x.GetAggregateFunctionsByName(n)), len(x.GetWindowFunctionsByName(n)))
			for k := 0; k < 4; k++ {
				fmt.Fprintln(&b, k, len(x.GetScalarFunctions(n, k)), len(x.GetAggregateFunctions(n, k)), len(x.GetWindowFunctions(n, k)))
			}
		}
	case functions.LocalFunctionRegistry:
		list(x.GetAllFunctions())
		for _, v := range x.GetAllFunctions() {
			fn(v)
		}
		for _, n := range sorted {
			for k := 0; k < 4; k++ {
				fmt.Fprintln(&b, n, k, len(x.GetScalarFunctions(functions.SubstraitFunctionName(n), k)), len(x.GetAggregateFunctions(functions.SubstraitFunctionName(n), k)), len(x.GetWindowFunctions(functions.SubstraitFunctionName(n), k)), len(x.GetScalarFunctions(functions.LocalFunctionName(n), k)))
			}
		}
	case functions.LocalTypeRegistry:
		b.WriteString(typePrint(x))
	case functions.TypeRegistry:
		for _, n := range []string{"i8", "i32?", "fp64", "string?", "varchar<7>", "decimal<10,2>?", "precision_timestamp<3>", "fixedchar<4>", "interval_day<2>", "nonsense"} {
			ty, err := x.GetTypeFromTypeString(n)
			fmt.Fprintln(&b, n, ty, err)
		}
	case functions.Dialect:
		tr, err := x.GetLocalTypeRegistry()
		fmt.Fprintln(&b, x.Name(), err)
		if err == nil {
			b.WriteString(typePrint(tr))
		}
	case []extensions.FunctionVariant:
		for _, v := range x {
			fn(v)
		}
	default:
		d := &reader{left: 3000, on: map[any]bool{}}
		d.see(reflect.ValueOf(x), 3)
		b.WriteString(d.b.String())
	}
	return b.String()
}

func rewriteAll(t *vk.T) {
	x := genPlan(t.R, func(g *spec.PG) { c04tune(g) })
	t.Desc = func() string { return fmt.Sprint(x.P) }
	pl, err := decodePlan(x.P)
	t.Must(err == nil, "rejected", "%v", err)
	rels := relsOf(pl)
	says := func(r plan.Rel) string {
		bs, _ := proto.MarshalOptions{Deterministic: true}.Marshal(r.ToProto())
		rt := r.RecordType()
		return fmt.Sprintf("%v %v %x", rt.String(), r.OutputMapping(), bs)
	}
	fps, was := make([]uint64, len(rels)), make([]string, len(rels))
	for i, r := range rels {
		fps[i], was[i] = fingerprint(reflect.ValueOf(r), false), says(r)
	}
	look := func(what string, by plan.Rel) {
		for i, r := range rels {
			t.Count(1)
			if fp := fingerprint(reflect.ValueOf(r), false); fp != fps[i] {
				now := says(r)
				t.Check(now == was[i], fmt.Sprintf("%s:%T", what, by), "%s of a %T changed a %T:\n  was %s\n  now %s", what, by, r, trim(was[i], 1500), trim(now, 1500))
				fps[i], was[i] = fp, now
			}
		}
	}
	for _, r := range rels {
		in := r.GetInputs()
		for mode := 0; mode < 3; mode++ {
			n := 0
			f := func(e expr.Expression) (expr.Expression, error) {
				if e == nil {
					return nil, nil
				}
				if n++; mode == 0 || mode == 1 && n%2 == 0 || mode == 2 && n%2 == 1 {
					t.C.AddExtra("expressions_replaced", 1)
					return expr.NewNullLiteral(e.GetType()), nil
				}
				return e, nil
			}
			given := append(make([]plan.Rel, 0, 4), in...)
			vk.Try(func() { _, _ = r.CopyWithExpressionRewrite(f, given...) })
			look("rewrite", r)
		}
		if len(in) > 0 {
			given := append([]plan.Rel(nil), in...)
			given[t.R.N(len(given))] = vk.Pick(t.R, rels)
			vk.Try(func() { _, _ = r.Copy(given...) })
			look("copy", r)
		}
		rt := r.RecordType()
		m := make([]int32, 0, 6)
		for i := 0; i < 3 && rt.FieldCount() > 0; i++ {
			m = append(m, int32(t.R.N(int(rt.FieldCount()))))
		}
		vk.Try(func() {
			q, err := r.Remap(m...)
			if err == nil && len(m) > 0 {
				_, _ = q.Remap(0)
			}
		})
		look("remap", r)
		t.Obs(fmt.Sprintf("%T", r), len(in), len(m), rt.String())
	}
}

// visitAll rewrites one operand of an expression after the other.
func visitAll(t *vk.T) {
	r := t.R
	d := genFnDecls(r)
	s := genSchema(r)
	g := newXG(r, s, d)
	x := g.Gen(1+r.N(2), nil)
	for tries := 0; len(x.Operands()) < 2 && tries < 8; tries++ {
		x = g.GenAny(1 + r.N(2))
	}
	t.Desc = func() string { return fmt.Sprintf("schema %s\n%v\n%v", s, d.Fns, x.P) }
	reg, err := d.reg()
	t.Must(err == nil, "declarations", "%v", err)
	e, err := expr.ExprFromProto(x.P, recordOf(s), reg)
	t.Must(err == nil, "decode:"+x.Kind, "%v", err)
	type kept struct {
		e  expr.Expression
		fp uint64
		bs string
	}
	says := func(e expr.Expression) string {
		bs, _ := proto.MarshalOptions{Deterministic: true}.Marshal(e.ToProto())
		return string(bs)
	}
	all := []kept{{e, fingerprint(reflect.ValueOf(e), false), says(e)}}
	n := 0
	e.Visit(func(o expr.Expression) expr.Expression { n++; return o })
	for mode := 0; mode < 2; mode++ {
		for k := 0; k < n && k < 12; k++ {
			i := 0
			var out expr.Expression
			t.Phase = fmt.Sprintf("replacing operand %d of %d, mode %d", k, n, mode)
			if panicked, _ := vk.Try(func() {
				out = e.Visit(func(o expr.Expression) expr.Expression {
					i++
					if o == nil || (i-1 == k) != (mode == 0) {
						return o
					}
					if lit, ok := o.(expr.Literal); ok {
						return expr.NewNullLiteral(lit.GetType())
					}
					return expr.NewPrimitiveLiteral(int32(k), false)
				})
			}); panicked != nil || out == nil {
				continue
			}
			for j, w := range all {
				t.Count(1)
				if fp := fingerprint(reflect.ValueOf(w.e), false); fp != w.fp {
					now := says(w.e)
					t.Check(now == w.bs, fmt.Sprintf("visit:%T", e), "replacing operand %d of %d of a %T (mode %d) changed what %s holds: %v", k, n, e, mode, []string{"it", "the result of an earlier visit"}[min(j, 1)], w.e)
					all[j].fp = fp
				}
			}
			if out != e {
				t.C.AddExtra("expressions_replaced", 1)
				vk.Try(func() { all = append(all, kept{out, fingerprint(reflect.ValueOf(out), false), says(out)}) })
			}
		}
	}
	t.Obs(x.Kind, n, len(all))
}
