package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C18"] = c18 }

// dFn is one function entry of a dialect file.
type dFn struct {
	alias, urn, name, local string
	infix, postfix          bool
	opts                    map[string]string
	kernels                 []string // as compound names have them
}

func (d *dFn) localName() string { return orS(d.local, d.name) }

type dType struct {
	K      spec.Kind
	short  bool // declared under its short name
	local  string
	column *bool
}

type dialectM struct {
	deps  map[string]string
	types []dType
	fns   [3][]*dFn
}

func (d *dialectM) doc(r *vk.R) yaml.MapSlice {
	m := yaml.MapSlice{{Key: "name", Value: "test"}, {Key: "type", Value: "sql"}, {Key: "dependencies", Value: map[string]any{}}}
	deps := map[string]any{}
	for k, v := range d.deps {
		deps[k] = v
	}
	m[2].Value = deps
	var ts yaml.MapSlice
	for _, t := range d.types {
		n := t.K.String()
		if t.short {
			n = t.K.Short()
		}
		info := yaml.MapSlice{{Key: "sql_type_name", Value: t.local}}
		if t.column != nil {
			info = append(info, yaml.MapItem{Key: "supported_as_column", Value: *t.column})
		}
		ts = append(ts, yaml.MapItem{Key: n, Value: info})
	}
	vk.Shuffle(r, ts)
	m = append(m, yaml.MapItem{Key: "supported_types", Value: ts})
	for k, fns := range d.fns {
		var l []any
		for _, f := range fns {
			e := yaml.MapSlice{{Key: "name", Value: f.alias + "." + f.name}}
			if f.local != "" {
				e = append(e, yaml.MapItem{Key: "local_name", Value: f.local})
			}
			if f.infix {
				e = append(e, yaml.MapItem{Key: "infix", Value: true})
			}
			if f.postfix {
				e = append(e, yaml.MapItem{Key: "postfix", Value: true})
			}
			if f.opts != nil {
				o := map[string]any{}
				for k, v := range f.opts {
					o[k] = v
				}
				e = append(e, yaml.MapItem{Key: "required_options", Value: o})
			}
			var ks []any
			for _, kn := range f.kernels {
				if r.P(1, 3) { // "any" may be numbered
					p := strings.Split(kn, "_")
					for i := range p {
						if p[i] == "any" {
							p[i] = vk.PickOf(r, "any1", "any2", "any")
						}
					}
					kn = strings.Join(p, "_")
				}
				ks = append(ks, kn)
			}
			e = append(e, yaml.MapItem{Key: "supported_kernels", Value: ks})
			vk.Shuffle(r, e)
			l = append(l, e)
		}
		vk.Shuffle(r, l)
		if l != nil {
			m = append(m, yaml.MapItem{Key: []string{"scalar_functions", "aggregate_functions", "window_functions"}[k], Value: l})
		}
	}
	vk.Shuffle(r, m)
	return m
}

func (d *dialectM) text(r *vk.R) string {
	var b strings.Builder
	jsonOf(&b, d.doc(r), vk.PickOf(r, "", "\n"))
	return b.String()
}

// kernelOK tells whether a signature can be written in a dialect.
func kernelOK(compound string) bool {
	_, sig, _ := strings.Cut(compound, ":")
	for _, p := range strings.Split(sig, "_") {
		if p != "" && p != "any" && (kindOfShort[p] == nil) {
			return false
		}
	}
	return true
}

var kindOfShort = map[string]*spec.Kind{}

func init() {
	for k := spec.Bool; k < spec.NumScalar; k++ {
		if k == spec.NumPrimitive || k == spec.IntervalCompound {
			continue
		}
		kk := k
		kindOfShort[k.Short()] = &kk
	}
}

// genDialect chooses what a dialect over a collection declares.
func genDialect(r *vk.R, coll *extensions.Collection, all [3][]extensions.FunctionVariant) *dialectM {
	d := &dialectM{deps: map[string]string{}}
	alias := map[string]string{}
	locals := []string{"INT", "BIGINT", "T1", "double precision", "VARCHAR", "TEXT", "NUMERIC", "X", "A_B", "INTERVAL DAY", "TS", "DEC", "L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8", "L9", "L10", "L11", "L12", "L13", "L14", "L15"}
	vk.Shuffle(r, locals)
	for k := spec.Bool; k < spec.NumScalar; k++ {
		if k == spec.NumPrimitive || k == spec.IntervalCompound || !r.P(2, 3) {
			continue
		}
		t := dType{K: k, short: r.P(1, 3), local: locals[len(d.types)]}
		if r.P(1, 8) && len(d.types) > 0 {
			t.local = d.types[0].local // shared
		}
		if r.P(1, 3) {
			b := r.Bool()
			t.column = &b
		}
		d.types = append(d.types, t)
	}
	if len(d.types) == 0 {
		d.types = append(d.types, dType{K: spec.I32, local: "INT"})
	}
	for k := range all {
		byName := map[[2]string][]string{}
		var names [][2]string
		want := r.Range(0, 8)
		if k == 0 {
			want++
		}
		for tries := 0; len(names) < want && tries < 40; tries++ {
			if len(all[k]) == 0 {
				break
			}
			v := vk.Pick(r, all[k])
			key := [2]string{v.URN(), v.Name()}
			if byName[key] != nil {
				continue
			}
			var ks []string
			for _, w := range all[k] {
				if w.URN() == v.URN() && w.Name() == v.Name() && kernelOK(w.CompoundName()) && r.P(3, 4) {
					_, s, _ := strings.Cut(w.CompoundName(), ":")
					ks = append(ks, s)
				}
			}
			if ks == nil {
				continue
			}
			byName[key] = ks
			names = append(names, key)
		}
		for _, n := range names {
			ks := byName[n]
			vk.Shuffle(r, ks)
			if alias[n[0]] == "" {
				alias[n[0]] = fmt.Sprintf("d%d", len(alias))
				d.deps[alias[n[0]]] = n[0]
			}
			for len(ks) > 0 { // over one or more entries
				c := len(ks)
				if r.P(1, 3) {
					c = 1 + r.N(len(ks))
				}
				f := &dFn{alias: alias[n[0]], urn: n[0], name: n[1], infix: r.P(1, 4), postfix: r.P(1, 4), kernels: ks[:c:c]}
				ks = ks[c:]
				switch r.N(6) {
				case 0:
					f.local = strings.ToUpper(f.name)
				case 1:
					f.local = f.name
				case 2:
					f.local = vk.Pick(r, names)[1] // the name of another function
				case 3:
					f.local = vk.PickOf(r, "+", "shared", "||", "a.b", "f x")
				}
				if r.P(1, 3) {
					f.opts = map[string]string{vk.PickOf(r, "overflow", "rounding"): vk.PickOf(r, "ERROR", "silent")}
					if r.Bool() {
						f.opts["on_domain_error"] = "NAN"
					}
				}
				d.fns[k] = append(d.fns[k], f)
			}
		}
	}
	if len(d.fns[0])+len(d.fns[1])+len(d.fns[2]) == 0 {
		return nil
	}
	return d
}

// localFn is what the registry says about a function.
type localFn struct {
	v    extensions.FunctionVariant // the local variant
	base extensions.FunctionVariant
	l    functions.LocalFunctionVariant
}

func localsOf(reg functions.LocalFunctionRegistry, k fnKind, name functions.FunctionName, n int) (out []localFn) {
	switch k {
	case fnScalar:
		for _, v := range reg.GetScalarFunctions(name, n) {
			out = append(out, localFn{v, &v.ScalarFunctionVariant, v.LocalFunctionVariant})
		}
	case fnAgg:
		for _, v := range reg.GetAggregateFunctions(name, n) {
			out = append(out, localFn{v, &v.AggregateFunctionVariant, v.LocalFunctionVariant})
		}
	default:
		for _, v := range reg.GetWindowFunctions(name, n) {
			out = append(out, localFn{v, &v.WindowFunctionVariant, v.LocalFunctionVariant})
		}
	}
	return
}

func fnsOf(reg functions.FunctionRegistry, k fnKind, name string, n int) (out []extensions.FunctionVariant) {
	switch k {
	case fnScalar:
		vs := reg.GetScalarFunctionsByName(name)
		if n >= 0 {
			vs = reg.GetScalarFunctions(name, n)
		}
		for _, v := range vs {
			out = append(out, v)
		}
	case fnAgg:
		vs := reg.GetAggregateFunctionsByName(name)
		if n >= 0 {
			vs = reg.GetAggregateFunctions(name, n)
		}
		for _, v := range vs {
			out = append(out, v)
		}
	default:
		vs := reg.GetWindowFunctionsByName(name)
		if n >= 0 {
			vs = reg.GetWindowFunctions(name, n)
		}
		for _, v := range vs {
			out = append(out, v)
		}
	}
	return
}

// takes tells whether a variant can be called with n arguments. That a variadic
// function is also found with as many arguments as it has parameters, even if
// its last one has to be repeated more often, is pinned by the library's tests
// and not specified here.
func takes(v extensions.FunctionVariant, n int) spec.V {
	p, w := len(v.Args()), v.Variadic()
	if w == nil {
		if n == p {
			return spec.Yes
		}
		return spec.No
	}
	if p == 0 {
		return spec.Unspec
	}
	c := n - (p - 1)
	switch {
	case c >= 0 && c >= w.Min && (w.Max == 0 || c <= w.Max):
		return spec.Yes
	case n == p:
		return spec.Unspec
	}
	return spec.No
}

func fnKeys(vs []extensions.FunctionVariant) map[extensions.FunctionID]int {
	m := map[extensions.FunctionID]int{}
	for _, v := range vs {
		m[extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}]++
	}
	return m
}

// judgeRegistry compares a function registry with the functions of the collection.
func judgeRegistry(t *vk.T, reg functions.FunctionRegistry, all [3][]extensions.FunctionVariant) {
	total := 0
	for k := fnScalar; k <= fnWin; k++ {
		byName := map[string][]extensions.FunctionVariant{"nope": nil, "": nil}
		for _, v := range all[k] {
			byName[v.Name()] = append(byName[v.Name()], v)
			total++
		}
		for name, vs := range byName {
			got := fnKeys(fnsOf(reg, k, name, -1))
			want := fnKeys(vs)
			t.Check(fmt.Sprint(got) == fmt.Sprint(want), "registry:by-name", "%s functions named %q are %v, want %v", k, name, got, want)
			for n := 0; n < 7; n++ {
				got := fnKeys(fnsOf(reg, k, name, n))
				for _, v := range vs {
					id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
					if w := takes(v, n); w != spec.Unspec {
						t.Check((got[id] == 1) == (w == spec.Yes), "registry:count", "%s function %v with %d arguments is found %d times; it takes them: %v", k, id, n, got[id], w)
					}
					delete(got, id)
				}
				t.Check(len(got) == 0, "registry:extra", "%s functions %v are found for %q", k, got, name)
			}
		}
	}
	t.Check(len(reg.GetAllFunctions()) == total, "registry:all", "%d functions are listed of %d", len(reg.GetAllFunctions()), total)
}

func notation(f *dFn) functions.FunctionNotation {
	switch {
	case f.infix:
		return functions.INFIX
	case f.postfix:
		return functions.POSTFIX
	}
	return functions.PREFIX
}

// judge compares a localized registry with the model.
func (d *dialectM) judge(t *vk.T, reg functions.LocalFunctionRegistry, all [3][]extensions.FunctionVariant) {
	total := 0
	for k := fnScalar; k <= fnWin; k++ {
		base := map[extensions.FunctionID]extensions.FunctionVariant{}
		for _, v := range all[k] {
			base[extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}] = v
		}
		decl := map[extensions.FunctionID]*dFn{}
		names := map[functions.FunctionName]bool{functions.LocalFunctionName("nope"): true, functions.SubstraitFunctionName("nope"): true,
			functions.LocalFunctionName(""): true, functions.SubstraitFunctionName("shared"): true, functions.LocalFunctionName("add"): true, functions.SubstraitFunctionName("count"): true}
		for _, f := range d.fns[k] {
			for _, kn := range f.kernels {
				decl[extensions.FunctionID{URN: f.urn, Name: f.name + ":" + kn}] = f
				total++
			}
			names[functions.LocalFunctionName(f.localName())] = true
			names[functions.SubstraitFunctionName(f.name)] = true
			names[functions.LocalFunctionName(f.name)] = true
			names[functions.SubstraitFunctionName(f.localName())] = true
		}
		for name := range names {
			for n := 0; n < 7; n++ {
				found := map[extensions.FunctionID]int{}
				for _, l := range localsOf(reg, k, name, n) {
					id := extensions.FunctionID{URN: l.v.URN(), Name: l.v.CompoundName()}
					found[id]++
					f := decl[id]
					if !t.Check(f != nil, "undeclared", "%s function %v is found by %T %q but not declared", k, id, name, name) {
						continue
					}
					t.Check(l.l.LocalName() == f.localName(), "local-name", "the local name of %v is %q, want %q", id, l.l.LocalName(), f.localName())
					t.Check(l.l.Notation() == notation(f), "notation", "the notation of %v is %v, want %v", id, l.l.Notation(), notation(f))
					t.Check(describe(l.base) == describe(base[id]), "definition", "the local variant of %v is\n%s\nwant\n%s", id, describe(l.base), describe(base[id]))
					for o, val := range f.opts {
						t.Check(l.l.IsOptionSupported(o, val) && l.l.IsOptionSupported(o, strings.ToUpper(val)) && l.l.IsOptionSupported(o, strings.ToLower(val)), "option", "%v does not support %s:%s", id, o, val)
						t.Check(!l.l.IsOptionSupported(o, val+"x") && !l.l.IsOptionSupported(o, ""), "option", "%v supports any value of %s", id, o)
					}
					for _, o := range []string{"overflow", "rounding", "on_domain_error", "nope"} {
						if _, ok := f.opts[o]; !ok {
							t.Check(!l.l.IsOptionSupported(o, "ERROR"), "option", "%v supports undeclared option %s", id, o)
						}
					}
				}
				for id, f := range decl {
					has := false
					switch name := name.(type) {
					case functions.LocalFunctionName:
						has = string(name) == f.localName()
					case functions.SubstraitFunctionName:
						has = string(name) == f.name
					}
					w := spec.No
					if has {
						w = takes(base[id], n)
					}
					if w != spec.Unspec {
						t.Check((found[id] == 1) == (w == spec.Yes) && found[id] < 2, fmt.Sprintf("find:%T", name), "%s function %v (local name %q) with %d arguments is found %d times by %T %q, want %v", k, id, f.localName(), n, found[id], name, name, w)
					}
				}
			}
		}
	}
	t.Check(len(reg.GetAllFunctions()) == total, "all", "%d functions are listed of %d declared", len(reg.GetAllFunctions()), total)
}

// judgeInvocations looks up invocations.
func (d *dialectM) judgeInvocations(t *vk.T, c *vk.C, coll *extensions.Collection, reg functions.LocalFunctionRegistry, all [3][]extensions.FunctionVariant) {
	supported := map[spec.Kind]bool{}
	for _, ty := range d.types {
		supported[ty.K] = true
	}
	for i := 0; i < 6; i++ {
		k := fnKind(t.R.N(3))
		if len(all[k]) == 0 {
			continue
		}
		var v extensions.FunctionVariant
		if len(d.fns[k]) > 0 && t.R.P(4, 5) {
			f := vk.Pick(t.R, d.fns[k])
			v, _ = getFn(coll, k, extensions.FunctionID{URN: f.urn, Name: f.name + ":" + vk.Pick(t.R, f.kernels)})
		} else {
			v = vk.Pick(t.R, all[k])
		}
		s := sigOf(v)
		if s == nil {
			continue
		}
		id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
		var decl *dFn
		for _, f := range d.fns[k] {
			for _, kn := range f.kernels {
				if (extensions.FunctionID{URN: f.urn, Name: f.name + ":" + kn}) == id {
					decl = f
				}
			}
		}
		er := expr.NewEmptyExtensionRegistry(coll)
		args := s.Args(t.R, refOf(er.Set, v.URN()))
		var fargs []types.FuncArg
		ok := decl != nil
		for _, a := range args {
			if a == nil {
				fargs = append(fargs, types.Enum("X"))
				ok = false
				continue
			}
			ok = ok && supported[a.K]
			lit := expr.NewNullLiteral(a.Go())
			fargs = append(fargs, lit)
		}
		var opts []*types.FunctionOption
		if t.R.Bool() {
			o := &types.FunctionOption{Name: "overflow", Preference: []string{"ERROR"}}
			if decl != nil && decl.opts != nil && t.R.P(2, 3) {
				for n, val := range decl.opts {
					o = &types.FunctionOption{Name: n, Preference: []string{val}}
				}
			}
			opts = append(opts, o)
			for _, p := range o.Preference {
				ok = ok && decl != nil && strings.EqualFold(decl.opts[o.Name], p)
			}
		}
		var found any
		var err, cerr error
		var name, got string
		t.NoPanic("invocation", func() {
			switch k {
			case fnScalar:
				var f *expr.ScalarFunction
				if f, cerr = expr.NewScalarFunc(er, id, opts, fargs...); cerr == nil {
					var l *functions.LocalScalarFunctionVariant
					if l, err = reg.GetScalarFunctionByInvocation(f); err == nil {
						found, name, got = l, l.LocalName(), l.CompoundName()
					}
				}
			case fnAgg:
				var f *expr.AggregateFunction
				if f, cerr = expr.NewAggregateFunc(er, id, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, fargs...); cerr == nil {
					var l *functions.LocalAggregateFunctionVariant
					if l, err = reg.GetAggregateFunctionByInvocation(f); err == nil {
						found, name, got = l, l.LocalName(), l.CompoundName()
					}
				}
			default:
				var f *expr.WindowFunction
				if f, cerr = expr.NewWindowFunc(er, id, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, fargs...); cerr == nil {
					var l *functions.LocalWindowFunctionVariant
					if l, err = reg.GetWindowFunctionByInvocation(f); err == nil {
						found, name, got = l, l.LocalName(), l.CompoundName()
					}
				}
			}
		})
		if cerr != nil {
			continue
		}
		c.AddExtra("invocations", 1)
		if t.Check((found != nil) == ok, "invocation", "the %s invocation %v%s %v: found %v, %v; want found: %v", k, id, argString(args), opts, found != nil, err, ok) && ok {
			t.Check(name == decl.localName() && got == v.CompoundName(), "invocation", "the %s invocation %v is %s called %s", k, id, got, name)
			c.AddExtra("invocations_found", 1)
		}
	}
}

// withParams are the parameters of a type, in a type's text.
func withParams(ty *spec.TS) string {
	switch ty.K {
	case spec.Decimal:
		return fmt.Sprintf("%d,%d", ty.Prec, ty.Scal)
	case spec.FixedChar, spec.VarChar, spec.FixedBinary, spec.PTime, spec.PTimestamp, spec.PTimestampTz, spec.IntervalDay:
		return fmt.Sprint(ty.Len)
	}
	return ""
}

func randParams(r *vk.R, k spec.Kind) *spec.TS {
	ty := &spec.TS{K: k, N: vk.PickOf(r, types.NullabilityRequired, types.NullabilityNullable)}
	switch k {
	case spec.Decimal:
		ty.Prec = int32(r.Range(1, 38))
		ty.Scal = int32(r.N(int(ty.Prec) + 1))
	case spec.FixedChar, spec.VarChar, spec.FixedBinary:
		ty.Len = vk.PickOf(r, 1, 2, 255, 1<<31-1, int32(r.Range(1, 70000)))
	case spec.PTime, spec.PTimestamp, spec.PTimestampTz, spec.IntervalDay:
		ty.Len = int32(r.N(10))
	}
	return ty
}

func spell(base string, ty *spec.TS, open, clos string) string {
	if ty.N == types.NullabilityNullable {
		base += "?"
	}
	if p := withParams(ty); p != "" {
		base += open + p + clos
	}
	return base
}

func (d *dialectM) judgeTypes(t *vk.T, reg functions.LocalTypeRegistry, plain functions.TypeRegistry) {
	count := map[string]int{}
	for _, ty := range d.types {
		count[ty.local]++
	}
	for k := spec.Bool; k < spec.NumScalar; k++ {
		if k == spec.NumPrimitive || k == spec.IntervalCompound {
			continue
		}
		var decl *dType
		for i := range d.types {
			if d.types[i].K == k {
				decl = &d.types[i]
			}
		}
		ts := randParams(t.R, k)
		lt := ts.Go()
		same := func(got types.Type) bool { return got != nil && got.Equals(lt) && spec.FromGo(got).Full() == ts.Full() }
		for _, n := range []string{k.String(), k.Short()} {
			text := spell(n, ts, "<", ">")
			got, err := plain.GetTypeFromTypeString(text)
			t.Check(err == nil && same(got), "type-text:"+k.String(), "the type %q is %v, %v", text, got, err)
			got, err = reg.GetTypeFromTypeString(text)
			t.Check((err == nil) == (decl != nil) && (err != nil || same(got)), "local-type-text:"+k.String(), "in the dialect, the type %q is %v, %v; declared: %v", text, got, err, decl != nil)
			if withParams(ts) != "" {
				bad := n + vk.PickOf(t.R, "<>", "<a>", "<1,2,3>", "<99999999999>", "<1")
				_, err = reg.GetTypeFromTypeString(bad)
				t.Check(err != nil, "bad-type-text", "the type %q is accepted", bad)
			} else {
				_, err = reg.GetTypeFromTypeString(n + "<1>")
				t.Check(err != nil, "bad-type-text", "the type %q is accepted", n+"<1>")
			}
		}
		var local string
		var err error
		t.NoPanic("GetLocalTypeFromSubstraitType", func() { local, err = reg.GetLocalTypeFromSubstraitType(lt) })
		column := reg.IsTypeSupportedInTables(lt)
		if decl == nil {
			t.Check(err != nil, "undeclared-type", "the type %s is not declared but is %q", ts.Full(), local)
			t.Check(!column, "undeclared-type", "the type %s is not declared but supported in tables", ts.Full())
			continue
		}
		want := decl.local
		if p := withParams(ts); p != "" {
			want += "(" + p + ")"
		}
		t.Check(err == nil && local == want, "to-local:"+k.String(), "the type %s is %q locally (%v), want %q", ts.Full(), local, err, want)
		t.Check(column == or(decl.column, true), "in-tables", "%s supported in tables: %v", ts.Full(), column)
		if count[decl.local] == 1 {
			text := spell(decl.local, ts, "(", ")")
			got, err := reg.GetSubstraitTypeFromLocalType(text)
			t.Check(err == nil && same(got), "from-local:"+k.String(), "the local type %q is %v (%v), want %s", text, got, err, ts.Full())
			st, ok := reg.GetSupportedTypes()[decl.local]
			t.Check(ok && spec.FromGo(st).K == k, "supported-types", "the supported type %q is %v", decl.local, st)
		}
	}
	t.Check(len(reg.GetSupportedTypes()) == len(count), "supported-types", "%d types are supported, want %d", len(reg.GetSupportedTypes()), len(count))
	for _, bad := range []string{"nope", "", "(1)", "?", "nope(1)"} {
		got, err := reg.GetSubstraitTypeFromLocalType(bad)
		t.Check(err != nil, "undeclared-type", "the local type %q is %v", bad, got)
	}
	for _, n := range []*spec.TS{{K: spec.List, Kids: []*spec.TS{{K: spec.I32}}}, {K: spec.IntervalCompound}, {K: spec.Struct}} {
		_, err := reg.GetLocalTypeFromSubstraitType(n.Go())
		t.Check(err != nil, "undeclared-type", "%s has a local name", n.Full())
	}
}

func typePrint(reg functions.LocalTypeRegistry) string {
	var out []string
	for n, ty := range reg.GetSupportedTypes() {
		g, err := reg.GetSubstraitTypeFromLocalType(n)
		out = append(out, fmt.Sprintf("%s: %v %v %v", n, ty, g, err))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// spoilD makes a dialect which must be rejected.
func spoilD(r *vk.R, d *dialectM, coll *extensions.Collection) (text, why string) {
	g := &dialectM{deps: map[string]string{}, types: append([]dType(nil), d.types...)}
	for a, u := range d.deps {
		g.deps[a] = u
	}
	var fs []*dFn
	for k := range d.fns {
		for _, f := range d.fns[k] {
			e := *f
			e.kernels = append([]string(nil), f.kernels...)
			g.fns[k] = append(g.fns[k], &e)
			fs = append(fs, &e)
		}
	}
	f := vk.Pick(r, fs)
	switch r.N(10) {
	case 0:
		f.name, why = f.name+"_nope", "an unknown function"
	case 1:
		f.kernels[r.N(len(f.kernels))], why = vk.PickOf(r, "i8_i8_i8_i8_i8", "uuid_uuid_uuid_date_date"), "an unknown kernel"
	case 2:
		f.kernels[r.N(len(f.kernels))], why = vk.PickOf(r, "i32x", "foo", "i32_foo", "INTEGER"), "a kernel of an unknown type"
	case 3:
		f.kernels, why = nil, "no kernels"
	case 4:
		f.alias, why = vk.PickOf(r, "nope", ""), "an unknown dependency"
	case 5:
		f.alias, why = f.alias+"."+f.alias, "a name of three parts"
	case 6:
		g.types, why = nil, "no types"
	case 7:
		g.fns, why = [3][]*dFn{}, "no functions"
	case 8:
		g.deps[f.alias], why = "extension:not:there", "a dependency which does not exist"
	default:
		doc := g.doc(r)
		for i := range doc {
			if doc[i].Key == "supported_types" {
				doc[i].Value = append(doc[i].Value.(yaml.MapSlice), yaml.MapItem{Key: vk.PickOf(r, "i33", "INTEGER", "list", "any", ""), Value: yaml.MapSlice{{Key: "sql_type_name", Value: "X9"}}})
			}
		}
		var b strings.Builder
		jsonOf(&b, doc, "")
		return b.String(), "an unknown type"
	}
	return g.text(r), why
}

func mangleD(r *vk.R, text string) string {
	keys := []string{"name", "type", "dependencies", "supported_types", "scalar_functions", "aggregate_functions", "window_functions", "supported_kernels", "required_options", "local_name", "infix", "sql_type_name", "supported_as_column"}
	key := vk.Pick(r, keys)
	i := strings.Index(text, `"`+key+`":`)
	if i < 0 || r.P(1, 4) {
		j := r.N(len(text) + 1)
		return text[:j] + vk.PickOf(r, "", "{", "null", "\"", "5,") + text[min(len(text), j+r.N(5)):]
	}
	i += len(key) + 3
	end := i
	depth := 0
	for ; end < len(text); end++ {
		switch text[end] {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		}
		if depth < 0 || depth == 0 && text[end] == ',' {
			break
		}
	}
	return text[:i] + vk.PickOf(r, "5", "null", "[]", "{}", "[null]", "[{}]", "\"x\"", "{\"i32\": null}", "{\"a\": {\"b\": []}}", "[\".\"]", "[{\"name\": \".\"}]", "true", "[[]]", "-1.5") + text[end:]
}

// overlap has functions whose names occur in several kinds and extensions.
const overlap = `
urn: extension:verif:overlap
scalar_functions:
  - name: add
    impls:
      - {args: [{value: i32}, {value: i32}], return: i32}
      - {args: [{value: string}, {value: any1}, {value: any1}], variadic: {min: 2, max: 3}, return: string}
      - {args: [{value: "decimal<P,S>"}], variadic: {min: 0}, return: i8}
  - name: sum
    impls:
      - {args: [{value: i64}], return: i64}
  - name: nullary
    impls:
      - {return: i64}
aggregate_functions:
  - name: add
    impls:
      - {args: [{value: i32}, {value: i32}], return: i32}
  - name: over
    impls:
      - {args: [{value: i32}], variadic: {min: 1, max: 2}, return: i32}
window_functions:
  - name: over
    impls:
      - {args: [{value: i64}], return: i32}
  - name: sum
    impls:
      - {args: [{value: i64}], return: i64}
`

func c18(c *vk.C) {
	c.Rule("generated dialects over the bundled extensions and over one with overlapping names (subsets of the functions of all kinds and kernels, split over entries, with default, swapped, shared and special local names; types under long and short names with unique and shared local names; options and notations) are loaded and localised several times; " +
		"every lookup by local and Substrait name, kind and argument count, every accessor, invocations and types in both directions are compared with the model; unusable dialects must be rejected; non-trivial: distinct dialect texts")
	def := extensions.GetDefaultCollectionWithNoError()
	over := &extensions.Collection{}
	if err := over.Load(strings.NewReader(overlap)); err != nil {
		c.Inconclusive("%v", err)
		return
	}
	colls := []*extensions.Collection{def, over}
	var all [2][3][]extensions.FunctionVariant
	for i, coll := range colls {
		for k := fnScalar; k <= fnWin; k++ {
			vs := allFn(coll, k)
			sort.Slice(vs, func(a, b int) bool {
				return vs[a].URN()+"|"+vs[a].CompoundName() < vs[b].URN()+"|"+vs[b].CompoundName()
			})
			all[i][k] = vs
		}
	}
	plain := functions.NewTypeRegistry()
	c.Section("registry", 4, func(t *vk.T) {
		judgeRegistry(t, functions.NewFunctionRegistry(colls[t.Index%2]), all[t.Index%2])
		t.Obs(t.Index % 2)
	})
	c.ParSection("dialects", c.Scale(1500, 30000), func(t *vk.T) {
		w := 0
		if t.R.P(1, 4) {
			w = 1
		}
		d := genDialect(t.R, colls[w], all[w])
		if d == nil {
			return
		}
		text := d.text(t.R)
		t.Desc = func() string { return text }
		freg := functions.NewFunctionRegistry(colls[w])
		prints := map[string]bool{}
		for rep := 0; rep < 3; rep++ {
			var dia functions.Dialect
			var err error
			if !t.NoPanic("LoadDialect", func() { dia, err = functions.LoadDialect("d", strings.NewReader(text)) }) || !t.Check(err == nil, "rejects", "a valid dialect is rejected: %v", err) {
				return
			}
			t.Check(dia.Name() == "d", "name", "the dialect is called %q", dia.Name())
			for again := 0; again < 2; again++ {
				var reg functions.LocalFunctionRegistry
				if !t.NoPanic("LocalizeFunctionRegistry", func() { reg, err = dia.LocalizeFunctionRegistry(freg) }) || !t.Check(err == nil, "rejects", "a valid dialect is rejected when localised: %v", err) {
					return
				}
				t.Check(reg.GetDialect() == dia && reg.GetFunctionRegistry() == freg, "back-reference", "the registry has another dialect or registry")
				if rep == 0 || again == 0 {
					d.judge(t, reg, all[w])
					d.judgeInvocations(t, c, colls[w], reg, all[w])
				}
			}
			tr, err := dia.GetLocalTypeRegistry()
			if again, err2 := dia.LocalizeTypeRegistry(plain); t.Check(err == nil && err2 == nil, "rejects", "the types are rejected: %v, %v", err, err2) {
				d.judgeTypes(t, tr, plain)
				d.judgeTypes(t, again, plain)
				prints[typePrint(tr)] = true
			}
		}
		t.Check(len(prints) == 1, "map-order", "the same dialect has different types each time it is loaded: %v", prints)
		t.Obs(text)
		c.AddExtra("dialects", 1)
		load := func(text string) error {
			dia, err := functions.LoadDialect("d", strings.NewReader(text))
			if err == nil {
				if _, err = dia.LocalizeFunctionRegistry(freg); err == nil {
					_, err = dia.LocalizeTypeRegistry(plain)
				}
			}
			return err
		}
		for i := 0; i < 4; i++ {
			bad, why := spoilD(t.R, d, colls[w])
			t.NoPanic("LoadDialect", func() {
				err := load(bad)
				t.Check(err != nil, "accepts:"+why, "a dialect with %s is accepted:\n%s", why, bad)
			})
			bad = mangleD(t.R, text)
			t.NoPanic("LoadDialect", func() {
				if load(bad) != nil {
					c.AddExtra("damaged_rejected", 1)
				} else {
					c.AddExtra("damaged_accepted", 1)
				}
			})
			t.Obs("damaged", bad)
		}
	})
	c.Section("unchanged", 1, func(t *vk.T) {
		// the registries of the collections and the types are what they were
		for i := range colls {
			judgeRegistry(t, functions.NewFunctionRegistry(colls[i]), all[i])
		}
		(&dialectM{}).judgeTypes(t, functions.NewLocalTypeRegistry(nil), plain)
		t.Obs("after")
	})
}
