package checks

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"sort"
	"strings"

	"github.com/creasty/defaults"
	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/extensions"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C11"] = c11 }

type fnKind int

const (
	fnScalar fnKind = iota
	fnAgg
	fnWin
)

func (k fnKind) String() string { return [...]string{"scalar", "aggregate", "window"}[k] }

// implM is the model of one implementation in an extension file.
type implM struct {
	Sig                   *spec.Sig
	Names, Descs          []string // of the arguments
	Const                 []bool
	Options               map[string]extensions.Option
	Det, Session, Ordered *bool
	MaxSet                int
	Decomp, WinType       string
	Impl                  map[string]string
}

type fnM struct {
	Name, Desc string
	Meta       map[string]any
	Impls      []*implM
}

type typeM struct {
	Name      string
	Variadic  bool
	Structure any
	Params    []extensions.TypeParamDef
	Meta      map[string]any
}

type fileM struct {
	URN   string
	Deps  map[string]string
	Meta  map[string]any
	Types []typeM
	Vars  []extensions.TypeVariation
	Fns   [3][]fnM
}

func (im *implM) compound(name string) string {
	var ss []string
	for _, p := range im.Sig.Params {
		if p.T == nil {
			ss = append(ss, "req")
		} else {
			ss = append(ss, p.T.Short())
		}
	}
	return name + ":" + strings.Join(ss, "_")
}

func genMeta(r *vk.R) map[string]any {
	if !r.P(1, 4) {
		return nil
	}
	m := map[string]any{"k1": "v: x"}
	if r.Bool() {
		m["nested"] = map[string]any{"list": []any{"a", "b"}, "flag": true}
	}
	return m
}

func genText(r *vk.R) string {
	return vk.PickOf(r, "", "", "plain", "a: colon", "two\nlines", "quote ' and \"", "- dash", "# hash", "é ü", "true", "10")
}

func udtNames(p *spec.PT, to map[string]bool) {
	if p.K == "udt" {
		to[p.Name] = true
	}
	for _, k := range p.Kids {
		udtNames(k, to)
	}
	for _, u := range p.UDT {
		if u.T != nil {
			udtNames(u.T, to)
		}
	}
}

func genFile(r *vk.R, urn string) *fileM {
	f := &fileM{URN: urn, Meta: genMeta(r)}
	optB := func() *bool {
		if r.Bool() {
			return nil
		}
		b := r.Bool()
		return &b
	}
	names := []string{"add", "sub", "f", "g_h", "add", "f", "Over", "x1"}
	udts := map[string]bool{}
	for k := fnScalar; k <= fnWin; k++ {
		seen := map[string]bool{}
		for i := r.N(4); i > 0; i-- {
			fn := fnM{Name: vk.Pick(r, names), Desc: genText(r), Meta: genMeta(r)}
			for j := r.Range(1, 3); j > 0; j-- {
				im := &implM{Sig: genSig(r), Det: optB(), Session: optB()}
				if k == fnScalar {
					im.Sig.Inter = nil
				} else {
					im.Ordered, im.MaxSet = optB(), r.N(3)
					im.Decomp = vk.PickOf(r, "", "NONE", "ONE", "MANY")
					if k == fnWin {
						im.WinType = vk.PickOf(r, "", "STREAMING", "PARTITION")
					}
				}
				if r.P(1, 4) {
					im.Sig.Null = "" // left out
				}
				if r.P(1, 3) {
					im.Options = map[string]extensions.Option{}
					for n := r.Range(1, 3); n > 0; n-- {
						im.Options[vk.PickOf(r, "overflow", "rounding", "on_x", "y")] = extensions.Option{Description: genText(r), Values: vk.PickOf(r, []string{"A"}, []string{"SILENT", "ERROR", "x y"}, []string{"true", "1"})}
					}
				}
				if r.P(1, 6) {
					im.Impl = map[string]string{"engine": "text"}
				}
				c := im.compound(fn.Name)
				if seen[c] {
					continue
				}
				seen[c] = true
				for _, p := range im.Sig.Params {
					im.Names = append(im.Names, vk.PickOf(r, "", "x", "arg name"))
					im.Descs = append(im.Descs, genText(r))
					im.Const = append(im.Const, r.P(1, 3))
					if p.T != nil {
						udtNames(p.T, udts)
					}
				}
				udtNames(im.Sig.Ret.T, udts)
				if im.Sig.Inter != nil {
					udtNames(im.Sig.Inter.T, udts)
				}
				fn.Impls = append(fn.Impls, im)
			}
			if len(fn.Impls) > 0 {
				f.Fns[k] = append(f.Fns[k], fn)
			}
		}
	}
	var ns []string
	for n := range udts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for i := r.N(3); i > 0; i-- {
		if n := vk.PickOf(r, "point", "line", "add"); !udts[n] {
			udts[n] = true
			ns = append(ns, n)
		}
	}
	for _, n := range ns {
		t := typeM{Name: n, Variadic: r.P(1, 4), Meta: genMeta(r)}
		switch r.N(4) {
		case 0:
			t.Structure = "fp64"
		case 1:
			t.Structure = map[string]any{"latitude": "i32", "longitude": "i32?"}
		}
		for i := r.N(3); i > 0; i-- {
			t.Params = append(t.Params, extensions.TypeParamDef{Name: vk.PickOf(r, "K", "T"), Description: genText(r),
				Type: vk.PickOf(r, extensions.ParamDataType, extensions.ParamBool, extensions.ParamInteger, extensions.ParamEnum, extensions.ParamString),
				Min:  r.N(3), Max: r.N(100), Options: vk.PickOf(r, nil, []string{"A", "B"}), Optional: r.Bool()})
		}
		f.Types = append(f.Types, t)
	}
	seen := map[string]bool{}
	for i := r.N(3); i > 0; i-- {
		n := vk.PickOf(r, "v1", "v2", "dict4", "add")
		if !seen[n] {
			seen[n] = true
			f.Vars = append(f.Vars, extensions.TypeVariation{Name: n, Parent: vk.PickOf(r, "i32", "string"), Description: genText(r),
				Functions: vk.PickOf(r, extensions.TypeVariationInheritsFuncs, extensions.TypeVariationSeparateFuncs)})
		}
	}
	return f
}

// doc is the file as generic data, with keys in a random order where the encoder keeps it.
func (f *fileM) doc(r *vk.R) any {
	pr := spec.Pr{R: r}
	set := func(m yaml.MapSlice, k string, v any, omit bool) yaml.MapSlice {
		if omit {
			return m
		}
		return append(m, yaml.MapItem{Key: k, Value: v})
	}
	shuffle := func(m yaml.MapSlice) yaml.MapSlice { vk.Shuffle(r, m); return m }
	impl := func(k fnKind, im *implM) any {
		var m yaml.MapSlice
		var args []any
		for i, p := range im.Sig.Params {
			var a yaml.MapSlice
			a = set(a, "name", im.Names[i], im.Names[i] == "")
			a = set(a, "description", im.Descs[i], im.Descs[i] == "")
			if p.T == nil {
				a = set(a, "options", p.Enum, false)
			} else {
				a = set(a, "value", pr.PT(p.T), false)
				a = set(a, "constant", im.Const[i], !im.Const[i])
			}
			args = append(args, shuffle(a))
		}
		m = set(m, "args", args, args == nil)
		if im.Options != nil {
			o := map[string]any{}
			for n, v := range im.Options {
				o[n] = yaml.MapSlice{{Key: "values", Value: v.Values}, {Key: "description", Value: v.Description}}
			}
			m = set(m, "options", o, false)
		}
		if v := im.Sig.Var; v != nil {
			w := yaml.MapSlice{}
			w = set(w, "min", v.Min, v.Min == 0)
			w = set(w, "max", v.Max, v.Max == 0)
			w = set(w, "parameterConsistency", v.Consist, v.Consist == "")
			if len(w) > 0 {
				m = set(m, "variadic", w, false)
			} else {
				m = set(m, "variadic", yaml.MapSlice{{Key: "min", Value: 0}}, false)
			}
		}
		if im.Det != nil {
			m = set(m, "deterministic", *im.Det, false)
		}
		if im.Session != nil {
			m = set(m, "sessionDependent", *im.Session, false)
		}
		m = set(m, "nullability", im.Sig.Null, im.Sig.Null == "")
		m = set(m, "return", pr.PD(im.Sig.Ret), false)
		m = set(m, "implementation", im.Impl, im.Impl == nil)
		if k != fnScalar {
			if im.Sig.Inter != nil {
				m = set(m, "intermediate", pr.PD(im.Sig.Inter), false)
			}
			if im.Ordered != nil {
				m = set(m, "ordered", *im.Ordered, false)
			}
			m = set(m, "maxset", im.MaxSet, im.MaxSet == 0)
			m = set(m, "decomposable", im.Decomp, im.Decomp == "")
		}
		if k == fnWin {
			m = set(m, "window_type", im.WinType, im.WinType == "")
		}
		return shuffle(m)
	}
	d := yaml.MapSlice{{Key: "urn", Value: f.URN}}
	d = set(d, "dependencies", f.Deps, f.Deps == nil)
	d = set(d, "metadata", f.Meta, f.Meta == nil)
	var ts []any
	for _, t := range f.Types {
		m := yaml.MapSlice{{Key: "name", Value: t.Name}}
		m = set(m, "variadic", t.Variadic, !t.Variadic)
		m = set(m, "structure", t.Structure, t.Structure == nil)
		m = set(m, "metadata", t.Meta, t.Meta == nil)
		var ps []any
		for _, p := range t.Params {
			q := yaml.MapSlice{{Key: "name", Value: p.Name}, {Key: "type", Value: string(p.Type)}, {Key: "min", Value: p.Min}, {Key: "max", Value: p.Max}}
			q = set(q, "description", p.Description, false)
			q = set(q, "options", p.Options, p.Options == nil)
			q = set(q, "optional", p.Optional, !p.Optional)
			ps = append(ps, shuffle(q))
		}
		m = set(m, "parameters", ps, ps == nil)
		ts = append(ts, shuffle(m))
	}
	d = set(d, "types", ts, ts == nil)
	var vs []any
	for _, v := range f.Vars {
		vs = append(vs, shuffle(yaml.MapSlice{{Key: "name", Value: v.Name}, {Key: "parent", Value: v.Parent}, {Key: "description", Value: v.Description}, {Key: "functions", Value: string(v.Functions)}}))
	}
	d = set(d, "type_variations", vs, vs == nil)
	for k, fns := range f.Fns {
		var l []any
		for _, fn := range fns {
			m := yaml.MapSlice{{Key: "name", Value: fn.Name}}
			m = set(m, "description", fn.Desc, fn.Desc == "")
			m = set(m, "metadata", fn.Meta, fn.Meta == nil)
			var is []any
			for _, im := range fn.Impls {
				is = append(is, impl(fnKind(k), im))
			}
			m = set(m, "impls", is, false)
			l = append(l, shuffle(m))
		}
		d = set(d, []string{"scalar_functions", "aggregate_functions", "window_functions"}[k], l, l == nil)
	}
	return shuffle(d)
}

// jsonOf renders data, which is YAML as well.
func jsonOf(b *strings.Builder, v any, indent string) {
	switch v := v.(type) {
	case yaml.MapSlice:
		b.WriteString("{")
		for i, it := range v {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(indent)
			k, _ := json.Marshal(it.Key)
			b.Write(k)
			b.WriteString(": ")
			jsonOf(b, it.Value, indent)
		}
		b.WriteString("}")
	case []any:
		b.WriteString("[")
		for i, it := range v {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(indent)
			jsonOf(b, it, indent)
		}
		b.WriteString("]")
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var m yaml.MapSlice
		for _, k := range ks {
			m = append(m, yaml.MapItem{Key: k, Value: v[k]})
		}
		jsonOf(b, m, indent)
	default:
		x, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		b.Write(x)
	}
}

func (f *fileM) text(r *vk.R) string {
	d := f.doc(r)
	if r.P(1, 3) {
		b, err := yaml.Marshal(d)
		if err != nil {
			panic(err)
		}
		// the encoder is not what is checked: use the text where it reads back the same
		var back any
		var x, y strings.Builder
		if yaml.UnmarshalWithOptions(b, &back, yaml.UseOrderedMap()) == nil {
			jsonOf(&x, back, "")
			jsonOf(&y, d, "")
			if x.String() == y.String() {
				return "%YAML 1.2\n---\n" + string(b)
			}
		}
	}
	var b strings.Builder
	jsonOf(&b, d, vk.PickOf(r, "", " ", "\n"))
	return b.String()
}

func norm(v any) string {
	var b strings.Builder
	jsonOf(&b, v, "")
	return b.String()
}

func normMeta(m map[string]any) string {
	if m == nil {
		return "nil"
	}
	return norm(m)
}

func or(b *bool, d bool) bool {
	if b == nil {
		return d
	}
	return *b
}

func orS(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// collM is the model of a collection.
type collM struct {
	files map[string]*fileM
}

type declared struct {
	f   *fileM
	fn  *fnM
	im  *implM
	agg bool // an aggregate usable as a window function
}

// functions are the functions the collection must have, by ID.
func (m *collM) functions(k fnKind) map[extensions.FunctionID]declared {
	out := map[extensions.FunctionID]declared{}
	for _, f := range m.files {
		add := func(k fnKind, agg bool) {
			for i := range f.Fns[k] {
				fn := &f.Fns[k][i]
				for _, im := range fn.Impls {
					id := extensions.FunctionID{URN: f.URN, Name: im.compound(fn.Name)}
					if _, ok := out[id]; !ok {
						out[id] = declared{f, fn, im, agg}
					}
				}
			}
		}
		add(k, false)
		if k == fnWin {
			add(fnAgg, true)
		}
	}
	return out
}

func getFn(c *extensions.Collection, k fnKind, id extensions.FunctionID) (extensions.FunctionVariant, bool) {
	switch k {
	case fnScalar:
		v, ok := c.GetScalarFunc(id)
		return v, ok
	case fnAgg:
		v, ok := c.GetAggregateFunc(id)
		return v, ok
	}
	v, ok := c.GetWindowFunc(id)
	return v, ok
}

func allFn(c *extensions.Collection, k fnKind) (out []extensions.FunctionVariant) {
	switch k {
	case fnScalar:
		for _, v := range c.GetAllScalarFunctions() {
			out = append(out, v)
		}
	case fnAgg:
		for _, v := range c.GetAllAggregateFunctions() {
			out = append(out, v)
		}
	default:
		for _, v := range c.GetAllWindowFunctions() {
			out = append(out, v)
		}
	}
	return
}

// describe is everything the accessors of a variant say.
func describe(v extensions.FunctionVariant) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%T %q %q %q %q meta %s", v, v.URN(), v.Name(), v.CompoundName(), v.Description(), normMeta(v.Metadata()))
	for _, a := range v.Args() {
		switch a := a.(type) {
		case extensions.EnumArg:
			fmt.Fprintf(&b, " enum(%q %q %q)", a.Name, a.Description, a.Options)
		case extensions.ValueArg:
			fmt.Fprintf(&b, " value(%q %q %v %s)", a.Name, a.Description, a.Constant, spec.DumpLib(a.Value.ValueType))
		case extensions.TypeArg:
			fmt.Fprintf(&b, " type(%q %q)", a.Name, a.Description)
		default:
			fmt.Fprintf(&b, " %T", a)
		}
	}
	if w := v.Variadic(); w != nil {
		fmt.Fprintf(&b, " variadic %d %d %s", w.Min, w.Max, w.ParameterConsistency)
	}
	opts := v.Options()
	var ks []string
	for k := range opts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " option %q %q %q", k, opts[k].Description, opts[k].Values)
	}
	type common interface {
		Deterministic() bool
		SessionDependent() bool
		Nullability() extensions.NullabilityHandling
		ID() extensions.FunctionID
	}
	type agg interface {
		Decomposability() extensions.DecomposeType
		Ordered() bool
		MaxSet() int
	}
	c := v.(common)
	fmt.Fprintf(&b, " det=%v session=%v null=%s id=%q/%q", c.Deterministic(), c.SessionDependent(), c.Nullability(), c.ID().URN, c.ID().Name)
	if a, ok := v.(agg); ok {
		fmt.Fprintf(&b, " decomp=%s ordered=%v maxset=%d", a.Decomposability(), a.Ordered(), a.MaxSet())
		if i, has := interOf(v); has {
			fmt.Fprintf(&b, " inter=%s", spec.DumpLib(i))
		}
	}
	if w, ok := v.(*extensions.WindowFunctionVariant); ok {
		fmt.Fprintf(&b, " wintype=%s", w.WindowType())
	}
	return b.String()
}

// want is the same from the model.
func (d declared) want(k fnKind) string {
	var b strings.Builder
	im, cn := d.im, d.im.compound(d.fn.Name)
	fmt.Fprintf(&b, "%s %q %q %q %q meta %s", [...]string{"*extensions.ScalarFunctionVariant", "*extensions.AggregateFunctionVariant", "*extensions.WindowFunctionVariant"}[k],
		d.f.URN, d.fn.Name, cn, d.fn.Desc, normMeta(d.fn.Meta))
	for i, p := range im.Sig.Params {
		if p.T == nil {
			fmt.Fprintf(&b, " enum(%q %q %q)", im.Names[i], im.Descs[i], p.Enum)
		} else {
			fmt.Fprintf(&b, " value(%q %q %v %s)", im.Names[i], im.Descs[i], im.Const[i], (&spec.PD{T: p.T}).Dump())
		}
	}
	if w := im.Sig.Var; w != nil {
		fmt.Fprintf(&b, " variadic %d %d %s", w.Min, w.Max, orS(w.Consist, "CONSISTENT"))
	}
	var ks []string
	for n := range im.Options {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	for _, n := range ks {
		fmt.Fprintf(&b, " option %q %q %q", n, im.Options[n].Description, im.Options[n].Values)
	}
	fmt.Fprintf(&b, " det=%v session=%v null=%s id=%q/%q", or(im.Det, true), or(im.Session, false), orS(im.Sig.Null, "MIRROR"), d.f.URN, cn)
	if k != fnScalar {
		fmt.Fprintf(&b, " decomp=%s ordered=%v maxset=%d", orS(im.Decomp, "NONE"), or(im.Ordered, false), im.MaxSet)
		if im.Sig.Inter != nil {
			fmt.Fprintf(&b, " inter=%s", im.Sig.Inter.Dump())
		}
	}
	if k == fnWin {
		wt := orS(im.WinType, "PARTITION")
		if d.agg {
			wt = "STREAMING"
		}
		fmt.Fprintf(&b, " wintype=%s", wt)
	}
	return b.String()
}

// print is everything a collection has, for comparing before and after.
func collPrint(c *extensions.Collection, urns []string) string {
	var out []string
	for k := fnScalar; k <= fnWin; k++ {
		for _, v := range allFn(c, k) {
			out = append(out, describe(v))
			_, ok := getFn(c, k, extensions.FunctionID{URN: v.URN(), Name: v.Name()})
			out = append(out, fmt.Sprintf("%s %s simple %v", v.URN(), v.CompoundName(), ok))
		}
	}
	for _, u := range urns {
		out = append(out, fmt.Sprintf("%s loaded %v %s", u, c.URNLoaded(u), normMeta(c.GetFileMetadata(u))))
		for _, n := range []string{"point", "line", "add", "t1"} {
			t, ok := c.GetType(extensions.TypeID{URN: u, Name: n})
			out = append(out, fmt.Sprintf("%s type %v %+v", u, ok, t))
		}
		for _, n := range []string{"v1", "v2", "dict4", "add"} {
			t, ok := c.GetTypeVariation(extensions.TypeVariationID{URN: u, Name: n})
			out = append(out, fmt.Sprintf("%s variation %v %+v", u, ok, t))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// judge compares the collection with the model.
func (m *collM) judge(t *vk.T, c *extensions.Collection) {
	for k := fnScalar; k <= fnWin; k++ {
		want := m.functions(k)
		byName := map[extensions.FunctionID]int{}
		for id, d := range want {
			v, ok := getFn(c, k, id)
			if !t.Check(ok, "missing:"+k.String(), "%s function %v is not found", k, id) {
				continue
			}
			got, exp := describe(v), d.want(k)
			t.Check(got == exp, "definition:"+k.String(), "%s function %v is\n %s\nwant\n %s", k, id, got, exp)
			byName[extensions.FunctionID{URN: id.URN, Name: d.fn.Name}]++
		}
		seen := map[extensions.FunctionID]bool{}
		for _, v := range allFn(c, k) {
			id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
			_, ok := want[id]
			t.Check(ok && !seen[id], "listing:"+k.String(), "%s function %v is listed but not declared, or twice", k, id)
			seen[id] = true
		}
		t.Check(len(seen) == len(want), "listing:"+k.String(), "%d %s functions are listed of %d", len(seen), k, len(want))
		for id, n := range byName {
			v, ok := getFn(c, k, id)
			if t.Check(ok == (n == 1), "simple-name:"+k.String(), "%s name %v of %d implementations resolves: %v", k, id, n, ok) && ok {
				t.Check(v.Name() == id.Name && v.URN() == id.URN, "simple-name:"+k.String(), "%s name %v resolves to %s", k, id, v.CompoundName())
			}
		}
		for u := range m.files {
			for _, n := range []string{"nope", "", ":", "add:", "nope:i8", "f:"} {
				id := extensions.FunctionID{URN: u, Name: n}
				if _, ok := want[id]; !ok && byName[id] == 0 {
					v, ok := getFn(c, k, id)
					t.Check(!ok, "extra:"+k.String(), "undeclared %s function %v resolves to %v", k, id, v)
				}
			}
		}
	}
	for u, f := range m.files {
		t.Check(c.URNLoaded(u), "urn", "%s is not loaded", u)
		t.Check(normMeta(c.GetFileMetadata(u)) == normMeta(f.Meta), "file-metadata", "metadata of %s is %v, want %v", u, c.GetFileMetadata(u), f.Meta)
		for _, w := range f.Types {
			g, ok := c.GetType(extensions.TypeID{URN: u, Name: w.Name})
			ps := func(p []extensions.TypeParamDef) string { return fmt.Sprintf("%+v", p) }
			t.Check(ok && g.Name == w.Name && g.Variadic == w.Variadic && norm(g.Structure) == norm(w.Structure) && ps(g.Parameters) == ps(w.Params) && normMeta(g.Metadata) == normMeta(w.Meta),
				"type", "type %s is %+v (found %v), want %+v", w.Name, g, ok, w)
		}
		for _, w := range f.Vars {
			g, ok := c.GetTypeVariation(extensions.TypeVariationID{URN: u, Name: w.Name})
			t.Check(ok && g == w, "variation", "type variation %s is %+v (found %v), want %+v", w.Name, g, ok, w)
		}
		_, ok := c.GetType(extensions.TypeID{URN: u, Name: "nope"})
		t.Check(!ok, "extra:type", "an undeclared type is found")
		_, ok = c.GetTypeVariation(extensions.TypeVariationID{URN: u, Name: "nope"})
		t.Check(!ok, "extra:variation", "an undeclared variation is found")
	}
	t.Check(!c.URNLoaded("extension:not:there"), "urn", "a URN which was not loaded is")
}

// spoil makes a file which must not load.
func (f *fileM) spoil(t *vk.T, m *collM) (text, why string) {
	r := t.R
	g := *f
	switch r.N(9) {
	case 0:
		g.URN, why = "", "no urn"
	case 1:
		g.URN, why = vk.PickOf(r, "https://a/b.yaml", "extension:a", "extension:a:b:c", "extension::b", "x:a:b", "extension:a:"), "bad urn"
	case 2:
		g.Deps, why = map[string]string{"d": "extension:not:there"}, "unknown dependency"
	case 3:
		if len(m.files) == 0 {
			return "", ""
		}
		for u := range m.files {
			g.Deps = map[string]string{vk.PickOf(r, "1a", "a-b", "", "a.b"): u}
			break
		}
		why = "bad alias"
	case 4:
		for u := range m.files {
			if why == "" || u < g.URN {
				g.URN, why = u, "urn loaded already"
			}
		}
		if why == "" {
			return "", ""
		}
	case 5, 6:
		used := map[string]bool{}
		for k := range g.Fns {
			for _, fn := range g.Fns[k] {
				for _, im := range fn.Impls {
					for _, p := range im.Sig.Params {
						if p.T != nil {
							udtNames(p.T, used)
						}
					}
					udtNames(im.Sig.Ret.T, used)
					if im.Sig.Inter != nil {
						udtNames(im.Sig.Inter.T, used)
					}
				}
			}
		}
		var keep []typeM
		for _, ty := range g.Types {
			if used[ty.Name] && why == "" {
				why = "undeclared type " + ty.Name
				continue
			}
			keep = append(keep, ty)
		}
		if why == "" {
			return "", ""
		}
		g.Types = keep
	default:
		text := f.text(r)
		bad := vk.PickOf(r, "\"i32 i32\"", "\"decimal<1>\"", "\"list<>\"", "\"varchar<99999999999>\"", "\"\"", "5", "[]", "{}")
		at := strings.Index(text, `"return": "`)
		if at < 0 {
			return "", ""
		}
		end := strings.Index(text[at+11:], `"`)
		return text[:at] + `"return": ` + bad + text[at+11+end+1:], "bad return type " + bad
	}
	return g.text(r), why
}

// mangle damages the text of a file.
func mangle(r *vk.R, text string) string {
	switch r.N(7) {
	case 0:
		return text[:r.N(len(text)+1)]
	case 1:
		i := r.N(len(text))
		return text[:i] + vk.PickOf(r, "5", "null", "[", "}", "\"", ": ", "- x", "\t", "&a", "*a", "{}", "[]", "true", "\x00", "é") + text[i:]
	case 2:
		i := r.N(len(text))
		j := min(len(text), i+1+r.N(8))
		return text[:i] + text[j:]
	default: // replace a value
		key := vk.PickOf(r, "name", "description", "options", "value", "constant", "args", "values", "variadic", "min", "impls", "return", "intermediate", "ordered", "maxset", "metadata",
			"types", "type_variations", "scalar_functions", "parameters", "deterministic", "nullability", "structure", "urn", "dependencies")
		var at []int
		for i := 0; ; {
			j := strings.Index(text[i:], `"`+key+`": `)
			if j < 0 {
				break
			}
			i += j + len(key) + 4
			at = append(at, i)
		}
		if len(at) == 0 {
			return text
		}
		i := vk.Pick(r, at)
		end := i
		for depth := 0; end < len(text); end++ {
			c := text[end]
			if c == '"' {
				for end++; end < len(text) && text[end] != '"'; end++ {
					if text[end] == '\\' {
						end++
					}
				}
				continue
			}
			if c == '{' || c == '[' {
				depth++
			}
			if c == '}' || c == ']' {
				depth--
			}
			if depth < 0 || depth == 0 && c == ',' {
				break
			}
		}
		v := vk.PickOf(r, "5", "null", "[]", "{}", "true", "\"x\"", "[null]", "[5]", "[{}]", "{\"a\": null}", "[\"a\"]", "{\"name\": 5}", "[{\"name\": \"x\"}]", "[{\"type\": \"i32\", \"name\": \"t\"}]", "[{\"value\": null}]", "[{\"options\": null}]", "1.5", "-3", "[[]]")
		return text[:i] + v + text[min(end, len(text)):]
	}
}

// judgeFile decodes the file itself and compares the variants each of its
// functions gives for a URN with the model.
func (f *fileM) judgeFile(t *vk.T, text, urn string) {
	var x extensions.SimpleExtensionFile
	if err := yaml.Unmarshal([]byte(text), &x); !t.Check(err == nil, "file-rejects", "a valid file does not decode: %v", err) {
		return
	}
	t.Check(x.Urn == f.URN && normMeta(x.Metadata) == normMeta(f.Meta) && len(x.Types) == len(f.Types) && len(x.TypeVariations) == len(f.Vars), "file", "the file decodes to %+v", x)
	var got [3][][]extensions.FunctionVariant
	add := func(k fnKind, fn any, resolve func(string) []extensions.FunctionVariant) {
		t.NoPanic("ResolveURN", func() {
			if err := defaults.Set(fn); err != nil {
				panic(err)
			}
			got[k] = append(got[k], resolve(urn))
		})
	}
	for i := range x.ScalarFunctions {
		add(fnScalar, &x.ScalarFunctions[i], x.ScalarFunctions[i].ResolveURN)
	}
	for i := range x.AggregateFunctions {
		add(fnAgg, &x.AggregateFunctions[i], x.AggregateFunctions[i].ResolveURN)
	}
	for i := range x.WindowFunctions {
		add(fnWin, &x.WindowFunctions[i], x.WindowFunctions[i].ResolveURN)
	}
	g := *f
	g.URN = urn
	for k := range got {
		if !t.Check(len(got[k]) == len(f.Fns[k]), "file-functions", "%d %s functions of %d", len(got[k]), fnKind(k), len(f.Fns[k])) {
			continue
		}
		for i, vs := range got[k] {
			fn := &f.Fns[k][i]
			if !t.Check(len(vs) == len(fn.Impls), "file-impls:"+fnKind(k).String(), "%s has %d variants of %d", fn.Name, len(vs), len(fn.Impls)) {
				continue
			}
			for j, v := range vs {
				want := declared{&g, fn, fn.Impls[j], false}.want(fnKind(k))
				t.Check(describe(v) == want, "file-definition:"+fnKind(k).String(), "variant %d of %s is\n %s\nwant\n %s", j, fn.Name, describe(v), want)
			}
		}
	}
}

func c11(c *vk.C) {
	c.Rule("sequences of generated extension files (functions of all kinds with every field present or left to its default, types, variations, metadata, dependencies) are loaded into one collection in block and flow style, interleaved with files which must be rejected and with damaged files; " +
		"after every load the whole collection is compared with the model of what was declared; every bundled file is compared with an independent reading of its text; non-trivial: distinct texts loaded")
	urns := []string{"extension:verif:a", "extension:verif:b", "extension:other:a", "extension:v:x-y_z.1"}
	c.ParSection("sequences", c.Scale(2000, 40000), func(t *vk.T) {
		coll := &extensions.Collection{}
		m := &collM{files: map[string]*fileM{}}
		var log []string
		t.Desc = func() string {
			s := strings.Join(log, "\n== load\n")
			if len(s) > 6000 {
				s = s[len(s)-6000:]
			}
			return s
		}
		us := append([]string(nil), urns...)
		vk.Shuffle(t.R, us)
		for _, u := range us[:t.R.Range(1, 4)] {
			f := genFile(t.R, u)
			if t.R.P(1, 3) {
				for d := range m.files {
					f.Deps = map[string]string{vk.PickOf(t.R, "dep", "_d1", "$x"): d}
				}
			}
			var err error
			for i := t.R.N(3); i > 0; i-- { // files which do not load
				var text, why string
				if t.R.Bool() {
					if text, why = f.spoil(t, m); text == "" {
						continue
					}
				} else {
					text = mangle(t.R, f.text(t.R))
				}
				log = append(log, text)
				before := ""
				if len(m.files) > 0 || t.R.Bool() {
					before = collPrint(coll, urns)
				}
				if !t.NoPanic("Load", func() { err = coll.Load(strings.NewReader(text)) }) {
					return
				}
				if why != "" {
					t.Check(err != nil, "accepts:"+strings.Fields(why)[0]+" "+strings.Fields(why)[1], "a file with %s is loaded", why)
				}
				if err == nil { // what it is now is not specified, but it must be usable
					t.NoPanic("use", func() {
						for k := fnScalar; k <= fnWin; k++ {
							for _, v := range allFn(coll, k) {
								describe(v)
								_, _ = v.Match(nil)
								_, _ = v.ResolveType(nil, extensions.NewSet())
								_, _ = v.MinArgumentCount(), v.MaxArgumentCount()
							}
						}
					})
					c.AddExtra("damaged_but_accepted", 1)
					t.Obs("damaged", text)
					return
				}
				c.AddExtra("rejected", 1)
				t.Obs("rejected", text)
				if before != "" {
					after := collPrint(coll, urns)
					t.Check(before == after, "failed-load-changes", "loading failed (%v) but changed the collection from\n%s\nto\n%s", err, before, after)
				}
			}
			text := f.text(t.R)
			log = append(log, text)
			if !t.NoPanic("Load", func() { err = coll.Load(strings.NewReader(text)) }) {
				return
			}
			if !t.Check(err == nil, "rejects", "a valid file is rejected: %v", err) {
				return
			}
			m.files[u] = f
			m.judge(t, coll)
			f.judgeFile(t, text, vk.PickOf(t.R, u, "extension:some:other"))
			t.Obs(text)
			c.AddExtra("loaded", 1)
		}
		// return expressions and matching
		for k := fnScalar; k <= fnWin; k++ {
			for id, d := range m.functions(k) {
				v, ok := getFn(coll, k, id)
				if !ok {
					continue
				}
				s := *d.im.Sig
				s.Null = orS(s.Null, "MIRROR")
				if s.Var != nil {
					w := *s.Var
					w.Consist = orS(w.Consist, "CONSISTENT")
					s.Var = &w
				}
				set := extensions.NewSet()
				judgeResolve(t, c, v, &s, d.f.URN, s.Args(t.R, refOf(set, d.f.URN)), set)
			}
		}
	})
	c.Rule("arguments: functions with arguments of the three kinds with fields present or left out, and with one field of one argument of another type, which is refused; non-trivial = kinds of arguments, or the field and what it is")
	c.ParSection("arguments", c.Scale(6000, 100000), arguments)
	c11bundled(c)
}

// c11bundled compares the default collection with an independent reading of the bundled files.
func c11bundled(c *vk.C) {
	type arg struct {
		Name, Description string
		Value             *string
		Options           []string
		Constant          bool
	}
	type impl struct {
		Args     []arg
		Options  map[string]extensions.Option
		Variadic *struct {
			Min, Max             int
			ParameterConsistency string `yaml:"parameterConsistency"`
		}
		Deterministic    *bool
		SessionDependent *bool `yaml:"sessionDependent"`
		Nullability      string
		Return           string
		Intermediate     string
		Ordered          *bool
		MaxSet           int
		Decomposable     string
		WindowType       string `yaml:"window_type"`
	}
	type fn struct {
		Name, Description string
		Impls             []impl
	}
	type file struct {
		URN   string
		Types []struct{ Name string }
		Vars  []extensions.TypeVariation `yaml:"type_variations"`
		S     []fn                       `yaml:"scalar_functions"`
		A     []fn                       `yaml:"aggregate_functions"`
		W     []fn                       `yaml:"window_functions"`
	}
	c.Section("bundled", 1, func(t *vk.T) {
		coll := extensions.GetDefaultCollectionWithNoError()
		m := &collM{files: map[string]*fileM{}}
		fsys := substrait.GetSubstraitExtensionsFS()
		outside := 0
		err := fs.WalkDir(fsys, ".", func(path string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(path, ".yaml") || strings.HasSuffix(path, "unknown.yaml") {
				return err
			}
			text, err := fs.ReadFile(fsys, path)
			if err != nil {
				return err
			}
			var x file
			if err := yaml.Unmarshal(text, &x); err != nil {
				return fmt.Errorf("%s: %w", path, err)
			}
			f := &fileM{URN: x.URN, Vars: x.Vars}
			for k, fns := range [][]fn{x.S, x.A, x.W} {
				for _, y := range fns {
					z := fnM{Name: y.Name, Desc: y.Description}
					for _, im := range y.Impls {
						o := &implM{Sig: &spec.Sig{Null: im.Nullability}, Options: im.Options, Det: im.Deterministic, Session: im.SessionDependent, Ordered: im.Ordered, MaxSet: im.MaxSet, Decomp: im.Decomposable, WinType: im.WindowType}
						for _, a := range im.Args {
							o.Names, o.Descs, o.Const = append(o.Names, a.Name), append(o.Descs, a.Description), append(o.Const, a.Constant)
							if a.Value == nil {
								o.Sig.Params = append(o.Sig.Params, spec.Param{Enum: a.Options})
								continue
							}
							p, err := spec.RefParse(*a.Value)
							if err != nil {
								return fmt.Errorf("%s: %s: %w", path, *a.Value, err)
							}
							o.Sig.Params = append(o.Sig.Params, spec.Param{T: p.T})
						}
						if im.Variadic != nil {
							o.Sig.Var = &spec.SigVariadic{Min: im.Variadic.Min, Max: im.Variadic.Max, Consist: im.Variadic.ParameterConsistency}
						}
						if im.Intermediate != "" {
							p, err := spec.RefParse(strings.TrimSpace(im.Intermediate))
							if err != nil {
								outside++
							}
							o.Sig.Inter = p
						}
						z.Impls = append(z.Impls, o)
					}
					f.Fns[k] = append(f.Fns[k], z)
				}
			}
			m.files[x.URN] = f
			return nil
		})
		t.Must(err == nil, "bundled-unreadable", "%v", err)
		m.judge(t, coll)
		for k := fnScalar; k <= fnWin; k++ {
			for id := range m.functions(k) {
				t.Obs(k.String(), id.URN, id.Name)
			}
		}
		c.Extra("bundled_files", len(m.files))
		c.Extra("bundled_intermediates_outside_model", outside)
	})
}
