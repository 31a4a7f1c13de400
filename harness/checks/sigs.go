package checks

import (
	"fmt"
	"io/fs"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"

	"verif/harness/spec"
	"verif/harness/vk"
)

// genSig makes a function signature.
func genSig(r *vk.R) *spec.Sig {
	s := &spec.Sig{Null: vk.PickOf(r, "MIRROR", "MIRROR", "DECLARED_OUTPUT", "DISCRETE")}
	vars, anys := []string{"P", "S", "L1"}, []string{"any", "any1", "any1", "any2"}
	o := spec.PTOpt{Depth: r.N(3), Small: true}
	if r.P(3, 4) {
		o.Vars = vk.Sub(r, vars)
	}
	if r.P(2, 3) {
		o.Anys = vk.Sub(r, anys)
	}
	for i := r.N(5); i > 0; i-- {
		if r.P(1, 8) {
			s.Params = append(s.Params, spec.Param{Enum: []string{"A", "B"}})
			continue
		}
		if len(s.Params) > 0 && r.P(1, 4) { // repeat an earlier parameter
			if p := s.Params[r.N(len(s.Params))]; p.T != nil {
				s.Params = append(s.Params, p)
				continue
			}
		}
		s.Params = append(s.Params, spec.Param{T: spec.GenPT(r, o)})
	}
	if r.P(1, 3) && len(s.Params) > 0 {
		v := &spec.SigVariadic{Min: r.N(4), Consist: vk.PickOf(r, "CONSISTENT", "CONSISTENT", "INCONSISTENT", "")}
		if r.Bool() {
			v.Max = max(v.Min, 1) + r.N(3)
		}
		s.Var = v
	}
	ro := spec.PTOpt{Depth: r.N(3), Small: true}
	bv, ba := map[string]bool{}, map[string]bool{}
	for _, p := range s.Params {
		if p.T != nil {
			used(p.T, bv, ba)
		}
	}
	for _, v := range vars {
		if bv[v] || r.P(1, 40) {
			ro.Vars = append(ro.Vars, v)
		}
	}
	for _, a := range []string{"any", "any1", "any2"} {
		if ba[a] || r.P(1, 40) {
			ro.Anys = append(ro.Anys, a)
		}
	}
	s.Ret = genRet(r, ro)
	if r.P(1, 3) {
		s.Inter = genRet(r, ro)
	}
	return s
}

func genRet(r *vk.R, ro spec.PTOpt) *spec.PD {
	d := &spec.PD{}
	if r.P(2, 5) {
		vs := append([]string(nil), ro.Vars...)
		ro.Vars = nil
		for i := r.Range(1, 4); i > 0; i-- {
			name := vk.PickOf(r, "x", "prec", "init_scale", "P", "S", "y")
			d.Asgs = append(d.Asgs, spec.Asg{Name: name, E: spec.GenE(r, r.N(4), vs, 'i')})
			vs = append(vs, name)
			ro.Vars = append(ro.Vars, name)
		}
		ro.Vars = append(ro.Vars, vs...)
	}
	d.T = spec.GenPT(r, ro)
	return d
}

func used(p *spec.PT, vars, anys map[string]bool) {
	for _, i := range p.Ints {
		if i.Var != "" {
			vars[i.Var] = true
		}
	}
	if p.K == "any" {
		anys[p.Name] = true
	}
	for _, k := range p.Kids {
		used(k, vars, anys)
	}
	for _, u := range p.UDT {
		if u.T != nil {
			used(u.T, vars, anys)
		}
	}
}

func sigString(s *spec.Sig) string {
	var b strings.Builder
	b.WriteString(s.Null + " (")
	pr := spec.Pr{}
	for i, p := range s.Params {
		if i > 0 {
			b.WriteString(", ")
		}
		if p.T == nil {
			b.WriteString("enum")
		} else {
			b.WriteString(pr.PT(p.T))
		}
	}
	b.WriteString(")")
	if s.Var != nil {
		fmt.Fprintf(&b, " variadic %+v", *s.Var)
	}
	if s.Ret != nil {
		fmt.Fprintf(&b, " -> %q", pr.PD(s.Ret))
	}
	return b.String()
}

func argString(as []*spec.TS) string {
	var p []string
	for _, a := range as {
		if a == nil {
			p = append(p, "enum")
		} else {
			p = append(p, a.Full())
		}
	}
	return "[" + strings.Join(p, ", ") + "]"
}

const sigURN = "extension:verif:sigs"

// variants builds the three kinds of variants of a signature.
func variants(s *spec.Sig, name string) []extensions.FunctionVariant {
	te := func(d *spec.PD) *parser.TypeExpression { return &parser.TypeExpression{ValueType: d.Lib()} }
	impl := func() extensions.ScalarFunctionImpl {
		im := extensions.ScalarFunctionImpl{Nullability: extensions.NullabilityHandling(s.Null)}
		for i, p := range s.Params {
			if p.T == nil {
				im.Args = append(im.Args, extensions.EnumArg{Name: fmt.Sprintf("a%d", i), Options: p.Enum})
			} else {
				im.Args = append(im.Args, extensions.ValueArg{Name: fmt.Sprintf("a%d", i), Value: te(&spec.PD{T: p.T})})
			}
		}
		if s.Var != nil {
			im.Variadic = &extensions.VariadicBehavior{Min: s.Var.Min, Max: s.Var.Max, ParameterConsistency: extensions.ParameterConsistency(s.Var.Consist)}
		}
		if s.Ret != nil {
			im.Return = te(s.Ret)
		}
		return im
	}
	ag := func() extensions.AggregateFunctionImpl {
		im := extensions.AggregateFunctionImpl{ScalarFunctionImpl: impl()}
		if s.Inter != nil {
			im.Intermediate = *te(s.Inter)
			im.Decomposable = extensions.DecomposeMany
		}
		return im
	}
	sf := extensions.ScalarFunction{Name: name, Impls: []extensions.ScalarFunctionImpl{impl()}}
	af := extensions.AggregateFunction{Name: name, Impls: []extensions.AggregateFunctionImpl{ag()}}
	wf := extensions.WindowFunction{Name: name, Impls: []extensions.WindowFunctionImpl{{AggregateFunctionImpl: ag()}}}
	return []extensions.FunctionVariant{sf.GetVariants(sigURN)[0], af.GetVariants(sigURN)[0], wf.GetVariants(sigURN)[0]}
}

func libArgs(as []*spec.TS) []types.Type {
	out := make([]types.Type, len(as))
	for i, a := range as {
		if a == nil {
			out[i] = types.CommonEnumType
		} else {
			out[i] = a.Go()
		}
	}
	return out
}

// sigOf reads the signature of a variant; nil where it has parts outside the model.
func sigOf(v extensions.FunctionVariant) *spec.Sig {
	s := &spec.Sig{}
	for _, a := range v.Args() {
		switch p := a.(type) {
		case extensions.EnumArg:
			s.Params = append(s.Params, spec.Param{Enum: p.Options})
		case extensions.ValueArg:
			d := spec.PDFromLib(p.Value.ValueType)
			if d == nil || len(d.Asgs) > 0 {
				return nil
			}
			s.Params = append(s.Params, spec.Param{T: d.T})
		default:
			return nil
		}
	}
	if b := v.Variadic(); b != nil {
		s.Var = &spec.SigVariadic{Min: b.Min, Max: b.Max, Consist: string(b.ParameterConsistency)}
	}
	switch v := v.(type) {
	case *extensions.ScalarFunctionVariant:
		s.Null = string(v.Nullability())
	case *extensions.AggregateFunctionVariant:
		s.Null = string(v.Nullability())
	case *extensions.WindowFunctionVariant:
		s.Null = string(v.Nullability())
	}
	return s
}

// bundled are the variants of the bundled extensions.
func bundled() (out []extensions.FunctionVariant) {
	c := extensions.GetDefaultCollectionWithNoError()
	for _, f := range c.GetAllScalarFunctions() {
		out = append(out, f)
	}
	for _, f := range c.GetAllAggregateFunctions() {
		out = append(out, f)
	}
	for _, f := range c.GetAllWindowFunctions() {
		out = append(out, f)
	}
	return
}

// bundledReturns reads the return expressions from the text of the bundled
// extensions, without the library: URN | compound name to expression.
func bundledReturns(c *vk.C) map[string]*spec.PD {
	out := map[string]*spec.PD{}
	fsys := substrait.GetSubstraitExtensionsFS()
	unread := 0
	err := fs.WalkDir(fsys, ".", func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".yaml") {
			return err
		}
		text, err := fs.ReadFile(fsys, path)
		if err != nil {
			return err
		}
		var f struct {
			URN       string           `yaml:"urn"`
			Scalar    []map[string]any `yaml:"scalar_functions"`
			Aggregate []map[string]any `yaml:"aggregate_functions"`
			Window    []map[string]any `yaml:"window_functions"`
		}
		if err := yaml.Unmarshal(text, &f); err != nil {
			return fmt.Errorf("%s: %w", path, err)
		}
		for _, fn := range append(append(f.Scalar, f.Aggregate...), f.Window...) {
			impls, _ := fn["impls"].([]any)
			for _, im := range impls {
				m, _ := im.(map[string]any)
				var shorts []string
				ok := true
				args, _ := m["args"].([]any)
				for _, a := range args {
					a, _ := a.(map[string]any)
					switch {
					case a["value"] != nil:
						p, err := spec.RefParse(fmt.Sprint(a["value"]))
						if err != nil {
							ok = false
							break
						}
						shorts = append(shorts, p.T.Short())
					case a["options"] != nil:
						shorts = append(shorts, "req")
					default:
						ok = false
					}
				}
				ret, err := spec.RefParse(strings.TrimSpace(fmt.Sprint(m["return"])))
				if err != nil || !ok {
					unread++
					continue
				}
				out[fmt.Sprintf("%s|%s:%s", f.URN, fn["name"], strings.Join(shorts, "_"))] = ret
			}
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	c.Extra("return_texts", len(out))
	c.Extra("return_texts_unread", unread)
	return out
}
