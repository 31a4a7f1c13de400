package checks

import (
	"fmt"
	"slices"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C13"] = c13 }

// interOf reads the declared intermediate type of a variant.
func interOf(v extensions.FunctionVariant) (inter types.FuncDefArgType, has bool) {
	var err error
	switch v := v.(type) {
	case *extensions.AggregateFunctionVariant:
		inter, err = v.Intermediate()
	case *extensions.WindowFunctionVariant:
		inter, err = v.Intermediate()
	default:
		return nil, false
	}
	return inter, err == nil
}

// outcome of a resolution, as text.
func resolved(ty types.Type, err error) string {
	if err != nil {
		return "error"
	}
	if ty == nil {
		return "nil"
	}
	return spec.FromGo(ty).Full()
}

// judgeResolve compares the resolved type with the model's.
func judgeResolve(t *vk.T, c *vk.C, v extensions.FunctionVariant, s *spec.Sig, urn string, args []*spec.TS, set extensions.Set) (out string) {
	la := libArgs(args)
	before := argString(args)
	m, b := s.Match(args)
	var ty types.Type
	var err error
	if !t.NoPanic("ResolveType", func() { ty, err = v.ResolveType(la, set) }) {
		return "panic"
	}
	after := make([]*spec.TS, len(la))
	for i, a := range la {
		if args[i] != nil {
			after[i] = spec.FromGo(a)
		}
	}
	t.Check(argString(after) == before, "args-changed", "the argument types changed from %s to %s", before, argString(after))
	if err == nil && !t.Check(ty != nil, "nil-type", "no type and no error") {
		return "nil"
	}
	out = resolved(ty, err)
	if m == spec.Unspec {
		return
	}
	if m == spec.No {
		t.Check(err != nil, "accepts-mismatch", "arguments %s do not match but resolve to %s", before, out)
		t.Obs("mismatch", sigString(s), before)
		return
	}
	r := s.Resolve(s.Ret, args, b, refOf(set, urn))
	switch {
	case r.Unspec:
		c.AddExtra("unspecified", 1)
	case r.Err:
		t.Check(err != nil, "underivable", "no return type can be derived for %s but it resolves to %s", before, out)
		t.Obs("underivable", sigString(s), before)
		c.AddExtra("underivable", 1)
	default:
		if err != nil {
			t.Check(r.Loose, "error:"+s.Ret.T.K, "arguments %s fail to resolve: %v; want %s", before, err, r.Types[0].Full())
			return
		}
		ok := false
		for _, w := range r.Types {
			ok = ok || w.Full() == out
		}
		t.Check(ok, "type:"+s.Ret.T.K, "arguments %s resolve to %s, want %s (%d alternatives)", before, out, r.Types[0].Full(), len(r.Types))
		t.Obs("type", sigString(s), before, out)
		c.AddExtra("typed", 1)
	}
	return
}

// withParameters: a declared type given the parameters of a type it describes
// is that type, with the declared nullability.
func withParameters(t *vk.T) {
	r := t.R
	var p *spec.PT
	for p == nil || !rebuilt(p) {
		p = spec.GenPT(r, spec.PTOpt{Depth: r.N(4), Vars: []string{"P", "S", "L1"}, Anys: []string{"any", "any1"}, Small: true})
	}
	sig := &spec.Sig{Params: []spec.Param{{T: p}}, Null: "MIRROR"}
	arg := sig.Args(r, func(string) uint32 { return 1 })[0]
	t.Desc = func() string { return fmt.Sprintf("%s with the parameters of %s", p.Dump(), arg) }
	if m, _ := sig.Match([]*spec.TS{arg}); m != spec.Yes {
		return // a number which does not suit the kind
	}
	ft, want := p.Lib(), asDeclared(p, arg)
	params := arg.Go().GetParameters()
	var got types.Type
	var err error
	if t.NoPanic("WithParameters", func() { got, err = ft.WithParameters(params) }) {
		t.Must(err == nil && got != nil, "with-parameters-refused:"+p.K, "%v, %v", got, err)
		t.Check(pb.Equal(types.TypeToProto(got), want.Proto()), "with-parameters:"+p.K, "%v, want %s", got, want)
		t.Check(spec.DumpLib(ft) == p.Dump(), "with-parameters-changed", "the declared type is %s now", spec.DumpLib(ft))
	}
	t.Obs(p.Dump(), arg.String())
	// too many or foreign parameters give an error or a type, no panic
	t.NoPanic("WithParameters-wrong", func() {
		for _, ps := range [][]any{append(slices.Clone(params), params...), {"x"}, {"x", "y"}, {nil}, {nil, nil}} {
			g, err := ft.WithParameters(ps)
			if p.K != "scalar" && len(ps) > 0 && len(ps) == len(params) {
				t.Check(err != nil, "with-parameters-accepted:"+p.K, "%v gives %v", ps, g)
			}
		}
	})
}

// rebuilt says whether giving parameters to a type rebuilds it from nothing else.
func rebuilt(p *spec.PT) bool {
	switch p.K {
	case "struct":
		for _, k := range p.Kids {
			if !rebuilt(k) {
				return false
			}
		}
		return true
	case "scalar", "int1", "decimal", "list", "map":
		return true
	}
	return false
}

// asDeclared is the type with the nullability its declaration gives the parts
// which are not parameters.
func asDeclared(p *spec.PT, c *spec.TS) *spec.TS {
	n := types.NullabilityRequired
	if p.Null {
		n = types.NullabilityNullable
	}
	o := c.With(n)
	if p.K == "struct" {
		o.Kids = nil
		for i, k := range p.Kids {
			o.Kids = append(o.Kids, asDeclared(k, c.Kids[i]))
		}
	}
	return o
}

func c13(c *vk.C) {
	c.Rule("signatures with return expressions (type variables, integer parameters, arithmetic and conditional derivations, nested and user-defined types) are generated, and read from every bundled function; the oracle is an evaluator over the type model with exact integers; " +
		"every resolution is repeated after unrelated ones and on every kind of variant; non-trivial: distinct (signature, arguments) with a definite outcome")
	lists := func(t *vk.T, s *spec.Sig, ref func(string) uint32) (out [][]*spec.TS) {
		for i := 0; i < 4; i++ {
			out = append(out, s.Args(t.R, ref))
		}
		out = append(out, spec.MutateArgs(t.R, out[0]), spec.MutateArgs(t.R, out[1]), nil)
		return
	}
	run := func(t *vk.T, vs []extensions.FunctionVariant, s *spec.Sig, urn string) {
		set := extensions.NewSet()
		ls := lists(t, s, refOf(set, urn))
		var res []string
		v := vs[t.R.N(len(vs))]
		t.Desc = func() string { return fmt.Sprintf("%T %s", v, sigString(s)) }
		for _, l := range ls {
			res = append(res, judgeResolve(t, c, v, s, urn, l, set))
		}
		// earlier calls have no effect, and the kind of variant neither
		for k := 0; k < 4; k++ {
			i := t.R.N(len(ls))
			if res[i] == "panic" {
				continue
			}
			v := vs[t.R.N(len(vs))]
			var ty types.Type
			var err error
			if t.NoPanic("ResolveType", func() { ty, err = v.ResolveType(libArgs(ls[i]), set) }) {
				t.Check(resolved(ty, err) == res[i], "unstable", "arguments %s resolved to %s and now, on %T, to %s", argString(ls[i]), res[i], v, resolved(ty, err))
			}
		}
	}
	c.ParSection("generated", c.Scale(30000, 500000), func(t *vk.T) {
		s := genSig(t.R)
		vs := variants(s, "f")
		run(t, vs, s, sigURN)
		for _, v := range vs[1:] {
			inter, has := interOf(v)
			t.Check(has == (s.Inter != nil), "intermediate", "intermediate type present: %v", has)
			if has && s.Inter != nil {
				t.Check(spec.DumpLib(inter) == s.Inter.Dump(), "intermediate", "intermediate %s", inter)
			}
		}
	})

	c.ParSection("with-parameters", c.Scale(20000, 300000), withParameters)

	all := bundled()
	rets := bundledReturns(c)
	var sigs []*spec.Sig
	missing := 0
	for _, v := range all {
		s := sigOf(v)
		if s != nil {
			s.Ret = rets[v.URN()+"|"+v.CompoundName()]
			if s.Ret == nil {
				s = nil
			}
		}
		if s == nil {
			missing++
		}
		sigs = append(sigs, s)
	}
	c.Extra("bundled_variants", len(all))
	c.Extra("bundled_outside_model", missing)
	c.ParSection("bundled", c.Scale(10, 150)*len(all), func(t *vk.T) {
		i := t.Index % len(all)
		if sigs[i] == nil {
			return
		}
		run(t, all[i:i+1], sigs[i], all[i].URN())
	})

	// the same through the expression constructors
	coll := extensions.GetDefaultCollectionWithNoError()
	c.ParSection("expressions", c.Scale(6, 100)*len(all), func(t *vk.T) {
		i := t.Index % len(all)
		s, v := sigs[i], all[i]
		if s == nil {
			return
		}
		reg := expr.NewEmptyExtensionRegistry(coll)
		l := s.Args(t.R, func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: v.URN(), Name: n}) })
		if t.R.P(1, 3) {
			l = spec.MutateArgs(t.R, l)
		}
		t.Desc = func() string { return fmt.Sprintf("%T %s %s %s", v, v.CompoundName(), sigString(s), argString(l)) }
		var st []types.Type
		var names []string
		var args []types.FuncArg
		for k, a := range l {
			if a == nil {
				args = append(args, types.Enum("A"))
				continue
			}
			st = append(st, a.Go())
			names = append(names, fmt.Sprint("c", k))
		}
		rt := types.NewRecordTypeFromTypes(st)
		f := int32(0)
		args = args[:0]
		for _, a := range l {
			if a == nil {
				args = append(args, types.Enum("A"))
				continue
			}
			ref, err := expr.NewRootFieldRef(expr.NewStructFieldRef(f), rt)
			t.Must(err == nil, "field-ref", "%v", err)
			args = append(args, ref)
			f++
		}
		want := "panic"
		if !t.NoPanic("ResolveType", func() { want = resolved(v.ResolveType(libArgs(l), reg.Set)) }) {
			return
		}
		id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
		var ty types.Type
		var err error
		if !t.NoPanic("New*Func", func() {
			switch v.(type) {
			case *extensions.ScalarFunctionVariant:
				var e *expr.ScalarFunction
				if e, err = expr.NewScalarFunc(reg, id, nil, args...); err == nil {
					ty = e.GetType()
				}
			case *extensions.AggregateFunctionVariant:
				var e *expr.AggregateFunction
				if e, err = expr.NewAggregateFunc(reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...); err == nil {
					ty = e.GetType()
				}
			case *extensions.WindowFunctionVariant:
				var e *expr.WindowFunction
				if e, err = expr.NewWindowFunc(reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, args...); err == nil {
					ty = e.GetType()
				}
			}
		}) {
			return
		}
		got := resolved(ty, err)
		t.Check(got == want, "expression-type", "the expression has type %s, ResolveType says %s (%v)", got, want, err)
		t.Obs(v.CompoundName(), argString(l), got)
	})
}
