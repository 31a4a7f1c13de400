package checks

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"
	"sync"

	substraitgo "github.com/substrait-io/substrait-go/v8"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C25"] = c25 }

// later is an expression that is put together when it is asked for, the way
// the builders of the library do it.
type later func() (expr.Expression, error)

func (l later) BuildExpr() (expr.Expression, error)  { return l() }
func (l later) BuildFuncArg() (types.FuncArg, error) { return l() }

type typeArg struct{ t types.Type }

func (a typeArg) BuildFuncArg() (types.FuncArg, error) { return a.t, nil }

type anyBuilder interface {
	expr.Builder
	expr.FuncArgBuilder
}

// maker puts expressions together with the constructors and builders.
type maker struct {
	r   *vk.R
	reg expr.ExtensionRegistry
	b   *expr.ExprBuilder
	d   *decls
	// something to put in the place of a part
	hook *proto.Expression
	with anyBuilder
	hit  int
}

func sortsOf(m *maker, fs []*proto.SortField) (out []expr.SortField, err error) {
	for _, f := range fs {
		e, err := m.mk(f.Expr).BuildExpr()
		if err != nil {
			return nil, err
		}
		s := expr.SortField{Expr: e}
		switch k := f.SortKind.(type) {
		case *proto.SortField_Direction:
			s.Kind = types.SortDirection(k.Direction)
		case *proto.SortField_ComparisonFunctionReference:
			s.Kind = types.FunctionRef(k.ComparisonFunctionReference)
		}
		out = append(out, s)
	}
	return
}

func boundOf(b *proto.Expression_WindowFunction_Bound) expr.Bound {
	switch k := b.GetKind().(type) {
	case *proto.Expression_WindowFunction_Bound_Preceding_:
		return expr.PrecedingBound(k.Preceding.Offset)
	case *proto.Expression_WindowFunction_Bound_Following_:
		return expr.FollowingBound(k.Following.Offset)
	case *proto.Expression_WindowFunction_Bound_CurrentRow_:
		return expr.CurrentRow{}
	case *proto.Expression_WindowFunction_Bound_Unbounded_:
		return expr.Unbounded{}
	}
	return nil
}

func segOf(s *proto.Expression_ReferenceSegment) expr.ReferenceSegment {
	switch k := s.GetReferenceType().(type) {
	case *proto.Expression_ReferenceSegment_StructField_:
		f := expr.NewStructFieldRef(k.StructField.Field)
		if k.StructField.Child != nil {
			f.Child = segOf(k.StructField.Child)
		}
		return f
	case *proto.Expression_ReferenceSegment_ListElement_:
		f := expr.NewListElemRef(k.ListElement.Offset)
		if k.ListElement.Child != nil {
			f.Child = segOf(k.ListElement.Child)
		}
		return f
	case *proto.Expression_ReferenceSegment_MapKey_:
		f := expr.NewMapKeyRef(expr.LiteralFromProto(k.MapKey.MapKey))
		if k.MapKey.Child != nil {
			f.Child = segOf(k.MapKey.Child)
		}
		return f
	}
	return nil
}

func (m *maker) fnID(anchor uint32) extensions.FunctionID {
	for _, f := range m.d.Fns {
		if f.Anchor == anchor {
			return extensions.FunctionID{URN: f.URN, Name: f.Name}
		}
	}
	return extensions.FunctionID{}
}

func (m *maker) args(as []*proto.FunctionArgument) (out []expr.FuncArgBuilder) {
	for _, a := range as {
		switch k := a.ArgType.(type) {
		case *proto.FunctionArgument_Enum:
			out = append(out, m.b.Enum(k.Enum))
		case *proto.FunctionArgument_Type:
			out = append(out, typeArg{spec.FromProto(k.Type).Go()})
		case *proto.FunctionArgument_Value:
			out = append(out, m.mk(k.Value))
		}
	}
	return
}

func buildArgs(as []expr.FuncArgBuilder) (out []types.FuncArg, err error) {
	for _, a := range as {
		x, err := a.BuildFuncArg()
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	return
}

func (m *maker) scalarVariant(a uint32) *extensions.ScalarFunctionVariant {
	if v, ok := m.reg.LookupScalarFunction(a); ok {
		return v
	}
	return extensions.NewScalarFuncVariant(m.fnID(a))
}

func (m *maker) windowVariant(a uint32) *extensions.WindowFunctionVariant {
	if v, ok := m.reg.LookupWindowFunction(a); ok {
		return v
	}
	return extensions.NewWindowFuncVariant(m.fnID(a))
}

func (m *maker) aggVariant(a uint32) *extensions.AggregateFunctionVariant {
	if v, ok := m.reg.LookupAggregateFunction(a); ok {
		return v
	}
	return extensions.NewAggFuncVariant(m.fnID(a))
}

func (m *maker) all(ps []*proto.Expression) (out []expr.Expression, err error) {
	for _, p := range ps {
		e, err := m.mk(p).BuildExpr()
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return
}

// fixed takes what a constructor returned.
func fixed[E expr.Expression](e E, err error) (expr.Expression, error) {
	if err != nil {
		return nil, err
	}
	return e, nil
}

// mk is a builder for the expression that is encoded as p.
func (m *maker) mk(p *proto.Expression) anyBuilder {
	b := m.b
	if p == m.hook && m.hook != nil {
		m.hit++
		return m.with
	}
	switch k := p.RexType.(type) {
	case *proto.Expression_Literal_:
		l := expr.LiteralFromProto(k.Literal)
		switch m.r.N(3) {
		case 0:
			return b.Literal(l)
		case 1:
			return b.Expression(l)
		}
		return b.Wrap(l, nil)
	case *proto.Expression_DynamicParameter:
		return b.DynamicParam(spec.FromProto(k.DynamicParameter.Type).Go(), k.DynamicParameter.ParameterReference)
	case *proto.Expression_Cast_:
		c := b.Cast(m.mk(k.Cast.Input), spec.FromProto(k.Cast.Type).Go())
		if m.r.P(1, 4) {
			c.FailBehavior(types.BehaviorReturnNil)
			c.FailBehavior(types.BehaviorThrowException)
		} else if k.Cast.FailureBehavior == 0 {
			return c
		}
		return c.FailBehavior(types.CastFailBehavior(k.Cast.FailureBehavior))
	case *proto.Expression_Selection:
		f := k.Selection
		d := f.GetDirectReference()
		switch rt := f.RootType.(type) {
		case *proto.Expression_FieldReference_RootReference_:
			if d != nil {
				if m.r.Bool() {
					return b.RootRef(segOf(d))
				}
				return b.Ref(expr.RootReference, segOf(d))
			}
			return later(func() (expr.Expression, error) {
				return &expr.FieldReference{Root: expr.RootReference, Reference: expr.MaskExpressionFromProto(f.GetMaskedReference())}, nil
			})
		case *proto.Expression_FieldReference_OuterReference_:
			return later(func() (expr.Expression, error) {
				fr := &expr.FieldReference{Root: expr.OuterReference(rt.OuterReference.StepsOut)}
				if d != nil {
					fr.Reference = segOf(d)
				} else {
					fr.Reference = expr.MaskExpressionFromProto(f.GetMaskedReference())
				}
				return fr, nil
			})
		case *proto.Expression_FieldReference_LambdaParameterReference_:
			return b.LambdaParamRef(*(segOf(d).(*expr.StructFieldRef)), rt.LambdaParameterReference.StepsOut)
		case *proto.Expression_FieldReference_Expression:
			return later(func() (expr.Expression, error) {
				root, err := m.mk(rt.Expression).BuildExpr()
				if err != nil {
					return nil, err
				}
				if d == nil {
					return &expr.FieldReference{Root: root, Reference: expr.MaskExpressionFromProto(f.GetMaskedReference())}, nil
				}
				if m.r.P(1, 3) {
					ty, err := segOf(d).GetType(root.GetType())
					if err != nil {
						return nil, err
					}
					return fixed(expr.NewFieldRefFromType(root, segOf(d), ty))
				}
				return b.Ref(root, segOf(d)).BuildExpr()
			})
		}
	case *proto.Expression_ScalarFunction_:
		s := k.ScalarFunction
		return later(func() (expr.Expression, error) {
			args, err := buildArgs(m.args(s.Arguments))
			if err != nil {
				return nil, err
			}
			return fixed(expr.NewCustomScalarFunc(m.reg, m.scalarVariant(s.FunctionReference), spec.FromProto(s.OutputType).Go(), s.Options, args...))
		})
	case *proto.Expression_WindowFunction_:
		w := k.WindowFunction
		return later(func() (expr.Expression, error) {
			args, err := buildArgs(m.args(w.Arguments))
			if err != nil {
				return nil, err
			}
			f, err := expr.NewCustomWindowFunc(m.reg, m.windowVariant(w.FunctionReference), spec.FromProto(w.OutputType).Go(), w.Options, w.Invocation, w.Phase, args...)
			if err != nil {
				return nil, err
			}
			if f.Partitions, err = m.all(w.Partitions); err != nil {
				return nil, err
			}
			if f.Sorts, err = sortsOf(m, w.Sorts); err != nil {
				return nil, err
			}
			f.BoundsType, f.LowerBound, f.UpperBound = w.BoundsType, boundOf(w.LowerBound), boundOf(w.UpperBound)
			return f, nil
		})
	case *proto.Expression_Lambda_:
		l := k.Lambda
		ps := &types.StructType{Nullability: types.Nullability(l.Parameters.Nullability), TypeVariationRef: l.Parameters.TypeVariationReference, Types: spec.Gos(spec.FromProtos(l.Parameters.Types))}
		return b.Lambda(ps, m.mk(l.Body))
	case *proto.Expression_IfThen_:
		return later(func() (expr.Expression, error) {
			var ps []expr.IfThenPair
			for _, c := range k.IfThen.Ifs {
				es, err := m.all([]*proto.Expression{c.If, c.Then})
				if err != nil {
					return nil, err
				}
				ps = append(ps, expr.IfThenPair{If: es[0], Then: es[1]})
			}
			e, err := m.mk(k.IfThen.Else).BuildExpr()
			if err != nil {
				return nil, err
			}
			return fixed(expr.NewIfThen(ps[0], e, ps[1:]...))
		})
	case *proto.Expression_SwitchExpression_:
		return later(func() (expr.Expression, error) {
			s := k.SwitchExpression
			mt, err := m.mk(s.Match).BuildExpr()
			if err != nil {
				return nil, err
			}
			var els expr.Expression
			if s.Else != nil {
				if els, err = m.mk(s.Else).BuildExpr(); err != nil {
					return nil, err
				}
			}
			var cs []struct {
				If   expr.Literal
				Then expr.Expression
			}
			for _, c := range s.Ifs {
				th, err := m.mk(c.Then).BuildExpr()
				if err != nil {
					return nil, err
				}
				cs = append(cs, struct {
					If   expr.Literal
					Then expr.Expression
				}{expr.LiteralFromProto(c.If), th})
			}
			return fixed(expr.NewSwitch(mt, els, cs...))
		})
	case *proto.Expression_SingularOrList_:
		return later(func() (expr.Expression, error) {
			v, err := m.mk(k.SingularOrList.Value).BuildExpr()
			if err != nil {
				return nil, err
			}
			os, err := m.all(k.SingularOrList.Options)
			return &expr.SingularOrList{Value: v, Options: os}, err
		})
	case *proto.Expression_MultiOrList_:
		return later(func() (expr.Expression, error) {
			o := &expr.MultiOrList{}
			var err error
			if o.Value, err = m.all(k.MultiOrList.Value); err != nil {
				return nil, err
			}
			for _, r := range k.MultiOrList.Options {
				fs, err := m.all(r.Fields)
				if err != nil {
					return nil, err
				}
				o.Options = append(o.Options, fs)
			}
			return o, nil
		})
	case *proto.Expression_Nested_:
		return later(func() (expr.Expression, error) {
			n := k.Nested
			switch nt := n.NestedType.(type) {
			case *proto.Expression_Nested_Struct_:
				fs, err := m.all(nt.Struct.Fields)
				return &expr.StructExpr{Nullable: n.Nullable, TypeVariationRef: n.TypeVariationReference, Fields: fs}, err
			case *proto.Expression_Nested_List_:
				vs, err := m.all(nt.List.Values)
				if n.TypeVariationReference == 0 && err == nil {
					return expr.NewListExpr(n.Nullable, vs...), nil
				}
				return &expr.ListExpr{Nullable: n.Nullable, TypeVariationRef: n.TypeVariationReference, Values: vs}, err
			case *proto.Expression_Nested_Map_:
				e := &expr.MapExpr{Nullable: n.Nullable, TypeVariationRef: n.TypeVariationReference}
				for _, kv := range nt.Map.KeyValues {
					es, err := m.all([]*proto.Expression{kv.Key, kv.Value})
					if err != nil {
						return nil, err
					}
					e.KeyValues = append(e.KeyValues, struct{ Key, Value expr.Expression }{es[0], es[1]})
				}
				return e, nil
			}
			return nil, errors.New("unknown nested")
		})
	case *proto.Expression_Subquery_:
		return later(func() (expr.Expression, error) {
			rel := func(r *proto.Rel) (plan.Rel, error) { return plan.RelFromProto(r, m.reg) }
			switch s := k.Subquery.SubqueryType.(type) {
			case *proto.Expression_Subquery_Scalar_:
				in, err := rel(s.Scalar.Input)
				if err != nil {
					return nil, err
				}
				return plan.NewScalarSubquery(in), nil
			case *proto.Expression_Subquery_InPredicate_:
				ns, err := m.all(s.InPredicate.Needles)
				if err != nil {
					return nil, err
				}
				in, err := rel(s.InPredicate.Haystack)
				return plan.NewInPredicateSubquery(ns, in), err
			case *proto.Expression_Subquery_SetPredicate_:
				in, err := rel(s.SetPredicate.Tuples)
				return plan.NewSetPredicateSubquery(s.SetPredicate.PredicateOp, in), err
			case *proto.Expression_Subquery_SetComparison_:
				in, err := rel(s.SetComparison.Right)
				if err != nil {
					return nil, err
				}
				l, err := m.mk(s.SetComparison.Left).BuildExpr()
				return plan.NewSetComparisonSubquery(s.SetComparison.ReductionOp, s.SetComparison.ComparisonOp, l, in), err
			}
			return nil, errors.New("unknown subquery")
		})
	}
	return later(func() (expr.Expression, error) { return nil, fmt.Errorf("no way to make %v", p) })
}

// scalarness of an encoded expression: window functions and lambdas are not
// scalar, and neither is anything that takes one of them as an operand.
func scalarOf(x *spec.X) (scalar, said bool) {
	switch x.Kind {
	case "window-function", "lambda":
		return false, true
	case "literal", "parameter", "root-ref", "outer-ref", "lambda-param", "set-predicate", "scalar-subquery":
		return true, true
	}
	scalar, said = true, true
	for _, o := range x.Operands() {
		s, ok := scalarOf(o)
		if !ok {
			said = false
		}
		if !s {
			scalar = false
		}
	}
	switch x.Kind {
	case "expr-ref", "mask":
		// whether a reference into something that is not scalar is scalar is not said
		return true, scalar && said
	}
	return
}

func c25(c *vk.C) {
	c.Rule("expressions of every kind are put together with the constructors and builders from generated parts (deep trees, nested lambdas, functions of the collection and made-up ones) and the result is taken apart again: encoding, type, scalar-ness, accessors; " +
		"calls that break a documented requirement in one place, at any depth, must come back as errors; non-trivial: distinct kinds of expressions, functions and broken requirements")

	// expressions of every kind
	c.ParSection("trees", c.Scale(60000, 1500000), func(t *vk.T) {
		r := t.R
		schema := genSchema(r)
		d := genFnDecls(r)
		reg, err := d.reg()
		t.Must(err == nil, "registry", "%v", err)
		m := &maker{r: r, reg: reg, d: d, b: &expr.ExprBuilder{Reg: reg, BaseSchema: recordOf(schema)}}
		g := newXG(r, schema, d)
		x := g.GenAny(1 + r.N(4))
		t.Desc = func() string { return fmt.Sprintf("%v\nschema %s", x.P, schema) }
		var e expr.Expression
		bd := m.mk(x.P)
		if !t.NoPanic("Build", func() { e, err = bd.BuildExpr() }) {
			return
		}
		t.Must(err == nil, "rejected:"+x.Kind, "valid expression rejected: %v", err)
		judgeBuilt(t, m, x, e, "built")
		// building again gives the same
		if r.P(1, 3) {
			var fa types.FuncArg
			if t.NoPanic("BuildFuncArg", func() { fa, err = bd.BuildFuncArg() }) {
				e2, ok := fa.(expr.Expression)
				if t.Check(err == nil && ok, "again", "built once, but not again as an argument: %v %T", err, fa) {
					judgeBuilt(t, m, x, e2, "built again")
				}
				fp := fa.ToProtoFuncArg()
				t.Check(pb.Equal(fp, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Value{Value: x.P}}), "argument", "as an argument it is encoded as %v", fp)
			}
		}
		x.Walk(func(o *spec.X) { t.Obs(o.Kind, o.T != nil) })
		t.Sample("%v", x.P)
	})

	c.ParSection("calls", c.Scale(40, 800)*len(bundledAll()), c25calls)
	c.ParSection("broken", c.Scale(60000, 1200000), c25broken)
	c.ParSection("missing", c.Scale(2000, 20000), c25missing)
	all := bundledAll()
	c.ParSection("unknown", len(all)*c.Scale(3, 20), func(t *vk.T) {
		v := all[t.Index%len(all)]
		reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
		b := &expr.ExprBuilder{Reg: reg}
		id := extensions.FunctionID{URN: v.URN(), Name: vk.PickOf(t.R, v.CompoundName(), v.CompoundName(), v.Name())}
		n := len(v.Args()) + t.R.N(2)
		var as []expr.FuncArgBuilder
		for i := 0; i < n; i++ {
			switch {
			case i < len(v.Args()) && fmt.Sprintf("%T", v.Args()[i]) == "extensions.EnumArg":
				as = append(as, b.Enum("A"))
			case t.R.P(1, 3):
				as = append(as, b.Literal(expr.NewPrimitiveLiteral(int64(3), true)))
			default:
				as = append(as, b.Expression(unknownType(t.R)))
			}
		}
		t.Desc = func() string { return fmt.Sprintf("%T %v", v, id) }
		var err error
		t.NoPanic("arguments of unknown type", func() {
			switch v.(type) {
			case *extensions.ScalarFunctionVariant:
				_, err = b.ScalarFunc(id).Args(as...).Build()
			case *extensions.AggregateFunctionVariant:
				_, err = b.AggFunc(id).Args(as...).Build()
			case *extensions.WindowFunctionVariant:
				_, err = b.WindowFunc(id).Args(as...).Phase(types.AggPhaseInitialToResult).Build()
			}
		})
		t.Obs(v.CompoundName(), err == nil)
	})
	c.ParSection("variants", c.Scale(10000, 200000), c25variants)
}

func judgeBuilt(t *vk.T, m *maker, x *spec.X, e expr.Expression, what string) {
	t.NoPanic("reading", func() {
		p := e.ToProto()
		t.Check(pb.Equal(p, x.P), "encoding:"+x.Kind, "%s: %v", what, pdiff(x.P, p))
		ty := e.GetType()
		if x.T == nil {
			t.Check(ty == nil, "type:"+x.Kind, "%s has type %v, whose type is not known", what, ty)
		} else if t.Check(ty != nil, "type:"+x.Kind, "%s has no type, want %s", what, x.T) {
			t.Check(spec.FromGo(ty).Equal(x.T), "type:"+x.Kind, "%s has type %s, want %s", what, spec.FromGo(ty), x.T)
		}
		if s, said := scalarOf(x); said {
			t.Check(e.IsScalar() == s, "scalar:"+x.Kind, "%s has IsScalar() %v", what, e.IsScalar())
		}
		_ = e.String()
		takeApart(t, m, x.P, e, what)
	})
	if specialFloat(x.P.ProtoReflect()) {
		return
	}
	sub := false
	x.Walk(func(o *spec.X) {
		if strings.Contains(o.Kind, "subquery") || strings.HasPrefix(o.Kind, "set-") {
			sub = true
		}
	})
	var dec expr.Expression
	var err error
	if !t.NoPanic("ExprFromProto", func() { dec, err = expr.ExprFromProto(x.P, m.b.BaseSchema, m.reg) }) {
		return
	}
	t.Must(err == nil, "decode", "%v", err)
	if sub { // compared by the identity of their relations
		return
	}
	t.NoPanic("Equals", func() {
		t.Check(e.Equals(dec) && dec.Equals(e), "equals:"+x.Kind, "%s differs from what its encoding is decoded to: %v %v", what, e.Equals(dec), dec.Equals(e))
	})
}

// takeApart holds the accessors against the encoding.
func takeApart(t *vk.T, m *maker, p *proto.Expression, e expr.Expression, what string) {
	same := func(name string, e interface{ ToProto() *proto.Expression }, p *proto.Expression) {
		if t.Check(e != nil, "accessor:"+name, "%s: %s is nil", what, name) {
			t.Check(pb.Equal(e.ToProto(), p), "accessor:"+name, "%s: %s is %v, want %v", what, name, e.ToProto(), p)
		}
	}
	args := func(n int, arg func(int) types.FuncArg, ty []types.Type, as []*proto.FunctionArgument) {
		t.Check(n == len(as), "accessor:args", "%s: %d arguments of %d", what, n, len(as))
		t.Check(len(ty) == len(as), "accessor:arg-types", "%s: %d argument types of %d", what, len(ty), len(as))
		for i, a := range as {
			got := arg(i)
			t.Check(pb.Equal(got.ToProtoFuncArg(), a), "accessor:args", "%s: argument %d is %v, want %v", what, i, got, a)
			switch k := got.(type) {
			case expr.Expression:
				t.Check(k.GetType() == ty[i] || ty[i].Equals(k.GetType()), "accessor:arg-types", "%s: argument type %d is %v", what, i, ty[i])
			case types.Enum:
				t.Check(ty[i] == types.CommonEnumType, "accessor:arg-types", "%s: argument type %d is %v", what, i, ty[i])
			case types.Type:
				t.Check(ty[i] != nil && ty[i].Equals(k), "accessor:arg-types", "%s: argument type %d is %v", what, i, ty[i])
			}
		}
	}
	opts := func(got, want []*types.FunctionOption) {
		t.Check(slices.EqualFunc(got, want, func(a, b *types.FunctionOption) bool { return pb.Equal(a, b) }), "accessor:options", "%s: options %v, want %v", what, got, want)
	}
	switch k := e.(type) {
	case *expr.IfThen:
		q := p.GetIfThen()
		if t.Check(k.NIfs() == len(q.Ifs), "accessor:ifs", "%s: %d ifs of %d", what, k.NIfs(), len(q.Ifs)) {
			for i, c := range q.Ifs {
				same("if", k.IfPair(i).If, c.If)
				same("then", k.IfPair(i).Then, c.Then)
			}
		}
		same("else", k.Else(), q.Else)
	case *expr.SwitchExpr:
		q := p.GetSwitchExpression()
		same("match", k.MatchExpr(), q.Match)
		if t.Check(k.NCases() == len(q.Ifs), "accessor:cases", "%s: %d cases of %d", what, k.NCases(), len(q.Ifs)) {
			for i, c := range q.Ifs {
				same("case", k.Case(i).If, &proto.Expression{RexType: &proto.Expression_Literal_{Literal: c.If}})
				same("then", k.Case(i).Then, c.Then)
			}
		}
		if q.Else == nil {
			t.Check(k.Else() == nil, "accessor:else", "%s: else %v", what, k.Else())
		} else {
			same("else", k.Else(), q.Else)
		}
	case *expr.MapExpr:
		t.Check(k.IsNullable() == p.GetNested().Nullable && k.TypeVariation() == p.GetNested().TypeVariationReference, "accessor:nested", "%s: %v %v", what, k.IsNullable(), k.TypeVariation())
	case *expr.ListExpr:
		t.Check(k.IsNullable() == p.GetNested().Nullable && k.TypeVariation() == p.GetNested().TypeVariationReference, "accessor:nested", "%s: %v %v", what, k.IsNullable(), k.TypeVariation())
	case *expr.StructExpr:
		t.Check(k.IsNullable() == p.GetNested().Nullable && k.TypeVariation() == p.GetNested().TypeVariationReference, "accessor:nested", "%s: %v %v", what, k.IsNullable(), k.TypeVariation())
	case *expr.ScalarFunction:
		q := p.GetScalarFunction()
		v := m.scalarVariant(q.FunctionReference)
		t.Check(k.FuncRef() == q.FunctionReference, "accessor:function", "%s: reference %d", what, k.FuncRef())
		id := m.fnID(q.FunctionReference)
		t.Check(k.ID() == id && k.CompoundName() == id.Name, "accessor:function", "%s: ID %v, want %v", what, k.ID(), id)
		name, _, _ := strings.Cut(id.Name, ":")
		t.Check(k.Name() == name, "accessor:function", "%s: name %q of %v", what, k.Name(), id)
		t.Check(k.Variadic() == v.Variadic() && k.SessionDependant() == v.SessionDependent() && k.Deterministic() == v.Deterministic(), "accessor:declaration", "%s differs from the declaration of %v", what, id)
		opts(k.GetOptions(), q.Options)
		for _, o := range q.Options {
			i := slices.IndexFunc(q.Options, func(x *types.FunctionOption) bool { return x.Name == o.Name })
			t.Check(slices.Equal(k.GetOption(o.Name), q.Options[i].Preference), "accessor:option", "%s: option %s %v", what, o.Name, k.GetOption(o.Name))
		}
		t.Check(k.GetOption("no such option") == nil, "accessor:option", "%s: unknown option %v", what, k.GetOption("no such option"))
		args(k.NArgs(), k.Arg, k.GetArgTypes(), q.Arguments)
	case *expr.WindowFunction:
		q := p.GetWindowFunction()
		v := m.windowVariant(q.FunctionReference)
		id := m.fnID(q.FunctionReference)
		t.Check(k.ID() == id && k.CompoundName() == id.Name, "accessor:function", "%s: ID %v, want %v", what, k.ID(), id)
		name, _, _ := strings.Cut(id.Name, ":")
		t.Check(k.Name() == name, "accessor:function", "%s: name %q of %v", what, k.Name(), id)
		t.Check(k.Variadic() == v.Variadic() && k.SessionDependant() == v.SessionDependent() && k.Deterministic() == v.Deterministic() && k.Decomposable() == v.Decomposability() &&
			k.Ordered() == v.Ordered() && k.MaxSet() == v.MaxSet() && k.WindowType() == v.WindowType(), "accessor:declaration", "%s differs from the declaration of %v", what, id)
		t.Check(k.Phase() == q.Phase && k.Invocation() == q.Invocation, "accessor:phase", "%s: %v %v", what, k.Phase(), k.Invocation())
		opts(k.GetOptions(), q.Options)
		args(k.NArgs(), k.Arg, k.GetArgTypes(), q.Arguments)
	}
}

// aggParts reads the parts of an aggregate function.
func aggParts(t *vk.T, k *expr.AggregateFunction, v *extensions.AggregateFunctionVariant, q *proto.AggregateFunction) {
	id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
	t.Check(k.ID() == id && k.CompoundName() == id.Name && k.Name() == v.Name(), "agg:function", "%v %s, want %v", k.ID(), k.Name(), id)
	t.Check(k.Variadic() == v.Variadic() && k.SessionDependant() == v.SessionDependent() && k.Deterministic() == v.Deterministic() && k.Decomposable() == v.Decomposability() &&
		k.Ordered() == v.Ordered() && k.MaxSet() == v.MaxSet(), "agg:declaration", "differs from the declaration of %v", id)
	ki, ke := k.IntermediateType()
	vi, ve := v.Intermediate()
	t.Check(ki == vi && (ke == nil) == (ve == nil), "agg:intermediate", "%v %v, want %v %v", ki, ke, vi, ve)
	t.Check(k.Phase() == q.Phase && k.Invocation() == q.Invocation, "agg:phase", "%v %v", k.Phase(), k.Invocation())
	t.Check(types.TypeToProto(k.GetType()) != nil && pb.Equal(types.TypeToProto(k.GetType()), q.OutputType), "agg:type", "%v", k.GetType())
	t.Check(len(k.GetOptions()) == len(q.Options), "agg:options", "%d options of %d", len(k.GetOptions()), len(q.Options))
	for i, o := range k.GetOptions() {
		t.Check(pb.Equal(o, q.Options[i]), "agg:options", "option %v, want %v", o, q.Options[i])
		first := slices.IndexFunc(q.Options, func(x *types.FunctionOption) bool { return x.Name == o.GetName() })
		t.Check(slices.Equal(k.GetOption(o.GetName()), q.Options[first].Preference), "agg:option", "option %s %v", o.GetName(), k.GetOption(o.GetName()))
	}
	t.Check(k.GetOption("no such option") == nil, "agg:option", "unknown option %v", k.GetOption("no such option"))
	for i := range min(k.NArgs(), len(q.Arguments)) {
		t.Check(pb.Equal(k.Arg(i).ToProtoFuncArg(), q.Arguments[i]), "agg:args", "argument %d: %v", i, k.Arg(i))
	}
	for i := range min(len(k.Sorts), len(q.Sorts)) {
		t.Check(pb.Equal(k.Sorts[i].ToProto(), q.Sorts[i]), "agg:sorts", "sort %d: %v", i, k.Sorts[i])
	}
}

// functions of the collection, called with arguments they take
func c25calls(t *vk.T) {
	r := t.R
	all := bundledAll()
	v := all[t.Index%len(all)]
	s := sigOf(v)
	if s == nil {
		return
	}
	coll := extensions.GetDefaultCollectionWithNoError()
	reg := expr.NewEmptyExtensionRegistry(coll)
	schema := genSchema(r)
	d := &decls{}
	m := &maker{r: r, reg: reg, d: d, b: &expr.ExprBuilder{Reg: reg, BaseSchema: recordOf(schema)}}
	g := &spec.XG{R: r, Schema: schema}
	l := s.Args(r, func(n string) uint32 { return reg.GetTypeAnchor(extensions.TypeID{URN: v.URN(), Name: n}) })
	if r.P(1, 4) {
		l = spec.MutateArgs(r, l)
	}
	compound := v.CompoundName()
	id := extensions.FunctionID{URN: v.URN(), Name: compound}
	t.Desc = func() string { return fmt.Sprintf("%T %v %s", v, id, argString(l)) }

	// the arguments
	var ps []*proto.FunctionArgument
	var bs []expr.FuncArgBuilder
	var sh []string
	var xs []*spec.X
	for _, a := range l {
		if a == nil {
			e := vk.PickOf(r, "YEAR", "A", "x")
			ps = append(ps, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Enum{Enum: e}})
			bs = append(bs, m.b.Enum(e))
			sh = append(sh, "req")
			continue
		}
		var x *spec.X
		if sane(a) {
			x = g.Gen(r.N(3), a)
		}
		if x == nil { // no type for literals
			x = g.Of(a)
		}
		xs = append(xs, x)
		ps = append(ps, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Value{Value: x.P}})
		bs = append(bs, m.mk(x.P))
		if a.K == spec.UDT {
			tid, _ := reg.DecodeType(a.Ref)
			sh = append(sh, "u!"+tid.Name)
		} else {
			sh = append(sh, a.K.Short())
		}
	}
	want, wantErr := v, error(nil)
	byName := ""
	if r.P(1, 3) {
		// by its simple name: the only function of that name, or the one these arguments are for
		id.Name = v.Name()
		byName = v.Name() + ":" + strings.Join(sh, "_")
		var only []extensions.FunctionVariant
		var exact extensions.FunctionVariant
		for _, o := range all {
			if fmt.Sprintf("%T", o) == fmt.Sprintf("%T", v) && o.URN() == v.URN() && o.Name() == v.Name() {
				only = append(only, o)
				if o.CompoundName() == byName {
					exact = o
				}
			}
		}
		switch {
		case len(only) == 1:
			want = only[0]
		case exact != nil:
			want = exact
		default:
			want, wantErr = nil, substraitgo.ErrNotFound
		}
	} else if r.P(1, 12) {
		id.Name = vk.PickOf(r, "no_such_function", "no_such_function:i32", strings.ToUpper(compound), compound+"x")
		want, wantErr = nil, substraitgo.ErrNotFound
	} else if r.P(1, 20) {
		id.URN = vk.PickOf(r, "", "extension:io.substrait:none", id.URN+"x")
		want, wantErr = nil, substraitgo.ErrNotFound
	}
	var ty types.Type
	if want != nil {
		if !t.NoPanic("ResolveType", func() { ty, wantErr = want.ResolveType(libArgs(l), reg.Set) }) {
			return
		}
	}
	opts := g.Options()
	phase := proto.AggregationPhase(r.N(5))
	inv := proto.AggregateFunction_AggregationInvocation(r.N(3))
	sorts, _ := g.Sorts(1, 0)
	if r.Bool() {
		sorts = sorts[:min(1, len(sorts))]
	}
	noise := []expr.FuncArgBuilder{m.b.Enum("left over"), m.b.Wrap(nil, errors.New("left over"))}
	check := func(what string, err error, nilResult bool, mustFail bool, why string) bool {
		if wantErr != nil {
			t.Check(err != nil, "accepted:"+what, "accepted, want %v", wantErr)
			if err != nil && wantErr == substraitgo.ErrNotFound {
				t.Check(errors.Is(err, substraitgo.ErrNotFound), "not-found", "%v is not ErrNotFound", err)
			}
			return false
		}
		if mustFail {
			t.Check(err != nil, "accepted:"+why, "accepted: %s", why)
			return false
		}
		return t.Check(err == nil && !nilResult, "rejected:"+what, "valid call rejected: %v", err)
	}
	same := func(got, wantP pb.Message) {
		t.Check(pb.Equal(got, wantP), "call-encoding", "%v", pdiff(wantP, got))
	}
	id0 := func(f expr.FunctionInvocation) {
		wid := extensions.FunctionID{URN: want.URN(), Name: want.CompoundName()}
		t.Check(f.ID() == wid && f.CompoundName() == wid.Name, "call-function", "calls %v, want %v", f.ID(), wid)
		t.Check(len(f.GetArgTypes()) == len(l), "call-args", "%d argument types of %d", len(f.GetArgTypes()), len(l))
		for i, a := range f.GetArgTypes() {
			if l[i] == nil {
				t.Check(a == types.CommonEnumType, "call-args", "argument %d: %v", i, a)
			} else {
				t.Check(spec.FromGo(a).Equal(l[i]), "call-args", "argument %d: %v, want %v", i, a, l[i])
			}
		}
	}
	scalarArgs := true
	saidArgs := true
	for _, x := range xs {
		s, ok := scalarOf(x)
		scalarArgs, saidArgs = scalarArgs && s, saidArgs && ok
	}
	var out []expr.SortField
	var err error
	if out, err = sortsOf(m, sorts); err != nil {
		t.Failf("sorts", "%v", err)
		return
	}
	kind := fmt.Sprintf("%T", v)
	tp := func() *proto.Type { return types.TypeToProto(ty) }
	ref := func(u uint32) {
		got, ok := reg.DecodeFunc(u)
		t.Check(ok && got == extensions.FunctionID{URN: want.URN(), Name: want.CompoundName()}, "call-reference", "reference %d stands for %v", u, got)
	}
	switch v.(type) {
	case *extensions.ScalarFunctionVariant:
		var f *expr.ScalarFunction
		if !t.NoPanic("scalar function", func() {
			b := m.b.ScalarFunc(id, opts...)
			if r.P(1, 4) {
				b.Args(noise...)
			}
			b = b.Args(bs...)
			f, err = b.Build()
			if r.P(1, 3) {
				var x any
				if r.Bool() {
					x, err = b.BuildExpr()
				} else {
					x, err = b.BuildFuncArg()
				}
				f, _ = x.(*expr.ScalarFunction)
			}
		}) {
			return
		}
		if check(kind, err, f == nil, false, "") {
			id0(f)
			ref(f.FuncRef())
			same(f.ToProto(), &proto.Expression{RexType: &proto.Expression_ScalarFunction_{ScalarFunction: &proto.Expression_ScalarFunction{
				FunctionReference: f.FuncRef(), Arguments: ps, Options: opts, OutputType: tp()}}})
			t.Check(types.TypeToProto(f.GetType()) != nil && pb.Equal(types.TypeToProto(f.GetType()), tp()), "call-type", "type %s, want %s", f.GetType(), ty)
			if saidArgs {
				t.Check(f.IsScalar() == scalarArgs, "call-scalar", "IsScalar() %v", f.IsScalar())
			}
		}
	case *extensions.AggregateFunctionVariant:
		var f *expr.AggregateFunction
		if !t.NoPanic("aggregate function", func() {
			b := m.b.AggFunc(id, opts...)
			if r.P(1, 4) {
				b.Args(noise...).Phase(types.AggPhaseIntermediateToResult).Invocation(types.AggInvocationDistinct).Sorts(expr.SortField{}, expr.SortField{})
			}
			b = b.Phase(phase).Sorts(out...).Invocation(inv).Args(bs...)
			f, err = b.Build()
			if r.P(1, 3) {
				f, err = b.Build()
			}
		}) {
			return
		}
		if check(kind, err, f == nil, false, "") {
			id0(f)
			p := f.ToProto()
			ref(p.FunctionReference)
			wantP := &proto.AggregateFunction{FunctionReference: p.FunctionReference, Arguments: ps, Options: opts, OutputType: tp(), Phase: phase, Invocation: inv, Sorts: sorts}
			same(p, wantP)
			t.Check(f.Phase() == phase && f.Invocation() == inv && f.NArgs() == len(ps), "call-parts", "phase %v, invocation %v, %d arguments", f.Phase(), f.Invocation(), f.NArgs())
			aggParts(t, f, want.(*extensions.AggregateFunctionVariant), wantP)
			if as, err := buildArgs(bs); t.Check(err == nil, "call-args", "%v", err) {
				f2, err := expr.NewAggregateFunc(reg, id, opts, inv, phase, out, as...)
				if t.Check(err == nil && f2 != nil, "rejected:NewAggregateFunc", "%v", err) {
					same(f2.ToProto(), wantP)
					aggParts(t, f2, want.(*extensions.AggregateFunctionVariant), wantP)
				}
				f3, err := expr.NewCustomAggregateFunc(reg, want.(*extensions.AggregateFunctionVariant), ty, opts, inv, phase, out, as...)
				if t.Check(err == nil && f3 != nil, "rejected:NewCustomAggregateFunc", "%v", err) {
					same(f3.ToProto(), wantP)
					aggParts(t, f3, want.(*extensions.AggregateFunctionVariant), wantP)
				}
			}
			// a copy is its own
			cl := f.Clone()
			same(cl.ToProto(), wantP)
			if len(out) > 0 {
				i := r.N(len(out))
				kind := cl.Sorts[i].Kind
				cl.Sorts[i].Kind = types.SortClustered
				same(f.ToProto(), wantP)
				cl.Sorts[i].Kind = kind
			}
			if len(ps) > 0 {
				i := r.N(len(ps))
				cl.SetArg(i, types.Enum("changed"))
				same(f.ToProto(), wantP)
				q := pb.Clone(wantP).(*proto.AggregateFunction)
				q.Arguments[i] = &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Enum{Enum: "changed"}}
				same(cl.ToProto(), q)
			}
		}
	case *extensions.WindowFunctionVariant:
		w := want
		var parts []*proto.Expression
		var pbs []expr.Builder
		for i, n := 0, r.N(3); i < n; i++ {
			x := g.Gen(1, nil)
			parts, pbs = append(parts, x.P), append(pbs, m.mk(x.P))
		}
		q := &proto.Expression_WindowFunction{Arguments: ps, Options: opts, Phase: phase, Invocation: inv, Sorts: sorts, Partitions: parts,
			BoundsType: proto.Expression_WindowFunction_BoundsType(r.N(3)), LowerBound: genBound(r), UpperBound: genBound(r)}
		var f *expr.WindowFunction
		if !t.NoPanic("window function", func() {
			b := m.b.WindowFunc(id, opts...)
			if r.P(1, 4) {
				b.Args(noise...).Phase(types.AggPhaseIntermediateToResult).Invocation(types.AggInvocationDistinct).Sort(expr.SortField{}, expr.SortField{}).Partitions(m.b.Wrap(nil, errors.New("left over"))).
					Bounds(expr.CurrentRow{}, expr.PrecedingBound(4)).BoundsType(types.BoundsTypeRange)
			}
			b = b.Bounds(boundOf(q.LowerBound), boundOf(q.UpperBound)).BoundsType(q.BoundsType).Partitions(pbs...).Phase(phase).Sort(out...).Invocation(inv).Args(bs...)
			f, err = b.Build()
			if r.P(1, 3) {
				var x any
				if r.Bool() {
					x, err = b.BuildExpr()
				} else {
					x, err = b.BuildFuncArg()
				}
				f, _ = x.(*expr.WindowFunction)
			}
		}) {
			return
		}
		why := ""
		if w != nil && wantErr == nil {
			switch {
			case w.(*extensions.WindowFunctionVariant).Decomposability() == extensions.DecomposeNone && phase != types.AggPhaseInitialToResult:
				why = "phase"
			case q.BoundsType == types.BoundsTypeRange && len(sorts) != 1:
				why = "range"
			}
		}
		if check(kind, err, f == nil, why != "", why) {
			id0(f)
			p := f.ToProto()
			q.FunctionReference = p.GetWindowFunction().GetFunctionReference()
			q.OutputType = tp()
			ref(q.FunctionReference)
			same(p, &proto.Expression{RexType: &proto.Expression_WindowFunction_{WindowFunction: q}})
			t.Check(f.Phase() == phase && f.Invocation() == inv && !f.IsScalar(), "call-parts", "phase %v, invocation %v", f.Phase(), f.Invocation())
		}
		t.Obs("window", why, err == nil)
	}
	t.Obs(compound, byName != "", wantErr == nil, len(l))
}

var bundledAll = sync.OnceValue(bundled)

// sane says whether literals of the type are easily written.
func sane(t *spec.TS) bool {
	switch {
	case !spec.Litable(t), t.K == spec.UDT, t.K == spec.Decimal && (t.Prec < 1 || t.Prec > 38 || t.Scal < 0 || t.Scal > t.Prec),
		(t.K == spec.FixedChar || t.K == spec.VarChar || t.K == spec.FixedBinary) && (t.Len < 0 || t.Len > 30),
		t.Len < 0, t.Len > 9 && t.K >= spec.PTime, t.Len > 9 && (t.K == spec.IntervalDay || t.K == spec.IntervalCompound):
		return false
	}
	for _, k := range t.Kids {
		if !sane(k) {
			return false
		}
	}
	return true
}

func genBound(r *vk.R) *proto.Expression_WindowFunction_Bound {
	type B = proto.Expression_WindowFunction_Bound
	off := vk.PickOf(r, int64(0), 1, 77, math.MaxInt64, -3)
	switch r.N(5) {
	case 0:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_Preceding_{Preceding: &proto.Expression_WindowFunction_Bound_Preceding{Offset: off}}}
	case 1:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_Following_{Following: &proto.Expression_WindowFunction_Bound_Following{Offset: off}}}
	case 2:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &proto.Expression_WindowFunction_Bound_CurrentRow{}}}
	case 3:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &proto.Expression_WindowFunction_Bound_Unbounded{}}}
	}
	return nil
}

type switchCase = struct {
	If   expr.Literal
	Then expr.Expression
}

var errSentinel = errors.New("an error of the caller's")

// unknownType is an expression whose type is not known.
func unknownType(r *vk.R) expr.Expression {
	if r.Bool() {
		return &expr.FieldReference{Root: expr.OuterReference(1), Reference: expr.NewStructFieldRef(0)}
	}
	return &expr.FieldReference{Root: expr.RootReference, Reference: expr.MaskExpressionFromProto(&proto.Expression_MaskExpression{Select: &proto.Expression_MaskExpression_StructSelect{
		StructItems: []*proto.Expression_MaskExpression_StructItem{{Field: 0}}}})}
}

// other is a type that differs from t in more than nullability, or also in
// nullability only where that makes a difference.
func otherType(r *vk.R, t *spec.TS, nullToo bool) *spec.TS {
	if nullToo && r.P(1, 3) {
		return t.With(3 - t.N)
	}
	if t.K == spec.I64 {
		return &spec.TS{K: spec.Fp64, N: t.N}
	}
	return &spec.TS{K: spec.I64, N: t.N}
}

// breakage is one way to break a documented requirement, as a builder whose
// result has to be an error.
func (m *maker) breakage(g *spec.XG, outer int) (string, anyBuilder) {
	r, b := m.r, m.b
	t := g.Type(1)
	for t.K == spec.Func || !spec.Litable(t) {
		t = g.Type(1)
	}
	of := func(t *spec.TS) expr.Expression {
		e, err := m.mk(g.Gen(r.N(2), t).P).BuildExpr()
		if err != nil {
			panic(err)
		}
		return e
	}
	bool_ := func() expr.Expression { return of(&spec.TS{K: spec.Bool, N: types.NullabilityRequired}) }
	lit := func(t *spec.TS) expr.Literal { return expr.LiteralFromProto(spec.GenLit(r, t).Proto()) }
	pairs := func(n int) (ps []expr.IfThenPair) {
		for i := 0; i < n; i++ {
			ps = append(ps, expr.IfThenPair{If: bool_(), Then: of(t)})
		}
		return
	}
	cases := func(n int, mt *spec.TS) (cs []switchCase) {
		for i := 0; i < n; i++ {
			cs = append(cs, switchCase{lit(mt), of(t)})
		}
		return
	}
	do := func(f func() (expr.Expression, error)) anyBuilder { return later(f) }
	structOf := func(n types.Nullability, k int) *types.StructType {
		s := &types.StructType{Nullability: n}
		for i := 0; i < k; i++ {
			s.Types = append(s.Types, g.Type(0).Go())
		}
		return s
	}
	switch r.N(16) {
	case 0:
		return "error", b.Wrap(nil, errSentinel)
	case 1:
		return "if-else", do(func() (expr.Expression, error) {
			p := pairs(1 + r.N(2))
			return fixed(expr.NewIfThen(p[0], nil, p[1:]...))
		})
	case 2:
		n := 1 + r.N(3)
		p, k := pairs(n), r.N(n)
		how := r.N(3)
		switch how {
		case 0:
			p[k].If = nil
		case 1:
			p[k].Then = nil
		case 2:
			p[k].Then = of(otherType(r, t, true))
		}
		return fmt.Sprintf("if-%s-%v", []string{"if", "then", "type"}[how], k == 0), do(func() (expr.Expression, error) { return fixed(expr.NewIfThen(p[0], of(t), p[1:]...)) })
	case 3:
		p := pairs(1 + r.N(2))
		return "if-else-type", do(func() (expr.Expression, error) {
			return fixed(expr.NewIfThen(p[0], of(otherType(r, t, true)), p[1:]...))
		})
	case 4:
		return "switch-match", do(func() (expr.Expression, error) {
			return fixed(expr.NewSwitch(nil, vk.PickOf(r, nil, of(t)), cases(1+r.N(2), t)...))
		})
	case 5:
		return "switch-cases", do(func() (expr.Expression, error) { return fixed(expr.NewSwitch(of(t), vk.PickOf(r, nil, of(t)))) })
	case 6:
		n := 1 + r.N(3)
		mt := &spec.TS{K: vk.PickOf(r, spec.I32, spec.String, spec.Date), N: types.NullabilityRequired}
		cs, k := cases(n, mt), r.N(n)
		els := vk.PickOf(r, nil, of(t))
		how := r.N(5)
		if how == 4 && n == 1 && els == nil {
			how = 2
		}
		switch how {
		case 0:
			cs[k].If = nil
		case 1:
			cs[k].Then = nil
		case 2:
			cs[k].If = lit(otherType(r, mt, false))
		case 3:
			els = of(otherType(r, t, false))
		case 4:
			cs[k].Then = of(otherType(r, t, false))
		}
		return fmt.Sprintf("switch-%s-%v", []string{"if", "then", "if-type", "else-type", "then-type"}[how], els == nil), do(func() (expr.Expression, error) { return fixed(expr.NewSwitch(of(mt), els, cs...)) })
	case 7:
		switch r.N(3) {
		case 0:
			return "custom-scalar", do(func() (expr.Expression, error) {
				return fixed(expr.NewCustomScalarFunc(m.reg, extensions.NewScalarFuncVariant(extensions.FunctionID{URN: "extension:a:b", Name: "f:i32"}), nil, nil, of(t)))
			})
		case 1:
			return "custom-aggregate", do(func() (expr.Expression, error) {
				_, err := expr.NewCustomAggregateFunc(m.reg, extensions.NewAggFuncVariant(extensions.FunctionID{URN: "extension:a:b", Name: "f:i32"}), nil, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, of(t))
				return of(t), err
			})
		}
		return "custom-window", do(func() (expr.Expression, error) {
			return fixed(expr.NewCustomWindowFunc(m.reg, extensions.NewWindowFuncVariant(extensions.FunctionID{URN: "extension:a:b", Name: "f:i32"}), nil, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, of(t)))
		})
	case 8:
		return "parameter-type", b.DynamicParam(nil, uint32(r.N(3)))
	case 9:
		body := b.Expression(of(t))
		switch r.N(4) {
		case 0:
			return "lambda-params", b.Lambda(nil, body)
		case 1:
			return "lambda-nullability", b.Lambda(structOf(vk.PickOf(r, types.NullabilityNullable, types.NullabilityUnspecified), r.N(3)), body)
		case 2:
			s := structOf(types.NullabilityRequired, 1+r.N(3))
			s.Types[r.N(len(s.Types))] = nil
			return "lambda-param-type", b.Lambda(s, body)
		}
		return "lambda-body", b.Lambda(structOf(types.NullabilityRequired, r.N(3)), nil)
	case 10:
		// nested lambdas, and a reference one too far in one of two ways
		depth := r.N(3)
		var ns []int
		for i := 0; i <= depth; i++ {
			ns = append(ns, r.N(3))
		}
		var in expr.Builder
		what := "lambda-steps"
		if r.Bool() {
			in = b.LambdaParamRef(*expr.NewStructFieldRef(0), uint32(depth+1+outer)+vk.PickOf(r, uint32(0), 0, 1, 1<<20, 1<<31, 1<<32-1-uint32(depth+1+outer)))
		} else {
			what = "lambda-field"
			so := r.N(depth + 1)
			in = b.LambdaParamRef(*expr.NewStructFieldRef(vk.PickOf(r, int32(ns[depth-so]), int32(ns[depth-so]), int32(ns[depth-so])+1, -1, math.MaxInt32, math.MinInt32)), uint32(so))
		}
		if r.P(1, 3) {
			in = b.Cast(in, t.Go())
		}
		var l anyBuilder
		for i := depth; i >= 0; i-- {
			l = b.Lambda(structOf(types.NullabilityRequired, ns[i]), in)
			in = l
		}
		return what, l
	case 11:
		// a segment that does not fit what it refers into
		n := 0
		if g.Schema != nil {
			n = len(g.Schema.Kids)
		}
		ref := vk.PickOf[expr.Reference](r, expr.NewStructFieldRef(int32(n)), expr.NewStructFieldRef(-1), expr.NewStructFieldRef(int32(n+r.N(9))), expr.NewListElemRef(0),
			expr.NewMapKeyRef(lit(&spec.TS{K: spec.I32, N: types.NullabilityRequired})))
		return "root-ref", b.RootRef(ref)
	case 12:
		s := expr.NewStructFieldRef(0)
		switch r.N(3) {
		case 0:
			s = expr.NewStructFieldRef(vk.PickOf(r, int32(2), -1, 1<<20))
		case 1:
			s.Child = expr.NewListElemRef(0)
		default:
			s.Child = expr.NewStructFieldRef(0)
		}
		root := &expr.StructExpr{Fields: []expr.Expression{of(&spec.TS{K: spec.I32, N: types.NullabilityRequired}), of(t)}}
		return "expression-ref", b.Ref(root, s)
	case 13:
		other := expr.ExprBuilder{Reg: m.reg}
		return "no-schema", other.RootRef(expr.NewStructFieldRef(0))
	case 14:
		ref := vk.PickOf[expr.Reference](r, nil, expr.MaskExpressionFromProto(&proto.Expression_MaskExpression{Select: &proto.Expression_MaskExpression_StructSelect{}}))
		return "reference", b.RootRef(ref)
	}
	arg := vk.PickOf[expr.FuncArgBuilder](r, b.Wrap(nil, errSentinel), b.Expression(of(t)))
	id := extensions.FunctionID{URN: vk.PickOf(r, "extension:io.substrait:functions_arithmetic", "x"), Name: vk.PickOf(r, "nope", "nope:i32", "add:i32_nope")}
	if r.Bool() {
		return "unknown-scalar", b.ScalarFunc(id).Args(arg)
	}
	return "unknown-window", b.WindowFunc(id).Args(arg).Phase(types.AggPhaseInitialToResult)
}

// calls that break one requirement somewhere in a tree
func c25broken(t *vk.T) {
	r := t.R
	schema := genSchema(r)
	d := genFnDecls(r)
	reg, err := d.reg()
	t.Must(err == nil, "registry", "%v", err)
	m := &maker{r: r, reg: reg, d: d, b: &expr.ExprBuilder{Reg: reg, BaseSchema: recordOf(schema)}}
	g := newXG(r, schema, d)
	x := g.GenAny(r.N(4))
	// the places something can be put, with the lambdas around them
	type place struct {
		p   *proto.Expression
		lam int
	}
	var ps []place
	var walk func(o *spec.X, lam int)
	walk = func(o *spec.X, lam int) {
		ps = append(ps, place{o.P, lam})
		if o.Kind == "lambda" {
			lam++
		}
		for i, k := range o.Operands() {
			if strings.HasPrefix(o.Kind, "switch") && i > 0 && k.Kind == "literal" {
				continue // the values of the cases are no expressions
			}
			walk(k, lam)
		}
	}
	walk(x, 0)
	at := vk.Pick(r, ps)
	// the parts of the breakage are built on their own: they refer to no lambda
	bg := &spec.XG{R: r, Schema: schema, Fns: d.Fns, NoLambda: true}
	var what string
	var bad anyBuilder
	if p, st := vk.Try(func() { what, bad = m.breakage(bg, at.lam) }); p != nil {
		t.Failf("panic:parts", "%v\n%s", p, vk.Frames(st))
		return
	}
	t.Desc = func() string { return fmt.Sprintf("%s in\n%v\nat %v", what, x.P, at.p) }
	m.hook, m.with = at.p, bad
	var e expr.Expression
	if !t.NoPanic("Build:"+what, func() { e, err = m.mk(x.P).BuildExpr() }) {
		return
	}
	if !t.Check(m.hit > 0, "harness", "the broken part was not asked for") {
		return
	}
	t.Check(err != nil, "accepted:"+what, "accepted: %v", e)
	if what == "error" {
		t.Check(errors.Is(err, errSentinel), "error-lost", "the error of a part came back as %v", err)
	}
	t.Obs(what, len(ps) > 1, at.lam)
	// the builder is as good as before
	m.hook = nil
	var lr *expr.FieldReference
	if t.NoPanic("LambdaParamRef", func() { lr, err = m.b.LambdaParamRef(*expr.NewStructFieldRef(0), 0).Build() }) {
		t.Check(err != nil, "context-left", "outside of any lambda, a parameter reference is accepted after a failure: %v", lr)
	}
	if !t.NoPanic("Build", func() { e, err = m.mk(x.P).BuildExpr() }) {
		return
	}
	if t.Check(err == nil, "rejected-after", "after a failure, a valid expression is rejected: %v", err) {
		judgeBuilt(t, m, x, e, "built after a failure")
	}
}

// calls with a part missing, or of a type that is not known: an error, or an
// expression that can be used
func c25missing(t *vk.T) {
	r := t.R
	coll := extensions.GetDefaultCollectionWithNoError()
	reg := expr.NewEmptyExtensionRegistry(coll)
	rt := types.NewRecordTypeFromTypes([]types.Type{&types.Int64Type{Nullability: types.NullabilityRequired}, &types.StringType{}})
	b := &expr.ExprBuilder{Reg: reg, BaseSchema: rt}
	arith := func(n string) extensions.FunctionID {
		return extensions.FunctionID{URN: "extension:io.substrait:functions_arithmetic", Name: n}
	}
	i64 := &types.Int64Type{Nullability: types.NullabilityRequired}
	ok := func() anyBuilder { return b.RootRef(expr.NewStructFieldRef(0)) }
	unk := func() expr.Expression { return unknownType(r) }
	sc := func(as ...expr.FuncArgBuilder) anyBuilder {
		return b.ScalarFunc(arith(vk.PickOf(r, "add", "add:i64_i64"))).Args(as...)
	}
	type one struct {
		name string
		must bool // has to be an error
		f    func() (expr.Expression, error)
	}
	bd := func(x expr.Builder) func() (expr.Expression, error) { return x.BuildExpr }
	nothing := func() anyBuilder {
		return vk.PickOf[anyBuilder](r, b.Literal(nil), b.Expression(nil), b.Wrap(nil, nil))
	}
	lag := extensions.FunctionID{URN: "extension:io.substrait:functions_arithmetic", Name: "ntile:i64"}
	cs := []one{
		{"nothing", true, bd(nothing())},
		{"cast-input-nothing", true, bd(b.Cast(nothing(), i64))},
		{"cast-input-nil", true, bd(b.Cast(nil, i64))},
		{"cast-type-nil", true, bd(b.Cast(ok(), nil))},
		{"argument-nothing", true, bd(sc(ok(), nothing()))},
		{"argument-nothing-more", true, bd(sc(ok(), nothing(), ok()))},
		{"argument-nil", true, bd(sc(ok(), nil))},
		{"argument-unknown-type", false, bd(sc(ok(), b.Expression(unk())))},
		{"lambda-body-nothing", true, bd(b.Lambda(&types.StructType{Nullability: types.NullabilityRequired}, nothing()))},
		{"lambda-body-unknown-type", false, bd(b.Lambda(&types.StructType{Nullability: types.NullabilityRequired}, b.Expression(unk())))},
		{"ref-root-nil", false, bd(b.Ref(nil, expr.NewStructFieldRef(0)))},
		{"ref-nil", true, bd(b.RootRef(nil))},
		{"ref-root-unknown-type", true, bd(b.Ref(unk(), expr.NewStructFieldRef(0)))},
		{"partition-nothing", true, bd(b.WindowFunc(lag).Args(ok()).Phase(types.AggPhaseInitialToResult).Partitions(nothing()))},
		{"partition-nil", true, bd(b.WindowFunc(lag).Args(ok()).Phase(types.AggPhaseInitialToResult).Partitions(ok(), nil))},
		{"sort-nothing", true, bd(b.WindowFunc(lag).Args(ok()).Phase(types.AggPhaseInitialToResult).Sort(expr.SortField{Kind: types.SortAscNullsFirst}))},
		{"window", false, bd(b.WindowFunc(lag).Args(ok()).Phase(types.AggPhaseInitialToResult))},
		{"if-else-unknown-type", false, func() (expr.Expression, error) {
			e, _ := ok().BuildExpr()
			return fixed(expr.NewIfThen(expr.IfThenPair{If: e, Then: e}, unk()))
		}},
		{"if-then-unknown-type", false, func() (expr.Expression, error) {
			e, _ := ok().BuildExpr()
			return fixed(expr.NewIfThen(expr.IfThenPair{If: e, Then: e}, e, expr.IfThenPair{If: unk(), Then: unk()}))
		}},
		{"switch-unknown-type", false, func() (expr.Expression, error) {
			e, _ := ok().BuildExpr()
			return fixed(expr.NewSwitch(unk(), e, switchCase{expr.NewPrimitiveLiteral(int64(3), false), e}))
		}},
		{"switch-then-unknown-type", false, func() (expr.Expression, error) {
			e, _ := ok().BuildExpr()
			return fixed(expr.NewSwitch(e, vk.PickOf(r, nil, e), switchCase{expr.NewPrimitiveLiteral(int64(3), false), unk()}))
		}},
		{"switch-else-unknown-type", false, func() (expr.Expression, error) {
			e, _ := ok().BuildExpr()
			return fixed(expr.NewSwitch(e, unk(), switchCase{expr.NewPrimitiveLiteral(int64(3), false), e}))
		}},
		{"aggregate-argument", true, func() (expr.Expression, error) {
			_, err := b.AggFunc(arith("sum:i64")).Args(nothing()).Build()
			return nil, err
		}},
		{"aggregate-argument-nil", true, func() (expr.Expression, error) {
			_, err := b.AggFunc(arith("sum:i64")).Args(nil, ok()).Build()
			return nil, err
		}},
		{"aggregate-sort", true, func() (expr.Expression, error) {
			_, err := b.AggFunc(arith("sum:i64")).Args(ok()).Sorts(expr.SortField{Kind: types.SortAscNullsFirst}).Build()
			return nil, err
		}},
	}
	k := cs[t.Index%len(cs)]
	t.Desc = func() string { return k.name }
	var e expr.Expression
	var err error
	if !t.NoPanic(k.name, func() { e, err = k.f() }) {
		return
	}
	t.Obs(k.name, err == nil)
	if k.must {
		t.Check(err != nil, "accepted:"+k.name, "accepted")
	}
	if err == nil && e != nil {
		t.NoPanic("using:"+k.name, func() {
			_ = e.ToProto()
			_ = e.GetType()
			_ = e.String()
			_ = e.IsScalar()
			_ = e.Equals(e)
		})
	}
	if k.name == "window" {
		t.Check(err == nil, "rejected", "%v", err)
	}
}

// variants made by hand
func c25variants(t *vk.T) {
	r := t.R
	simple := vk.PickOf(r, "f", "my_fn", "Concat", "x2")
	plain := []string{"i8", "i16", "i32", "i64", "fp32", "fp64", "string", "boolean", "date", "any", "any1"}
	name := simple
	var want []string
	known := true
	switch r.N(4) {
	case 0:
	case 1:
		name += ":" + vk.PickOf(r, "", "req", "u!thing", "bogus", "i32_bogus")
		known = name == simple+":"
	default:
		for i, n := 0, 1+r.N(3); i < n; i++ {
			want = append(want, vk.Pick(r, plain))
		}
		name += ":" + strings.Join(want, "_")
	}
	id := extensions.FunctionID{URN: vk.PickOf(r, "extension:a:b", "", "extension:io.substrait:functions_arithmetic"), Name: name}
	var va *extensions.VariadicBehavior
	if r.Bool() {
		va = &extensions.VariadicBehavior{Min: r.N(3), Max: r.N(4)}
	}
	sess, det, ord := r.Bool(), r.Bool(), r.Bool()
	maxSet := uint(r.N(4))
	dec := vk.PickOf(r, "", extensions.DecomposeNone, extensions.DecomposeOne, extensions.DecomposeMany)
	inter := ""
	if dec == extensions.DecomposeOne || dec == extensions.DecomposeMany || r.P(1, 3) {
		inter = vk.PickOf(r, "i64", "string?", "STRUCT<i64,i64>", "list<fp64?>")
	}
	wt := vk.PickOf(r, "", extensions.StreamingWindow, extensions.PartitionWindow)
	kind := r.N(6)
	t.Desc = func() string {
		return fmt.Sprintf("kind %d %v variadic %v %v %v %v %d %q %q %q", kind, id, va, sess, det, ord, maxSet, dec, inter, wt)
	}
	var v extensions.FunctionVariant
	var gotDec extensions.DecomposeType
	var gotInter types.FuncDefArgType
	var interErr error
	var gotOrd bool
	var gotMax int
	if !t.NoPanic("New*Variant", func() {
		switch kind {
		case 0:
			v = extensions.NewScalarFuncVariant(id)
		case 1:
			v = extensions.NewScalarFuncVariantWithProps(id, va, sess, det)
		case 2:
			v = extensions.NewAggFuncVariant(id)
		case 3:
			v = extensions.NewAggFuncVariantOpts(id, extensions.AggVariantOptions{Variadic: va, SessionDependant: sess, Deterministic: det, Ordered: ord, MaxSet: maxSet, Decomposable: dec, IntermediateOutputType: inter})
		case 4:
			v = extensions.NewWindowFuncVariant(id)
		case 5:
			v = extensions.NewWindowFuncVariantOpts(id, extensions.WindowVariantOpts{Variadic: va, SessionDependant: sess, Deterministic: det, Ordered: ord, MaxSet: maxSet, Decomposable: dec, IntermediateOutputType: inter, WindowType: wt})
		}
		switch v := v.(type) {
		case *extensions.AggregateFunctionVariant:
			gotDec, gotOrd, gotMax = v.Decomposability(), v.Ordered(), v.MaxSet()
			gotInter, interErr = v.Intermediate()
		case *extensions.WindowFunctionVariant:
			gotDec, gotOrd, gotMax = v.Decomposability(), v.Ordered(), v.MaxSet()
			gotInter, interErr = v.Intermediate()
			w := wt
			if kind == 4 || w == "" {
				w = extensions.PartitionWindow
			}
			t.Check(v.WindowType() == w, "variant-window", "window type %q, want %q", v.WindowType(), w)
		}
	}) {
		return
	}
	t.Check(v.Name() == simple && v.CompoundName() == name && v.URN() == id.URN, "variant-name", "%q %q %q", v.Name(), v.CompoundName(), v.URN())
	if known {
		var got []string
		for _, a := range v.Args() {
			va, ok := a.(extensions.ValueArg)
			if !ok {
				got = append(got, "?")
				continue
			}
			got = append(got, va.Value.ValueType.String())
		}
		t.Check(slices.Equal(got, want), "variant-args", "arguments %v, want %v", got, want)
	}
	dflt := kind%2 == 0
	if dflt {
		va, sess, det, ord, maxSet, dec, inter = nil, false, false, false, 0, "", ""
	}
	t.Check(v.Variadic() == va || v.Variadic() != nil && va != nil && *v.Variadic() == *va, "variant-variadic", "%v", v.Variadic())
	switch k := v.(type) {
	case *extensions.ScalarFunctionVariant:
		t.Check(k.SessionDependent() == sess && k.Deterministic() == det && k.ID() == id, "variant-props", "%v %v %v", k.SessionDependent(), k.Deterministic(), k.ID())
	case *extensions.AggregateFunctionVariant:
		t.Check(k.SessionDependent() == sess && k.Deterministic() == det && k.ID() == id, "variant-props", "%v %v %v", k.SessionDependent(), k.Deterministic(), k.ID())
	case *extensions.WindowFunctionVariant:
		t.Check(k.SessionDependent() == sess && k.Deterministic() == det && k.ID() == id, "variant-props", "%v %v %v", k.SessionDependent(), k.Deterministic(), k.ID())
	}
	if kind > 1 {
		if dec == "" {
			dec = extensions.DecomposeNone
		}
		t.Check(gotDec == dec && gotOrd == ord && gotMax == int(maxSet), "variant-aggregate", "%q %v %d", gotDec, gotOrd, gotMax)
		if dec != extensions.DecomposeNone {
			pd, err := spec.RefParse(inter)
			t.Must(err == nil, "harness", "%v", err)
			if t.Check(interErr == nil, "variant-intermediate", "%v", interErr) {
				t.Check(spec.DumpLib(gotInter) == pd.Dump(), "variant-intermediate", "%s, want %s", spec.DumpLib(gotInter), pd.Dump())
			}
		}
	}
	t.Obs(kind, name, dec, va == nil, sess, det, ord)
}
