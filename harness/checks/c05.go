package checks

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C05"] = c05 }

func c05(c *vk.C) {
	c.Rule("mutants: a generated expression, its copy and two variants of it that differ in one to three places of the encoding, and its own sub-expressions, compared in every order with the comparison of their encodings; non-trivial = distinct unequal pair")
	c.Rule("subqueries: subquery expressions built over shared and separate relations")
	c.Rule("arguments: function arguments of all kinds, alike or not, through FuncArgsEqual")
	c.ParSection("mutants", c.Scale(60000, 900000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		s := genSchema(r)
		g := newXG(r, s, d)
		g.Sub = nil // compared by the identity of their relations: see the section subqueries
		var x *spec.X
		if depth := 1 + r.N(3); r.P(1, 5) {
			x = g.GenAny(depth)
		} else {
			x = g.Gen(depth, nil)
		}
		reg, err := d.reg()
		t.Must(err == nil, "declarations", "%v", err)
		rec := recordOf(s)
		type one struct {
			e    expr.Expression
			enc  *proto.Expression
			what string
		}
		var all []one
		add := func(p *proto.Expression, what string) {
			// what decoding and encoding do with odd messages is not the matter here
			var e expr.Expression
			var q *proto.Expression
			if pn, _ := vk.Try(func() {
				if e, err = expr.ExprFromProto(p, rec, reg); err == nil {
					q = e.ToProto()
				}
			}); pn != nil || err != nil || e == nil || specialFloat(q.ProtoReflect()) {
				return
			}
			all = append(all, one{e, q, what})
		}
		add(x.P, "same")
		add(x.P, "same")
		for i := 0; i < 4; i++ {
			m := pb.Clone(x.P).(*proto.Expression)
			what := mutate(r, m.ProtoReflect(), false)
			for r.P(1, 5) {
				what += ", " + mutate(r, m.ProtoReflect(), false)
			}
			add(m, what)
		}
		for _, o := range x.Operands() {
			if r.P(1, 3) {
				add(o.P, "operand")
			}
		}
		t.Desc = func() string { return fmt.Sprintf("schema %s\n%v\n%v", s, d.Fns, x.P) }
		for i, a := range all {
			t.NoPanic("Equals(nil)", func() { t.Check(!a.e.Equals(nil), "equals-nil", "%v equals nil", a.e) })
			for j, b := range all {
				want := pb.Equal(a.enc, b.enc)
				what := a.what
				if i < 2 {
					what = b.what
				}
				key := fmt.Sprintf("%s:%s", x.Kind, what)
				if want {
					key = x.Kind + ":equal"
				}
				t.NoPanic("Equals:"+key, func() {
					got := a.e.Equals(b.e)
					t.Check(got == want, "equals:"+key, "Equals is %v, but the encodings are equal: %v\na: %v\nb: %v", got, want, a.enc, b.enc)
					t.Check(expr.FuncArgsEqual(a.e, b.e) == want, "funcargsequal:"+key, "FuncArgsEqual is %v, but the encodings are equal: %v\na: %v\nb: %v", !want, want, a.enc, b.enc)
				})
				if !want && i < j {
					t.Obs(a.enc.String(), b.enc.String())
				}
			}
			// literal aliases
			if l, ok := a.e.(expr.Literal); ok {
				t.NoPanic("literal Equals", func() { t.Check(l.Equals(a.e), "literal-self", "%v is not equal to itself", l) })
			}
			if f, ok := a.e.(*expr.FieldReference); ok {
				for _, b := range all {
					f2, ok := b.e.(*expr.FieldReference)
					if !ok {
						continue
					}
					s1, ok1 := f.Reference.(expr.ReferenceSegment)
					s2, ok2 := f2.Reference.(expr.ReferenceSegment)
					if ok1 && ok2 {
						t.Check(s1.Equals(s2) == pb.Equal(s1.ToProto(), s2.ToProto()), "segment-equals", "segments %v and %v: Equals is %v", s1, s2, s1.Equals(s2))
					}
				}
			}
		}
	})
	c.ParSection("subqueries", c.Scale(6000, 60000), func(t *vk.T) {
		r := t.R
		b := plan.NewBuilderDefault()
		rel := func() plan.Rel {
			return b.NamedScan([]string{fmt.Sprint("t", r.N(2))}, types.NamedStruct{Names: []string{"a"}, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{&types.Int64Type{Nullability: types.NullabilityRequired}}}})
		}
		rels := []plan.Rel{rel(), rel()}
		lit := func() expr.Expression { return expr.NewPrimitiveLiteral(int64(r.N(2)), r.P(1, 4)) }
		type one struct {
			e    expr.Expression
			rel  int
			what string
		}
		mk := func() one {
			k := r.N(2)
			switch r.N(4) {
			case 0:
				return one{plan.NewScalarSubquery(rels[k]), k, ""}
			case 1:
				var ns []expr.Expression
				for i, n := 0, 1+r.N(3); i < n; i++ {
					ns = append(ns, lit())
				}
				return one{plan.NewInPredicateSubquery(ns, rels[k]), k, ""}
			case 2:
				return one{plan.NewSetPredicateSubquery(plan.SetPredicateOp(1+r.N(2)), rels[k]), k, ""}
			}
			return one{plan.NewSetComparisonSubquery(plan.SetComparisonReductionOp(1+r.N(2)), plan.SetComparisonComparisonOp(1+r.N(6)), lit(), rels[k]), k, ""}
		}
		var all []one
		for i := 0; i < 8; i++ {
			o := mk()
			if r.P(1, 2) { // inside something else
				o.e = &expr.Cast{Type: &types.StringType{Nullability: types.NullabilityNullable}, Input: o.e}
			}
			all = append(all, o)
		}
		for i, a := range all {
			for j, b := range all {
				want := a.rel == b.rel && pb.Equal(a.e.ToProto(), b.e.ToProto())
				key := fmt.Sprintf("%T", a.e)
				t.NoPanic("subquery Equals", func() {
					t.Check(a.e.Equals(b.e) == want, "subquery-equals:"+key, "Equals is %v, want %v (same relation: %v)\na: %v\nb: %v", !want, want, a.rel == b.rel, a.e.ToProto(), b.e.ToProto())
				})
				if i < j {
					t.Obs(a.e.ToProto().String(), b.e.ToProto().String(), a.rel == b.rel)
				}
			}
		}
	})
	c.ParSection("arguments", c.Scale(20000, 200000), func(t *vk.T) {
		r := t.R
		g := newXG(r, nil, &decls{})
		g.Sub, g.NoLambda = nil, true
		reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
		var args []*proto.FunctionArgument
		for len(args) < 5 {
			as, _ := g.Args(1)
			args = append(args, as...)
		}
		for i, n := 0, len(args); i < n; i++ {
			m := pb.Clone(args[i]).(*proto.FunctionArgument)
			if r.P(2, 3) {
				mutate(r, m.ProtoReflect(), false)
			}
			args = append(args, m)
		}
		var fa []types.FuncArg
		for _, a := range args {
			var f types.FuncArg
			var err error
			if pn, _ := vk.Try(func() { f, err = expr.FuncArgFromProto(a, nil, reg) }); pn == nil && err == nil && f != nil && !specialFloat(f.ToProtoFuncArg().ProtoReflect()) {
				fa = append(fa, f)
			}
		}
		for _, a := range fa {
			for _, b := range fa {
				want := pb.Equal(a.ToProtoFuncArg(), b.ToProtoFuncArg())
				t.NoPanic("FuncArgsEqual", func() {
					t.Check(expr.FuncArgsEqual(a, b) == want, fmt.Sprintf("argument:%T-%T", a, b), "FuncArgsEqual(%v, %v) is %v", a, b, !want)
				})
				if !want {
					t.Obs(a.String(), b.String())
				}
			}
		}
	})
}
