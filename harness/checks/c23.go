package checks

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C23"] = c23 }

// A step of a path: a struct field, a list element or a map key.
type step struct {
	kind byte // s, l or m
	i    int32
	key  *spec.LS
}

func (s step) String() string {
	if s.kind == 'm' {
		return fmt.Sprintf("[%v]", s.key.Proto())
	}
	return fmt.Sprintf("%c%d", s.kind, s.i)
}

func stepsProto(ss []step) *proto.Expression_ReferenceSegment {
	if len(ss) == 0 {
		return nil
	}
	c := stepsProto(ss[1:])
	switch s := ss[0]; s.kind {
	case 's':
		return &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_StructField_{StructField: &proto.Expression_ReferenceSegment_StructField{Field: s.i, Child: c}}}
	case 'l':
		return &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_ListElement_{ListElement: &proto.Expression_ReferenceSegment_ListElement{Offset: s.i, Child: c}}}
	default:
		return &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_MapKey_{MapKey: &proto.Expression_ReferenceSegment_MapKey{MapKey: s.key.Proto(), Child: c}}}
	}
}

// stepsGo makes the path with the library's own constructors.
func stepsGo(r *vk.R, ss []step) expr.ReferenceSegment {
	var segs []expr.ReferenceSegment
	for _, s := range ss {
		switch s.kind {
		case 's':
			segs = append(segs, expr.NewStructFieldRef(s.i))
		case 'l':
			segs = append(segs, expr.NewListElemRef(s.i))
		default:
			segs = append(segs, expr.NewMapKeyRef(expr.LiteralFromProto(s.key.Proto())))
		}
	}
	if r.Bool() {
		return expr.FlattenRefSegments(segs...)
	}
	return expr.RefSegmentFromProto(stepsProto(ss))
}

// follow finds the type at the path. sure is false when the path exists but
// for the nullability or variation of a map key.
func follow(t *spec.TS, ss []step) (at *spec.TS, sure bool) {
	sure = true
	for _, s := range ss {
		switch {
		case s.kind == 's' && t.K == spec.Struct:
			if s.i < 0 || int(s.i) >= len(t.Kids) {
				return nil, true
			}
			t = t.Kids[s.i]
		case s.kind == 'l' && t.K == spec.List:
			t = t.Kids[0]
		case s.kind == 'm' && t.K == spec.Map:
			if !s.key.T.Equal(t.Kids[0]) {
				if plainType(s.key.T).Equal(plainType(t.Kids[0])) {
					sure = false
				} else {
					return nil, true
				}
			}
			t = t.Kids[1]
		default:
			return nil, true
		}
	}
	return t, sure
}

// plainType is the type without nullability and variations.
func plainType(t *spec.TS) *spec.TS {
	c := *t
	c.N, c.Var, c.Kids = types.NullabilityRequired, 0, nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, plainType(k))
	}
	return &c
}

// genSteps makes a path that mostly follows the type.
func genSteps(r *vk.R, g *spec.XG, t *spec.TS, min int) (out []step) {
	for len(out) < min || r.P(3, 5) {
		if len(out) > 4 {
			return
		}
		s := step{i: vk.PickOf(r, int32(0), 1, 2, -1, 1<<31-1, -1<<31)}
		wrong := r.P(1, 10)
		k := t.K
		if wrong || k != spec.Struct && k != spec.List && k != spec.Map {
			if k != spec.Struct && k != spec.List && k != spec.Map && r.P(1, 2) && len(out) >= min {
				return
			}
			k = vk.PickOf(r, spec.Struct, spec.List, spec.Map)
		}
		switch k {
		case spec.Struct:
			s.kind = 's'
			if t.K == spec.Struct && r.P(7, 8) && len(t.Kids) > 0 {
				s.i = int32(r.N(len(t.Kids)))
			} else if t.K == spec.Struct && r.Bool() {
				s.i = int32(len(t.Kids))
			}
		case spec.List:
			s.kind = 'l'
		default:
			s.kind = 'm'
			kt := g.Type(1)
			if t.K == spec.Map && r.P(5, 6) {
				kt = t.Kids[0]
			} else if t.K == spec.Map && r.Bool() {
				kt = t.Kids[0].With(types.Nullability(1 + r.N(2)))
			}
			if !spec.Litable(kt) {
				kt = &spec.TS{K: spec.I32, N: types.NullabilityRequired}
			}
			s.key = spec.GenLit(r, kt)
		}
		out = append(out, s)
		if n, _ := follow(t, []step{s}); n != nil {
			t = n
		}
	}
	return
}

// fromType makes a reference whose type the caller knows: it has that type,
// whatever the path.
func fromType(t *vk.T, what string, ty *spec.TS, p *proto.Expression, root expr.Expression, ref expr.ReferenceSegment) {
	var e *expr.FieldReference
	var err error
	if !t.NoPanic(what, func() {
		switch {
		case root != nil:
			e, err = expr.NewFieldRefFromType(root.(expr.RootRefType), ref, ty.Go())
		case t.R.Bool():
			e, err = expr.NewFieldRefFromType(expr.RootReference, ref, ty.Go())
		default:
			e, err = expr.NewRootFieldRefFromType(ref, ty.Go())
		}
	}) {
		return
	}
	t.Must(err == nil && e != nil, what, "%v, %v", e, err)
	t.Check(e.GetType() != nil && e.GetType().Equals(ty.Go()), what+"-type", "type %v, want %s", e.GetType(), ty)
	t.Check(pb.Equal(e.ToProto(), p), what+"-encode", "%s", pdiff(p, e.ToProto()))
	t.NoPanic(what+"-refused", func() {
		_, err := expr.NewFieldRefFromType(expr.RootReference, nil, ty.Go())
		t.Check(err != nil, what+"-nil", "a reference to nothing is accepted")
	})
}

func c23(c *vk.C) {
	c.Rule("record: paths, half of them broken somewhere, from the columns of an input row, through every constructor, builder and the decoder; expression, lambda and outer: from an expression of the type, from the parameters of enclosing lambdas (built and decoded), and from outer queries; non-trivial = distinct (type, path)")
	dir := func(ss []step, root *proto.Expression_FieldReference) *proto.Expression {
		root.ReferenceType = &proto.Expression_FieldReference_DirectReference{DirectReference: stepsProto(ss)}
		return &proto.Expression{RexType: &proto.Expression_Selection{Selection: root}}
	}
	// judge checks one way of making the reference.
	judge := func(t *vk.T, how string, from *spec.TS, ss []step, mk func() (expr.Expression, error)) {
		want, sure := follow(from, ss)
		t.Phase = how
		var e expr.Expression
		var err error
		if !t.NoPanic(how, func() { e, err = mk() }) {
			return
		}
		if want == nil {
			t.Check(err != nil, how+":accepted", "path %v into %s is accepted, as %v", ss, from, e)
			return
		}
		if !sure && err != nil {
			return
		}
		t.Must(err == nil, how+":refused", "path %v into %s is refused: %v", ss, from, err)
		var got types.Type
		if !t.NoPanic(how+":type", func() { got = e.GetType() }) {
			return
		}
		t.Check(got != nil && pb.Equal(types.TypeToProto(got), want.Proto()), how+":type", "path %v into %s has type %v, want %s", ss, from, got, want)
		t.NoPanic(how+":inspect", func() { _, _ = e.String(), e.ToProto() })
	}
	enc := func(t *vk.T, how string, e expr.Expression, err error, want *proto.Expression) (expr.Expression, error) {
		if err == nil {
			t.Check(pb.Equal(e.ToProto(), want), how+":encoding", "encodes to %v, want %v", e.ToProto(), want)
		}
		return e, err
	}
	col := extensions.GetDefaultCollectionWithNoError()
	c.ParSection("record", c.Scale(60000, 900000), func(t *vk.T) {
		r := t.R
		s := genSchema(r)
		g := newXG(r, s, &decls{})
		ss := genSteps(r, g, s, 1)
		t.Desc = func() string { return fmt.Sprintf("%v into %s", ss, s) }
		rec := recordOf(s)
		reg := expr.NewEmptyExtensionRegistry(col)
		p := dir(ss, &proto.Expression_FieldReference{RootType: &proto.Expression_FieldReference_RootReference_{RootReference: &proto.Expression_FieldReference_RootReference{}}})
		judge(t, "decode", s, ss, func() (expr.Expression, error) {
			e, err := expr.ExprFromProto(p, rec, reg)
			return enc(t, "decode", e, err, p)
		})
		judge(t, "new-root", s, ss, func() (expr.Expression, error) {
			e, err := expr.NewRootFieldRef(stepsGo(r, ss), rec)
			return enc(t, "new-root", e, err, p)
		})
		judge(t, "new", s, ss, func() (expr.Expression, error) {
			e, err := expr.NewFieldRef(expr.RootReference, stepsGo(r, ss), rec)
			return enc(t, "new", e, err, p)
		})
		judge(t, "builder", s, ss, func() (expr.Expression, error) {
			b := expr.ExprBuilder{Reg: reg, BaseSchema: rec}
			var fb expr.Builder = b.RootRef(stepsGo(r, ss))
			if r.Bool() {
				fb = b.Ref(expr.RootReference, stepsGo(r, ss))
			}
			e, err := fb.BuildExpr()
			return enc(t, "builder", e, err, p)
		})
		if ss[0].kind == 's' {
			b := plan.NewBuilderDefault()
			scan := func(ts []*spec.TS) plan.Rel {
				return b.NamedScan([]string{"t"}, types.NewNamedStructFromProto(genNamed(r, ts)))
			}
			one := ss[:1]
			p := dir(one, &proto.Expression_FieldReference{RootType: &proto.Expression_FieldReference_RootReference_{RootReference: &proto.Expression_FieldReference_RootReference{}}})
			judge(t, "root-field-ref", s, one, func() (expr.Expression, error) {
				e, err := b.RootFieldRef(scan(s.Kids), ss[0].i)
				return enc(t, "root-field-ref", e, err, p)
			})
			k := r.N(len(s.Kids) + 1)
			judge(t, "joined-field-ref", s, one, func() (expr.Expression, error) {
				e, err := b.JoinedRecordFieldRef(scan(s.Kids[:k]), scan(s.Kids[k:]), ss[0].i)
				return enc(t, "joined-field-ref", e, err, p)
			})
		}
		fromType(t, "from-type", g.Type(2), p, nil, stepsGo(r, ss))
		t.NoPanic("no-schema", func() {
			_, err := expr.NewRootFieldRef(stepsGo(r, ss), nil)
			t.Check(err != nil, "no-schema", "a root reference without a schema is accepted")
		})
		t.Obs(s.String(), fmt.Sprint(ss))
	})
	c.ParSection("expression", c.Scale(40000, 600000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		s := genSchema(r)
		g := newXG(r, s, d)
		root := g.Gen(1, g.Type(3))
		ss := genSteps(r, g, root.T, 1)
		t.Desc = func() string { return fmt.Sprintf("%v into %s\nof %v", ss, root.T, root.P) }
		reg, err := d.reg()
		t.Must(err == nil, "declarations", "%v", err)
		rec := recordOf(s)
		re, err := expr.ExprFromProto(root.P, rec, reg)
		t.Must(err == nil, "decode-root", "%v", err)
		p := dir(ss, &proto.Expression_FieldReference{RootType: &proto.Expression_FieldReference_Expression{Expression: root.P}})
		judge(t, "expr-decode", root.T, ss, func() (expr.Expression, error) {
			e, err := expr.ExprFromProto(p, rec, reg)
			return enc(t, "expr-decode", e, err, p)
		})
		judge(t, "expr-new", root.T, ss, func() (expr.Expression, error) {
			e, err := expr.NewFieldRef(re, stepsGo(r, ss), rec)
			return enc(t, "expr-new", e, err, p)
		})
		judge(t, "expr-builder", root.T, ss, func() (expr.Expression, error) {
			b := expr.ExprBuilder{Reg: reg, BaseSchema: rec}
			e, err := b.Ref(re, stepsGo(r, ss)).BuildExpr()
			return enc(t, "expr-builder", e, err, p)
		})
		fromType(t, "expr-from-type", g.Type(2), p, re, stepsGo(r, ss))
		// a reference into the reference
		if at, sure := follow(root.T, ss); at != nil && sure {
			ss2 := genSteps(r, g, at, 1)
			p2 := dir(ss2, &proto.Expression_FieldReference{RootType: &proto.Expression_FieldReference_Expression{Expression: p}})
			judge(t, "nested-decode", at, ss2, func() (expr.Expression, error) {
				e, err := expr.ExprFromProto(p2, rec, reg)
				return enc(t, "nested-decode", e, err, p2)
			})
		}
		t.Obs(root.T.String(), fmt.Sprint(ss))
	})
	c.ParSection("lambda", c.Scale(40000, 600000), func(t *vk.T) {
		r := t.R
		g := newXG(r, nil, &decls{})
		var params []*spec.TS // outermost first
		for i, n := 0, 1+r.N(3); i < n; i++ {
			p := &spec.TS{K: spec.Struct, N: types.NullabilityRequired}
			for j, m := 0, r.N(4); j < m; j++ {
				p.Kids = append(p.Kids, g.Type(2))
			}
			params = append(params, p)
		}
		out := uint32(r.N(len(params)))
		if r.P(1, 6) {
			out = vk.PickOf(r, uint32(len(params)), uint32(len(params))+1, 1<<31, 1<<32-1)
		}
		from := &spec.TS{K: spec.I32} // nothing has a path into this
		if int(out) < len(params) {
			from = params[len(params)-1-int(out)]
		}
		ss := genSteps(r, g, from, 1)
		t.Desc = func() string { return fmt.Sprintf("%v into parameters %d out of %v", ss, out, params) }
		reg := expr.NewEmptyExtensionRegistry(col)
		p := dir(ss, &proto.Expression_FieldReference{RootType: &proto.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &proto.Expression_FieldReference_LambdaParameterReference{StepsOut: out}}})
		lp := p
		for i := len(params) - 1; i >= 0; i-- {
			lp = &proto.Expression{RexType: &proto.Expression_Lambda_{Lambda: &proto.Expression_Lambda{Body: lp,
				Parameters: &proto.Type_Struct{Nullability: proto.Type_NULLABILITY_REQUIRED, Types: spec.Protos(params[i].Kids)}}}}
		}
		body := func(e expr.Expression, err error) (expr.Expression, error) {
			if err != nil {
				return nil, err
			}
			for {
				l, ok := e.(*expr.Lambda)
				if !ok {
					return e, nil
				}
				e = l.Body
			}
		}
		judge(t, "lambda-decode", from, ss, func() (expr.Expression, error) {
			e, err := expr.ExprFromProto(lp, nil, reg)
			return body(enc(t, "lambda-decode", e, err, lp))
		})
		if ss[0].kind == 's' {
			judge(t, "lambda-builder", from, ss, func() (expr.Expression, error) {
				b := expr.ExprBuilder{Reg: reg}
				var eb expr.Builder = b.LambdaParamRef(*stepsGo(r, ss).(*expr.StructFieldRef), out)
				for i := len(params) - 1; i >= 0; i-- {
					eb = b.Lambda(params[i].Go().(*types.StructType), eb)
				}
				e, err := eb.BuildExpr()
				if err == nil {
					e, err = enc(t, "lambda-builder", e, err, lp)
				}
				return body(e, err)
			})
			// outside of a lambda there is nothing to refer to
			t.NoPanic("no-lambda", func() {
				b := expr.ExprBuilder{Reg: reg}
				_, err := b.LambdaParamRef(*stepsGo(r, ss).(*expr.StructFieldRef), 0).Build()
				t.Check(err != nil, "no-lambda-builder", "a lambda parameter is accepted outside of any lambda")
			})
		}
		t.NoPanic("no-lambda", func() {
			_, err := expr.ExprFromProto(p, nil, reg)
			t.Check(err != nil, "no-lambda", "a lambda parameter is accepted outside of any lambda")
		})
		t.Obs(out, fmt.Sprint(params), fmt.Sprint(ss))
	})
	c.ParSection("outer", c.Scale(10000, 100000), func(t *vk.T) {
		r := t.R
		s := genSchema(r)
		g := newXG(r, s, &decls{})
		ss := genSteps(r, g, s, 1)
		reg := expr.NewEmptyExtensionRegistry(col)
		p := dir(ss, &proto.Expression_FieldReference{RootType: &proto.Expression_FieldReference_OuterReference_{OuterReference: &proto.Expression_FieldReference_OuterReference{StepsOut: uint32(r.N(4))}}})
		if r.P(1, 3) {
			p.GetSelection().ReferenceType = &proto.Expression_FieldReference_MaskedReference{MaskedReference: spec.Mask(r, s)}
		}
		t.Desc = func() string { return p.String() }
		t.NoPanic("outer", func() {
			e, err := expr.ExprFromProto(p, recordOf(s), reg)
			t.Must(err == nil, "outer-refused", "%v", err)
			t.Check(e.GetType() == nil, "outer-type", "a reference to a query that is not known has type %v", e.GetType())
			t.Check(pb.Equal(e.ToProto(), p), "outer-encoding", "encodes to %v", e.ToProto())
			_ = e.String()
		})
		t.Obs(p.String())
	})
}
