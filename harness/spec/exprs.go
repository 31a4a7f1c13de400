package spec

import (
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/harness/vk"
)

// FnDecl is a declared function of a plan or extended expression.
type FnDecl struct {
	URN, Name string
	Kind      int // 0 scalar 1 aggregate 2 window
	Known     bool
	Anchor    uint32
}

// X is a generated protobuf expression, with its type (nil when the spec gives
// no way of knowing it without the enclosing context) and direct operands.
type X struct {
	P    *proto.Expression
	T    *TS
	Kind string
	Ops  [][]*X // operand lists; the order within a list matters
}

// Operands lists the direct operands, list after list.
func (x *X) Operands() (out []*X) {
	for _, g := range x.Ops {
		out = append(out, g...)
	}
	return
}

// Walk visits the expression and everything below it.
func (x *X) Walk(f func(*X)) {
	f(x)
	for _, o := range x.Operands() {
		o.Walk(f)
	}
}

// XG generates expressions.
type XG struct {
	R        *vk.R
	Schema   *TS // record type, nil if there is no input
	Fns      []FnDecl
	Lambdas  [][]*TS
	Outers   int
	Sub      func(g *XG, cols int) (*proto.Rel, []*TS) // a relation with so many columns, or any number if negative
	Param    func(t *TS) uint32
	NoParam  bool
	NoWindow bool
	NoMask   bool
	NoLambda bool
	SubDepth int
}

var xTypeOpt = TypeOpt{NoUnspec: true, NoFunc: true, NoUDT: true}

// Type makes a type for an expression.
func (g *XG) Type(depth int) *TS {
	o := xTypeOpt
	o.Depth = depth
	o.NoVar = g.R.P(3, 4)
	if g.R.P(1, 3) {
		return &TS{K: vk.PickOf(g.R, Bool, I8, I32, I64, Fp64, String, Date), N: types.Nullability(1 + g.R.N(2))}
	}
	t := GenType(g.R, o)
	ClampLit(g.R, t)
	return t
}

func field(i int32, child *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment {
	return &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_StructField_{
		StructField: &proto.Expression_ReferenceSegment_StructField{Field: i, Child: child}}}
}

func elem(i int32, child *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment {
	return &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_ListElement_{
		ListElement: &proto.Expression_ReferenceSegment_ListElement{Offset: i, Child: child}}}
}

func mapkey(k *LS, child *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment {
	return &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_MapKey_{
		MapKey: &proto.Expression_ReferenceSegment_MapKey{MapKey: k.Proto(), Child: child}}}
}

// Litable says whether literals of the type can be written.
func Litable(t *TS) bool {
	if t.K == Func || t.K == NumPrimitive || t.K == NumScalar {
		return false
	}
	for _, k := range t.Kids {
		if !Litable(k) {
			return false
		}
	}
	for _, p := range t.Params {
		if p.T != nil && !Litable(p.T) {
			return false
		}
	}
	return true
}

// Path makes a reference path into a value of the type. min is the least
// number of segments. It returns the path and the type it leads to, or nil.
func Path(r *vk.R, t *TS, min int) (*proto.Expression_ReferenceSegment, *TS) {
	if min <= 0 && (r.P(2, 5) || t.K != Struct && t.K != List && t.K != Map) {
		return nil, t
	}
	switch t.K {
	case Struct:
		if len(t.Kids) == 0 {
			break
		}
		i := r.N(len(t.Kids))
		c, ct := Path(r, t.Kids[i], min-1)
		if ct == nil {
			return nil, nil
		}
		return field(int32(i), c), ct
	case List:
		c, ct := Path(r, t.Kids[0], min-1)
		if ct == nil {
			return nil, nil
		}
		return elem(vk.PickOf(r, int32(0), 1, 7, -1, 1<<30), c), ct
	case Map:
		if !Litable(t.Kids[0]) {
			break
		}
		c, ct := Path(r, t.Kids[1], min-1)
		if ct == nil {
			return nil, nil
		}
		return mapkey(GenLit(r, t.Kids[0]), c), ct
	}
	if min <= 0 {
		return nil, t
	}
	return nil, nil
}

// PathsTo lists the paths into the type that lead to exactly the wanted type.
func PathsTo(r *vk.R, t, want *TS, depth int) (out []*proto.Expression_ReferenceSegment) {
	add := func(kid *TS, mk func(c *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment) {
		if kid.Equal(want) {
			out = append(out, mk(nil))
		}
		if depth > 0 {
			for _, c := range PathsTo(r, kid, want, depth-1) {
				out = append(out, mk(c))
			}
		}
	}
	switch t.K {
	case Struct:
		for i, k := range t.Kids {
			add(k, func(c *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment {
				return field(int32(i), c)
			})
		}
	case List:
		add(t.Kids[0], func(c *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment {
			return elem(int32(r.N(3)), c)
		})
	case Map:
		if Litable(t.Kids[0]) {
			add(t.Kids[1], func(c *proto.Expression_ReferenceSegment) *proto.Expression_ReferenceSegment {
				return mapkey(GenLit(r, t.Kids[0]), c)
			})
		}
	}
	return
}

func rootRef() *proto.Expression_FieldReference_RootReference_ {
	return &proto.Expression_FieldReference_RootReference_{RootReference: &proto.Expression_FieldReference_RootReference{}}
}

func sel(f *proto.Expression_FieldReference) *proto.Expression {
	return &proto.Expression{RexType: &proto.Expression_Selection{Selection: f}}
}

// RootRef is a reference to a column of the input record.
func RootRef(i int) *proto.Expression {
	return sel(&proto.Expression_FieldReference{
		RootType:      rootRef(),
		ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: field(int32(i), nil)}})
}

func (g *XG) lit(t *TS) *X {
	l := GenLit(g.R, t)
	return &X{P: &proto.Expression{RexType: &proto.Expression_Literal_{Literal: l.Proto()}}, T: l.T, Kind: "literal"}
}

// Gen makes an expression of exactly the wanted type, or of any known type if want is nil.
func (g *XG) Gen(depth int, want *TS) *X {
	if want == nil {
		want = g.Type(2)
		if g.R.P(1, 25) && !g.NoLambda {
			want = &TS{K: Func, N: types.NullabilityRequired}
			for i, n := 0, 1+g.R.N(3); i < n; i++ {
				want.Kids = append(want.Kids, g.Type(1))
			}
		}
	}
	for {
		if x := g.try(depth, want); x != nil {
			return x
		}
	}
}

// GenAny makes an expression, possibly of unknown type.
func (g *XG) GenAny(depth int) *X {
	if g.R.P(1, 5) {
		if x := g.unknown(depth); x != nil {
			return x
		}
	}
	return g.Gen(depth, nil)
}

func (g *XG) sub(depth int, want *TS) *X {
	return g.Gen(depth-1-g.R.N(2), want)
}

func (g *XG) unknown(depth int) *X {
	r := g.R
	someSeg := func() *proto.Expression_ReferenceSegment {
		p, _ := Path(r, &TS{K: Struct, Kids: []*TS{g.Type(2), g.Type(2), g.Type(2)}}, 1)
		if p == nil {
			p = field(0, nil)
		}
		return p
	}
	f := &proto.Expression_FieldReference{RootType: rootRef()}
	switch r.N(4) {
	case 0:
		f.RootType = &proto.Expression_FieldReference_OuterReference_{OuterReference: &proto.Expression_FieldReference_OuterReference{StepsOut: uint32(1 + r.N(3))}}
		f.ReferenceType = &proto.Expression_FieldReference_DirectReference{DirectReference: someSeg()}
		return &X{P: sel(f), Kind: "outer-ref"}
	case 1:
		if len(g.Lambdas) == 0 {
			return nil
		}
		out := r.N(len(g.Lambdas))
		ps := g.Lambdas[len(g.Lambdas)-1-out]
		if len(ps) == 0 {
			return nil
		}
		p, t := Path(r, &TS{K: Struct, N: types.NullabilityRequired, Kids: ps}, 1)
		if t == nil {
			return nil
		}
		f.RootType = &proto.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &proto.Expression_FieldReference_LambdaParameterReference{StepsOut: uint32(out)}}
		f.ReferenceType = &proto.Expression_FieldReference_DirectReference{DirectReference: p}
		return &X{P: sel(f), T: t, Kind: "lambda-param"}
	case 2:
		if g.NoMask || g.Schema == nil {
			return nil
		}
		x := &X{P: sel(f), Kind: "mask"}
		f.ReferenceType = &proto.Expression_FieldReference_MaskedReference{MaskedReference: Mask(r, g.Schema)}
		if depth > 0 && r.P(1, 3) {
			root := g.sub(depth, g.Type(2))
			f.RootType = &proto.Expression_FieldReference_Expression{Expression: root.P}
			x.Ops = [][]*X{{root}}
		} else if r.P(1, 4) {
			f.RootType = &proto.Expression_FieldReference_OuterReference_{OuterReference: &proto.Expression_FieldReference_OuterReference{StepsOut: uint32(1 + r.N(3))}}
		}
		return x
	}
	if depth <= 0 || g.NoLambda {
		return nil
	}
	// a lambda whose body is of unknown type
	return g.lambda(depth, nil)
}

// lambda makes a lambda; with a wanted function type, its parameters and return type.
func (g *XG) lambda(depth int, want *TS) *X {
	r := g.R
	var ps []*TS
	var ret *TS
	if want != nil {
		ps, ret = want.Kids[:len(want.Kids)-1], want.Kids[len(want.Kids)-1]
	} else {
		for i, n := 0, r.N(4); i < n; i++ {
			ps = append(ps, g.Type(1))
		}
	}
	g.Lambdas = append(g.Lambdas, ps)
	var body *X
	if want != nil {
		if g.R.P(1, 2) {
			body = g.ref(ret)
		}
		if body == nil {
			body = g.sub(depth, ret)
		}
	} else {
		for body == nil {
			body = g.unknown(depth - 1)
		}
	}
	g.Lambdas = g.Lambdas[:len(g.Lambdas)-1]
	lt := want
	if lt == nil && body.T != nil {
		lt = &TS{K: Func, N: types.NullabilityRequired, Kids: append(append([]*TS(nil), ps...), body.T)}
	}
	p := &proto.Type_Struct{Nullability: proto.Type_NULLABILITY_REQUIRED, Types: Protos(ps)}
	if r.P(1, 4) {
		p.TypeVariationReference = 3
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_Lambda_{Lambda: &proto.Expression_Lambda{Parameters: p, Body: body.P}}},
		T: lt, Kind: "lambda", Ops: [][]*X{{body}}}
}

// Mask makes a mask over a struct type.
func Mask(r *vk.R, t *TS) *proto.Expression_MaskExpression {
	return &proto.Expression_MaskExpression{Select: maskStruct(r, t), MaintainSingularStruct: r.Bool()}
}

func maskStruct(r *vk.R, t *TS) *proto.Expression_MaskExpression_StructSelect {
	out := &proto.Expression_MaskExpression_StructSelect{}
	for i, k := range t.Kids {
		if r.P(1, 3) {
			continue
		}
		it := &proto.Expression_MaskExpression_StructItem{Field: int32(i)}
		if r.P(2, 3) {
			it.Child = maskOf(r, k)
		}
		out.StructItems = append(out.StructItems, it)
	}
	if r.P(1, 5) {
		vk.Shuffle(r, out.StructItems)
	}
	return out
}

func maskOf(r *vk.R, t *TS) *proto.Expression_MaskExpression_Select {
	type LI = proto.Expression_MaskExpression_ListSelect_ListSelectItem
	child := func(k *TS) *proto.Expression_MaskExpression_Select {
		if r.P(1, 3) {
			return nil
		}
		return maskOf(r, k)
	}
	switch t.K {
	case Struct:
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Struct{Struct: maskStruct(r, t)}}
	case List:
		l := &proto.Expression_MaskExpression_ListSelect{Child: child(t.Kids[0])}
		for i, n := 0, r.N(3); i < n; i++ {
			if r.Bool() {
				l.Selection = append(l.Selection, &LI{Type: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_Item{
					Item: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: int32(r.N(9)) - 2}}})
			} else {
				l.Selection = append(l.Selection, &LI{Type: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{
					Slice: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: int32(r.N(4)), End: int32(r.N(9)) - 3}}})
			}
		}
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_List{List: l}}
	case Map:
		m := &proto.Expression_MaskExpression_MapSelect{Child: child(t.Kids[1])}
		if r.Bool() {
			m.Select = &proto.Expression_MaskExpression_MapSelect_Key{Key: &proto.Expression_MaskExpression_MapSelect_MapKey{MapKey: GenStr(r)}}
		} else {
			m.Select = &proto.Expression_MaskExpression_MapSelect_Expression{Expression: &proto.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: GenStr(r)}}
		}
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Map{Map: m}}
	}
	return nil
}

func (g *XG) fn(kind int) *FnDecl {
	var c []*FnDecl
	for i := range g.Fns {
		if g.Fns[i].Kind == kind {
			c = append(c, &g.Fns[i])
		}
	}
	if len(c) == 0 {
		return nil
	}
	return vk.Pick(g.R, c)
}

// Args makes function arguments; the operands are the expressions among them.
func (g *XG) Args(depth int) (args []*proto.FunctionArgument, ops []*X) {
	for i, n := 0, g.R.N(4); i < n; i++ {
		switch {
		case g.R.P(1, 8):
			args = append(args, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Enum{Enum: vk.PickOf(g.R, "YEAR", "SET", "x", "")}})
		case g.R.P(1, 12):
			args = append(args, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Type{Type: g.Type(1).Proto()}})
		default:
			x := g.GenAny(depth - 1 - g.R.N(2))
			args = append(args, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Value{Value: x.P}})
			ops = append(ops, x)
		}
	}
	return
}

// Options makes function options.
func (g *XG) Options() (out []*proto.FunctionOption) {
	if g.R.P(2, 3) {
		return nil
	}
	for i, n := 0, 1+g.R.N(2); i < n; i++ {
		o := &proto.FunctionOption{Name: vk.PickOf(g.R, "overflow", "rounding", "x")}
		for j, m := 0, g.R.N(3); j < m; j++ {
			o.Preference = append(o.Preference, vk.PickOf(g.R, "SILENT", "ERROR", "TIE_TO_EVEN"))
		}
		out = append(out, o)
	}
	return
}

// Sorts makes sort fields.
func (g *XG) Sorts(depth, min int) (out []*proto.SortField, ops []*X) {
	for i, n := 0, min+g.R.N(3); i < n; i++ {
		x := g.sub(depth, nil)
		s := &proto.SortField{Expr: x.P}
		if f := g.fn(0); f != nil && g.R.P(1, 4) {
			s.SortKind = &proto.SortField_ComparisonFunctionReference{ComparisonFunctionReference: f.Anchor}
		} else {
			s.SortKind = &proto.SortField_Direction{Direction: proto.SortField_SortDirection(1 + g.R.N(5))}
		}
		out, ops = append(out, s), append(ops, x)
	}
	return
}

func (g *XG) bound() *proto.Expression_WindowFunction_Bound {
	type B = proto.Expression_WindowFunction_Bound
	off := vk.PickOf(g.R, int64(0), 1, 2, 100, 1<<40)
	switch g.R.N(5) {
	case 0:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_Preceding_{Preceding: &proto.Expression_WindowFunction_Bound_Preceding{Offset: off}}}
	case 1:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_Following_{Following: &proto.Expression_WindowFunction_Bound_Following{Offset: off}}}
	case 2:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &proto.Expression_WindowFunction_Bound_CurrentRow{}}}
	case 3:
		return &B{Kind: &proto.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &proto.Expression_WindowFunction_Bound_Unbounded{}}}
	}
	return nil
}

// Aggregate makes an aggregate function call.
func (g *XG) Aggregate(depth int, out *TS) (*proto.AggregateFunction, []*X) {
	f := g.fn(1)
	if f == nil {
		return nil, nil
	}
	args, ops := g.Args(depth)
	a := &proto.AggregateFunction{FunctionReference: f.Anchor, Arguments: args, Options: g.Options(), OutputType: out.Proto(),
		Phase:      proto.AggregationPhase(1 + g.R.N(4)),
		Invocation: proto.AggregateFunction_AggregationInvocation(1 + g.R.N(2))}
	if g.R.P(1, 3) {
		s, sops := g.Sorts(depth, 1)
		a.Sorts, ops = s, append(ops, sops...)
	}
	return a, ops
}

// HasAggregate says whether there is an aggregate function to call.
func (g *XG) HasAggregate() bool { return g.fn(1) != nil }

func boolReq(t *TS) bool {
	return t.K == Bool && t.N == types.NullabilityRequired && t.Var == 0
}

func (g *XG) try(depth int, want *TS) *X {
	r := g.R
	if want.K == Func {
		if want.N == types.NullabilityRequired && depth > 0 {
			return g.lambda(depth, want)
		}
		return g.castTo(0, want)
	}
	if depth <= 0 {
		switch r.N(4) {
		case 0:
			if g.Schema != nil {
				return g.ref(want)
			}
		case 1:
			return g.param(want)
		case 2:
			if f := g.fn(0); f != nil && r.P(1, 3) {
				return g.scalar(f, 0, want)
			}
		}
		if Litable(want) {
			return g.lit(want)
		}
		return g.castTo(0, want)
	}
	switch r.N(16) {
	case 0, 1, 2:
		if g.Schema != nil {
			return g.ref(want)
		}
	case 3, 4, 5:
		if f := g.fn(0); f != nil {
			return g.scalar(f, depth, want)
		}
	case 6:
		if f := g.fn(2); f != nil && !g.NoWindow {
			return g.window(f, depth, want)
		}
	case 7:
		return g.castTo(depth, want)
	case 8:
		c := &proto.Expression_IfThen{}
		var ops []*X
		for i, n := 0, 1+r.N(3); i < n; i++ {
			a, b := g.sub(depth, &TS{K: Bool, N: types.Nullability(1 + r.N(2))}), g.sub(depth, want)
			c.Ifs = append(c.Ifs, &proto.Expression_IfThen_IfClause{If: a.P, Then: b.P})
			ops = append(ops, a, b)
		}
		e := g.sub(depth, want)
		c.Else = e.P
		return &X{P: &proto.Expression{RexType: &proto.Expression_IfThen_{IfThen: c}}, T: want, Kind: "if-then", Ops: [][]*X{append(ops, e)}}
	case 9:
		return g.switchX(depth, want)
	case 10:
		if !boolReq(want) {
			return nil
		}
		if r.Bool() {
			t := g.Type(1)
			v := g.sub(depth, t)
			l := &proto.Expression_SingularOrList{Value: v.P}
			ops := []*X{v}
			for i, n := 0, 1+r.N(3); i < n; i++ {
				o := g.sub(depth, t)
				l.Options = append(l.Options, o.P)
				ops = append(ops, o)
			}
			return &X{P: &proto.Expression{RexType: &proto.Expression_SingularOrList_{SingularOrList: l}}, T: want, Kind: "or-list", Ops: [][]*X{ops}}
		}
		l := &proto.Expression_MultiOrList{}
		var ts []*TS
		var ops []*X
		for i, n := 0, 1+r.N(3); i < n; i++ {
			ts = append(ts, g.Type(1))
			v := g.sub(depth, ts[i])
			l.Value = append(l.Value, v.P)
			ops = append(ops, v)
		}
		for i, n := 0, 1+r.N(3); i < n; i++ {
			rec := &proto.Expression_MultiOrList_Record{}
			for _, t := range ts {
				o := g.sub(depth, t)
				rec.Fields = append(rec.Fields, o.P)
				ops = append(ops, o)
			}
			l.Options = append(l.Options, rec)
		}
		return &X{P: &proto.Expression{RexType: &proto.Expression_MultiOrList_{MultiOrList: l}}, T: want, Kind: "multi-or-list", Ops: [][]*X{ops}}
	case 11:
		return g.nested(depth, want)
	case 12:
		return g.param(want)
	case 13:
		if g.Sub != nil && g.SubDepth > 0 {
			return g.subquery(depth, want)
		}
	case 14:
		// a reference into an expression: build the wrapper around the wanted type
		var w *TS
		switch r.N(3) {
		case 0:
			w = &TS{K: Struct, N: types.Nullability(1 + r.N(2))}
			k := r.N(3)
			for i := 0; i < 3; i++ {
				if i == k {
					w.Kids = append(w.Kids, want)
				} else {
					w.Kids = append(w.Kids, g.Type(1))
				}
			}
		case 1:
			w = &TS{K: List, N: types.Nullability(1 + r.N(2)), Kids: []*TS{want}}
		default:
			w = &TS{K: Map, N: types.Nullability(1 + r.N(2)), Kids: []*TS{{K: vk.PickOf(r, I32, String, Date), N: types.Nullability(1 + r.N(2))}, want}}
		}
		ps := PathsTo(r, w, want, 1)
		root := g.sub(depth, w)
		return &X{P: sel(&proto.Expression_FieldReference{
			RootType:      &proto.Expression_FieldReference_Expression{Expression: root.P},
			ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: vk.Pick(r, ps)}}), T: want, Kind: "expr-ref", Ops: [][]*X{{root}}}
	}
	if Litable(want) {
		return g.lit(want)
	}
	return nil
}

func (g *XG) ref(want *TS) *X {
	if n := len(g.Lambdas); n > 0 && g.R.P(1, 2) {
		out := g.R.N(n)
		ps := PathsTo(g.R, &TS{K: Struct, Kids: g.Lambdas[n-1-out]}, want, 2)
		if len(ps) == 0 {
			return nil
		}
		return &X{P: sel(&proto.Expression_FieldReference{
			RootType:      &proto.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &proto.Expression_FieldReference_LambdaParameterReference{StepsOut: uint32(out)}},
			ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: vk.Pick(g.R, ps)}}), T: want, Kind: "lambda-param"}
	}
	if g.Schema == nil {
		return nil
	}
	ps := PathsTo(g.R, g.Schema, want, 2)
	if len(ps) == 0 {
		return nil
	}
	return &X{P: sel(&proto.Expression_FieldReference{RootType: rootRef(),
		ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: vk.Pick(g.R, ps)}}), T: want, Kind: "root-ref"}
}

func (g *XG) param(want *TS) *X {
	if g.NoParam {
		return nil
	}
	n := uint32(g.R.N(4))
	if g.Param != nil {
		n = g.Param(want)
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_DynamicParameter{DynamicParameter: &proto.DynamicParameter{Type: want.Proto(), ParameterReference: n}}},
		T: want, Kind: "parameter"}
}

// Of makes an expression of a type that there may be no literals of.
func (g *XG) Of(want *TS) *X {
	if want.K == Func && want.N == types.NullabilityRequired && g.R.Bool() {
		if b := want.Kids[len(want.Kids)-1]; b.K < NumPrimitive {
			return g.lambda(1, want)
		}
	}
	if g.R.Bool() {
		return g.param(want)
	}
	return g.castTo(0, want)
}

func (g *XG) castTo(depth int, want *TS) *X {
	var in *X
	if depth > 0 {
		in = g.GenAny(depth - 1 - g.R.N(2))
	} else {
		in = g.lit(&TS{K: I32, N: types.NullabilityRequired})
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_Cast_{Cast: &proto.Expression_Cast{Type: want.Proto(), Input: in.P,
		FailureBehavior: proto.Expression_Cast_FailureBehavior(g.R.N(3))}}}, T: want, Kind: "cast", Ops: [][]*X{{in}}}
}

func (g *XG) scalar(f *FnDecl, depth int, want *TS) *X {
	s := &proto.Expression_ScalarFunction{FunctionReference: f.Anchor, OutputType: want.Proto(), Options: g.Options()}
	var ops []*X
	if depth > 0 {
		s.Arguments, ops = g.Args(depth)
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_ScalarFunction_{ScalarFunction: s}}, T: want, Kind: "scalar-function", Ops: [][]*X{ops}}
}

func (g *XG) window(f *FnDecl, depth int, want *TS) *X {
	r := g.R
	w := &proto.Expression_WindowFunction{FunctionReference: f.Anchor, OutputType: want.Proto(), Options: g.Options(),
		Phase:      proto.AggregationPhase(1 + r.N(4)),
		Invocation: proto.AggregateFunction_AggregationInvocation(1 + r.N(2)),
		BoundsType: proto.Expression_WindowFunction_BoundsType(r.N(3)),
		LowerBound: g.bound(), UpperBound: g.bound()}
	args, a := g.Args(depth)
	w.Arguments = args
	var p, s []*X
	for i, n := 0, r.N(3); i < n; i++ {
		x := g.sub(depth, nil)
		w.Partitions = append(w.Partitions, x.P)
		p = append(p, x)
	}
	if w.BoundsType == proto.Expression_WindowFunction_BOUNDS_TYPE_RANGE {
		w.Sorts, s = g.Sorts(depth, 1)
		w.Sorts, s = w.Sorts[:1], s[:1]
	} else if r.Bool() {
		w.Sorts, s = g.Sorts(depth, 0)
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_WindowFunction_{WindowFunction: w}}, T: want, Kind: "window-function", Ops: [][]*X{a, p, s}}
}

func (g *XG) switchX(depth int, want *TS) *X {
	r := g.R
	mt := g.Type(1)
	if !Litable(mt) {
		return nil
	}
	m := g.sub(depth, mt)
	s := &proto.Expression_SwitchExpression{Match: m.P}
	ops := []*X{m}
	nullable := want.N == types.NullabilityNullable
	n := 1 + r.N(3)
	noElse := nullable && r.P(1, 4)
	// the result is nullable exactly when one of the branches is, or there is no else
	force := -1
	if nullable && !noElse {
		force = r.N(n + 1)
	}
	branch := func(i int) *X {
		t := want
		if nullable && i != force && r.Bool() {
			t = want.With(types.NullabilityRequired)
		}
		return g.sub(depth, t)
	}
	for i := 0; i < n; i++ {
		l := g.lit(mt.With(types.Nullability(1 + r.N(2))))
		b := branch(i)
		s.Ifs = append(s.Ifs, &proto.Expression_SwitchExpression_IfValue{If: l.P.GetLiteral(), Then: b.P})
		ops = append(ops, l, b)
	}
	if !noElse {
		e := branch(n)
		s.Else = e.P
		ops = append(ops, e)
	}
	k := "switch"
	if noElse {
		k = "switch-no-else"
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_SwitchExpression_{SwitchExpression: s}}, T: want, Kind: k, Ops: [][]*X{ops}}
}

func (g *XG) nested(depth int, want *TS) *X {
	r := g.R
	n := &proto.Expression_Nested{Nullable: want.N == types.NullabilityNullable, TypeVariationReference: want.Var}
	var ops []*X
	switch want.K {
	case Struct:
		s := &proto.Expression_Nested_Struct{}
		for _, k := range want.Kids {
			x := g.sub(depth, k)
			s.Fields, ops = append(s.Fields, x.P), append(ops, x)
		}
		n.NestedType = &proto.Expression_Nested_Struct_{Struct: s}
	case List:
		s := &proto.Expression_Nested_List{}
		for i, m := 0, 1+r.N(3); i < m; i++ {
			x := g.sub(depth, want.Kids[0])
			s.Values, ops = append(s.Values, x.P), append(ops, x)
		}
		n.NestedType = &proto.Expression_Nested_List_{List: s}
	case Map:
		s := &proto.Expression_Nested_Map{}
		for i, m := 0, 1+r.N(3); i < m; i++ {
			k, v := g.sub(depth, want.Kids[0]), g.sub(depth, want.Kids[1])
			s.KeyValues, ops = append(s.KeyValues, &proto.Expression_Nested_Map_KeyValue{Key: k.P, Value: v.P}), append(ops, k, v)
		}
		n.NestedType = &proto.Expression_Nested_Map_{Map: s}
	default:
		return nil
	}
	return &X{P: &proto.Expression{RexType: &proto.Expression_Nested_{Nested: n}}, T: want, Kind: "nested-" + want.K.String(), Ops: [][]*X{ops}}
}

func (g *XG) subquery(depth int, want *TS) *X {
	r := g.R
	sg := *g
	sg.SubDepth--
	sg.Lambdas = nil
	sg.Outers++
	mk := func(s *proto.Expression_Subquery, kind string, ops ...*X) *X {
		return &X{P: &proto.Expression{RexType: &proto.Expression_Subquery_{Subquery: s}}, T: want, Kind: kind, Ops: [][]*X{ops}}
	}
	if !boolReq(want) || r.P(1, 4) {
		// a scalar subquery has its input's only column as its type, so it is wrapped in a cast to reach the wanted one
		rel, cols := g.Sub(&sg, 1)
		if len(cols) != 1 {
			return nil
		}
		s := &X{P: &proto.Expression{RexType: &proto.Expression_Subquery_{Subquery: &proto.Expression_Subquery{SubqueryType: &proto.Expression_Subquery_Scalar_{
			Scalar: &proto.Expression_Subquery_Scalar{Input: rel}}}}}, T: cols[0], Kind: "scalar-subquery"}
		if cols[0].Equal(want) {
			return s
		}
		return &X{P: &proto.Expression{RexType: &proto.Expression_Cast_{Cast: &proto.Expression_Cast{Type: want.Proto(), Input: s.P,
			FailureBehavior: proto.Expression_Cast_FailureBehavior(r.N(3))}}}, T: want, Kind: "cast", Ops: [][]*X{{s}}}
	}
	switch r.N(3) {
	case 0:
		rel, cols := g.Sub(&sg, -1)
		if len(cols) == 0 {
			return nil
		}
		p := &proto.Expression_Subquery_InPredicate{Haystack: rel}
		var ops []*X
		for _, c := range cols {
			x := g.sub(depth, c)
			p.Needles, ops = append(p.Needles, x.P), append(ops, x)
		}
		return mk(&proto.Expression_Subquery{SubqueryType: &proto.Expression_Subquery_InPredicate_{InPredicate: p}}, "in-subquery", ops...)
	case 1:
		rel, _ := g.Sub(&sg, -1)
		return mk(&proto.Expression_Subquery{SubqueryType: &proto.Expression_Subquery_SetPredicate_{SetPredicate: &proto.Expression_Subquery_SetPredicate{
			PredicateOp: proto.Expression_Subquery_SetPredicate_PredicateOp(1 + r.N(2)), Tuples: rel}}}, "set-predicate")
	}
	rel, cols := g.Sub(&sg, 1)
	if len(cols) != 1 {
		return nil
	}
	l := g.sub(depth, cols[0])
	return mk(&proto.Expression_Subquery{SubqueryType: &proto.Expression_Subquery_SetComparison_{SetComparison: &proto.Expression_Subquery_SetComparison{
		ReductionOp:  proto.Expression_Subquery_SetComparison_ReductionOp(1 + r.N(2)),
		ComparisonOp: proto.Expression_Subquery_SetComparison_ComparisonOp(1 + r.N(6)), Left: l.P, Right: rel}}}, "set-comparison", l)
}
