package checks

import (
	"fmt"
	"slices"

	"github.com/substrait-io/substrait-go/v8/expr"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

// maskRead builds the message of a selection from what its accessors say.
func maskRead(s expr.MaskSelect) *proto.Expression_MaskExpression_Select {
	switch x := s.(type) {
	case nil:
		return nil
	case expr.MaskStructSelect:
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Struct{Struct: maskStructRead(x)}}
	case *expr.MaskListSelect:
		l := &proto.Expression_MaskExpression_ListSelect{Child: maskRead(x.Child())}
		for _, it := range x.Selection() {
			o := &proto.Expression_MaskExpression_ListSelect_ListSelectItem{}
			switch it := it.(type) {
			case *expr.MaskListElement:
				o.Type = &proto.Expression_MaskExpression_ListSelect_ListSelectItem_Item{
					Item: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: it.GetField()}}
			case *expr.MaskListSlice:
				a, b := it.GetBounds()
				o.Type = &proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{
					Slice: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: a, End: b}}
			}
			l.Selection = append(l.Selection, o)
		}
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_List{List: l}}
	case *expr.MaskMapSelect:
		m := &proto.Expression_MaskExpression_MapSelect{Child: maskRead(x.Child())}
		if x.KeyKind() == expr.MapSelectKey {
			m.Select = &proto.Expression_MaskExpression_MapSelect_Key{Key: &proto.Expression_MaskExpression_MapSelect_MapKey{MapKey: x.Key()}}
		} else {
			m.Select = &proto.Expression_MaskExpression_MapSelect_Expression{Expression: &proto.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: x.Key()}}
		}
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Map{Map: m}}
	}
	panic(fmt.Sprintf("a selection of %T", s))
}

func maskStructRead(s expr.MaskStructSelect) *proto.Expression_MaskExpression_StructSelect {
	out := &proto.Expression_MaskExpression_StructSelect{}
	for i := range s {
		out.StructItems = append(out.StructItems, &proto.Expression_MaskExpression_StructItem{Field: s[i].Field(), Child: maskRead(s[i].Child())})
	}
	return out
}

// masks reads decoded masks through their accessors.
func masks(t *vk.T) {
	r := t.R
	var cols []*spec.TS
	for n := 1 + r.N(4); n > 0; n-- {
		cols = append(cols, spec.GenType(r, spec.TypeOpt{Depth: 3, NoUnspec: true}))
	}
	m := spec.Mask(r, spec.Record(cols))
	t.Desc = func() string { return fmt.Sprint(m) }
	x := expr.MaskExpressionFromProto(pb.Clone(m).(*proto.Expression_MaskExpression))
	t.Must(x != nil, "decode", "a mask is not decoded")
	read := func() *proto.Expression_MaskExpression {
		return &proto.Expression_MaskExpression{Select: maskStructRead(x.Select()), MaintainSingularStruct: x.MaintainSingularStruct()}
	}
	t.NoPanic("accessors", func() {
		got := read()
		t.Check(pb.Equal(got, m), "accessors", "the accessors say %s", pdiff(m, got))
		// the lists are copies
		s := x.Select()
		for i := range s {
			if l, ok := s[i].Child().(*expr.MaskListSelect); ok {
				its := l.Selection()
				slices.Reverse(its)
				clear(its)
			}
		}
		clear(s)
		t.Check(pb.Equal(read(), m) && pb.Equal(x.ToProto(), m), "shared", "changing the lists of a mask changes it")
	})
	t.Obs(m.String())
}

// references makes references of extended expressions with the constructors.
func references(t *vk.T) {
	r := t.R
	d := genFnDecls(r)
	s := genSchema(r)
	g := newXG(r, s, d)
	reg, err := d.reg()
	t.Must(err == nil, "declarations", "%v", err)
	var names []string
	for n := r.N(4); n > 0; n-- {
		names = append(names, vk.PickOf(r, "a", "b", "", "é"))
	}
	x := g.Gen(2, g.Type(0))
	t.Desc = func() string { return fmt.Sprintf("%v %q", x.P, names) }
	e, err := expr.ExprFromProto(x.P, recordOf(s), reg)
	t.Must(err == nil, "decode:"+x.Kind, "%v", err)
	asExpr := &proto.ExpressionReference{OutputNames: names, ExprType: &proto.ExpressionReference_Expression{Expression: x.P}}
	judge := func(what string, ref *expr.ExpressionReference, want *proto.ExpressionReference) {
		t.Check(slices.Equal(ref.OutputNames, names), what+":names", "names %q", ref.OutputNames)
		got := ref.ToProto()
		t.Check(pb.Equal(got, want), what+":encode", "%s", pdiff(want, got))
		t.Check((ref.GetExpr() != nil) == (want.GetExpression() != nil) && (ref.GetMeasure() != nil) == (want.GetMeasure() != nil), what+":kind", "GetExpr %v, GetMeasure %v", ref.GetExpr(), ref.GetMeasure())
	}
	t.NoPanic("references", func() {
		ref := expr.NewExpressionReference(names, e)
		judge("expression", &ref, asExpr)
		t.Check(ref.GetExpr() == e, "expression:get", "GetExpr is %v", ref.GetExpr())
		a, _ := g.Aggregate(2, g.Type(1))
		if a == nil {
			return
		}
		f, err := expr.NewAggregateFunctionFromProto(a, recordOf(s), reg)
		t.Must(err == nil, "decode-measure", "%v", err)
		asAgg := &proto.ExpressionReference{OutputNames: names, ExprType: &proto.ExpressionReference_Measure{Measure: a}}
		m := expr.NewMeasureReference(names, f)
		judge("measure", &m, asAgg)
		ref.SetMeasure(f)
		judge("set-measure", &ref, asAgg)
		m.SetExpr(e)
		judge("set-expression", &m, asExpr)
		m.SetMeasure(f)
		judge("set-again", &m, asAgg)
	})
	t.Obs(x.Kind, len(names))
}
