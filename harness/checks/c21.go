package checks

import (
	"errors"
	"fmt"
	"slices"
	"sort"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C21"] = c21 }

func c21(c *vk.C) {
	c.Rule("copies: relations of every kind inside decoded trees are copied over other inputs, of the same and of wider columns and in wrong numbers; the encoding and columns of the copy are those of the message with the inputs replaced; non-trivial = relation kind, output mapping and columns of the new inputs")
	c.Rule("rewrites: a monitored rewrite (identity, of all, of one, failing at one) must be applied to each expression of the relation once; the copy encodes to the message rewritten in the same way; non-trivial = relation kind, number of expressions and what was rewritten")
	c.Rule("remaps: chains of valid and invalid selections; the result selects those columns and is otherwise the same; non-trivial = relation kind, mapping before and after")
	for _, s := range []struct {
		name   string
		n, big int
		f      func(*vk.T, *copyCase)
	}{
		{"copies", 25000, 400000, copies},
		{"rewrites", 40000, 500000, rewrites},
		{"remaps", 40000, 500000, remaps},
	} {
		c.ParSection(s.name, c.Scale(s.n, s.big), func(t *vk.T) {
			x := genPlan(t.R, func(g *spec.PG) { c04tune(g); g.SubDepth = 0 })
			if len(x.Rels) == 0 {
				return
			}
			t.Desc = func() string { return fmt.Sprint(x.P) }
			pl, err := tryPlan(x.P)
			t.Must(err == nil, "decode", "%v", err)
			i := t.R.N(len(x.Rels))
			rel, rx := relsOf(pl)[i], x.Rels[i]
			for len(rx.Ins) > 0 && t.R.P(1, 3) {
				k := t.R.N(len(rx.Ins))
				rel, rx = rel.GetInputs()[k], rx.Ins[k]
			}
			t.Desc = func() string { return fmt.Sprintf("%v\nin %v", rx.P, x.P) }
			cc := &copyCase{x: x, rx: rx, rel: rel, root: relsOf(pl)[i], rootP: x.Rels[i].P}
			s.f(t, cc)
		})
	}
}

// copyCase is a relation of a decoded plan with its message.
type copyCase struct {
	x     *planX
	rx    *spec.RX
	rel   plan.Rel
	root  plan.Rel
	rootP *proto.Rel
}

// unchanged checks that the original is what it was.
func (c *copyCase) unchanged(t *vk.T, what string) bool {
	k := kindKey(c.rx)
	ok := t.Check(pb.Equal(c.rel.ToProto(), c.rx.P), "original-changed:"+what+":"+k, "%s changed the original: %s", what, pdiff(c.rx.P, c.rel.ToProto()))
	ok = ok && t.Check(c.rx.Guess || sameCols(c.rel.RecordType(), c.rx.Out), "original-columns:"+what+":"+k, "%s changed the columns of the original to %v", what, c.rel.RecordType().AsStructType())
	return ok && t.Check(pb.Equal(c.root.ToProto(), c.rootP), "tree-changed:"+what+":"+k, "%s changed the tree: %s", what, pdiff(c.rootP, c.root.ToProto()))
}

// decodeRel decodes a relation with the declarations of the plan.
func (c *copyCase) decodeRel(p *proto.Rel) (plan.Rel, error) {
	pl, err := tryPlan(&proto.Plan{ExtensionUrns: c.x.D.URNs, Extensions: c.x.D.Exts, Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: p}}}})
	if err != nil {
		return nil, err
	}
	return pl.Relations()[0].Rel(), nil
}

// is checks that a relation is what the message says, with the columns a decoder finds.
func (c *copyCase) is(t *vk.T, what string, rel plan.Rel, want *proto.Rel) bool {
	k := kindKey(c.rx)
	got := rel.ToProto()
	if !t.Check(pb.Equal(got, want), what+":"+k+":"+diffPath(want.ProtoReflect(), got.ProtoReflect()), "%s", pdiff(want, got)) {
		return false
	}
	dec, err := c.decodeRel(want)
	if err != nil {
		return true // such as rows which do not fit the columns any more
	}
	a, b := rel.RecordType(), dec.RecordType()
	return t.Check(a.Equals(&b) && a.String() == b.String(), what+"-columns:"+k, "columns %v, want %v", &a, &b)
}

// newInputs makes other inputs with the columns of those of the relation, or more.
func (c *copyCase) newInputs(t *vk.T) (rels []plan.Rel, ps []*proto.Rel, desc string) {
	r := t.R
	g := &spec.PG{R: r, Fns: c.x.D.Fns, XDepth: 0, NoMask: true, NoExt: true, EmitNum: -1, NoOutput: true, NoLambda: true}
	extra := g.Cols(r.N(3))
	for i, in := range c.rx.Ins {
		if r.P(1, 4) {
			rels, ps = append(rels, c.rel.GetInputs()[i]), append(ps, in.P)
			if len(extra) > 0 && (len(c.rx.Kind) >= 3 && c.rx.Kind[:3] == "set") {
				extra = nil
				return c.newInputs(t)
			}
			continue
		}
		x := g.Table(append(append([]*spec.TS{}, in.Out...), extra...))
		rel, err := c.decodeRel(x.P)
		t.Must(err == nil, "decode-input", "%v", err)
		rels, ps = append(rels, rel), append(ps, x.P)
	}
	return rels, ps, spec.Record(extra).Full()
}

// leaf is some other relation.
func (c *copyCase) leaf(t *vk.T) plan.Rel {
	rel, err := c.decodeRel((&spec.PG{R: t.R, XDepth: 0}).Table([]*spec.TS{{K: spec.I64, N: types.NullabilityRequired}}).P)
	t.Must(err == nil, "decode-leaf", "%v", err)
	return rel
}

// inputSlots are the places of a message that hold the inputs.
func inputSlots(p *proto.Rel) []**proto.Rel {
	switch t := p.RelType.(type) {
	case *proto.Rel_Filter:
		return []**proto.Rel{&t.Filter.Input}
	case *proto.Rel_Fetch:
		return []**proto.Rel{&t.Fetch.Input}
	case *proto.Rel_Aggregate:
		return []**proto.Rel{&t.Aggregate.Input}
	case *proto.Rel_Sort:
		return []**proto.Rel{&t.Sort.Input}
	case *proto.Rel_Join:
		return []**proto.Rel{&t.Join.Left, &t.Join.Right}
	case *proto.Rel_Project:
		return []**proto.Rel{&t.Project.Input}
	case *proto.Rel_Cross:
		return []**proto.Rel{&t.Cross.Left, &t.Cross.Right}
	case *proto.Rel_HashJoin:
		return []**proto.Rel{&t.HashJoin.Left, &t.HashJoin.Right}
	case *proto.Rel_MergeJoin:
		return []**proto.Rel{&t.MergeJoin.Left, &t.MergeJoin.Right}
	case *proto.Rel_Write:
		return []**proto.Rel{&t.Write.Input}
	case *proto.Rel_ExtensionSingle:
		return []**proto.Rel{&t.ExtensionSingle.Input}
	case *proto.Rel_Set:
		return slots(t.Set.Inputs)
	case *proto.Rel_ExtensionMulti:
		return slots(t.ExtensionMulti.Inputs)
	}
	return nil
}

func slots[T any](s []T) (out []*T) {
	for i := range s {
		out = append(out, &s[i])
	}
	return
}

// exprSlots are the places of a message that hold expressions of the relation itself.
func exprSlots(p *proto.Rel) (out []**proto.Expression) {
	add := func(s **proto.Expression) {
		if *s != nil {
			out = append(out, s)
		}
	}
	switch t := p.RelType.(type) {
	case *proto.Rel_Read:
		add(&t.Read.Filter)
		add(&t.Read.BestEffortFilter)
		for _, row := range t.Read.GetVirtualTable().GetExpressions() {
			out = append(out, slots(row.Fields)...)
		}
	case *proto.Rel_Filter:
		add(&t.Filter.Condition)
	case *proto.Rel_Project:
		out = slots(t.Project.Expressions)
	case *proto.Rel_Sort:
		for _, s := range t.Sort.Sorts {
			add(&s.Expr)
		}
	case *proto.Rel_Join:
		add(&t.Join.Expression)
		add(&t.Join.PostJoinFilter)
	case *proto.Rel_HashJoin:
		add(&t.HashJoin.PostJoinFilter)
	case *proto.Rel_MergeJoin:
		add(&t.MergeJoin.PostJoinFilter)
	case *proto.Rel_Aggregate:
		out = slots(t.Aggregate.GroupingExpressions)
		for _, m := range t.Aggregate.Measures {
			add(&m.Filter)
			for _, a := range m.Measure.Arguments {
				if v, ok := a.ArgType.(*proto.FunctionArgument_Value); ok {
					add(&v.Value)
				}
			}
			for _, s := range m.Measure.Sorts {
				add(&s.Expr)
			}
		}
	}
	return
}

func withInputs(p *proto.Rel, ins []*proto.Rel) *proto.Rel {
	q := pb.Clone(p).(*proto.Rel)
	for i, s := range inputSlots(q) {
		*s = ins[i]
	}
	return q
}

func copies(t *vk.T, c *copyCase) {
	k := kindKey(c.rx)
	ins, ps, desc := c.newInputs(t)
	want := withInputs(c.rx.P, ps)
	t.Phase = "copy"
	arg := append([]plan.Rel{}, ins...)
	got, err := c.rel.Copy(arg...)
	t.Must(err == nil, "copy-fails:"+k, "%v", err)
	if !c.unchanged(t, "copy") || !c.is(t, "copy", got, want) {
		return
	}
	// what the caller does to its slices is its own affair
	t.Phase = "aliasing"
	mine := c.rel.GetInputs()
	for i := range arg {
		arg[i], mine[i] = c.leaf(t), c.leaf(t)
	}
	if !t.Check(pb.Equal(got.ToProto(), want), "copy-aliases-argument:"+k, "changing the slice of inputs changes the copy") {
		return
	}
	if !c.unchanged(t, "changing-GetInputs") {
		return
	}
	t.Phase = "setters"
	if got != c.rel && !c.rx.Guess {
		adv := &extpb.AdvancedExtension{Enhancement: spec.Any(t.R)}
		old := got.SetAdvancedExtension(adv)
		t.Check(pb.Equal(got.GetAdvancedExtension(), adv), "set-extension:"+k, "GetAdvancedExtension")
		if !c.unchanged(t, "SetAdvancedExtension-of-a-copy") {
			return
		}
		got.SetAdvancedExtension(old)
		if !c.is(t, "restored", got, want) {
			return
		}
	}
	if !c.setters(t, got, want) {
		return
	}
	if agg, ok := c.rel.(*plan.AggregateRel); ok {
		t.Phase = "builder"
		b := agg.ToBuilder()
		e := b.AddExpression(expr.NewPrimitiveLiteral(int32(7), false))
		b.AddGroupingSet([]uint32{e})
		if !c.unchanged(t, "ToBuilder") {
			return
		}
	}
	// the identity rewrite over new inputs is a copy
	t.Phase = "identity"
	id := func(e expr.Expression) (expr.Expression, error) { return e, nil }
	got, err = c.rel.CopyWithExpressionRewrite(id, ins...)
	t.Must(err == nil, "identity-fails:"+k, "%v", err)
	if !c.unchanged(t, "identity") || !c.is(t, "identity", got, want) {
		return
	}
	t.Obs(k, c.rx.Emit != nil, len(ins), desc)
	// wrong numbers of inputs
	if len(c.rx.Ins) == 0 {
		return
	}
	t.Phase = "wrong number"
	for n := 0; n < len(ins)+2; n++ {
		if n == len(ins) {
			continue
		}
		if _, multi := c.rx.P.RelType.(*proto.Rel_ExtensionMulti); multi {
			continue
		}
		if _, set := c.rx.P.RelType.(*proto.Rel_Set); set && n >= 2 {
			continue
		}
		var wrong []plan.Rel
		for j := 0; j < n; j++ {
			wrong = append(wrong, ins[j%len(ins)])
		}
		_, err = c.rel.Copy(wrong...)
		t.Check(err != nil, "copy-count:"+k, "%d inputs are accepted", n)
		_, err = c.rel.CopyWithExpressionRewrite(id, wrong...)
		t.Check(err != nil, "rewrite-count:"+k, "%d inputs are accepted", n)
	}
	c.unchanged(t, "wrong-number")
}

// setters changes the copy with the setters of its kind: it becomes what was
// set, and nothing else changes.
func (c *copyCase) setters(t *vk.T, got plan.Rel, want *proto.Rel) bool {
	r := t.R
	w := pb.Clone(want).(*proto.Rel)
	what := ""
	if agg, ok := got.(*plan.AggregateRel); ok && got != c.rel {
		a := w.GetAggregate()
		switch r.N(4) {
		case 0:
			what = "SetMeasures"
			ms := slices.Clone(agg.Measures())
			slices.Reverse(ms)
			slices.Reverse(a.Measures)
			agg.SetMeasures(ms)
		case 1:
			what = "SetGroupingExpressions"
			gs := slices.Clone(agg.GroupingExpressions())
			slices.Reverse(gs)
			slices.Reverse(a.GroupingExpressions)
			agg.SetGroupingExpressions(gs)
		case 2:
			what = "SetGroupingReferences"
			gs := slices.Clone(agg.GroupingReferences())
			slices.Reverse(gs)
			slices.Reverse(a.Groupings)
			agg.SetGroupingReferences(gs)
		case 3:
			what = "SetInput"
			agg.SetInput(c.rel.GetInputs()[0])
			a.Input = c.rx.Ins[0].P
		}
	} else if read := w.GetRead(); read != nil {
		// a read is its own copy: change one which is not in the tree
		fresh, err := c.decodeRel(want)
		t.Must(err == nil, "decode", "%v", err)
		set, ok := fresh.(interface {
			SetProjection(*expr.MaskExpression)
			Projection() *expr.MaskExpression
		})
		t.Must(ok, "SetProjection", "%T", fresh)
		what, got, read.Projection = "SetProjection", fresh, nil
		if r.P(3, 4) {
			read.Projection = spec.Mask(r, spec.Record(c.rx.Direct))
			read.Projection.MaintainSingularStruct = r.Bool()
			m := expr.MaskExpressionFromProto(read.Projection)
			set.SetProjection(m)
			t.Check(set.Projection() == m, "SetProjection", "Projection() is %v", set.Projection())
		} else {
			set.SetProjection(nil)
		}
	}
	return what == "" || c.is(t, what, got, w) && c.unchanged(t, what+"-of-a-copy")
}

var errRewrite = errors.New("rewrite refused")

func castBool(p *proto.Expression) *proto.Expression {
	return &proto.Expression{RexType: &proto.Expression_Cast_{Cast: &proto.Expression_Cast{
		Type:  &proto.Type{Kind: &proto.Type_Bool{Bool: &proto.Type_Boolean{Nullability: proto.Type_NULLABILITY_REQUIRED}}},
		Input: p, FailureBehavior: proto.Expression_Cast_FAILURE_BEHAVIOR_THROW_EXCEPTION}}}
}

func rewrites(t *vk.T, c *copyCase) {
	r := t.R
	k := kindKey(c.rx)
	ins, ps, desc := c.rel.GetInputs(), []*proto.Rel(nil), "same"
	for _, in := range c.rx.Ins {
		ps = append(ps, in.P)
	}
	if r.Bool() && len(c.rx.Ins) > 0 {
		ins, ps, desc = c.newInputs(t)
	}
	want := withInputs(c.rx.P, ps)
	places := exprSlots(want)
	var held []string
	for _, s := range places {
		held = append(held, det(*s))
	}
	mode := vk.PickOf(r, "identity", "all", "all", "one", "fail")
	pick := 0
	if len(places) > 0 {
		pick = r.N(len(places))
	} else if mode == "one" || mode == "fail" {
		mode = "identity"
	}
	var seen []string
	var chosen expr.Expression
	rewrite := func(e expr.Expression) (expr.Expression, error) {
		if e == nil {
			return nil, nil // an absent optional expression
		}
		seen = append(seen, det(e.ToProto()))
		switch {
		case mode == "fail" && len(seen) == pick+1:
			return nil, errRewrite
		case mode == "all", mode == "one" && len(seen) == pick+1:
			chosen = e
			return &expr.Cast{Type: &types.BooleanType{Nullability: types.NullabilityRequired}, Input: e, FailureBehavior: types.BehaviorThrowException}, nil
		}
		return e, nil
	}
	t.Phase = mode
	arg := append([]plan.Rel{}, ins...)
	got, err := c.rel.CopyWithExpressionRewrite(rewrite, arg...)
	if !c.unchanged(t, mode) {
		return
	}
	if mode == "fail" {
		t.Check(errors.Is(err, errRewrite), "error-lost:"+k, "the rewrite fails at expression %d of %d, the result is %v, %v", pick+1, len(places), got, err)
		t.Obs(k, mode, len(places), pick)
		return
	}
	t.Must(err == nil, "rewrite-fails:"+k, "%v", err)
	if mode == "identity" && desc == "same" {
		t.Check(got == c.rel, "identity-copies:"+k, "nothing is changed, and the result is not the relation itself")
	}
	// each expression once, in any order
	sort.Strings(held)
	sort.Strings(seen)
	if !t.Check(fmt.Sprint(held) == fmt.Sprint(seen), fmt.Sprintf("applied:%s:%s", k, moreLess(len(held), len(seen))), "%d expressions, %d rewritten", len(held), len(seen)) {
		return
	}
	switch mode {
	case "all":
		for _, s := range places {
			*s = castBool(*s)
		}
	case "one":
		// the order is up to the library: the one it asked for at that point
		key, n := det(chosen.ToProto()), 0
		var at **proto.Expression
		for _, s := range places {
			if det(*s) == key {
				at = s
				n++
			}
		}
		if n != 1 {
			return
		}
		*at = castBool(*at)
	}
	for i := range arg {
		arg[i] = c.leaf(t)
	}
	if !c.is(t, mode, got, want) {
		return
	}
	c.unchanged(t, mode)
	t.Obs(k, mode, len(places), pick, desc)
}

func moreLess(want, got int) string {
	switch {
	case got < want:
		return "missed"
	case got > want:
		return "repeated"
	}
	return "others"
}

func det(p pb.Message) string {
	b, _ := pb.MarshalOptions{Deterministic: true}.Marshal(p)
	return string(b)
}

func remaps(t *vk.T, c *copyCase) {
	r := t.R
	k := kindKey(c.rx)
	if c.rx.Guess {
		return
	}
	direct := len(c.rx.Direct)
	cur := make([]int32, direct)
	for i := range cur {
		cur[i] = int32(i)
	}
	if c.rx.Emit != nil {
		cur = c.rx.Emit
	}
	rel := c.rel
	plain := pb.Clone(c.rx.P).(*proto.Rel)
	spec.Common(plain).EmitKind = nil
	for step := 0; step < 1+r.N(3); step++ {
		before := rel.ToProto()
		cols := rel.RecordType()
		t.Phase = "bad mapping"
		if r.P(1, 2) {
			bad := append(spec.Mapping(r, len(cur)), vk.PickOf(r, int32(-1), int32(len(cur)), int32(len(cur)+1), 1<<30, -1<<31))
			vk.Shuffle(r, bad)
			_, err := rel.Remap(bad...)
			t.Check(err != nil, "invalid-mapping:"+k, "mapping %v of %d columns is accepted", bad, len(cur))
			if !t.Check(pb.Equal(rel.ToProto(), before), "bad-mapping-changes:"+k, "%s", pdiff(before, rel.ToProto())) {
				return
			}
		}
		t.Phase = "remap"
		m := spec.Mapping(r, len(cur))
		arg := append([]int32{}, m...)
		got, err := rel.Remap(arg...)
		t.Must(err == nil, "remap-fails:"+k, "mapping %v of %d columns: %v", m, len(cur), err)
		t.Check(fmt.Sprint(arg) == fmt.Sprint(m), "argument-changed:"+k, "mapping %v became %v", m, arg)
		for i := range arg {
			arg[i] = -7
		}
		after := rel.RecordType()
		if !t.Check(pb.Equal(rel.ToProto(), before) && after.Equals(&cols), "original-remapped:"+k, "remapping with %v changed the original: %s", m, pdiff(before, rel.ToProto())) {
			return
		}
		if !c.unchanged(t, "remap") {
			return
		}
		next := []int32{}
		var want []*spec.TS
		for _, i := range m {
			next = append(next, cur[i])
			want = append(want, c.rx.Direct[cur[i]])
		}
		if !t.Check(sameCols(got.RecordType(), want), "remap-columns:"+k, "remapping %v with %v gives %v, want %v", cur, m, got.RecordType().AsStructType(), spec.Record(want)) {
			return
		}
		p := got.ToProto()
		var out []int32
		switch e := spec.Common(p).EmitKind.(type) {
		case *proto.RelCommon_Emit_:
			out = e.Emit.OutputMapping
		default:
			for i := 0; i < direct; i++ {
				out = append(out, int32(i))
			}
		}
		t.Check(fmt.Sprint(out) == fmt.Sprint(next), "remap-mapping:"+k, "remapping %v with %v encodes %v", cur, m, out)
		om := got.OutputMapping()
		for i := range om {
			om[i] = -9
		}
		t.Check(pb.Equal(got.ToProto(), p), "mapping-aliased:"+k, "changing the result of OutputMapping changes the relation")
		spec.Common(p).EmitKind = nil
		if !t.Check(pb.Equal(p, plain), "remap-rest:"+k+":"+diffPath(plain.ProtoReflect(), p.ProtoReflect()), "%s", pdiff(plain, p)) {
			return
		}
		t.Obs(k, fmt.Sprint(cur), fmt.Sprint(m))
		rel, cur = got, next
	}
}
