package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C22"] = c22 }

func c22(c *vk.C) {
	c.Rule("bindings: plans with parameters in any place, and lists of bindings (none, some, all, of one anchor too many, repeated, of another type, without value); the verdict of the validation and of the builder is that of a walk over the messages; non-trivial = places of the parameters with the kind of list")
	c.Rule("subqueries: the builder's subqueries of each kind over generated relations, with wrong numbers of columns, missing parts and unspecified operations; type, encoding and decoding of those accepted; non-trivial = kind, case and columns")
	c.ParSection("bindings", c.Scale(60000, 1500000), func(t *vk.T) { bindings(t, c) })
	c.ParSection("subqueries", c.Scale(40000, 800000), subqueries)
}

// paramUse is a parameter with the places it is used in.
type paramUse struct {
	types  map[string]*proto.Type // by encoding
	places map[string]bool
}

// params collects the parameters of a message, wherever they are.
func params(m protoreflect.Message, place string, out map[uint32]*paramUse) {
	switch x := m.Interface().(type) {
	case *anypb.Any:
		return
	case *proto.DynamicParameter:
		u := out[x.ParameterReference]
		if u == nil {
			u = &paramUse{types: map[string]*proto.Type{}, places: map[string]bool{}}
			out[x.ParameterReference] = u
		}
		u.types[det(x.Type)] = x.Type
		u.places[place] = true
		return
	case *proto.Rel:
		fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("rel_type"))
		if strings.Count(place, "/") < 3 {
			place += "/" + string(fd.Name())
		}
	case *proto.Expression:
		if fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("rex_type")); fd != nil {
			switch fd.Name() {
			case "subquery", "lambda", "selection":
				if i := strings.LastIndex(place, "+"); i < 0 || place[i+1:] != string(fd.Name()) {
					place += "+" + string(fd.Name())
				}
			}
		}
	}
	isRel := strings.HasSuffix(string(m.Descriptor().Name()), "Rel") && m.Descriptor().Name() != "Rel"
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		p := place
		if isRel && fd.Message() != nil && fd.Message().Name() != "Rel" {
			p += "." + string(fd.Name())
		}
		switch {
		case fd.IsMap() || fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				params(v.List().Get(i).Message(), p, out)
			}
		default:
			params(v.Message(), p, out)
		}
		return true
	})
}

// sansNull is the type without its own nullability.
func sansNull(p *proto.Type) *proto.Type {
	q := pb.Clone(p).(*proto.Type)
	m := q.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	if fd == nil || fd.Message() == nil {
		return q
	}
	k := m.Get(fd).Message()
	if n := k.Descriptor().Fields().ByName("nullability"); n != nil {
		k.Clear(n)
	}
	return q
}

// exprDef is the definition of an extension relation that holds expressions.
type exprDef struct {
	cols  []types.Type
	exprs []expr.Expression
}

func (k *exprDef) Schema([]plan.Rel) types.RecordType {
	return *types.NewRecordTypeFromTypes(append([]types.Type{}, k.cols...))
}
func (k *exprDef) Build([]plan.Rel) *anypb.Any              { return &anypb.Any{TypeUrl: "verif/exprs"} }
func (k *exprDef) Expressions([]plan.Rel) []expr.Expression { return k.exprs }

// paramPlan is a plan with parameters.
type paramPlan struct {
	rels  []plan.Rel
	names []string
	used  map[uint32]*paramUse
	ts    map[string]*spec.TS // the models of their types
	b     plan.Builder
}

func genParamPlan(t *vk.T) *paramPlan {
	r := t.R
	p := &paramPlan{used: map[uint32]*paramUse{}, ts: map[string]*spec.TS{}, b: plan.NewBuilderDefault()}
	anchors := map[string]uint32{}
	hook := func(want *spec.TS) uint32 {
		pt := want.Proto()
		p.ts[det(sansNull(pt))] = want
		k := det(sansNull(pt))
		if r.P(1, 12) {
			k = "any"
		}
		a, ok := anchors[k]
		if !ok {
			a = vk.PickOf(r, uint32(len(anchors)), uint32(len(anchors)), 1<<31+uint32(len(anchors)), uint32(r.N(1<<16)))
			anchors[k] = a
		}
		return a
	}
	x := genPlan(r, func(g *spec.PG) {
		g.Param = hook
		g.NoGuess = true
		c04tune(g)
	})
	if len(x.Rels) == 0 {
		return nil
	}
	x.P.ParameterBindings = nil
	t.Desc = func() string { return fmt.Sprint(x.P) }
	pl, err := tryPlan(x.P)
	t.Must(err == nil, "decode", "%v", err)
	p.rels = relsOf(pl)
	cols := x.Rels[0].Out
	for _, rx := range x.Rels {
		params(rx.P.ProtoReflect(), "", p.used)
	}
	if r.P(1, 4) {
		// expressions inside the definition of an extension
		d := genFnDecls(r)
		g := newPG(r, d)
		c04tune(g)
		g.Param, g.NoGuess = hook, true
		y := g.Rel(1)
		pl2, err := tryPlan(&proto.Plan{ExtensionUrns: d.URNs, Extensions: d.Exts, Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: y.P}}}})
		t.Must(err == nil, "decode", "%v", err)
		def := &exprDef{cols: []types.Type{&types.Int64Type{Nullability: types.NullabilityRequired}}}
		if _, err := relsOf(pl2)[0].CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
			if e != nil {
				def.exprs = append(def.exprs, e)
			}
			return e, nil
		}, relsOf(pl2)[0].GetInputs()...); err != nil {
			t.Must(false, "identity", "%v", err)
		}
		for _, e := range def.exprs {
			params(e.ToProto().ProtoReflect(), "/definition", p.used)
		}
		var ext plan.Rel
		leaf := false
		switch r.N(3) {
		case 0:
			ext, err = p.b.ExtensionSingle(p.rels[0], def)
		case 1:
			if r.Bool() {
				ext, err = p.b.ExtensionMulti([]plan.Rel{p.rels[0], p.rels[0]}, def)
				break
			}
			ext, err = p.b.ExtensionMulti([]plan.Rel{p.rels[0], relsOf(pl2)[0]}, def)
			params(y.P.ProtoReflect(), "/multi", p.used)
		default:
			leaf = true
			ext, err = p.b.ExtensionLeaf(def)
		}
		t.Must(err == nil, "extension", "%v", err)
		if leaf {
			p.rels = append(p.rels, ext)
		} else {
			p.rels[0] = ext
			cols = []*spec.TS{{K: spec.I64, N: types.NullabilityRequired}}
		}
	}
	p.names = spec.Names(r, cols)
	return p
}

func (p *paramPlan) anchors() (out []uint32) {
	for a := range p.used {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// near is a type that differs in a detail, or in everything.
func near(r *vk.R, ts *spec.TS) *spec.TS {
	if r.P(2, 3) {
		o := ts.Clone()
		q := o
		for len(q.Kids) > 0 && r.P(2, 3) {
			q = vk.Pick(r, q.Kids)
		}
		switch q.K {
		case spec.Decimal, spec.VarChar, spec.FixedChar, spec.FixedBinary, spec.PTimestamp, spec.PTimestampTz, spec.PTime, spec.IntervalDay, spec.IntervalCompound:
			if q.K == spec.Decimal {
				q.Prec = q.Prec%38 + 1
				q.Scal = min(q.Scal, q.Prec)
			} else {
				q.Len = q.Len%3 + 1
			}
		case spec.I8, spec.I16, spec.I32, spec.I64:
			q.K = vk.PickOf(r, spec.I8, spec.I16, spec.I32, spec.I64)
		case spec.String:
			q.K, q.Len = spec.VarChar, 30
		case spec.Fp32:
			q.K = spec.Fp64
		default:
			q.Var++
		}
		spec.ClampLit(r, o)
		return o
	}
	return spec.GenLitType(r, 2)
}

func (p *paramPlan) value(t *vk.T, ts *spec.TS) expr.Literal {
	r := t.R
	ts = ts.Clone()
	ts.N = types.Nullability(1 + r.N(2))
	if r.P(1, 6) {
		ts.N = types.NullabilityNullable
		return expr.NewNullLiteral(ts.Go())
	}
	l := expr.LiteralFromProto(spec.GenLit(r, ts).Proto())
	t.Must(l != nil, "literal", "%v", ts)
	return l
}

// ok says whether the binding list fits the parameters, and if not why.
func (p *paramPlan) verdict(bs []plan.DynamicParameterBinding) string {
	seen := map[uint32]bool{}
	why := ""
	for _, b := range bs {
		u := p.used[b.ParameterAnchor]
		switch {
		case b.Value == nil:
			why = "no value"
		case u == nil:
			why = "unknown"
		case seen[b.ParameterAnchor]:
			why = "repeated"
		default:
			got := sansNull(types.TypeToProto(b.Value.GetType()))
			for _, w := range u.types {
				if !pb.Equal(sansNull(w), got) {
					why = "type"
				}
			}
		}
		seen[b.ParameterAnchor] = true
	}
	return why
}

func bindings(t *vk.T, c *vk.C) {
	r := t.R
	p := genParamPlan(t)
	if p == nil {
		return
	}
	anchors := p.anchors()
	var places []string
	for _, u := range p.used {
		for s := range u.places {
			places = append(places, s)
		}
	}
	sort.Strings(places)
	desc := t.Desc
	for _, mode := range []string{"none", "all", "some", "one", "unknown", "repeated", "type", "no value", "any"} {
		var bs []plan.DynamicParameterBinding
		add := func(a uint32, l expr.Literal) {
			bs = append(bs, plan.DynamicParameterBinding{ParameterAnchor: a, Value: l})
		}
		for _, a := range anchors {
			if mode == "none" || mode == "some" && r.Bool() {
				continue
			}
			var keys []string
			for k := range p.used[a].types {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			if len(keys) > 1 && mode != "any" && r.P(2, 3) {
				continue // of several types: nothing can be bound to it, unless they differ in nullability alone
			}
			add(a, p.value(t, p.ts[det(sansNull(p.used[a].types[vk.Pick(r, keys)]))]))
		}
		vk.Shuffle(r, bs)
		if mode == "one" && len(bs) > 1 {
			bs = bs[:1]
		}
		pos := 0
		if len(bs) > 0 {
			pos = r.N(len(bs))
		} else if mode != "unknown" && mode != "none" && mode != "no value" {
			continue
		}
		switch mode {
		case "unknown":
			a := uint32(r.N(6))
			if r.Bool() {
				a = r.Uint32()
			}
			if p.used[a] != nil {
				continue
			}
			var v expr.Literal = expr.NewPrimitiveLiteral(int32(1), false)
			if len(bs) > 0 && r.Bool() {
				v = bs[pos].Value
			}
			add(a, v)
		case "repeated":
			add(bs[pos].ParameterAnchor, bs[pos].Value)
		case "type":
			var k string
			for _, w := range p.used[bs[pos].ParameterAnchor].types {
				k = det(sansNull(w))
			}
			bs[pos].Value = p.value(t, near(r, p.ts[k]))
		case "no value":
			a := uint32(0)
			if len(anchors) > 0 {
				a = vk.Pick(r, anchors)
			}
			add(a, nil)
		}
		vk.Shuffle(r, bs)
		want := p.verdict(bs)
		t.Desc = func() string {
			var s []string
			for _, b := range bs {
				s = append(s, fmt.Sprintf("%d: %v", b.ParameterAnchor, b.Value))
			}
			return fmt.Sprintf("bindings %v\nverdict %q, parameters in %v\n%s", s, want, places, desc())
		}
		t.Phase = mode
		key := want
		if want == "" {
			key = "valid"
			if mode != "none" && len(bs) > 0 {
				// the place of the one that is not found, as far as can be told
				var s []string
				for _, b := range bs {
					for q := range p.used[b.ParameterAnchor].places {
						s = append(s, q)
					}
				}
				sort.Strings(s)
				if len(s) == 1 {
					key = "valid:" + s[0][strings.LastIndex(s[0], "/")+1:]
				}
			}
		}
		var err error
		arg := append([]plan.DynamicParameterBinding{}, bs...)
		if t.NoPanic("validate:"+key, func() { err = plan.ValidateParameterBindings(p.rels[0], arg, p.rels[1:]...) }) {
			t.Check((err == nil) == (want == ""), "validate:"+key, "validation says %v", err)
		}
		var pl *plan.Plan
		if !t.NoPanic("build:"+key, func() { pl, err = p.b.PlanWithBindings(p.rels[0], p.names, nil, arg, p.rels[1:]...) }) {
			continue
		}
		if !t.Check((err == nil) == (want == ""), "build:"+key, "the builder says %v", err) {
			continue
		}
		if err == nil {
			var wantB []*proto.DynamicParameterBinding
			for _, b := range bs {
				wantB = append(wantB, &proto.DynamicParameterBinding{ParameterAnchor: b.ParameterAnchor, Value: b.Value.ToProtoLiteral()})
			}
			q, err := pl.ToProto()
			t.Must(err == nil, "encode", "%v", err)
			t.Check(pb.Equal(&proto.Plan{ParameterBindings: wantB}, &proto.Plan{ParameterBindings: q.ParameterBindings}), "plan-bindings", "the plan has the bindings %v", q.ParameterBindings)
			got := pl.ParameterBindings()
			ok := len(got) == len(bs)
			for i := range got {
				ok = ok && got[i].ParameterAnchor == bs[i].ParameterAnchor && got[i].Value.Equals(bs[i].Value)
			}
			t.Check(ok, "accessor", "ParameterBindings() is %v", got)
		}
		if len(places) > 0 {
			t.Obs(mode, want, len(bs), strings.Join(places, " "))
		}
	}
	t.Count(1)
	for _, s := range places {
		c.AddExtra("place:"+s, 1)
	}
}

func subqueries(t *vk.T) {
	r := t.R
	x := genPlan(r, func(g *spec.PG) { c04tune(g); g.NoGuess = true })
	if len(x.Rels) == 0 {
		return
	}
	t.Desc = func() string { return fmt.Sprint(x.P) }
	pl, err := tryPlan(x.P)
	t.Must(err == nil, "decode", "%v", err)
	rx, rel := x.Rels[0], relsOf(pl)[0]
	for len(rx.Ins) > 0 && r.P(1, 3) {
		k := r.N(len(rx.Ins))
		rel, rx = rel.GetInputs()[k], rx.Ins[k]
	}
	n := len(rx.Direct)
	want := rx.Out
	p := rx.P
	if n > 0 && r.P(2, 3) {
		// select columns
		var m []int32
		for i, k := 0, vk.PickOf(r, 1, 1, 1, 2, 3); i < k; i++ {
			m = append(m, int32(r.N(len(rx.Out)+1)-1))
		}
		ok := true
		want = nil
		for _, i := range m {
			if i < 0 {
				ok = false
			} else {
				want = append(want, rx.Out[i])
			}
		}
		if !ok || len(rx.Out) == 0 {
			want = rx.Out
		} else {
			rel, err = rel.Remap(m...)
			t.Must(err == nil, "remap", "%v", err)
			p = rel.ToProto()
		}
	}
	b := plan.NewBuilderDefault()
	lit := func() expr.Expression {
		ts := spec.GenLitType(r, 1)
		return expr.LiteralFromProto(spec.GenLit(r, ts).Proto())
	}
	var needles []expr.Expression
	var needlesP []*proto.Expression
	k := len(want)
	if r.P(1, 4) {
		k = r.N(4)
	}
	holes := false
	for i := 0; i < k; i++ {
		if r.P(1, 12) {
			needles, holes = append(needles, nil), true
			continue
		}
		needles = append(needles, lit())
		needlesP = append(needlesP, needles[i].ToProto())
	}
	left := lit()
	var noLeft, noRel bool
	if r.P(1, 10) {
		left, noLeft = nil, true
	}
	in := rel
	if r.P(1, 10) {
		in, noRel = nil, true
	}
	pop := plan.SetPredicateOp(r.N(3))
	rop := plan.SetComparisonReductionOp(r.N(3))
	cop := plan.SetComparisonComparisonOp(r.N(7))
	boolean := &spec.TS{K: spec.Bool, N: types.NullabilityRequired}
	for _, kind := range []string{"scalar", "in", "set-predicate", "set-comparison"} {
		var got expr.Expression
		var err error
		var valid bool
		wantT := boolean
		sub := &proto.Expression_Subquery{}
		run := func(f func() (expr.Expression, error)) bool {
			return t.NoPanic("builder:"+kind, func() {
				got, err = f()
			})
		}
		var ran bool
		switch kind {
		case "scalar":
			valid = !noRel && len(want) == 1
			if len(want) == 1 {
				wantT = want[0]
			}
			sub.SubqueryType = &proto.Expression_Subquery_Scalar_{Scalar: &proto.Expression_Subquery_Scalar{Input: p}}
			ran = run(func() (expr.Expression, error) { e, err := b.ScalarSubquery(in); return e, err })
		case "in":
			valid = !noRel && !holes && len(needles) == len(want) && len(needles) > 0
			sub.SubqueryType = &proto.Expression_Subquery_InPredicate_{InPredicate: &proto.Expression_Subquery_InPredicate{Needles: needlesP, Haystack: p}}
			ran = run(func() (expr.Expression, error) { e, err := b.InPredicateSubquery(needles, in); return e, err })
		case "set-predicate":
			valid = !noRel && pop != plan.SetPredicateOpUnspecified
			sub.SubqueryType = &proto.Expression_Subquery_SetPredicate_{SetPredicate: &proto.Expression_Subquery_SetPredicate{PredicateOp: pop, Tuples: p}}
			ran = run(func() (expr.Expression, error) { e, err := b.SetPredicateSubquery(in, pop); return e, err })
		case "set-comparison":
			valid = !noRel && !noLeft && rop != plan.SetComparisonReductionOpUnspecified && cop != plan.SetComparisonComparisonOpUnspecified && len(want) == 1
			var lp *proto.Expression
			if left != nil {
				lp = left.ToProto()
			}
			sub.SubqueryType = &proto.Expression_Subquery_SetComparison_{SetComparison: &proto.Expression_Subquery_SetComparison{ReductionOp: rop, ComparisonOp: cop, Left: lp, Right: p}}
			ran = run(func() (expr.Expression, error) { e, err := b.SetComparisonSubquery(left, in, rop, cop); return e, err })
		}
		if !ran {
			continue
		}
		t.Phase = kind
		desc := fmt.Sprintf("%s over %d columns, %d needles, no relation %v, no left %v, holes %v, ops %v %v %v", kind, len(want), len(needles), noRel, noLeft, holes, pop, rop, cop)
		if !t.Check((err == nil) == valid, fmt.Sprintf("builder:%s:%v", kind, valid), "%s: the builder says %v", desc, err) {
			continue
		}
		t.Obs(kind, valid, len(want), len(needles), int(pop), int(rop), int(cop), kindKey(rx), noRel, noLeft, holes)
		msg := &proto.Expression{RexType: &proto.Expression_Subquery_{Subquery: sub}}
		check := func(e expr.Expression, how string) {
			ok := t.NoPanic(how+"-type:"+kind, func() {
				g := e.GetType()
				t.Check(g != nil && pb.Equal(types.TypeToProto(g), wantT.Proto()), how+"-type:"+kind, "%s: type %v, want %v", desc, g, wantT.Full())
			})
			if !ok {
				return
			}
			t.Check(pb.Equal(e.ToProto(), msg), how+"-encoding:"+kind, "%s", pdiff(msg, e.ToProto()))
			t.NoPanic(how+"-string:"+kind, func() { _ = e.String(); e.IsScalar() })
		}
		if valid {
			check(got, "built")
		}
		if noRel || noLeft || holes {
			continue
		}
		// the same as part of a plan
		leaf := (&spec.PG{R: r, XDepth: 0}).Table([]*spec.TS{{K: spec.I64, N: types.NullabilityRequired}}).P
		proj := &proto.Rel{RelType: &proto.Rel_Project{Project: &proto.ProjectRel{Common: &proto.RelCommon{EmitKind: &proto.RelCommon_Direct_{Direct: &proto.RelCommon_Direct{}}}, Input: leaf, Expressions: []*proto.Expression{msg}}}}
		dec, err := tryPlan(&proto.Plan{ExtensionUrns: x.D.URNs, Extensions: x.D.Exts, Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: proj}}}})
		if err != nil {
			t.Check(!valid && !strings.HasPrefix(err.Error(), "panic"), "decoder:"+kind, "%s: the decoder says %v", desc, err)
			continue
		}
		if !t.Check(valid || kind != "scalar", "decoder-accepts:"+kind, "%s: the decoder accepts it", desc) {
			continue
		}
		check(relsOf(dec)[0].(*plan.ProjectRel).Expressions()[0], "decoded")
	}
}
