package checks

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/spec"
	"verif/harness/vk"
)

// knownRel decodes extension relations whose detail is the struct of their columns.
type knownRel struct{}

type knownDef struct {
	detail *anypb.Any
	cols   []types.Type
}

func (knownRel) DecodeExtensionRel(d *anypb.Any) (any, error) {
	var s proto.Type_Struct
	if err := pb.Unmarshal(d.GetValue(), &s); err != nil {
		return nil, err
	}
	k := &knownDef{detail: d}
	for _, t := range s.Types {
		typ, err := types.DecodeType(t)
		if err != nil {
			return nil, err
		}
		k.cols = append(k.cols, typ)
	}
	return k, nil
}

func (k *knownDef) Schema([]plan.Rel) types.RecordType {
	return *types.NewRecordTypeFromTypes(append([]types.Type{}, k.cols...))
}
func (k *knownDef) Build([]plan.Rel) *anypb.Any              { return k.detail }
func (k *knownDef) Expressions([]plan.Rel) []expr.Expression { return nil }

var relDecoders = map[string]expr.ExtensionRelDecoder{spec.KnownExt: knownRel{}}

// planX is a generated plan with what the specification says about it.
type planX struct {
	P     *proto.Plan
	Rels  []*spec.RX
	Roots []bool
	D     *decls
}

// newPG is a relation generator with bounds that suit quick runs.
func newPG(r *vk.R, d *decls) *spec.PG {
	return &spec.PG{R: r, Fns: d.Fns, XDepth: 1 + r.N(2), SubDepth: r.N(2), SubRel: 1, NoLambda: r.P(1, 2)}
}

// genPlan makes a plan of a few relations.
func genPlan(r *vk.R, tune func(*spec.PG)) *planX {
	d := genFnDecls(r)
	g := newPG(r, d)
	if tune != nil {
		tune(g)
	}
	x := &planX{D: d, P: &proto.Plan{}}
	n := 1
	if r.P(1, 4) {
		n = r.N(4)
	}
	for i := 0; i < n; i++ {
		rx := g.Rel(r.N(4))
		root := r.P(2, 3)
		x.Rels = append(x.Rels, rx)
		x.Roots = append(x.Roots, root)
		if root {
			x.P.Relations = append(x.P.Relations, &proto.PlanRel{RelType: &proto.PlanRel_Root{Root: &proto.RelRoot{Input: rx.P, Names: spec.Names(r, rx.Out)}}})
		} else {
			x.P.Relations = append(x.P.Relations, &proto.PlanRel{RelType: &proto.PlanRel_Rel{Rel: rx.P}})
		}
	}
	p := x.P
	sortDecls(d.URNs, d.Exts)
	p.ExtensionUrns, p.Extensions = d.URNs, d.Exts
	if r.P(5, 6) {
		p.Version = &proto.Version{MajorNumber: uint32(r.N(3)), MinorNumber: uint32(r.N(80)), PatchNumber: uint32(r.N(3)), GitHash: vk.PickOf(r, "", "cafe"), Producer: vk.PickOf(r, "", "x")}
	}
	for i, n := 0, r.N(3); i < n; i++ {
		p.ExpectedTypeUrls = append(p.ExpectedTypeUrls, vk.PickOf(r, "a/b", "", spec.KnownExt))
	}
	p.AdvancedExtensions = spec.Adv(r)
	for i, n := 0, r.N(3); i < n; i++ {
		t := spec.GenLitType(r, 2)
		spec.ClampLit(r, t)
		p.ParameterBindings = append(p.ParameterBindings, &proto.DynamicParameterBinding{ParameterAnchor: uint32(r.N(9)), Value: spec.GenLit(r, t).Proto()})
	}
	for i, n := 0, r.N(3)*r.N(2); i < n; i++ {
		p.TypeAliases = append(p.TypeAliases, &proto.TypeAlias{TypeAliasAnchor: uint32(i * r.N(9)), Type: spec.GenLitType(r, 2).Proto()})
	}
	return x
}

func decodePlan(p *proto.Plan) (pl *plan.Plan, err error) {
	pl, err = plan.FromProtoWithDecoder(p, extensions.GetDefaultCollectionWithNoError(), relDecoders)
	return
}

// tryPlan decodes and reports panics as errors.
func tryPlan(p *proto.Plan) (pl *plan.Plan, err error) {
	if pn, st := vk.Try(func() { pl, err = decodePlan(p) }); pn != nil {
		return nil, fmt.Errorf("panic: %v\n%s", pn, st)
	}
	return
}

// relOf gives the relations of a decoded plan, roots' inputs included.
func relsOf(pl *plan.Plan) (out []plan.Rel) {
	for _, r := range pl.Relations() {
		if r.IsRoot() {
			out = append(out, r.Root().Input())
		} else {
			out = append(out, r.Rel())
		}
	}
	return
}

// diffPath names the first place where two messages differ, without indexes.
func diffPath(a, b protoreflect.Message) string {
	if pb.Equal(a.Interface(), b.Interface()) {
		return ""
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() == b.IsValid() {
			return ""
		}
		return "(present)"
	}
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if a.Has(fd) != b.Has(fd) {
			return string(a.Descriptor().Name()) + "." + string(fd.Name())
		}
		if !a.Has(fd) {
			continue
		}
		va, vb := a.Get(fd), b.Get(fd)
		switch {
		case fd.IsList():
			if va.List().Len() != vb.List().Len() {
				return string(a.Descriptor().Name()) + "." + string(fd.Name()) + "(length)"
			}
			for j := 0; j < va.List().Len(); j++ {
				x, y := va.List().Get(j), vb.List().Get(j)
				if fd.Message() != nil {
					if s := diffPath(x.Message(), y.Message()); s != "" {
						return s
					}
				} else if !x.Equal(y) {
					return string(a.Descriptor().Name()) + "." + string(fd.Name())
				}
			}
		case fd.Message() != nil && !fd.IsMap():
			if s := diffPath(va.Message(), vb.Message()); s != "" {
				return s
			}
		default:
			if !va.Equal(vb) {
				return string(a.Descriptor().Name()) + "." + string(fd.Name())
			}
		}
	}
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// lenient rewrites a canonical message into an equivalent one that uses
// absent and deprecated fields, in place.
func lenient(r *vk.R, m protoreflect.Message, did map[string]bool) {
	direct := func(c *proto.RelCommon) bool { _, ok := c.GetEmitKind().(*proto.RelCommon_Direct_); return ok }
	keys := func(keys *[]*proto.ComparisonJoinKey, l, r2 *[]*proto.Expression_FieldReference) {
		if len(*l) == 0 {
			return
		}
		switch r.N(4) {
		case 0:
			*keys = nil
			did["legacy keys"] = true
		case 1:
			*l, *r2 = nil, nil
			did["modern keys"] = true
		case 2:
			*l = (*l)[:r.N(len(*l))] // ignored when keys are there
			did["odd legacy keys"] = true
		}
	}
	switch t := m.Interface().(type) {
	case *proto.Rel:
		if c := spec.Common(t); c != nil && direct(c) {
			if c.Hint == nil && c.AdvancedExtension == nil && r.P(1, 4) {
				x := t.ProtoReflect()
				fd := x.WhichOneof(x.Descriptor().Oneofs().ByName("rel_type"))
				in := x.Get(fd).Message()
				in.Clear(in.Descriptor().Fields().ByName("common"))
				did["no common"] = true
			} else if r.P(1, 4) {
				c.EmitKind = nil
				did["no emit kind"] = true
			}
		}
	case *proto.HashJoinRel:
		keys(&t.Keys, &t.LeftKeys, &t.RightKeys)
	case *proto.MergeJoinRel:
		keys(&t.Keys, &t.LeftKeys, &t.RightKeys)
	case *proto.ReadRel_VirtualTable:
		lits := len(t.Expressions) > 0 && r.Bool()
		var rows []*proto.Expression_Literal_Struct
		for _, e := range t.Expressions {
			s := &proto.Expression_Literal_Struct{}
			for _, f := range e.Fields {
				l := f.GetLiteral()
				lits = lits && l != nil
				s.Fields = append(s.Fields, l)
			}
			rows = append(rows, s)
		}
		if lits {
			t.Values, t.Expressions = rows, nil
			did["literal rows"] = true
		}
	case *proto.AggregateRel:
		if len(t.GroupingExpressions) == 0 || r.Bool() {
			break
		}
		next := 0
		for i, e := range t.GroupingExpressions {
			if e.GetSelection().GetDirectReference() == nil || e.GetSelection().GetRootReference() == nil {
				return
			}
			for _, o := range t.GroupingExpressions[:i] {
				if pb.Equal(e, o) {
					return
				}
			}
		}
		for _, g := range t.Groupings {
			for _, i := range g.ExpressionReferences {
				if int(i) > next {
					return
				}
				if int(i) == next {
					next++
				}
			}
		}
		if next != len(t.GroupingExpressions) {
			return
		}
		for _, g := range t.Groupings {
			for _, i := range g.ExpressionReferences {
				g.GroupingExpressions = append(g.GroupingExpressions, pb.Clone(t.GroupingExpressions[i]).(*proto.Expression))
			}
			g.ExpressionReferences = nil
		}
		t.GroupingExpressions = nil
		did["grouping expressions in sets"] = true
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap() || fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				lenient(r, v.List().Get(i).Message(), did)
			}
		default:
			lenient(r, v.Message(), did)
		}
		return true
	})
}

// badRel finds the deepest relation of a tree for which bad says something.
func badRel(x *spec.RX, bad func(*spec.RX) string) (*spec.RX, string) {
	for _, i := range x.Ins {
		if o, why := badRel(i, bad); o != nil {
			return o, why
		}
	}
	if why := bad(x); why != "" {
		return x, why
	}
	return nil, ""
}

func kindKey(x *spec.RX) string { return strings.ReplaceAll(x.Kind, " ", "-") }
