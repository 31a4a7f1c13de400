package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C04"] = c04 }

func c04(c *vk.C) {
	c.Rule("decoded: generated plans of relations of every supported kind, with roots, names, hints, advanced extensions, declarations and bindings, decoded from the message or its wire bytes, encoded, decoded and encoded again; non-trivial = distinct set of relation kinds and output mappings")
	c.Rule("lenient: the same plans written with absent common parts, legacy join keys, literal rows and per-set grouping expressions must encode to the canonical form")
	c.ParSection("decoded", c.Scale(60000, 1500000), func(t *vk.T) {
		r := t.R
		x := genPlan(r, c04tune)
		t.Desc = func() string { return fmt.Sprintf("%v", x.P) }
		in := x.P
		if r.Bool() {
			in = &proto.Plan{}
			t.Must(wire(x.P, in) == nil, "wire", "the plan has no wire form")
		}
		before := pb.Clone(in).(*proto.Plan)
		t.Phase = "plan"
		why, q := planTrip(in)
		if why == "" && !pb.Equal(q, x.P) {
			why = "differs: " + diffPath(x.P.ProtoReflect(), q.ProtoReflect())
		}
		if why != "" {
			// find the relation that is to blame
			for _, rel := range x.Rels {
				if o, w := badRel(rel, func(o *spec.RX) string { return relTrip(x, o.P, o.P) }); o != nil {
					t.Failf("rel:"+kindKey(o)+":"+keyLine(w), "%s\nfor %v", w, o.P)
					return
				}
			}
			t.Failf("plan:"+keyLine(why), "%s", why)
			return
		}
		t.Check(pb.Equal(in, before), "input-modified", "decoding or encoding modified the message: %s", pdiff(before, in))
		why, q = planTrip(q)
		if why == "" && !pb.Equal(q, x.P) {
			why = "differs: " + diffPath(x.P.ProtoReflect(), q.ProtoReflect())
		}
		t.Check(why == "", "again:"+keyLine(why), "decoding the encoded plan: %s", why)
		pl, err := tryPlan(in)
		t.Must(err == nil, "decode", "%v", err)
		planAccessors(t, x, pl)
		for i, rel := range pl.Relations() {
			if t.Index%4 != 0 {
				break
			}
			got, want := rel.Rel(), x.P.Relations[i].GetRel()
			if rel.IsRoot() {
				got, want = rel.Root().Input(), x.P.Relations[i].GetRoot().Input
			}
			t.NoPanic("rel-accessors", func() { c.AddExtra("accessors_read", int64(relAccessors(t, got, want))) })
		}
		t.Obs(planKinds(x))
	})
	c.Rule("write-output: writes of both output modes and all operations are decoded and encoded; non-trivial = mode and operation")
	c.Section("write-output", 8, func(t *vk.T) {
		mode := proto.WriteRel_OutputMode(1 + t.Index%2)
		op := []proto.WriteRel_WriteOp{proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE, proto.WriteRel_WRITE_OP_UPDATE}[t.Index/2]
		cols := []*spec.TS{{K: spec.I32, N: types.NullabilityRequired}}
		p := &proto.Plan{Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: writeRel(op, mode, cols)}}}}
		t.Desc = func() string { return fmt.Sprint(p) }
		why, q := planTrip(p)
		t.Must(why == "", "trip", "%s", why)
		got := q.Relations[0].GetRel().GetWrite()
		t.Check(got.GetOutput() == mode, mode.String()+":"+got.GetOutput().String(), "a write with output mode %v is encoded with output mode %v", mode, got.GetOutput())
		got.Output = mode
		t.Check(pb.Equal(q.Relations[0], p.Relations[0]), "rest", "%s", pdiff(p.Relations[0], q.Relations[0]))
		t.Obs(mode, op)
	})
	c.Rule("decoders: plans with extension relations of several types, each with its decoder that records what it is asked, or that fails or returns something that is no definition; non-trivial = mode, relations, types")
	c.ParSection("decoders", c.Scale(12000, 200000), decoders)
	c.ParSection("lenient", c.Scale(30000, 700000), func(t *vk.T) {
		r := t.R
		x := genPlan(r, c04tune)
		l := pb.Clone(x.P).(*proto.Plan)
		did := map[string]bool{}
		lenient(r, l.ProtoReflect(), did)
		t.Desc = func() string { return fmt.Sprintf("%v\nfrom %v", x.P, l) }
		if r.Bool() {
			m := &proto.Plan{}
			t.Must(wire(l, m) == nil, "wire", "the plan has no wire form")
			l = m
		}
		why, q := planTrip(l)
		if why == "" && !pb.Equal(q, x.P) {
			why = "differs: " + diffPath(x.P.ProtoReflect(), q.ProtoReflect())
		}
		var ks []string
		for k := range did {
			ks = append(ks, k)
			t.Obs(k, planKinds(x))
		}
		sort.Strings(ks)
		t.Check(why == "", "lenient:"+keyLine(why), "%s (with %s)", why, strings.Join(ks, ", "))
	})
}

// c04tune keeps masks on reads, whose effect on the columns the library does not
// follow (C08), and leaves the output mode of writes to a section of its own.
func c04tune(g *spec.PG) { g.BaseMask, g.NoOutput = true, true }

// writeRel writes the rows of a table of the columns.
func writeRel(op proto.WriteRel_WriteOp, mode proto.WriteRel_OutputMode, cols []*spec.TS) *proto.Rel {
	direct := func() *proto.RelCommon {
		return &proto.RelCommon{EmitKind: &proto.RelCommon_Direct_{Direct: &proto.RelCommon_Direct{}}}
	}
	in := &proto.Rel{RelType: &proto.Rel_Read{Read: &proto.ReadRel{Common: direct(), BaseSchema: spec.Named(vk.NewR(1), cols), ReadType: &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{"s"}}}}}}
	return &proto.Rel{RelType: &proto.Rel_Write{Write: &proto.WriteRel{Common: direct(), Input: in, TableSchema: spec.Named(vk.NewR(1), cols), Op: op, Output: mode,
		WriteType: &proto.WriteRel_NamedTable{NamedTable: &proto.NamedObjectWrite{Names: []string{"t"}}}}}}
}

// planTrip decodes and encodes.
func planTrip(p *proto.Plan) (why string, q *proto.Plan) {
	pl, err := tryPlan(p)
	if err != nil {
		return "decoding: " + err.Error(), nil
	}
	if pn, st := vk.Try(func() { q, err = pl.ToProto() }); pn != nil {
		return fmt.Sprintf("encoding: panic: %v\n%s", pn, st), nil
	}
	if err != nil {
		return "encoding: " + err.Error(), nil
	}
	return "", q
}

// relTrip puts one relation in a plan with the declarations of x and checks its round trip.
func relTrip(x *planX, rel, want *proto.Rel) string {
	p := &proto.Plan{ExtensionUrns: x.D.URNs, Extensions: x.D.Exts, Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: rel}}}}
	why, q := planTrip(p)
	if why != "" {
		return why
	}
	if got := q.Relations[0].GetRel(); !pb.Equal(got, want) {
		return "differs: " + diffPath(want.ProtoReflect(), got.ProtoReflect()) + "\n" + pdiff(want, got).String()
	}
	return ""
}

func keyLine(why string) string {
	why = strings.SplitN(why, "\n", 2)[0]
	if i := strings.Index(why, ": panic: "); i >= 0 {
		return why[:i] + ":panic:" + vk.PanicKey(why[i+9:])
	}
	if s, ok := strings.CutPrefix(why, "decoding: "); ok {
		return "decoding:" + vk.PanicKey(trim(s, 60))
	}
	return strings.ReplaceAll(trim(why, 80), " ", "_")
}

func planKinds(x *planX) string {
	var ks []string
	for i, rx := range x.Rels {
		if x.Roots[i] {
			ks = append(ks, "root")
		}
		rx.Walk(func(o *spec.RX) { ks = append(ks, fmt.Sprint(o.Kind, o.Emit)) })
	}
	return strings.Join(ks, ",")
}

// planAccessors checks what a decoded plan reports about itself.
func planAccessors(t *vk.T, x *planX, pl *plan.Plan) {
	t.Phase = "accessors"
	v, w := pl.Version(), x.P.Version
	if w != nil {
		t.Check(v.GetMajorNumber() == w.MajorNumber && v.GetMinorNumber() == w.MinorNumber && v.GetPatchNumber() == w.PatchNumber && v.GetGitHash() == w.GitHash && v.GetProducer() == w.Producer, "version", "version %v, want %v", v, w)
	}
	t.Check(fmt.Sprint(pl.ExpectedTypeURLs()) == fmt.Sprint(x.P.ExpectedTypeUrls), "type-urls", "%v, want %v", pl.ExpectedTypeURLs(), x.P.ExpectedTypeUrls)
	if a := x.P.AdvancedExtensions; a != nil {
		t.Check(pb.Equal(pl.AdvancedExtension().GetEnhancement(), a.Enhancement) && len(pl.AdvancedExtension().GetOptimization()) == len(a.Optimization), "adv", "advanced extension %v", pl.AdvancedExtension())
	}
	rels, roots, others := pl.Relations(), pl.GetRoots(), pl.GetNonRootRelations()
	t.Must(len(rels) == len(x.Rels), "relations", "%d relations, want %d", len(rels), len(x.Rels))
	for i, r := range rels {
		t.Check(r.IsRoot() == x.Roots[i], "root", "relation %d: root %v", i, r.IsRoot())
		if r.IsRoot() {
			t.Must(len(roots) > 0 && roots[0] == r.Root() && r.Rel() == nil, "roots", "GetRoots")
			roots = roots[1:]
			t.Check(fmt.Sprint(r.Root().Names()) == fmt.Sprint(x.P.Relations[i].GetRoot().Names), "names", "%v", r.Root().Names())
		} else {
			t.Must(len(others) > 0 && others[0] == r.Rel() && r.Root() == nil, "non-roots", "GetNonRootRelations")
			others = others[1:]
		}
		t.Check(pb.Equal(r.ToProto(), x.P.Relations[i]), "relation-encoding", "relation %d alone encodes differently", i)
	}
	t.Check(len(roots) == 0 && len(others) == 0, "relations-extra", "more relations")
	// what is done to the lists changes nothing of the plan
	if all := pl.GetRoots(); len(all) > 0 {
		all[0] = nil
		t.Check(pl.GetRoots()[0] != nil, "roots-shared", "changing the list of roots changes the plan")
	}
	if all := pl.GetNonRootRelations(); len(all) > 0 {
		all[0] = nil
		t.Check(pl.GetNonRootRelations()[0] != nil, "non-roots-shared", "changing the list of relations changes the plan")
	}
	if all := pl.Relations(); len(all) > 0 {
		all[len(all)-1] = plan.Relation{}
		l := pl.Relations()[len(all)-1]
		t.Check(l.Rel() != nil || l.Root() != nil, "relations-shared", "changing the list of relations changes the plan")
	}
	if all := pl.ExpectedTypeURLs(); len(all) > 0 {
		all[0] = "changed"
		t.Check(pl.ExpectedTypeURLs()[0] == x.P.ExpectedTypeUrls[0], "type-urls-shared", "changing the list of type URLs changes the plan")
	}
	if all := pl.ParameterBindings(); len(all) > 0 {
		all[0] = plan.DynamicParameterBinding{ParameterAnchor: 1 << 20}
		t.Check(pl.ParameterBindings()[0].Value != nil, "bindings-shared", "changing the list of bindings changes the plan")
	}
	bs := pl.ParameterBindings()
	t.Must(len(bs) == len(x.P.ParameterBindings), "bindings", "%d bindings", len(bs))
	for i, b := range bs {
		w := x.P.ParameterBindings[i]
		t.Check(b.ParameterAnchor == w.ParameterAnchor && pb.Equal(b.Value.ToProtoLiteral(), w.Value), "binding", "binding %d: %v, want %v", i, b, w)
	}
}
