package checks

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C08"] = c08 }

func c08(c *vk.C) {
	c.Rule("schemas: generated relation trees whose output columns the model derives from the specification while generating; every relation of the tree reports its own, repeatedly, after the reports of the others, after encoding, after a round trip; non-trivial = distinct relation kind with input and output columns")
	c.Rule("projected: reads with a projection report the selected columns in the order of the selection; non-trivial = each projection")
	c.Section("projected", len(projectedReads), projectedRead)
	c.ParSection("schemas", c.Scale(100000, 2500000), func(t *vk.T) {
		r := t.R
		x := genPlan(r, func(g *spec.PG) { g.NoMask = true; g.XDepth = r.N(2); g.SubDepth = r.N(2) })
		t.Desc = func() string { return fmt.Sprintf("%v", x.P) }
		pl, err := tryPlan(x.P)
		t.Must(err == nil, "decode:"+keyLine(fmt.Sprintf("decoding: %v", err)), "%v", err)
		rels := relsOf(pl)
		t.Must(len(rels) == len(x.Rels), "relations", "%d relations", len(rels))
		for i, rel := range rels {
			t.Phase = "first"
			okAll := schemas(t, x.Rels[i], rel, "first")
			if !okAll {
				return
			}
			t.Phase = "again"
			schemas(t, x.Rels[i], rel, "again")
			rel.ToProto()
			schemas(t, x.Rels[i], rel, "encoded")
			if x.Roots[i] {
				ns := pl.Relations()[i].Root().RecordType()
				t.Check(pb.Equal(ns.ToProto(), &proto.NamedStruct{Names: x.P.Relations[i].GetRoot().Names, Struct: spec.Record(x.Rels[i].Out).Proto().GetStruct()}),
					"root", "root reports %v, want %v", ns, x.Rels[i].Out)
			}
		}
		if strings.Contains(x.P.String(), "write:{") {
			return // the output mode is lost (C04)
		}
		q, err := pl.ToProto()
		t.Must(err == nil, "encode", "%v", err)
		pl, err = tryPlan(q)
		t.Must(err == nil, "decode-again", "%v", err)
		for i, rel := range relsOf(pl) {
			t.Phase = "round trip"
			schemas(t, x.Rels[i], rel, "round-trip")
		}
	})
}

// projectedReads are masks over (i32, string?, fp64).
var projectedReads = [][]int32{{0}, {1, 2}, {2, 0}, {0, 2, 1}, {}}

func projectedRead(t *vk.T) {
	cols := []*spec.TS{{K: spec.I32, N: types.NullabilityRequired}, {K: spec.String, N: types.NullabilityNullable}, {K: spec.Fp64, N: types.NullabilityRequired}}
	rr := &proto.ReadRel{Common: &proto.RelCommon{EmitKind: &proto.RelCommon_Direct_{Direct: &proto.RelCommon_Direct{}}}, BaseSchema: spec.Named(t.R, cols),
		ReadType:   &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{"s"}}},
		Projection: &proto.Expression_MaskExpression{Select: &proto.Expression_MaskExpression_StructSelect{}, MaintainSingularStruct: true}}
	var want []*spec.TS
	for _, i := range projectedReads[t.Index] {
		rr.Projection.Select.StructItems = append(rr.Projection.Select.StructItems, &proto.Expression_MaskExpression_StructItem{Field: i})
		want = append(want, cols[i])
	}
	pl, err := tryPlan(&proto.Plan{Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: &proto.Rel{RelType: &proto.Rel_Read{Read: rr}}}}}})
	t.Must(err == nil, "decode", "%v", err)
	got := relsOf(pl)[0].RecordType()
	what := "other"
	if sameCols(got, cols) {
		what = "base schema"
	}
	t.Check(sameCols(got, want), strings.ReplaceAll(fmt.Sprintf("mask %v reports %s", projectedReads[t.Index], what), " ", "_"), "a read of %s with projection %v reports %v", spec.Record(cols), projectedReads[t.Index], &got)
	t.Obs(t.Index)
}

// schemas checks what each relation of the tree reports, inputs first.
func schemas(t *vk.T, x *spec.RX, rel plan.Rel, when string) bool {
	ins := rel.GetInputs()
	if !t.Check(len(ins) == len(x.Ins), "inputs:"+kindKey(x), "%d inputs, want %d", len(ins), len(x.Ins)) {
		return false
	}
	for i := range ins {
		if !schemas(t, x.Ins[i], ins[i], when) {
			return false
		}
	}
	var got types.RecordType
	if !t.NoPanic("schema:"+when+":"+kindKey(x), func() { got = rel.RecordType() }) {
		return false
	}
	want := spec.Record(x.Out)
	ok := t.Check(sameCols(got, x.Out), "schema:"+when+":"+kindKey(x), "%s: %v with output mapping %v reports %v, want %s", when, x.Kind, x.Emit, &got, want)
	if !ok {
		return false
	}
	t.Check(fmt.Sprint(rel.OutputMapping()) == fmt.Sprint(x.Emit) && (rel.OutputMapping() == nil) == (x.Emit == nil), "mapping:"+kindKey(x), "output mapping %v, want %v", rel.OutputMapping(), x.Emit)
	t.Check(int(got.FieldCount()) == len(x.Out), "count:"+kindKey(x), "%d fields", got.FieldCount())
	if when == "first" {
		var in []string
		for _, i := range x.Ins {
			in = append(in, spec.Record(i.Out).Full())
		}
		t.Obs(x.Kind, in, want.Full())
	}
	return true
}

// sameCols compares a record type with columns, exactly.
func sameCols(got types.RecordType, want []*spec.TS) bool {
	ts := got.Types()
	if len(ts) != len(want) {
		return false
	}
	for i, t := range ts {
		if t == nil || !pb.Equal(types.TypeToProto(t), want[i].Proto()) {
			return false
		}
	}
	return true
}
