package checks

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/vk"
)

// relReader compares what a decoded relation says of itself with its message.
type relReader struct {
	t *vk.T
	k string // kind
	n int    // accessors read
}

func (a *relReader) is(what string, ok bool, f string, args ...any) {
	a.n++
	a.t.Check(ok, "rel-accessor:"+a.k+"."+what, a.k+"."+what+": "+f, args...)
}

func (a *relReader) msg(what string, got, want pb.Message) {
	a.is(what, pb.Equal(got, want), "%v, want %v", got, want)
}

// exp compares an expression; absent ones are nil, or true where the message says so.
func (a *relReader) exp(what string, got expr.Expression, want *proto.Expression, absent *proto.Expression) {
	if want == nil {
		want = absent
	}
	if want == nil {
		a.is(what, got == nil, "%v, want none", got)
		return
	}
	if got == nil {
		a.is(what, false, "none, want %v", want)
		return
	}
	a.msg(what, got.ToProto(), want)
}

func (a *relReader) exps(what string, got []expr.Expression, want []*proto.Expression) {
	if len(got) != len(want) {
		a.is(what, false, "%d, want %d", len(got), len(want))
		return
	}
	for i := range want {
		a.exp(what, got[i], want[i], nil)
	}
}

func (a *relReader) rel(what string, got plan.Rel, want *proto.Rel) {
	a.is(what, got != nil && pb.Equal(got.ToProto(), want), "%v, want %v", got, want)
}

func (a *relReader) schema(what string, got types.NamedStruct, want *proto.NamedStruct) {
	if want != nil {
		a.msg(what, got.ToProto(), want)
	}
}

func (a *relReader) names(what string, got, want []string) {
	a.is(what, fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "%q, want %q", got, want)
}

type advOf interface {
	GetAdvancedExtension() *extensions.AdvancedExtension
	SetAdvancedExtension(*extensions.AdvancedExtension) *extensions.AdvancedExtension
}

// adv compares the advanced extension of the relation, replaces it and puts it back.
func (a *relReader) adv(got advOf, want *extensions.AdvancedExtension, in func() *extensions.AdvancedExtension) {
	a.msg("GetAdvancedExtension", got.GetAdvancedExtension(), want)
	other := &extensions.AdvancedExtension{Enhancement: &anypb.Any{TypeUrl: "t", Value: []byte("set")}}
	old := got.SetAdvancedExtension(other)
	a.msg("SetAdvancedExtension", old, want)
	a.msg("GetAdvancedExtension", got.GetAdvancedExtension(), other)
	a.msg("SetAdvancedExtension", in(), other)
	a.msg("SetAdvancedExtension", got.SetAdvancedExtension(old), other)
}

var trueLit = expr.NewPrimitiveLiteral(true, false).ToProto()

func (a *relReader) keys(left, right []*expr.FieldReference, got []*plan.ComparisonJoinKey, want []*proto.ComparisonJoinKey) {
	if len(got) != len(want) || len(left) != len(want) || len(right) != len(want) {
		a.is("Keys", false, "%d, %d and %d, want %d", len(got), len(left), len(right), len(want))
		return
	}
	for i, w := range want {
		a.msg("Keys.Left", got[i].Left().ToProtoFieldRef(), w.Left)
		a.msg("Keys.Right", got[i].Right().ToProtoFieldRef(), w.Right)
		a.msg("LeftKeys", left[i].ToProtoFieldRef(), w.Left)
		a.msg("RightKeys", right[i].ToProtoFieldRef(), w.Right)
		switch c := got[i].Comparison().(type) {
		case plan.SimpleComparison:
			a.is("Keys.Comparison", w.Comparison.GetSimple() == c.Type && w.Comparison.GetCustomFunctionReference() == 0, "%v, want %v", c, w)
		case plan.CustomComparison:
			x, ok := w.Comparison.GetInnerType().(*proto.ComparisonJoinKey_ComparisonType_CustomFunctionReference)
			a.is("Keys.Comparison", ok && x.CustomFunctionReference == c.FunctionReference, "%v, want %v", c, w)
		default:
			a.is("Keys.Comparison", false, "%T, want %v", c, w)
		}
	}
}

// file compares a file of a read.
func (a *relReader) file(got plan.FileOrFiles, want *proto.ReadRel_LocalFiles_FileOrFiles) {
	a.is("Item", got.PartIndex == want.PartitionIndex && got.Start == want.Start && got.Len == want.Length, "%v, want %v", &got, want)
	kind, path := plan.PathType(-1), ""
	switch p := want.PathType.(type) {
	case *proto.ReadRel_LocalFiles_FileOrFiles_UriPath:
		kind, path = plan.URIPath, p.UriPath
	case *proto.ReadRel_LocalFiles_FileOrFiles_UriPathGlob:
		kind, path = plan.URIPathGlob, p.UriPathGlob
	case *proto.ReadRel_LocalFiles_FileOrFiles_UriFile:
		kind, path = plan.URIFile, p.UriFile
	case *proto.ReadRel_LocalFiles_FileOrFiles_UriFolder:
		kind, path = plan.URIFolder, p.UriFolder
	}
	if kind >= 0 {
		a.is("Item.Path", got.PathType == kind && got.Path == path, "%v %q, want %v", got.PathType, got.Path, want)
	}
	switch f := want.FileFormat.(type) {
	case *proto.ReadRel_LocalFiles_FileOrFiles_Parquet:
		g, ok := got.Format.(*plan.ParquetReadOptions)
		a.is("Item.Format", ok && pb.Equal((*proto.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions)(g), f.Parquet), "%T, want %v", got.Format, f)
	case *proto.ReadRel_LocalFiles_FileOrFiles_Arrow:
		g, ok := got.Format.(*plan.ArrowReadOptions)
		a.is("Item.Format", ok && pb.Equal((*proto.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions)(g), f.Arrow), "%T, want %v", got.Format, f)
	case *proto.ReadRel_LocalFiles_FileOrFiles_Orc:
		g, ok := got.Format.(*plan.OrcReadOptions)
		a.is("Item.Format", ok && pb.Equal((*proto.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions)(g), f.Orc), "%T, want %v", got.Format, f)
	case *proto.ReadRel_LocalFiles_FileOrFiles_Dwrf:
		g, ok := got.Format.(*plan.DwrfReadOptions)
		a.is("Item.Format", ok && pb.Equal((*proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions)(g), f.Dwrf), "%T, want %v", got.Format, f)
	case *proto.ReadRel_LocalFiles_FileOrFiles_Text:
		g, ok := got.Format.(*plan.TextReadOptions)
		a.is("Item.Format", ok && pb.Equal((*proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions)(g), f.Text), "%T, want %v", got.Format, f)
	case *proto.ReadRel_LocalFiles_FileOrFiles_Extension:
		g, ok := got.Format.(*plan.ExtensionReadOptions)
		a.is("Item.Format", ok && pb.Equal((*anypb.Any)(g), f.Extension), "%T, want %v", got.Format, f)
	case nil:
		a.is("Item.Format", got.Format == nil, "%T, want none", got.Format)
	}
}

func (a *relReader) common(got plan.Rel, want *proto.RelCommon) {
	if want == nil {
		return
	}
	_, ok := want.EmitKind.(*proto.RelCommon_Emit_)
	m := got.OutputMapping()
	a.is("OutputMapping", (m != nil) == ok && fmt.Sprint(m) == fmt.Sprint(want.GetEmit().GetOutputMapping()), "%v, want %v", m, want.EmitKind)
	for i := range m {
		m[i]++
	}
	if h, ok := got.(interface{ Hint() *plan.Hint }); ok {
		a.msg("Hint", h.Hint(), want.Hint)
	}
}

// relAccessors reads a relation, and those it is over, and gives the number of things read.
func relAccessors(t *vk.T, got plan.Rel, want *proto.Rel) int {
	a := &relReader{t: t, k: fmt.Sprintf("%T", got)}
	ins := got.GetInputs()
	var wins []*proto.Rel
	switch q := want.RelType.(type) {
	case *proto.Rel_Read:
		a.read(got, q.Read)
	case *proto.Rel_Project:
		g, w := got.(*plan.ProjectRel), q.Project
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.exps("Expressions", g.Expressions(), w.Expressions)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetProject().AdvancedExtension })
	case *proto.Rel_Filter:
		g, w := got.(*plan.FilterRel), q.Filter
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.exp("Condition", g.Condition(), w.Condition, nil)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetFilter().AdvancedExtension })
	case *proto.Rel_Fetch:
		g, w := got.(*plan.FetchRel), q.Fetch
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.is("Offset", g.Offset() == w.GetOffset(), "%d, want %d", g.Offset(), w.GetOffset())
		a.is("Count", g.Count() == w.GetCount(), "%d, want %d", g.Count(), w.GetCount())
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetFetch().AdvancedExtension })
	case *proto.Rel_Sort:
		g, w := got.(*plan.SortRel), q.Sort
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.is("Sorts", len(g.Sorts()) == len(w.Sorts), "%d, want %d", len(g.Sorts()), len(w.Sorts))
		if len(g.Sorts()) == len(w.Sorts) {
			for i, s := range g.Sorts() {
				a.msg("Sorts", s.ToProto(), w.Sorts[i])
			}
		}
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetSort().AdvancedExtension })
	case *proto.Rel_Aggregate:
		g, w := got.(*plan.AggregateRel), q.Aggregate
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.exps("GroupingExpressions", g.GroupingExpressions(), w.GroupingExpressions)
		var refs [][]uint32
		for _, s := range w.Groupings {
			refs = append(refs, s.ExpressionReferences)
		}
		a.is("GroupingReferences", fmt.Sprint(g.GroupingReferences()) == fmt.Sprint(refs), "%v, want %v", g.GroupingReferences(), refs)
		a.is("Measures", len(g.Measures()) == len(w.Measures), "%d, want %d", len(g.Measures()), len(w.Measures))
		if len(g.Measures()) == len(w.Measures) {
			for i, m := range g.Measures() {
				a.msg("Measures", m.Measure().ToProto(), w.Measures[i].Measure)
				a.exp("Measures.Filter", m.Filter(), w.Measures[i].Filter, trueLit)
			}
		}
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetAggregate().AdvancedExtension })
	case *proto.Rel_Join:
		g, w := got.(*plan.JoinRel), q.Join
		wins = []*proto.Rel{w.Left, w.Right}
		a.common(got, w.Common)
		a.rel("Left", g.Left(), w.Left)
		a.rel("Right", g.Right(), w.Right)
		a.exp("Expr", g.Expr(), w.Expression, nil)
		a.exp("PostJoinFilter", g.PostJoinFilter(), w.PostJoinFilter, trueLit)
		a.is("Type", g.Type() == w.Type, "%v, want %v", g.Type(), w.Type)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetJoin().AdvancedExtension })
	case *proto.Rel_Cross:
		g, w := got.(*plan.CrossRel), q.Cross
		wins = []*proto.Rel{w.Left, w.Right}
		a.common(got, w.Common)
		a.rel("Left", g.Left(), w.Left)
		a.rel("Right", g.Right(), w.Right)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetCross().AdvancedExtension })
	case *proto.Rel_Set:
		g, w := got.(*plan.SetRel), q.Set
		wins = w.Inputs
		a.common(got, w.Common)
		a.inputs(g.Inputs(), w.Inputs)
		a.is("Op", g.Op() == w.Op, "%v, want %v", g.Op(), w.Op)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetSet().AdvancedExtension })
	case *proto.Rel_HashJoin:
		g, w := got.(*plan.HashJoinRel), q.HashJoin
		wins = []*proto.Rel{w.Left, w.Right}
		a.common(got, w.Common)
		a.rel("Left", g.Left(), w.Left)
		a.rel("Right", g.Right(), w.Right)
		a.keys(g.LeftKeys(), g.RightKeys(), g.Keys(), w.Keys)
		a.exp("PostJoinFilter", g.PostJoinFilter(), w.PostJoinFilter, trueLit)
		a.is("Type", int(g.Type()) == int(w.Type), "%v, want %v", g.Type(), w.Type)
		a.is("BuildInput", g.BuildInput() == w.BuildInput, "%v, want %v", g.BuildInput(), w.BuildInput)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetHashJoin().AdvancedExtension })
	case *proto.Rel_MergeJoin:
		g, w := got.(*plan.MergeJoinRel), q.MergeJoin
		wins = []*proto.Rel{w.Left, w.Right}
		a.common(got, w.Common)
		a.rel("Left", g.Left(), w.Left)
		a.rel("Right", g.Right(), w.Right)
		a.keys(g.LeftKeys(), g.RightKeys(), g.Keys(), w.Keys)
		a.exp("PostJoinFilter", g.PostJoinFilter(), w.PostJoinFilter, trueLit)
		a.is("Type", int(g.Type()) == int(w.Type), "%v, want %v", g.Type(), w.Type)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetMergeJoin().AdvancedExtension })
	case *proto.Rel_Write:
		g, w := got.(*plan.NamedTableWriteRel), q.Write
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.names("Names", g.Names(), w.GetNamedTable().GetNames())
		a.msg("NamedTableAdvancedExtension", g.NamedTableAdvancedExtension(), w.GetNamedTable().GetAdvancedExtension())
		a.schema("TableSchema", g.TableSchema(), w.TableSchema)
		a.is("Op", g.Op() == w.Op, "%v, want %v", g.Op(), w.Op)
		a.is("OutputMode", g.OutputMode() == w.Output, "%v, want %v", g.OutputMode(), w.Output)
		a.is("CreateMode", g.CreateMode() == w.CreateMode, "%v, want %v", g.CreateMode(), w.CreateMode)
		a.adv(g, w.AdvancedExtension, func() *extensions.AdvancedExtension { return g.ToProto().GetWrite().AdvancedExtension })
	case *proto.Rel_ExtensionSingle:
		g, w := got.(*plan.ExtensionSingleRel), q.ExtensionSingle
		wins = []*proto.Rel{w.Input}
		a.common(got, w.Common)
		a.rel("Input", g.Input(), w.Input)
		a.msg("Detail", g.Detail(), w.Detail)
		a.is("Definition", g.Definition() != nil && pb.Equal(g.Definition().Build(ins), w.Detail), "%v", g.Definition())
	case *proto.Rel_ExtensionLeaf:
		g, w := got.(*plan.ExtensionLeafRel), q.ExtensionLeaf
		a.common(got, w.Common)
		a.msg("Detail", g.Detail(), w.Detail)
		a.is("Definition", g.Definition() != nil && pb.Equal(g.Definition().Build(nil), w.Detail), "%v", g.Definition())
	case *proto.Rel_ExtensionMulti:
		g, w := got.(*plan.ExtensionMultiRel), q.ExtensionMulti
		wins = w.Inputs
		a.common(got, w.Common)
		a.inputs(g.Inputs(), w.Inputs)
		a.msg("Detail", g.Detail(), w.Detail)
		a.is("Definition", g.Definition() != nil && pb.Equal(g.Definition().Build(ins), w.Detail), "%v", g.Definition())
	}
	a.inputs(ins, wins)
	a.is("ToProtoPlanRel", pb.Equal(got.ToProtoPlanRel().GetRel(), want), "another relation after its accessors were read: %v", got.ToProto())
	n := a.n
	for i := range min(len(ins), len(wins)) {
		n += relAccessors(t, ins[i], wins[i])
	}
	return n
}

func (a *relReader) inputs(got []plan.Rel, want []*proto.Rel) {
	if len(got) != len(want) {
		a.is("inputs", false, "%d, want %d", len(got), len(want))
		return
	}
	for i := range want {
		a.rel("inputs", got[i], want[i])
	}
}

func (a *relReader) read(got plan.Rel, w *proto.ReadRel) {
	type base interface {
		BaseSchema() types.NamedStruct
		Filter() expr.Expression
		BestEffortFilter() expr.Expression
		Projection() *expr.MaskExpression
	}
	g, ok := got.(base)
	if !ok {
		a.is("read", false, "%T", got)
		return
	}
	a.common(got, w.Common)
	a.schema("BaseSchema", g.BaseSchema(), w.BaseSchema)
	a.exp("Filter", g.Filter(), w.Filter, nil)
	a.exp("BestEffortFilter", g.BestEffortFilter(), w.BestEffortFilter, nil)
	if w.Projection == nil {
		a.is("Projection", g.Projection() == nil, "%v, want none", g.Projection())
	} else {
		a.msg("Projection", g.Projection().ToProto(), w.Projection)
	}
	read := func() *extensions.AdvancedExtension { return got.ToProto().GetRead().AdvancedExtension }
	switch w2 := w.ReadType.(type) {
	case *proto.ReadRel_NamedTable_:
		g := got.(*plan.NamedTableReadRel)
		a.names("Names", g.Names(), w2.NamedTable.Names)
		a.msg("NamedTableAdvancedExtension", g.NamedTableAdvancedExtension(), w2.NamedTable.AdvancedExtension)
		a.adv(g, w.AdvancedExtension, read)
	case *proto.ReadRel_VirtualTable_:
		g := got.(*plan.VirtualTableReadRel)
		rows := w2.VirtualTable.Expressions
		a.is("Values", len(g.Values()) == len(rows), "%d, want %d", len(g.Values()), len(rows))
		if len(g.Values()) == len(rows) {
			for i, v := range g.Values() {
				a.exps("Values", v, rows[i].Fields)
			}
		}
		a.adv(g, w.AdvancedExtension, read)
	case *proto.ReadRel_ExtensionTable_:
		g := got.(*plan.ExtensionTableReadRel)
		a.msg("Detail", g.Detail(), w2.ExtensionTable.Detail)
		a.adv(g, w.AdvancedExtension, read)
	case *proto.ReadRel_IcebergTable_:
		a.adv(got.(*plan.IcebergTableReadRel), w.AdvancedExtension, read)
	case *proto.ReadRel_LocalFiles_:
		g := got.(*plan.LocalFileReadRel)
		for i, f := range w2.LocalFiles.Items {
			a.file(g.Item(i), f)
		}
		a.adv(g, w2.LocalFiles.AdvancedExtension, func() *extensions.AdvancedExtension {
			return got.ToProto().GetRead().GetLocalFiles().AdvancedExtension
		})
	}
}
