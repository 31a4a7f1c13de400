package spec

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/vk"
)

// KnownExt is the type URL of extension relations whose detail is a struct
// type giving the schema; OtherExt is one nobody decodes.
const (
	KnownExt = "type.example.com/verif.Known"
	OtherExt = "type.example.com/verif.Other"
)

// RX is a generated relation with what the specification says about it.
type RX struct {
	P      *proto.Rel
	Kind   string
	Ins    []*RX
	Exprs  []*X  // every expression the relation itself holds
	Direct []*TS // columns before the output mapping
	Out    []*TS // columns
	Emit   []int32
	Guess  bool // the schema of an extension nobody decodes: the library's guess
}

// Walk visits the relation and its inputs, not relations inside expressions.
func (x *RX) Walk(f func(*RX)) {
	f(x)
	for _, i := range x.Ins {
		i.Walk(f)
	}
}

// Guessed says whether the tree has an extension relation of unknown schema.
func (x *RX) Guessed() (g bool) {
	x.Walk(func(o *RX) { g = g || o.Guess })
	return
}

// PG generates relations.
type PG struct {
	R        *vk.R
	Fns      []FnDecl
	XDepth   int // depth of expressions
	SubDepth int // nesting of subqueries
	SubRel   int // depth of relations in subqueries
	Only     []string
	Param    func(t *TS) uint32
	NoParam  bool
	NoGuess  bool
	NoExt    bool
	NoLambda bool
	NoMask   bool // no projection masks on reads
	BaseMask bool // columns of reads with masks as the library has them: those of the base schema
	PlainFns bool
	NoOutput bool // writes leave their output mode unspecified
	EmitNum  int  // of 8: how often relations get an output mapping (0: 3)
	n        int
}

func (g *PG) xg(schema []*TS) *XG {
	x := &XG{R: g.R, Fns: g.Fns, SubDepth: g.SubDepth, Param: g.Param, NoParam: g.NoParam, NoLambda: g.NoLambda}
	if schema != nil {
		x.Schema = Record(schema)
	}
	x.Sub = g.sub
	return x
}

// Record is the required struct of the columns.
func Record(ts []*TS) *TS {
	return &TS{K: Struct, N: types.NullabilityRequired, Kids: ts}
}

func (g *PG) sub(xg *XG, cols int) (*proto.Rel, []*TS) {
	s := *g
	s.SubDepth = xg.SubDepth
	s.NoGuess = true
	x := s.Rel(g.R.N(g.SubRel + 1))
	if cols >= 0 && len(x.Out) != cols {
		if len(x.Out) < cols {
			x = s.table(nil)
			for len(x.Direct) < cols {
				x = s.table(nil)
			}
		}
		m := make([]int32, cols)
		for i := range m {
			m[i] = int32(g.R.N(len(x.Direct)))
		}
		x.SetEmit(m)
	}
	return x.P, x.Out
}

// Any makes an arbitrary message.
func Any(r *vk.R) *anypb.Any {
	if r.P(1, 6) {
		return &anypb.Any{}
	}
	return &anypb.Any{TypeUrl: vk.PickOf(r, "type.googleapis.com/verif.A", "x/y", OtherExt), Value: genBytes(r, r.N(6))}
}

// Adv makes an advanced extension, often none.
func Adv(r *vk.R) *extpb.AdvancedExtension {
	if r.P(2, 3) {
		return nil
	}
	a := &extpb.AdvancedExtension{}
	if r.Bool() {
		a.Enhancement = Any(r)
	}
	for i, n := 0, r.N(3); i < n; i++ {
		a.Optimization = append(a.Optimization, Any(r))
	}
	return a
}

func hint(r *vk.R) *proto.RelCommon_Hint {
	if r.P(3, 4) {
		return nil
	}
	h := &proto.RelCommon_Hint{AdvancedExtension: Adv(r), Alias: vk.PickOf(r, "", "al")}
	if r.Bool() {
		h.Stats = &proto.RelCommon_Hint_Stats{RowCount: float64(r.N(100)), RecordSize: 1.5, AdvancedExtension: Adv(r)}
	}
	if r.Bool() {
		h.Constraint = &proto.RelCommon_Hint_RuntimeConstraint{AdvancedExtension: Adv(r)}
	}
	if r.Bool() {
		h.OutputNames = []string{"o", ""}
	}
	if r.Bool() {
		h.SavedComputations = []*proto.RelCommon_Hint_SavedComputation{{ComputationId: int32(r.N(9)), Type: proto.RelCommon_Hint_COMPUTATION_TYPE_HASHTABLE}}
	}
	if r.Bool() {
		h.LoadedComputations = []*proto.RelCommon_Hint_LoadedComputation{{ComputationIdReference: int32(r.N(9)), Type: proto.RelCommon_Hint_COMPUTATION_TYPE_UNKNOWN}}
	}
	return h
}

func (g *PG) common() *proto.RelCommon {
	return &proto.RelCommon{EmitKind: &proto.RelCommon_Direct_{Direct: &proto.RelCommon_Direct{}}, Hint: hint(g.R), AdvancedExtension: Adv(g.R)}
}

// Common is the part all relations have.
func Common(p *proto.Rel) *proto.RelCommon {
	switch t := p.RelType.(type) {
	case *proto.Rel_Read:
		return t.Read.Common
	case *proto.Rel_Filter:
		return t.Filter.Common
	case *proto.Rel_Fetch:
		return t.Fetch.Common
	case *proto.Rel_Aggregate:
		return t.Aggregate.Common
	case *proto.Rel_Sort:
		return t.Sort.Common
	case *proto.Rel_Join:
		return t.Join.Common
	case *proto.Rel_Project:
		return t.Project.Common
	case *proto.Rel_Set:
		return t.Set.Common
	case *proto.Rel_Cross:
		return t.Cross.Common
	case *proto.Rel_HashJoin:
		return t.HashJoin.Common
	case *proto.Rel_MergeJoin:
		return t.MergeJoin.Common
	case *proto.Rel_Write:
		return t.Write.Common
	case *proto.Rel_ExtensionSingle:
		return t.ExtensionSingle.Common
	case *proto.Rel_ExtensionLeaf:
		return t.ExtensionLeaf.Common
	case *proto.Rel_ExtensionMulti:
		return t.ExtensionMulti.Common
	}
	return nil
}

// SetEmit gives the relation an output mapping.
func (x *RX) SetEmit(m []int32) {
	Common(x.P).EmitKind = &proto.RelCommon_Emit_{Emit: &proto.RelCommon_Emit{OutputMapping: m}}
	x.Emit = append([]int32{}, m...)
	x.Out = []*TS{}
	for _, i := range m {
		x.Out = append(x.Out, x.Direct[i])
	}
}

// Mapping makes a mapping into so many columns.
func Mapping(r *vk.R, n int) []int32 {
	m := []int32{}
	if n == 0 || r.P(1, 12) {
		return m
	}
	if r.P(1, 6) {
		for i := 0; i < n; i++ {
			m = append(m, int32(i))
		}
		return m
	}
	for i, k := 0, 1+r.N(n+1); i < k; i++ {
		m = append(m, int32(r.N(n)))
	}
	return m
}

func (g *PG) fin(x *RX) *RX {
	x.Out = x.Direct
	k := g.EmitNum
	if k == 0 {
		k = 3
	}
	if g.R.P(k, 8) {
		x.SetEmit(Mapping(g.R, len(x.Direct)))
	}
	return x
}

// Cols makes columns.
func (g *PG) Cols(n int) (out []*TS) {
	xg := g.xg(nil)
	for i := 0; i < n; i++ {
		out = append(out, xg.Type(2))
	}
	return
}

func (g *PG) bool() *TS {
	return &TS{K: Bool, N: types.Nullability(1 + g.R.N(2))}
}

// Names of a named struct.
func Names(r *vk.R, ts []*TS) (out []string) {
	for i, m := 0, NameCount(ts); i < m; i++ {
		out = append(out, fmt.Sprintf("c%d%s", i, vk.PickOf(r, "", "", "_x", "é")))
	}
	return
}

// NameCount is the number of names columns need, depth first.
func NameCount(ts []*TS) int {
	n := 0
	for _, t := range ts {
		n += 1 + inner(t)
	}
	return n
}

func inner(t *TS) int {
	switch t.K {
	case Struct:
		return NameCount(t.Kids)
	case List:
		return inner(t.Kids[0])
	case Map:
		return inner(t.Kids[0]) + inner(t.Kids[1])
	}
	return 0
}

// Named is a named struct of the columns.
func Named(r *vk.R, ts []*TS) *proto.NamedStruct {
	return &proto.NamedStruct{Names: Names(r, ts), Struct: &proto.Type_Struct{Nullability: proto.Type_NULLABILITY_REQUIRED, TypeVariationReference: vk.PickOf(r, uint32(0), 0, 0, 7), Types: Protos(ts)}}
}

// MaskType is the type a mask leaves of a type.
func MaskType(t *TS, s *proto.Expression_MaskExpression_Select) *TS {
	if s == nil {
		return t
	}
	o := t.Clone()
	switch k := s.Type.(type) {
	case *proto.Expression_MaskExpression_Select_Struct:
		o.Kids = nil
		for _, it := range k.Struct.StructItems {
			o.Kids = append(o.Kids, MaskType(t.Kids[it.Field], it.Child))
		}
	case *proto.Expression_MaskExpression_Select_List:
		o.Kids = []*TS{MaskType(t.Kids[0], k.List.Child)}
	case *proto.Expression_MaskExpression_Select_Map:
		o.Kids = []*TS{t.Kids[0], MaskType(t.Kids[1], k.Map.Child)}
	}
	return o
}

func (g *PG) file() *proto.ReadRel_LocalFiles_FileOrFiles {
	r := g.R
	type F = proto.ReadRel_LocalFiles_FileOrFiles
	f := &F{PartitionIndex: uint64(r.N(3)), Start: uint64(r.N(100)), Length: vk.PickOf(r, uint64(0), 5, 1<<63)}
	p := vk.PickOf(r, "", "file:///a", "/x/*")
	switch r.N(4) {
	case 0:
		f.PathType = &proto.ReadRel_LocalFiles_FileOrFiles_UriPath{UriPath: p}
	case 1:
		f.PathType = &proto.ReadRel_LocalFiles_FileOrFiles_UriPathGlob{UriPathGlob: p}
	case 2:
		f.PathType = &proto.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: p}
	case 3:
		f.PathType = &proto.ReadRel_LocalFiles_FileOrFiles_UriFolder{UriFolder: p}
	}
	switch r.N(7) {
	case 0:
		f.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Parquet{Parquet: &proto.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions{}}
	case 1:
		f.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Arrow{Arrow: &proto.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions{}}
	case 2:
		f.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Orc{Orc: &proto.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions{}}
	case 3:
		f.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Dwrf{Dwrf: &proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions{}}
	case 4:
		f.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Extension{Extension: Any(r)}
	case 5:
		t := &proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions{FieldDelimiter: ",", MaxLineSize: uint64(r.N(9)), Quote: "'", HeaderLinesToSkip: uint64(r.N(2)), Escape: "\\"}
		if r.Bool() {
			t.ValueTreatedAsNull = pb.String(vk.PickOf(r, "", "NA"))
		}
		f.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Text{Text: t}
	}
	return f
}

// read makes a read over the columns, or any columns if nil.
func (g *PG) read(cols []*TS, kind string) *RX {
	r := g.R
	if cols == nil {
		cols = g.Cols(r.N(5))
	}
	rr := &proto.ReadRel{Common: g.common(), BaseSchema: Named(r, cols), AdvancedExtension: Adv(r)}
	x := &RX{P: &proto.Rel{RelType: &proto.Rel_Read{Read: rr}}, Kind: kind, Direct: cols}
	xg := g.xg(cols)
	if r.P(1, 3) {
		c := xg.Gen(g.XDepth, g.bool())
		rr.Filter = c.P
		x.Exprs = append(x.Exprs, c)
	}
	if r.P(1, 4) {
		c := xg.Gen(g.XDepth, g.bool())
		rr.BestEffortFilter = c.P
		x.Exprs = append(x.Exprs, c)
	}
	if r.P(1, 6) && !g.NoMask {
		rr.Projection = Mask(r, Record(cols))
		rr.Projection.MaintainSingularStruct = true
		if !g.BaseMask {
			x.Direct = MaskType(Record(cols), &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Struct{Struct: rr.Projection.Select}}).Kids
		}
	}
	switch kind {
	case "named":
		t := &proto.ReadRel_NamedTable{AdvancedExtension: Adv(r)}
		for i, n := 0, r.N(3); i < n; i++ {
			t.Names = append(t.Names, vk.PickOf(r, "db", "t", ""))
		}
		rr.ReadType = &proto.ReadRel_NamedTable_{NamedTable: t}
	case "virtual":
		t := &proto.ReadRel_VirtualTable{}
		vg := g.xg(nil)
		for i, n := 0, r.N(4); i < n; i++ {
			row := &proto.Expression_Nested_Struct{}
			for _, c := range cols {
				e := vg.Gen(r.N(g.XDepth+1)*r.N(2), c)
				row.Fields = append(row.Fields, e.P)
				x.Exprs = append(x.Exprs, e)
			}
			t.Expressions = append(t.Expressions, row)
		}
		rr.ReadType = &proto.ReadRel_VirtualTable_{VirtualTable: t}
	case "files":
		t := &proto.ReadRel_LocalFiles{AdvancedExtension: Adv(r)}
		for i, n := 0, r.N(3); i < n; i++ {
			t.Items = append(t.Items, g.file())
		}
		rr.ReadType = &proto.ReadRel_LocalFiles_{LocalFiles: t}
	case "ext-table":
		t := &proto.ReadRel_ExtensionTable{}
		if r.P(3, 4) {
			t.Detail = Any(r)
		}
		rr.ReadType = &proto.ReadRel_ExtensionTable_{ExtensionTable: t}
	case "iceberg":
		m := &proto.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: vk.PickOf(r, "", "s3://m")}
		switch r.N(4) {
		case 0:
			m.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: vk.PickOf(r, "1", "abc", "")}
		case 1:
			m.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: vk.PickOf(r, int64(0), 1, -5, 1<<62)}
		}
		rr.ReadType = &proto.ReadRel_IcebergTable_{IcebergTable: &proto.ReadRel_IcebergTable{TableType: &proto.ReadRel_IcebergTable_Direct{Direct: m}}}
	}
	return g.fin(x)
}

func (g *PG) table(cols []*TS) *RX {
	return g.read(cols, vk.PickOf(g.R, "named", "named", "virtual", "files", "ext-table", "iceberg"))
}

// XG is a generator of expressions over the columns.
func (g *PG) XG(cols []*TS) *XG { return g.xg(cols) }

// Detail is the detail of an extension relation with the columns.
func (g *PG) Detail(cols []*TS) *anypb.Any { return g.detail(cols) }

// Table makes a read over the columns.
func (g *PG) Table(cols []*TS) *RX { return g.table(cols) }

func (g *PG) detail(cols []*TS) *anypb.Any {
	if cols == nil {
		return Any(g.R)
	}
	b, _ := pb.MarshalOptions{Deterministic: true}.Marshal(Record(cols).Proto().GetStruct())
	return &anypb.Any{TypeUrl: KnownExt, Value: b}
}

// JoinOut is the direct output of a join of the named type.
func JoinOut(kind string, l, r []*TS) []*TS {
	null := func(ts []*TS) (out []*TS) {
		for _, t := range ts {
			out = append(out, t.With(types.NullabilityNullable))
		}
		return
	}
	cat := func(a, b []*TS) []*TS { return append(append([]*TS{}, a...), b...) }
	mark := []*TS{{K: Bool, N: types.NullabilityNullable}}
	switch kind {
	case "INNER", "UNSPECIFIED":
		return cat(l, r)
	case "OUTER":
		return cat(null(l), null(r))
	case "LEFT", "LEFT_SINGLE":
		return cat(l, null(r))
	case "RIGHT", "RIGHT_SINGLE":
		return cat(null(l), r)
	case "LEFT_SEMI", "LEFT_ANTI":
		return l
	case "RIGHT_SEMI", "RIGHT_ANTI":
		return r
	case "LEFT_MARK":
		return cat(l, mark)
	case "RIGHT_MARK":
		return cat(r, mark)
	}
	panic("unknown join type " + kind)
}

// SetOut is the output of a set operation of inputs whose columns differ only in nullability.
func SetOut(op proto.SetRel_SetOp, ins [][]*TS) (out []*TS) {
	for i, t := range ins[0] {
		all, any := true, false // of the secondary inputs: all nullable, any nullable
		for _, in := range ins[1:] {
			n := in[i].N == types.NullabilityNullable
			all, any = all && n, any || n
		}
		p := t.N == types.NullabilityNullable
		n := p
		switch op {
		case proto.SetRel_SET_OP_INTERSECTION_PRIMARY:
			n = p && any
		case proto.SetRel_SET_OP_INTERSECTION_MULTISET, proto.SetRel_SET_OP_INTERSECTION_MULTISET_ALL:
			n = p && all
		case proto.SetRel_SET_OP_UNION_ALL, proto.SetRel_SET_OP_UNION_DISTINCT:
			n = p || any
		}
		if n {
			out = append(out, t.With(types.NullabilityNullable))
		} else {
			out = append(out, t.With(types.NullabilityRequired))
		}
	}
	return
}

// AggOut is the output of an aggregate.
func AggOut(keys []*TS, sets [][]uint32, measures []*TS) (out []*TS) {
	for i, k := range keys {
		in := 0
		for _, s := range sets {
			for _, e := range s {
				if int(e) == i {
					in++
					break
				}
			}
		}
		if in < len(sets) {
			k = k.With(types.NullabilityNullable)
		}
		out = append(out, k)
	}
	out = append(out, measures...)
	if len(sets) > 1 {
		out = append(out, &TS{K: I32, N: types.NullabilityRequired})
	}
	return
}

// SetVary says whether set inputs may differ in nullability.
var SetVary = true

// AggSets is the number of grouping sets generated at most.
var AggSets = 3

func fref(p *proto.Expression_ReferenceSegment) *proto.Expression_FieldReference {
	return &proto.Expression_FieldReference{RootType: rootRef(), ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: p}}
}

func (g *PG) keys(l, r []*TS) (ks []*proto.ComparisonJoinKey, left, right []*proto.Expression_FieldReference) {
	if len(l) == 0 || len(r) == 0 {
		return
	}
	eq := true
	for i, n := 0, g.R.N(3); i < n; i++ {
		k := &proto.ComparisonJoinKey{}
		pl, _ := Path(g.R, Record(l), 1)
		pr, _ := Path(g.R, Record(r), 1)
		if pl == nil || pr == nil {
			continue
		}
		k.Left, k.Right = fref(pl), fref(pr)
		if g.R.P(1, 6) && g.XDepth > 0 {
			// a field of a value rather than of the input
			side, schema := &k.Left, l
			if g.R.Bool() {
				side, schema = &k.Right, r
			}
			xg := g.xg(schema)
			w := &TS{K: Struct, N: types.NullabilityRequired, Kids: []*TS{xg.Type(1), xg.Type(1)}}
			root := xg.Gen(g.XDepth, w)
			*side = fref(&proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_StructField_{StructField: &proto.Expression_ReferenceSegment_StructField{Field: int32(g.R.N(2))}}})
			(*side).RootType = &proto.Expression_FieldReference_Expression{Expression: root.P}
		}
		k.Comparison = &proto.ComparisonJoinKey_ComparisonType{InnerType: &proto.ComparisonJoinKey_ComparisonType_Simple{Simple: proto.ComparisonJoinKey_SIMPLE_COMPARISON_TYPE_EQ}}
		if g.R.P(1, 4) {
			eq = false
			if g.R.Bool() && len(g.Fns) > 0 {
				k.Comparison.InnerType = &proto.ComparisonJoinKey_ComparisonType_CustomFunctionReference{CustomFunctionReference: vk.Pick(g.R, g.Fns).Anchor}
			} else {
				k.Comparison.InnerType = &proto.ComparisonJoinKey_ComparisonType_Simple{Simple: proto.ComparisonJoinKey_SimpleComparisonType(2 + g.R.N(2))}
			}
		}
		ks = append(ks, k)
	}
	if eq {
		for _, k := range ks {
			left, right = append(left, k.Left), append(right, k.Right)
		}
	}
	return
}

var relKinds = []string{"filter", "fetch", "project", "project", "sort", "aggregate", "aggregate", "join", "join", "cross", "set", "hash-join", "merge-join", "write", "ext-single", "ext-multi", "ext-leaf", "table"}

// Rel makes a relation tree.
func (g *PG) Rel(depth int) *RX {
	r := g.R
	if depth <= 0 {
		if r.P(1, 10) && !g.NoExt {
			return g.rel("ext-leaf", 0)
		}
		return g.table(nil)
	}
	k := relKinds
	if g.Only != nil {
		k = g.Only
	}
	return g.rel(vk.Pick(r, k), depth)
}

func (g *PG) in(depth int) *RX { return g.Rel(depth - 1 - g.R.N(2)) }

func (g *PG) rel(kind string, depth int) *RX {
	r := g.R
	x := &RX{Kind: kind}
	if g.NoExt && len(kind) > 4 && kind[:4] == "ext-" {
		return g.table(nil)
	}
	one := func() (*RX, *XG) {
		i := g.in(depth)
		x.Ins = []*RX{i}
		if i.Out == nil {
			i.Out = []*TS{}
		}
		return i, g.xg(i.Out)
	}
	two := func() (*RX, *RX) {
		a, b := g.in(depth), g.in(depth)
		x.Ins = []*RX{a, b}
		return a, b
	}
	expr := func(e *X) *proto.Expression { x.Exprs = append(x.Exprs, e); return e.P }
	switch kind {
	case "table":
		return g.table(nil)
	case "filter":
		i, xg := one()
		x.Direct = i.Out
		x.P = &proto.Rel{RelType: &proto.Rel_Filter{Filter: &proto.FilterRel{Common: g.common(), Input: i.P, Condition: expr(xg.Gen(g.XDepth, g.bool())), AdvancedExtension: Adv(r)}}}
	case "fetch":
		i, _ := one()
		x.Direct = i.Out
		x.P = &proto.Rel{RelType: &proto.Rel_Fetch{Fetch: &proto.FetchRel{Common: g.common(), Input: i.P,
			OffsetMode: &proto.FetchRel_Offset{Offset: vk.PickOf(r, int64(0), 1, 1<<40)}, CountMode: &proto.FetchRel_Count{Count: vk.PickOf(r, int64(0), -1, 10)}, AdvancedExtension: Adv(r)}}}
	case "project":
		i, xg := one()
		x.Direct = append([]*TS{}, i.Out...)
		p := &proto.ProjectRel{Common: g.common(), Input: i.P, AdvancedExtension: Adv(r)}
		for n := 1 + r.N(3); n > 0; n-- {
			e := xg.Gen(g.XDepth, nil)
			p.Expressions = append(p.Expressions, expr(e))
			x.Direct = append(x.Direct, e.T)
		}
		x.P = &proto.Rel{RelType: &proto.Rel_Project{Project: p}}
	case "sort":
		i, xg := one()
		x.Direct = i.Out
		s, ops := xg.Sorts(g.XDepth, 1)
		x.Exprs = ops
		x.P = &proto.Rel{RelType: &proto.Rel_Sort{Sort: &proto.SortRel{Common: g.common(), Input: i.P, Sorts: s, AdvancedExtension: Adv(r)}}}
	case "aggregate":
		i, xg := one()
		a := &proto.AggregateRel{Common: g.common(), Input: i.P, AdvancedExtension: Adv(r)}
		var keys, ms []*TS
		var sets [][]uint32
		nk, agg := r.N(4), xg.HasAggregate()
		if nk == 0 && !agg {
			nk = 1
		}
		for j := 0; j < nk; j++ {
			e := xg.Gen(g.XDepth-1, nil)
			a.GroupingExpressions = append(a.GroupingExpressions, expr(e))
			keys = append(keys, e.T)
		}
		if nk > 0 {
			sets = make([][]uint32, 1+r.N(AggSets))
			for j := 0; j < nk; j++ {
				used := false
				for s := range sets {
					if r.P(2, 3) || !used && s == len(sets)-1 {
						sets[s] = append(sets[s], uint32(j))
						used = true
					}
				}
			}
			for s := range sets {
				if r.P(1, 4) {
					vk.Shuffle(r, sets[s])
				}
			}
		} else if r.P(1, 6) {
			sets = make([][]uint32, 1+r.N(AggSets))
		}
		for _, s := range sets {
			a.Groupings = append(a.Groupings, &proto.AggregateRel_Grouping{ExpressionReferences: s})
		}
		n := r.N(3)
		if nk == 0 && n == 0 {
			n = 1
		}
		for ; n > 0 && agg; n-- {
			t := xg.Type(1)
			f, ops := xg.Aggregate(g.XDepth-1, t)
			m := &proto.AggregateRel_Measure{Measure: f}
			x.Exprs = append(x.Exprs, ops...)
			if r.P(1, 3) {
				m.Filter = expr(xg.Gen(g.XDepth-1, g.bool()))
			}
			a.Measures = append(a.Measures, m)
			ms = append(ms, t)
		}
		x.Direct = AggOut(keys, sets, ms)
		x.P = &proto.Rel{RelType: &proto.Rel_Aggregate{Aggregate: a}}
	case "join":
		a, b := two()
		xg := g.xg(append(append([]*TS{}, a.Out...), b.Out...))
		jt := proto.JoinRel_JoinType(1 + r.N(12))
		j := &proto.JoinRel{Common: g.common(), Left: a.P, Right: b.P, Expression: expr(xg.Gen(g.XDepth, g.bool())), Type: jt, AdvancedExtension: Adv(r)}
		if r.P(1, 3) {
			j.PostJoinFilter = expr(xg.Gen(g.XDepth, g.bool()))
		}
		x.Direct = JoinOut(jt.String()[len("JOIN_TYPE_"):], a.Out, b.Out)
		x.P = &proto.Rel{RelType: &proto.Rel_Join{Join: j}}
		x.Kind = "join " + jt.String()[len("JOIN_TYPE_"):]
	case "cross":
		a, b := two()
		x.Direct = append(append([]*TS{}, a.Out...), b.Out...)
		x.P = &proto.Rel{RelType: &proto.Rel_Cross{Cross: &proto.CrossRel{Common: g.common(), Left: a.P, Right: b.P, AdvancedExtension: Adv(r)}}}
	case "hash-join", "merge-join":
		a, b := two()
		xg := g.xg(append(append([]*TS{}, a.Out...), b.Out...))
		ks, lk, rk := g.keys(a.Out, b.Out)
		jt := int32(1 + r.N(12))
		name := proto.HashJoinRel_JoinType(jt).String()[len("JOIN_TYPE_"):]
		x.Direct = JoinOut(name, a.Out, b.Out)
		x.Kind = kind + " " + name
		var pf *proto.Expression
		if r.P(1, 3) {
			pf = expr(xg.Gen(g.XDepth, g.bool()))
		}
		if kind == "hash-join" {
			x.P = &proto.Rel{RelType: &proto.Rel_HashJoin{HashJoin: &proto.HashJoinRel{Common: g.common(), Left: a.P, Right: b.P, Keys: ks, LeftKeys: lk, RightKeys: rk,
				PostJoinFilter: pf, Type: proto.HashJoinRel_JoinType(jt), BuildInput: proto.HashJoinRel_BuildInput(r.N(3)), AdvancedExtension: Adv(r)}}}
		} else {
			x.P = &proto.Rel{RelType: &proto.Rel_MergeJoin{MergeJoin: &proto.MergeJoinRel{Common: g.common(), Left: a.P, Right: b.P, Keys: ks, LeftKeys: lk, RightKeys: rk,
				PostJoinFilter: pf, Type: proto.MergeJoinRel_JoinType(jt), AdvancedExtension: Adv(r)}}}
		}
	case "set":
		op := proto.SetRel_SetOp(1 + r.N(8))
		s := &proto.SetRel{Common: g.common(), Op: op, AdvancedExtension: Adv(r)}
		first := g.in(depth)
		cols := [][]*TS{first.Out}
		x.Ins = []*RX{first}
		for n := 1 + r.N(3); n > 0; n-- {
			ts := make([]*TS, len(first.Out))
			for i, t := range first.Out {
				ts[i] = t
				if SetVary && r.P(1, 3) && t.K != Func {
					ts[i] = t.With(types.Nullability(1 + r.N(2)))
				}
			}
			sg := *g
			sg.EmitNum = -1
			var in *RX
			if r.P(1, 3) && len(first.Ins) == 0 && len(first.Emit) == 0 {
				in = first
			} else {
				sg.NoMask = true
				in = sg.table(ts)
			}
			x.Ins = append(x.Ins, in)
			cols = append(cols, in.Out)
		}
		for _, in := range x.Ins {
			s.Inputs = append(s.Inputs, in.P)
		}
		x.Direct = SetOut(op, cols)
		x.P = &proto.Rel{RelType: &proto.Rel_Set{Set: s}}
		x.Kind = "set " + op.String()[len("SET_OP_"):]
	case "write":
		i, _ := one()
		cols := i.Out
		if r.P(1, 3) {
			cols = g.Cols(r.N(4))
		}
		w := &proto.WriteRel{Common: g.common(), Input: i.P, TableSchema: Named(r, cols), Op: vk.PickOf(r, proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE, proto.WriteRel_WRITE_OP_UPDATE),
			Output: proto.WriteRel_OutputMode(1 + r.N(2)), CreateMode: proto.WriteRel_CreateMode(r.N(5)), AdvancedExtension: Adv(r)}
		t := &proto.NamedObjectWrite{AdvancedExtension: Adv(r)}
		for i, n := 0, r.N(3); i < n; i++ {
			t.Names = append(t.Names, vk.PickOf(r, "db", "t", ""))
		}
		w.WriteType = &proto.WriteRel_NamedTable{NamedTable: t}
		if g.NoOutput {
			w.Output = 0
		}
		if w.Output == proto.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS {
			x.Direct = cols
		}
		x.P = &proto.Rel{RelType: &proto.Rel_Write{Write: w}}
		x.Kind = "write " + w.Output.String()
	case "ext-single", "ext-multi", "ext-leaf":
		known := g.NoGuess || r.P(2, 3)
		var cols []*TS
		if known {
			cols = g.Cols(r.N(4))
			if cols == nil {
				cols = []*TS{}
			}
			x.Direct = cols
		} else {
			x.Guess = true
		}
		switch kind {
		case "ext-single":
			i, _ := one()
			if !known {
				x.Direct = i.Out
			}
			x.P = &proto.Rel{RelType: &proto.Rel_ExtensionSingle{ExtensionSingle: &proto.ExtensionSingleRel{Common: g.common(), Input: i.P, Detail: g.detail(cols)}}}
		case "ext-leaf":
			x.P = &proto.Rel{RelType: &proto.Rel_ExtensionLeaf{ExtensionLeaf: &proto.ExtensionLeafRel{Common: g.common(), Detail: g.detail(cols)}}}
		case "ext-multi":
			m := &proto.ExtensionMultiRel{Common: g.common(), Detail: g.detail(cols)}
			for n := r.N(4); n > 0; n-- {
				i := g.in(depth)
				x.Ins = append(x.Ins, i)
				m.Inputs = append(m.Inputs, i.P)
			}
			if !known && len(x.Ins) == 1 {
				x.Direct = x.Ins[0].Out
			}
			x.P = &proto.Rel{RelType: &proto.Rel_ExtensionMulti{ExtensionMulti: m}}
		}
	default:
		panic(kind)
	}
	return g.fin(x)
}
