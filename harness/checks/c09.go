package checks

import (
	"fmt"
	"slices"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C09"] = c09 }

// item is a relation of the pool with what the model says about it.
type item struct {
	rel  plan.Rel
	cols []*spec.TS
	p    *proto.Rel
	wr   bool // a write that modifies is somewhere in it: its output mode, and with it its columns, are lost when encoded (C04)
}

// bst is the state of one history of builder calls.
type bst struct {
	t    *vk.T
	r    *vk.R
	b    plan.Builder
	reg  expr.ExtensionRegistry
	g    *spec.PG
	pool []*item
	log  []string
	rets map[string]*spec.PD
	made *proto.Plan // the encoding of the last plan
}

// call is one builder call with the model's verdict: whether it is valid, or unspecified.
type call struct {
	key    string
	bad    string // what is wrong with it, if anything
	unspec bool
	item   item
	ins    []*item
	do     func() (plan.Rel, error)
}

func direct() *proto.RelCommon {
	return &proto.RelCommon{EmitKind: &proto.RelCommon_Direct_{Direct: &proto.RelCommon_Direct{}}}
}

// wrongest names one of the things wrong, for a key.
func (k *call) wrong(s string) {
	if k.bad == "" {
		k.bad = s
	}
}

func (s *bst) pick() *item { return vk.Pick(s.r, s.pool) }

// anchors declares functions with the builder.
func builderFns(r *vk.R, b plan.Builder) *decls {
	d := genFnDecls(r)
	for i := range d.Fns {
		d.Fns[i].Anchor = uint32(b.GetFunctionRef(d.Fns[i].URN, d.Fns[i].Name))
	}
	return d
}

func newBuilderState(t *vk.T) *bst {
	s := &bst{t: t, r: t.R, b: plan.NewBuilderDefault()}
	s.g = newPG(t.R, builderFns(t.R, s.b))
	c04tune(s.g)
	s.g.NoGuess, s.g.XDepth, s.g.SubDepth = true, t.R.N(3), t.R.N(2)
	s.reg = s.b.GetExprBuilder().Reg
	s.reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: s.reg})
	for u, d := range relDecoders {
		if err := s.reg.SetExtensionRelDecoder(u, d); err != nil {
			panic(err)
		}
	}
	t.Desc = func() string {
		l := append([]string{}, s.log...)
		slices.Reverse(l)
		return strings.Join(l, "\n")
	}
	return s
}

// expr decodes a generated expression over the columns.
func (s *bst) expr(x *spec.X, cols []*spec.TS) expr.Expression {
	e, err := expr.ExprFromProto(x.P, types.NewRecordTypeFromTypes(spec.Gos(cols)), s.reg)
	s.t.Must(err == nil && e != nil, "decode-expression", "%v: %v", x.P, err)
	return e
}

func (s *bst) gen(cols []*spec.TS, want *spec.TS) (*spec.X, expr.Expression) {
	x := s.g.XG(cols).Gen(s.r.N(s.g.XDepth+1), want)
	return x, s.expr(x, cols)
}

// decoded adds a relation decoded with the builder's registry.
func (s *bst) decoded() *item {
	x := s.g.Rel(s.r.N(2))
	rel, err := plan.RelFromProto(x.P, s.reg)
	s.t.Must(err == nil, "decode-relation", "%v: %v", x.P, err)
	it := &item{rel: rel, cols: x.Out, p: x.P}
	return it
}

// cond makes a condition; which may be invalid.
func (s *bst) cond(k *call, what string, cols []*spec.TS, null bool) (*proto.Expression, expr.Expression) {
	r := s.r
	if r.P(1, 8) {
		switch r.N(3) {
		case 0:
			if !null {
				k.wrong(what + "-nil")
			}
			return nil, nil
		case 1:
			k.unspec = true
			f := &proto.Expression_FieldReference{ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_StructField_{StructField: &proto.Expression_ReferenceSegment_StructField{Field: 1}}}},
				RootType: &proto.Expression_FieldReference_OuterReference_{OuterReference: &proto.Expression_FieldReference_OuterReference{StepsOut: 1}}}
			k.key += "+outer-" + what
			x := &spec.X{P: &proto.Expression{RexType: &proto.Expression_Selection{Selection: f}}}
			return x.P, s.expr(x, cols)
		default:
			if what == "measure-filter" {
				k.unspec = true // a test of the repository relies on it
			}
			k.wrong(what + "-not-boolean")
			t := s.g.XG(nil).Type(1)
			for t.K == spec.Bool {
				t = s.g.XG(nil).Type(1)
			}
			x, e := s.gen(cols, t)
			return x.P, e
		}
	}
	x, e := s.gen(cols, &spec.TS{K: spec.Bool, N: types.Nullability(1 + r.N(2))})
	return x.P, e
}

// remap chooses an output mapping of so many columns.
func (s *bst) remap(k *call, n int) (m []int32) {
	r := s.r
	if r.P(1, 2) {
		return nil
	}
	m = spec.Mapping(r, n)
	if r.P(1, 5) {
		i := r.N(len(m) + 1)
		bad := vk.PickOf(r, int32(n), int32(n), -1, int32(n+1), 1<<30, -1<<31)
		if r.Bool() && len(m) > 0 {
			m[r.N(len(m))] = bad
		} else {
			m = append(append(append([]int32{}, m[:i]...), bad), m[i:]...)
		}
		k.wrong("emit-range")
	}
	return m
}

// finish gives the built relation its mapping: the emit is over the direct columns.
func (k *call) finish(m []int32, viaRemap bool) {
	if k.bad != "" || m == nil {
		return
	}
	x := &spec.RX{P: k.item.p, Direct: k.item.cols}
	id := len(m) == len(k.item.cols)
	for i, j := range m {
		id = id && int(j) == i
	}
	if viaRemap && id && len(m) > 0 {
		return
	}
	x.SetEmit(m)
	k.item.cols = x.Out
}

// mapped calls the plain builder method and then Remap, or the variant with a mapping.
func (s *bst) mapped(k *call, n int, plain func() (plan.Rel, error), with func(m []int32) (plan.Rel, error)) {
	m := s.remap(k, n)
	if with == nil || s.r.Bool() {
		k.key += ".Remap"
		if m == nil {
			k.key = strings.TrimSuffix(k.key, ".Remap")
			k.do = plain
		} else {
			k.do = func() (plan.Rel, error) {
				x, err := plain()
				if err != nil {
					return nil, err
				}
				return x.Remap(m...)
			}
		}
		k.finish(m, true)
		return
	}
	k.key += "Remap"
	k.do = func() (plan.Rel, error) { return with(m) }
	k.finish(m, false)
}

func (s *bst) unary(k *call) *item {
	it := s.pick()
	if s.r.P(1, 15) {
		k.wrong("nil-input")
		return &item{p: it.p, cols: it.cols, wr: it.wr}
	}
	k.ins = append(k.ins, it)
	return it
}

func (s *bst) table() (names []string) {
	for i, n := 0, s.r.N(3); i < n; i++ {
		names = append(names, vk.PickOf(s.r, "db", "t", "é"))
	}
	return
}

// named makes a schema, possibly with a wrong number of names.
func (s *bst) named(k *call, cols []*spec.TS) (*proto.NamedStruct, types.NamedStruct) {
	p := spec.Named(s.r, cols)
	if k != nil && s.r.P(1, 8) {
		k.wrong("schema-names")
		p.Names = miscount(s.r, p.Names)
	}
	return p, types.NamedStruct{Names: p.Names, Struct: types.StructType{Nullability: types.NullabilityRequired, TypeVariationRef: p.Struct.TypeVariationReference, Types: spec.Gos(cols)}}
}

func miscount(r *vk.R, names []string) []string {
	if len(names) > 0 && r.Bool() {
		return append([]string{}, names[:r.N(len(names))]...)
	}
	return append(append([]string{}, names...), "extra")
}

func readRel(p *proto.NamedStruct, set func(*proto.ReadRel)) *proto.Rel {
	rr := &proto.ReadRel{Common: direct(), BaseSchema: p}
	set(rr)
	return &proto.Rel{RelType: &proto.Rel_Read{Read: rr}}
}

func up[R plan.Rel](x R, err error) (plan.Rel, error) { return x, err }

func (s *bst) leaf() *call {
	r := s.r
	k := &call{}
	cols := s.g.Cols(r.N(4))
	switch r.N(7) {
	case 0:
		k.key = "NamedScan"
		names := s.table()
		p, ns := s.named(nil, cols)
		k.item.p, k.item.cols = readRel(p, func(rr *proto.ReadRel) {
			rr.ReadType = &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: names}}
		}), cols
		s.mapped(k, len(cols), func() (plan.Rel, error) { return s.b.NamedScan(names, ns), nil }, func(m []int32) (plan.Rel, error) { return up(s.b.NamedScanRemap(names, ns, m)) })
	case 1, 2:
		s.virtual(k, cols)
	case 3:
		k.key = "EmptyVirtualTable"
		p, ns := s.named(k, cols)
		p.Struct.TypeVariationReference = 0
		k.item.p, k.item.cols = readRel(p, func(rr *proto.ReadRel) {
			rr.ReadType = &proto.ReadRel_VirtualTable_{VirtualTable: &proto.ReadRel_VirtualTable{}}
		}), cols
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(s.b.EmptyVirtualTable(ns.Names, ns.Struct.Types)) }, nil)
	case 4:
		k.key = "ExtensionTable"
		a := spec.Any(r)
		p, ns := s.named(nil, cols)
		k.item.p, k.item.cols = readRel(p, func(rr *proto.ReadRel) {
			rr.ReadType = &proto.ReadRel_ExtensionTable_{ExtensionTable: &proto.ReadRel_ExtensionTable{Detail: a}}
		}), cols
		s.mapped(k, len(cols), func() (plan.Rel, error) { return s.b.ExtensionTable(a, ns), nil }, nil)
	case 5:
		k.key = "IcebergTableFromMetadataFile"
		m := &proto.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: vk.PickOf(r, "", "s3://m")}
		var snap plan.IcebergSnapshot
		switch r.N(3) {
		case 0:
			id := vk.PickOf(r, "1", "abc", "")
			m.Snapshot, snap = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: id}, plan.SnapshotId(id)
		case 1:
			ts := vk.PickOf(r, int64(0), 1, -5, 1<<62)
			m.Snapshot, snap = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: ts}, plan.SnapshotTimestamp(ts)
		}
		p, ns := s.named(k, cols)
		k.item.p, k.item.cols = readRel(p, func(rr *proto.ReadRel) {
			rr.ReadType = &proto.ReadRel_IcebergTable_{IcebergTable: &proto.ReadRel_IcebergTable{TableType: &proto.ReadRel_IcebergTable_Direct{Direct: m}}}
		}), cols
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(s.b.IcebergTableFromMetadataFile(m.MetadataUri, snap, ns)) }, nil)
	case 6:
		k.key = "ExtensionLeaf"
		def, d := s.def(k, cols)
		k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_ExtensionLeaf{ExtensionLeaf: &proto.ExtensionLeafRel{Common: direct(), Detail: d}}}, cols
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(s.b.ExtensionLeaf(def)) }, nil)
	}
	return k
}

func (s *bst) def(k *call, cols []*spec.TS) (plan.ExtensionRelDefinition, *anypb.Any) {
	if cols == nil {
		cols = []*spec.TS{}
	}
	d := s.g.Detail(cols)
	if s.r.P(1, 12) {
		k.wrong("nil-definition")
		return nil, d
	}
	return &knownDef{detail: d, cols: spec.Gos(cols)}, d
}

func (s *bst) virtual(k *call, cols []*spec.TS) {
	r := s.r
	lits := r.Bool()
	if lits {
		for i := range cols {
			cols[i] = spec.GenLitType(r, 2)
		}
		k.key = "VirtualTable"
	} else {
		k.key = "VirtualTableFromExpr"
	}
	p := spec.Named(r, cols)
	p.Struct.TypeVariationReference = 0
	vt := &proto.ReadRel_VirtualTable{}
	var rows []expr.VirtualTableExpressionValue
	var lrows []expr.StructLiteralValue
	for n := 1 + r.N(3); n > 0; n-- {
		row := &proto.Expression_Nested_Struct{}
		var er expr.VirtualTableExpressionValue
		var lr expr.StructLiteralValue
		for _, c := range cols {
			if lits {
				l := spec.GenLit(r, c)
				e := expr.LiteralFromProto(l.Proto())
				s.t.Must(e != nil, "literal", "%v", l.Proto())
				lr = append(lr, e)
				row.Fields = append(row.Fields, e.ToProto())
			} else {
				x, e := s.gen(nil, c)
				er = append(er, e)
				row.Fields = append(row.Fields, x.P)
			}
		}
		vt.Expressions = append(vt.Expressions, row)
		rows, lrows = append(rows, er), append(lrows, lr)
	}
	if r.P(1, 3) {
		i := r.N(len(rows))
		mut := vk.PickOf(r, "no-rows", "short-row", "long-row", "nil-value", "wrong-type", "names", "names")
		x := s.g.XG(nil).Gen(0, &spec.TS{K: spec.I8, N: types.NullabilityRequired})
		lit, _ := s.expr(x, nil).(expr.Literal)
		if lit == nil {
			lit = expr.NewPrimitiveLiteral(int8(1), false)
		}
		add := func(at int, v expr.Literal, set bool) {
			if set {
				if lits {
					lrows[i] = append(expr.StructLiteralValue{}, lrows[i]...)
					lrows[i][at] = v
				} else {
					rows[i] = append(expr.VirtualTableExpressionValue{}, rows[i]...)
					if v == nil {
						rows[i][at] = nil
					} else {
						rows[i][at] = v
					}
				}
				return
			}
			lrows[i] = append(lrows[i], v)
			rows[i] = append(rows[i], v)
		}
		where := vk.PickOf(r, "", "")
		if i > 0 {
			where = "-later"
		}
		switch mut {
		case "no-rows":
			rows, lrows = nil, nil
			k.wrong(mut)
		case "short-row":
			if len(cols) > 0 {
				if lits {
					lrows[i] = lrows[i][:len(cols)-1]
				} else {
					rows[i] = rows[i][:len(cols)-1]
				}
				k.wrong(mut + where)
			}
		case "long-row":
			add(0, lit, false)
			k.wrong(mut + where)
		case "nil-value":
			if len(cols) > 0 {
				add(r.N(len(cols)), nil, true)
				k.wrong(mut + where)
			}
		case "wrong-type":
			j := 0
			if len(cols) > 0 {
				j = r.N(len(cols))
			}
			if len(rows) > 1 && len(cols) > 0 && cols[j].K != spec.I8 {
				add(j, lit, true)
				k.wrong(mut + where)
			}
		case "names":
			p.Names = miscount(r, p.Names)
			k.wrong(mut)
		}
	}
	k.item.p, k.item.cols = readRel(p, func(rr *proto.ReadRel) {
		rr.ReadType = &proto.ReadRel_VirtualTable_{VirtualTable: vt}
	}), cols
	if lits {
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(s.b.VirtualTable(p.Names, lrows...)) }, func(m []int32) (plan.Rel, error) { return up(s.b.VirtualTableRemap(p.Names, m, lrows...)) })
	} else {
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(s.b.VirtualTableFromExpr(p.Names, rows...)) }, func(m []int32) (plan.Rel, error) { return up(s.b.VirtualTableFromExprRemap(p.Names, m, rows...)) })
	}
}

func cat(a, b []*spec.TS) []*spec.TS { return append(append([]*spec.TS{}, a...), b...) }

func (s *bst) inner() *call {
	r, b := s.r, s.b
	k := &call{}
	switch r.N(14) {
	case 0:
		k.key = "Project"
		in := s.unary(k)
		cols := append([]*spec.TS{}, in.cols...)
		p := &proto.ProjectRel{Common: direct(), Input: in.p}
		var es []expr.Expression
		for n := r.N(4); n > 0; n-- {
			x, e := s.gen(in.cols, nil)
			p.Expressions, es, cols = append(p.Expressions, x.P), append(es, e), append(cols, x.T)
		}
		if len(es) == 0 {
			k.wrong("no-expression")
		} else if r.P(1, 12) {
			es[r.N(len(es))] = nil
			k.wrong("nil-expression")
		}
		k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_Project{Project: p}}, cols
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(b.Project(in.rel, es...)) }, func(m []int32) (plan.Rel, error) { return up(b.ProjectRemap(in.rel, m, es...)) })
	case 1:
		k.key = "Fetch"
		in := s.unary(k)
		off, n := vk.PickOf(r, int64(0), 1, 1<<40), vk.PickOf(r, int64(0), -1, 7, 1<<50)
		if r.P(1, 8) {
			off = vk.PickOf(r, int64(-1), -1<<63)
			k.wrong("negative-offset")
		}
		if r.P(1, 8) {
			n = vk.PickOf(r, int64(-2), -1<<63)
			k.wrong("negative-count")
		}
		k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_Fetch{Fetch: &proto.FetchRel{Common: direct(), Input: in.p, OffsetMode: &proto.FetchRel_Offset{Offset: off}, CountMode: &proto.FetchRel_Count{Count: n}}}}, in.cols
		s.mapped(k, len(in.cols), func() (plan.Rel, error) { return up(b.Fetch(in.rel, off, n)) }, func(m []int32) (plan.Rel, error) { return up(b.FetchRemap(in.rel, off, n, m)) })
	case 2, 3:
		k.key = "Filter"
		in := s.unary(k)
		p, e := s.cond(k, "condition", in.cols, false)
		k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_Filter{Filter: &proto.FilterRel{Common: direct(), Input: in.p, Condition: p}}}, in.cols
		s.mapped(k, len(in.cols), func() (plan.Rel, error) { return up(b.Filter(in.rel, e)) }, func(m []int32) (plan.Rel, error) { return up(b.FilterRemap(in.rel, e, m)) })
	case 4:
		k.key = "Sort"
		in := s.unary(k)
		var ss []expr.SortField
		p := &proto.SortRel{Common: direct(), Input: in.p}
		if r.P(1, 3) && in.rel != nil && len(in.cols) > 0 {
			var idx []int32
			for n := 1 + r.N(3); n > 0; n-- {
				i := r.N(len(in.cols))
				idx = append(idx, int32(i))
				p.Sorts = append(p.Sorts, &proto.SortField{Expr: spec.RootRef(i), SortKind: &proto.SortField_Direction{Direction: proto.SortField_SORT_DIRECTION_ASC_NULLS_LAST}})
			}
			var err error
			if !s.t.NoPanic("SortFields", func() { ss, err = b.SortFields(in.rel, idx...) }) {
				return nil
			}
			s.t.Must(err == nil && len(ss) == len(idx), "SortFields", "SortFields(%v) of %d columns: %v", idx, len(in.cols), err)
			k.key = "Sort"
		} else {
			for n := r.N(4); n > 0; n-- {
				x, e := s.gen(in.cols, nil)
				f := expr.SortField{Expr: e, Kind: types.SortDirection(1 + r.N(5))}
				q := &proto.SortField{Expr: x.P, SortKind: &proto.SortField_Direction{Direction: proto.SortField_SortDirection(f.Kind.(types.SortDirection))}}
				if r.P(1, 5) && len(s.g.Fns) > 0 {
					a := vk.Pick(r, s.g.Fns).Anchor
					f.Kind = types.FunctionRef(a)
					q.SortKind = &proto.SortField_ComparisonFunctionReference{ComparisonFunctionReference: a}
				}
				ss, p.Sorts = append(ss, f), append(p.Sorts, q)
			}
		}
		if len(ss) == 0 {
			k.wrong("no-field")
		} else if r.P(1, 12) {
			ss[r.N(len(ss))].Expr = nil
			k.wrong("nil-expression")
		}
		k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_Sort{Sort: p}}, in.cols
		s.mapped(k, len(in.cols), func() (plan.Rel, error) { return up(b.Sort(in.rel, ss...)) }, func(m []int32) (plan.Rel, error) { return up(b.SortRemap(in.rel, m, ss...)) })
	case 5, 6, 7:
		s.aggregate(k)
	case 8:
		k.key = "Cross"
		l, q := s.unary(k), s.unary(k)
		k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_Cross{Cross: &proto.CrossRel{Common: direct(), Left: l.p, Right: q.p}}}, cat(l.cols, q.cols)
		s.mapped(k, len(k.item.cols), func() (plan.Rel, error) { return up(b.Cross(l.rel, q.rel)) }, func(m []int32) (plan.Rel, error) { return up(b.CrossRemap(l.rel, q.rel, m)) })
	case 9, 10:
		l, q := s.unary(k), s.unary(k)
		all := cat(l.cols, q.cols)
		jt := proto.JoinRel_JoinType(1 + r.N(12))
		if r.P(1, 15) {
			jt = vk.PickOf(r, proto.JoinRel_JOIN_TYPE_UNSPECIFIED, 0, 13, -1, 1<<20)
			k.wrong("join-type")
			if jt != 0 {
				k.bad = "join-type-unknown"
			}
		}
		k.key = "Join"
		p, e := s.cond(k, "condition", all, false)
		j := &proto.JoinRel{Common: direct(), Left: l.p, Right: q.p, Expression: p, Type: jt}
		if k.bad == "" || jt >= 1 && jt <= 12 {
			k.item.cols = spec.JoinOut(jt.String()[len("JOIN_TYPE_"):], l.cols, q.cols)
		}
		k.item.p = &proto.Rel{RelType: &proto.Rel_Join{Join: j}}
		if r.Bool() {
			k.key = "JoinAndFilter"
			fp, fe := s.cond(k, "post-filter", all, true)
			j.PostJoinFilter = fp
			s.mapped(k, len(k.item.cols), func() (plan.Rel, error) { return up(b.JoinAndFilter(l.rel, q.rel, e, fe, jt)) }, func(m []int32) (plan.Rel, error) { return up(b.JoinAndFilterRemap(l.rel, q.rel, e, fe, jt, m)) })
		} else {
			s.mapped(k, len(k.item.cols), func() (plan.Rel, error) { return up(b.Join(l.rel, q.rel, e, jt)) }, func(m []int32) (plan.Rel, error) { return up(b.JoinRemap(l.rel, q.rel, e, jt, m)) })
		}
	case 11:
		k.key = "Set"
		op := proto.SetRel_SetOp(1 + r.N(8))
		if r.P(1, 12) {
			op = vk.PickOf(r, proto.SetRel_SET_OP_UNSPECIFIED, 0, 9, -1)
			k.wrong("operation")
			if op != 0 {
				k.bad = "operation-unknown"
			}
		}
		first := s.pick()
		ins := []*item{first}
		for n := 1 + r.N(2); n > 0; n-- {
			if r.P(1, 4) {
				ins = append(ins, first)
				continue
			}
			ts := make([]*spec.TS, len(first.cols))
			for i, c := range first.cols {
				ts[i] = c
				if r.P(1, 3) && c.K != spec.Func {
					ts[i] = c.With(types.Nullability(1 + r.N(2)))
				}
			}
			ins = append(ins, s.scan(ts))
		}
		switch r.N(14) {
		case 0:
			ins = ins[:r.N(2)]
			k.wrong("few-inputs")
		case 1:
			ins[r.N(len(ins))] = &item{p: first.p, cols: first.cols}
			k.wrong("nil-input")
		case 2:
			ts := append([]*spec.TS{}, first.cols...)
			if len(ts) > 0 && r.Bool() {
				i := r.N(len(ts))
				ts[i] = &spec.TS{K: spec.Date, N: types.NullabilityRequired}
				if first.cols[i].K == spec.Date {
					ts[i].K = spec.Time
				}
			} else {
				ts = append(ts, &spec.TS{K: spec.Date, N: types.NullabilityRequired})
			}
			ins[1+r.N(len(ins)-1)] = s.scan(ts)
			k.wrong("columns")
		}
		p := &proto.SetRel{Common: direct(), Op: op}
		var rels []plan.Rel
		var cols [][]*spec.TS
		for _, i := range ins {
			p.Inputs, rels, cols = append(p.Inputs, i.p), append(rels, i.rel), append(cols, i.cols)
			k.item.wr = k.item.wr || i.wr
			if i.rel != nil {
				k.ins = append(k.ins, i)
			}
		}
		if k.bad == "" {
			k.item.cols = spec.SetOut(op, cols)
		} else {
			k.item.cols = first.cols
		}
		k.item.p = &proto.Rel{RelType: &proto.Rel_Set{Set: p}}
		s.mapped(k, len(first.cols), func() (plan.Rel, error) { return up(b.Set(op, rels...)) }, func(m []int32) (plan.Rel, error) { return up(b.SetRemap(op, m, rels...)) })
	case 12:
		s.write(k)
	case 13:
		cols := s.g.Cols(r.N(4))
		def, d := s.def(k, cols)
		if r.Bool() {
			k.key = "ExtensionSingle"
			in := s.unary(k)
			k.item.p = &proto.Rel{RelType: &proto.Rel_ExtensionSingle{ExtensionSingle: &proto.ExtensionSingleRel{Common: direct(), Input: in.p, Detail: d}}}
			k.item.cols = cols
			s.mapped(k, len(cols), func() (plan.Rel, error) { return up(b.ExtensionSingle(in.rel, def)) }, nil)
		} else {
			k.key = "ExtensionMulti"
			p := &proto.ExtensionMultiRel{Common: direct(), Detail: d}
			var rels []plan.Rel
			for n := r.N(4); n > 0; n-- {
				in := s.unary(k)
				p.Inputs, rels = append(p.Inputs, in.p), append(rels, in.rel)
			}
			if len(rels) == 0 {
				k.wrong("no-input")
			}
			k.item.p, k.item.cols = &proto.Rel{RelType: &proto.Rel_ExtensionMulti{ExtensionMulti: p}}, cols
			s.mapped(k, len(cols), func() (plan.Rel, error) { return up(b.ExtensionMulti(rels, def)) }, nil)
		}
	}
	return k
}

// scan is a read of exactly the columns.
func (s *bst) scan(cols []*spec.TS) *item {
	p, ns := s.named(nil, cols)
	return &item{rel: s.b.NamedScan([]string{"s"}, ns), cols: cols, p: readRel(p, func(rr *proto.ReadRel) {
		rr.ReadType = &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{"s"}}}
	})}
}

func (s *bst) write(k *call) {
	r, b := s.r, s.b
	in := s.unary(k)
	cols := in.cols
	if r.Bool() {
		cols = s.g.Cols(r.N(3))
	}
	names := s.table()
	p, ns := s.named(k, cols)
	w := &proto.WriteRel{Common: direct(), Input: in.p, TableSchema: p, WriteType: &proto.WriteRel_NamedTable{NamedTable: &proto.NamedObjectWrite{Names: names}}}
	k.item.p = &proto.Rel{RelType: &proto.Rel_Write{Write: w}}
	switch r.N(4) {
	case 0:
		k.key, w.Op = "CreateTableAsSelect", proto.WriteRel_WRITE_OP_CTAS
		k.item.cols, k.item.wr = cols, true
		s.mapped(k, len(cols), func() (plan.Rel, error) { return up(b.CreateTableAsSelect(in.rel, names, ns)) }, func(m []int32) (plan.Rel, error) {
			return up(b.CreateTableAsSelectRemap(in.rel, m, names, ns))
		})
	case 1:
		k.key, w.Op = "NamedInsert", proto.WriteRel_WRITE_OP_INSERT
		s.mapped(k, 0, func() (plan.Rel, error) { return up(b.NamedInsert(in.rel, names, ns)) }, nil)
	case 2:
		k.key, w.Op = "NamedDelete", proto.WriteRel_WRITE_OP_DELETE
		s.mapped(k, 0, func() (plan.Rel, error) { return up(b.NamedDelete(in.rel, names, ns)) }, nil)
	case 3:
		k.key, w.Op = "NamedWrite", proto.WriteRel_WriteOp(1+r.N(4))
		s.mapped(k, 0, func() (plan.Rel, error) { return up(b.NamedWrite(in.rel, w.Op, names, ns)) }, func(m []int32) (plan.Rel, error) {
			return up(b.NamedWriteRemap(in.rel, w.Op, names, ns, m))
		})
	}
}

func (s *bst) aggregate(k *call) {
	r, b := s.r, s.b
	in := s.unary(k)
	xg := s.g.XG(in.cols)
	a := &proto.AggregateRel{Common: direct(), Input: in.p}
	k.item.p = &proto.Rel{RelType: &proto.Rel_Aggregate{Aggregate: a}}
	var ms []plan.AggRelMeasure
	var mts []*spec.TS
	if xg.HasAggregate() {
		for n := r.N(3); n > 0; n-- {
			t := xg.Type(1)
			f, _ := xg.Aggregate(s.g.XDepth-1, t)
			fn, err := expr.NewAggregateFunctionFromProto(f, types.NewRecordTypeFromTypes(spec.Gos(in.cols)), s.reg)
			s.t.Must(err == nil, "decode-aggregate", "%v: %v", f, err)
			m := &proto.AggregateRel_Measure{Measure: f}
			var flt expr.Expression
			if r.P(1, 3) {
				m.Filter, flt = s.cond(k, "measure-filter", in.cols, true)
			}
			if r.P(1, 20) {
				fn = nil
				k.wrong("nil-measure")
			}
			a.Measures, ms, mts = append(a.Measures, m), append(ms, b.Measure(fn, flt)), append(mts, t)
		}
	}
	var keys []*spec.TS
	var sets [][]uint32
	group := func(refs []uint32) {
		sets = append(sets, refs)
		a.Groupings = append(a.Groupings, &proto.AggregateRel_Grouping{ExpressionReferences: refs})
	}
	var build func() (plan.Rel, error)
	switch r.N(4) {
	case 0:
		k.key = "AggregateColumns"
		var cols []int32
		var refs []uint32
		if in.cols == nil || len(in.cols) == 0 {
			break
		}
		for n := r.N(4); n > 0; n-- {
			c := r.N(len(in.cols))
			cols, refs = append(cols, int32(c)), append(refs, uint32(len(refs)))
			a.GroupingExpressions = append(a.GroupingExpressions, spec.RootRef(c))
			keys = append(keys, in.cols[c])
		}
		if len(cols) > 0 {
			group(refs)
			if r.P(1, 8) {
				cols[r.N(len(cols))] = vk.PickOf(r, -1, int32(len(in.cols)), int32(len(in.cols)), 1<<20)
				k.wrong("column-range")
			}
		}
		build = func() (plan.Rel, error) { return up(b.AggregateColumns(in.rel, ms, cols...)) }
	case 1:
		k.key = "AggregateExprs"
		var gs [][]expr.Expression
		for n := r.N(3); n > 0; n-- {
			var es []expr.Expression
			var refs []uint32
			for m := r.N(3); m > 0; m-- {
				x, e := s.gen(in.cols, nil)
				if r.P(1, 20) {
					e = nil
					k.wrong("nil-grouping")
				}
				es, refs = append(es, e), append(refs, uint32(len(keys)))
				a.GroupingExpressions = append(a.GroupingExpressions, x.P)
				keys = append(keys, x.T)
			}
			gs = append(gs, es)
			group(refs)
		}
		build = func() (plan.Rel, error) { return up(b.AggregateExprs(in.rel, ms, gs...)) }
	}
	if build == nil {
		k.key = "AggregateRelBuilder"
		var ops []func(*plan.AggregateRelBuilder) error
		var got []uint32
		var want []uint32
		nilKey := false
		for n := r.N(4); n > 0; n-- {
			x, e := s.gen(in.cols, nil)
			if r.P(1, 20) {
				e = nil
				k.wrong("nil-grouping")
			}
			j := uint32(len(keys))
			nilKey = nilKey || e == nil
			a.GroupingExpressions, keys, want = append(a.GroupingExpressions, x.P), append(keys, x.T), append(want, j)
			ops = append(ops, func(ab *plan.AggregateRelBuilder) error { got = append(got, ab.AddExpression(e)); return nil })
			if r.P(1, 4) && e != nil {
				want = append(want, j)
				ops = append(ops, func(ab *plan.AggregateRelBuilder) error { got = append(got, ab.AddExpression(e)); return nil })
			}
		}
		for n := r.N(3); n > 0 && (len(keys) > 0 || len(ms) > 0); n-- {
			var refs []uint32
			for j := range keys {
				if r.P(2, 3) {
					refs = append(refs, uint32(j))
				}
			}
			vk.Shuffle(r, refs)
			if r.P(1, 12) {
				refs = append(refs, vk.PickOf(r, uint32(len(keys)), uint32(len(keys)), 1<<31))
				k.wrong("grouping-range")
			}
			switch r.N(3) {
			case 0:
				group(refs)
				ops = append(ops, func(ab *plan.AggregateRelBuilder) error { ab.AddGroupingSet(refs); return nil })
			case 1:
				for m := len(refs); m > 0; m-- {
					group(refs[:m:m])
				}
				ops = append(ops, func(ab *plan.AggregateRelBuilder) error { ab.AddRollup(refs); return nil })
			case 2:
				if r.P(1, 10) {
					for len(refs) < 21 {
						refs = append(refs, 0)
					}
					k.wrong("cube-size")
				} else {
					for c := 1; c < 1<<len(refs); c++ {
						var q []uint32
						for j, e := range refs {
							if c&(1<<j) != 0 {
								q = append(q, e)
							}
						}
						group(q)
					}
				}
				ops = append(ops, func(ab *plan.AggregateRelBuilder) error { return ab.AddCube(refs) })
			}
		}
		replace, clearM := r.P(1, 8), r.P(1, 10)
		if clearM {
			a.Measures, mts = nil, nil
			if k.bad == "nil-measure" || strings.HasPrefix(k.bad, "measure-filter") {
				k.unspec = true // what else is wrong is not known
			}
		}
		if r.P(1, 12) {
			keys, sets, a.GroupingExpressions, a.Groupings = nil, nil, nil, nil
			ops = append(ops, func(ab *plan.AggregateRelBuilder) error { ab.ClearGrouping(); return nil })
			if strings.Contains(k.bad, "grouping") {
				k.unspec = true
			}
		}
		build = func() (plan.Rel, error) {
			got = nil
			first := in.rel
			if replace {
				first = s.pool[0].rel
			}
			ab := b.GetRelBuilder().AggregateRel(first, ms)
			for _, o := range ops {
				if err := o(ab); err != nil {
					return nil, err
				}
			}
			s.t.Check(nilKey || fmt.Sprint(got) == fmt.Sprint(want), "AddExpression", "AddExpression gave %v, want %v", got, want)
			if replace {
				ab.ReplaceInput(&in.rel)
			}
			if clearM {
				ab.ClearMeasures()
			}
			return up(ab.Build())
		}
	}
	if len(a.Measures) == 0 && len(keys) == 0 {
		k.wrong("nothing")
	}
	if len(a.Measures) == 0 && len(sets) == 0 {
		k.wrong("nothing")
	}
	used := map[uint32]bool{}
	for _, q := range sets {
		for _, e := range q {
			used[e] = true
		}
	}
	if len(used) < len(keys) {
		k.unspec = true // grouping expressions nobody groups by
	}
	k.item.cols = spec.AggOut(keys, sets, mts)
	s.mapped(k, len(k.item.cols), build, nil)
}

// run does the call and compares with the model.
func (s *bst) run(k *call) {
	t := s.t
	verdict := "valid"
	if k.bad != "" {
		verdict = k.bad
	}
	if k.unspec {
		verdict = "unspecified"
	}
	s.log = append(s.log, fmt.Sprintf("%s: %s %v", k.key, verdict, k.item.p))
	t.Phase = k.key
	var rel plan.Rel
	var err error
	base := strings.TrimSuffix(strings.TrimSuffix(k.key, ".Remap"), "Remap")
	if !t.NoPanic(base+":"+verdict, func() { rel, err = k.do() }) {
		t.Stop()
	}
	t.Count(1)
	for _, i := range k.ins {
		k.item.wr = k.item.wr || i.wr
	}
	if k.unspec {
		if err == nil {
			t.NoPanic("use:"+base, func() {
				rel.RecordType()
				rel.ToProto()
			})
		}
		return
	}
	if k.bad != "" {
		key := base
		if k.bad == "emit-range" {
			key = k.key
		}
		t.Must(err != nil, key+":"+k.bad, "accepted")
		t.Obs(k.key, k.bad)
		return
	}
	t.Must(err == nil, k.key+":rejected", "a valid call is rejected: %v", err)
	k.item.rel = rel
	if s.judge(&k.item, k.key) {
		s.pool = append(s.pool, &k.item)
		var ins []string
		for _, i := range k.ins {
			ins = append(ins, fmt.Sprintf("%T", i.rel))
		}
		t.Obs(k.key, strings.Join(ins, ","), len(k.item.cols), len(rel.OutputMapping()))
	}
	gi := rel.GetInputs()
	ok := len(gi) == len(k.ins)
	for i := range gi {
		ok = ok && i < len(k.ins) && gi[i] == k.ins[i].rel
	}
	t.Check(ok, k.key+":inputs", "%d inputs, or not those given", len(gi))
}

func (s *bst) judge(it *item, key string) bool {
	t := s.t
	var rt types.RecordType
	var q *proto.Rel
	if !t.NoPanic(key+":RecordType", func() { rt = it.rel.RecordType() }) || !t.NoPanic(key+":ToProto", func() { q = it.rel.ToProto() }) {
		t.Stop()
	}
	a := t.Check(sameCols(rt, it.cols), key+":columns", "the columns are %v, want %v", &rt, it.cols)
	b := t.Check(pb.Equal(q, it.p), key+":encoding:"+diffPath(it.p.ProtoReflect(), q.ProtoReflect()), "the encoding differs\n%v", pdiff(it.p, q))
	return a && b
}

// refs asks for field references into a relation, or into a pair.
func (s *bst) refs() {
	r, t := s.r, s.t
	it := s.pick()
	cols := it.cols
	idx := func() int32 {
		return vk.PickOf(r, 0, int32(r.N(len(cols)+1)), int32(r.N(len(cols)+1)), int32(len(cols))-1, int32(len(cols)), -1, int32(len(cols))+1, 1<<31-1, -1<<31)
	}
	valid := func(i int32) bool { return i >= 0 && int(i) < len(cols) }
	check := func(what string, i int32, e *expr.FieldReference, err error) {
		if !t.Check((err == nil) == valid(i), what+":range", "index %d of %d columns: %v", i, len(cols), err) || err != nil {
			return
		}
		t.Check(pb.Equal(e.ToProto(), spec.RootRef(int(i))), what+":encoding", "index %d is %v", i, e.ToProto())
		t.Check(pb.Equal(types.TypeToProto(e.GetType()), cols[i].Proto()), what+":type", "column %d of %v has type %v", i, cols, e.GetType())
		t.Obs(what, len(cols), i)
	}
	switch r.N(4) {
	case 0:
		i := idx()
		var e *expr.FieldReference
		var err error
		if t.NoPanic("RootFieldRef", func() { e, err = s.b.RootFieldRef(it.rel, i) }) {
			check("RootFieldRef", i, e, err)
		}
	case 1:
		o := s.pick()
		n := len(it.cols)
		cols = cat(it.cols, o.cols)
		i := idx()
		if r.P(1, 4) {
			i = int32(n)
		}
		var e *expr.FieldReference
		var err error
		if t.NoPanic("JoinedRecordFieldRef", func() { e, err = s.b.JoinedRecordFieldRef(it.rel, o.rel, i) }) {
			check("JoinedRecordFieldRef", i, e, err)
		}
	case 2:
		var is []int32
		bad := false
		for n := r.N(4); n > 0; n-- {
			i := idx()
			is = append(is, i)
			bad = bad || !valid(i)
		}
		var ss []expr.SortField
		var err error
		if t.NoPanic("SortFields", func() { ss, err = s.b.SortFields(it.rel, is...) }) {
			if t.Check((err != nil) == bad, "SortFields:range", "%v of %d columns: %v", is, len(cols), err) && err == nil {
				t.Must(len(ss) == len(is), "SortFields:count", "%d fields", len(ss))
				for i, f := range ss {
					q := f.ToProto()
					t.Check(pb.Equal(q, &proto.SortField{Expr: spec.RootRef(int(is[i])), SortKind: &proto.SortField_Direction{Direction: proto.SortField_SORT_DIRECTION_ASC_NULLS_LAST}}), "SortFields:encoding", "%v", q)
				}
			}
		}
	case 3:
		var err error
		l, q := it.rel, it.rel
		if r.Bool() {
			l = nil
		} else {
			q = nil
		}
		if t.NoPanic("RootFieldRef:nil-input", func() { _, err = s.b.RootFieldRef(nil, 0) }) {
			t.Check(err != nil, "RootFieldRef:nil-input", "accepted")
		}
		if t.NoPanic("SortFields:nil-input", func() { _, err = s.b.SortFields(nil, 0) }) {
			t.Check(err != nil, "SortFields:nil-input", "accepted")
		}
		if t.NoPanic("JoinedRecordFieldRef:nil-input", func() { _, err = s.b.JoinedRecordFieldRef(l, q, 0) }) {
			t.Check(err != nil, "JoinedRecordFieldRef:nil-input", "accepted")
		}
	}
}

// litType says whether literals of the type can be generated.
func litType(t *spec.TS) bool {
	switch t.K {
	case spec.PTime, spec.PTimestamp, spec.PTimestampTz, spec.IntervalDay, spec.IntervalCompound:
		if t.Len > 9 || t.Prec > 9 {
			return false
		}
	}
	if t.Len < 0 || t.Len > 100 || t.Prec < 0 || t.Prec > 38 || t.Scal < 0 || t.Scal > t.Prec || !spec.Litable(t) || t.N == types.NullabilityUnspecified || t.K == spec.UDT || t.K == spec.Func {
		return false
	}
	for _, k := range t.Kids {
		if !litType(k) {
			return false
		}
	}
	return true
}

// function builds a call of a function of the collection.
func (s *bst) function() {
	r, t := s.r, s.t
	kind := r.N(2)
	v := vk.Pick(r, fnPool.by[kind])
	sig := sigOf(v)
	if sig == nil {
		return
	}
	it := s.pick()
	urn, name := v.URN(), v.CompoundName()
	ref := func(string) uint32 { return 1 }
	ats := sig.Args(r, ref)
	var args []types.FuncArg
	var want []*proto.FunctionArgument
	for i, a := range ats {
		if a == nil {
			p := sig.At(i)
			if p == nil || len(p.Enum) == 0 {
				return
			}
			e := vk.Pick(r, p.Enum)
			args, want = append(args, types.Enum(e)), append(want, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Enum{Enum: e}})
			continue
		}
		if !litType(a) {
			return
		}
		x, e := s.gen(it.cols, a)
		args, want = append(args, e), append(want, &proto.FunctionArgument{ArgType: &proto.FunctionArgument_Value{Value: x.P}})
	}
	m, b := sig.Match(ats)
	if m != spec.Yes {
		return
	}
	ret := s.rets[v.URN()+" "+v.CompoundName()]
	if ret == nil {
		return
	}
	res := sig.Resolve(ret, ats, b, ref)
	mut := vk.PickOf(r, "", "", "", "name", "urn", "kind")
	bad := mut != ""
	switch mut {
	case "name":
		name += vk.PickOf(r, "x", ":", "_i32")
	case "urn":
		urn += "x"
	case "kind":
		kind = 1 - kind
		for _, o := range fnPool.by[kind] {
			if o.URN() == urn && o.CompoundName() == name {
				bad = false
				return
			}
		}
	}
	var opts []*types.FunctionOption
	if r.P(1, 4) {
		opts = append(opts, &types.FunctionOption{Name: "overflow", Preference: []string{"ERROR", "SILENT"}})
	}
	var got types.Type
	var enc pb.Message
	var err error
	what := vk.PickOf(r, "ScalarFn", "ScalarFn")
	if kind == 1 {
		what = "AggregateFn"
	}
	s.log = append(s.log, fmt.Sprintf("%s(%s, %s, %v) %s", what, urn, name, ats, mut))
	if !t.NoPanic(what, func() {
		if kind == 0 {
			var f *expr.ScalarFunction
			if f, err = s.b.ScalarFn(urn, name, opts, args...); err == nil {
				got, enc = f.GetType(), f.ToProto().GetScalarFunction()
			}
		} else {
			var f *expr.AggregateFunction
			if f, err = s.b.AggregateFn(urn, name, opts, args...); err == nil {
				got, enc = f.GetType(), f.ToProto()
			}
		}
	}) {
		return
	}
	if bad {
		t.Check(err != nil, what+":"+mut, "%s %s accepted", urn, name)
		return
	}
	if res.Unspec || res.Err || res.Loose {
		return
	}
	if !t.Check(err == nil, what+":rejected", "%s %s of %v: %v", urn, name, ats, err) {
		return
	}
	ok := false
	for _, w := range res.Types {
		ok = ok || w.Full() == spec.FromGo(got).Full()
	}
	t.Check(ok, what+":type", "%s %s of %v has type %v, want %v", urn, name, ats, got, res.Types)
	anchor := uint32(s.b.GetFunctionRef(urn, name))
	var w pb.Message
	if kind == 0 {
		w = &proto.Expression_ScalarFunction{FunctionReference: anchor, Arguments: want, Options: opts, OutputType: types.TypeToProto(got)}
	} else {
		w = &proto.AggregateFunction{FunctionReference: anchor, Arguments: want, Options: opts, OutputType: types.TypeToProto(got), Phase: proto.AggregationPhase_AGGREGATION_PHASE_INITIAL_TO_RESULT, Invocation: proto.AggregateFunction_AGGREGATION_INVOCATION_ALL}
	}
	t.Check(pb.Equal(w, enc), what+":encoding", "%v", pdiff(w, enc))
	t.Obs(what, urn, name)
	if r.Bool() {
		// use it
		if kind == 0 {
			f, _ := s.b.ScalarFn(urn, name, opts, args...)
			p, err := s.b.Project(it.rel, f)
			t.Must(err == nil, "Project:function", "%v", err)
			s.keep(&item{rel: p, cols: cat(it.cols, []*spec.TS{spec.FromGo(got)}), wr: it.wr,
				p: &proto.Rel{RelType: &proto.Rel_Project{Project: &proto.ProjectRel{Common: direct(), Input: it.p, Expressions: []*proto.Expression{{RexType: &proto.Expression_ScalarFunction_{ScalarFunction: w.(*proto.Expression_ScalarFunction)}}}}}}}, "Project")
		} else {
			f, _ := s.b.AggregateFn(urn, name, opts, args...)
			p, err := s.b.AggregateColumns(it.rel, []plan.AggRelMeasure{s.b.Measure(f, nil)})
			t.Must(err == nil, "AggregateColumns:function", "%v", err)
			s.keep(&item{rel: p, cols: []*spec.TS{spec.FromGo(got)}, wr: it.wr,
				p: &proto.Rel{RelType: &proto.Rel_Aggregate{Aggregate: &proto.AggregateRel{Common: direct(), Input: it.p, Measures: []*proto.AggregateRel_Measure{{Measure: w.(*proto.AggregateFunction)}}}}}}, "AggregateColumns")
		}
	}
}

func (s *bst) keep(it *item, key string) {
	s.log = append(s.log, fmt.Sprintf("%s: %v", key, it.p))
	if s.judge(it, key) {
		s.pool = append(s.pool, it)
	}
}

// udt makes a scan of a user-defined type.
func (s *bst) udt() {
	r, t := s.r, s.t
	urn := "extension:io.substrait:extension_types"
	name := vk.PickOf(r, "point", "line")
	var ps []types.TypeParam
	if r.P(1, 3) {
		ps = append(ps, types.IntegerParameter(r.N(9)))
	}
	var u, u2 types.UserDefinedType
	if !t.NoPanic("UserDefinedType", func() { u = s.b.UserDefinedType(urn, name, ps...); u2 = s.b.UserDefinedType(urn, name) }) {
		return
	}
	t.Check(u.TypeReference == u2.TypeReference && len(u.TypeParameters) == len(ps), "UserDefinedType", "%v and %v", u, u2)
	ts := spec.FromGo(&u)
	cols := []*spec.TS{ts}
	p := spec.Named(r, cols)
	p.Struct.TypeVariationReference = 0
	s.keep(&item{rel: s.b.NamedScan([]string{"u"}, types.NamedStruct{Names: p.Names, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{&u}}}), cols: cols,
		p: readRel(p, func(rr *proto.ReadRel) {
			rr.ReadType = &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{"u"}}}
		})}, "NamedScan")
}

// plan builds a plan of the pool.
func (s *bst) plan() {
	r, t := s.r, s.t
	root := s.pool[len(s.pool)-1]
	if r.P(1, 3) {
		root = s.pick()
	}
	names := spec.Names(r, root.cols)
	bad := ""
	var others []plan.Rel
	var ops []*item
	for n := r.N(3) * r.N(2); n > 0; n-- {
		o := s.pick()
		others, ops = append(others, o.rel), append(ops, o)
	}
	rr := root.rel
	switch r.N(8) {
	case 0:
		names = miscount(r, names)
		bad = "names"
	case 1:
		rr, bad = nil, "nil-root"
	case 2:
		if len(others) > 0 {
			others[r.N(len(others))] = nil
			bad = "nil-other"
		}
	}
	var urls []string
	typed := r.Bool()
	if typed {
		urls = vk.PickOf(r, nil, []string{"a/b"}, []string{"x", "y"})
	}
	t.Phase = "Plan"
	s.log = append(s.log, fmt.Sprintf("Plan %v %d others %s", names, len(others), bad))
	var pl *plan.Plan
	var err error
	if !t.NoPanic("Plan:"+bad, func() {
		if typed {
			pl, err = s.b.PlanWithTypes(rr, names, urls, others...)
		} else {
			pl, err = s.b.Plan(rr, names, others...)
		}
	}) {
		return
	}
	if bad != "" {
		t.Check(err != nil, "Plan:"+bad, "accepted")
		return
	}
	t.Must(err == nil, "Plan:rejected", "%v", err)
	q, err := pl.ToProto()
	t.Must(err == nil, "Plan:encode", "%v", err)
	s.made = q
	want := &proto.Plan{Version: &proto.Version{MajorNumber: plan.CurrentVersion.MajorNumber, MinorNumber: plan.CurrentVersion.MinorNumber, PatchNumber: plan.CurrentVersion.PatchNumber, GitHash: plan.CurrentVersion.GitHash, Producer: plan.CurrentVersion.Producer},
		ExpectedTypeUrls: urls, ExtensionUrns: q.ExtensionUrns, Extensions: q.Extensions,
		Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Root{Root: &proto.RelRoot{Input: root.p, Names: names}}}}}
	for _, o := range ops {
		want.Relations = append(want.Relations, &proto.PlanRel{RelType: &proto.PlanRel_Rel{Rel: o.p}})
	}
	lost := root.wr
	for _, o := range ops {
		lost = lost || o.wr
	}
	t.Check(pb.Equal(want, q), "Plan:encoding:"+diffPath(want.ProtoReflect(), q.ProtoReflect()), "%v", pdiff(want, q))
	// every function asked for is declared under its anchor
	have := map[uint32]string{}
	urn := map[uint32]string{}
	for _, u := range q.ExtensionUrns {
		urn[u.ExtensionUrnAnchor] = u.Urn
	}
	for _, e := range q.Extensions {
		if f, ok := e.MappingType.(*extpb.SimpleExtensionDeclaration_ExtensionFunction_); ok {
			have[f.ExtensionFunction.FunctionAnchor] = urn[f.ExtensionFunction.ExtensionUrnReference] + " " + f.ExtensionFunction.Name
		}
	}
	for _, f := range s.g.Fns {
		t.Check(have[f.Anchor] == f.URN+" "+f.Name, "Plan:declarations", "anchor %d is declared as %q, want %s %s", f.Anchor, have[f.Anchor], f.URN, f.Name)
	}
	if lost {
		return
	}
	back, err := tryPlan(q)
	t.Must(err == nil, "Plan:decode", "%v", err)
	q2, err := back.ToProto()
	t.Must(err == nil, "Plan:decode-encode", "%v", err)
	t.Check(pb.Equal(q, q2), "Plan:round-trip:"+diffPath(q.ProtoReflect(), q2.ProtoReflect()), "%v", pdiff(q, q2))
	for i, rel := range relsOf(back) {
		it := root
		if i > 0 {
			it = ops[i-1]
		}
		rt := rel.RecordType()
		t.Check(sameCols(rt, it.cols), "Plan:schema", "relation %d decodes with columns %v, want %v", i, &rt, it.cols)
	}
	t.Obs("plan", len(q.Extensions), len(q.Relations), len(s.log))
}

func c09(c *vk.C) {
	loadFnPool()
	rets := bundledReturns(c)
	c.Rule("histories: sequences of builder calls over a pool of relations built so far and decoded with the builder's registry; each call has generated arguments, valid or with one thing wrong; the model gives the verdict, columns and encoding; every history ends in plans, which are encoded, decoded and compared; non-trivial = distinct method, argument relations, columns, or kind of wrong argument")
	c.ParSection("histories", c.Scale(14000, 500000), func(t *vk.T) {
		s := newBuilderState(t)
		s.rets = rets
		s.history()
	})
}

// history is a sequence of calls that ends in a plan.
func (s *bst) history() {
	t := s.t
	for n := 1 + t.R.N(2); n > 0; n-- {
		s.pool = append(s.pool, s.decoded())
	}
	for n := 2 + t.R.N(6); n > 0; n-- {
		switch t.R.N(8) {
		case 0, 1:
			if k := s.leaf(); k != nil {
				s.run(k)
			}
		case 2:
			s.refs()
		case 3:
			switch t.R.N(4) {
			case 0:
				s.udt()
			default:
				s.function()
			}
		default:
			if k := s.inner(); k != nil {
				s.run(k)
			}
		}
		if len(s.pool) > 6 {
			s.pool = s.pool[1:]
		}
	}
	s.plan()
	// the relations are as they were
	t.Phase = "end"
	for _, it := range s.pool {
		s.judge(it, "end")
	}
}
