package checks

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"

	"verif/harness/vk"
)

func init() { All["C10"] = c10 }

// smallCollection has a few URNs which declare the same names.
func smallCollection(urns []string) *extensions.Collection {
	c := &extensions.Collection{}
	for _, u := range urns {
		text := "%YAML 1.2\n---\nurn: " + u + `
types:
  - name: t1
  - name: t2
  - name: add
type_variations:
  - parent: i32
    name: v1
    functions: SEPARATE
  - parent: string
    name: v2
    functions: INHERITS
scalar_functions:
  - name: add
    impls:
      - args: [{name: x, value: i8}]
        return: i8
      - args: [{name: x, value: i16}]
        return: i16
  - name: one
    impls:
      - args: [{name: x, value: i8}]
        return: i8
aggregate_functions:
  - name: agg
    impls:
      - args: [{name: x, value: i8}]
        return: i8
window_functions:
  - name: win
    impls:
      - args: [{name: x, value: i8}]
        return: i8
        window_type: STREAMING
`
		if err := c.Load(strings.NewReader(text)); err != nil {
			panic(err)
		}
	}
	return c
}

type extKind int

const (
	extFunc extKind = iota
	extType
	extVar
	extKinds
)

func (k extKind) String() string { return [...]string{"function", "type", "variation"}[k] }

type extID struct{ urn, name string }

// setModel is the executable specification of an extension set.
type setModel struct {
	urns map[string]bool
	ids  [extKinds]map[uint32]extID
	of   [extKinds]map[extID]uint32 // the anchor last given for an id
}

func newSetModel() *setModel {
	m := &setModel{urns: map[string]bool{}}
	for k := range m.ids {
		m.ids[k], m.of[k] = map[uint32]extID{}, map[extID]uint32{}
	}
	return m
}

type topLevel struct {
	urns  []*extpb.SimpleExtensionURN
	decls []*extpb.SimpleExtensionDeclaration
}

func (p *topLevel) GetExtensionUrns() []*extpb.SimpleExtensionURN      { return p.urns }
func (p *topLevel) GetExtensions() []*extpb.SimpleExtensionDeclaration { return p.decls }
func (p *topLevel) bytes() []byte {
	var b bytes.Buffer
	o := proto.MarshalOptions{Deterministic: true}
	for _, m := range p.urns {
		x, _ := o.Marshal(m)
		fmt.Fprintf(&b, "u%x", x)
	}
	for _, m := range p.decls {
		x, _ := o.Marshal(m)
		fmt.Fprintf(&b, "d%x", x)
	}
	return b.Bytes()
}

func declPB(k extKind, urn, anchor uint32, name string) *extpb.SimpleExtensionDeclaration {
	d := &extpb.SimpleExtensionDeclaration{}
	switch k {
	case extFunc:
		d.MappingType = &extpb.SimpleExtensionDeclaration_ExtensionFunction_{ExtensionFunction: &extpb.SimpleExtensionDeclaration_ExtensionFunction{
			ExtensionUrnReference: urn, FunctionAnchor: anchor, Name: name}}
	case extType:
		d.MappingType = &extpb.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &extpb.SimpleExtensionDeclaration_ExtensionType{
			ExtensionUrnReference: urn, TypeAnchor: anchor, Name: name}}
	default:
		d.MappingType = &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_{ExtensionTypeVariation: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation{
			ExtensionUrnReference: urn, TypeVariationAnchor: anchor, Name: name}}
	}
	return d
}

func readDecl(d *extpb.SimpleExtensionDeclaration) (k extKind, urn, anchor uint32, name string) {
	switch m := d.MappingType.(type) {
	case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
		x := m.ExtensionFunction
		return extFunc, x.ExtensionUrnReference, x.FunctionAnchor, x.Name
	case *extpb.SimpleExtensionDeclaration_ExtensionType_:
		x := m.ExtensionType
		return extType, x.ExtensionUrnReference, x.TypeAnchor, x.Name
	case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
		x := m.ExtensionTypeVariation
		return extVar, x.ExtensionUrnReference, x.TypeVariationAnchor, x.Name
	}
	return extKinds, 0, 0, ""
}

// anchorsOf is the interface shared by a set and an extension registry.
type anchorsOf interface {
	GetTypeAnchor(id extensions.TypeID) uint32
	GetFuncAnchor(id extensions.FunctionID) uint32
	GetTypeVariationAnchor(id extensions.TypeVariationID) uint32
	DecodeTypeVariation(anchor uint32) (extensions.TypeVariationID, bool)
	DecodeFunc(anchor uint32) (extensions.FunctionID, bool)
	DecodeType(anchor uint32) (extensions.TypeID, bool)
}

func getAnchor(s anchorsOf, k extKind, id extID) uint32 {
	switch k {
	case extFunc:
		return s.GetFuncAnchor(extensions.FunctionID{URN: id.urn, Name: id.name})
	case extType:
		return s.GetTypeAnchor(extensions.TypeID{URN: id.urn, Name: id.name})
	}
	return s.GetTypeVariationAnchor(extensions.TypeVariationID{URN: id.urn, Name: id.name})
}

func decodeAnchor(s anchorsOf, k extKind, a uint32) (extID, bool) {
	switch k {
	case extFunc:
		id, ok := s.DecodeFunc(a)
		return extID{id.URN, id.Name}, ok
	case extType:
		id, ok := s.DecodeType(a)
		return extID{id.URN, id.Name}, ok
	}
	id, ok := s.DecodeTypeVariation(a)
	return extID{id.URN, id.Name}, ok
}

var extNames = [extKinds][]string{
	{"add:i8", "add:i16", "one:i8", "one", "agg:i8", "win:i8", "add", "nope:i8", "", "x"},
	{"t1", "t2", "add", "nope", ""},
	{"v1", "v2", "nope", ""},
}

// judge compares a set with the model.
func (m *setModel) judge(t *vk.T, s extensions.Set, reg *expr.ExtensionRegistry, coll *extensions.Collection) {
	for k := extFunc; k < extKinds; k++ {
		probe := map[uint32]bool{0: true, 1: true, 2: true, math.MaxUint32: true, uint32(len(m.ids[k])) + 1: true}
		for a := range m.ids[k] {
			probe[a], probe[a+1] = true, true
		}
		for a := range probe {
			want, has := m.ids[k][a]
			got, ok := decodeAnchor(s, k, a)
			t.Check(ok == has && (!ok || got == want), "decode:"+k.String(), "%s anchor %d resolves to %v (%v), want %v (%v)", k, a, got, ok, want, has)
			m.judgeLookup(t, s, reg, coll, k, a, want, has)
		}
		for id, a := range m.of[k] {
			t.Check(getAnchor(s, k, id) == a, "anchor-changed:"+k.String(), "%s %v has anchor %d, now %d", k, id, a, getAnchor(s, k, id))
		}
	}
}

func (m *setModel) judgeLookup(t *vk.T, s extensions.Set, reg *expr.ExtensionRegistry, coll *extensions.Collection, k extKind, a uint32, id extID, has bool) {
	bad := func(what string, ok, want bool) {
		t.Check(ok == want, "lookup:"+what, "looking up %s %d (%v) finds something: %v", what, a, id, ok)
	}
	switch k {
	case extFunc:
		fid := extensions.FunctionID{URN: id.urn, Name: id.name}
		sv, ok1 := s.LookupScalarFunction(a, coll)
		av, ok2 := s.LookupAggregateFunction(a, coll)
		wv, ok3 := s.LookupWindowFunction(a, coll)
		wsv, w1 := coll.GetScalarFunc(fid)
		wav, w2 := coll.GetAggregateFunc(fid)
		wwv, w3 := coll.GetWindowFunc(fid)
		bad("scalar", ok1, has && w1)
		bad("aggregate", ok2, has && w2)
		bad("window", ok3, has && w3)
		t.Check((!ok1 || sv == wsv) && (!ok2 || av == wav) && (!ok3 || wv == wwv), "lookup:other", "function anchor %d (%v) finds another function", a, id)
		if reg != nil {
			r1, o1 := reg.LookupScalarFunction(a)
			r2, o2 := reg.LookupAggregateFunction(a)
			r3, o3 := reg.LookupWindowFunction(a)
			t.Check(o1 == ok1 && o2 == ok2 && o3 == ok3 && r1 == sv && r2 == av && r3 == wv, "registry-lookup", "the registry finds another function for anchor %d", a)
		}
	case extType:
		ty, ok := s.LookupType(a, coll)
		want, w := coll.GetType(extensions.TypeID{URN: id.urn, Name: id.name})
		bad("type", ok, has && w)
		t.Check(!ok || ty.Name == want.Name, "lookup:other", "type anchor %d (%v) finds type %s", a, id, ty.Name)
		if reg != nil {
			rt, o := reg.LookupType(a)
			t.Check(o == ok && rt.Name == ty.Name, "registry-lookup", "the registry finds another type for anchor %d", a)
		}
	default:
		tv, ok := s.LookupTypeVariation(a, coll)
		want, w := coll.GetTypeVariation(extensions.TypeVariationID{URN: id.urn, Name: id.name})
		bad("variation", ok, has && w)
		t.Check(!ok || tv.Name == want.Name, "lookup:other", "variation anchor %d (%v) finds variation %s", a, id, tv.Name)
		if reg != nil {
			rt, o := reg.LookupTypeVariation(a)
			t.Check(o == ok && rt.Name == tv.Name, "registry-lookup", "the registry finds another variation for anchor %d", a)
		}
	}
}

// judgeProto checks an encoding of the set.
func (m *setModel) judgeProto(t *vk.T, s extensions.Set, coll *extensions.Collection) *topLevel {
	p := &topLevel{}
	p.urns, p.decls = s.ToProto(coll)
	for i := 0; i < 3; i++ {
		q := &topLevel{}
		q.urns, q.decls = s.ToProto(coll)
		if !t.Check(bytes.Equal(p.bytes(), q.bytes()), "encode-unstable", "encoding the same set twice gives different messages:\n%v\n%v", p, q) {
			break
		}
	}
	byAnchor := map[uint32]string{}
	for _, u := range p.urns {
		_, dup := byAnchor[u.ExtensionUrnAnchor]
		t.Check(!dup, "urn-duplicate", "URN anchor %d is declared twice", u.ExtensionUrnAnchor)
		byAnchor[u.ExtensionUrnAnchor] = u.Urn
		t.Check(m.urns[u.Urn], "urn-extra", "URN %q was never used", u.Urn)
	}
	for u := range m.urns {
		a, ok := s.FindURN(u)
		t.Check(ok, "urn-lost", "URN %q is not found", u)
		t.Check(byAnchor[a] == u, "urn-lost", "URN %q has anchor %d, which is declared as %q", u, a, byAnchor[a])
	}
	_, ok := s.FindURN("extension:not:used")
	t.Check(!ok, "urn-extra", "an unused URN is found")
	seen := [extKinds]map[uint32]bool{{}, {}, {}}
	for _, d := range p.decls {
		k, urn, a, name := readDecl(d)
		if !t.Check(k < extKinds, "decl-empty", "empty declaration") {
			continue
		}
		t.Check(!seen[k][a], "decl-duplicate", "%s anchor %d is declared twice", k, a)
		seen[k][a] = true
		want, has := m.ids[k][a]
		u, ok := byAnchor[urn]
		t.Check(has && ok && u == want.urn && name == want.name, "decl-wrong", "%s anchor %d is declared as %q %q, want %v", k, a, u, name, want)
	}
	for k := extFunc; k < extKinds; k++ {
		for a, id := range m.ids[k] {
			t.Check(seen[k][a], "decl-lost", "%s anchor %d (%v) is not declared", k, a, id)
		}
	}
	return p
}

// genDecls makes a message with declared anchors; want is nil where it is inconsistent.
func genDecls(r *vk.R, loaded, other []string) (p *topLevel, m *setModel) {
	p, m = &topLevel{}, newSetModel()
	bad := false
	anchor := func() uint32 {
		switch r.N(4) {
		case 0:
			return uint32(r.N(4))
		case 1:
			return uint32(1 + r.N(8))
		case 2:
			return uint32(r.N(100000))
		}
		return vk.PickOf[uint32](r, math.MaxUint32, math.MaxUint32-1, 1<<31, 1<<31-1, 3)
	}
	urnOf := map[uint32]string{}
	for i := r.N(5); i > 0; i-- {
		u, a := vk.PickOf(r, loaded...), anchor()
		if r.P(1, 12) {
			u = vk.PickOf(r, other...)
		}
		if old, ok := urnOf[a]; ok && old != u {
			if !r.P(1, 6) {
				continue
			}
			bad = true
		}
		urnOf[a] = u
		m.urns[u] = true
		p.urns = append(p.urns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: a, Urn: u})
	}
	var refs []uint32
	for a := range urnOf {
		refs = append(refs, a)
	}
	sort.Slice(refs, func(i, j int) bool { return refs[i] < refs[j] })
	isLoaded := map[string]bool{}
	for _, u := range loaded {
		isLoaded[u] = true
	}
	for i := r.N(9); i > 0 && len(refs) > 0; i-- {
		ref := vk.PickOf(r, refs...)
		if r.P(1, 60) {
			ref = anchor()
		}
		k, a := extKind(r.N(int(extKinds))), anchor()
		if k == extVar && a == 0 {
			a = 1 // 0 stands for no variation
		}
		id := extID{urnOf[ref], vk.PickOf(r, extNames[k]...)}
		_, known := urnOf[ref]
		if old, ok := m.ids[k][a]; ok && old != id {
			if !r.P(1, 10) {
				continue
			}
			bad = true
		}
		if !known || !isLoaded[id.urn] {
			bad = true
		}
		m.ids[k][a] = id
		p.decls = append(p.decls, declPB(k, ref, a, id.name))
	}
	if bad {
		m = nil
	}
	return
}

func c10(c *vk.C) {
	c.Rule("histories over an extension set: it starts empty or decoded from declarations with arbitrary anchors (dense, sparse, zero, near 2^32, the same function under several anchors, conflicting or unresolvable ones), " +
		"then anchors are asked for, resolved, looked up, encoded and decoded again; an executable bijection model judges every step; non-trivial: distinct (start, history) with at least one new anchor")
	loaded := []string{"extension:verif:a", "extension:verif:b", "extension:verif:c"}
	other := []string{"extension:verif:unloaded", "extension:x:y", ""}
	coll := smallCollection(loaded)
	c.ParSection("histories", c.Scale(12000, 200000), func(t *vk.T) {
		m := newSetModel()
		s := extensions.NewSet()
		start := &topLevel{}
		if t.R.P(3, 4) {
			var want *setModel
			start, want = genDecls(t.R, loaded, other)
			before := start.bytes()
			var got extensions.Set
			var err error
			t.Desc = func() string { return fmt.Sprintf("urns %v\ndeclarations %v", start.urns, start.decls) }
			if !t.NoPanic("GetExtensionSet", func() { got, err = extensions.GetExtensionSet(start, coll) }) {
				return
			}
			t.Check(bytes.Equal(before, start.bytes()), "input-changed", "decoding changed the message")
			if want == nil {
				t.Check(err != nil, "accepts-conflict", "unresolvable or conflicting declarations are accepted")
				t.Obs("conflict", string(before))
				c.AddExtra("rejected", 1)
				return
			}
			if !t.Check(err == nil, "rejects", "well-formed declarations are rejected: %v", err) {
				return
			}
			m, s = want, got
			c.AddExtra("decoded", 1)
		}
		reg := expr.NewExtensionRegistry(s, coll)
		m.judge(t, s, &reg, coll)
		var log []string
		t.Desc = func() string {
			return fmt.Sprintf("urns %v\ndeclarations %v\nthen %s", start.urns, start.decls, strings.Join(log, "; "))
		}
		added := 0
		for i := t.R.N(14); i > 0; i-- {
			k := extKind(t.R.N(int(extKinds)))
			urn := vk.PickOf(t.R, loaded...)
			if t.R.P(1, 15) {
				urn = "extension:x:y"
			}
			id := extID{urn, vk.PickOf(t.R, extNames[k]...)}
			if t.R.Bool() { // one that is there
				var ids []extID
				for _, x := range m.ids[k] {
					ids = append(ids, x)
				}
				sort.Slice(ids, func(i, j int) bool { return ids[i].urn+ids[i].name < ids[j].urn+ids[j].name })
				if len(ids) > 0 {
					id = vk.PickOf(t.R, ids...)
				}
			}
			log = append(log, fmt.Sprintf("anchor of %s %v", k, id))
			var a uint32
			var via anchorsOf = s
			if t.R.Bool() {
				via = &reg
			}
			if !t.NoPanic("Get*Anchor", func() { a = getAnchor(via, k, id) }) {
				return
			}
			log[len(log)-1] += fmt.Sprintf(" = %d", a)
			prev, asked := m.of[k][id]
			holder, used := m.ids[k][a]
			had := false
			for _, x := range m.ids[k] {
				had = had || x == id
			}
			switch {
			case asked:
				t.Check(a == prev, "anchor-changed:"+k.String(), "the anchor of %s %v was %d and is %d", k, id, prev, a)
			case used:
				t.Check(holder == id, "anchor-collision:"+k.String(), "%s %v is given anchor %d, which is that of %v", k, id, a, holder)
			default:
				t.Check(!had, "anchor-second:"+k.String(), "%s %v has an anchor but is given a new one, %d", k, id, a)
				t.Check(a != 0, "anchor-zero:"+k.String(), "%s %v is given the anchor 0", k, id)
				added++
			}
			m.ids[k][a], m.of[k][id] = id, a
			m.urns[id.urn] = true
			if t.R.P(1, 3) {
				m.judge(t, s, &reg, coll)
			}
			if t.R.P(1, 5) {
				log = append(log, "encode")
				m.judgeProto(t, s, coll)
			}
		}
		m.judge(t, s, &reg, coll)
		p := m.judgeProto(t, s, coll)
		loadedAll := true
		for k := range m.ids {
			for _, id := range m.ids[k] {
				loadedAll = loadedAll && id.urn != "extension:x:y"
			}
		}
		if loadedAll {
			s2, err := extensions.GetExtensionSet(p, coll)
			if t.Check(err == nil, "redecode", "the encoded set does not decode: %v", err) {
				m2 := newSetModel()
				*m2 = *m // with the anchors given out before
				m2.judge(t, s2, nil, coll)
				q := m2.judgeProto(t, s2, coll)
				t.Check(bytes.Equal(p.bytes(), q.bytes()), "reencode", "encoding again gives another message:\n%v\n%v", p, q)
			}
		}
		if added > 0 {
			t.Obs(string(start.bytes()), strings.Join(log, ";"))
		}
		c.AddExtra("anchors_assigned", int64(added))
	})
}
