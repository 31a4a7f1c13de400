package checks

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C12"] = c12 }

func refOf(set extensions.Set, urn string) func(string) uint32 {
	return func(n string) uint32 { return set.GetTypeAnchor(extensions.TypeID{URN: urn, Name: n}) }
}

// judgeMatch compares a variant with the model on one argument list.
// intVars collects the names of the integer variables of a type.
func intVars(p *spec.PT, to map[string]bool) {
	for _, i := range p.Ints {
		if i.Var != "" {
			to[i.Var] = true
		}
	}
	for _, k := range p.Kids {
		intVars(k, to)
	}
	for _, u := range p.UDT {
		if u.T != nil {
			intVars(u.T, to)
		}
	}
}

func judgeMatch(t *vk.T, v extensions.FunctionVariant, s *spec.Sig, args []*spec.TS) {
	la := libArgs(args)
	want, _ := s.Match(args)
	var got bool
	var err error
	if !t.NoPanic("Match", func() { got, err = v.Match(la) }) {
		return
	}
	t.Check(!(got && err != nil), "match-with-error", "a match together with an error: %v", err)
	if want != spec.Unspec {
		t.Check((got && err == nil) == (want == spec.Yes), "match:"+want.String(), "Match(%s) = %v, %v; the signature says %v", argString(args), got, err, want)
	}
	t.Obs(want.String(), s.Null, sigString(s), argString(args))
	for i := -1; i < len(args)+2; i++ {
		var a *spec.TS
		var lt types.Type
		switch {
		case i >= 0 && i < len(args):
			a, lt = args[i], la[i]
		case len(args) > 0:
			a, lt = args[len(args)-1], la[len(la)-1]
		default:
			a = &spec.TS{K: spec.I32, N: types.NullabilityRequired}
			lt = a.Go()
		}
		w := s.MatchAt(a, i)
		if len(s.Params) == 0 && s.Var != nil {
			w = spec.Unspec
		}
		var g bool
		var e error
		if !t.NoPanic("MatchAt", func() { g, e = v.MatchAt(lt, i) }) {
			return
		}
		if w != spec.Unspec {
			t.Check((g && e == nil) == (w == spec.Yes), "match-at:"+w.String(), "MatchAt(%s, %d) = %v, %v; the signature says %v", argString([]*spec.TS{a}), i, g, e, w)
		}
		if got && err == nil && i >= 0 && i < len(args) {
			t.Check(g && e == nil, "match-at-disagrees", "the list %s matches but its position %d does not (%v)", argString(args), i, e)
		}
	}
}

func judgeCounts(t *vk.T, v extensions.FunctionVariant, s *spec.Sig) {
	if s.Var == nil {
		t.Check(v.MinArgumentCount() == len(s.Params), "min-count", "MinArgumentCount %d", v.MinArgumentCount())
		t.Check(v.MaxArgumentCount() == len(s.Params), "max-count", "MaxArgumentCount %d", v.MaxArgumentCount())
		t.Check(v.Variadic() == nil, "variadic", "variadic")
		return
	}
	b := v.Variadic()
	for n := -1; n < s.Var.Max+4; n++ {
		want := n >= s.Var.Min && (s.Var.Max == 0 || n <= s.Var.Max)
		t.Check(b.IsValidArgumentCount(n) == want, "variadic-count", "IsValidArgumentCount(%d) with %+v", n, *s.Var)
		if s.Var.Max == 0 || n != s.Var.Max { // whether positions count from one is not said
			want = n >= 0 && (s.Var.Max == 0 || n < s.Var.Max)
			t.Check(b.IsValidArgumentPosition(n) == want, "variadic-position", "IsValidArgumentPosition(%d) with %+v", n, *s.Var)
		}
	}
	if len(s.Params) > 0 {
		need := len(s.Params) - 1 + s.Var.Min
		t.Check(v.MinArgumentCount() == need, "variadic-min-count"+off(v.MinArgumentCount()-need), "MinArgumentCount %d, want %d", v.MinArgumentCount(), need)
		if s.Var.Max > 0 {
			most := len(s.Params) - 1 + s.Var.Max
			t.Check(v.MaxArgumentCount() == most, "variadic-max-count"+off(v.MaxArgumentCount()-most), "MaxArgumentCount %d, want %d", v.MaxArgumentCount(), most)
		}
	}
}

// off keeps the pinned behaviour (one too many) apart from any other.
func off(d int) string {
	if d == 1 {
		return ":one-too-many"
	}
	return ""
}

func c12(c *vk.C) {
	c.Rule("signatures are generated (or read from every bundled function); argument lists are instances of a signature (one binding of its variables) and single changes of them; the oracle is an independent matcher over the model of types which says yes, no or unspecified; " +
		"non-trivial: distinct (signature, argument list) pairs with a definite verdict")
	run := func(t *vk.T, vs []extensions.FunctionVariant, s *spec.Sig, urn string) {
		set := extensions.NewSet()
		ref := refOf(set, urn)
		lists := [][]*spec.TS{s.Args(t.R, ref), s.Args(t.R, ref)}
		for i := 0; i < 4; i++ {
			a := spec.MutateArgs(t.R, lists[t.R.N(2)])
			if t.R.P(1, 4) {
				a = spec.MutateArgs(t.R, a)
			}
			lists = append(lists, a)
		}
		lists = append(lists, nil)
		v := vs[t.R.N(len(vs))]
		t.Desc = func() string { return fmt.Sprintf("%T %s", v, sigString(s)) }
		judgeCounts(t, v, s)
		for i, l := range lists {
			if w, _ := s.Match(l); i < 2 && w == spec.No {
				c.AddExtra("instances_outside", 1)
			} else if w == spec.Yes {
				c.AddExtra("accepted", 1)
			} else if w == spec.No {
				c.AddExtra("refused", 1)
			} else {
				c.AddExtra("unspecified", 1)
			}
			judgeMatch(t, v, s, l)
		}
		// any kind of variant answers alike
		l := lists[t.R.N(len(lists))]
		var first string
		for i, v := range vs {
			ok, err := v.Match(libArgs(l))
			got := fmt.Sprint(ok, err != nil)
			if i == 0 {
				first = got
			}
			t.Check(got == first, "kinds-differ", "%T: %s, %T: %s on %s", vs[0], first, v, got, argString(l))
		}
	}
	c.ParSection("generated", c.Scale(40000, 600000), func(t *vk.T) {
		s := genSig(t.R)
		run(t, variants(s, "f"), s, sigURN)
		// parameters are in step when a variable is in two of them
		var ps []types.FuncDefArgType
		seen, shared := map[string]bool{}, false
		for _, p := range s.Params {
			if p.T == nil {
				continue
			}
			ps = append(ps, p.T.Lib())
			own := map[string]bool{}
			intVars(p.T, own)
			for n := range own {
				shared = shared || seen[n]
				seen[n] = true
			}
		}
		t.NoPanic("HasSyncParams", func() {
			t.Check(extensions.HasSyncParams(ps) == shared, "sync-params", "HasSyncParams is %v", !shared)
		})
	})
	all := bundled()
	var sigs []*spec.Sig
	n := 0
	for _, v := range all {
		s := sigOf(v)
		if s == nil {
			n++
		}
		sigs = append(sigs, s)
	}
	c.Extra("bundled_variants", len(all))
	c.Extra("bundled_outside_model", n)
	c.ParSection("bundled", c.Scale(10, 150)*len(all), func(t *vk.T) {
		i := t.Index % len(all)
		if sigs[i] == nil {
			t.NoPanic("Match", func() { _, _ = all[i].Match(nil) })
			return
		}
		run(t, all[i:i+1], sigs[i], all[i].URN())
	})
	// lists that match no signature must not upset any of them
	c.ParSection("foreign", c.Scale(3000, 60000), func(t *vk.T) {
		i := t.R.N(len(all))
		if sigs[i] == nil {
			return
		}
		var l []*spec.TS
		for k := t.R.N(5); k > 0; k-- {
			l = append(l, spec.GenType(t.R, spec.TypeOpt{Depth: 2, NoUnspec: true}))
		}
		t.Desc = func() string { return all[i].CompoundName() + " " + sigString(sigs[i]) }
		judgeMatch(t, all[i], sigs[i], l)
	})
}
