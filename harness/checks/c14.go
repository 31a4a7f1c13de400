package checks

import (
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C14"] = c14 }

// genPD makes a type expression with or without derivation lines.
func genPD(r *vk.R, depth int) *spec.PD {
	vars := []string{"P", "S", "L1", spec.PIdent(r)}
	o := spec.PTOpt{Depth: depth, Vars: vars, Anys: []string{"any", "any1", "any2", "any9"}}
	d := &spec.PD{T: spec.GenPT(r, o)}
	if r.P(1, 3) {
		vs := vk.Sub(r, vars)
		for i := r.Range(1, 4); i > 0; i-- {
			name := spec.PIdent(r)
			kind := byte('i')
			if r.P(1, 5) {
				kind = 'b'
			}
			d.Asgs = append(d.Asgs, spec.Asg{Name: name, E: spec.GenE(r, r.Range(0, 3), vs, kind)})
			if kind == 'i' {
				vs = append(vs, name)
			}
		}
	}
	return d
}

var slowest atomic.Int64

// parse calls the parser under the monitors: no panic, a result exactly when there is no error.
func (m *c14mon) parse(t *vk.T, text string) (ft types.FuncDefArgType, err error, ok bool) {
	s := time.Now()
	ok = t.NoPanic("ParseType", func() { ft, err = parser.ParseType(text) })
	if d := int64(time.Since(s)); d > slowest.Load() {
		slowest.Store(d)
	}
	if !ok {
		return
	}
	m.calls.Add(1)
	if err != nil {
		m.errs.Add(1)
		ok = t.Check(ft == nil, "error-with-result", "an error together with a result for %q", text)
	} else {
		ok = t.Check(ft != nil, "nil-result", "no result and no error for %q", text)
	}
	return
}

type c14mon struct{ calls, errs atomic.Int64 }

// hasVars says whether a type has an integer parameter that is a variable.
func hasVars(p *spec.PT) bool {
	for _, i := range p.Ints {
		if i.Var != "" {
			return true
		}
	}
	for _, k := range p.Kids {
		if hasVars(k) {
			return true
		}
	}
	for _, u := range p.UDT {
		if u.T != nil && hasVars(u.T) {
			return true
		}
	}
	return false
}

// fixpoint: printing and parsing again yields the same structure.
func (m *c14mon) fixpoint(t *vk.T, what string, ft types.FuncDefArgType) {
	var text string
	if !t.NoPanic("String", func() { text = ft.String() }) {
		return
	}
	want := spec.DumpLib(ft)
	ft2, err, ok := m.parse(t, text)
	if !ok {
		return
	}
	if !t.Check(err == nil, what+":reparse-error", "printed form %q does not parse: %v", text, err) {
		return
	}
	got := spec.DumpLib(ft2)
	t.Check(got == want, what+":reparse-differs", "printed form %q parses to\n  %s\ninstead of\n  %s", text, got, want)
}

func c14(c *vk.C) {
	m := &c14mon{}
	c.Rule("type expressions come from a structure model, rendered with random keyword case, blanks, redundant parentheses and operator layouts; the oracle is the structure itself, compared with the exported fields of the parsed value; " +
		"mutated and random texts are judged by an independent parser of the type syntax (accept with that structure, or error); non-trivial: distinct structures parsed and distinct texts rejected")
	before := stdoutSize()
	stdout := func(name string) {
		c.Section("stdout-"+name, 1, func(t *vk.T) {
			after := stdoutSize()
			t.Check(after == before, "stdout", "%d bytes were written to standard output while parsing (%s)", after-before, name)
			t.Obs(name)
			before = after
		})
	}

	c.ParSection("valid", c.Scale(12000, 150000), func(t *vk.T) {
		d := genPD(t.R, t.R.N(4))
		text := spec.Pr{R: t.R}.PD(d)
		t.Desc = func() string { return fmt.Sprintf("%q", text) }
		want := d.Dump()
		ref, rerr := spec.RefParse(text)
		if !errors.Is(rerr, spec.ErrUnspecified) && (rerr != nil || ref.Dump() != want) {
			if rerr == nil {
				rerr = errors.New(ref.Dump())
			}
			c.Inconclusive("the reference parser disagrees with the generator on %q: %v", text, rerr)
			return
		}
		ft, err, ok := m.parse(t, text)
		if !ok {
			return
		}
		if !t.Check(err == nil, "valid:error", "well-formed text is rejected: %v", err) {
			return
		}
		got := spec.DumpLib(ft)
		if !t.Check(got == want, "valid:structure", "parsed as\n  %s\ninstead of\n  %s", got, want) {
			return
		}
		t.Check(ft.ShortString() == d.T.Short(), "short:"+d.T.K+d.T.Name, "short name %q, want %q", ft.ShortString(), d.T.Short())
		n := types.NullabilityRequired
		if d.T.Null {
			n = types.NullabilityNullable
		}
		t.Check(ft.GetNullability() == n, "nullability", "nullability %v", ft.GetNullability())
		m.fixpoint(t, "valid", ft)
		t.Check(spec.DumpLib(ft) == want, "changed", "the parsed value changed while it was printed")
		vars := hasVars(d.T)
		t.Check(ft.HasParameterizedParam() == vars && (len(ft.GetParameterizedParams()) > 0) == vars, "parameterized", "HasParameterizedParam=%v, parameters %v, want any: %v", ft.HasParameterizedParam(), ft.GetParameterizedParams(), vars)
		for _, null := range []bool{!d.T.Null, d.T.Null} {
			e := *d
			top := *d.T
			e.T, top.Null, n = &top, null, types.NullabilityRequired
			if null {
				n = types.NullabilityNullable
			}
			var as types.FuncDefArgType
			if !t.NoPanic("SetNullability", func() { as = ft.SetNullability(n) }) || !t.Check(as != nil, "set-nullability", "nil") {
				return
			}
			t.Check(as.GetNullability() == n && spec.DumpLib(as) == e.Dump(), "set-nullability:"+d.T.K, "SetNullability(%v) gives\n  %s\ninstead of\n  %s", n, spec.DumpLib(as), e.Dump())
			t.Check(as.ShortString() == d.T.Short(), "short:"+d.T.K+d.T.Name, "short name %q, want %q", as.ShortString(), d.T.Short())
			m.fixpoint(t, "set-nullability", as)
		}
		t.Obs(want)
		t.Sample("%q -> %s", text, want)
	})
	stdout("valid")

	// the same for values which do not come from the parser, and through YAML
	c.ParSection("printed", c.Scale(6000, 80000), func(t *vk.T) {
		d := genPD(t.R, t.R.N(4))
		ft := d.Lib()
		want := d.Dump()
		if g := spec.DumpLib(ft); g != want {
			c.Inconclusive("the harness builds %s for %s", g, want)
			return
		}
		t.Desc = func() string { return want }
		m.fixpoint(t, "printed", ft)
		te := parser.TypeExpression{ValueType: ft}
		b, err := yaml.Marshal(&te)
		if !t.Check(err == nil, "yaml-marshal", "%v", err) {
			return
		}
		var back parser.TypeExpression
		err = yaml.Unmarshal(b, &back)
		if t.Check(err == nil, "yaml-unmarshal", "%q: %v", b, err) {
			got := spec.DumpLib(back.ValueType)
			t.Check(got == want, "yaml-differs", "YAML %q reads as\n  %s\ninstead of\n  %s", b, got, want)
		}
		t.Obs(want)
	})

	// numbers at and past what fits
	c.ParSection("limits", c.Scale(4000, 20000), func(t *vk.T) {
		r := t.R
		n := vk.PickOf(r, "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967295", "4294967296", "4294967301", "-4294967291",
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551621", "99999999999999999999999999", "0", "-0")
		if r.P(1, 4) {
			n = fmt.Sprint(int64(r.Uint64()) >> r.N(40))
		}
		ty := fmt.Sprintf(vk.PickOf(r, "varchar<%s>", "fixedchar<%s>", "fixedbinary?<%s>", "decimal<%s,S>", "decimal<P, %s>", "precision_time<%s>", "precision_timestamp<%s>",
			"precision_timestamp_tz<%s>", "interval_day<%s>", "u!a<%s>", "u!a?<x, %s>", "u!b<i32, %s, T>", "x = %s\nvarchar<x>", "x = (%s)\ndecimal<x, 1>", "y = 1 + %s\ni32",
			"y = max(1, %s)\ni32", "q = 1\ny = if q > %s then 1 else 2\ni32"), n)
		if r.Bool() && !strings.Contains(ty, "\n") {
			ty = fmt.Sprintf(vk.PickOf(r, "list<%s>", "map<i32, %s>", "struct<i8, %s>", "func<(%s) -> any1>", "func<any -> %s>", "u!c<%s>", "s = 3\nlist<%s>"), ty)
		}
		m.judge(t, "limits", ty)
	})

	mut := func(t *vk.T, s string) string {
		r := t.R
		b := []byte(s)
		for k := r.Range(1, 3); k > 0; k-- {
			const alphabet = "<>(),?!=+-*/:.#%[]{}@~^&|\\'\"`;0123456789 abiuxPSZ_$\n\t\r"
			i := 0
			if len(b) > 0 {
				i = r.N(len(b))
			}
			switch r.N(6) {
			case 0:
				if len(b) > 0 {
					b = append(b[:i:i], b[i+1:]...)
				}
			case 1:
				b = append(b[:i:i], append([]byte{alphabet[r.N(len(alphabet))]}, b[i:]...)...)
			case 2:
				if len(b) > 0 {
					b[i] = alphabet[r.N(len(alphabet))]
				}
			case 3: // token-level insertion
				w := vk.PickOf(r, " i32 ", " any1 ", "list<i32>", " x ", " 5 ", "?", " and ", " if ", " then ", " else ", "->", "u!", " struct", "func<", ">", " nstruct<a i32> ", "()", "//", "interval_compound<3>", "bool", "str", "é", "\x00", "\xff", ":=", "::", "i32?", "??", "any12", "any0")
				b = append(b[:i:i], append([]byte(w), b[i:]...)...)
			case 4: // cut
				b = b[:i]
			case 5: // swap two bytes
				if len(b) > 1 {
					j := r.N(len(b))
					b[i], b[j] = b[j], b[i]
				}
			}
		}
		return string(b)
	}
	c.ParSection("mutated", c.Scale(20000, 300000), func(t *vk.T) {
		d := genPD(t.R, t.R.N(3))
		m.judge(t, "mutated", mut(t, spec.Pr{R: t.R}.PD(d)))
	})
	c.ParSection("soup", c.Scale(10000, 150000), func(t *vk.T) {
		r := t.R
		var b strings.Builder
		words := []string{"i32", "list", "<", ">", "(", ")", ",", "?", "any1", "any", "x", "P", "5", "-3", "->", "func", "struct", "map", "decimal", "varchar", "u!", "u!foo", "=", "\n", " ", "+", "-", "*", "/", "and", "or", "if", "then", "else", "!", ":", "nstruct", "@", "#", "\"", "boolean", "str", "1000000000000", "timestamp_tz", "precision_time"}
		if r.P(1, 5) {
			for i := r.N(30); i > 0; i-- {
				b.WriteByte(byte(r.N(256)))
			}
		} else {
			for i := r.N(12); i > 0; i-- {
				b.WriteString(vk.Pick(r, words))
				if r.P(2, 3) {
					b.WriteByte(' ')
				}
			}
		}
		m.judge(t, "soup", b.String())
	})
	stdout("malformed")

	// concrete types print as type expressions which denote them
	c.ParSection("concrete", c.Scale(5000, 40000), func(t *vk.T) {
		ty := spec.GenType(t.R, spec.TypeOpt{Depth: t.R.N(3)})
		want, ok := concretePT(ty)
		if !ok {
			return
		}
		g := ty.Go()
		text := g.String()
		t.Desc = func() string { return fmt.Sprintf("%q", text) }
		ft, err, ok := m.parse(t, text)
		if !ok || !t.Check(err == nil, "concrete:error:"+ty.K.String(), "the name %q of a type does not parse: %v", text, err) {
			return
		}
		got := spec.DumpLib(ft)
		t.Check(got == want.Dump(), "concrete:differs:"+ty.K.String(), "%q parses to %s, want %s", text, got, want.Dump())
		t.Obs(got)
	})

	// nesting: time must not explode
	c.Section("deep", 10, func(t *vk.T) {
		n := 20 * (t.Index/2 + 1)
		text := strings.Repeat("list<", n) + "i32" + strings.Repeat(">", n)
		if t.Index%2 == 1 {
			n = 3 + t.Index
			text = strings.Repeat("struct<i8, ", n) + "any1" + strings.Repeat(">", n)
		}
		t.Desc = func() string { return text }
		m.judge(t, "deep", text)
	})
	stdout("rest")
	c.Extra("parser_calls", m.calls.Load())
	c.Extra("parser_errors", m.errs.Load())
	c.Extra("slowest_call_ms", time.Duration(slowest.Load()).Milliseconds())
}

// judge compares the parser with the reference parser.
func (m *c14mon) judge(t *vk.T, what, text string) {
	t.Desc = func() string { return fmt.Sprintf("%q", text) }
	ref, rerr := spec.RefParse(text)
	ft, err, ok := m.parse(t, text)
	if !ok {
		return
	}
	switch {
	case errors.Is(rerr, spec.ErrUnspecified):
		if err == nil {
			m.fixpoint(t, what, ft)
		}
	case rerr != nil:
		if err == nil {
			t.Failf(what+":accepted", "text outside the syntax (%v) parses to %s", rerr, spec.DumpLib(ft))
		} else {
			t.Check(true, "", "")
			t.Obs("error", text)
			t.Sample("%q rejected: %v", text, err)
		}
	default:
		want := ref.Dump()
		if !t.Check(err == nil, what+":rejected", "well-formed text (%s) is rejected: %v", want, err) {
			return
		}
		got := spec.DumpLib(ft)
		if t.Check(got == want, what+":structure", "parsed as\n  %s\ninstead of\n  %s", got, want) {
			m.fixpoint(t, what, ft)
			t.Obs(want)
		}
	}
}

// concretePT is the type expression denoting a concrete type.
func concretePT(ty *spec.TS) (*spec.PT, bool) {
	p := &spec.PT{Null: ty.N == types.NullabilityNullable}
	k := ty.K
	switch {
	case k < spec.NumPrimitive:
		p.K, p.Name = "scalar", k.String()
	case k == spec.Decimal:
		p.K, p.Ints = "decimal", []spec.IP{{N: ty.Prec}, {N: ty.Scal}}
	case k == spec.IntervalCompound, k == spec.UDT, k == spec.Func, k == spec.Struct && len(ty.Kids) == 0:
		return nil, false // no syntax in the supported subset, or not printed in it
	case k < spec.NumScalar:
		p.K, p.Name, p.Ints = "int1", k.String(), []spec.IP{{N: ty.Len}}
	default:
		p.K = k.String()
		for _, c := range ty.Kids {
			q, ok := concretePT(c)
			if !ok {
				return nil, false
			}
			p.Kids = append(p.Kids, q)
		}
	}
	return p, true
}
