package spec

import (
	"math/big"

	"github.com/substrait-io/substrait-go/v8/types"

	"verif/harness/vk"
)

// V is a verdict of the matching model. Unspec: the specification does not say.
type V int

const (
	Yes V = iota
	Unspec
	No
)

func (v V) String() string { return [...]string{"yes", "unspecified", "no"}[v] }

func (v V) and(o V) V { return max(v, o) }

func vb(ok bool) V {
	if ok {
		return Yes
	}
	return No
}

// SigVariadic is the variadic behaviour of a signature.
type SigVariadic struct {
	Min, Max int
	Consist  string // CONSISTENT, INCONSISTENT or "" (not stated)
}

// Param is a value parameter (T) or an enumeration.
type Param struct {
	T    *PT
	Enum []string
}

// Sig is the model of a function implementation.
type Sig struct {
	Params []Param
	Var    *SigVariadic
	Null   string // MIRROR, DECLARED_OUTPUT, DISCRETE
	Ret    *PD
	Inter  *PD
}

// Binds is what matching binds.
type Binds struct {
	Ints  map[string]int64
	Anys  map[string][]*TS // every type an any variable (or plain any) stands for
	struc V                // structure alone
	bind  V                // consistency of the bindings
	soft  bool             // in a repeated argument which need not be consistent
}

func NewBinds() *Binds { return &Binds{Ints: map[string]int64{}, Anys: map[string][]*TS{}} }

// erase is the type with every nullability and variation removed.
func erase(t *TS) *TS {
	o := t.Clone()
	var f func(*TS)
	f = func(t *TS) {
		t.N, t.Var = types.NullabilityRequired, 0
		for _, k := range t.Kids {
			f(k)
		}
		for _, p := range t.Params {
			if p.T != nil {
				f(p.T)
			}
		}
	}
	f(o)
	return o
}

// sameBase: the same type up to the outer nullability. Types which differ in
// inner nullability or variation only are an unspecified case.
func sameBase(a, b *TS) V {
	if a.With(0).Equal(b.With(0)) {
		return Yes
	}
	if erase(a).Equal(erase(b)) {
		return Unspec
	}
	return No
}

func (b *Binds) int(i IP, v int32) {
	if i.Var == "" {
		b.struc = b.struc.and(vb(i.N == v))
		return
	}
	if old, ok := b.Ints[i.Var]; ok {
		if old != int64(v) {
			if b.soft {
				b.bind = b.bind.and(Unspec)
			} else {
				b.bind = No
			}
		}
		return
	}
	if b.soft {
		b.bind = b.bind.and(Unspec)
	}
	b.Ints[i.Var] = int64(v)
}

// match walks a parameter and an argument.
func (b *Binds) match(p *PT, a *TS, discrete, inner bool) {
	if a == nil { // an enumeration: no type
		if p.K == "any" {
			b.struc = b.struc.and(Unspec)
		} else {
			b.struc = No
		}
		return
	}
	if discrete {
		switch {
		case a.N == types.NullabilityUnspecified:
			b.struc = b.struc.and(Unspec)
		case p.Null != (a.N == types.NullabilityNullable):
			if inner {
				b.struc = b.struc.and(Unspec)
			} else {
				b.struc = No
			}
		}
	}
	kids := func(inner bool) {
		if len(p.Kids) != len(a.Kids) {
			b.struc = No
			return
		}
		for i, k := range p.Kids {
			b.match(k, a.Kids[i], discrete, inner)
		}
	}
	switch p.K {
	case "any":
		old := b.Anys[p.Name]
		if p.Name != "any" && len(old) > 0 {
			v := sameBase(old[0], a)
			if b.soft && v == No {
				v = Unspec
			}
			b.bind = b.bind.and(v)
		}
		b.Anys[p.Name] = append(old, a)
	case "scalar", "int1":
		if a.K.String() != p.Name {
			b.struc = No
			return
		}
		if p.K == "int1" {
			b.int(p.Ints[0], a.Len)
		}
	case "decimal":
		if a.K != Decimal {
			b.struc = No
			return
		}
		b.int(p.Ints[0], a.Prec)
		b.int(p.Ints[1], a.Scal)
	case "list", "map", "struct":
		if a.K.String() != p.K {
			b.struc = No
			return
		}
		kids(inner)
	case "func":
		if a.K != Func {
			b.struc = No
			return
		}
		kids(true)
	case "udt":
		if a.K != UDT || len(p.UDT) != len(a.Params) {
			b.struc = No
			return
		}
		for i, u := range p.UDT {
			q := a.Params[i]
			switch {
			case u.T != nil:
				if q.Which != 5 {
					b.struc = No
				} else {
					b.match(u.T, q.T, discrete, true)
				}
			case u.I:
				b.struc = b.struc.and(vb(q.Which == 2 && q.I == int64(u.N)))
			default:
				if q.Which == 3 && q.S == u.S {
					b.struc = b.struc.and(Unspec)
				} else {
					b.struc = b.struc.and(vb(q.Which == 4 && q.S == u.S))
				}
			}
		}
	}
}

func (b *Binds) param(p Param, a *TS, discrete bool) {
	if p.T == nil {
		b.struc = b.struc.and(vb(a == nil))
		return
	}
	b.match(p.T, a, discrete, false)
}

// Count: whether the number of arguments is one the signature allows.
func (s *Sig) Count(n int) V {
	if s.Var == nil {
		return vb(n == len(s.Params))
	}
	if len(s.Params) == 0 {
		return Unspec
	}
	nv := n - (len(s.Params) - 1)
	return vb(nv >= 0 && nv >= s.Var.Min && (s.Var.Max == 0 || nv <= s.Var.Max))
}

// At is the parameter for an argument position, nil if there is none.
func (s *Sig) At(i int) *Param {
	switch {
	case i < 0 || len(s.Params) == 0:
		return nil
	case i < len(s.Params):
		return &s.Params[i]
	case s.Var == nil || s.Var.Max != 0 && i-(len(s.Params)-1) >= s.Var.Max:
		return nil
	}
	return &s.Params[len(s.Params)-1]
}

// MatchAt is the verdict for one argument.
func (s *Sig) MatchAt(a *TS, i int) V {
	p := s.At(i)
	if p == nil {
		return No
	}
	b := NewBinds()
	b.param(*p, a, s.Null == "DISCRETE")
	v := b.struc
	if b.bind != Yes {
		v = v.and(Unspec)
	}
	return v
}

// Match is the verdict for an argument list, with the bindings.
func (s *Sig) Match(args []*TS) (V, *Binds) {
	b := NewBinds()
	v := s.Count(len(args))
	if v == No {
		return No, b
	}
	last := len(s.Params) - 1
	for i, a := range args {
		p := s.At(i)
		if p == nil {
			return No, b
		}
		b.soft = s.Var != nil && i > last && s.Var.Consist != "CONSISTENT"
		b.param(*p, a, s.Null == "DISCRETE")
	}
	if s.Var != nil && s.Var.Consist != "INCONSISTENT" {
		for i := last + 1; i < len(args); i++ {
			x, y := args[last], args[i]
			c := Yes
			switch {
			case (x == nil) != (y == nil):
				c = No
			case x != nil:
				c = sameBase(x, y)
			}
			if c == No && s.Var.Consist == "" {
				c = Unspec
			}
			v = v.and(c)
		}
	}
	return v.and(b.struc).and(b.bind), b
}

// ---- return types

// rv is the outcome of evaluating: a value, an error, or unspecified.
type rv struct {
	n   *big.Int
	b   bool
	isB bool
	err bool
	un  bool
}

func fits64(n *big.Int) bool { return n.IsInt64() }

func (e *E) eval(sym map[string]rv) rv {
	num := func(n *big.Int) rv {
		if !fits64(n) {
			return rv{err: true}
		}
		return rv{n: n}
	}
	switch e.Op {
	case "num":
		return rv{n: big.NewInt(e.Num)}
	case "var":
		if v, ok := sym[e.Name]; ok {
			return v
		}
		return rv{err: true}
	case "if":
		c := e.Args[0].eval(sym)
		if c.err || c.un {
			return c
		}
		if !c.isB {
			return rv{err: true}
		}
		if c.b {
			return e.Args[1].eval(sym)
		}
		return e.Args[2].eval(sym)
	}
	var as []rv
	for _, a := range e.Args {
		as = append(as, a.eval(sym))
	}
	for _, a := range as {
		if a.err {
			if e.Op == "and" || e.Op == "or" { // may be cut short
				return rv{un: true}
			}
			return a
		}
	}
	for _, a := range as {
		if a.un {
			return a
		}
	}
	isB := func(want bool) bool {
		for _, a := range as {
			if a.isB != want {
				return false
			}
		}
		return true
	}
	switch e.Op {
	case "not":
		if !isB(true) {
			return rv{err: true}
		}
		return rv{b: !as[0].b, isB: true}
	case "and", "or":
		if !isB(true) {
			return rv{err: true}
		}
		if e.Op == "and" {
			return rv{b: as[0].b && as[1].b, isB: true}
		}
		return rv{b: as[0].b || as[1].b, isB: true}
	}
	if !isB(false) {
		return rv{err: true}
	}
	if e.Op == "call" {
		want := map[string]int{"abs": 1, "min": 2, "max": 2}[e.Name]
		if want == 0 {
			return rv{err: true}
		}
		if len(as) != want {
			if len(as) > want {
				return rv{un: true}
			}
			return rv{err: true}
		}
		switch e.Name {
		case "abs":
			return num(new(big.Int).Abs(as[0].n))
		case "min":
			if as[0].n.Cmp(as[1].n) < 0 {
				return as[0]
			}
			return as[1]
		}
		if as[0].n.Cmp(as[1].n) > 0 {
			return as[0]
		}
		return as[1]
	}
	l, r := as[0].n, as[1].n
	c := l.Cmp(r)
	switch e.Op {
	case "+":
		return num(new(big.Int).Add(l, r))
	case "-":
		return num(new(big.Int).Sub(l, r))
	case "*":
		return num(new(big.Int).Mul(l, r))
	case "/":
		if r.Sign() == 0 {
			return rv{err: true}
		}
		q, m := new(big.Int).QuoRem(l, r, new(big.Int))
		if m.Sign() != 0 && (l.Sign() < 0) != (r.Sign() < 0) {
			return rv{un: true} // rounding of negative quotients
		}
		return num(q)
	case "<":
		return rv{isB: true, b: c < 0}
	case "<=":
		return rv{isB: true, b: c <= 0}
	case ">":
		return rv{isB: true, b: c > 0}
	case ">=":
		return rv{isB: true, b: c >= 0}
	case "=":
		return rv{isB: true, b: c == 0}
	case "!=":
		return rv{isB: true, b: c != 0}
	}
	return rv{err: true}
}

// Result is what a return expression yields: the type (several where the
// specification leaves a choice of nullability), an error, or unspecified.
type Result struct {
	Types  []*TS
	Err    bool
	Unspec bool
	Loose  bool // an error is acceptable too
}

type resolver struct {
	b     *Binds
	sym   map[string]rv
	udt   func(string) uint32
	err   bool
	un    bool
	loose bool
}

func (x *resolver) int(i IP) int32 {
	if i.Var == "" {
		return i.N
	}
	v, ok := x.sym[i.Var]
	switch {
	case !ok, v.err, !v.un && v.isB:
		x.err = true
		return 0
	case v.un:
		x.un = true
		return 0
	}
	if !v.n.IsInt64() || int64(int32(v.n.Int64())) != v.n.Int64() {
		x.err = true
		return 0
	}
	if v.n.Sign() < 0 {
		x.loose = true
	}
	return int32(v.n.Int64())
}

// typ yields the alternatives for a type expression.
func (x *resolver) typ(p *PT) []*TS {
	n := types.NullabilityRequired
	if p.Null {
		n = types.NullabilityNullable
	}
	cross := func(parts []*PT, mk func([]*TS) *TS) []*TS {
		out := [][]*TS{nil}
		for _, k := range parts {
			var next [][]*TS
			for _, alt := range x.typ(k) {
				for _, o := range out {
					next = append(next, append(o[:len(o):len(o)], alt))
				}
			}
			out = next
			if len(out) > 64 {
				x.un = true
				return nil
			}
		}
		var ts []*TS
		for _, o := range out {
			ts = append(ts, mk(o))
		}
		return ts
	}
	switch p.K {
	case "any":
		as := x.b.Anys[p.Name]
		if len(as) == 0 {
			x.err = true
			return nil
		}
		var out []*TS
		for _, a := range as {
			if sameBase(as[0], a) != Yes {
				x.un = true
				return nil
			}
			if p.Null {
				out = append(out, a.With(types.NullabilityNullable))
				continue
			}
			// whether a declared required any overrides a nullable argument is open
			out = append(out, a)
			if a.N != types.NullabilityRequired {
				out = append(out, a.With(types.NullabilityRequired))
			}
		}
		return dedup(out)
	case "scalar":
		return []*TS{{K: kindOf(p.Name), N: n}}
	case "int1":
		return []*TS{{K: kindOf(p.Name), N: n, Len: x.int(p.Ints[0])}}
	case "decimal":
		t := &TS{K: Decimal, N: n, Prec: x.int(p.Ints[0]), Scal: x.int(p.Ints[1])}
		if t.Prec < 1 || t.Prec > 38 || t.Scal > t.Prec {
			x.loose = true
		}
		return []*TS{t}
	case "list", "map", "struct", "func":
		return cross(p.Kids, func(k []*TS) *TS { return &TS{K: kindOf(p.K), N: n, Kids: k} })
	case "udt":
		var parts []*PT
		for _, u := range p.UDT {
			if u.T != nil {
				parts = append(parts, u.T)
			}
		}
		return cross(parts, func(k []*TS) *TS {
			t := &TS{K: UDT, N: n, Ref: x.udt(p.Name)}
			for _, u := range p.UDT {
				switch {
				case u.T != nil:
					t.Params = append(t.Params, &P{Which: 5, T: k[0]})
					k = k[1:]
				case u.I:
					t.Params = append(t.Params, &P{Which: 2, I: int64(u.N)})
				default:
					t.Params = append(t.Params, &P{Which: 4, S: u.S})
				}
			}
			return t
		})
	}
	panic("resolver " + p.K)
}

func dedup(ts []*TS) (out []*TS) {
	seen := map[string]bool{}
	for _, t := range ts {
		if !seen[t.Full()] {
			seen[t.Full()] = true
			out = append(out, t)
		}
	}
	return
}

func kindOf(name string) Kind {
	for k := Bool; k < NumKinds; k++ {
		if k.String() == name && k != NumPrimitive && k != NumScalar {
			return k
		}
	}
	panic("kind " + name)
}

// Resolve is the return type for arguments which match. udt gives the anchor of a type name.
func (s *Sig) Resolve(ret *PD, args []*TS, b *Binds, udt func(string) uint32) (res Result) {
	x := &resolver{b: b, sym: map[string]rv{}, udt: udt}
	for k, v := range b.Ints {
		x.sym[k] = rv{n: big.NewInt(v)}
	}
	for _, a := range ret.Asgs {
		v := a.E.eval(x.sym)
		if v.err {
			return Result{Err: true}
		}
		if v.un {
			return Result{Unspec: true}
		}
		x.sym[a.Name] = v
	}
	ts := x.typ(ret.T)
	if x.un {
		return Result{Unspec: true}
	}
	if x.err {
		return Result{Err: true}
	}
	if s.Null == "MIRROR" {
		n := types.NullabilityRequired
		for i, a := range args {
			if p := s.At(i); p != nil && p.T != nil && a != nil && a.N != types.NullabilityRequired {
				n = types.NullabilityNullable
			}
		}
		for i := range ts {
			ts[i] = ts[i].With(n)
		}
	}
	return Result{Types: dedup(ts), Loose: x.loose}
}

// ---- instances

// Inst makes an argument type for a parameter, with the bindings so far.
type Inst struct {
	R        *vk.R
	Ints     map[string]int32
	Anys     map[string]*TS
	Discrete bool
	UDTRef   func(name string) uint32
}

func (g *Inst) int(i IP, lo, hi int32) int32 {
	if i.Var == "" {
		return i.N
	}
	if v, ok := g.Ints[i.Var]; ok {
		return v
	}
	v := lo + int32(g.R.N(int(hi-lo+1)))
	if g.R.P(1, 10) {
		v = vk.PickOf[int32](g.R, 0, 1, 38, 65535, 1<<31-1)
	}
	g.Ints[i.Var] = v
	return v
}

func (g *Inst) null(p *PT) types.Nullability {
	if g.Discrete {
		if p.Null {
			return types.NullabilityNullable
		}
		return types.NullabilityRequired
	}
	return types.Nullability(1 + g.R.N(2))
}

func (g *Inst) Type(p *PT) *TS {
	n := g.null(p)
	switch p.K {
	case "any":
		t := g.Anys[p.Name]
		if t == nil || p.Name == "any" {
			t = GenType(g.R, TypeOpt{Depth: g.R.N(3) / 2, NoVar: true, NoUnspec: true})
			g.Anys[p.Name] = t
		}
		return t.With(n)
	case "scalar":
		return &TS{K: kindOf(p.Name), N: n}
	case "int1":
		hi := int32(60)
		switch p.Name {
		case "interval_day", "precision_time", "precision_timestamp", "precision_timestamp_tz":
			hi = 9
		}
		return &TS{K: kindOf(p.Name), N: n, Len: g.int(p.Ints[0], 0, hi)}
	case "decimal":
		return &TS{K: Decimal, N: n, Prec: g.int(p.Ints[0], 10, 38), Scal: g.int(p.Ints[1], 0, 10)}
	case "list", "map", "struct", "func":
		t := &TS{K: kindOf(p.K), N: n}
		for _, k := range p.Kids {
			t.Kids = append(t.Kids, g.Type(k))
		}
		return t
	case "udt":
		t := &TS{K: UDT, N: n, Ref: g.UDTRef(p.Name)}
		for _, u := range p.UDT {
			switch {
			case u.T != nil:
				t.Params = append(t.Params, &P{Which: 5, T: g.Type(u.T)})
			case u.I:
				t.Params = append(t.Params, &P{Which: 2, I: int64(u.N)})
			default:
				t.Params = append(t.Params, &P{Which: 4, S: u.S})
			}
		}
		return t
	}
	panic("inst " + p.K)
}

// Args makes an argument list meant to match.
func (s *Sig) Args(r *vk.R, ref func(string) uint32) []*TS {
	g := &Inst{R: r, Ints: map[string]int32{}, Anys: map[string]*TS{}, Discrete: s.Null == "DISCRETE", UDTRef: ref}
	n := len(s.Params)
	if s.Var != nil && n > 0 {
		hi := s.Var.Min + 3
		if s.Var.Max != 0 {
			hi = s.Var.Max
		}
		n += r.Range(s.Var.Min, hi) - 1
	}
	var out []*TS
	for i := 0; i < n; i++ {
		p := s.Params[min(i, len(s.Params)-1)]
		if p.T == nil {
			out = append(out, nil)
			continue
		}
		if i >= len(s.Params) && s.Var.Consist == "CONSISTENT" {
			t := out[len(s.Params)-1].Clone()
			t.N = g.null(p.T)
			out = append(out, t)
			continue
		}
		out = append(out, g.Type(p.T))
	}
	return out
}

// MutateArgs changes an argument list in one place.
func MutateArgs(r *vk.R, args []*TS) []*TS {
	out := append([]*TS(nil), args...)
	some := func() int { return r.N(len(out)) }
	o := TypeOpt{Depth: 1, NoVar: true, NoUnspec: true}
	switch r.N(8) {
	case 0:
		if len(out) > 0 {
			i := some()
			return append(out[:i], out[i+1:]...)
		}
		return append(out, GenType(r, o))
	case 1:
		if len(out) > 0 {
			return append(out, out[some()])
		}
		return append(out, GenType(r, o))
	case 2:
		if len(out) > 1 {
			i, j := some(), some()
			out[i], out[j] = out[j], out[i]
		}
	case 3:
		if len(out) > 0 {
			out[some()] = GenType(r, o)
		}
	case 4:
		if len(out) > 0 {
			i := some()
			if out[i] != nil {
				out[i] = out[i].With(3 - out[i].N)
			}
		}
	case 5:
		if len(out) > 0 && r.P(1, 3) {
			out[some()] = nil
		}
	default:
		if len(out) > 0 {
			i := some()
			if out[i] != nil {
				out[i] = MutateType(r, out[i], o)
				fixNull(out[i])
			}
		}
	}
	return out
}

// fixNull makes unspecified nullabilities required.
func fixNull(t *TS) {
	if t.N == types.NullabilityUnspecified {
		t.N = types.NullabilityRequired
	}
	for _, k := range t.Kids {
		fixNull(k)
	}
	for _, p := range t.Params {
		if p.T != nil {
			fixNull(p.T)
		}
	}
}

// PTFromLib reads a library type expression into the model; nil where it has no counterpart.
func PDFromLib(t types.FuncDefArgType) *PD {
	d, err := RefParse(t.String())
	if err != nil || d.Dump() != DumpLib(t) {
		return nil
	}
	return d
}
