package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/cockroachdb/apd/v3"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C15"] = c15 }

// decNum is an exact decimal: coef * 10^-scale.
type decNum struct {
	coef  *big.Int
	scale int64
}

// rat is the exact value; only for scales of modest size.
func (d decNum) rat() *big.Rat {
	if d.scale >= 0 {
		return new(big.Rat).SetFrac(d.coef, spec.Pow10(int(d.scale)))
	}
	return new(big.Rat).SetInt(new(big.Int).Mul(d.coef, spec.Pow10(int(-d.scale))))
}

func digits(v *big.Int) int {
	if v.Sign() == 0 {
		return 1
	}
	return len(new(big.Int).Abs(v).String())
}

// parseDec reads a decimal text independently of the library: ok is false if
// the text is not a number.
func parseDec(s string) (d decNum, ok bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	mant, exp, hasExp := s, "", false
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant, exp, hasExp = s[:i], s[i+1:], true
	}
	ip, fp, _ := strings.Cut(mant, ".")
	all := ip + fp
	if all == "" {
		return d, false
	}
	for _, c := range all {
		if c < '0' || c > '9' {
			return d, false
		}
	}
	d.coef, _ = new(big.Int).SetString(all, 10)
	d.scale = int64(len(fp))
	if hasExp {
		e := exp
		if e != "" && (e[0] == '+' || e[0] == '-') {
			e = e[1:]
		}
		if e == "" {
			return d, false
		}
		for _, c := range e {
			if c < '0' || c > '9' {
				return d, false
			}
		}
		ev, _ := new(big.Int).SetString(exp, 10)
		if ev == nil {
			ev, _ = new(big.Int).SetString(strings.TrimPrefix(exp, "+"), 10)
		}
		if !ev.IsInt64() || ev.Int64() > 1<<40 || ev.Int64() < -1<<40 {
			ev = big.NewInt(int64(ev.Sign()) << 40)
		}
		d.scale -= ev.Int64()
	}
	if neg {
		d.coef.Neg(d.coef)
	}
	return d, true
}

// plain tells whether the number, as written, needs at most 38 digits with at
// least one before the point: such a number must be accepted.
func (d decNum) plain() bool {
	if d.scale <= 0 {
		return int64(digits(d.coef))-d.scale <= 38
	}
	return digits(d.coef) <= 38 && d.scale <= 37
}

// fits tells whether any decimal(p<=38, s) holds the number.
func (d decNum) fits() bool {
	if d.coef.Sign() == 0 {
		return true
	}
	if d.scale < -100 {
		return false
	}
	c, s := new(big.Int).Set(d.coef), d.scale
	ten, m := big.NewInt(10), new(big.Int)
	for s > 0 {
		q, _ := new(big.Int).QuoRem(c, ten, m)
		if m.Sign() != 0 {
			break
		}
		c, s = q, s-1
	}
	if s > 38 {
		return false
	}
	if s < 0 {
		return int64(digits(c))-s <= 38
	}
	return digits(c) <= 38
}

func genDecText(r *vk.R) string {
	var b strings.Builder
	b.WriteString(vk.PickOf(r, "", "", "-", "+"))
	n := vk.PickOf(r, 0, 1, 2, 5, 10, 18, 19, 20, 30, 36, 37, 38, 39, 40, 60)
	if r.P(1, 3) {
		b.WriteString(strings.Repeat("0", r.N(42)))
	}
	lead := r.Bool()
	for i := 0; i < n; i++ {
		d := r.N(10)
		if lead {
			d = 9
		}
		fmt.Fprint(&b, d)
	}
	if r.P(1, 2) {
		b.WriteByte('.')
		m := vk.PickOf(r, 0, 1, 2, 3, 10, 18, 36, 37, 38, 39, 50)
		z := r.P(1, 3)
		for i := 0; i < m; i++ {
			if z {
				b.WriteByte('0')
			} else {
				fmt.Fprint(&b, r.N(10))
			}
		}
	}
	if r.P(1, 3) {
		b.WriteString(vk.PickOf(r, "e", "E"))
		b.WriteString(vk.PickOf(r, "", "+", "-"))
		b.WriteString(vk.PickOf(r, "0", "1", "2", "5", "10", "18", "36", "37", "38", "39", "40", "100", "5000", "99999", "100000", "100001", "2147483647", "2147483648", "-2147483649", "9223372036854775808", "", "007"))
	}
	s := b.String()
	if r.P(1, 8) { // damage
		junk := vk.PickOf(r, " ", "x", "e", ".", "-", "+", "_", "NaN", "Inf", "\n", "٣", "0x1", ",")
		i := r.N(len(s) + 1)
		s = s[:i] + junk + s[i:]
	}
	if r.P(1, 60) {
		s = vk.PickOf(r, "", ".", "e", "NaN", "Infinity", "-Inf", "nan", "sNaN", "+", "-.", ".e5", "1e", "0e0", "-0", "-0.00", "0e99999", "0e-38", "0e-99999", "1_000", " 1", "1 ", "1\n")
	}
	return s
}

// checkDecLit is the oracle on an accepted decimal literal.
func checkDecLit(t *vk.T, lit expr.Literal, want *big.Rat, how string) {
	pl, ok := lit.(*expr.ProtoLiteral)
	t.Must(ok, how+"-kind", "literal is %T", lit)
	dt, ok := pl.Type.(*types.DecimalType)
	t.Must(ok, how+"-type", "type is %T", pl.Type)
	b, ok := pl.Value.([]byte)
	t.Must(ok && len(b) == 16, how+"-width", "value %v", pl.Value)
	v := spec.DecValue(b)
	t.Must(dt.Scale >= 0 && dt.Scale <= dt.Precision && dt.Precision >= 1 && dt.Precision <= 38, how+"-precision-scale", "decimal<%d,%d>", dt.Precision, dt.Scale)
	got := decNum{v, int64(dt.Scale)}.rat()
	t.Check(got.Cmp(want) == 0, how+"-value", "bytes hold %v (scale %d), want %v", v, dt.Scale, want.FloatString(45))
	t.Check(v.Sign() == 0 || digits(v) <= int(dt.Precision), how+"-digits", "%v does not fit decimal<%d,%d>", v, dt.Precision, dt.Scale)
	p := lit.ToProtoLiteral().GetDecimal()
	t.Check(p != nil && bytes.Equal(p.Value, b) && p.Precision == dt.Precision && p.Scale == dt.Scale, how+"-proto", "encoded as %v", p)
	var s string
	if t.NoPanic("ValueString", func() { s = lit.ValueString() }) {
		pr, ok := parseDec(s)
		t.Check(ok && pr.scale < 1000 && pr.scale > -1000 && pr.rat().Cmp(want) == 0, how+"-print", "printed as %q, want %v", s, want.FloatString(45))
		// the printed form can be read back
		back, err := literal.NewDecimalFromString(s, false)
		if t.Check(err == nil || dt.Scale == 38, how+"-print-parse", "printed form %q is rejected: %v", s, err) && err == nil {
			bt := back.GetType().(*types.DecimalType)
			bv := decNum{spec.DecValue(back.(*expr.ProtoLiteral).Value.([]byte)), int64(bt.Scale)}.rat()
			t.Check(bv.Cmp(want) == 0, how+"-print-parse-value", "printed form %q reads back as %v", s, bv)
		}
	}
}

func c15(c *vk.C) {
	c.Rule("decimal-text: texts from a decimal grammar (signs, zeros, exponents, widths around 38 digits) and damaged ones against an independent big-integer parser: accepted values must be exact and describable, numbers needing at most 38 digits as written must be accepted, numbers no decimal(38,s) holds and non-numbers must be rejected; non-trivial = distinct text")
	c.Rule("decimal-apd: apd.Decimal values incl. special forms and extreme exponents, input unchanged; twos-complement: byte patterns x precision x scale; with-type: rescaling accepts exactly when the target holds the value")
	c.ParSection("decimal-text", c.Scale(600000, 8000000), func(t *vk.T) {
		s := genDecText(t.R)
		t.Desc = func() string { return fmt.Sprintf("%q", s) }
		t.Phase = "decimal text"
		d, isNum := parseDec(s)
		var lit expr.Literal
		var err error
		null := t.R.Bool()
		if !t.NoPanic("NewDecimalFromString", func() { lit, err = literal.NewDecimalFromString(s, null) }) {
			return
		}
		t.Obs(s)
		if tr := strings.TrimSpace(s); !isNum && tr != s {
			d, isNum = parseDec(tr) // surrounding space may be accepted or rejected
			if err != nil {
				return
			}
		}
		if !isNum {
			t.Check(err != nil, "accepted-non-number", "accepted as %v", lit)
			return
		}
		if err != nil {
			t.Check(!d.plain(), "rejected-number", "rejected: %v", err)
			return
		}
		t.Must(d.fits(), "accepted-out-of-range", "accepted as %v", lit)
		t.Check((lit.GetType().GetNullability() == types.NullabilityNullable) == null, "nullability", "%v", lit.GetType())
		if d.coef.Sign() == 0 {
			d.scale = 0
		}
		checkDecLit(t, lit, d.rat(), "text")
		b, p, sc, err := expr.DecimalStringToBytes(s)
		t.Check(err == nil && bytes.Equal(b[:], lit.(*expr.ProtoLiteral).Value.([]byte)) && p == lit.GetType().(*types.DecimalType).Precision && sc == lit.GetType().(*types.DecimalType).Scale, "bytes-agree", "DecimalStringToBytes gives %v %d %d %v", b, p, sc, err)
		t.Sample("%q -> %v", s, lit)
	})
	c.ParSection("decimal-apd", c.Scale(300000, 4000000), func(t *vk.T) {
		r := t.R
		coef := spec.GenDec(r, vk.PickOf(r, 1, 5, 18, 19, 30, 37, 38, 39, 45))
		exp := int32(vk.PickOf(r, 0, -1, 1, -5, 5, -37, -38, -39, 36, 37, 38, 39, 100, math.MaxInt32, math.MinInt32, math.MaxInt32-20, math.MinInt32+1))
		if r.Bool() {
			exp = int32(r.N(90) - 45)
		}
		bi := new(apd.BigInt).SetMathBigInt(new(big.Int).Abs(coef))
		if r.P(1, 3) { // a coefficient held in heap storage
			bi = new(apd.BigInt).SetMathBigInt(new(big.Int).Lsh(new(big.Int).Abs(coef), 200))
			bi.Rsh(bi, 200)
		}
		dec := &apd.Decimal{Negative: coef.Sign() < 0, Exponent: exp, Coeff: *bi}
		form := r.N(12)
		if form <= 2 {
			dec.Form = []apd.Form{apd.Infinite, apd.NaN, apd.NaNSignaling}[form]
		}
		text := fmt.Sprintf("%v * 10^%d form %d", coef, exp, dec.Form)
		t.Desc = func() string { return text }
		t.Phase = "apd decimal"
		var lit expr.Literal
		var err error
		if !t.NoPanic("NewDecimalFromApdDecimal", func() { lit, err = literal.NewDecimalFromApdDecimal(dec, false) }) {
			return
		}
		t.Obs(text)
		t.Check(dec.Exponent == exp && dec.Negative == (coef.Sign() < 0) && dec.Coeff.MathBigInt().CmpAbs(coef) == 0, "input-modified", "the decimal given became %v * 10^%d", dec.Coeff.MathBigInt(), dec.Exponent)
		if dec.Form != apd.Finite {
			t.Check(err != nil, "accepted-special", "accepted as %v", lit)
			return
		}
		d := decNum{coef, -int64(exp)}
		if err != nil {
			t.Check(!d.plain(), "rejected-number", "rejected: %v", err)
			return
		}
		t.Must(d.fits(), "accepted-out-of-range", "accepted as %v", lit.GetType())
		if coef.Sign() == 0 {
			d.scale = 0
		}
		checkDecLit(t, lit, d.rat(), "apd")
	})
	c.ParSection("twos-complement", c.Scale(300000, 4000000), func(t *vk.T) {
		r := t.R
		p, s := int32(r.Range(-1, 40)), int32(r.Range(-2, 41))
		if r.P(3, 4) {
			p = int32(r.Range(1, 38))
			s = int32(r.N(int(p) + 1))
		}
		v := spec.GenDec(r, 38)
		if p >= 1 && p <= 38 && r.Bool() {
			v = spec.GenDec(r, int(p))
		}
		b := spec.DecBytes(v)
		if r.P(1, 6) {
			for i := range b {
				b[i] = byte(r.Uint32())
			}
		}
		if r.P(1, 10) {
			b = b[:r.N(17)]
		}
		v = spec.DecValue(b)
		in := bytes.Clone(b)
		t.Desc = func() string { return fmt.Sprintf("%v = %x as decimal<%d,%d>", v, in, p, s) }
		t.Phase = "twos complement"
		var lit expr.Literal
		var err error
		if !t.NoPanic("NewDecimalFromTwosComplement", func() { lit, err = literal.NewDecimalFromTwosComplement(b, p, s, true) }) {
			return
		}
		t.Check(bytes.Equal(b, in), "input-modified", "bytes changed to %x", b)
		ok := len(b) == 16 && p >= 1 && p <= 38 && s >= 0 && s <= p && digits(v) <= int(p)
		t.Obs(fmt.Sprintf("%x %d %d", in, p, s))
		if !ok {
			t.Check(err != nil, "accepted-invalid", "accepted as %v", lit)
			return
		}
		t.Must(err == nil, "rejected-valid", "rejected: %v", err)
		dt := lit.GetType().(*types.DecimalType)
		t.Check(dt.Precision == p && dt.Scale == s && dt.Nullability == types.NullabilityNullable, "type", "type is %v", dt)
		checkDecLit(t, lit, decNum{v, int64(s)}.rat(), "bytes")
	})
	c.ParSection("with-type", c.Scale(300000, 4000000), func(t *vk.T) {
		r := t.R
		p := int32(r.Range(1, 38))
		s := int32(r.N(int(p) + 1))
		v := spec.GenDec(r, int(p))
		if r.P(1, 2) { // trailing zeros
			z := r.N(int(p))
			v.Quo(v, spec.Pow10(z))
			v.Mul(v, spec.Pow10(z))
		}
		tp := int32(r.Range(1, 40))
		ts := int32(r.N(int(tp) + 1))
		if r.P(1, 3) {
			tp = min(p+int32(r.N(5)), 38)
			ts = min(max(0, s+int32(r.N(7)-3)), tp)
		}
		target := &types.DecimalType{Precision: tp, Scale: ts, Nullability: types.Nullability(r.N(3)), TypeVariationRef: uint32(r.N(3))}
		t.Desc = func() string { return fmt.Sprintf("%v as decimal<%d,%d> to %v", v, p, s, target) }
		t.Phase = "with type"
		lit, err := literal.NewDecimalFromTwosComplement(spec.DecBytes(v), p, s, r.Bool())
		t.Must(err == nil, "rejected-valid", "%v", err)
		before := lit.ToProtoLiteral().String()
		var out expr.Literal
		if !t.NoPanic("WithType", func() { out, err = lit.(expr.WithTypeLiteral).WithType(target) }) {
			return
		}
		t.Check(lit.ToProtoLiteral().String() == before, "input-modified", "literal changed to %v", lit)
		// representable: v * 10^(ts-s) is an integer of at most tp digits
		x := new(big.Int).Set(v)
		exact := true
		if ts >= s {
			x.Mul(x, spec.Pow10(int(ts-s)))
		} else {
			m := new(big.Int)
			x.QuoRem(x, spec.Pow10(int(s-ts)), m)
			exact = m.Sign() == 0
		}
		can := exact && tp <= 38 && (digits(x) <= int(tp) || x.Sign() == 0)
		t.Obs(fmt.Sprint(v, p, s, tp, ts))
		if !can {
			t.Check(err != nil, "accepted-lossy", "converted to %v", out)
			return
		}
		t.Must(err == nil, "rejected-representable", "rejected: %v", err)
		t.Check(out.GetType().Equals(target), "type", "type is %#v, want %#v", out.GetType(), target)
		checkDecLit(t, out, decNum{v, int64(s)}.rat(), "with-type")
	})
}
