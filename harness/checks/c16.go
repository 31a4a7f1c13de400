package checks

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/vk"
)

func init() { All["C16"] = c16 }

// daysFromCivil counts days since 1970-01-01 in the proleptic Gregorian calendar.
func daysFromCivil(y int64, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := int64((m + 9) % 12)
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func monthDays(y int64, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

var (
	isoDT  = regexp.MustCompile(`^(-?\d{4,})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?(Z|[+-]\d\d:\d\d)?$`)
	isoT   = regexp.MustCompile(`^(\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?$`)
	isoD   = regexp.MustCompile(`^(-\d{3,}|\d{4,})-(\d\d)-(\d\d)$`)
	isoIY  = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
	isoID  = regexp.MustCompile(`^P(?:(-?\d+)D)?(?:T(?:(-?\d+)H)?(?:(-?\d+)M)?(?:(-?)(\d+)(?:\.(\d+))?S)?)?$`)
	isoIDT = regexp.MustCompile(`^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?)?$`)
)

func atoi64(s string) int64 {
	if s == "" {
		return 0
	}
	b, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	if !ok || !b.IsInt64() {
		return math.MaxInt64
	}
	return b.Int64()
}

func frac9(s string) int64 { return atoi64((s + "000000000")[:9]) }

// instant parses an ISO date-time to nanoseconds since the epoch (UTC when no offset is given).
func instant(s string) (*big.Int, bool) {
	m := isoDT.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	y, mo, d, h, mi, se := atoi64(m[1]), int(atoi64(m[2])), int(atoi64(m[3])), atoi64(m[4]), atoi64(m[5]), atoi64(m[6])
	if mo < 1 || mo > 12 || d < 1 || d > monthDays(y, mo) || h > 23 || mi > 59 || se > 59 {
		return nil, false
	}
	secs := daysFromCivil(y, mo, d)*86400 + h*3600 + mi*60 + se
	if m[8] != "" && m[8] != "Z" {
		oh, om := atoi64(m[8][1:3]), atoi64(m[8][4:6])
		if oh > 23 || om > 59 {
			return nil, false
		}
		o := oh*3600 + om*60
		if m[8][0] == '-' {
			o = -o
		}
		secs -= o
	}
	n := big.NewInt(secs)
	n.Mul(n, big.NewInt(1e9))
	return n.Add(n, big.NewInt(frac9(m[7]))), true
}

func tod(s string) (int64, bool) {
	m := isoT.FindStringSubmatch(s)
	if m == nil || atoi64(m[1]) > 23 || atoi64(m[2]) > 59 || atoi64(m[3]) > 59 {
		return 0, false
	}
	return (atoi64(m[1])*3600+atoi64(m[2])*60+atoi64(m[3]))*1e9 + frac9(m[4]), true
}

// atPrec is the value of nanoseconds ns at precision p, rounded down; exact tells whether nothing was lost.
func atPrec(ns *big.Int, p int) (v *big.Int, exact bool) {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(ns, pow10(9-p), m)
	return q, m.Sign() == 0
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func nanosOf(v int64, p int) *big.Int {
	n := big.NewInt(v)
	return n.Mul(n, pow10(9-p))
}

// genInstant picks an instant as (seconds, nanoseconds).
func genInstant(r *vk.R) (int64, int64) {
	var s int64
	switch r.N(7) {
	case 0:
		s = int64(r.Range(-3, 3))
	case 1:
		s = r.Int64N(1 << 33)
	case 2:
		s = -r.Int64N(1 << 33)
	case 3: // around the range of int64 nanoseconds
		s = vk.PickOf(r, int64(-9223372037), 9223372036) + int64(r.Range(-2, 2))
	case 4:
		s = r.Int64N(400e9) - 200e9
	case 5: // around the range of int64 microseconds
		s = vk.PickOf(r, int64(-9223372036855), 9223372036854) + int64(r.Range(-2, 2))
	case 6:
		s = daysFromCivil(int64(r.Range(1, 9999)), r.Range(1, 12), r.Range(1, 28))*86400 + int64(r.N(86400))
	}
	n := r.Int64N(1e9)
	switch r.N(4) {
	case 0:
		n = 0
	case 1:
		n -= n % int64(math.Pow10(r.N(10)))
	case 2:
		n = vk.PickOf(r, int64(1), 10, 999999999, 999999000, 500000000, 999000000, 1000, 1000000)
	}
	return s, n
}

func instNs(s, n int64) *big.Int {
	b := big.NewInt(s)
	b.Mul(b, big.NewInt(1e9))
	return b.Add(b, big.NewInt(n))
}

func lit(nullable bool) *proto.Expression_Literal {
	return &proto.Expression_Literal{Nullable: nullable}
}

func litPT(v int64, p int, nl bool) *proto.Expression_Literal {
	l := lit(nl)
	l.LiteralType = &proto.Expression_Literal_PrecisionTime_{PrecisionTime: &proto.Expression_Literal_PrecisionTime{Precision: int32(p), Value: v}}
	return l
}
func litPTS(v int64, p int, nl bool) *proto.Expression_Literal {
	l := lit(nl)
	l.LiteralType = &proto.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &proto.Expression_Literal_PrecisionTimestamp{Precision: int32(p), Value: v}}
	return l
}
func litPTZ(v int64, p int, nl bool) *proto.Expression_Literal {
	l := lit(nl)
	l.LiteralType = &proto.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &proto.Expression_Literal_PrecisionTimestamp{Precision: int32(p), Value: v}}
	return l
}
func litID(d, s int32, ss int64, p int, nl bool) *proto.Expression_Literal {
	l := lit(nl)
	l.LiteralType = &proto.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: &proto.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: ss,
		PrecisionMode: &proto.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(p)}}}
	return l
}
func litIY(y, m int32, nl bool) *proto.Expression_Literal {
	l := lit(nl)
	l.LiteralType = &proto.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: &proto.Expression_Literal_IntervalYearToMonth{Years: y, Months: m}}
	return l
}

// expect runs a constructor and compares the literal with want (nil: an error is expected).
func expect(t *vk.T, what string, want *proto.Expression_Literal, f func() (expr.Literal, error)) expr.Literal {
	var g expr.Literal
	var err error
	if !t.NoPanic(what, func() { g, err = f() }) {
		return nil
	}
	if want == nil {
		t.Check(err != nil, "accepted:"+what, "%s accepted: %v", what, g)
		return nil
	}
	if !t.Check(err == nil && g != nil, "rejected:"+what, "%s rejected: %v", what, err) {
		return nil
	}
	t.Check(pb.Equal(g.ToProtoLiteral(), want), "value:"+what, "%s:\n%s", what, pdiff(want, g.ToProtoLiteral()))
	return g
}

func isoOf(t *vk.T, what string, l expr.Literal) string {
	var s string
	t.NoPanic("printing "+what, func() {
		if i, ok := l.(types.IsoValuePrinter); ok {
			s = i.IsoValueString()
		} else {
			s = l.ValueString()
		}
	})
	return s
}

// intervalNs is the day count and the nanoseconds of an ISO interval.
func intervalNs(s string) (days int64, ns *big.Int, ok bool) {
	m := isoID.FindStringSubmatch(s)
	if m == nil || s == "P" || strings.HasSuffix(s, "T") {
		return 0, nil, false
	}
	ns = new(big.Int)
	for i, mul := range map[int]int64{2: 3600, 3: 60} {
		x := big.NewInt(atoi64(m[i]))
		ns.Add(ns, x.Mul(x, big.NewInt(mul*1e9)))
	}
	sec := big.NewInt(atoi64(m[5]))
	sec.Mul(sec, big.NewInt(1e9))
	sec.Add(sec, big.NewInt(frac9(m[6])))
	if m[4] == "-" {
		sec.Neg(sec)
	}
	return atoi64(m[1]), ns.Add(ns, sec), true
}

func i32ok(v int64) bool { return v >= math.MinInt32 && v <= math.MaxInt32 }

func c16(c *vk.C) {
	c.Rule("numbers: constructors from integers and time values over boundary and random instants (year -290000 to 290000), all precisions, both sides of each field's range; expected protobuf computed with big integers and an own calendar; an out-of-range value must give an error")
	c.Rule("text: generated valid texts and single-character mutations, classified by an independent recogniser as valid (with a value), invalid (error required) or unspecified (only no panic); iso: the ISO form of a literal, read by an independent parser, must denote the literal's value; convert: WithType keeps the value up to rounding at the new precision or errors")

	c.ParSection("instants", c.Scale(60000, 2000000), func(t *vk.T) {
		r := t.R
		s, n := genInstant(r)
		tm := time.Unix(s, n).UTC()
		if r.P(1, 3) {
			tm = tm.In(time.FixedZone("x", r.Range(-14*3600, 14*3600)))
		}
		p, nl := r.N(10), r.Bool()
		ns := instNs(s, n)
		t.Desc = func() string { return fmt.Sprintf("instant %d s + %d ns, precision %d", s, n, p) }
		us, _ := atPrec(ns, 6)
		mk := func(v *big.Int, f func(v int64) *proto.Expression_Literal) *proto.Expression_Literal {
			if !v.IsInt64() {
				return nil
			}
			return f(v.Int64())
		}
		expect(t, "NewTimestamp", mk(us, func(v int64) *proto.Expression_Literal {
			l := lit(nl)
			l.LiteralType = &proto.Expression_Literal_Timestamp{Timestamp: v}
			return l
		}), func() (expr.Literal, error) { return literal.NewTimestamp(tm, nl) })
		expect(t, "NewTimestampTZ", mk(us, func(v int64) *proto.Expression_Literal {
			l := lit(nl)
			l.LiteralType = &proto.Expression_Literal_TimestampTz{TimestampTz: v}
			return l
		}), func() (expr.Literal, error) { return literal.NewTimestampTZ(tm, nl) })
		v, _ := atPrec(ns, p)
		tp := types.TimePrecision(p)
		expect(t, "NewPrecisionTimestampFromTime", mk(v, func(v int64) *proto.Expression_Literal { return litPTS(v, p, nl) }),
			func() (expr.Literal, error) { return literal.NewPrecisionTimestampFromTime(tp, tm, nl) })
		expect(t, "NewPrecisionTimestampTzFromTime", mk(v, func(v int64) *proto.Expression_Literal { return litPTZ(v, p, nl) }),
			func() (expr.Literal, error) { return literal.NewPrecisionTimestampTzFromTime(tp, tm, nl) })
		if v.IsInt64() {
			var got int64
			t.NoPanic("GetTimeValueByPrecision", func() { got = types.GetTimeValueByPrecision(tm, tp) })
			t.Check(got == v.Int64(), fmt.Sprintf("GetTimeValueByPrecision:%d", p), "got %d want %v", got, v)
		}
		day := new(big.Int).Mod(ns, big.NewInt(86400e9))
		dv, _ := atPrec(day, p)
		expect(t, "NewPrecisionTimeFromTime", litPT(dv.Int64(), p, nl), func() (expr.Literal, error) { return literal.NewPrecisionTimeFromTime(tp, tm.UTC(), nl) })
		if t.Index%50 == 0 {
			bad := vk.PickOf(r, types.TimePrecision(-1), 10, 1000, math.MinInt32)
			expect(t, "NewPrecisionTimestampFromTime bad precision", nil, func() (expr.Literal, error) { return literal.NewPrecisionTimestampFromTime(bad, tm, nl) })
			expect(t, "NewPrecisionTimestampTzFromTime bad precision", nil, func() (expr.Literal, error) { return literal.NewPrecisionTimestampTzFromTime(bad, tm, nl) })
			expect(t, "NewPrecisionTimeFromTime bad precision", nil, func() (expr.Literal, error) { return literal.NewPrecisionTimeFromTime(bad, tm, nl) })
			expect(t, "NewPrecisionTimestampFromString bad precision", nil, func() (expr.Literal, error) {
				return literal.NewPrecisionTimestampFromString(bad, "2020-01-01T00:00:00", nl)
			})
		}
		t.Obs(s, n, p)
	})

	c.ParSection("numbers", c.Scale(60000, 2000000), func(t *vk.T) {
		r := t.R
		nl := r.Bool()
		big64 := func() int64 {
			return vk.PickOf(r, 0, 1, -1, 86399999999, 86400000000, math.MaxInt64, math.MinInt64, int64(r.Uint64()), r.Int64N(1e11), math.MaxInt32, math.MinInt32, math.MaxInt32+1, math.MinInt32-1, 1<<32)
		}
		i32 := func(hi int) int32 {
			return vk.PickOf(r, int32(r.N(hi)), int32(r.N(hi)), int32(r.N(hi)), int32(hi), -1, math.MaxInt32, math.MinInt32, int32(r.Uint32()), -int32(r.N(hi)))
		}
		d := big64()
		h, m, s, us := i32(24), i32(60), i32(60), i32(1000000)
		t.Desc = func() string { return fmt.Sprintf("date %d; time %d:%d:%d.%d", d, h, m, s, us) }
		var want *proto.Expression_Literal
		if i32ok(d) {
			want = lit(nl)
			want.LiteralType = &proto.Expression_Literal_Date{Date: int32(d)}
		}
		expect(t, "NewDate", want, func() (expr.Literal, error) { return literal.NewDate(int(d), nl) })
		tot := ((int64(h)*60+int64(m))*60+int64(s))*1000000 + int64(us)
		want = nil
		if tot >= 0 && tot < 86400e6 {
			want = lit(nl)
			want.LiteralType = &proto.Expression_Literal_Time{Time: tot}
		}
		expect(t, "NewTime", want, func() (expr.Literal, error) { return literal.NewTime(h, m, s, us, nl) })
		v := big64()
		want = nil
		if v >= 0 && v < 86400e6 {
			want = lit(nl)
			want.LiteralType = &proto.Expression_Literal_Time{Time: v}
		}
		expect(t, "NewTimeFromMicros", want, func() (expr.Literal, error) { return literal.NewTimeFromMicros(v, nl) })
		want = lit(nl)
		want.LiteralType = &proto.Expression_Literal_Timestamp{Timestamp: v}
		expect(t, "NewTimestampFromMicros", want, func() (expr.Literal, error) { return literal.NewTimestampFromMicros(v, nl) })
		want = lit(nl)
		want.LiteralType = &proto.Expression_Literal_TimestampTz{TimestampTz: v}
		expect(t, "NewTimestampTZFromMicros", want, func() (expr.Literal, error) { return literal.NewTimestampTZFromMicros(v, nl) })
		p := r.N(10)
		expect(t, "NewPrecisionTimestamp", litPTS(v, p, nl), func() (expr.Literal, error) {
			return literal.NewPrecisionTimestamp(types.TimePrecision(p), v, nl)
		})
		expect(t, "NewPrecisionTimestampTz", litPTZ(v, p, nl), func() (expr.Literal, error) {
			return literal.NewPrecisionTimestampTz(types.TimePrecision(p), v, nl)
		})
		if v >= 0 && nanosOf(v, p).Cmp(big.NewInt(86400e9)) < 0 {
			expect(t, "NewPrecisionTime", litPT(v, p, nl), func() (expr.Literal, error) {
				return literal.NewPrecisionTime(types.TimePrecision(p), v, nl)
			})
		}
		expect(t, "NewIntervalYearsToMonth", litIY(h, m, nl), func() (expr.Literal, error) { return literal.NewIntervalYearsToMonth(h, m, nl) })
		expect(t, "NewIntervalDaysToSecond", litID(h, s, v, 6, nl), func() (expr.Literal, error) { return literal.NewIntervalDaysToSecond(h, s, v, nl) })
		if w := nanosOf(v, p); w.IsInt64() {
			var got time.Duration
			t.NoPanic("SubSecondsToDuration", func() { got = types.SubSecondsToDuration(v, types.TimePrecision(p)) })
			t.Check(int64(got) == w.Int64(), "SubSecondsToDuration", "SubSecondsToDuration(%d, %d)=%d want %v", v, p, got, w)
		}
		t.Obs(d, h, m, s, us, v)
	})

	c.ParSection("text-instants", c.Scale(60000, 2000000), func(t *vk.T) {
		r := t.R
		nl := r.Bool()
		y := vk.PickOf(r, r.Range(1, 9999), r.Range(1900, 2100), 0, 1, 9999, 1970, 1969)
		mo := r.Range(1, 12)
		d := r.Range(1, monthDays(int64(y), mo))
		if r.P(1, 10) {
			mo, d = 2, 29
		}
		if r.P(1, 20) {
			d = r.Range(29, 32)
		}
		date := fmt.Sprintf("%04d-%02d-%02d", y, mo, d)
		tm := fmt.Sprintf("%02d:%02d:%02d", r.N(24), r.N(60), r.N(60))
		if r.P(1, 20) {
			tm = vk.PickOf(r, "24:00:00", "23:60:00", "23:59:60", "00:00:00", "23:59:59")
		}
		if k := r.N(10); k > 0 && r.P(2, 3) {
			tm += "." + fmt.Sprintf("%09d", r.N(1e9))[:k]
		}
		off := ""
		if r.P(1, 3) {
			off = vk.PickOf(r, "Z", "+00:00", "+05:30", "-08:00", "-00:30", "+14:00", fmt.Sprintf("%c%02d:%02d", "+-"[r.N(2)], r.N(24), r.N(60)))
		}
		dt := date + "T" + tm + off
		if r.P(1, 3) { // one mutation
			mut := func(s string) string {
				i := r.N(len(s) + 1)
				ch := string("0123456789:-+T.ZPx "[r.N(19)])
				switch {
				case i == len(s):
					return s + ch
				case r.P(1, 3):
					return s[:i] + s[i+1:]
				case r.Bool():
					return s[:i] + ch + s[i:]
				}
				return s[:i] + ch + s[i+1:]
			}
			date, tm, dt = mut(date), mut(tm), mut(dt)
		}
		p := r.N(10)
		tp := types.TimePrecision(p)
		t.Desc = func() string { return fmt.Sprintf("date %q time %q timestamp %q precision %d", date, tm, dt, p) }
		// date
		if m := isoD.FindStringSubmatch(date); m != nil && len(m[1]) == 4 && date[0] != '-' {
			yy, mm, dd := atoi64(m[1]), int(atoi64(m[2])), int(atoi64(m[3]))
			var want *proto.Expression_Literal
			if mm >= 1 && mm <= 12 && dd >= 1 && dd <= monthDays(yy, mm) {
				want = lit(nl)
				want.LiteralType = &proto.Expression_Literal_Date{Date: int32(daysFromCivil(yy, mm, dd))}
			}
			expect(t, "NewDateFromString", want, func() (expr.Literal, error) { return literal.NewDateFromString(date, nl) })
		} else {
			expect(t, "NewDateFromString malformed", nil, func() (expr.Literal, error) { return literal.NewDateFromString(date, nl) })
		}
		// time of day; one-digit hours, comma fractions and long fractions are left unspecified
		lenient := regexp.MustCompile(`^\d?\d:\d\d?:\d\d?([.,]\d+)?$`)
		if v, ok := tod(tm); ok {
			want := lit(nl)
			want.LiteralType = &proto.Expression_Literal_Time{Time: v / 1000}
			expect(t, "NewTimeFromString", want, func() (expr.Literal, error) { return literal.NewTimeFromString(tm, nl) })
			dv, _ := atPrec(big.NewInt(v), p)
			expect(t, "NewPrecisionTimeFromString", litPT(dv.Int64(), p, nl), func() (expr.Literal, error) { return literal.NewPrecisionTimeFromString(tp, tm, nl) })
		} else if isoT.MatchString(tm) || !lenient.MatchString(tm) {
			expect(t, "NewTimeFromString malformed", nil, func() (expr.Literal, error) { return literal.NewTimeFromString(tm, nl) })
			expect(t, "NewPrecisionTimeFromString malformed", nil, func() (expr.Literal, error) { return literal.NewPrecisionTimeFromString(tp, tm, nl) })
		}
		// a time without a date is not a timestamp
		for what, f := range map[string]func(s string) (expr.Literal, error){
			"NewTimestampFromString":            func(s string) (expr.Literal, error) { return literal.NewTimestampFromString(s, nl) },
			"NewTimestampTZFromString":          func(s string) (expr.Literal, error) { return literal.NewTimestampTZFromString(s, nl) },
			"NewPrecisionTimestampFromString":   func(s string) (expr.Literal, error) { return literal.NewPrecisionTimestampFromString(tp, s, nl) },
			"NewPrecisionTimestampTzFromString": func(s string) (expr.Literal, error) { return literal.NewPrecisionTimestampTzFromString(tp, s, nl) },
		} {
			expect(t, what+" of a time", nil, func() (expr.Literal, error) { return f(tm) })
			m := isoDT.FindStringSubmatch(dt)
			strict := m != nil && len(m[1]) == 4 && dt[0] != '-' && dt[10] == 'T'
			if !strict {
				if !regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d?\d:\d\d?:\d\d?([.,]\d+)?(Z|[+-]\d\d:\d\d)?$`).MatchString(dt) {
					expect(t, what+" malformed", nil, func() (expr.Literal, error) { return f(dt) })
				} else {
					t.NoPanic(what, func() { _, _ = f(dt) })
				}
				continue
			}
			hasOff := m[8] != "" && m[8] != "Z" && m[8] != "+00:00" && m[8] != "-00:00"
			if hasOff && !strings.Contains(what, "T"+"Z") && !strings.Contains(what, "Tz") {
				continue // an offset on a type without one is not specified
			}
			ns, ok := instant(dt)
			if !ok && m[8] != "" && m[8] != "Z" {
				if _, ok = instant(strings.TrimSuffix(dt, m[8])); ok {
					continue // offsets like +24:60 are not specified
				}
			}
			if !ok {
				expect(t, what+" out of range", nil, func() (expr.Literal, error) { return f(dt) })
				continue
			}
			pp := p
			if !strings.Contains(what, "Precision") {
				pp = 6
			}
			v, _ := atPrec(ns, pp)
			var want *proto.Expression_Literal
			if v.IsInt64() {
				want = lit(nl)
				switch what {
				case "NewTimestampFromString":
					want.LiteralType = &proto.Expression_Literal_Timestamp{Timestamp: v.Int64()}
				case "NewTimestampTZFromString":
					want.LiteralType = &proto.Expression_Literal_TimestampTz{TimestampTz: v.Int64()}
				case "NewPrecisionTimestampFromString":
					want = litPTS(v.Int64(), p, nl)
				default:
					want = litPTZ(v.Int64(), p, nl)
				}
			}
			expect(t, what, want, func() (expr.Literal, error) { return f(dt) })
		}
		t.Obs(date, tm, dt)
	})

	c.ParSection("text-intervals", c.Scale(80000, 2000000), func(t *vk.T) {
		r := t.R
		nl := r.Bool()
		num := func(hi int) string {
			return fmt.Sprint(vk.PickOf(r, r.N(hi), r.N(hi), r.N(hi), 0, math.MaxInt32, math.MaxInt32+1, math.MaxInt32/60, math.MaxInt32/3600, math.MaxInt32/3600+1, 1<<32, 1<<32+5))
		}
		iy := "P"
		if r.P(3, 4) {
			iy += vk.PickOf(r, "", "", "-", "+") + num(100) + "Y"
		}
		if r.P(3, 4) {
			iy += vk.PickOf(r, "", "", "-") + num(12) + "M"
		}
		id := "P"
		if r.P(2, 3) {
			id += num(100) + "D"
		}
		if r.P(3, 4) {
			id += "T"
			if r.Bool() {
				id += num(24) + "H"
			}
			if r.Bool() {
				id += num(60) + "M"
			}
			if r.P(2, 3) {
				id += num(60)
				if r.P(2, 3) {
					id += "." + fmt.Sprintf("%012d", r.Int64N(1e12))[:r.Range(1, 12)]
				}
				id += "S"
			}
		}
		if r.P(1, 3) {
			mut := func(s string) string {
				i := r.N(len(s) + 1)
				ch := string("0123456789DHMSYTP.-+ "[r.N(21)])
				switch {
				case i == len(s):
					return s + ch
				case r.P(1, 3):
					return s[:i] + s[i+1:]
				case r.Bool():
					return s[:i] + ch + s[i:]
				}
				return s[:i] + ch + s[i+1:]
			}
			iy, id = mut(iy), mut(id)
		}
		t.Desc = func() string { return fmt.Sprintf("year interval %q, day interval %q", iy, id) }
		what := "NewIntervalYearsToMonthFromString"
		if m := isoIY.FindStringSubmatch(iy); m != nil && iy != "P" {
			var want *proto.Expression_Literal
			if y, mo := atoi64(m[1]), atoi64(m[2]); i32ok(y) && i32ok(mo) {
				want = litIY(int32(y), int32(mo), nl)
			} else {
				what += " out of range"
			}
			expect(t, what, want, func() (expr.Literal, error) { return literal.NewIntervalYearsToMonthFromString(iy, nl) })
		} else {
			expect(t, what+" malformed", nil, func() (expr.Literal, error) { return literal.NewIntervalYearsToMonthFromString(iy, nl) })
		}
		what = "NewIntervalDaysToSecondFromString"
		f := func() (expr.Literal, error) { return literal.NewIntervalDaysToSecondFromString(id, nl) }
		m := isoIDT.FindStringSubmatch(id)
		switch {
		case m != nil && id != "P" && !strings.HasSuffix(id, "T"):
			fr := strings.TrimRight(m[5], "0")
			days, secs := atoi64(m[1]), new(big.Int)
			for i, mul := range map[int]int64{2: 3600, 3: 60, 4: 1} {
				x := big.NewInt(atoi64(m[i]))
				secs.Add(secs, x.Mul(x, big.NewInt(mul)))
			}
			if !i32ok(days) || !secs.IsInt64() || !i32ok(secs.Int64()) || len(fr) > 9 {
				expect(t, what+" out of range", nil, f)
			} else if g := expect(t, what, nonNilIf(len(fr) <= 6, litID(int32(days), int32(secs.Int64()), frac9(m[5])/1000, 6, nl), litID(int32(days), int32(secs.Int64()), frac9(m[5]), 9, nl)), f); g != nil {
				gd, gn, ok := intervalNs(isoOf(t, "interval_day", g))
				wn := new(big.Int).Add(new(big.Int).Mul(secs, big.NewInt(1e9)), big.NewInt(frac9(m[5])))
				t.Check(ok && gd == days && gn.Cmp(wn) == 0, "iso:interval_day", "%q prints as %q", id, isoOf(t, "interval_day", g))
				g2, err := literal.NewIntervalDaysToSecondFromString(isoOf(t, "interval_day", g), nl)
				t.Check(err == nil && g2 != nil && g2.Equals(g), "reparse:interval_day", "%q prints as %q which parses to %v, %v", id, isoOf(t, "interval_day", g), g2, err)
			}
		case regexp.MustCompile(`^P.*[^\d]?\.\d+S$`).MatchString(id): // a fraction without integer digits is not specified
			t.NoPanic(what, func() { _, _ = f() })
		default:
			expect(t, what+" malformed", nil, f)
		}
		t.Obs(iy, id)
	})

	c.ParSection("iso", c.Scale(80000, 2000000), func(t *vk.T) {
		r := t.R
		nl := r.Bool()
		s, n := genInstant(r)
		if s > 250e9 || s < -250e9 {
			s /= 1000
		}
		ns := instNs(s, n)
		p := r.N(10)
		tp := types.TimePrecision(p)
		v, _ := atPrec(ns, p)
		if !v.IsInt64() {
			p, tp = 6, 6
			v, _ = atPrec(ns, 6)
		}
		us, _ := atPrec(ns, 6)
		t.Desc = func() string { return fmt.Sprintf("%d s + %d ns at precision %d", s, n, p) }
		dtCheck := func(what string, l expr.Literal, err error, want *big.Int, min int) {
			t.Must(err == nil, "build:"+what, "%v", err)
			iso := isoOf(t, what, l)
			got, ok := instant(iso)
			key := "iso:" + what
			if ms, _ := atPrec(want, 3); what == "precision_timestamp_tz" && ok && got.Cmp(nanosOf(ms.Int64(), 3)) == 0 {
				key += ":digits-below-ms-dropped"
			}
			t.Check(ok && got.Cmp(want) == 0, key, "%v prints as %q, which denotes %v", want, iso, got)
			vs := l.ValueString()
			got, ok = instant(vs)
			t.Check(ok && got.Cmp(want) == 0, "string:"+what, "%v prints as %q, which denotes %v", want, vs, got)
		}
		l, err := literal.NewTimestampFromMicros(us.Int64(), nl)
		dtCheck("timestamp", l, err, nanosOf(us.Int64(), 6), 6)
		l, err = literal.NewTimestampTZFromMicros(us.Int64(), nl)
		dtCheck("timestamp_tz", l, err, nanosOf(us.Int64(), 6), 6)
		l, err = literal.NewPrecisionTimestamp(tp, v.Int64(), nl)
		dtCheck("precision_timestamp", l, err, nanosOf(v.Int64(), p), p)
		l, err = literal.NewPrecisionTimestampTz(tp, v.Int64(), nl)
		dtCheck("precision_timestamp_tz", l, err, nanosOf(v.Int64(), p), p)
		if s > -62e9 && s < 253e9 { // the text form takes four-digit years
			i1 := isoOf(t, "precision_timestamp_tz", l)
			g, err := literal.NewPrecisionTimestampTzFromString(tp, i1, nl)
			key := "reparse:precision_timestamp_tz"
			if v.Int64()%int64(math.Pow10(max(p-3, 0))) != 0 && p > 3 {
				key += ":digits-below-ms-dropped"
			}
			t.Check(err == nil && g != nil && g.Equals(l), key, "%q parses to %v, %v", i1, g, err)
		}
		day := new(big.Int).Mod(ns, big.NewInt(86400e9))
		dv, _ := atPrec(day, p)
		l, err = literal.NewPrecisionTime(tp, dv.Int64(), nl)
		t.Must(err == nil, "build:precision_time", "%v", err)
		got, ok := tod(isoOf(t, "precision_time", l))
		t.Check(ok && nanosOf(dv.Int64(), p).Int64() == got, "iso:precision_time", "%v prints as %q", dv, isoOf(t, "precision_time", l))
		l, err = literal.NewTimeFromMicros(day.Int64()/1000, nl)
		t.Must(err == nil, "build:time", "%v", err)
		got, ok = tod(isoOf(t, "time", l))
		t.Check(ok && got/1000 == day.Int64()/1000 && got%1000 == 0, "iso:time", "%v us prints as %q", day.Int64()/1000, isoOf(t, "time", l))
		// dates
		dd := int32(s / 86400)
		l, err = literal.NewDate(int(dd), nl)
		t.Must(err == nil, "build:date", "%v", err)
		m := isoD.FindStringSubmatch(isoOf(t, "date", l))
		t.Check(m != nil && daysFromCivil(atoi64(m[1]), int(atoi64(m[2])), int(atoi64(m[3]))) == int64(dd), "iso:date", "day %d prints as %q", dd, isoOf(t, "date", l))
		// intervals
		i32 := func() int32 {
			return vk.PickOf(r, 0, int32(r.Range(-5, 5)), int32(r.Range(0, 90000)), int32(r.Uint32()), math.MaxInt32, math.MinInt32)
		}
		y, mo := i32(), i32()
		l, err = literal.NewIntervalYearsToMonth(y, mo, nl)
		t.Must(err == nil, "build:interval_year", "%v", err)
		m = isoIY.FindStringSubmatch(isoOf(t, "interval_year", l))
		t.Check(m != nil && atoi64(m[1]) == int64(y) && atoi64(m[2]) == int64(mo), "iso:interval_year", "%d years %d months print as %q", y, mo, isoOf(t, "interval_year", l))
		da, se := i32(), i32()
		ss := vk.PickOf(r, 0, 1, -1, int64(r.Range(-999, 999)), r.Int64N(1e9), -r.Int64N(1e9), int64(r.Uint64()))
		ip := litID(da, se, ss, p, nl)
		if p == 6 && r.Bool() {
			ss = int64(int32(ss))
			ip.GetIntervalDayToSecond().Subseconds = 0
			ip.GetIntervalDayToSecond().PrecisionMode = &proto.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(ss)}
		}
		l = expr.LiteralFromProto(ip)
		t.Must(l != nil, "decode:interval_day", "nil for %v", ip)
		iso := isoOf(t, "interval_day", l)
		gd, gn, ok := intervalNs(iso)
		wn := new(big.Int).Add(instNs(int64(se), 0), nanosOf(ss, p))
		t.Check(ok && gd == int64(da) && gn.Cmp(wn) == 0, "iso:interval_day", "%d days %d s %d at precision %d prints as %q", da, se, ss, p, iso)
		// conversion to another precision
		np := r.N(10)
		ntp := types.TimePrecision(np)
		nn := vk.PickOf(r, types.NullabilityNullable, types.NullabilityRequired)
		conv := func(what string, l expr.Literal, ty types.Type, v int64, mk func(v int64) *proto.Expression_Literal, trunc bool) {
			src := nanosOf(v, p)
			w, _ := atPrec(src, np)
			if trunc && src.Sign() < 0 {
				w, _ = atPrec(new(big.Int).Neg(src), np)
				w.Neg(w)
			}
			before := pb.Clone(l.ToProtoLiteral())
			var want *proto.Expression_Literal
			if w.IsInt64() {
				want = mk(w.Int64())
			} else {
				what += " out of range"
			}
			expect(t, what, want, func() (expr.Literal, error) { return l.(expr.WithTypeLiteral).WithType(ty) })
			t.Check(pb.Equal(before, l.ToProtoLiteral()), "mutated:"+what, "WithType changed its receiver")
		}
		nb := nn == types.NullabilityNullable
		l, _ = literal.NewPrecisionTimestamp(tp, v.Int64(), nl)
		conv("precision_timestamp WithType", l, &types.PrecisionTimestampType{Precision: ntp, Nullability: nn}, v.Int64(), func(v int64) *proto.Expression_Literal { return litPTS(v, np, nb) }, false)
		l, _ = literal.NewPrecisionTimestampTz(tp, v.Int64(), nl)
		conv("precision_timestamp_tz WithType", l, &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: ntp, Nullability: nn}}, v.Int64(), func(v int64) *proto.Expression_Literal { return litPTZ(v, np, nb) }, false)
		l, _ = literal.NewPrecisionTime(tp, dv.Int64(), nl)
		conv("precision_time WithType", l, &types.PrecisionTimeType{Precision: ntp, Nullability: nn}, dv.Int64(), func(v int64) *proto.Expression_Literal { return litPT(v, np, nb) }, false)
		l = expr.LiteralFromProto(ip)
		conv("interval_day WithType", l, &types.IntervalDayType{Precision: ntp, Nullability: nn}, ss, func(v int64) *proto.Expression_Literal { return litID(da, se, v, np, nb) }, true)
		t.Obs(s, n, p, da, se, ss, np)
		t.Sample("%s", iso)
	})
}

func nonNilIf(c bool, a, b *proto.Expression_Literal) *proto.Expression_Literal {
	if c {
		return a
	}
	return b
}
