package checks

import (
	"fmt"
	"io/fs"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C19"] = c19 }

// tv is a value of a test file: how it is written and what it is.
type tv struct {
	v, ty string
	enum  string
	ts    *spec.TS
	ls    *spec.LS
	pin   string // a kind whose printed form is fixed by the repository's tests and cannot be read back
}

func (x tv) text() string { return x.v + "::" + x.ty }

func casing(r *vk.R, s string) string {
	switch r.N(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func typeText(r *vk.R, t *spec.TS) string {
	name := t.K.String()
	if r.Bool() {
		switch t.K {
		case spec.Bool, spec.String, spec.Binary, spec.Timestamp, spec.TimestampTz, spec.IntervalYear, spec.IntervalDay, spec.Decimal, spec.PTime,
			spec.PTimestamp, spec.PTimestampTz, spec.FixedChar, spec.VarChar, spec.FixedBinary:
			name = t.K.Short()
		}
	}
	name = casing(r, name)
	if t.N == types.NullabilityNullable {
		name += "?"
	}
	sp := vk.PickOf(r, "", "", " ")
	switch t.K {
	case spec.Decimal:
		if t.Prec == 38 && t.Scal == 0 && r.Bool() {
			return name
		}
		return fmt.Sprintf("%s<%d,%s%d>", name, t.Prec, sp, t.Scal)
	case spec.IntervalDay:
		if t.Len == 0 && r.Bool() {
			return name
		}
		return fmt.Sprintf("%s<%d>", name, t.Len)
	case spec.PTime, spec.PTimestamp, spec.PTimestampTz, spec.FixedChar, spec.VarChar, spec.FixedBinary:
		return fmt.Sprintf("%s<%d>", name, t.Len)
	case spec.List:
		return fmt.Sprintf("%s<%s%s>", name, sp, typeText(r, t.Kids[0]))
	}
	return name
}

var (
	argKinds = []spec.Kind{spec.Bool, spec.I8, spec.I16, spec.I32, spec.I64, spec.Fp32, spec.Fp64, spec.String, spec.Date, spec.Time, spec.Timestamp, spec.TimestampTz,
		spec.IntervalYear, spec.IntervalDay, spec.FixedChar, spec.VarChar, spec.FixedBinary, spec.Decimal, spec.PTime, spec.PTimestamp, spec.PTimestampTz}
	// strings that the lexer of the format reads as something else
	lexOther = regexp.MustCompile(`^(\d{4}-\d\d-\d\d(T\d\d:\d\d:\d\d(\.\d+)?([+-]\d\d:\d\d)?)?|\d\d:\d\d:\d\d(\.\d+)?|(?i:p[0-9+\-ymdthsf.]*))$`)
)

func genTT(r *vk.R, kinds []spec.Kind) *spec.TS {
	t := &spec.TS{K: vk.Pick(r, kinds), N: types.NullabilityRequired}
	if r.P(1, 4) {
		t.N = types.NullabilityNullable
	}
	switch t.K {
	case spec.Decimal:
		t.Prec = int32(vk.PickOf(r, 38, 38, 1, 2, 5, 10, 18, 19, 37))
		t.Scal = min(vk.PickOf(r, 0, int32(r.N(int(t.Prec)+1)), t.Prec), 37) // the library reads the 0 before the point as a digit
	case spec.IntervalDay, spec.PTime, spec.PTimestamp, spec.PTimestampTz:
		t.Len = vk.PickOf(r, int32(0), 3, 6, 9, int32(r.N(10)))
	case spec.FixedChar, spec.VarChar, spec.FixedBinary:
		t.Len = int32(vk.PickOf(r, 1, 2, 3, 8, 20))
	case spec.List:
		t.Kids = []*spec.TS{genTT(r, argKinds)}
		if r.P(1, 4) {
			t.Kids = []*spec.TS{genTT(r, []spec.Kind{spec.List})}
		}
	}
	return t
}

// quoteTC writes a string literal of the format.
func quoteTC(s string) string {
	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(s) + "'"
}

func genStrTC(r *vk.R, max int) string {
	for {
		var s string
		if max > 0 {
			n := r.N(max + 1)
			for i := 0; i < n; i++ {
				s += string(vk.PickOf(r, 'a', 'b', 'Z', '0', ' ', '_', ',', ')', '\'', '\\', '#', '%', ':', '[', '"'))
			}
		} else {
			s = vk.PickOf(r, "", "a", "héllo", "it's", `a\b`, `\`, `'`, `''`, "x''", `\d+`, "# x", "// y", "/* z", "a::i8", "null", "12", "1.5", "=", "a,b", "(", "日本", "😄", " lead", "trail ", "tab\tx", "l1\nl2", "0x41", "true", "<!ERROR>", spec.GenStr(r))
			s = strings.ToValidUTF8(s, "")
			s = strings.ReplaceAll(s, "\x00", "")
		}
		if !lexOther.MatchString(s) {
			return s
		}
	}
}

func fracText(r *vk.R, p int) (string, int64) {
	if p == 0 || r.P(1, 3) {
		return "", 0
	}
	n := r.Range(1, p)
	s := ""
	for i := 0; i < n; i++ {
		s += strconv.Itoa(r.N(10))
	}
	return "." + s, frac9(s)
}

func floatText(r *vk.R, bits int) (string, float64) {
	for {
		s := vk.PickOf(r, "0", "1", "-3", "20", "1.5", "-0.25", "7.0", "1e5", "2.5E-3", "inf", "-inf", "+inf", "INF", "-0.0", "3.4028234663852886e38", "0.1", "16777217", "1.1754944e-38", "123456789.123",
			strconv.FormatFloat(r.NormFloat64()*1000, 'f', r.N(12), 64), strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Range(-30, 30))), 'e', r.N(17), 64), "1.00000017881393432617187499", "nan")
		v, err := strconv.ParseFloat(s, bits)
		if err == nil {
			return s, v
		}
	}
}

// genTV writes a value of the type; inList: only what a list or column element may be.
func genTV(r *vk.R, t *spec.TS, bare bool) tv {
	x := tv{ts: t, ty: typeText(r, t), ls: &spec.LS{T: t}}
	l := x.ls
	if t.N == types.NullabilityNullable && r.P(1, 4) {
		l.Null = true
		x.v = casing(r, "null")
		return x
	}
	date := func() (string, int64) {
		y, m := int64(vk.PickOf(r, r.Range(1, 9999), r.Range(1900, 2100))), r.Range(1, 12)
		d := vk.PickOf(r, r.Range(1, 28), monthDays(y, m))
		return fmt.Sprintf("%04d-%02d-%02d", y, m, d), daysFromCivil(y, m, d)
	}
	tm := func() (string, int64) {
		h, m, s := r.N(24), r.N(60), r.N(60)
		if r.P(1, 5) {
			h, m, s = 23, 59, 59
		}
		return fmt.Sprintf("%02d:%02d:%02d", h, m, s), int64(h*3600 + m*60 + s)
	}
	switch t.K {
	case spec.Bool:
		l.Bl = r.Bool()
		x.v = casing(r, strconv.FormatBool(l.Bl))
	case spec.I8, spec.I16, spec.I32, spec.I64:
		l.I = spec.GenInt(r, map[spec.Kind]int{spec.I8: 8, spec.I16: 16, spec.I32: 32, spec.I64: 64}[t.K])
		x.v = strconv.FormatInt(l.I, 10)
		if l.I >= 0 && r.P(1, 6) {
			x.v = "+" + x.v
		}
	case spec.Fp32:
		x.v, l.F = floatText(r, 32)
	case spec.Fp64:
		x.v, l.F = floatText(r, 64)
	case spec.String:
		l.S = genStrTC(r, 0)
		x.v = quoteTC(l.S)
	case spec.Binary:
		l.B = []byte(genStrTC(r, 0))
		x.v = quoteTC(string(l.B))
	case spec.FixedChar, spec.FixedBinary:
		for len(l.S) < int(t.Len) || lexOther.MatchString(l.S) {
			l.S = (l.S + genStrTC(r, int(t.Len)))
			if len(l.S) > int(t.Len) {
				l.S = l.S[:t.Len]
			}
			if lexOther.MatchString(l.S) {
				l.S = "z" + l.S[1:]
			}
		}
		x.v = quoteTC(l.S)
		if t.K == spec.FixedBinary {
			l.B, l.S, x.pin = []byte(l.S), "", "fixedbinary"
		}
	case spec.VarChar:
		l.S = genStrTC(r, int(t.Len))
		x.v = quoteTC(l.S)
	case spec.Date:
		x.v, l.I = date()
		x.v = "'" + x.v + "'"
	case spec.Time, spec.PTime:
		p := int32(6)
		if t.K == spec.PTime {
			p = t.Len
		}
		s, v := tm()
		f, n := fracText(r, int(p))
		x.v = "'" + s + f + "'"
		l.I = v*pow10(int(p)).Int64() + n/pow10(9-int(p)).Int64()
	case spec.Timestamp, spec.PTimestamp, spec.TimestampTz, spec.PTimestampTz:
		p := int32(6)
		if t.K == spec.PTimestamp || t.K == spec.PTimestampTz {
			p = t.Len
		}
		var full *big.Int
		for full == nil {
			ds, dd := date()
			s, v := tm()
			f, n := fracText(r, int(p))
			x.v = ds + "T" + s + f
			secs := dd*86400 + v
			if t.K == spec.TimestampTz || t.K == spec.PTimestampTz {
				oh, om, sg := r.N(15), vk.PickOf(r, 0, 30, 45), r.Bool()
				if sg {
					x.v += fmt.Sprintf("+%02d:%02d", oh, om)
					secs -= int64(oh*3600 + om*60)
				} else {
					x.v += fmt.Sprintf("-%02d:%02d", oh, om)
					secs += int64(oh*3600 + om*60)
				}
			}
			full = instNs(secs, n)
			full.Quo(full, pow10(9-int(p))) // exact: the fraction has at most p digits
			if !full.IsInt64() || secs < daysFromCivil(1, 1, 2)*86400 || secs > daysFromCivil(9999, 12, 30)*86400 {
				full = nil
			}
		}
		x.v = "'" + x.v + "'"
		l.I = full.Int64()
		if t.K == spec.TimestampTz {
			x.pin = "timestamp_tz"
		}
		if t.K == spec.PTimestampTz && p > 3 && new(big.Int).Mod(full, pow10(int(p)-3)).Sign() != 0 {
			x.pin = "precision_timestamp_tz"
		}
	case spec.IntervalYear:
		y, m := int32(r.N(300)), int32(r.N(12))
		if r.P(1, 6) {
			y = int32(spec.GenInt(r, 24))
		}
		switch r.N(3) {
		case 0:
			x.v, l.Y = fmt.Sprintf("'P%dY'", y), y
		case 1:
			x.v, l.M = fmt.Sprintf("'P%dM'", m), m
		case 2:
			x.v, l.Y, l.M = fmt.Sprintf("'P%dY%dM'", y, m), y, m
		}
	case spec.IntervalDay:
		d, h, m, s := r.N(1000), r.N(24), r.N(60), r.N(60)
		x.v = "'P"
		hasD := r.P(2, 3)
		if hasD {
			x.v += fmt.Sprintf("%dD", d)
			l.D = int32(d)
		}
		if !hasD || r.P(2, 3) {
			x.v += "T"
			n := 0
			for n == 0 {
				if r.Bool() {
					x.v += fmt.Sprintf("%dH", h)
					l.Sec += int32(h * 3600)
					n++
				}
				if r.Bool() {
					x.v += fmt.Sprintf("%dM", m)
					l.Sec += int32(m * 60)
					n++
				}
				if r.Bool() {
					f, ns := fracText(r, int(t.Len))
					x.v += fmt.Sprintf("%d%sS", s, f)
					l.Sec += int32(s)
					l.Sub = ns / pow10(9-int(t.Len)).Int64()
					n++
				}
			}
		}
		x.v += "'"
	case spec.Decimal:
		v := spec.GenDec(r, int(t.Prec))
		l.B = spec.DecBytes(v)
		ds := new(big.Int).Abs(v).String()
		for len(ds) <= int(t.Scal) {
			ds = "0" + ds
		}
		x.v = ds
		if t.Scal > 0 {
			fr := ds[len(ds)-int(t.Scal):]
			if r.Bool() {
				fr = strings.TrimRight(fr, "0")
			}
			x.v = ds[:len(ds)-int(t.Scal)]
			if fr != "" {
				x.v += "." + fr
			}
		}
		if v.Sign() < 0 {
			x.v = "-" + x.v
		}
	case spec.List:
		var parts []string
		for i, n := 0, r.N(4); i < n; i++ {
			k := genTV(r, t.Kids[0], true)
			for k.ls.Null && t.Kids[0].K == spec.List { // the grammar has no null at a nested list's place only for lists of lists
				k = genTV(r, t.Kids[0], true)
			}
			l.Kids = append(l.Kids, k.ls)
			parts = append(parts, k.v)
			if k.pin != "" {
				x.pin = k.pin
			}
			x.ts = t
		}
		x.v = "[" + strings.Join(parts, vk.PickOf(r, ", ", ",")) + "]"
	}
	return x
}

func genArgTV(r *vk.R) tv {
	switch r.N(12) {
	case 0:
		e := vk.PickOf(r, "YEAR", "SAMPLE", "Left_Enum", "e_x9")
		return tv{v: e, ty: "enum", enum: e}
	case 1:
		return genTV(r, genTT(r, []spec.Kind{spec.List}), false)
	case 2: // typed nulls of every kind
		t := genTT(r, append([]spec.Kind{spec.Binary, spec.UUID, spec.List}, argKinds...))
		t.N = types.NullabilityNullable
		return tv{v: casing(r, "null"), ty: typeText(r, t), ts: t, ls: &spec.LS{T: t, Null: true}}
	}
	return genTV(r, genTT(r, argKinds), false)
}

type tcase struct {
	fn     string
	args   []tv
	cols   []int // per argument: column index or -1
	opts   map[string]string
	result tv
	outc   parser.NonValueOutcome
	form   int // 0 scalar, 1 single column, 2 compact, 3 table
	ctypes []*spec.TS
	ctext  []string
	rows   [][]tv
	table  string
	group  string
	text   string
	pin    string
}

func genOpts(r *vk.R) (map[string]string, string) {
	if r.P(1, 2) {
		return nil, ""
	}
	m := map[string]string{}
	var parts []string
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		k := vk.PickOf(r, "overflow", "rounding", "NULL_HANDLING", "spaces_only", "case_sensitivity", "full_match", "opt_a1")
		if _, ok := m[k]; ok {
			continue
		}
		v := vk.PickOf(r, "ERROR", "SATURATE", "SILENT", "TIE_TO_EVEN", "NAN", "TRUNCATE", "ACCEPT_NULLS", "IGNORE_NULLS", "TRUE", "FALSE", "NULL", "CASE_INSENSITIVE", "foo_bar", "error")
		m[k] = v
		parts = append(parts, k+vk.PickOf(r, ":", ": ", " :")+v)
	}
	return m, " [" + strings.Join(parts, vk.PickOf(r, ",", ", ")) + "]"
}

func genCase(r *vk.R, agg bool) *tcase {
	c := &tcase{fn: vk.PickOf(r, "add", "concat", "regexp_x", "and", "OR", "truncate", "LIST_AGG", "vf", "f_9"), table: vk.PickOf(r, "tbl", "t_one", "Data")}
	sp := vk.PickOf(r, " ", "  ", "\t")
	pin := func(x tv) {
		if x.pin != "" {
			c.pin = x.pin
		}
	}
	var args []string
	if !agg {
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			a := genArgTV(r)
			pin(a)
			c.args = append(c.args, a)
			args = append(args, a.text())
		}
		c.text = c.fn + "(" + strings.Join(args, ","+vk.PickOf(r, "", " ", "\n  ")) + ")"
	} else {
		c.form = r.Range(1, 3)
		ncol := 1
		if c.form > 1 {
			ncol = r.Range(1, 4)
			if r.P(1, 12) {
				ncol = r.Range(9, 13)
			}
		}
		colKinds := append([]spec.Kind{spec.Binary}, argKinds...)
		for i := 0; i < ncol; i++ {
			t := genTT(r, colKinds)
			c.ctypes = append(c.ctypes, t)
			if t.K == spec.PTimestampTz { // held as timestamp_tz, which is printed without a zone
				c.pin = "timestamp_tz"
			}
			c.ctext = append(c.ctext, typeText(r, t))
		}
		for i, n := 0, vk.PickOf(r, 0, 1, 2, 3, 5); i < n; i++ {
			var row []tv
			for _, t := range c.ctypes {
				x := genTV(r, t, true)
				pin(x)
				row = append(row, x)
			}
			c.rows = append(c.rows, row)
		}
		cell := func(rows [][]tv) string {
			var out []string
			for _, row := range rows {
				var p []string
				for _, x := range row {
					p = append(p, x.v)
				}
				out = append(out, "("+strings.Join(p, ", ")+")")
			}
			return "(" + strings.Join(out, ","+vk.PickOf(r, "", " ")) + ")"
		}
		if c.form == 1 {
			var p []string
			for _, row := range c.rows {
				p = append(p, row[0].v)
			}
			c.cols = []int{0}
			c.args = []tv{{ts: c.ctypes[0]}}
			c.text = c.fn + "((" + strings.Join(p, ",") + ")::" + c.ctext[0] + ")"
		} else {
			for i, n := 0, r.N(4); i < n; i++ {
				if r.P(1, 4) {
					a := genArgTV(r)
					pin(a)
					c.args = append(c.args, a)
					c.cols = append(c.cols, -1)
					args = append(args, a.text())
					continue
				}
				k := r.N(ncol)
				c.cols = append(c.cols, k)
				c.args = append(c.args, tv{ts: c.ctypes[k]})
				if c.form == 2 {
					args = append(args, fmt.Sprintf("col%d::%s", k, c.ctext[k]))
				} else {
					args = append(args, fmt.Sprintf("%s.col%d", c.table, k))
				}
			}
			call := c.fn + "(" + strings.Join(args, ", ") + ")"
			if c.form == 2 {
				c.text = cell(c.rows) + sp + call
			} else {
				c.text = "DEFINE " + c.table + "(" + strings.Join(c.ctext, ", ") + ") = " + cell(c.rows) + vk.PickOf(r, "\n", " ") + call
			}
		}
	}
	var o string
	c.opts, o = genOpts(r)
	c.text += o + sp + "=" + sp
	switch r.N(6) {
	case 0:
		c.outc = parser.NonValueError
		c.text += "<!ERROR>"
	case 1:
		c.outc = parser.NonValueUndefined
		c.text += "<!UNDEFINED>"
	default:
		c.result = genArgTV(r)
		pin(c.result)
		c.text += c.result.text()
	}
	return c
}

type tfile struct {
	agg   bool
	ver   string
	uri   string
	cases []*tcase
	text  string
	first bool // the first group has a description
}

func genTestFile(r *vk.R) *tfile {
	f := &tfile{agg: r.Bool(), ver: vk.PickOf(r, "v1.0", "v1", "V2.13"), uri: vk.PickOf(r, "/extensions/vkfuncs.yaml", "extension:vk:f")}
	var b strings.Builder
	k := "SUBSTRAIT_SCALAR_TEST"
	if f.agg {
		k = "SUBSTRAIT_AGGREGATE_TEST"
	}
	fmt.Fprintf(&b, "### %s: %s\n### SUBSTRAIT_INCLUDE: '%s'\n", k, f.ver, f.uri)
	if r.P(1, 5) {
		b.WriteString("### SUBSTRAIT_DEPENDENCY: '/extensions/other.yaml'\n")
	}
	b.WriteString("\n")
	for g, n := 0, r.Range(1, 3); g < n; g++ {
		desc := ""
		if g > 0 || !r.P(1, 6) {
			desc = vk.PickOf(r, "basic", "'quoted' words", "basic: with (parens) = 3", "# more", "ünï", "add(1::i8) = 2::i8")
			b.WriteString("# " + vk.PickOf(r, "", " ") + desc + vk.PickOf(r, "", "  ") + vk.PickOf(r, "\n", "\n", "\r\n"))
		}
		for i, m := 0, r.Range(1, 4); i < m; i++ {
			c := genCase(r, f.agg)
			c.group = desc
			f.cases = append(f.cases, c)
			b.WriteString(c.text + vk.PickOf(r, "\n", "\n\n", "\n// note\n", "\r\n"))
		}
	}
	f.text = b.String()
	return f
}

func protoLit(t *vk.T, v any) *proto.Expression_Literal {
	l, ok := v.(expr.Literal)
	if !ok || l == nil {
		return nil
	}
	var p *proto.Expression_Literal
	t.NoPanic("ToProtoLiteral", func() { p = l.ToProtoLiteral() })
	return p
}

// relax forgets outer nullability: a column holds required and nullable cells alike.
func relax(p *proto.Expression_Literal) *proto.Expression_Literal {
	if p == nil {
		return nil
	}
	q := pb.Clone(p).(*proto.Expression_Literal)
	q.Nullable = false
	if n := q.GetNull(); n != nil {
		q.LiteralType = &proto.Expression_Literal_Null{Null: spec.FromProto(n).With(types.NullabilityRequired).Proto()}
	}
	return q
}

func fullOf(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return spec.FromGo(t).Full()
}

func cmpTV(t *vk.T, key, what string, got *parser.CaseLiteral, want tv) {
	if !t.Check(got != nil, key+":nil", "%s: nil", what) {
		return
	}
	if want.enum != "" {
		e, ok := got.Value.(types.Enum)
		t.Check(ok && string(e) == want.enum, key+":enum", "%s: got %v want %s", what, got.Value, want.enum)
		return
	}
	kind := want.ts.K.String()
	t.Check(got.Type != nil && fullOf(got.Type) == want.ts.Full(), key+":type:"+kind, "%s %s: type %v want %s", what, want.text(), got.Type, want.ts.Full())
	p := protoLit(t, got.Value)
	w := want.ls.Proto()
	if !t.Check(p != nil && pb.Equal(p, w), key+":value:"+kind, "%s %s:\n%s", what, want.text(), pdiff(w, p)) {
		return
	}
	lt := got.Value.(expr.Literal).GetType()
	t.Check(lt != nil && fullOf(lt) == want.ts.Full(), key+":literal-type:"+kind, "%s %s: literal type %v want %s", what, want.text(), lt, want.ts.Full())
}

// cmpCase compares a parsed case with the model; again: the case went through String.
func cmpCase(t *vk.T, tc *parser.TestCase, c *tcase, f *tfile, again bool) {
	key := "parse"
	if again {
		key = "reparse"
	}
	t.Check(tc.FuncName == c.fn, key+":function", "got %q want %q", tc.FuncName, c.fn)
	t.Check(tc.BaseURI == f.uri, key+":uri", "got %q want %q", tc.BaseURI, f.uri)
	if !again {
		t.Check(tc.GroupDesc == c.group, key+":group", "got %q want %q", tc.GroupDesc, c.group)
	}
	t.Check(len(tc.Options) == len(c.opts), key+":options", "got %v want %v", tc.Options, c.opts)
	for k, v := range c.opts {
		t.Check(tc.Options[k] == v, key+":option", "%s: got %v want %v", k, tc.Options, c.opts)
	}
	for _, o := range tc.GetFunctionOptions() {
		t.Check(len(o.Preference) == 1 && c.opts[o.Name] == o.Preference[0], key+":function-option", "%v not in %v", o, c.opts)
	}
	t.Check(len(tc.GetFunctionOptions()) == len(c.opts), key+":function-options", "%v", tc.GetFunctionOptions())
	if c.outc != 0 {
		o, ok := tc.Result.(parser.NonValueOutcome)
		t.Check(ok && o == c.outc, key+":outcome", "got %v want %v", tc.Result, c.outc)
	} else {
		rl, ok := tc.Result.(*parser.CaseLiteral)
		if t.Check(ok, key+":result-kind", "result is %T", tc.Result) {
			cmpTV(t, key+"-result", "result", rl, c.result)
		}
	}
	if c.form == 0 {
		t.Check(tc.FuncType == parser.ScalarFuncType, key+":functype", "%v", tc.FuncType)
		if t.Check(len(tc.Args) == len(c.args), key+":nargs", "got %d want %d", len(tc.Args), len(c.args)) {
			for i, a := range c.args {
				cmpTV(t, key+"-arg", fmt.Sprintf("argument %d", i), tc.Args[i], a)
			}
		}
	} else {
		t.Check(tc.FuncType == parser.AggregateFuncType, key+":functype", "%v", tc.FuncType)
		if !again && c.form == 3 {
			t.Check(tc.TableName == c.table, key+":table", "got %q want %q", tc.TableName, c.table)
		}
		if !t.Check(len(tc.AggregateArgs) == len(c.args), key+":nargs", "got %d want %d", len(tc.AggregateArgs), len(c.args)) {
			return
		}
		hasNull := make([]bool, len(c.ctypes))
		for _, row := range c.rows {
			for j, x := range row {
				hasNull[j] = hasNull[j] || x.ls.Null
			}
		}
		used := make([]bool, len(c.ctypes))
		for i, a := range c.args {
			g := tc.AggregateArgs[i]
			if c.cols[i] < 0 {
				t.Check(g.IsScalar, key+":scalar-arg", "argument %d is not scalar", i)
				cmpTV(t, key+"-aggarg", fmt.Sprintf("argument %d", i), g.Argument, a)
				continue
			}
			j := c.cols[i]
			used[j] = true
			t.Check(!g.IsScalar && int(g.ColumnIndex) == j, key+":column-arg", "argument %d: scalar=%v column %d want column %d", i, g.IsScalar, g.ColumnIndex, j)
			t.Check(g.ColumnType != nil && fullOf(g.ColumnType) == c.ctypes[j].Full(), key+":column-type", "argument %d: %v want %s", i, g.ColumnType, c.ctypes[j].Full())
		}
		var cols [][]expr.Literal
		var err error
		if !t.NoPanic("GetAggregateColumnsData", func() { cols, err = tc.GetAggregateColumnsData() }) {
			return
		}
		if !t.Check(err == nil, key+":columns-error", "GetAggregateColumnsData: %v", err) {
			return
		}
		known := c.form == 3 && !again || c.form == 1
		for j, ct := range c.ctypes {
			if !known && !used[j] { // the compact form does not give the type of a column that no argument uses
				if j < len(cols) {
					t.Check(len(cols[j]) == len(c.rows), key+":rows", "column %d: %d rows want %d", j, len(cols[j]), len(c.rows))
				} else {
					t.Check(len(c.rows) == 0, key+":columns", "%d columns, want %d", len(cols), len(c.ctypes))
				}
				continue
			}
			if !t.Check(j < len(cols) && len(cols[j]) == len(c.rows), key+":rows", "column %d missing or wrong length: %d columns, want %d rows", j, len(cols), len(c.rows)) {
				continue
			}
			for i, row := range c.rows {
				p, w := relax(protoLit(t, cols[j][i])), relax(row[j].ls.Proto())
				if !pb.Equal(p, w) && (ct.K == spec.PTimestamp || ct.K == spec.PTimestampTz) && p != nil {
					// pinned by the repository's tests: such a column holds plain timestamps
					us, _ := atPrec(nanosOf(row[j].ls.I, int(ct.Len)), 6)
					alt := &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_Timestamp{Timestamp: us.Int64()}}
					if ct.K == spec.PTimestampTz {
						alt = &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_TimestampTz{TimestampTz: us.Int64()}}
					}
					if pb.Equal(p, alt) {
						t.Failf("cell:"+ct.K.String()+":held-as-plain-timestamp", "row %d column %d %s::%s is %v", i, j, row[j].v, row[j].ty, cols[j][i])
						continue
					}
				}
				t.Check(p != nil && pb.Equal(p, w), key+":cell:"+ct.K.String(), "row %d column %d %s::%s:\n%s", i, j, row[j].v, row[j].ty, pdiff(w, p))
			}
		}
	}
	enum := false
	var sig []string
	var at []types.Type
	for i, a := range c.args {
		if a.enum != "" {
			enum = true
			continue
		}
		_ = i
		sig = append(sig, a.ts.K.Short())
	}
	if !t.NoPanic("GetArgTypes", func() { at = tc.GetArgTypes() }) {
		return
	}
	t.Check(len(at) == len(c.args), key+":argtypes", "%v", at)
	for i, a := range c.args {
		if a.enum == "" && i < len(at) {
			t.Check(at[i] != nil && fullOf(at[i]) == a.ts.Full(), key+":argtype", "%d: %v want %s", i, at[i], a.ts.Full())
		}
	}
	if !enum {
		id := tc.ID()
		urn := f.uri
		if urn == "/extensions/vkfuncs.yaml" {
			urn = "extension:io.substrait:vkfuncs"
		}
		t.Check(id.Name == c.fn+":"+strings.Join(sig, "_") && id.URN == urn, key+":id", "%v", id)
	}
}

// vkCollection declares the names of genCase as scalar and aggregate functions of any types.
func vkCollection() *extensions.Collection {
	var b strings.Builder
	b.WriteString("%YAML 1.2\n---\nurn: extension:io.substrait:vkfuncs\n")
	for _, k := range []string{"scalar", "aggregate"} {
		b.WriteString(k + "_functions:\n")
		for _, n := range []string{"add", "concat", "regexp_x", "LIST_AGG", "vf", "f_9", "and", "OR", "truncate"} {
			fmt.Fprintf(&b, "  - name: %s\n    impls:\n", n)
			for a := 1; a <= 4; a++ {
				b.WriteString("      - args:\n")
				for i := 1; i <= a; i++ {
					fmt.Fprintf(&b, "          - name: a%d\n            value: any%d\n", i, i)
				}
				if k == "aggregate" {
					b.WriteString("        nullability: DECLARED_OUTPUT\n        decomposable: NONE\n        intermediate: i64\n")
				}
				b.WriteString("        options:\n")
				for _, o := range []string{"overflow", "rounding", "NULL_HANDLING", "spaces_only", "case_sensitivity", "full_match", "opt_a1"} {
					fmt.Fprintf(&b, "          %s:\n            values: [ERROR, SATURATE, SILENT, TIE_TO_EVEN, NAN, TRUNCATE, ACCEPT_NULLS, IGNORE_NULLS, \"TRUE\", \"FALSE\", \"NULL\", CASE_INSENSITIVE, foo_bar, error]\n", o)
				}
				b.WriteString("        return: i64\n")
			}
		}
	}
	col := &extensions.Collection{}
	for _, urn := range []string{"io.substrait:vkfuncs", "vk:f"} {
		if err := col.Load(strings.NewReader(strings.Replace(b.String(), "io.substrait:vkfuncs", urn, 1))); err != nil {
			panic(err)
		}
	}
	return col
}

func invokeCase(t *vk.T, tc *parser.TestCase, c *tcase, reg *expr.ExtensionRegistry, fr functions.FunctionRegistry) {
	if len(c.args) == 0 {
		return
	}
	urn := tc.BaseURI
	if urn == "/extensions/vkfuncs.yaml" {
		urn = "extension:io.substrait:vkfuncs"
	}
	for _, a := range c.args {
		if a.enum != "" {
			return
		}
	}
	if c.form == 0 {
		var f *expr.ScalarFunction
		var err error
		if !t.NoPanic("GetScalarFunctionInvocation", func() { f, err = tc.GetScalarFunctionInvocation(reg, fr) }) {
			return
		}
		if !t.Check(err == nil && f != nil, "invoke:scalar", "%v", err) {
			return
		}
		t.Check(f.Name() == c.fn && f.ID().URN == urn && f.NArgs() == len(c.args), "invoke:shape", "%v", f)
		for i, a := range c.args {
			t.Check(pb.Equal(protoLit(t, f.Arg(i)), a.ls.Proto()), "invoke:arg", "argument %d: %v want %s", i, f.Arg(i), a.text())
		}
		invoked(t, c, f.ToProto().GetScalarFunction().GetOptions())
		return
	}
	var f *expr.AggregateFunction
	var err error
	if !t.NoPanic("GetAggregateFunctionInvocation", func() { f, err = tc.GetAggregateFunctionInvocation(reg, fr) }) {
		return
	}
	if !t.Check(err == nil && f != nil, "invoke:aggregate", "%v", err) {
		return
	}
	t.Check(f.Name() == c.fn && f.ID().URN == urn && f.NArgs() == len(c.args), "invoke:shape", "%v", f)
	// a test is about the whole aggregation of all rows as they are
	p := f.ToProto()
	t.Check(p.Phase == proto.AggregationPhase_AGGREGATION_PHASE_INITIAL_TO_RESULT && p.Invocation != proto.AggregateFunction_AGGREGATION_INVOCATION_DISTINCT && len(p.Sorts) == 0,
		"invoke:aggregation", "phase %v, invocation %v, %d sorts", p.Phase, p.Invocation, len(p.Sorts))
	invoked(t, c, p.Options)
	for i, a := range c.args {
		if c.cols[i] < 0 {
			t.Check(pb.Equal(protoLit(t, f.Arg(i)), a.ls.Proto()), "invoke:arg", "argument %d: %v want %s", i, f.Arg(i), a.text())
			continue
		}
		fr, ok := f.Arg(i).(*expr.FieldReference)
		if !t.Check(ok, "invoke:column", "argument %d is %T", i, f.Arg(i)) {
			continue
		}
		sf, ok := fr.Reference.(*expr.StructFieldRef)
		t.Check(ok && int(sf.Field) == c.cols[i], "invoke:column-index", "argument %d: %v want column %d", i, fr, c.cols[i])
		t.Check(fr.GetType() != nil && fullOf(fr.GetType()) == a.ts.Full(), "invoke:column-type", "argument %d: %v want %s", i, fr.GetType(), a.ts.Full())
	}
}

// invoked checks the options of an invocation.
func invoked(t *vk.T, c *tcase, opts []*proto.FunctionOption) {
	t.Check(len(opts) == len(c.opts), "invoke:options", "%v want %v", opts, c.opts)
	for _, o := range opts {
		v, ok := c.opts[o.Name]
		t.Check(ok && len(o.Preference) == 1 && o.Preference[0] == v, "invoke:option", "%v want %v", opts, c.opts)
	}
}

var notWord = regexp.MustCompile(`[^A-Za-z]+`)

// reason is a short class of a parser error.
func reason(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if i := strings.LastIndex(s, "': ["); i >= 0 {
		s = s[i+4:]
	}
	if i := strings.IndexAny(s, "{'"); i > 0 && strings.Contains(s, "Syntax") {
		s = s[:i]
	}
	s = notWord.ReplaceAllString(s, "-")
	return s[:min(len(s), 60)]
}

func parseTC(t *vk.T, what, text string) (*parser.TestFile, error, bool) {
	var f *parser.TestFile
	var err error
	ok := t.NoPanic(what, func() { f, err = parser.ParseTestCasesFromString(text) })
	if ok {
		t.Check((f == nil) == (err != nil), what+":nil-result", "file %v, error %v", f != nil, err)
	}
	return f, err, ok
}

func c19(c *vk.C) {
	c.Rule("generated: test files written from the format's grammar (scalar and the three aggregate forms, every value kind, nulls, lists, options, outcomes, groups, comments, letter case) with the expected contents known beforehand; every accessor is compared, each case is printed and parsed again and compared again, and its function invocation is compared; non-trivial = distinct case text")
	c.Rule("misfit: a valid case in which one thing does not fit (value out of range of its type, too long, too precise, wrong kind in a list or column, null of a required type, bad type parameters, ragged or mis-sized rows, column index out of range, wrong table, junk characters): an error is required")
	c.Rule("mutations: bytes of valid and bundled files damaged: no panic, and exactly one of file and error; accepted results print without panic; bundled: every bundled file parses or is on the list the repository skips, and printed cases parse to the same printed case")

	col := vkCollection()
	reg, fr := functions.NewExtensionAndFunctionRegistries(col)

	c.Section("generated", c.Scale(3000, 200000), func(t *vk.T) {
		r := t.R
		f := genTestFile(r)
		t.Desc = func() string { return f.text }
		got, err, ok := parseTC(t, "parse", f.text)
		if !ok {
			return
		}
		if !t.Check(err == nil && got != nil, "rejected:"+reason(err), "well-formed file rejected: %v", err) || err != nil {
			return
		}
		h := got.Header
		t.Check(h != nil && h.Version == f.ver && h.IncludedURI == f.uri && (h.FuncType == parser.AggregateFuncType) == f.agg, "header", "%+v", h)
		if !t.Check(len(got.TestCases) == len(f.cases), "count", "%d cases, want %d", len(got.TestCases), len(f.cases)) {
			return
		}
		k := "SUBSTRAIT_SCALAR_TEST"
		if f.agg {
			k = "SUBSTRAIT_AGGREGATE_TEST"
		}
		for i, cs := range f.cases {
			tc := got.TestCases[i]
			t.Desc = func() string { return cs.text + "\nin\n" + f.text }
			n := c.Violations()
			cmpCase(t, tc, cs, f, false)
			if c.Violations() != n {
				continue
			}
			invokeCase(t, tc, cs, &reg, fr)
			t.Obs(cs.text)
			var s string
			if !t.NoPanic("String", func() { s = tc.String() }) || cs.pin != "" {
				continue
			}
			text := fmt.Sprintf("### %s: v1.0\n### SUBSTRAIT_INCLUDE: '%s'\n\n# g\n%s\n", k, f.uri, s)
			t.Desc = func() string { return cs.text + "\nprinted as\n" + s }
			back, err, ok := parseTC(t, "reparse", text)
			if !ok {
				continue
			}
			if t.Check(err == nil && back != nil && len(back.TestCases) == 1, "reparse:rejected", "printed form rejected: %v", err) && err == nil {
				cmpCase(t, back.TestCases[0], cs, f, true)
			}
			t.Sample("%s", cs.text)
		}
	})

	scalar := "### SUBSTRAIT_SCALAR_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/vkfuncs.yaml'\n\n# g\n"
	aggr := "### SUBSTRAIT_AGGREGATE_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/vkfuncs.yaml'\n\n# g\n"
	// values whose printed form is fixed by the repository's own tests
	c.Section("pinned-print", 8, func(t *vk.T) {
		kind := []string{"fixedbinary", "binary", "timestamp_tz", "precision_timestamp_tz"}[t.Index%4]
		v, head := map[string]string{
			"fixedbinary":            "add('ab'::fixedbinary<2>) = 1::i8",
			"binary":                 "add(('abc')::binary) = 1::i8",
			"timestamp_tz":           "add('2001-02-03T04:05:06+00:00'::timestamp_tz) = 1::i8",
			"precision_timestamp_tz": "add('2001-02-03T04:05:06.123456+00:00'::precision_timestamp_tz<6>) = 1::i8",
		}[kind], scalar
		if kind == "binary" {
			head = aggr
		}
		t.Desc = func() string { return v }
		f, err, ok := parseTC(t, "pinned-print", head+v+"\n")
		if !ok || !t.Check(err == nil && len(f.TestCases) == 1, "parse:"+kind, "%v", err) || err != nil {
			return
		}
		s := f.TestCases[0].String()
		t.Obs(s)
		back, err, ok := parseTC(t, "pinned-reparse", head+s+"\n")
		if ok {
			same := err == nil && back != nil && len(back.TestCases) == 1
			if same && kind == "binary" {
				same = pb.Equal(protoLit(t, f.TestCases[0].AggregateArgs[0].Argument.Value), protoLit(t, back.TestCases[0].AggregateArgs[0].Argument.Value))
			} else if same {
				same = pb.Equal(protoLit(t, f.TestCases[0].Args[0].Value), protoLit(t, back.TestCases[0].Args[0].Value))
			}
			t.Check(same, "not-read-back:"+kind, "%s is printed as %s", v, s)
		}
	})

	c.ParSection("misfit", c.Scale(6000, 300000), func(t *vk.T) {
		r := t.R
		key, v, ty := genMisfit(r)
		var text string
		place := r.N(6)
		switch place {
		case 0:
			text = scalar + "add(1::i8, " + v + "::" + ty + ") = 2::i8\n"
		case 1:
			text = scalar + "add(1::i8) = " + v + "::" + ty + "\n"
		case 2:
			text = scalar + "add([" + v + "]::list<" + ty + ">) = 2::i8\n"
		case 3:
			text = aggr + "add((" + v + ")::" + ty + ") = 2::i8\n"
		case 4:
			text = aggr + "DEFINE tbl(i8, " + ty + ") = ((1, " + v + "))\nadd(tbl.col1) = 2::i8\n"
		case 5:
			text = aggr + "((1, " + v + ")) add(col0::i8, col1::" + ty + ") = 2::i8\n"
		}
		if key == "pts-range" && place >= 3 { // columns hold plain timestamps, a listed finding
			return
		}
		if strings.HasPrefix(key, "null") && place >= 2 {
			return
		}
		if strings.HasPrefix(key, "wrong-kind-soft") && place < 2 {
			return
		}
		t.Desc = func() string { return text }
		f, err, ok := parseTC(t, "misfit", text)
		if ok {
			s := ""
			if err == nil && f != nil && len(f.TestCases) > 0 {
				s = f.TestCases[0].String()
			}
			where := []string{"arg", "result", "list", "column", "table", "compact"}[place]
			t.Check(err != nil, "accepted:"+where+":"+key, "%s::%s accepted as %s", v, ty, s)
			t.Obs(where, key, v, ty)
		}
	})

	c.ParSection("malformed", c.Scale(3000, 200000), func(t *vk.T) {
		r := t.R
		key, text := genMalformed(r, scalar, aggr)
		t.Desc = func() string { return text }
		f, err, ok := parseTC(t, "malformed", text)
		if ok {
			s := ""
			if err == nil && f != nil && len(f.TestCases) > 0 {
				s = f.TestCases[0].String()
			}
			t.Check(err != nil, "accepted:"+key, "accepted, first case %s", s)
			t.Obs(key, text)
		}
	})

	tfs := substrait.GetSubstraitTestsFS()
	var files []string
	_ = fs.WalkDir(tfs, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".test") {
			files = append(files, p)
		}
		return nil
	})
	skip := regexp.MustCompile(`arithmetic/(std_dev|variance)\.test|list/(all_match|any_match|filter|transform)\.test`)
	c.ParSection("mutations", c.Scale(3000, 200000), func(t *vk.T) {
		r := t.R
		var text string
		if r.P(1, 3) {
			b, _ := fs.ReadFile(tfs, vk.Pick(r, files))
			lines := strings.SplitAfter(string(b), "\n")
			text = strings.Join(lines[:min(3, len(lines))], "")
			for i := 0; i < 4; i++ {
				text += vk.Pick(r, lines)
			}
		} else {
			text = genTestFile(r).text
		}
		b := []byte(text)
		for i, n := 0, r.Range(1, 3); i < n && len(b) > 2; i++ {
			at := r.N(len(b))
			switch r.N(5) {
			case 0:
				b = append(b[:at:at], b[at+1:]...)
			case 1:
				b[at] = vk.PickOf(r, byte('0'), '9', '(', ')', '\'', ',', ':', '<', '>', '[', ']', '?', '-', '.', 'e', '$', '~', 0, 0xff, '\n', ' ', '#')
			case 2:
				end := min(len(b), at+r.Range(1, 12))
				b = append(b[:at:at], b[end:]...)
			case 3:
				end := min(len(b), at+r.Range(1, 12))
				b = append(b[:end:end], append(append([]byte{}, b[at:end]...), b[end:]...)...)
			case 4:
				ins := vk.PickOf(r, "null", "::i8", "999999999999999999999", "col9", "<38,0>", "?", "[]", "()", "DEFINE", "tbl.col0", "::enum", "'P1Y'", "1e999", "'2020-01-01'", "\\")
				b = append(b[:at:at], append([]byte(ins), b[at:]...)...)
			}
		}
		text = string(b)
		t.Desc = func() string { return text }
		f, err, ok := parseTC(t, "mutated", text)
		if !ok || err != nil || f == nil {
			return
		}
		t.Obs(text)
		for _, tc := range f.TestCases {
			t.NoPanic("String-of-mutated", func() { _ = tc.String() })
			t.NoPanic("GetArgTypes-of-mutated", func() { tc.GetArgTypes() })
			t.NoPanic("ID-of-mutated", func() { tc.ID() })
			if tc.FuncType == parser.AggregateFuncType {
				t.NoPanic("columns-of-mutated", func() { _, _ = tc.GetAggregateColumnsData() })
				t.NoPanic("invoke-mutated", func() { _, _ = tc.GetAggregateFunctionInvocation(&reg, fr) })
			} else {
				t.NoPanic("invoke-mutated", func() { _, _ = tc.GetScalarFunctionInvocation(&reg, fr) })
			}
		}
	})

	dreg, dfr := functions.NewExtensionAndFunctionRegistries(extensions.GetDefaultCollectionWithNoError())
	c.Section("bundled", len(files), func(t *vk.T) {
		p := files[t.Index]
		t.Desc = func() string { return p }
		var f *parser.TestFile
		var err error
		if !t.NoPanic("ParseTestCaseFileFromFS", func() { f, err = parser.ParseTestCaseFileFromFS(tfs, p) }) {
			return
		}
		t.Check((f == nil) == (err != nil), "nil-result", "%v %v", f, err)
		if skip.MatchString(p) {
			return
		}
		if !t.Check(err == nil, "rejected", "%v", err) {
			return
		}
		// an independent count: one "=" result per case line
		b, _ := fs.ReadFile(tfs, p)
		n := 0
		for _, ln := range strings.Split(string(b), "\n") {
			ln = strings.TrimSpace(ln)
			if ln != "" && !strings.HasPrefix(ln, "#") && !strings.HasPrefix(ln, "DEFINE") {
				n++
			}
		}
		t.Check(len(f.TestCases) == n, "count", "%d cases, %d case lines", len(f.TestCases), n)
		for _, tc := range f.TestCases {
			var s string
			if !t.NoPanic("String", func() { s = tc.String() }) {
				continue
			}
			t.Obs(p, s)
			if tc.FuncType == parser.ScalarFuncType {
				inv, err := tc.GetScalarFunctionInvocation(&dreg, dfr)
				if t.Check(err == nil, "invoke", "%s: %v", s, err) {
					for i, a := range tc.Args {
						t.Check(types.FuncArg(inv.Arg(i)) == a.Value, "invoke-arg", "%s argument %d", s, i)
					}
				}
			} else {
				_, err := tc.GetAggregateFunctionInvocation(&dreg, dfr)
				t.Check(err == nil, "invoke", "%s: %v", s, err)
			}
		}
	})
}

func genMisfit(r *vk.R) (key, v, ty string) {
	ny := vk.PickOf(r, "", "?")
	type m struct{ key, v, ty string }
	par := func(n, p string) string { return n + ny + "<" + p + ">" }
	x := vk.PickOf(r,
		m{"i8", vk.PickOf(r, "128", "-129", "300", "256", "65536", "4294967296"), "i8" + ny},
		m{"i16", vk.PickOf(r, "32768", "-32769", "65536", "4294967297"), "i16" + ny},
		m{"i32", vk.PickOf(r, "2147483648", "-2147483649", "4294967296"), "i32" + ny},
		m{"i64", vk.PickOf(r, "9223372036854775808", "-9223372036854775809", "99999999999999999999999"), "i64" + ny},
		m{"fp32", vk.PickOf(r, "1e39", "-1e39", "3.5e38", "1e400"), "fp32" + ny},
		m{"fp64", vk.PickOf(r, "1e309", "-2e308", "1e99999"), "fp64" + ny},
		m{"dec-digits", vk.PickOf(r, "100", "-100", "1000000"), par("dec", "2,0")},
		m{"dec-digits", vk.PickOf(r, "10.0", "99", "-10"), par("decimal", "3,2")},
		m{"dec-scale", vk.PickOf(r, "1.55", "0.01", "-9.99"), par("dec", "10,1")},
		m{"dec-scale", vk.PickOf(r, "1.5", "0.1"), vk.PickOf(r, "dec"+ny, "decimal"+ny+"<38,0>")},
		m{"dec-38", "123456789012345678901234567890123456789", par("dec", "38,0")},
		m{"varchar-long", "'abcd'", par(vk.PickOf(r, "vchar", "varchar"), vk.PickOf(r, "3", "1"))},
		m{"date", vk.PickOf(r, "'2021-02-29'", "'2021-13-01'", "'2021-00-10'", "'2021-01-32'"), "date" + ny},
		m{"time", vk.PickOf(r, "'24:00:00'", "'12:60:00'", "'12:00:61'"), "time" + ny},
		m{"timestamp", vk.PickOf(r, "'2021-02-29T00:00:00'", "'2021-01-01T25:00:00'", "'2021-01-01T00:61:00'"), vk.PickOf(r, "ts"+ny, "timestamp"+ny)},
		m{"timestamp_tz", vk.PickOf(r, "'2021-02-29T00:00:00+00:00'", "'2021-01-01T25:00:00-01:00'"), "tstz" + ny},
		m{"pts", vk.PickOf(r, "'2021-02-29T00:00:00'", "'2021-01-01T25:00:00'"), par("pts", "6")},
		m{"pts-range", vk.PickOf(r, "'2300-01-01T00:00:00'", "'1600-01-01T00:00:00'"), par("pts", "9")},
		m{"pt", vk.PickOf(r, "'24:00:00'", "'12:60:00'"), par("pt", "6")},
		m{"interval_year", vk.PickOf(r, "'P3000000000Y'", "'P99999999999999999999Y'"), "iyear" + ny},
		m{"interval_day", vk.PickOf(r, "'P3000000000D'", "'P99999999999999999999D'"), par("iday", "6")},
		m{"null-required", "null", vk.PickOf(r, "i8", "bool", "str", "dec<5,2>", "varchar<3>", "list<i8>", "pts<3>")},
		m{"param-decimal", "1", par("dec", vk.PickOf(r, "39,0", "0,0", "5,6", "4294967298,0", "38,4294967296", "100,2", "99999999999999999999,0"))},
		m{"param-pts", "'2021-01-01T00:00:00'", par("pts", vk.PickOf(r, "10", "4294967296", "4294967302", "100", "99999999999999999999"))},
		m{"param-ptstz", "'2021-01-01T00:00:00+00:00'", par("ptstz", vk.PickOf(r, "10", "4294967296", "100"))},
		m{"param-pt", "'01:00:00'", par("pt", vk.PickOf(r, "10", "4294967296", "100"))},
		m{"param-iday", "'P1D'", par("iday", vk.PickOf(r, "10", "4294967296", "100"))},
		m{"param-varchar", "'ab'", par("varchar", vk.PickOf(r, "4294967298", "9999999999", "99999999999999999999"))},
		m{"param-fixedchar", "'ab'", par("fchar", vk.PickOf(r, "4294967298", "9999999999"))},
		m{"param-fixedbinary", "'ab'", par("fbin", vk.PickOf(r, "4294967298", "9999999999"))},
		m{"wrong-kind", "true", vk.PickOf(r, "i8", "fp32", "str", "date", "dec<5,1>", "varchar<9>")},
		m{"wrong-kind", "'abc'", vk.PickOf(r, "i8", "i64", "fp64", "bool", "date", "time", "ts", "tstz", "iyear", "iday", "pts<3>", "dec<5,1>")},
		m{"wrong-kind", "'2020-01-01'", vk.PickOf(r, "i8", "fp64", "bool", "time", "tstz", "iyear", "dec<5,1>")},
		m{"wrong-kind", "'10:00:00'", vk.PickOf(r, "i8", "date", "bool", "ts", "iday", "pts<6>")},
		m{"wrong-kind", "'2020-01-01T00:00:00'", vk.PickOf(r, "i8", "time", "date", "bool", "iyear", "pt<6>")},
		m{"wrong-kind", "'P1Y'", vk.PickOf(r, "i8", "time", "date", "bool", "iday<3>", "pt<6>")},
		m{"wrong-kind", "'P1D'", vk.PickOf(r, "i8", "time", "date", "bool", "iyear", "pt<6>")},
		m{"wrong-kind", "1", vk.PickOf(r, "bool", "date", "time", "ts", "tstz", "iyear", "iday", "pts<3>")},
		m{"wrong-kind", "1.5", vk.PickOf(r, "i8", "i64", "bool", "date")},
	)
	return x.key, x.v, x.ty
}

func genMalformed(r *vk.R, scalar, aggr string) (key, text string) {
	type m struct{ key, text string }
	ok := "add(1::i8, 2::i8) = 3::i8\n"
	aok := "add((1, 2)::i8) = 3::i8\n"
	junk := vk.PickOf(r, "~", "^", "`", "{", "}", "@", ";", "\"", "\x01", "é")
	toks := []string{"add", "(", "1", "::", "i8", ",", "'x'", "::", "str", ")", "[", "overflow", ":", "ERROR", "]", "=", "3", "::", "i8"}
	at := r.N(len(toks) + 1)
	junked := strings.Join(toks[:at], " ") + " " + junk + " " + strings.Join(toks[at:], " ") + "\n"
	drop := r.N(len(toks))
	dropped := strings.Join(append(append([]string{}, toks[:drop]...), toks[drop+1:]...), " ") + "\n"
	rows := [][]string{{"1", "2"}, {"3", "4"}, {"5", "6"}}
	i := r.N(3)
	if r.Bool() {
		rows[i] = append(rows[i], "7")
	} else {
		rows[i] = rows[i][:1]
	}
	var rs []string
	for _, x := range rows {
		rs = append(rs, "("+strings.Join(x, ", ")+")")
	}
	ragged := "(" + strings.Join(rs, ", ") + ")"
	idx := vk.PickOf(r, "2", "3", "100", "4294967296", "4294967297", "2147483648", "99999999999999999999")
	x := vk.PickOf(r,
		m{"junk", scalar + ok + junked},
		m{"junk", scalar + junked + ok},
		m{"missing-token", scalar + dropped},
		m{"empty", ""}, m{"no-cases", scalar}, m{"no-header", "# g\n" + ok}, m{"no-cases", aggr},
		m{"aggregate-in-scalar", scalar + aok}, m{"scalar-in-aggregate", aggr + ok},
		m{"aggregate-in-scalar", scalar + ok + "# h\n" + aok},
		m{"truncated", scalar + ok[:r.Range(1, len(ok)-5)]},
		m{"ragged-table", aggr + "DEFINE tbl(i8, i8) = " + ragged + "\nadd(tbl.col0, tbl.col1) = 2::i8\n"},
		m{"ragged-compact", aggr + ragged + " add(col0::i8, col1::i8) = 2::i8\n"},
		m{"ragged-compact-unused", aggr + ragged + " add(col0::i8) = 2::i8\n"},
		m{"ragged-compact-none", aggr + ragged + " add() = 2::i8\n"},
		m{"table-width", aggr + "DEFINE tbl(i8, i8, i8) = ((1, 2), (3, 4))\nadd(tbl.col0) = 2::i8\n"},
		m{"table-width", aggr + "DEFINE tbl(i8) = ((1, 2), (3, 4))\nadd(tbl.col0) = 2::i8\n"},
		m{"index-table", aggr + "DEFINE tbl(i8, i8) = ((1, 2), (3, 4))\nadd(tbl.col" + idx + ") = 2::i8\n"},
		m{"index-compact", aggr + "((1, 2), (3, 4)) add(col" + idx + "::i8) = 2::i8\n"},
		m{"wrong-table", aggr + "DEFINE tbl(i8, i8) = ((1, 2), (3, 4))\nadd(other.col0) = 2::i8\n"},
		m{"column-two-types", aggr + "((1, 2), (3, 4)) add(col0::i8, col0::i16) = 2::i8\n"},
		m{"unterminated", scalar + "add('x::str) = 3::i8\n"},
		m{"no-type", scalar + "add(1) = 3::i8\n"},
		m{"bad-outcome", scalar + "add(1::i8) = <!OOPS>\n"},
		m{"unknown-type", scalar + "add(1::i9) = 3::i8\n"},
		m{"lambda-param", scalar + "add(x) = 3::i8\n"},
	)
	return x.key, x.text
}
