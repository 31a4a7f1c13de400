package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	tcparser "github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() {
	All["C17"] = c17
	children["first"] = firstUse
}

// conOp is an operation on shared objects that writes down what it gives.
type conOp struct {
	name string
	run  func() string
}

var pointerText = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// do runs an operation; a panic is a result.
func (o conOp) do() (s string) {
	if p, _ := vk.Try(func() { s = o.run() }); p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return pointerText.ReplaceAllString(s, "PTR")
}

// raceLog reads the reports of the race detector about this process, or about
// one of its children.
type raceLog struct {
	pid  int
	read int64
}

// report is a data race that involves the library.
type report struct{ key, text string }

var frameLine = regexp.MustCompile(`(?m)^  (\S.*)\(\)$`)

// since gives the reports written since the last call, and the number of those
// that are between two accesses of the harness.
func (l *raceLog) since() (rs []report, own []string) {
	base := os.Getenv("VERIF_RACE_LOG")
	if base == "" {
		return
	}
	all, err := os.ReadFile(fmt.Sprintf("%s.%d", base, l.pid))
	if err != nil || int64(len(all)) <= l.read {
		return
	}
	text := string(all[l.read:])
	l.read = int64(len(all))
	for _, blk := range strings.Split(text, "==================") {
		if !strings.Contains(blk, "DATA RACE") {
			continue
		}
		// the two accesses; what follows is where the goroutines were made
		var tops []string
		lib := false
		parts := strings.Split(blk, "\n\n")
		for _, part := range parts[:min(2, len(parts))] {
			top := ""
			for _, m := range frameLine.FindAllStringSubmatch(part, -1) {
				f := m[1]
				if strings.Contains(f, "substrait-go/v") {
					top = f[strings.LastIndex(f, "/")+1:]
					lib = true
					break
				}
				if strings.HasPrefix(f, "verif/harness") {
					top = f[strings.LastIndex(f, "/")+1:]
					break
				}
			}
			tops = append(tops, top)
		}
		if !lib {
			own = append(own, blk)
			continue
		}
		sort.Strings(tops)
		rs = append(rs, report{strings.Join(tops, "+"), blk})
	}
	return
}

// span is one execution of an operation.
type span struct {
	op         int
	start, end time.Time
	got        string
}

// together runs operations on several goroutines that share nothing else: what
// they note is their own, so that nothing orders their accesses.
func together(r *vk.R, ops []conOp, workers, each int) [][]span {
	orders := make([][]int, workers)
	same := r.Bool()
	first := perm(r, len(ops))
	for g := range orders {
		o := first
		if !same {
			o = perm(r, len(ops))
		}
		orders[g] = o[:min(each, len(o))]
	}
	yield := make([]int, workers)
	for g := range yield {
		yield[g] = vk.PickOf(r, 0, 0, 1, 3)
	}
	logs := make([][]span, workers)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for g := range orders {
		logs[g] = make([]span, len(orders[g]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			log := logs[g]
			<-begin
			for i, k := range orders[g] {
				log[i].op, log[i].start = k, time.Now()
				log[i].got = ops[k].do()
				log[i].end = time.Now()
				if yield[g] > 0 && i%yield[g] == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	return logs
}

func perm(r *vk.R, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	vk.Shuffle(r, p)
	return p
}

// conMon watches concurrent executions.
type conMon struct {
	log raceLog
	own []string
	mu  sync.Mutex
}

func (m *conMon) races(t *vk.T) {
	m.mu.Lock()
	defer m.mu.Unlock()
	rs, own := m.log.since()
	for _, r := range rs {
		t.C.AddExtra("race_reports", 1)
		t.Failf("race:"+r.key, "data race:\n%s", r.text)
	}
	m.own = append(m.own, own...)
	t.C.AddExtra("race_reports_in_harness", int64(len(own)))
}

// judge runs the operations of one world together, those of a second, equal
// world one after the other, and compares.
func (m *conMon) judge(t *vk.T, make func() []conOp, workers, each int) {
	workers = vk.PickOf(t.R, 2, 4, workers, workers)
	ops := make()
	if len(ops) == 0 {
		return
	}
	t.Phase = "concurrent operations"
	logs := together(t.R, ops, workers, each)
	m.races(t)

	alone := make()
	t.Must(len(alone) == len(ops), "world", "the second world has %d operations, the first %d", len(alone), len(ops))
	want := map[int]string{}
	for _, log := range logs {
		for _, s := range log {
			w, ok := want[s.op]
			if !ok {
				w = alone[s.op].do()
				want[s.op] = w
			}
			t.Count(1)
			if s.got == w {
				continue
			}
			// does it give one result when it runs alone?
			steady := alone[s.op].do() == w
			for i := 0; i < 3 && steady; i++ {
				third := make()
				steady = len(third) == len(ops) && third[s.op].name == ops[s.op].name && third[s.op].do() == w
			}
			for i := 0; i < 20 && steady; i++ {
				steady = alone[s.op].do() == w
			}
			if !steady {
				t.C.AddExtra("varying_alone", 1)
				want[s.op] = s.got
				continue
			}
			t.Failf("result:"+opKey(ops[s.op].name), "%s gives, with others:\n%s\nalone:\n%s", ops[s.op].name, around(s.got, w), around(w, s.got))
		}
	}
	m.measure(t, ops, logs)
}

func opKey(n string) string {
	n, _, _ = strings.Cut(n, " ")
	return n
}

// around is the part of a text where it differs from another.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return trim(a[max(0, i-200):], 700)
}

// measure notes which executions overlapped in time.
func (m *conMon) measure(t *vk.T, ops []conOp, logs [][]span) {
	var n, over int64
	for g, a := range logs {
		n += int64(len(a))
		for h := g + 1; h < len(logs); h++ {
			b := logs[h]
			j := 0
			for i := range a {
				for j < len(b) && !b[j].end.After(a[i].start) {
					j++
				}
				for k := j; k < len(b) && b[k].start.Before(a[i].end); k++ {
					over++
					x, y := opKey(ops[a[i].op].name), opKey(ops[b[k].op].name)
					if x > y {
						x, y = y, x
					}
					t.Obs("pair", x, y)
				}
			}
		}
	}
	t.C.AddExtra("concurrent_executions", n)
	t.C.AddExtra("overlapping_pairs", over)
}

// worldOps are reflective operations over a pool of values.
func worldOps(seed uint64, kind, i, n int) []conOp {
	t := vk.Scratch("C17", "quick", seed).Case(fmt.Sprint("world", kind), i)
	w := &world{t: t, max: 40, cold: true}
	if p, _ := vk.Try(func() { w.settle(kind) }); p != nil {
		return nil
	}
	return viewOps(w, w.pool, nil, n)
}

// viewOps: what every value says, and n operations.
func viewOps(w *world, pool []*pooled, tools []reflect.Value, n int) []conOp {
	var ops []conOp
	for _, p := range pool {
		ops = append(ops, conOp{"reading-" + p.v.Type().String(), func() string { return reading(p.v) }})
	}
	base := w.t.R.Uint64()
	for k := 0; k < n; k++ {
		ops = append(ops, conOp{"step", func() string {
			var out strings.Builder
			v := &world{t: &vk.T{C: vk.Scratch("C17", "quick", base), R: vk.NewR(base, "op", k)}, pool: pool, calls: w.calls, max: w.max, out: &out}
			v.tools = append(v.tools, tools...)
			for _, f := range w.fresh {
				v.tools = append(v.tools, f())
			}
			for tries := 0; tries < 5 && out.Len() == 0; tries++ {
				v.step()
			}
			return out.String()
		}})
	}
	return ops
}

// loadedOps are lookups in a collection loaded from generated files, in the
// registries over it, and in dialects.
func loadedOps(seed uint64, i int) (ops []conOp) {
	r := vk.NewR(seed, "loaded", i)
	coll := &extensions.Collection{}
	urns := []string{"extension:verif:a", "extension:verif:b"}[:1+r.N(2)]
	for _, u := range urns {
		if err := coll.Load(strings.NewReader(genFile(r, u).text(r))); err != nil {
			return nil
		}
	}
	// what there is, without using it
	var all [3][]extensions.FunctionVariant
	probe := &extensions.Collection{}
	r2 := vk.NewR(seed, "loaded", i)
	_ = r2.N(2)
	for _, u := range urns {
		_ = probe.Load(strings.NewReader(genFile(r2, u).text(r2)))
	}
	for k := fnScalar; k <= fnWin; k++ {
		vs := allFn(probe, k)
		sort.Slice(vs, func(a, b int) bool {
			return vs[a].URN()+"|"+vs[a].CompoundName() < vs[b].URN()+"|"+vs[b].CompoundName()
		})
		all[k] = vs
	}
	freg := functions.NewFunctionRegistry(coll)
	treg := functions.NewTypeRegistry()
	add := func(name string, f func() string) { ops = append(ops, conOp{name, f}) }
	names := map[string]bool{}
	for k, vs := range all {
		for _, v := range vs {
			id := extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()}
			names[v.Name()] = true
			sg := sigOf(v)
			var args []types.Type
			if sg != nil {
				args = libArgs(sg.Args(r, func(string) uint32 { return 1 }))
			}
			get := func() (extensions.FunctionVariant, string) {
				g, ok := getFn(coll, fnKind(k), id)
				if !ok {
					return nil, "absent"
				}
				return g, ""
			}
			add("coll-get", func() string {
				g, s := get()
				if g == nil {
					return s
				}
				return describe(g)
			})
			add("coll-resolve", func() string {
				g, s := get()
				if g == nil {
					return s
				}
				ok, err := g.Match(args)
				ty, err2 := g.ResolveType(args, extensions.NewSet())
				return fmt.Sprint(ok, err, ty, err2, g.MinArgumentCount(), g.MaxArgumentCount())
			})
			if r.P(1, 3) {
				add("expr-invoke", func() string {
					g, s := get()
					if g == nil {
						return s
					}
					reg := expr.NewEmptyExtensionRegistry(coll)
					var as []types.FuncArg
					for _, a := range args {
						if a == types.CommonEnumType {
							as = append(as, types.Enum("A"))
						} else {
							as = append(as, expr.NewNullLiteral(a))
						}
					}
					f, err := invoke(&reg, g, false, as)
					if err != nil {
						return err.Error()
					}
					return fmt.Sprint(reading(reflect.ValueOf(f)), reg.GetFuncAnchor(id))
				})
			}
		}
	}
	for _, name := range sortedKeys(names) {
		for k := fnScalar; k <= fnWin; k++ {
			add("registry-get", func() string {
				var b strings.Builder
				for n := 0; n < 4; n++ {
					fmt.Fprintln(&b, listFns(fnsOf(freg, k, name, n)))
				}
				return b.String()
			})
		}
	}
	add("coll-list", func() string {
		return listFns(allFn(coll, fnScalar)) + listFns(allFn(coll, fnAgg)) + listFns(allFn(coll, fnWin))
	})
	add("coll-print", func() string { return collPrint(coll, urns) })
	add("registry-new", func() string { return listFns(functions.NewFunctionRegistry(coll).GetAllFunctions()) })
	add("registry-all", func() string { return listFns(freg.GetAllFunctions()) })
	add("types", func() string { return registryReading(treg) })
	if d := genDialect(r, coll, all); d != nil {
		text := d.text(r)
		dia, err := functions.LoadDialect("d", strings.NewReader(text))
		if err != nil {
			return nil
		}
		add("dialect-load", func() string {
			dia, err := functions.LoadDialect("d", strings.NewReader(text))
			if err != nil {
				return err.Error()
			}
			return registryReading(dia)
		})
		add("dialect-types", func() string { return registryReading(dia) })
		// one which is used for the first time by several goroutines (above), and one that has been used
		used, err := functions.LoadDialect("d", strings.NewReader(text))
		if err != nil {
			return nil
		}
		local, err := used.LocalizeFunctionRegistry(freg)
		if err != nil {
			return nil
		}
		ltypes, err := used.GetLocalTypeRegistry()
		if err != nil {
			return nil
		}
		add("local-types", func() string { return typePrint(ltypes) })
		say := func(reg functions.LocalFunctionRegistry, ln string) string {
			var b strings.Builder
			for k := fnScalar; k <= fnWin; k++ {
				for n := 0; n < 4; n++ {
					for _, f := range append(localsOf(reg, k, functions.LocalFunctionName(ln), n), localsOf(reg, k, functions.SubstraitFunctionName(ln), n)...) {
						fmt.Fprintf(&b, "%s %s %v;", f.v.URN(), f.v.CompoundName(), reading(reflect.ValueOf(f.l)))
					}
				}
			}
			return b.String()
		}
		add("dialect-localize", func() string {
			reg, err := dia.LocalizeFunctionRegistry(freg)
			if err != nil {
				return err.Error()
			}
			return listFns(reg.GetAllFunctions())
		})
		for _, fs := range d.fns {
			for _, f := range fs {
				for _, n := range []string{f.name, f.localName()} {
					add("local-get", func() string { return say(local, n) })
				}
			}
		}
	}
	return ops
}

func sortedKeys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func listFns(vs []extensions.FunctionVariant) string {
	var ls []string
	for _, v := range vs {
		ls = append(ls, fmt.Sprintf("%T %s %s %v", v, v.URN(), v.CompoundName(), v.Name()))
	}
	return strings.Join(ls, "\n")
}

// sayType writes down a parsed type.
func sayType(text string) string {
	ft, err := parser.ParseType(text)
	if err != nil {
		return err.Error()
	}
	return ft.String() + " " + reading(reflect.ValueOf(ft))
}

func sayTests(text string) string {
	f, err := tcparser.ParseTestCasesFromString(text)
	if err != nil {
		return err.Error()
	}
	var b strings.Builder
	for _, c := range f.TestCases {
		fmt.Fprintln(&b, c.String(), c.FuncName, c.GroupDesc, len(c.Args))
		for _, a := range c.Args {
			fmt.Fprint(&b, a.ValueText, a.Type, a.Value, ";")
		}
	}
	return b.String()
}

func sayLoad(text, urn string) string {
	coll := &extensions.Collection{}
	if err := coll.Load(strings.NewReader(text)); err != nil {
		return err.Error()
	}
	return collPrint(coll, []string{urn})
}

func sayPlan(bs []byte) string {
	p := &proto.Plan{}
	if err := pb.Unmarshal(bs, p); err != nil {
		return err.Error()
	}
	pl, err := decodePlan(p)
	if err != nil {
		return err.Error()
	}
	var b strings.Builder
	for _, r := range relsOf(pl) {
		rt := r.RecordType()
		fmt.Fprintln(&b, &rt)
	}
	q, err := pl.ToProto()
	if err != nil {
		return err.Error()
	}
	out, _ := pb.MarshalOptions{Deterministic: true}.Marshal(q)
	fmt.Fprintf(&b, "%x", out)
	return b.String()
}

// corpus is input for operations that share only what the library keeps itself.
type corpus struct {
	Types, Tests, Files, Dialects, Names []string
	Plans                                [][]byte
	Fns                                  []fnUse
}

// fnUse is the use of a bundled function.
type fnUse struct {
	Kind      int
	URN, Name string
	Args      [][]byte
}

func genCorpus(r *vk.R, scale int) *corpus {
	loadFnPool()
	c := &corpus{}
	for i := 0; i < 12*scale; i++ {
		text := ""
		vk.Try(func() {
			if r.Bool() {
				if p, ok := concretePT(spec.GenType(r, spec.TypeOpt{Depth: 2})); ok {
					text = spec.Pr{R: r}.PT(p)
				}
			} else {
				text = spec.Pr{R: r}.PD(genPD(r, 2))
			}
		})
		if r.P(1, 4) && text != "" {
			text = mangle(r, text)
		}
		if text != "" {
			c.Types = append(c.Types, text)
		}
	}
	for i := 0; i < 3*scale; i++ {
		text := genTestFile(r).text
		if r.P(1, 5) {
			text = mangle(r, text)
		}
		c.Tests = append(c.Tests, text)
	}
	for i := 0; i < 2*scale; i++ {
		c.Files = append(c.Files, genFile(r, "extension:verif:a").text(r))
	}
	coll := extensions.GetDefaultCollectionWithNoError()
	var all [3][]extensions.FunctionVariant
	for k := fnScalar; k <= fnWin; k++ {
		vs := allFn(coll, k)
		sort.Slice(vs, func(a, b int) bool {
			return vs[a].URN()+"|"+vs[a].CompoundName() < vs[b].URN()+"|"+vs[b].CompoundName()
		})
		all[k] = vs
	}
	for i := 0; i < scale; i++ {
		if d := genDialect(r, coll, all); d != nil {
			c.Dialects = append(c.Dialects, d.text(r))
		}
	}
	for i := 0; i < 5*scale; i++ {
		bs, err := pb.MarshalOptions{Deterministic: true}.Marshal(genPlan(r, func(g *spec.PG) { c04tune(g) }).P)
		if err == nil {
			c.Plans = append(c.Plans, bs)
		}
	}
	for i := 0; i < 15*scale; i++ {
		k := r.N(3)
		v := vk.Pick(r, all[k])
		u := fnUse{Kind: k, URN: v.URN(), Name: v.CompoundName()}
		sg := sigOf(v)
		if sg == nil {
			continue
		}
		for _, a := range sg.Args(r, func(string) uint32 { return 1 }) {
			if a == nil {
				u.Args = append(u.Args, nil)
				continue
			}
			bs, _ := pb.MarshalOptions{Deterministic: true}.Marshal(a.Proto())
			u.Args = append(u.Args, append([]byte{0}, bs...))
		}
		c.Fns = append(c.Fns, u)
		c.Names = append(c.Names, v.Name())
	}
	return c
}

// textOps: parsers, loaders and decoders on texts and messages of their own.
func (c *corpus) ops() (ops []conOp) {
	add := func(name string, f func() string) { ops = append(ops, conOp{name, f}) }
	for _, s := range c.Types {
		add("ParseType", func() string { return sayType(s) })
		add("GetTypeFromTypeString", func() string {
			ty, err := functions.NewTypeRegistry().GetTypeFromTypeString(s)
			return fmt.Sprint(ty, err)
		})
	}
	for _, s := range c.Tests {
		add("ParseTestCases", func() string { return sayTests(s) })
	}
	for _, s := range c.Files {
		add("Load", func() string { return sayLoad(s, "extension:verif:a") })
	}
	for _, s := range c.Dialects {
		add("LoadDialect", func() string {
			dia, err := functions.LoadDialect("d", strings.NewReader(s))
			if err != nil {
				return err.Error()
			}
			reg, err := dia.LocalizeFunctionRegistry(functions.NewFunctionRegistry(extensions.GetDefaultCollectionWithNoError()))
			if err != nil {
				return err.Error()
			}
			return registryReading(dia) + "\n" + listFns(reg.GetAllFunctions())
		})
	}
	for _, s := range c.Plans {
		add("FromProto", func() string { return sayPlan(s) })
	}
	for _, u := range c.Fns {
		add("bundled-function", func() string {
			coll := extensions.GetDefaultCollectionWithNoError()
			v, ok := getFn(coll, fnKind(u.Kind), extensions.FunctionID{URN: u.URN, Name: u.Name})
			if !ok {
				return "absent"
			}
			var args []types.Type
			for _, bs := range u.Args {
				if bs == nil {
					args = append(args, types.CommonEnumType)
					continue
				}
				m := &proto.Type{}
				if err := pb.Unmarshal(bs[1:], m); err != nil {
					return err.Error()
				}
				args = append(args, types.TypeFromProto(m))
			}
			m, err := v.Match(args)
			ty, err2 := v.ResolveType(args, extensions.NewSet())
			return fmt.Sprint(m, err, ty, err2, describe(v))
		})
	}
	for _, n := range c.Names {
		add("bundled-registry", func() string {
			reg := functions.NewFunctionRegistry(extensions.GetDefaultCollectionWithNoError())
			return listFns(fnsOf(reg, fnScalar, n, 2)) + listFns(fnsOf(reg, fnAgg, n, 1))
		})
	}
	add("type-table", func() string {
		var ls []string
		for k, v := range types.GetTypeNameToTypeMap() {
			ls = append(ls, fmt.Sprint(k, v))
		}
		sort.Strings(ls)
		return strings.Join(ls, "\n")
	})
	add("type-registry", func() string { return registryReading(functions.NewTypeRegistry()) })
	return
}

// firstUse is a fresh process in which several goroutines use the library for
// the first time, or (workers = 1) one does.
// arguments: corpus file, result file, seed, workers
func firstUse(args []string) int {
	bs, err := os.ReadFile(args[0])
	if err != nil {
		return 2
	}
	c := &corpus{}
	if json.Unmarshal(bs, c) != nil {
		return 2
	}
	var seed uint64
	var workers int
	fmt.Sscan(args[2], &seed)
	fmt.Sscan(args[3], &workers)
	ops := c.ops()
	each := len(ops)
	if workers > 1 {
		each = (len(ops) + 1) / 2
	}
	logs := together(vk.NewR(seed, "first"), ops, workers, each)
	got := map[int]map[string]bool{}
	var ex, over int64
	for g, log := range logs {
		ex += int64(len(log))
		for _, s := range log {
			if got[s.op] == nil {
				got[s.op] = map[string]bool{}
			}
			got[s.op][s.got] = true
		}
		for _, b := range logs[g+1:] {
			for _, s := range log[:min(3, len(log))] {
				for _, u := range b[:min(3, len(b))] {
					if s.start.Before(u.end) && u.start.Before(s.end) {
						over++
					}
				}
			}
		}
	}
	res := firstRes{Executions: ex, FirstOverlaps: over, Got: map[int][]string{}}
	for k, m := range got {
		res.Got[k] = sortedKeys(m)
	}
	out, err := json.Marshal(res)
	if err != nil || os.WriteFile(args[1], out, 0o644) != nil {
		return 2
	}
	return 0
}

type firstRes struct {
	Executions, FirstOverlaps int64
	Got                       map[int][]string
}

func c17(c *vk.C) {
	if os.Getenv("VERIF_RACE_LOG") == "" {
		c.Inconclusive("the race detector is not in use")
		return
	}
	workers := runtime.NumCPU()
	debug.SetGCPercent(400)
	m := &conMon{log: raceLog{pid: os.Getpid()}}

	// first of all: the parent has not used the library either, but it has to, to make the corpus
	c.Rule("first: fresh processes in which goroutines make the first uses of the library (default collection, parsers, loaders, decoders, type table) at once, under the race detector; their results are compared with those of a process that makes the same calls one after the other; non-trivial = distinct result of an operation")
	c.Section("first", c.Scale(6, 200), func(t *vk.T) {
		dir, err := os.MkdirTemp("", "first")
		t.Must(err == nil, "scratch", "%v", err)
		defer os.RemoveAll(dir)
		cp := genCorpus(t.R, 1)
		ops := cp.ops()
		bs, _ := json.Marshal(cp)
		in := filepath.Join(dir, "corpus")
		t.Must(os.WriteFile(in, bs, 0o644) == nil, "scratch", "")
		n := c.Scale(7, 15)
		res := make([]*firstRes, n+1)
		fails := make([]string, n+1)
		pids := make([]int, n+1)
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		for i := 0; i <= n; i++ {
			wg.Add(1)
			seed := t.R.Uint64() % 1e9
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				w := workers
				if i == 0 {
					w = 1
				}
				out := filepath.Join(dir, fmt.Sprint("out", i))
				cmd := exec.Command(os.Getenv("VERIF_BIN"), "--child", "first", in, out, fmt.Sprint(seed), fmt.Sprint(w))
				var errb bytes.Buffer
				cmd.Stderr = &errb
				timer := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
				err := cmd.Run()
				timer.Stop()
				if cmd.Process != nil {
					pids[i] = cmd.Process.Pid
				}
				if err != nil {
					fails[i] = fmt.Sprintf("%v: %s", err, trim(errb.String(), 3000))
					return
				}
				bs, err := os.ReadFile(out)
				r := &firstRes{}
				if err == nil && json.Unmarshal(bs, r) == nil {
					res[i] = r
				} else {
					fails[i] = "no result"
				}
			}()
		}
		wg.Wait()
		for i := range res {
			if res[i] == nil {
				if strings.Contains(fails[i], "fatal error:") || strings.Contains(fails[i], "panic:") {
					t.Failf("crash", "a process with %d goroutines ended: %s", workers, fails[i])
				} else {
					c.Inconclusive("first-use process: %s", fails[i])
				}
				continue
			}
			cm := &conMon{log: raceLog{pid: pids[i]}}
			cm.races(t)
			_ = os.Remove(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACE_LOG"), pids[i]))
			m.own = append(m.own, cm.own...)
		}
		if res[0] == nil {
			return
		}
		for i := 1; i <= n; i++ {
			if res[i] == nil {
				continue
			}
			c.AddExtra("first_use_processes", 1)
			c.AddExtra("first_use_executions", res[i].Executions)
			c.AddExtra("first_calls_overlapping", res[i].FirstOverlaps)
			for k, gots := range res[i].Got {
				want := res[0].Got[k]
				for _, g := range gots {
					t.Count(1)
					if len(want) == 1 && g != want[0] && ops[k].do() == want[0] && ops[k].do() == want[0] {
						t.Failf("result:"+ops[k].name, "%s gives, with others:\n%s\nalone:\n%s", ops[k].name, around(g, want[0]), around(want[0], g))
					}
					t.Obs(ops[k].name, g)
				}
			}
		}
		t.Sample("%d operations in %d processes of %d goroutines", len(ops), n, workers)
	})

	loadFnPool()
	for kind, name := range []string{"types", "functions", "expressions", "relations"} {
		c.Rule(name + ": two equal pools of values; on the one, goroutines read all values and run operations found by reflection (as in C07, arguments from the pool, registries and builders of their own) at once, under the race detector; on the other they run one after the other, and give the same; non-trivial = distinct pair of operations whose executions overlapped")
		c.SectionN(name, c.Scale([]int{60, 50, 60, 60}[kind], 4000), 3, func(t *vk.T) {
			m.judge(t, func() []conOp { return worldOps(c.Seed, kind, t.Index, 60) }, workers, 60)
		})
	}
	c.Rule("loaded: the same for lookups, matching and type resolution in a collection loaded from generated files and not used before, in the registries over it, and in a dialect")
	c.SectionN("loaded", c.Scale(60, 4000), 3, func(t *vk.T) {
		m.judge(t, func() []conOp { return loadedOps(c.Seed, t.Index) }, workers, 150)
	})
	c.Rule("texts: the same for the parsers, loaders and decoders, each call on a text or message of its own")
	c.SectionN("texts", c.Scale(25, 2000), 3, func(t *vk.T) {
		m.judge(t, func() []conOp { return genCorpus(vk.NewR(c.Seed, "texts", t.Index), 1).ops() }, workers, 60)
	})
	rets := bundledReturns(c)
	c.Rule("builders: the same for histories of builder calls (those of C09), each with a builder of its own over the default collection, ending in encoded plans")
	c.SectionN("builders", c.Scale(30, 3000), 3, func(t *vk.T) {
		m.judge(t, func() (ops []conOp) {
			for k := 0; k < 20; k++ {
				ops = append(ops, conOp{"history", func() string {
					sc := vk.Scratch("C17", "quick", c.Seed)
					ct := sc.Case("builders", t.Index*100+k)
					s := newBuilderState(ct)
					s.rets = rets
					p, _ := vk.Try(s.history)
					if vk.IsStop(p) {
						p = nil
					}
					bs, _ := pb.MarshalOptions{Deterministic: true}.Marshal(s.made)
					return fmt.Sprintf("%x\n%v\n%v\n%s", bs, sc.Keys(), p, strings.Join(s.log, "\n"))
				}})
			}
			return
		}, workers, 12)
	})
	if len(m.own) > 0 {
		c.Inconclusive("%d races within the harness, such as:\n%s", len(m.own), m.own[0])
	}
}
