package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() {
	All["C24"] = c24
	children["histories"] = historiesChild
}

// histories are the kinds of operation sequences which are repeated.
var histories = []struct {
	name           string
	quick, through int
	ops            func(seed uint64, i int) []conOp
}{
	{"types", 250, 20000, func(s uint64, i int) []conOp { return worldOps(s+24, 0, i, 50) }},
	{"functions", 150, 10000, func(s uint64, i int) []conOp { return worldOps(s+24, 1, i, 50) }},
	{"expressions", 250, 20000, func(s uint64, i int) []conOp { return worldOps(s+24, 2, i, 50) }},
	{"relations", 250, 20000, func(s uint64, i int) []conOp { return worldOps(s+24, 3, i, 50) }},
	{"loaded", 200, 20000, func(s uint64, i int) []conOp { return loadedOps(s+24, i) }},
	{"texts", 60, 6000, func(s uint64, i int) []conOp { return genCorpus(vk.NewR(s, "C24", i), 1).ops() }},
	{"builders", 400, 40000, builderHistories},
	{"sets", 600, 40000, setHistories},
}

var returnsOnce = sync.OnceValue(func() map[string]*spec.PD { return bundledReturns(vk.Scratch("C24", "quick", 1)) })

func builderHistories(seed uint64, i int) (ops []conOp) {
	for k := 0; k < 3; k++ {
		ops = append(ops, conOp{"history", func() string {
			sc := vk.Scratch("C24", "quick", seed)
			s := newBuilderState(sc.Case("builders", i*100+k))
			s.rets = returnsOnce()
			p, _ := vk.Try(s.history)
			if vk.IsStop(p) {
				p = nil
			}
			bs, _ := pb.MarshalOptions{Deterministic: true}.Marshal(s.made)
			return fmt.Sprintf("%v\n%s\n%x", p, strings.Join(s.log, "\n"), bs)
		}})
	}
	return
}

// setHistories ask extension registries for anchors in an order, and for the
// declarations, which are also decoded and encoded again.
func setHistories(seed uint64, i int) (ops []conOp) {
	loadFnPool()
	coll := extensions.GetDefaultCollectionWithNoError()
	return []conOp{{"set", func() string {
		r := vk.NewR(seed, "C24-sets", i)
		var b strings.Builder
		set := extensions.NewSet()
		if r.Bool() {
			d := genFnDecls(r)
			s, err := extensions.GetExtensionSet(&proto.Plan{ExtensionUrns: d.URNs, Extensions: d.Exts}, coll)
			if err != nil {
				return err.Error()
			}
			set = s
		}
		reg := expr.NewExtensionRegistry(set, coll)
		for n := 1 + r.N(30); n > 0; n-- {
			v := vk.Pick(r, fnPool.by[r.N(3)])
			u := v.URN()
			if r.P(1, 3) {
				u = vk.PickOf(r, "extension:a:b", "extension:c:d", "extension:e:f")
			}
			switch r.N(6) {
			case 0:
				fmt.Fprintln(&b, reg.GetTypeAnchor(extensions.TypeID{URN: u, Name: vk.PickOf(r, "t", "u", "point")}))
			case 1:
				fmt.Fprintln(&b, reg.GetTypeVariationAnchor(extensions.TypeVariationID{URN: u, Name: vk.PickOf(r, "x", "y")}))
			case 2:
				a, ok := set.FindURN(u)
				fmt.Fprintln(&b, a, ok)
			default:
				fmt.Fprintln(&b, reg.GetFuncAnchor(extensions.FunctionID{URN: u, Name: v.CompoundName()}))
			}
		}
		for k := 0; k < 2; k++ {
			us, es := set.ToProto(coll)
			p := &proto.Plan{ExtensionUrns: us, Extensions: es}
			bs, _ := pb.MarshalOptions{Deterministic: true}.Marshal(p)
			fmt.Fprintf(&b, "%x\n", bs)
			s, err := extensions.GetExtensionSet(p, coll)
			if err != nil {
				return b.String() + err.Error()
			}
			set = s
		}
		return b.String()
	}}, {"empty-plan", func() string {
		r := vk.NewR(seed, "C24-plans", i)
		bd := plan.NewBuilder(coll)
		for n := 1 + r.N(12); n > 0; n-- {
			v := vk.Pick(r, fnPool.by[r.N(3)])
			bd.GetFunctionRef(v.URN(), v.CompoundName())
		}
		t := bd.NamedScan([]string{"t"}, types.NamedStruct{Names: []string{"a"}, Struct: types.StructType{Types: []types.Type{&types.Int32Type{}}, Nullability: types.NullabilityRequired}})
		pl, err := bd.Plan(t, []string{"a"})
		if err != nil {
			return err.Error()
		}
		q, err := pl.ToProto()
		bs, _ := pb.MarshalOptions{Deterministic: true}.Marshal(q)
		return fmt.Sprintf("%x %v", bs, err)
	}}}
}

// transcript is what the operations of a history give.
func transcript(ops []conOp) (out []string) {
	for _, o := range ops {
		s := ""
		if p, _ := vk.Try(func() { s = o.run() }); p != nil {
			s = fmt.Sprintf("panic: %v", p)
		}
		out = append(out, s)
	}
	return
}

func hashes(ts []string) []uint64 {
	out := make([]uint64, len(ts))
	for i, s := range ts {
		h := fnv.New64a()
		h.Write([]byte(s))
		out[i] = h.Sum64()
	}
	return out
}

// historiesChild repeats histories in a process of its own.
// arguments: result file, seed, and per kind the number of cases, or a kind
// and an index for the full text.
func historiesChild(args []string) int {
	var seed uint64
	fmt.Sscan(args[1], &seed)
	if len(args) == 4 {
		for _, h := range histories {
			if h.name == args[2] {
				var i int
				fmt.Sscan(args[3], &i)
				bs, _ := json.Marshal(transcript(h.ops(seed, i)))
				if os.WriteFile(args[0], bs, 0o644) == nil {
					return 0
				}
			}
		}
		return 2
	}
	res := map[string][]uint64{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU()/2)
	for k, h := range histories {
		var n int
		fmt.Sscan(args[2+k], &n)
		for i := 0; i < n; i++ {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				hs := hashes(transcript(h.ops(seed, i)))
				mu.Lock()
				res[fmt.Sprint(h.name, "/", i)] = hs
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	bs, err := json.Marshal(res)
	if err != nil || os.WriteFile(args[0], bs, 0o644) != nil {
		return 2
	}
	return 0
}

func c24(c *vk.C) {
	loadFnPool()
	returnsOnce()
	done := map[string][]uint64{}
	var mu sync.Mutex
	c.Rule("types, functions, expressions, relations, loaded, texts, builders, sets: histories (what pools of values say and operations found by reflection give, as in C07; lookups and listings in loaded collections, registries and dialects; parsers, loaders and decoders; builder calls ending in encoded plans, as in C09; anchors asked of extension sets and their declarations) are performed several times from the beginning in one process, and once in each of several others; every operation gives the same each time; non-trivial = distinct result")
	reps := c.Scale(4, 8)
	for _, h := range histories {
		c.ParSection(h.name, c.Scale(h.quick, h.through), func(t *vk.T) {
			t.Phase = "history"
			ops := h.ops(c.Seed, t.Index)
			first := transcript(ops)
			for k := 1; k < reps; k++ {
				again := h.ops(c.Seed, t.Index)
				if !t.Check(len(again) == len(ops), "length", "%d operations, then %d", len(ops), len(again)) {
					return
				}
				for j, s := range transcript(again) {
					t.Count(1)
					if s != first[j] {
						t.Failf("varies:"+opName(ops[j].name, s), "%s gives\n%s\nand when everything is repeated\n%s", ops[j].name, around(first[j], s), around(s, first[j]))
						first[j] = s
					}
				}
			}
			hs := hashes(first)
			for j, x := range hs {
				t.Obs(ops[j].name, x)
			}
			c.AddExtra("operations_repeated", int64(len(ops)*(reps-1)))
			mu.Lock()
			done[fmt.Sprint(h.name, "/", t.Index)] = hs
			mu.Unlock()
		})
	}
	c.Rule("processes: the same histories in fresh processes; non-trivial = a process")
	c.Section("processes", c.Scale(4, 12), func(t *vk.T) {
		dir, err := os.MkdirTemp("", "hist")
		t.Must(err == nil, "scratch", "%v", err)
		defer os.RemoveAll(dir)
		run := func(args ...string) ([]byte, bool) {
			out := filepath.Join(dir, "out")
			cmd := exec.Command(os.Getenv("VERIF_BIN"), append([]string{"--child", "histories", out, fmt.Sprint(c.Seed)}, args...)...)
			var errb bytes.Buffer
			cmd.Stderr = &errb
			timer := time.AfterFunc(time.Duration(c.Scale(200, 1500))*time.Second, func() { _ = cmd.Process.Kill() })
			err := cmd.Run()
			timer.Stop()
			if err != nil {
				c.Inconclusive("repeating process: %v %s", err, trim(errb.String(), 2000))
				return nil, false
			}
			bs, err := os.ReadFile(out)
			return bs, err == nil
		}
		args := []string{}
		for _, h := range histories {
			args = append(args, fmt.Sprint(c.Scale(h.quick, h.through/10)))
		}
		bs, ok := run(args...)
		if !ok {
			return
		}
		got := map[string][]uint64{}
		t.Must(json.Unmarshal(bs, &got) == nil, "result", "")
		shown := map[string]bool{}
		for _, h := range histories {
			for i := 0; i < c.Scale(h.quick, h.through/10); i++ {
				key := fmt.Sprint(h.name, "/", i)
				want, have := done[key]
				if !have {
					continue
				}
				g := got[key]
				t.Check(len(g) == len(want), "length", "%s has %d operations in another process, and %d here", key, len(g), len(want))
				for j := 0; j < len(g) && j < len(want); j++ {
					t.Count(1)
					if g[j] == want[j] {
						continue
					}
					if shown[h.name] {
						continue
					}
					shown[h.name] = true
					var there []string
					if bs, ok := run(h.name, fmt.Sprint(i)); ok && json.Unmarshal(bs, &there) == nil {
						ops := h.ops(c.Seed, i)
						here := transcript(ops)
						for k := 0; k < len(here) && k < len(there); k++ {
							if here[k] != there[k] {
								t.Failf("varies:"+h.name+":"+opName(ops[k].name, here[k]), "%s gives\n%s\nand in another process\n%s", ops[k].name, around(here[k], there[k]), around(there[k], here[k]))
								break
							}
						}
					}
					t.Failf("varies:"+h.name, "operation %d of %s gives something else in another process", j, key)
				}
			}
		}
		t.Obs("process", t.Index)
		c.AddExtra("processes", 1)
	})
}

// opName names an operation; steps say themselves what they run.
func opName(name, result string) string {
	if k := strings.IndexAny(result, "["); name == "step" && k > 0 && k < 120 {
		return "step:" + strings.ReplaceAll(result[:k], " ", "-")
	}
	return name
}
