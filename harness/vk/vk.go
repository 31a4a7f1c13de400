// Package vk is the small runtime-monitoring kit shared by all checks: it
// drives deterministic workloads, recovers panics of the code under test,
// counts what the monitors observed and writes evidence.
package vk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// R is a deterministic random source with helpers.
type R struct{ *rand.Rand }

func NewR(seed uint64, parts ...any) *R {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return &R{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, h.Sum64()))}
}
func (r *R) N(n int) int            { return r.IntN(n) }
func (r *R) Bool() bool             { return r.Uint64()&1 == 1 }
func (r *R) P(num, den int) bool    { return r.IntN(den) < num }
func (r *R) Range(lo, hi int) int   { return lo + r.IntN(hi-lo+1) }
func Pick[T any](r *R, xs []T) T    { return xs[r.IntN(len(xs))] }
func PickOf[T any](r *R, xs ...T) T { return xs[r.IntN(len(xs))] }
func Shuffle[T any](r *R, xs []T) {
	r.Rand.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
}
func Sub[T any](r *R, xs []T) (out []T) {
	for _, x := range xs {
		if r.Bool() {
			out = append(out, x)
		}
	}
	return
}

// Violation is one refutation of the property.
type Violation struct {
	Section string `json:"section"`
	Index   int    `json:"index"`
	Key     string `json:"key"`
	Msg     string `json:"msg"`
	Count   int    `json:"count"`
}

type secStat struct {
	Cases    int64 `json:"cases"`
	Checks   int64 `json:"oracle_evaluations"`
	Distinct int   `json:"distinct_nontrivial"`
}

// C is one check run.
type C struct {
	ID, Tier string
	Seed     uint64
	Only     string // replay: section
	OnlyIdx  int

	mu       sync.Mutex
	viol     map[string]*Violation
	order    []string
	known    map[string]string
	knownHit map[string]string
	stats    map[string]*secStat
	distinct map[string]map[uint64]struct{}
	samples  map[string][]any
	extra    map[string]any
	rules    []string
	start    time.Time
	root     string
	cur      atomic.Value
	inconcl  []string
}

func New(id, tier string, seed uint64, root string) *C {
	c := &C{ID: id, Tier: tier, Seed: seed, root: root, OnlyIdx: -1,
		viol: map[string]*Violation{}, known: map[string]string{}, knownHit: map[string]string{},
		stats: map[string]*secStat{}, distinct: map[string]map[uint64]struct{}{}, samples: map[string][]any{},
		extra: map[string]any{}, start: time.Now()}
	c.loadKnown()
	return c
}

// Scratch is a monitor of its own whose records go nowhere.
func Scratch(id, tier string, seed uint64) *C {
	return &C{ID: id, Tier: tier, Seed: seed, OnlyIdx: -1,
		viol: map[string]*Violation{}, known: map[string]string{}, knownHit: map[string]string{},
		stats: map[string]*secStat{}, distinct: map[string]map[uint64]struct{}{}, samples: map[string][]any{},
		extra: map[string]any{}, start: time.Now()}
}

// Case is a case of a monitor.
func (c *C) Case(section string, i int) *T {
	c.stat(section)
	return &T{C: c, R: NewR(c.Seed, c.ID, section, i), Section: section, Index: i}
}

// Keys are the keys of the violations so far.
func (c *C) Keys() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.order...)
}

// Thorough tells whether this is the thorough tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Scale picks the case count of a section by tier.
func (c *C) Scale(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *C) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> :: <what fails>
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "finding: property="+c.ID+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		c.known[strings.TrimSpace(key)] = strings.TrimSpace(what)
	}
}

// Rule documents how a section makes cases and what is non-trivial.
func (c *C) Rule(s string) { c.rules = append(c.rules, s) }

// Extra records an additional measured value in the evidence.
func (c *C) Extra(k string, v any) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }

// AddExtra adds to a numeric extra.
func (c *C) AddExtra(k string, n int64) {
	c.mu.Lock()
	v, _ := c.extra[k].(int64)
	c.extra[k] = v + n
	c.mu.Unlock()
}

// T is one case.
type T struct {
	C       *C
	R       *R
	Section string
	Index   int
	Phase   string // what the case is doing, used to key panics
	Desc    func() string
	checks  int64
}

type stop struct{}

// Section runs n deterministic cases.
func (c *C) Section(name string, n int, fn func(t *T)) {
	c.section(name, n, 1, fn)
}

// ParSection runs n deterministic cases on several workers.
func (c *C) ParSection(name string, n int, fn func(t *T)) {
	c.section(name, n, runtime.NumCPU(), fn)
}

// SectionN runs n deterministic cases on so many workers.
func (c *C) SectionN(name string, n, workers int, fn func(t *T)) {
	c.section(name, n, workers, fn)
}

func (c *C) section(name string, n, workers int, fn func(t *T)) {
	if c.Only != "" && c.Only != name {
		return
	}
	st := c.stat(name)
	run := func(i int) {
		t := &T{C: c, R: NewR(c.Seed, c.ID, name, i), Section: name, Index: i}
		if workers == 1 {
			c.cur.Store([2]any{name, i})
		}
		atomic.AddInt64(&st.Cases, 1)
		t.protect(func() { fn(t) })
		atomic.AddInt64(&st.Checks, t.checks)
	}
	if c.Only != "" && c.OnlyIdx >= 0 {
		run(c.OnlyIdx)
		return
	}
	if workers == 1 {
		for i := 0; i < n; i++ {
			run(i)
		}
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				run(i)
			}
		}()
	}
	wg.Wait()
}

func (c *C) stat(name string) *secStat {
	c.mu.Lock()
	defer c.mu.Unlock()
	st := c.stats[name]
	if st == nil {
		st = &secStat{}
		c.stats[name] = st
		c.distinct[name] = map[uint64]struct{}{}
	}
	return st
}

func (t *T) protect(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			t.record("panic:"+t.Phase+":"+PanicKey(r), fmt.Sprintf("panic during %s: %v\n%s", t.Phase, r, frames(string(debug.Stack()))))
		}
	}()
	fn()
}

// Frames is frames for checks that recover panics themselves.
func Frames(st string) string { return frames(st) }

// frames keeps the library's frames of a stack trace.
func frames(st string) string {
	var out []string
	ls := strings.Split(st, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if l := ls[i+1]; strings.HasPrefix(l, "\t") && (strings.Contains(l, "/repo/") || strings.Contains(l, "/pkg/mod/") || strings.Contains(l, "/harness/checks/") || strings.Contains(l, "/harness/spec/")) {
			f := strings.TrimSpace(l)
			if j := strings.LastIndex(f, " +0x"); j > 0 {
				f = f[:j]
			}
			out = append(out, "  "+f)
			if len(out) == 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// PanicKey reduces a panic value to a stable key.
func PanicKey(r any) string {
	s := fmt.Sprint(r)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	var b strings.Builder
	digit := false
	for _, ch := range s {
		if ch >= '0' && ch <= '9' {
			if !digit {
				b.WriteByte('#')
			}
			digit = true
			continue
		}
		digit = false
		if ch == ' ' {
			ch = '_'
		}
		b.WriteRune(ch)
	}
	s = b.String()
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

// Try runs fn and returns the recovered panic, if any.
func Try(fn func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

// IsStop reports whether a recovered value is that of a case that ended itself.
func IsStop(p any) bool { _, ok := p.(stop); return ok }

// NoPanic runs fn; a panic is a violation keyed by what.
func (t *T) NoPanic(what string, fn func()) bool {
	t.checks++
	if p, st := Try(fn); p != nil {
		if _, ok := p.(stop); ok {
			panic(p)
		}
		t.record("panic:"+what+":"+PanicKey(p), fmt.Sprintf("panic in %s: %v\n%s", what, p, frames(st)))
		return false
	}
	return true
}

// Check evaluates an oracle.
func (t *T) Check(ok bool, key, f string, a ...any) bool {
	t.checks++
	if !ok {
		t.record(key, fmt.Sprintf(f, a...))
	}
	return ok
}

// Failf records a violation.
func (t *T) Failf(key, f string, a ...any) { t.checks++; t.record(key, fmt.Sprintf(f, a...)) }

// Must is Check but ends the case on failure.
func (t *T) Must(ok bool, key, f string, a ...any) {
	if !t.Check(ok, key, f, a...) {
		panic(stop{})
	}
}

// Stop ends the case.
func (t *T) Stop() { panic(stop{}) }

// Count counts an oracle evaluation that held.
func (t *T) Count(n int) { t.checks += int64(n) }

// Obs records a distinct non-trivial observation.
func (t *T) Obs(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	t.C.mu.Lock()
	t.C.distinct[t.Section][h.Sum64()] = struct{}{}
	t.C.mu.Unlock()
}

// Sample keeps a few written-out cases per section.
func (t *T) Sample(f string, a ...any) {
	t.C.mu.Lock()
	if len(t.C.samples[t.Section]) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.C.samples[t.Section] = append(t.C.samples[t.Section], s)
	}
	t.C.mu.Unlock()
}

func (t *T) record(key, msg string) {
	key = strings.ReplaceAll(strings.ReplaceAll(key, " ", "_"), "\n", "_")
	full := t.Section + "/" + key
	if t.Desc != nil {
		var d string
		if p, _ := Try(func() { d = t.Desc() }); p == nil {
			if len(d) > 6000 {
				d = d[:6000] + "..."
			}
			msg += "\ncase: " + d
		}
	}
	c := t.C
	c.mu.Lock()
	defer c.mu.Unlock()
	if what, ok := c.known[full]; ok {
		c.knownHit[full] = what
		return
	}
	if v := c.viol[full]; v != nil {
		v.Count++
		if t.Index < v.Index {
			v.Index, v.Msg = t.Index, msg
		}
		return
	}
	c.viol[full] = &Violation{t.Section, t.Index, key, msg, 1}
	c.order = append(c.order, full)
}

// Inconclusive notes that something could not be decided.
func (c *C) Inconclusive(f string, a ...any) {
	c.mu.Lock()
	c.inconcl = append(c.inconcl, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Violations returns the number of distinct violations.
func (c *C) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viol) }

// Finish writes evidence and replay files, prints the verdict and returns the exit code.
func (c *C) Finish(out *os.File) int {
	replayDir := filepath.Join(c.root, "replay")
	_ = os.MkdirAll(replayDir, 0o755)
	_ = os.MkdirAll(filepath.Join(c.root, "evidence"), 0o755)
	var evals, distinct int64
	var samples []any
	names := make([]string, 0, len(c.stats))
	for n, s := range c.stats {
		s.Distinct = len(c.distinct[n])
		evals += s.Checks
		distinct += int64(s.Distinct)
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, s := range c.samples[n] {
			samples = append(samples, fmt.Sprintf("[%s] %v", n, s))
		}
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": distinct,
		"rule": strings.Join(c.rules, " | "), "samples": samples, "sections": c.stats,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.knownHit) > 0 {
		cov["known_findings_observed"] = c.knownHit
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
		"assumptions": []string{"holds on the executions generated from this seed and tier only", "oracles are the independent models in /verif/harness"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if c.Only == "" {
		_ = os.WriteFile(filepath.Join(c.root, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	}
	for k := range c.known {
		if w, ok := c.knownHit[k]; ok {
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s (%s)\n", c.ID, w, k)
		}
	}
	fmt.Fprintf(out, "%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", c.ID, c.Tier, c.Seed, evals, distinct, time.Since(c.start).Seconds())
	for _, n := range names {
		fmt.Fprintf(out, "  %-34s cases=%-8d evals=%-9d distinct=%d\n", n, c.stats[n].Cases, c.stats[n].Checks, c.stats[n].Distinct)
	}
	if len(c.viol) > 0 {
		sort.Strings(c.order)
		for i, k := range c.order {
			v := c.viol[k]
			p := filepath.Join(replayDir, fmt.Sprintf("%s-%02d.json", c.ID, i))
			rb, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "section": v.Section, "index": v.Index, "key": v.Key, "msg": v.Msg, "count": v.Count}, "", " ")
			_ = os.WriteFile(p, rb, 0o644)
			msg := v.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			if i < 40 {
				fmt.Fprintf(out, "--- [%s] x%d (first: index %d)\n%s\n", k, v.Count, v.Index, msg)
				fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", c.ID, p)
			}
		}
		return 1
	}
	if c.Only == "" {
		for _, n := range names {
			if c.stats[n].Checks == 0 || c.stats[n].Distinct == 0 {
				c.inconcl = append(c.inconcl, "section "+n+" observed nothing")
			}
		}
	}
	if len(c.inconcl) > 0 || evals == 0 && c.Only == "" {
		fmt.Fprintf(out, "INCONCLUSIVE: %v\n", c.inconcl)
		return 3
	}
	return 0
}

// Watch aborts a run that makes no progress on a single case for long.
func (c *C) Watch(out *os.File, limit time.Duration) {
	go func() {
		var last any
		since := time.Now()
		for {
			time.Sleep(time.Second)
			cur := c.cur.Load()
			if cur == nil || cur != last {
				last, since = cur, time.Now()
				continue
			}
			if time.Since(since) > limit {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				p := filepath.Join(c.root, "replay", c.ID+"-hang.txt")
				_ = os.MkdirAll(filepath.Dir(p), 0o755)
				_ = os.WriteFile(p, []byte(fmt.Sprintf("case %v made no progress for %v\n%s", cur, limit, buf[:n])), 0o644)
				fmt.Fprintf(out, "INCONCLUSIVE: case %v made no progress for %v (stacks in %s)\n", cur, limit, p)
				os.Exit(3)
			}
		}
	}()
}
