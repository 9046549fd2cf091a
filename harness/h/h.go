// Package h is the monitoring framework: deterministic case generation, observation counting, violation recording,
// watchdogs, evidence and replay files.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of the monitor of one property.
type Run struct {
	Prop     string
	Tier     string
	Seed     int64
	Workers  int
	Only     string // replay: only this group
	OnlyIdx  int
	start    time.Time
	mu       sync.Mutex
	evals    int64
	events   map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	sampled  map[string]int
	groups   []string
	viol     []Violation
	violN    int64
	sigN     map[string]int
	knownHit map[string]string
	known    map[string]string // sig -> description
	active   []*active
	replays  string
	collect  func(name string, n int, f func(c *Ctx))
}

type active struct {
	mu    sync.Mutex
	group string
	idx   int
	since time.Time
	on    bool
}

// Violation is one recorded violation.
type Violation struct {
	Group string `json:"group"`
	Index int    `json:"index"`
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
}

// Ctx is given to each case.
type Ctx struct {
	R     *rand.Rand
	run   *Run
	Group string
	Idx   int
	Size  int // the exact size to be tried, or 0 for any
	local map[string]int64
	keys  []uint64
	fails int
}

// Thorough is true for the thorough tier.
func (c *Ctx) Thorough() bool { return c.run.Tier == "thorough" }

// Thorough is true for the thorough tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

func hash(parts ...any) uint64 {
	f := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(f, p)
		f.Write([]byte{0})
	}
	return f.Sum64()
}

// New constructs a run.
func New(prop, tier string, seed int64) *Run {
	return &Run{
		Prop: prop, Tier: tier, Seed: seed, Workers: runtime.NumCPU(), OnlyIdx: -1, start: time.Now(),
		events: map[string]int64{}, distinct: map[uint64]struct{}{}, sampled: map[string]int{},
		sigN: map[string]int{}, knownHit: map[string]string{}, known: map[string]string{},
	}
}

// Ev counts an observed event.
func (c *Ctx) Ev(kind string) { c.local[kind]++ }

// EvN counts n observed events.
func (c *Ctx) EvN(kind string, n int) { c.local[kind] += int64(n) }

// Obs records a distinct non-trivial observation (what was executed, not that it ran).
func (c *Ctx) Obs(parts ...any) { c.keys = append(c.keys, hash(parts...)) }

// Sample offers a case for the evidence file.
func (c *Ctx) Sample(format string, args ...any) {
	r := c.run
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampled[c.Group] < 2 && len(r.samples) < 60 {
		r.sampled[c.Group]++
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		r.samples = append(r.samples, map[string]any{"group": c.Group, "index": c.Idx, "case": s})
	}
}

// Fail records a violation. sig identifies the specific failing input class or call site.
func (c *Ctx) Fail(sig string, format string, args ...any) {
	c.fails++
	if c.fails > 20 {
		return
	}
	c.run.fail(c.Group, c.Idx, sig, fmt.Sprintf(format, args...))
}

// Check fails when ok is false.
func (c *Ctx) Check(ok bool, sig string, format string, args ...any) bool {
	if !ok {
		c.Fail(sig, format, args...)
	}
	return ok
}

func (r *Run) fail(group string, idx int, sig, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if d, isa := r.known[sig]; isa {
		if _, seen := r.knownHit[sig]; !seen {
			r.knownHit[sig] = d + " e.g. " + trim(msg, 200)
		}
		return
	}
	atomic.AddInt64(&r.violN, 1)
	r.sigN[sig]++
	if r.sigN[sig] <= 2 && len(r.viol) < 400 {
		r.viol = append(r.viol, Violation{group, idx, sig, trim(msg, 4000)})
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Panics runs f and returns (recovered value, true) if it panicked.
func Panics(f func()) (val any, did bool) {
	did = true
	defer func() {
		if did {
			val = recover()
		}
	}()
	f()
	did = false
	return
}

// NoPanic runs f and records a violation if it panics. Returns true if it did not panic.
func (c *Ctx) NoPanic(sig string, what string, f func()) (ok bool) {
	defer func() {
		if !ok {
			v := recover()
			c.Fail(sig, "%s panicked: %v\n%s", what, v, stackOf())
		}
	}()
	f()
	return true
}

func stackOf() string {
	s := string(debug.Stack())
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "micro") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return trim(strings.Join(out, " | "), 1000)
}

// Group runs n deterministic cases of f.
func (r *Run) Group(name string, n int, f func(c *Ctx)) {
	if r.collect != nil {
		r.collect(name, n, f)
		return
	}
	if r.Only != "" && r.Only != name {
		return
	}
	r.groups = append(r.groups, fmt.Sprintf("%s:%d", name, n))
	lo, hi := 0, n
	if r.Only != "" && r.OnlyIdx >= 0 {
		lo, hi = r.OnlyIdx, r.OnlyIdx+1
	}
	var (
		next = int64(lo)
		wg   sync.WaitGroup
	)
	w := r.Workers
	if w > hi-lo {
		w = hi - lo
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		a := &active{}
		r.mu.Lock()
		r.active = append(r.active, a)
		r.mu.Unlock()
		go func() {
			defer wg.Done()
			var (
				ev   = map[string]int64{}
				keys []uint64
				cnt  int64
			)
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= hi {
					break
				}
				a.mu.Lock()
				a.group, a.idx, a.since, a.on = name, i, time.Now(), true
				a.mu.Unlock()
				c := &Ctx{R: rand.New(rand.NewSource(int64(hash(r.Seed, name, i)))), run: r, Group: name, Idx: i, local: ev, keys: keys}
				r.one(c, f)
				keys = c.keys
				cnt++
				a.mu.Lock()
				a.on = false
				a.mu.Unlock()
				if atomic.LoadInt64(&r.violN) > 2000 {
					break
				}
			}
			r.mu.Lock()
			r.evals += cnt
			for k, v := range ev {
				r.events[k] += v
			}
			for _, k := range keys {
				r.distinct[k] = struct{}{}
			}
			r.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (r *Run) one(c *Ctx, f func(c *Ctx)) {
	done := false
	defer func() {
		if !done {
			v := recover()
			c.Fail("unexpected-panic", "unexpected panic in case: %v\n%s", v, trim(string(debug.Stack()), 3000))
		}
	}()
	f(c)
	done = true
}

// LoadKnown reads the known findings file; lines "known: property=<id> sig=<sig> <text>".
func (r *Run) LoadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var (
			prop, sig string
			rest      []string
		)
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case prop == "" && strings.HasPrefix(w, "property="):
				prop = w[len("property="):]
			case sig == "" && strings.HasPrefix(w, "sig="):
				sig = w[len("sig="):]
			default:
				rest = append(rest, w)
			}
		}
		if prop == r.Prop && sig != "" {
			r.known[sig] = strings.Join(rest, " ")
		}
	}
}

// Watch starts the watchdog: a single case that runs for more than limit (cases take milliseconds), or heap growth
// beyond maxHeap, is reported as a violation with a goroutine dump, since the process cannot continue.
func (r *Run) Watch(limit time.Duration, maxHeap uint64, evidence, replay string) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			heap := ms.HeapAlloc
			r.mu.Lock()
			as := append([]*active{}, r.active...)
			r.mu.Unlock()
			for _, a := range as {
				a.mu.Lock()
				stuck := a.on && time.Since(a.since) > limit
				g, i := a.group, a.idx
				a.mu.Unlock()
				if stuck {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					r.fail(g, i, "no-termination", fmt.Sprintf("case did not terminate within %s\n%s", limit, buf))
					os.Exit(r.Finish(evidence, replay))
				}
			}
			if heap > maxHeap {
				g, i := "?", -1
				for _, a := range as {
					a.mu.Lock()
					if a.on {
						g, i = a.group, a.idx
					}
					a.mu.Unlock()
				}
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				r.fail(g, i, "memory-growth", fmt.Sprintf("heap grew to %d bytes\n%s", heap, buf))
				os.Exit(r.Finish(evidence, replay))
			}
		}
	}()
}

var finishOnce sync.Mutex

// Finish writes evidence and returns the exit code.
func (r *Run) Finish(evidence, replay string) int {
	finishOnce.Lock() // never unlocked: first caller decides
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                Rules[r.Prop],
		"samples":             r.samples,
		"groups":              r.groups,
		"events":              r.events,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{"(no sample recorded)"}
	}
	known := []string{}
	for k := range r.knownHit {
		known = append(known, k)
	}
	sort.Strings(known)
	cov["known_findings_seen"] = known
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"verdict covers only the executions listed in coverage; held on what was observed, not verified",
			"the reference models in /verif/harness (math/big, encoding/json, compress/gzip, encoding/csv and hand written models) are correct",
		},
		"wall_s":     time.Since(r.start).Seconds(),
		"violations": atomic.LoadInt64(&r.violN),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evidence), 0o755)
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, k, strings.ReplaceAll(r.knownHit[k], "\n", " "))
	}
	if len(r.viol) > 0 {
		out := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "violations": r.viol, "counts": r.sigN,
			"replay": fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s %s %d", r.Seed, r.Prop, r.Tier, r.viol[0].Group, r.viol[0].Index)}
		b, _ := json.MarshalIndent(out, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		shown := map[string]bool{}
		for _, v := range r.viol {
			if shown[v.Sig] || (len(shown) >= 8 && os.Getenv("VERIF_ALL") == "") {
				continue
			}
			shown[v.Sig] = true
			fmt.Printf("# %s[%d] %s: %s\n", v.Group, v.Index, v.Sig, strings.ReplaceAll(trim(v.Msg, 600), "\n", " "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	if r.Only == "" && (r.evals == 0 || len(r.distinct) == 0) {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing observed")
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d events=%v wall=%.1fs\n", r.Prop, r.Tier, r.evals, len(r.distinct), len(r.events), time.Since(r.start).Seconds())
	return 0
}

// Rules describes, per property, how cases are made and what makes one non-trivial.
var Rules = map[string]string{}

// Props maps a property id to its monitor.
var Props = map[string]func(r *Run){}

// Register registers a property monitor.
func Register(id, rule string, f func(r *Run)) {
	Rules[id] = rule
	Props[id] = f
}

// Job is one group of cases of a property, collected to be run by another property.
type Job struct {
	Prop, Group string
	N           int
	F           func(c *Ctx)
}

// Jobs collects the groups of a property instead of running them.
func Jobs(prop string) (jobs []Job) {
	r := New(prop, "quick", 1)
	r.collect = func(name string, n int, f func(c *Ctx)) {
		jobs = append(jobs, Job{prop, name, n, f})
	}
	Props[prop](r)
	return
}

// RunJob runs one case of a job on its own and returns what it reported.
func RunJob(seed int64, j Job, idx int) []string {
	r := New(j.Prop, "quick", seed)
	r.known["closure-same-literal"] = ""
	c := &Ctx{R: rand.New(rand.NewSource(int64(hash(seed, j.Group, idx)))), run: r, Group: j.Group, Idx: idx, local: map[string]int64{}}
	r.one(c, j.F)
	var res []string
	for _, v := range r.viol {
		res = append(res, v.Sig+": "+v.Msg)
	}
	return res
}
