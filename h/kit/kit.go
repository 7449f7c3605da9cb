//go:build go1.22

// Package kit is the frame of every harness: scenarios, deterministic random
// numbers, the record of what was observed, and the report of violations.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/verifh/yield"
)

// Scenario is one workload with its monitors.
type Scenario struct {
	Name string
	// Yields are the perturbation levels the scenario runs under, one run
	// each (default: level 0 only).
	Yields []int
	Run    func(t *T)
	// Limit is the wall-clock watchdog; its firing means that the code
	// under test does not come back.
	Limit time.Duration
	// Thorough scenarios only run in the thorough tier.
	Thorough bool
	// Plain scenarios only run in the unnamed build of the harness, Raced
	// ones only in a named one.
	Plain, Raced bool
}

// Config describes a harness.
type Config struct {
	Property    string
	Rule        string
	Assumptions []string
	Scenarios   []Scenario
}

// T is handed to a scenario.
type T struct {
	Name  string
	Rand  *rand.Rand
	Yield int

	mu      sync.Mutex
	viol    int
	defects int
}

type failNow struct{}

var (
	out      *json.Encoder
	outMu    sync.Mutex
	Seed     uint64
	Thorough bool

	evals    atomic.Int64
	distinct = make(map[uint64]struct{})
	distMu   sync.Mutex
	counters sync.Map // string -> *atomic.Int64
	samples  []any
	sampleBy = map[string]int{}
	totalV   atomic.Int64
	cur      atomic.Pointer[string]
)

const maxPerScenario = 2
const maxTotal = 4

// N selects a count by tier.
func N(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

func emit(v any) {
	outMu.Lock()
	defer outMu.Unlock()
	_ = out.Encode(v)
}

// Case counts one evaluated case; key identifies it for the count of distinct
// non-trivial cases (empty: trivial).
func (t *T) Case(key string) {
	evals.Add(1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(t.Name))
	h.Write([]byte{0})
	h.Write([]byte(key))
	t.CaseHash(h.Sum64(), false)
}

// CaseHash is Case with a precomputed hash.
func (t *T) CaseHash(h uint64, count bool) {
	if count {
		evals.Add(1)
	}
	distMu.Lock()
	if len(distinct) < 4_000_000 {
		distinct[h] = struct{}{}
	}
	distMu.Unlock()
}

// Sample records up to three written-out cases per scenario.
func (t *T) Sample(format string, args ...any) {
	distMu.Lock()
	defer distMu.Unlock()
	if sampleBy[t.Name] >= 3 || len(samples) > 60 {
		return
	}
	sampleBy[t.Name]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	samples = append(samples, t.Name+": "+s)
}

// Wants reports whether another sample of the scenario is wanted.
func (t *T) Wants() bool {
	distMu.Lock()
	defer distMu.Unlock()
	return sampleBy[t.Name] < 3
}

// Count adds to a counter of observed events.
func Count(name string, n int64) {
	c, ok := counters.Load(name)
	if !ok {
		c, _ = counters.LoadOrStore(name, new(atomic.Int64))
	}
	c.(*atomic.Int64).Add(n)
}

func (t *T) Count(name string, n int64) { Count(name, n) }

// Violate reports a violation. sig is short and stable (what fails, without
// values); the rest describes the witness.
func (t *T) Violate(sig, format string, args ...any) {
	t.mu.Lock()
	t.viol++
	n := t.viol
	t.mu.Unlock()
	if n <= maxPerScenario {
		d := fmt.Sprintf(format, args...)
		if len(d) > 6000 {
			d = d[:6000] + "..."
		}
		totalV.Add(1)
		emit(map[string]any{"ev": "viol", "scn": t.Name, "yield": t.Yield, "sig": sig, "detail": d})
	}
}

// Defect is Violate for what may be listed as a known finding: it does not use
// up the number of violations a scenario reports, and does not end it.
func (t *T) Defect(sig, format string, args ...any) {
	t.mu.Lock()
	t.defects++
	n := t.defects
	t.mu.Unlock()
	if n <= 60 {
		d := fmt.Sprintf(format, args...)
		emit(map[string]any{"ev": "viol", "scn": t.Name, "yield": t.Yield, "sig": sig, "detail": d[:min(len(d), 3000)]})
	}
}

// Failed tells whether the scenario has reported enough violations to stop.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.viol >= maxPerScenario
}

// Fatal is Violate followed by the end of the scenario. Call it from the
// scenario's own goroutine only.
func (t *T) Fatal(sig, format string, args ...any) {
	t.Violate(sig, format, args...)
	panic(failNow{})
}

// Check is Violate unless ok.
func (t *T) Check(ok bool, sig, format string, args ...any) bool {
	if !ok {
		t.Violate(sig, format, args...)
	}
	return ok
}

// Inconclusive reports that the scenario could not decide.
func (t *T) Inconclusive(format string, args ...any) {
	emit(map[string]any{"ev": "inconclusive", "scn": t.Name, "detail": fmt.Sprintf(format, args...)})
}

// Guard runs f and reports a panic in it as a violation.
func (t *T) Guard(sig string, what func() string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(failNow); is {
				panic(r)
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			t.Violate(sig+": panic", "%s\npanic: %v\n%s", what(), r, buf)
			ok = false
		}
	}()
	f()
	return true
}

// Patience is how long a condition that normally holds within milliseconds is
// waited for before its absence counts as "never".
const Patience = 25 * time.Second

// Wait polls cond until it holds, up to Patience.
func Wait(cond func() bool) bool { return WaitFor(Patience, cond) }

// WaitFor polls cond until it holds or d has passed.
func WaitFor(d time.Duration, cond func() bool) bool {
	pause := 20 * time.Microsecond
	for end := time.Now().Add(d); ; {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(pause)
		if pause < 5*time.Millisecond {
			pause += pause / 2
		}
	}
}

// Recv waits for a value or the closing of c, up to Patience.
func Recv[E any](c <-chan E) (v E, ok bool, timely bool) {
	tm := time.NewTimer(Patience)
	defer tm.Stop()
	select {
	case v, ok = <-c:
		return v, ok, true
	case <-tm.C:
		return v, false, false
	}
}

// Stacks returns the stacks of all goroutines.
func Stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if len(buf) > 5000 {
		buf = buf[:5000]
	}
	return string(buf)
}

// SubRand derives a generator from the seed and a label.
func SubRand(label string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(label))
	return rand.New(rand.NewPCG(Seed, h.Sum64()))
}

// Main runs the scenarios.
func Main(cfg Config) {
	Seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		Seed = s
	}
	Thorough = os.Getenv("VERIF_TIER") == "thorough"
	from := 0
	if s, err := strconv.Atoi(os.Getenv("VERIF_FROM")); err == nil {
		from = s
	}
	only := os.Getenv("VERIF_ONLY")
	w := os.Stdout
	if p := os.Getenv("VERIF_OUT"); p != "" {
		f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w = f
	}
	out = json.NewEncoder(w)
	type step struct {
		s Scenario
		y int
	}
	var steps []step
	for _, s := range cfg.Scenarios {
		if s.Thorough && !Thorough {
			continue
		}
		if named := os.Getenv("VERIF_BUILD") != ""; (s.Plain && named) || (s.Raced && !named) {
			continue
		}
		ys := s.Yields
		if len(ys) == 0 {
			ys = []int{0}
		}
		for _, y := range ys {
			steps = append(steps, step{s, y})
		}
	}
	emit(map[string]any{"ev": "config", "property": cfg.Property, "rule": cfg.Rule, "assumptions": cfg.Assumptions, "steps": len(steps)})
	for i, st := range steps {
		if i < from || (only != "" && st.s.Name != only) {
			continue
		}
		if totalV.Load() >= maxTotal {
			emit(map[string]any{"ev": "stopped", "at": i})
			break
		}
		emit(map[string]any{"ev": "begin", "i": i, "scn": st.s.Name, "yield": st.y})
		start := time.Now()
		runOne(st.s, st.y)
		emit(map[string]any{"ev": "end", "i": i, "scn": st.s.Name, "yield": st.y, "s": time.Since(start).Seconds()})
	}
	cs := map[string]int64{}
	counters.Range(func(k, v any) bool { cs[k.(string)] = v.(*atomic.Int64).Load(); return true })
	distMu.Lock()
	defer distMu.Unlock()
	emit(map[string]any{"ev": "done", "evaluations": evals.Load(), "distinct": len(distinct), "counters": cs, "samples": samples})
}

func runOne(s Scenario, y int) {
	limit := s.Limit
	if limit == 0 {
		limit = 150 * time.Second
		if Thorough {
			limit = 900 * time.Second
		}
	}
	done := make(chan struct{})
	go func() {
		tm := time.NewTimer(limit)
		defer tm.Stop()
		select {
		case <-done:
		case <-tm.C:
			emit(map[string]any{"ev": "viol", "scn": s.Name, "yield": y, "sig": "hang", "detail": fmt.Sprintf("scenario did not end within %v\n%s", limit, Stacks())})
			os.Exit(97)
		}
	}()
	defer close(done)
	yield.Set(y)
	defer yield.Set(0)
	t := &T{Name: s.Name, Rand: SubRand(fmt.Sprintf("%s/%d", s.Name, y)), Yield: y}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(failNow); is {
				return
			}
			panic(r)
		}
	}()
	s.Run(t)
}

// Keeper holds on to results and looks at them again later: what was handed
// out must not change when more is.
type Keeper struct {
	name string
	all  []kept
	next int
}

type kept struct {
	same func() bool
	what func() string
}

// NewKeeper makes a keeper of up to n results.
func NewKeeper(name string, n int) *Keeper { return &Keeper{name: name, all: make([]kept, 0, n)} }

// Bytes keeps bytes.
func (k *Keeper) Bytes(t *T, what func() string, b []byte) {
	cp := append([]byte(nil), b...)
	k.Add(t, what, func() bool { return string(cp) == string(b) })
}

// Add keeps a result that is told by same to be as it was.
func (k *Keeper) Add(t *T, what func() string, same func() bool) {
	e := kept{same, what}
	if len(k.all) < cap(k.all) {
		k.all = append(k.all, e)
		return
	}
	k.look(t, k.all[k.next])
	k.all[k.next] = e
	k.next = (k.next + 1) % len(k.all)
}

// Check looks at everything that is left.
func (k *Keeper) Check(t *T) {
	for _, e := range k.all {
		k.look(t, e)
	}
	k.all, k.next = k.all[:0], 0
}

func (k *Keeper) look(t *T, e kept) {
	Count(k.name+" looked at again", 1)
	if !e.same() {
		t.Violate("a result changes after it was handed out", "%s", e.what())
	}
}
