//go:build go1.22

package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifh/kit"
)

// source counts what it is asked for and serves it.
type source struct {
	n         int // elements it has, <0: serves nothing
	asked     atomic.Int64
	cancels   atomic.Int64
	calls     atomic.Int64
	requested *atomic.Int64
	over      atomic.Bool
	bad       atomic.Bool
	inside    atomic.Int32
	overlap   atomic.Bool
	gate      chan struct{}
	entered   chan struct{}
	sent      int
	ended     bool
}

func (s *source) flux(late func(func())) flux.Flux[int] {
	return flux.Create(func(sink flux.Sink[int]) {
		late(func() {
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(k int) {
					if s.inside.Add(1) != 1 {
						s.overlap.Store(true)
					}
					defer s.inside.Add(-1)
					s.calls.Add(1)
					if k <= 0 {
						s.bad.Store(true)
					}
					if s.asked.Add(int64(k)) > s.requested.Load() {
						s.over.Store(true)
					}
					if s.gate != nil {
						select {
						case s.entered <- struct{}{}:
						default:
						}
						<-s.gate
					}
					for ; k > 0 && s.sent < s.n; k-- {
						v := s.sent
						s.sent++
						sink.Next(v)
					}
					if s.n >= 0 && s.sent == s.n && !s.ended {
						s.ended = true
						sink.Complete()
					}
				},
				Cancel: func() { s.cancels.Add(1) },
			})
		})
	})
}

func transforms(f flux.Flux[int], k int) flux.Flux[int] {
	for i := 0; i < k; i++ {
		f = flux.Map(f, func(v int) (int, error) { return v + 1, nil })
	}
	return f
}

// run runs a part of a case at the same time as others. A guest has but one
// thread.
func run(f func()) {
	if guest {
		f()
	} else {
		go f()
	}
}

// demandCase requests in some pattern from a source that never ends on its own
// account, so that every request has to arrive.
func demandCase(t *kit.T, r *rand.Rand) {
	var requested atomic.Int64
	serves := r.IntN(2) == 0
	s := &source{n: -1, requested: &requested}
	if serves {
		s.n = 1 << 30
	}
	maps := r.IntN(4)
	var later func()
	f := transforms(s.flux(func(on func()) {
		if r.IntN(3) == 0 {
			later = on // the source answers the subscription later
		} else {
			on()
		}
	}), maps)
	onRequest := r.IntN(3) // 0: none wanted, 1: on request, 2: nested
	first := 1 + r.IntN(5)
	refills := r.IntN(4)
	nested := r.IntN(4)
	var seen atomic.Int64
	sub := flux.Subscribe[int]{}
	ask := func(x rx.Subscription, k int) {
		if k > 0 {
			requested.Add(int64(k))
		}
		x.Request(k)
	}
	left := int64(refills)
	sub.NoRequest = onRequest == 0
	sub.OnRequest = func(x rx.Subscription) {
		if atomic.AddInt64(&left, -1) >= -1 {
			ask(x, first)
		}
	}
	budget := int64(20)
	sub.OnNext = func(v int) {
		k := seen.Add(1)
		if nested > 0 && k%3 == 0 && atomic.AddInt64(&budget, -1) >= 0 {
			for i := 0; i < nested; i++ {
				ask(f.Subscription(), 1+i)
			}
		}
	}
	f.Subscribe(sub)
	workers := 1 + r.IntN(4)
	per := 1 + r.IntN(6)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		seed := r.Uint64()
		wg.Add(1)
		run(func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 0))
			for i := 0; i < per; i++ {
				k := r.IntN(9) - 1 // also none and less
				ask(f.Subscription(), k)
				if r.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	if later != nil {
		wg.Add(1)
		run(func() { defer wg.Done(); runtime.Gosched(); later() })
	}
	wg.Wait()
	what := func() string {
		return fmt.Sprintf("%d transforms, source serves %v, answers late %v, %d goroutines x %d requests, on-request mode %d, nested %d: requested %d, source asked for %d in %d calls, %d elements seen",
			maps, serves, later != nil, workers, per, onRequest, nested, requested.Load(), s.asked.Load(), s.calls.Load(), seen.Load())
	}
	// settled: everything asked for has arrived and been served, and nothing
	// is requested any more
	if !kit.Wait(func() bool {
		q := requested.Load()
		for i := 0; i < 8; i++ {
			if s.asked.Load() < q || (serves && seen.Load() < q) || requested.Load() != q || s.inside.Load() != 0 {
				return false
			}
			time.Sleep(50 * time.Microsecond)
		}
		return true
	}) {
		t.Violate("demand does not reach the source", "%s", what())
		return
	}
	if s.over.Load() || s.asked.Load() > requested.Load() {
		t.Violate("source asked for more than requested", "%s", what())
	}
	if s.bad.Load() {
		t.Violate("source asked for nothing", "%s", what())
	}
	if s.overlap.Load() {
		t.Violate("source asked from two goroutines at once", "%s", what())
	}
	if serves && seen.Load() != requested.Load() {
		t.Violate("elements for the demand", "%s", what())
	}
	if s.cancels.Load() != 0 {
		t.Violate("source cancelled unasked", "%s", what())
	}
	kit.Count("units of demand", requested.Load())
	t.Case(fmt.Sprint(maps, serves, later != nil, workers, per, onRequest, first, nested, requested.Load(), s.calls.Load()))
	if t.Wants() {
		t.Sample("%s", what())
	}
}

// unbounded is the default demand.
func unbounded(t *kit.T, r *rand.Rand) {
	var requested atomic.Int64
	requested.Store(1 << 40)
	n := r.IntN(300)
	s := &source{n: n, requested: &requested}
	f := transforms(s.flux(func(on func()) { on() }), r.IntN(3))
	var got int
	done := make(chan struct{})
	f.Subscribe(flux.Subscribe[int]{OnNext: func(int) { got++ }, Finally: func(rx.SignalType) { close(done) }})
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("flux does not end", "%d of %d elements", got, n)
	}
	if got != n || s.asked.Load() != rx.RequestMax || s.calls.Load() != 1 {
		t.Violate("default demand", "%d of %d elements, asked for %d in %d calls", got, n, s.asked.Load(), s.calls.Load())
	}
	t.Case(fmt.Sprint(n))
}

// elementwise requests each element from inside of the previous one.
func elementwise(t *kit.T, r *rand.Rand) {
	n := r.IntN(120)
	batch := 1 + r.IntN(4)
	maps := r.IntN(3)
	mode := r.IntN(3)
	values := make([]int, n)
	for i := range values {
		values[i] = i
	}
	var requested atomic.Int64
	s := &source{n: n, requested: &requested}
	var f flux.Flux[int]
	switch r.IntN(3) {
	case 0:
		f = flux.FromSlice(values)
	case 1:
		f = flux.Create(func(k flux.Sink[int]) { k.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(k, values)}) })
	case 2:
		f = s.flux(func(on func()) { on() })
	}
	f = transforms(f, maps)
	var got []int
	completes := 0
	done := make(chan struct{})
	sub := flux.Subscribe[int]{
		OnNext:     func(v int) { got = append(got, v-maps) },
		OnComplete: func() { completes++ },
		Finally:    func(rx.SignalType) { close(done) },
	}
	switch mode {
	case 0: // refilled whenever the demand is used up
		sub.OnRequest = func(x rx.Subscription) { requested.Add(int64(batch)); x.Request(batch) }
	case 1: // one more for each one, from the inside
		batch = 1
		sub.NoRequest = true
		sub.OnNext = func(v int) {
			got = append(got, v-maps)
			requested.Add(1)
			f.Subscription().Request(1)
		}
	case 2: // ahead of time
		sub.NoRequest = true
		k := 0
		sub.OnNext = func(v int) {
			got = append(got, v-maps)
			if k++; k%batch == 0 {
				requested.Add(int64(batch))
				f.Subscription().Request(batch)
			}
		}
	}
	f.Subscribe(sub)
	if mode > 0 {
		requested.Add(int64(batch))
		f.Subscription().Request(batch)
	}
	what := func() string {
		return fmt.Sprintf("%d elements, demand %d, mode %d, %d transforms", n, batch, mode, maps)
	}
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("flux stalls", "%s: %d elements received", what(), len(got))
	}
	ok := len(got) == n && completes == 1
	for i, v := range got {
		ok = ok && v == i
	}
	if !ok || s.over.Load() {
		t.Violate("elements for element-wise demand", "%s: %v, %d completions, over-asked %v", what(), got, completes, s.over.Load())
	}
	kit.Count("elements on element-wise demand", int64(n))
	t.Case(what())
}

// cancelCase queues up demand behind a source that is busy and cancels it.
func cancelCase(t *kit.T, r *rand.Rand) {
	var requested atomic.Int64
	requested.Store(1 << 40)
	byEnd := r.IntN(3) == 0
	s := &source{n: -1, requested: &requested, gate: make(chan struct{}), entered: make(chan struct{}, 1)}
	var sink flux.Sink[int]
	base := flux.Create(func(k flux.Sink[int]) {
		sink = k
		k.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.calls.Add(1)
				select {
				case s.entered <- struct{}{}:
				default:
				}
				<-s.gate
			},
			Cancel: func() { s.cancels.Add(1) },
		})
	})
	maps := r.IntN(3)
	f := transforms(base, maps)
	var finals atomic.Int32
	f.Subscribe(flux.Subscribe[int]{NoRequest: true, Finally: func(rx.SignalType) { finals.Add(1) }})
	f.Subscription().Request(1)
	if _, _, timely := kit.Recv(s.entered); !timely {
		t.Fatal("demand does not reach the source", "first request")
	}
	more := 1 + r.IntN(4)
	for i := 0; i < more; i++ {
		f.Subscription().Request(1 + i)
	}
	if r.IntN(2) == 0 {
		runtime.Gosched()
	}
	want := int64(1)
	if byEnd {
		want = 0
		sink.Complete()
		f.Subscription().Cancel()
	} else {
		k := 1 + r.IntN(4)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); f.Subscription().Cancel() }()
		}
		wg.Wait()
	}
	close(s.gate)
	f.Subscription().Request(5)
	// Whatever was queued has time to come through.
	for i := 0; i < 100; i++ {
		runtime.Gosched()
	}
	time.Sleep(500 * time.Microsecond)
	what := fmt.Sprintf("%d requests queued, ended by the source %v, %d transforms: %d calls, %d cancels, %d final", more, byEnd, maps, s.calls.Load(), s.cancels.Load(), finals.Load())
	if s.calls.Load() != 1 {
		t.Violate("source asked after the end", "%s", what)
	}
	if s.cancels.Load() != want {
		t.Violate("cancellation of the source", "%s", what)
	}
	if finals.Load() != 1 {
		t.Violate("final notification", "%s", what)
	}
	kit.Count("cancellations", s.cancels.Load())
	t.Case(what)
	if t.Wants() {
		t.Sample("%s", what)
	}
}

// insideCase has the source itself cause demand and a cancellation while it
// is asked.
func insideCase(t *kit.T, r *rand.Rand) {
	var calls, cancels, finals atomic.Int32
	var sink flux.Sink[int]
	byEnd := r.IntN(3) == 0
	more := r.IntN(4)
	elements := r.IntN(5)
	maps := r.IntN(3)
	depth, deepest := 0, 0
	got := 0
	var f flux.Flux[int]
	done := make(chan struct{})
	f = transforms(flux.Create(func(k flux.Sink[int]) {
		sink = k
		k.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				if calls.Add(1) > 1 {
					return
				}
				defer close(done)
				depth++
				deepest = max(deepest, depth)
				defer func() { depth-- }()
				for i := 0; i < elements; i++ {
					sink.Next(i)
				}
				for i := 0; i < more; i++ {
					f.Subscription().Request(1 + i)
				}
				if byEnd {
					sink.Complete()
				}
				f.Subscription().Cancel()
				sink.Next(0)
			},
			Cancel: func() { cancels.Add(1) },
		})
	}), maps)
	f.Subscribe(flux.Subscribe[int]{NoRequest: true, OnNext: func(int) {
		got++
		if got <= 3 {
			f.Subscription().Request(2)
		}
	}, Finally: func(rx.SignalType) { finals.Add(1) }})
	f.Subscription().Request(8)
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("demand does not reach the source", "first request")
	}
	f.Subscription().Request(5)
	if !guest {
		for i := 0; i < 100; i++ {
			runtime.Gosched()
		}
		time.Sleep(300 * time.Microsecond)
	}
	want := int32(1)
	if byEnd {
		want = 0
	}
	what := fmt.Sprintf("%d requests from inside, %d elements, ended by the source %v, %d transforms: %d calls, %d cancels, %d final, %d elements seen", more, elements, byEnd, maps, calls.Load(), cancels.Load(), finals.Load(), got)
	if calls.Load() != 1 {
		t.Violate("source asked after the end", "%s", what)
	}
	if cancels.Load() != want {
		t.Violate("cancellation of the source", "%s", what)
	}
	if finals.Load() != 1 || got != elements {
		t.Violate("signals of a flux that is cancelled from inside", "%s", what)
	}
	t.Case(what)
}

// long has more elements than fit on a stack, each requested from within the
// one before it.
func long(t *kit.T, r *rand.Rand) {
	n := 100_000 + r.IntN(100_000)
	if !guest {
		n /= 20
	}
	values := make([]int, n)
	for i := range values {
		values[i] = i
	}
	kind := r.IntN(3)
	var f flux.Flux[int]
	switch kind {
	case 0:
		f = flux.FromSlice(values)
	case 1:
		f = flux.Create(func(k flux.Sink[int]) { k.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(k, values)}) })
	default:
		var requested atomic.Int64
		requested.Store(1 << 40)
		f = (&source{n: n, requested: &requested}).flux(func(on func()) { on() })
	}
	f = transforms(f, r.IntN(2))
	got, deepest := 0, 0
	done := make(chan struct{})
	var stack [1]uintptr
	f.Subscribe(flux.Subscribe[int]{
		OnNext: func(int) {
			// How deep does it go? A guest has little stack.
			if got++; got%1000 == 0 && runtime.Callers(1000, stack[:]) > 0 {
				deepest = got
			}
		},
		OnRequest: func(x rx.Subscription) { x.Request(1) },
		Finally:   func(rx.SignalType) { close(done) },
	})
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("flux stalls", "kind %d: %d of %d", kind, got, n)
	}
	if got != n {
		t.Violate("elements of a long flux", "kind %d: %d of %d", kind, got, n)
	}
	if deepest > 0 {
		t.Violate("the stack grows with the elements", "kind %d: more than 1000 calls deep at element %d", kind, deepest)
	}
	t.Case(fmt.Sprint(n, kind))
}

// cancelRace cancels while the subscription, demand and elements are under way.
func cancelRace(t *kit.T, r *rand.Rand) {
	var requested atomic.Int64
	requested.Store(1 << 40)
	s := &source{n: 1 << 30, requested: &requested}
	var later func()
	sublate := r.IntN(2) == 0
	maps := r.IntN(3)
	var f flux.Flux[int]
	raw := s.flux(func(on func()) {
		if sublate {
			later = on
		} else {
			on()
		}
	})
	f = transforms(raw, maps)
	f.Subscribe(flux.Subscribe[int]{NoRequest: true})
	var wg sync.WaitGroup
	run := func(g func()) {
		d := r.IntN(200)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < d; i++ {
				if i&31 == 0 {
					runtime.Gosched()
				}
			}
			g()
		}()
	}
	if later != nil {
		run(later)
	}
	for i := 0; i < 1+r.IntN(3); i++ {
		run(func() { f.Subscription().Cancel() })
	}
	for i := 0; i < r.IntN(4); i++ {
		run(func() {
			for k := 1; k < 4; k++ {
				f.Subscription().Request(k)
			}
		})
	}
	wg.Wait()
	kit.WaitFor(50*time.Millisecond, func() bool { return s.cancels.Load() >= 1 })
	if s.cancels.Load() != 1 {
		t.Violate("cancellation of the source", "source answers late %v, %d transforms: cancelled %d times", sublate, maps, s.cancels.Load())
	}
	kit.WaitFor(20*time.Millisecond, func() bool { return s.inside.Load() == 0 })
	kit.Count("cancellations", 1)
	t.Case(fmt.Sprint(sublate, maps, s.calls.Load(), s.asked.Load()))
}

// failedTransform cancels its source, once.
func failedTransform(t *kit.T, r *rand.Rand) {
	var requested atomic.Int64
	requested.Store(1 << 40)
	at := r.IntN(20)
	s := &source{n: at + 10, requested: &requested}
	f := flux.Map(s.flux(func(on func()) { on() }), func(v int) (int, error) {
		if v == at {
			return 0, fmt.Errorf("at %d", at)
		}
		return v, nil
	})
	f = transforms(f, r.IntN(3))
	batch := 1 + r.IntN(5)
	got := 0
	done := make(chan struct{})
	var errs []error
	f.Subscribe(flux.Subscribe[int]{
		OnNext:    func(int) { got++ },
		OnError:   func(e error) { errs = append(errs, e) },
		OnRequest: func(x rx.Subscription) { x.Request(batch) },
		Finally:   func(rx.SignalType) { close(done) },
	})
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("failed transform does not end the flux", "at %d", at)
	}
	kit.Wait(func() bool { return s.cancels.Load() >= 1 })
	if got != at || len(errs) != 1 || s.cancels.Load() != 1 || s.asked.Load() > int64(at+batch+batch) {
		t.Violate("failed transform", "at %d, demand %d: %d elements, errors %v, source cancelled %d times and asked for %d", at, batch, got, errs, s.cancels.Load(), s.asked.Load())
	}
	t.Case(fmt.Sprint(at, batch))
}

// slices serve as many elements as they are asked for, and complete after
// the last one.
func slices(t *kit.T, r *rand.Rand) {
	n := r.IntN(30)
	values := make([]int, n)
	for i := range values {
		values[i] = i
	}
	var f flux.Flux[int]
	kind := r.IntN(2)
	if kind == 0 {
		f = flux.FromSlice(values)
	} else {
		f = flux.Create(func(sink flux.Sink[int]) {
			sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, values)})
		})
	}
	maps := r.IntN(3)
	f = transforms(f, maps)
	var got, asked, completes atomic.Int64
	var bad atomic.Bool
	nested := r.IntN(3) == 0 // asks for more from within an element
	f.Subscribe(flux.Subscribe[int]{
		OnNext: func(int) {
			g := got.Add(1)
			if g > asked.Load() {
				bad.Store(true)
			}
			if nested && g%3 == 0 {
				asked.Add(2)
				f.Subscription().Request(2)
			}
		},
		OnComplete: func() { completes.Add(1) },
		NoRequest:  true,
	})
	what := func() string {
		return fmt.Sprintf("kind %d, %d elements, %d transforms, nested %v: asked for %d, got %d, completed %d times", kind, n, maps, nested, asked.Load(), got.Load(), completes.Load())
	}
	pattern := []int{}
	for asked.Load() <= int64(n) { // one more, for the empty slice
		k := 1 + r.IntN(6)
		if r.IntN(12) == 0 {
			k = rx.RequestMax
		}
		pattern = append(pattern, k)
		asked.Add(int64(k))
		f.Subscription().Request(k)
		served := func() bool { return got.Load() >= min(asked.Load(), int64(n)) }
		if r.IntN(3) > 0 {
			if !kit.Wait(served) {
				t.Fatal("a slice stalls", "%s, %v", what(), pattern)
			}
			runtime.Gosched()
			if got.Load() > asked.Load() {
				bad.Store(true)
			}
		}
	}
	if !kit.Wait(func() bool { return completes.Load() > 0 }) {
		t.Fatal("a slice stalls", "%s, %v", what(), pattern)
	}
	if bad.Load() || got.Load() != int64(n) || completes.Load() != 1 {
		t.Violate("demand of a slice", "%s, %v", what(), pattern)
	}
	kit.Count("elements of slices", int64(n))
	t.Case(fmt.Sprint(kind, n, maps, nested, pattern))
}

func main() {
	loop := func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T) {
		return func(t *kit.T) {
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t, t.Rand)
			}
		}
	}
	scenarios := []kit.Scenario{
		{Name: "demand", Yields: []int{0, 1, 2}, Run: loop(1500, 30000, demandCase)},
		{Name: "slices", Yields: []int{0, 2}, Run: loop(800, 12000, slices)},
		{Name: "unbounded", Run: loop(300, 3000, unbounded)},
		{Name: "element by element", Yields: []int{0, 2}, Run: loop(600, 12000, elementwise)},
		{Name: "failed transform", Yields: []int{0, 2}, Run: loop(300, 6000, failedTransform)},
		{Name: "inside", Yields: []int{0, 2}, Run: loop(500, 10000, insideCase)},
		{Name: "long", Run: loop(6, 60, long)},
	}
	if !guest {
		scenarios = append(scenarios,
			kit.Scenario{Name: "queued demand and cancellation", Yields: []int{0, 2}, Run: loop(500, 10000, cancelCase)},
			kit.Scenario{Name: "racing cancellation", Yields: []int{0, 1, 2}, Run: loop(1000, 20000, cancelRace)})
	}
	kit.Main(kit.Config{
		Property: "P20",
		Rule:     "A source that counts what it is asked for and how often it is cancelled, under generated patterns of direct, nested, repeated and concurrent demand. Distinct by pattern and totals.",
		Assumptions: []string{
			"One subscriber at a time.",
			"Demand that is queued when a flux is cancelled has half a millisecond to come through before it counts as dropped.",
		},
		Scenarios: scenarios,
	})
}
