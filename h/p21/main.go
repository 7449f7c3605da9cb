//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

var errStep = errors.New("step failed")

// awaited is one awaitable with the record of its completion.
type awaited struct {
	what string
	a    await.Awaitable
	done atomic.Bool
	val  int // written before the completion, without synchronisation
	runs atomic.Int32
	get  func() (int, error)
	want int
	err  error
}

type pending struct {
	mu sync.Mutex
	fs []func()
}

func (p *pending) add(f func()) { p.mu.Lock(); p.fs = append(p.fs, f); p.mu.Unlock() }

func delay(r *rand.Rand) func() {
	d := r.IntN(400)
	sl := r.IntN(8) == 0
	return func() {
		if sl {
			time.Sleep(time.Duration(d) * time.Microsecond / 2)
			return
		}
		for i := 0; i < d; i++ {
			if i&31 == 0 {
				runtime.Gosched()
			}
		}
	}
}

func genAwaited(r *rand.Rand, bg *atomic.Int64) *awaited {
	w := &awaited{want: r.IntN(1000)}
	if r.IntN(4) == 0 {
		w.err = fmt.Errorf("a%d", w.want)
	}
	d := delay(r)
	finishM := func(s mono.Sink[int]) {
		w.val = w.want
		w.done.Store(true)
		if w.err != nil {
			s.Error(w.err)
		} else {
			s.Success(w.want)
		}
	}
	n := r.IntN(4)
	finishF := func(s flux.Sink[int]) {
		for i := 0; i < n; i++ {
			s.Next(i)
		}
		w.val = w.want
		w.done.Store(true)
		if w.err != nil {
			s.Error(w.err)
		} else {
			s.Complete()
		}
	}
	spawn := func(f func()) {
		bg.Add(1)
		later(func() { defer bg.Add(-1); d(); f() })
	}
	var m mono.Mono[int]
	switch r.IntN(11) {
	case 0:
		w.what = "just"
		w.err = nil
		w.val = w.want
		w.done.Store(true)
		m = mono.Just(w.want)
	case 1:
		w.what = "error"
		w.err = errStep
		w.val = w.want
		w.done.Store(true)
		m = mono.Error[int](errStep)
	case 2:
		w.what = "mono at once"
		m = mono.Create(func(s mono.Sink[int]) { w.runs.Add(1); finishM(s) })
	case 3:
		w.what = "mono later"
		m = mono.Create(func(s mono.Sink[int]) { w.runs.Add(1); spawn(func() { finishM(s) }) })
	case 4:
		w.what = "processor done"
		p := mono.NewProcessor[int]()
		finishM(p)
		m = p
	case 5:
		w.what = "processor meanwhile"
		p := mono.NewProcessor[int]()
		spawn(func() { finishM(p) })
		m = p
	case 6:
		w.what = "mono under way"
		m = mono.Create(func(s mono.Sink[int]) { w.runs.Add(1); spawn(func() { finishM(s) }) })
		m.Subscribe(mono.Subscribe[int]{})
	case 7:
		w.what = "flux at once"
		w.a = flux.Create(func(s flux.Sink[int]) { w.runs.Add(1); finishF(s) })
	case 8:
		w.what = "flux later"
		w.a = flux.Create(func(s flux.Sink[int]) { w.runs.Add(1); spawn(func() { finishF(s) }) })
	case 9:
		w.what = "flux on demand"
		w.a = flux.Create(func(s flux.Sink[int]) {
			w.runs.Add(1)
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) { finishF(s) }})
		})
	case 10:
		w.what = "flux processor meanwhile"
		p := flux.NewProcessor[int]()
		spawn(func() { finishF(p) })
		w.a = p
	}
	if m != nil {
		if r.IntN(3) == 0 {
			w.what += " mapped"
			m = mono.Map(m, func(v int) (int, error) { return v, nil })
		}
		w.a = m
		w.get = m.Get
	}
	return w
}

// program runs one random flow.
func program(t *kit.T, r *rand.Rand) {
	isFlux := r.IntN(3) == 0
	n := 1 + r.IntN(8)
	type plan struct {
		await []*awaited
		end   string
		emit  int
	}
	var bg atomic.Int64
	last := make(chan struct{}, 100)
	plans := make([]plan, n)
	var desc []string
	stopAt := n
	outcome := ""
	for i := range plans {
		p := &plans[i]
		if isFlux {
			p.emit = r.IntN(3)
		}
		switch k := r.IntN(10); {
		case k < 5 && i < n-1:
			for c := 1 + r.IntN(4); c > 0; c-- {
				p.await = append(p.await, genAwaited(r, &bg))
			}
		case k == 8 && r.IntN(2) == 0 || i == n-1:
			p.end = []string{"fail", "error", "success", "end", "success", "none"}[r.IntN(6)]
			if i < n-1 && p.end == "none" {
				p.end = "end"
			}
		}
		d := fmt.Sprintf("%d:", i)
		for _, a := range p.await {
			d += "<" + a.what + ">"
		}
		d += p.end
		desc = append(desc, d)
		if p.end != "" && stopAt == n {
			stopAt = i + 1
			outcome = p.end
		}
	}
	// the record, written by whichever goroutine runs a step, unsynchronised:
	// steps follow each other
	var order []int
	var bad []string
	var elems, wantElems int
	f := flow.New[int]()
	steps := make([]flow.StepFn, n)
	for i := range plans {
		p := &plans[i]
		if i < stopAt {
			wantElems += p.emit
		}
		steps[i] = func() (await.Group, error) {
			order = append(order, i)
			if i == stopAt-1 {
				defer func() { last <- struct{}{} }()
			}
			if i > 0 {
				for _, a := range plans[i-1].await {
					if !a.done.Load() {
						bad = append(bad, fmt.Sprintf("step %d runs before <%s> of the step before has completed", i, a.what))
						continue
					}
					if a.val != a.want {
						bad = append(bad, fmt.Sprintf("step %d does not see what <%s> did", i, a.what))
					}
					if a.get != nil {
						v, err := a.get()
						if (err == nil) != (a.err == nil) || err == nil && v != a.want {
							bad = append(bad, fmt.Sprintf("step %d: <%s> gives %d, %v; want %d, %v", i, a.what, v, err, a.want, a.err))
						}
					}
				}
			}
			for k := 0; k < p.emit; k++ {
				f.Next(k)
			}
			switch p.end {
			case "fail":
				return nil, errStep
			case "error":
				return f.Error(errStep)
			case "success":
				if isFlux {
					return f.Complete()
				}
				return f.Success(4711)
			case "end":
				return f.End()
			}
			if len(p.await) == 0 {
				return nil, nil
			}
			as := make([]await.Awaitable, len(p.await))
			for k, a := range p.await {
				as[k] = a.a
			}
			return await.All(as...)
		}
	}
	// steps are declared in one or several goes
	for i := 0; i < n; {
		k := 1 + r.IntN(n-i)
		f.Steps(steps[i : i+k]...)
		i += k
	}
	var successes, errs, completes, finals atomic.Int32
	var lastErr atomic.Value
	ended := make(chan struct{}, 8)
	if isFlux {
		f.Flux().Subscribe(flux.Subscribe[int]{
			OnNext:     func(int) { elems++ },
			OnComplete: func() { completes.Add(1) },
			OnError:    func(e error) { lastErr.Store(e.Error()); errs.Add(1) },
			Finally:    func(rx.SignalType) { finals.Add(1); ended <- struct{}{} },
			NoRequest:  true,
		})
	} else {
		m := f.Mono()
		if r.IntN(3) == 0 {
			m = mono.Map(m, func(v int) (int, error) { return v, nil })
		}
		m.Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) {
				if v != 4711 {
					t.Violate("value of a flow", "%v: %d", desc, v)
				}
				successes.Add(1)
			},
			OnError: func(e error) { lastErr.Store(e.Error()); errs.Add(1) },
			Finally: func(rx.SignalType) { finals.Add(1); ended <- struct{}{} },
		})
	}
	settle(r.IntN)
	expectEnd := outcome != "" && outcome != "end" && outcome != "none"
	what := func() string { return fmt.Sprintf("%s, flux %v, steps run %v", strings.Join(desc, " "), isFlux, order) }
	if _, _, timely := kit.Recv(last); !timely {
		t.Fatal("flow stalls", "%s", strings.Join(desc, " "))
	}
	if expectEnd {
		if _, _, timely := kit.Recv(ended); !timely {
			t.Fatal("flow does not end", "%s", strings.Join(desc, " "))
		}
	}
	if !kit.Wait(func() bool { return bg.Load() == 0 }) {
		t.Fatal("flow stalls", "%s", strings.Join(desc, " "))
	}
	for i := 0; i < 3; i++ {
		runtime.Gosched() // room for steps that should not run
	}
	if len(bad) > 0 {
		t.Violate("step before its turn", "%s: %v", what(), bad)
	}
	ok := len(order) == stopAt
	for i, k := range order {
		ok = ok && i == k
	}
	if !ok {
		t.Violate("steps of a flow", "%s, want the first %d in order", what(), stopAt)
	}
	var want [3]int32 // successes, errors, completions
	switch {
	case outcome == "fail" || outcome == "error":
		want[1] = 1
	case outcome == "success" && isFlux:
		want[2] = 1
	case outcome == "success":
		want[0] = 1
	}
	if got := [3]int32{successes.Load(), errs.Load(), completes.Load()}; got != want || finals.Load() != want[0]+want[1]+want[2] {
		t.Violate("outcome of a flow", "%s: %d successes, %d errors, %d completions, %d final; want %v", what(), got[0], got[1], got[2], finals.Load(), want)
	}
	if want[1] == 1 && lastErr.Load() != errStep.Error() {
		t.Violate("outcome of a flow", "%s: error %v", what(), lastErr.Load())
	}
	if isFlux && elems != wantElems {
		t.Violate("elements of a flow", "%s: %d of %d", what(), elems, wantElems)
	}
	for _, p := range plans[:stopAt] {
		for _, a := range p.await {
			if a.runs.Load() > 1 {
				t.Violate("awaited source ran twice", "%s: <%s>", what(), a.what)
			}
		}
	}
	kit.Count("steps run", int64(len(order)))
	t.Case(fmt.Sprint(desc, isFlux))
	if t.Wants() && n > 3 {
		t.Sample("%s -> %d successes, %d errors, %d completions", what(), successes.Load(), errs.Load(), completes.Load())
	}
}

// manyAwaited has everything that is awaited complete at the same moment.
func manyAwaited(t *kit.T, r *rand.Rand) {
	k := 2 + r.IntN(6)
	rounds := 1 + r.IntN(4)
	f := flow.New[int]()
	var order []int
	var bg sync.WaitGroup
	done := make([]atomic.Int32, rounds)
	for i := 0; i < rounds; i++ {
		f.Steps(func() (await.Group, error) {
			order = append(order, i)
			if i > 0 && int(done[i-1].Load()) != k {
				t.Violate("step before its turn", "step %d of %d runs after %d of %d", i, rounds, done[i-1].Load(), k)
			}
			start := make(chan struct{})
			var g await.Group
			for a := 0; a < k; a++ {
				p := mono.NewProcessor[int]()
				bg.Add(1)
				later(func() {
					defer bg.Done()
					<-start
					done[i].Add(1)
					p.Success(a)
				})
				g = append(g, p)
			}
			close(start)
			return g, nil
		})
	}
	f.Steps(func() (await.Group, error) {
		order = append(order, rounds)
		return f.Success(len(order))
	})
	var v int
	var err error
	fin := make(chan struct{})
	go func() { v, err = blockMono(f.Mono(), r.IntN); close(fin) }()
	if _, _, timely := kit.Recv(fin); !timely {
		t.Fatal("flow stalls", "%d rounds of %d awaited", rounds, k)
	}
	bg.Wait()
	if err != nil || v != rounds+1 || len(order) != rounds+1 {
		t.Violate("steps of a flow", "%d rounds of %d awaited: %v, result %d, %v", rounds, k, order, v, err)
	}
	kit.Count("awaited completions", int64(k*rounds))
	t.Case(fmt.Sprint(k, rounds))
}

// nested awaits flows in flows.
func nested(t *kit.T, r *rand.Rand) {
	var build func(depth int) (mono.Mono[int], int)
	var ran atomic.Int32
	build = func(depth int) (mono.Mono[int], int) {
		f := flow.New[int]()
		leaf := 1 + r.IntN(100)
		if depth == 0 {
			d := delay(r)
			var m mono.Mono[int]
			f.Steps(func() (await.Group, error) {
				m = mono.Create(func(s mono.Sink[int]) { later(func() { d(); s.Success(leaf) }) })
				return await.All(m)
			}, func() (await.Group, error) {
				ran.Add(1)
				v, err := m.Get()
				if err != nil {
					return nil, err
				}
				return f.Success(v)
			})
			return f.Mono(), leaf
		}
		sum := 0
		var ms []mono.Mono[int]
		for i := 0; i < 1+r.IntN(3); i++ {
			m, v := build(depth - 1)
			ms = append(ms, m)
			sum += v
		}
		f.Steps(func() (await.Group, error) {
			var g await.Group
			for _, m := range ms {
				g = append(g, m)
			}
			return g, nil
		}, func() (await.Group, error) {
			ran.Add(1)
			s := 0
			for _, m := range ms {
				v, err := m.Get()
				if err != nil {
					return nil, err
				}
				s += v
			}
			return f.Success(s)
		})
		return f.Mono(), sum
	}
	m, want := build(1 + r.IntN(3))
	var v int
	var err error
	fin := make(chan struct{})
	go func() { v, err = blockMono(m, r.IntN); close(fin) }()
	if _, _, timely := kit.Recv(fin); !timely {
		t.Fatal("flow stalls", "nested flows")
	}
	if err != nil || v != want {
		t.Violate("result of nested flows", "%d, %v; want %d", v, err, want)
	}
	kit.Count("nested flows", int64(ran.Load()))
	t.Case(fmt.Sprint(want))
}

// longFlow has many steps that complete at once.
func longFlow(t *kit.T) {
	for _, n := range []int{1, 1000, 100000} {
		f := flow.New[int]()
		c := 0
		for i := 0; i < n; i++ {
			f.Steps(func() (await.Group, error) {
				c++
				if i%2 == 0 {
					return nil, nil
				}
				return await.All(mono.Just(i))
			})
		}
		f.Steps(func() (await.Group, error) { return f.Success(c) })
		v, err := blockMono(f.Mono(), nil)
		if err != nil || v != n {
			t.Violate("steps of a flow", "%d of %d steps ran, %v", v, n, err)
		}
		t.Case(fmt.Sprint(n))
	}
}

// shared builds flows from slices of steps that they share, with room behind
// them: what one flow gets next is not to show up in another.
func shared(t *kit.T) {
	r := t.Rand
	var common []flow.StepFn
	common = make([]flow.StepFn, 0, 1+r.IntN(8))
	which := 0 // the flow whose turn it is
	flows := 2 + r.IntN(4)
	runs := make([][]int, flows)
	k := r.IntN(cap(common) + 1)
	for i := 0; i < k; i++ {
		common = append(common, func() (await.Group, error) { runs[which] = append(runs[which], i); return nil, nil })
	}
	want := make([][]int, flows)
	fs := make([]*flow.Flow[int], flows)
	last := make([]bool, flows)
	for f := range fs {
		fs[f] = flow.New[int]()
		for i := 0; i < k; i++ {
			want[f] = append(want[f], i)
		}
	}
	for _, f := range r.Perm(flows) {
		fs[f].Steps(common...)
	}
	n := 100
	for more := flows * (1 + r.IntN(3)); more > 0 || !all(last); more-- {
		f := r.IntN(flows)
		if last[f] {
			continue
		}
		n++
		tag := n
		end := more <= 0
		step := func() (await.Group, error) {
			runs[which] = append(runs[which], tag)
			if end {
				return fs[f].Success(tag)
			}
			return nil, nil
		}
		fs[f].Steps(step)
		want[f] = append(want[f], tag)
		last[f] = end
	}
	for i := range common {
		if common[i] == nil {
			t.Violate("a slice of steps changes", "step %d", i)
		}
	}
	for _, f := range r.Perm(flows) {
		which = f
		got, ends := 0, 0
		what := func() string {
			return fmt.Sprintf("flow %d of %d that share %d steps with room for %d: ran %v, want %v", f, flows, k, cap(common), runs, want)
		}
		t.Guard("flows that share steps", what, func() {
			fs[f].Mono().Subscribe(mono.Subscribe[int]{OnSuccess: func(v int) { got = v; ends++ }, OnError: func(error) { ends++ }})
		})
		if ends != 1 || fmt.Sprint(runs[f]) != fmt.Sprint(want[f]) || got != want[f][len(want[f])-1] {
			t.Violate("flows that share steps", "%s, ended %d times with %d", what(), ends, got)
		}
		if t.Failed() {
			return
		}
	}
	kit.Count("flows that share steps", int64(flows))
	t.Case(fmt.Sprint("shared", want))
}

func all(l []bool) bool {
	for _, b := range l {
		if !b {
			return false
		}
	}
	return true
}

func main() {
	loop := func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T) {
		return func(t *kit.T) {
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t, t.Rand)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P21",
		Rule:     "Random step programs over awaitables that complete at random times from random goroutines; each step checks that what it waits for is done and records itself without synchronisation, so that the race detector judges whether steps really follow each other. Distinct by program.",
		Assumptions: []string{
			"An awaitable belongs to one step of one flow.",
		},
		Scenarios: []kit.Scenario{
			{Name: "programs", Yields: []int{0, 1, 2}, Run: loop(3000, 60000, program)},
			{Name: "all at once", Yields: []int{0, 1, 2}, Run: loop(800, 20000, manyAwaited)},
			{Name: "nested", Yields: []int{0, 2}, Run: loop(300, 6000, nested)},
			{Name: "long", Run: longFlow},
			{Name: "shared steps", Run: loop(3000, 60000, func(t *kit.T, _ *rand.Rand) { shared(t) })},
		},
	})
}
