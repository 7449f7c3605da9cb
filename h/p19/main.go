//go:build go1.22

package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

// pause lets some time pass, often none.
func pause(r *rand.Rand) func() {
	k := r.IntN(6)
	d := time.Duration(r.IntN(200)) * time.Microsecond
	g := r.IntN(20)
	return func() {
		switch k {
		case 0:
			time.Sleep(d)
		case 1, 2:
			for i := 0; i < g; i++ {
				runtime.Gosched()
			}
		}
	}
}

// box is written by the source without synchronisation and read by whoever
// blocked: the outcome must carry it over.
type box struct{ v int }

type stage struct {
	add  int
	fail bool
}

func (s stage) f(b *box) (*box, error) {
	if s.fail {
		return nil, fmt.Errorf("tx %d", b.v)
	}
	return &box{b.v + s.add}, nil
}

func genStages(r *rand.Rand) (st []stage) {
	for n := r.IntN(4); n > 0; n-- {
		st = append(st, stage{r.IntN(9), r.IntN(8) == 0})
	}
	return
}

func apply(st []stage, v int) (int, error) {
	for _, s := range st {
		if s.fail {
			return 0, fmt.Errorf("tx %d", v)
		}
		v += s.add
	}
	return v, nil
}

func text(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// blocked runs f and reports when it does not come back.
func blocked(t *kit.T, what func() string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("block does not return", "%s\n%s", what(), kit.Stacks())
	}
}

func monoCase(t *kit.T, r *rand.Rand) {
	kind := r.IntN(7)
	st := genStages(r)
	v := r.IntN(1000)
	fail := r.IntN(3) == 0
	var runs atomic.Int32
	p1, p2, p3 := pause(r), pause(r), pause(r)
	finish := func(s mono.Sink[*box]) {
		b := new(box)
		p1()
		if fail {
			s.Error(fmt.Errorf("e%d", v))
			return
		}
		b.v = v
		s.Success(b)
	}
	var m mono.Mono[*box]
	var other func() // resolves from elsewhere
	name := ""
	switch kind {
	case 0:
		name = "just"
		fail = false
		m = mono.Just(&box{v})
	case 1:
		name = "error"
		fail = true
		m = mono.Error[*box](fmt.Errorf("e%d", v))
	case 2:
		name = "immediate"
		m = mono.Create(func(s mono.Sink[*box]) { runs.Add(1); finish(s) })
	case 3:
		name = "asynchronous"
		m = mono.Create(func(s mono.Sink[*box]) { runs.Add(1); go finish(s) })
	case 4:
		name = "processor resolved before"
		p := mono.NewProcessor[*box]()
		finish(p)
		m = p
	case 5:
		name = "processor resolved meanwhile"
		p := mono.NewProcessor[*box]()
		other = func() { p2(); finish(p) }
		m = p
	case 6:
		name = "subscribed and completed before"
		m = mono.Create(func(s mono.Sink[*box]) { runs.Add(1); finish(s) })
	}
	base := m
	for _, s := range st {
		m = mono.Map(m, rx.Transform[*box, *box](s.f))
	}
	if kind == 6 {
		if r.IntN(2) == 0 {
			base.Async()
		} else {
			base.Subscribe(mono.Subscribe[*box]{})
		}
		runs.Store(0)
	}
	what := func() string { return fmt.Sprintf("%s, value %d (error %v), transforms %v", name, v, fail, st) }
	wv, we := v, fmt.Errorf("e%d", v)
	if !fail {
		wv, we = apply(st, v)
	}
	if other != nil {
		go other()
	}
	var b *box
	var err error
	p3()
	blocked(t, what, func() { b, err = m.Block() })
	if text(err) != text(we) || (we == nil && (b == nil || b.v != wv)) {
		t.Violate("outcome of a block", "%s: got %v, %v; want %d, %v", what(), b, err, wv, we)
	}
	max := int32(1)
	if n := runs.Load(); n > max || ((kind == 2 || kind == 3) && n != 1) {
		t.Violate("runs of the source", "%s: %d", what(), n)
	}
	if kind > 1 && r.IntN(2) == 0 { // blocking again on an outcome that is known
		blocked(t, what, func() { b, err = base.Block() })
		if fail && text(err) != fmt.Sprintf("e%d", v) || !fail && (err != nil || b == nil || b.v != v) {
			t.Violate("outcome of a second block", "%s: got %v, %v", what(), b, err)
		}
		if runs.Load() > 1 && (kind == 2 || kind == 3) {
			t.Violate("runs of the source", "%s: %d", what(), runs.Load())
		}
	}
	kit.Count("blocks on monos", 1)
	t.Case(what())
	if t.Wants() {
		t.Sample("%s -> %v, %v", what(), wv, we)
	}
}

func fluxCase(t *kit.T, r *rand.Rand) {
	kind := r.IntN(8)
	st := genStages(r)
	n := []int{0, 1, 2, 3, 10, 100}[r.IntN(6)]
	if n > 2 {
		n += r.IntN(n)
	}
	fail := r.IntN(3) == 0
	var runs atomic.Int32
	p1, p2 := pause(r), pause(r)
	values := make([]*box, n)
	for i := range values {
		values[i] = &box{i * 7}
	}
	end := func(s flux.Sink[*box]) {
		if fail {
			s.Error(fmt.Errorf("e%d", n))
		} else {
			s.Complete()
		}
	}
	emit := func(s flux.Sink[*box]) {
		p1()
		for i := 0; i < n; i++ {
			b := new(box)
			b.v = i * 7
			s.Next(b)
		}
		p2()
		end(s)
	}
	demand := func(s flux.Sink[*box]) flux.OnSubscribe {
		sent, ended := 0, false
		return flux.OnSubscribe{Request: func(k int) {
			for ; k > 0 && sent < n; k-- {
				v := &box{sent * 7}
				sent++
				s.Next(v)
			}
			if sent == n && !ended {
				ended = true
				end(s)
			}
		}}
	}
	var f flux.Flux[*box]
	var other func()
	name := ""
	switch kind {
	case 0:
		name = "slice"
		fail = false
		f = flux.FromSlice(values)
	case 1:
		name = "error"
		fail, n = true, 0
		f = flux.Error[*box](fmt.Errorf("e%d", n))
	case 2:
		name = "immediate"
		f = flux.Create(func(s flux.Sink[*box]) { runs.Add(1); emit(s) })
	case 3:
		name = "asynchronous"
		f = flux.Create(func(s flux.Sink[*box]) { runs.Add(1); go emit(s) })
	case 4:
		name = "on demand"
		f = flux.Create(func(s flux.Sink[*box]) { runs.Add(1); s.OnSubscribe(demand(s)) })
	case 5:
		name = "processor on demand"
		p := flux.NewProcessor[*box]()
		p.OnSubscribe(demand(p))
		f = p
	case 6:
		name = "processor ended before"
		n = 0
		p := flux.NewProcessor[*box]()
		end(p)
		f = p
	case 7:
		name = "slice response"
		fail = false
		f = flux.Create(func(s flux.Sink[*box]) {
			runs.Add(1)
			s.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(s, values)})
		})
	}
	if other != nil {
		go other()
	}
	base := f
	for _, s := range st {
		f = flux.Map(f, rx.Transform[*box, *box](s.f))
	}
	var want []int
	var wantErr error
	for i := 0; i < n && wantErr == nil; i++ {
		w, err := apply(st, i*7)
		if err != nil {
			wantErr = err
		} else {
			want = append(want, w)
		}
	}
	if fail && wantErr == nil {
		wantErr = fmt.Errorf("e%d", n)
	}
	// what the callbacks see is not synchronised with the one that blocks
	var got []int
	var errs []error
	completes, finals, batch := 0, 0, r.IntN(3)*(1+r.IntN(9))
	sub := flux.Subscribe[*box]{
		OnNext:     func(b *box) { got = append(got, b.v) },
		OnComplete: func() { completes++ },
		OnError:    func(e error) { errs = append(errs, e) },
		Finally:    func(rx.SignalType) { finals++ },
	}
	if batch > 0 {
		sub.OnRequest = func(s rx.Subscription) { s.Request(batch) }
	}
	if r.IntN(4) == 0 {
		sub.OnComplete, sub.OnError = nil, nil
	}
	what := func() string {
		return fmt.Sprintf("%s, %d elements (error %v), transforms %v, demand %d", name, n, fail, st, batch)
	}
	var err error
	blocked(t, what, func() { err = f.Block(sub) })
	short := kind == 1
	if text(err) != text(wantErr) || (!short && fmt.Sprint(got) != fmt.Sprint(want)) {
		t.Violate("outcome of a block", "%s: got %v, %v; want %v, %v", what(), got, err, want, wantErr)
	}
	if kind != 1 && finals != 1 {
		t.Violate("outcome of a block", "%s: %d final notifications", what(), finals)
	}
	if sub.OnComplete != nil && kind != 1 && ((wantErr == nil) != (completes == 1) || (wantErr != nil) != (len(errs) == 1)) {
		t.Violate("outcome of a block", "%s: %d completions, errors %v", what(), completes, errs)
	}
	if k := runs.Load(); k > 1 || (k == 0 && (kind == 2 || kind == 3 || kind == 4 || kind == 7)) {
		t.Violate("runs of the source", "%s: %d", what(), k)
	}
	if wantErr == nil || fail && text(wantErr) == fmt.Sprintf("e%d", n) {
		for i := r.IntN(4); i > 0; i-- { // once more, after the end
			blocked(t, what, func() { err = base.Block(flux.Subscribe[*box]{}) })
			if text(err) != text(wantErr) {
				t.Violate("outcome of a second block", "%s: %v", what(), err)
			}
			blocked(t, what, func() {
				base.Subscription()
				base.Notify(func(rx.SignalType) {})
			})
		}
		if runs.Load() > 1 {
			t.Violate("runs of the source", "%s: %d", what(), runs.Load())
		}
	}
	kit.Count("blocks on fluxes", 1)
	kit.Count("elements", int64(len(got)))
	t.Case(what())
	if t.Wants() && n > 0 {
		t.Sample("%s -> %v, %v", what(), got, err)
	}
}

// cancelled blocks on a flux that its subscriber or somebody else cancels.
func cancelled(t *kit.T, r *rand.Rand) {
	at := 1 + r.IntN(10)
	st := genStages(r)
	for i := range st {
		st[i].fail = false
	}
	f := flux.Create(func(s flux.Sink[*box]) {
		sent := 0
		s.OnSubscribe(flux.OnSubscribe{Request: func(k int) {
			for ; k > 0 && sent < 1000; k-- {
				sent++
				s.Next(&box{sent})
			}
		}})
	})
	for _, s := range st {
		f = flux.Map(f, rx.Transform[*box, *box](s.f))
	}
	n := 0
	batch := 1 + r.IntN(20)
	what := func() string { return fmt.Sprintf("cancelled at %d, demand %d, transforms %v", at, batch, st) }
	var err error
	blocked(t, what, func() {
		err = f.Block(flux.Subscribe[*box]{
			OnNext: func(b *box) {
				if n++; n == at {
					f.Subscription().Cancel()
				}
			},
			OnRequest: func(s rx.Subscription) { s.Request(batch) },
		})
	})
	if err != nil || n != at {
		t.Violate("block on a cancelled flux", "%s: %d elements, %v", what(), n, err)
	}
	kit.Count("blocks ended by cancelling", 1)
	t.Case(what())
}

func main() {
	loop := func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T) {
		return func(t *kit.T) {
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t, t.Rand)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P19",
		Rule:     "Blocks on generated monos and fluxes whose outcome comes at random times from random goroutines, compared with what the source was told to produce. The values carry unsynchronised data, so that a block that returns early is also seen by the race detector. Distinct by configuration.",
		Assumptions: []string{
			"A source has one subscriber at a time.",
		},
		Scenarios: []kit.Scenario{
			{Name: "mono", Yields: []int{0, 1, 2}, Run: loop(4000, 80000, monoCase)},
			{Name: "flux", Yields: []int{0, 1, 2}, Run: loop(2500, 50000, fluxCase)},
			{Name: "cancelled", Yields: []int{0, 2}, Run: loop(500, 10000, cancelled)},
		},
	})
}
