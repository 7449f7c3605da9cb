//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

// outcome is what one subscriber saw. It is deliberately not synchronised:
// the callbacks of one subscriber never run at the same time.
type outcome struct {
	elems     []int
	successes []int
	errs      []error
	completes int
	finals    []rx.SignalType
	bad       []string
}

func (o *outcome) terminals() int { return len(o.successes) + len(o.errs) + o.completes }

func (o *outcome) String() string {
	return fmt.Sprintf("elements %v successes %v errors %v completions %d final %v %v", o.elems, o.successes, o.errs, o.completes, o.finals, o.bad)
}

func (o *outcome) mono() mono.Subscribe[int] {
	return mono.Subscribe[int]{
		OnSuccess: func(v int) {
			if len(o.finals) > 0 {
				o.bad = append(o.bad, "success after the final notification")
			}
			o.successes = append(o.successes, v)
		},
		OnError: func(e error) {
			if len(o.finals) > 0 {
				o.bad = append(o.bad, "error after the final notification")
			}
			o.errs = append(o.errs, e)
		},
		Finally: func(s rx.SignalType) { o.finals = append(o.finals, s) },
	}
}

// stage is one transform: it adds, or fails on values divisible by fail.
type stage struct{ add, fail int }

var errTx = errors.New("transform")

func (s stage) f(v int) (int, error) {
	if s.fail > 0 && v%s.fail == 0 {
		return v, fmt.Errorf("%w %d", errTx, v)
	}
	return v + s.add, nil
}

func apply(stages []stage, v int) (int, error) {
	for _, s := range stages {
		w, err := s.f(v)
		if err != nil {
			return 0, err
		}
		v = w
	}
	return v, nil
}

func genStages(r *rand.Rand) []stage {
	var st []stage
	for n := r.IntN(4); n > 0; n-- {
		s := stage{add: r.IntN(7)}
		if r.IntN(3) == 0 {
			s.fail = 2 + r.IntN(5)
		}
		st = append(st, s)
	}
	return st
}

func same(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	return errors.Is(a, b) || a.Error() == b.Error()
}

// note is a registered notification.
type note struct {
	n      int
	signal rx.SignalType
	early  bool // delivered before the outcome was known
}

// monoProgram runs a random program of registrations, subscription and
// signals on one goroutine and compares with the contract.
func monoProgram(t *kit.T, r *rand.Rand) {
	kind := r.IntN(4) // just, error, create, processor
	stages := genStages(r)
	var m mono.Mono[int]
	var p *mono.ProcessorImpl[int]
	var sink mono.Sink[int]
	var trace []string
	log := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	v0, e0 := r.IntN(100), fmt.Errorf("e%d", r.IntN(100))
	type sig struct {
		v   int
		err error
	}
	var inSource []sig // signalled inside of the source
	runs := 0
	known := false // the outcome is known
	var res sig
	signal := func(s mono.Sink[int], g sig) {
		if !known {
			known, res = true, g
		}
		if g.err != nil {
			log("error(%v)", g.err)
			s.Error(g.err)
		} else {
			log("success(%d)", g.v)
			s.Success(g.v)
		}
	}
	genSig := func() sig {
		if r.IntN(3) == 0 {
			return sig{err: fmt.Errorf("x%d", r.IntN(100))}
		}
		return sig{v: r.IntN(100)}
	}
	switch kind {
	case 0:
		m = mono.Just(v0)
		known, res = true, sig{v: v0}
		log("just(%d)", v0)
	case 1:
		m = mono.Error[int](e0)
		known, res = true, sig{err: e0}
		log("error(%v)", e0)
	case 2:
		for n := r.IntN(3); n > 0; n-- {
			inSource = append(inSource, genSig())
		}
		log("create")
		m = mono.Create(func(s mono.Sink[int]) {
			sink = s
			runs++
			for _, g := range inSource {
				signal(s, g)
			}
		})
	case 3:
		log("processor")
		p = mono.NewProcessor[int]()
		m = p
	}
	for _, s := range stages {
		m = mono.Map(m, rx.Transform[int, int](s.f))
		log("map(+%d,!%d)", s.add, s.fail)
	}
	o := &outcome{}
	var notes []*note
	subscribed := 0 // 1: with callbacks, 2: by Async
	delivered := func() bool { return known && (subscribed > 0 || kind < 2) }
	async := 0
	for k := 0; k < 3+r.IntN(8); k++ {
		switch r.IntN(5) {
		case 0:
			n := &note{}
			notes = append(notes, n)
			log("notify")
			m.Notify(func(s rx.SignalType) {
				n.n++
				n.signal = s
				n.early = n.early || !known
			})
		case 1:
			if subscribed == 0 {
				subscribed = 1
				log("subscribe")
				m.Subscribe(o.mono())
			}
		case 2:
			if kind == 2 && sink != nil {
				signal(sink, genSig())
			} else if kind == 3 {
				signal(p, genSig())
			}
		case 3:
			if r.IntN(3) == 0 {
				if subscribed == 0 {
					subscribed = 2
				}
				async++
				log("async")
				m.Async()
			}
		case 4:
			if delivered() {
				want, wantErr := res.v, res.err
				if wantErr == nil {
					want, wantErr = apply(stages, res.v)
				}
				v, err := m.Get()
				if !same(err, wantErr) || (err == nil && v != want) {
					t.Violate("value got", "%s\nget gives %d, %v; want %d, %v", strings.Join(trace, " "), v, err, want, wantErr)
				}
			}
		}
	}
	prog := strings.Join(trace, " ")
	if len(o.bad) > 0 {
		t.Violate("signal after the end", "%s\n%v", prog, o)
	}
	if runs > 1 {
		t.Violate("source ran twice", "%s: %d", prog, runs)
	}
	want := 0
	if delivered() && subscribed == 1 {
		want = 1
	}
	if o.terminals() != want || len(o.finals) != want || len(o.elems) > 0 {
		t.Violate("outcomes of a mono", "%s\nsaw %v, want %d outcome", prog, o, want)
		return
	}
	if want == 1 {
		wv, we := res.v, res.err
		if we == nil {
			wv, we = apply(stages, res.v)
		}
		switch {
		case we != nil:
			if len(o.errs) != 1 || !same(o.errs[0], we) || o.finals[0] != rx.SignalError {
				t.Violate("outcome of a mono", "%s\nsaw %v, want error %v", prog, o, we)
			}
		case len(o.successes) != 1 || o.successes[0] != wv || o.finals[0] != rx.SignalComplete:
			t.Violate("outcome of a mono", "%s\nsaw %v, want %d", prog, o, wv)
		}
	}
	for i, n := range notes {
		w := 0
		if delivered() {
			w = 1
		}
		if n.n != w || n.early {
			t.Violate("final notifications of a mono", "%s\nnotification %d delivered %d times (early %v), want %d", prog, i, n.n, n.early, w)
		} else if w == 1 && res.err != nil && n.signal != rx.SignalError {
			t.Violate("signal of a final notification", "%s\nnotification %d: %v", prog, i, n.signal)
		} else if w == 1 && res.err == nil && len(stages) == 0 && n.signal != rx.SignalComplete {
			t.Violate("signal of a final notification", "%s\nnotification %d: %v", prog, i, n.signal)
		}
	}
	kit.Count("mono notifications", int64(len(notes)))
	t.Case(prog)
	if t.Wants() && len(trace) > 5 {
		t.Sample("%s -> %v", prog, o)
	}
}

// monoRace lets signals, the subscription and registrations race.
func monoRace(t *kit.T, r *rand.Rand) {
	proc := r.IntN(2) == 0
	stages := genStages(r)
	signals := 1 + r.IntN(4)
	nNotes := 1 + r.IntN(3)
	sigs := make([]int, signals) // <0: error
	for i := range sigs {
		sigs[i] = r.IntN(50)
		if r.IntN(3) == 0 {
			sigs[i] = -1 - i
		}
	}
	o := &outcome{}
	notes := make([]note, nNotes)
	start := make(chan struct{})
	var wg sync.WaitGroup
	run := func(f func()) {
		d := r.IntN(300)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < d; i++ {
				if i&63 == 0 {
					runtime.Gosched()
				}
			}
			f()
		}()
	}
	var m mono.Mono[int]
	signal := func(s mono.Sink[int], v int) {
		if v < 0 {
			s.Error(fmt.Errorf("e%d", -v))
		} else {
			s.Success(v)
		}
	}
	var after mono.Sink[int]
	if proc {
		p := mono.NewProcessor[int]()
		m, after = p, p
		for _, v := range sigs {
			run(func() { signal(p, v) })
		}
	} else {
		m = mono.Create(func(s mono.Sink[int]) {
			after = s
			for _, v := range sigs {
				wg.Add(1)
				go func() { defer wg.Done(); signal(s, v) }()
			}
		})
	}
	base := m
	for _, s := range stages {
		m = mono.Map(m, rx.Transform[int, int](s.f))
	}
	run(func() { m.Subscribe(o.mono()) })
	for i := range notes {
		run(func() { m.Notify(func(s rx.SignalType) { notes[i].n++; notes[i].signal = s }) })
	}
	close(start)
	wg.Wait()
	what := func() string {
		return fmt.Sprintf("processor %v, transforms %v, racing signals %v (negative: errors), saw %v, notified %v", proc, stages, sigs, o, notes)
	}
	if o.terminals() != 1 || len(o.finals) != 1 || len(o.bad) > 0 {
		t.Violate("outcomes of a mono", "%s", what())
		return
	}
	v, err := base.Get()
	ok := false
	for _, s := range sigs {
		ok = ok || (s >= 0 && err == nil && s == v) || (s < 0 && err != nil && err.Error() == fmt.Sprintf("e%d", -s))
	}
	if !ok {
		t.Violate("value got", "%s; get gives %d, %v", what(), v, err)
	}
	wv, we := v, err
	if err == nil {
		wv, we = apply(stages, v)
	}
	if (we != nil) != (len(o.errs) == 1) || (we != nil && !same(o.errs[0], we)) || (we == nil && o.successes[0] != wv) {
		t.Violate("outcome of a mono", "%s; it holds %d, %v, so want %d, %v", what(), v, err, wv, we)
	}
	for i := range notes {
		if notes[i].n != 1 || (notes[i].signal == rx.SignalError) != (err != nil) && len(stages) == 0 {
			t.Violate("final notifications of a mono", "%s", what())
		}
	}
	// late ones change nothing
	signal(after, 7)
	signal(after, -7)
	late := 0
	m.Notify(func(rx.SignalType) { late++ })
	if o.terminals() != 1 || len(o.finals) != 1 || late != 1 {
		t.Violate("signal after the end", "%s, late notification delivered %d times", what(), late)
	}
	kit.Count("mono races", 1)
	t.Case(fmt.Sprint(proc, stages, sigs, o, nNotes))
	if t.Wants() {
		t.Sample("%s", what())
	}
}

func (o *outcome) flux(onNext func(int)) flux.Subscribe[int] {
	ended := func(what string) {
		if o.terminals() > 0 || len(o.finals) > 0 {
			o.bad = append(o.bad, what+" after the end")
		}
	}
	return flux.Subscribe[int]{
		OnNext: func(v int) {
			ended(fmt.Sprint("element ", v))
			o.elems = append(o.elems, v)
			if onNext != nil {
				onNext(v)
			}
		},
		OnComplete: func() { ended("completion"); o.completes++ },
		OnError:    func(e error) { ended("error"); o.errs = append(o.errs, e) },
		Finally: func(s rx.SignalType) {
			if len(o.finals) > 0 {
				o.bad = append(o.bad, "second final notification")
			}
			o.finals = append(o.finals, s)
		},
	}
}

// fluxProgram is monoProgram for fluxes: the source does whatever it likes.
func fluxProgram(t *kit.T, r *rand.Rand) {
	proc := r.IntN(3) == 0
	stages := genStages(r)
	var trace []string
	log := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	var f flux.Flux[int]
	var sink flux.Sink[int]
	o := &outcome{}
	cancels := 0
	// the model
	var want outcome
	open, subscribed, failed := true, false, false
	var earlyEnd *sig2 // terminal given to a processor before its subscription
	end := func(s rx.SignalType, err error) {
		if !open {
			return
		}
		open = false
		switch s {
		case rx.SignalComplete:
			want.completes++
		case rx.SignalError:
			want.errs = append(want.errs, err)
		}
		want.finals = append(want.finals, s)
	}
	cancelAt, cancelIn := 0, r.IntN(4) == 0
	if cancelIn {
		cancelAt = 1 + r.IntN(5)
	}
	modelNext := func(v int) {
		if !open || !subscribed {
			return
		}
		w, err := apply(stages, v)
		if err != nil {
			failed = true
			end(rx.SignalError, err)
			return
		}
		want.elems = append(want.elems, w)
		if len(want.elems) == cancelAt {
			end(rx.SignalCancel, nil)
		}
	}
	act := func(s flux.Sink[int]) {
		switch r.IntN(8) {
		case 0:
			log("complete")
			if subscribed {
				end(rx.SignalComplete, nil)
			} else if earlyEnd == nil {
				earlyEnd = &sig2{rx.SignalComplete, nil}
			}
			s.Complete()
		case 1:
			e := fmt.Errorf("e%d", r.IntN(100))
			log("error(%v)", e)
			if subscribed {
				end(rx.SignalError, e)
			} else if earlyEnd == nil {
				earlyEnd = &sig2{rx.SignalError, e}
			}
			s.Error(e)
		default:
			v := r.IntN(100)
			log("next(%d)", v)
			modelNext(v)
			s.Next(v)
		}
	}
	if proc {
		p := flux.NewProcessor[int]()
		f, sink = p, p
		log("processor")
	} else {
		n := r.IntN(5)
		log("create")
		f = flux.Create(func(s flux.Sink[int]) {
			sink = s
			if r.IntN(2) == 0 {
				s.OnSubscribe(flux.OnSubscribe{Cancel: func() { cancels++ }})
			}
			for i := 0; i < n; i++ {
				act(s)
			}
		})
	}
	for _, s := range stages {
		f = flux.Map(f, rx.Transform[int, int](s.f))
		log("map(+%d,!%d)", s.add, s.fail)
	}
	var notes []*note
	for k := 0; k < 4+r.IntN(10); k++ {
		switch r.IntN(7) {
		case 0:
			n := &note{}
			notes = append(notes, n)
			log("notify")
			f.Notify(func(s rx.SignalType) {
				n.n++
				n.signal = s
				n.early = n.early || open
			})
		case 1, 2:
			if !subscribed {
				subscribed = true
				log("subscribe")
				if earlyEnd != nil {
					end(earlyEnd.s, earlyEnd.err)
				}
				f.Subscribe(o.flux(func(int) {
					if len(o.elems) == cancelAt {
						log("cancel!")
						f.Subscription().Cancel()
					}
				}))
			}
		case 3:
			if subscribed && r.IntN(6) == 0 {
				log("cancel")
				end(rx.SignalCancel, nil)
				f.Subscription().Cancel()
			}
		default:
			if sink != nil {
				act(sink)
			}
		}
	}
	prog := strings.Join(trace, " ")
	if len(o.bad) > 0 {
		t.Violate("signal after the end", "%s\n%v", prog, o)
	}
	if fmt.Sprint(o.elems, o.completes, o.errs, o.finals) != fmt.Sprint(want.elems, want.completes, want.errs, want.finals) {
		t.Violate("signals of a flux", "%s\nsaw  %v\nwant %v", prog, o, &want)
	}
	if cancels > 1 {
		t.Violate("source cancelled twice", "%s", prog)
	}
	w := 0
	if !open {
		w = 1
	}
	for i, n := range notes {
		if n.n != w || n.early {
			t.Violate("final notifications of a flux", "%s\nnotification %d delivered %d times (early %v), want %d", prog, i, n.n, n.early, w)
		} else if w == 1 && !failed && n.signal != want.finals[0] {
			t.Violate("signal of a final notification", "%s\nnotification %d: %v, want %v", prog, i, n.signal, want.finals[0])
		}
	}
	kit.Count("flux elements", int64(len(o.elems)))
	t.Case(prog)
	if t.Wants() && len(o.elems) > 1 {
		t.Sample("%s -> %v", prog, o)
	}
}

type sig2 struct {
	s   rx.SignalType
	err error
}

// fluxRace lets terminal signals, cancellation, demand and registrations race
// with an emitter.
func fluxRace(t *kit.T, r *rand.Rand) {
	proc := r.IntN(2) == 0
	stages := make([]stage, r.IntN(3)) // none that fail
	for i := range stages {
		stages[i] = stage{add: r.IntN(5)}
	}
	n := r.IntN(40)
	cancellers := r.IntN(3)
	ends := 1 + r.IntN(3)
	lateSubscribe := proc && r.IntN(2) == 0 // the subscription races with the terminal signals
	o := &outcome{}
	var completes, errs, cancelled int // by the racing goroutines: one may win
	var cancelDone atomic.Bool
	afterCancel := 0
	var sourceCancels atomic.Int32
	nNotes := 1 + r.IntN(3)
	notes := make([]note, nNotes)
	start := make(chan struct{})
	var wg sync.WaitGroup
	run := func(f func()) {
		d := r.IntN(2000)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < d; i++ {
				if i&63 == 0 {
					runtime.Gosched()
				}
			}
			f()
		}()
	}
	var sink flux.Sink[int]
	var f flux.Flux[int]
	hooks := flux.OnSubscribe{Request: func(int) {}, Cancel: func() { sourceCancels.Add(1) }}
	if proc {
		p := flux.NewProcessor[int]()
		p.OnSubscribe(hooks)
		f, sink = p, p
	} else {
		f = flux.Create(func(s flux.Sink[int]) {
			sink = s
			s.OnSubscribe(hooks)
		})
	}
	base := f
	for _, s := range stages {
		f = flux.Map(f, rx.Transform[int, int](s.f))
	}
	var final rx.SignalType
	finals := 0
	sub := flux.Subscribe[int]{
		OnNext: func(v int) {
			if cancelDone.Load() {
				afterCancel++
			}
			o.elems = append(o.elems, v)
		},
		OnComplete: func() { completes++ },
		OnError:    func(error) { errs++ },
		Finally:    func(s rx.SignalType) { finals++; final = s },
	}
	emitted := make(chan struct{})
	if lateSubscribe {
		n = 0
		cancellers = 0
		close(emitted)
		run(func() { f.Subscribe(sub) })
		for i := r.IntN(3); i > 0; i-- {
			run(func() { // meanwhile, somebody waits for the subscription
				for f.Subscription() == nil {
					runtime.Gosched()
				}
			})
		}
	} else {
		f.Subscribe(sub)
		run(func() {
			for i := 0; i < n; i++ {
				sink.Next(i)
			}
			close(emitted)
		})
	}
	for i := 0; i < cancellers; i++ {
		run(func() {
			f.Subscription().Cancel()
			cancelDone.Store(true)
		})
	}
	for i := 0; i < ends; i++ {
		fail := r.IntN(2) == 0
		run(func() {
			<-emitted // a source emits before it ends
			if fail {
				sink.Error(errTx)
			} else {
				sink.Complete()
			}
		})
	}
	if !lateSubscribe {
		run(func() {
			for i := 0; i < 3; i++ {
				f.Subscription().Request(i)
			}
		})
	}
	for i := range notes {
		run(func() { f.Notify(func(s rx.SignalType) { notes[i].n++; notes[i].signal = s }) })
	}
	close(start)
	wg.Wait()
	what := func() string {
		return fmt.Sprintf("processor %v, %d transforms, %d elements, %d cancellers, %d racing ends, late subscription %v: %d elements, %d completions, %d errors, %d final %v, source cancelled %d times, notified %v",
			proc, len(stages), n, cancellers, ends, lateSubscribe, len(o.elems), completes, errs, finals, final, sourceCancels.Load(), notes)
	}
	if final == rx.SignalCancel {
		cancelled = 1
	}
	if finals != 1 || completes+errs+cancelled != 1 ||
		(final == rx.SignalComplete) != (completes == 1) || (final == rx.SignalError) != (errs == 1) {
		t.Violate("outcomes of a flux", "%s", what())
		return
	}
	if int(sourceCancels.Load()) != cancelled {
		t.Violate("cancellation of the source", "%s", what())
	}
	if afterCancel > 1 { // one may have been under way
		t.Violate("elements after a cancellation", "%d: %s", afterCancel, what())
	}
	if cancelled == 0 && len(o.elems) != n {
		t.Violate("elements of a flux", "%s", what())
	}
	for i, v := range o.elems {
		w, _ := apply(stages, i)
		if v != w {
			t.Violate("elements of a flux", "element %d is %d, want %d: %s", i, v, w, what())
			break
		}
	}
	for i := range notes {
		if notes[i].n != 1 || notes[i].signal != final {
			t.Violate("final notifications of a flux", "%s", what())
		}
	}
	before := len(o.elems)
	sink.Next(1)
	sink.Complete()
	sink.Error(errTx)
	base.Subscription().Cancel()
	late := 0
	f.Notify(func(s rx.SignalType) { late++ })
	if len(o.elems) != before || finals != 1 || completes+errs+cancelled != 1 || late != 1 || int(sourceCancels.Load()) != cancelled {
		t.Violate("signal after the end", "late notification delivered %d times, %s", late, what())
	}
	kit.Count("flux races", 1)
	kit.Count("flux races cancelled", int64(cancelled))
	kit.Count("flux elements", int64(len(o.elems)))
	t.Case(fmt.Sprint(proc, len(stages), n, cancellers, ends, len(o.elems), final))
	if t.Wants() {
		t.Sample("%s", what())
	}
}

// sliceRace serves a slice to concurrent demand.
func sliceRace(t *kit.T, r *rand.Rand) {
	n := r.IntN(60)
	values := make([]int, n)
	for i := range values {
		values[i] = i * 3
	}
	var f flux.Flux[int]
	kind := r.IntN(2)
	if kind == 0 {
		f = flux.FromSlice(append([]int(nil), values...))
	} else {
		f = flux.Create(func(s flux.Sink[int]) {
			s.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(s, append([]int(nil), values...))})
		})
	}
	stages := make([]stage, r.IntN(3))
	for i := range stages {
		stages[i] = stage{add: 1 + r.IntN(5)}
		f = flux.Map(f, rx.Transform[int, int](stages[i].f))
	}
	o := &outcome{}
	done := make(chan struct{})
	sub := o.flux(nil)
	fin := sub.Finally
	sub.Finally = func(s rx.SignalType) { fin(s); close(done) }
	sub.NoRequest = true
	f.Subscribe(sub)
	workers := 1 + r.IntN(4)
	total := n + 1 + r.IntN(10)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		share := total / workers
		if w == 0 {
			share += total % workers
		}
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 1))
			for share > 0 {
				k := 1 + r.IntN(min(share, 6))
				share -= k
				f.Subscription().Request(k)
				if r.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("slice flux does not end", "%d elements, total demand %d in %d goroutines", n, total, workers)
	}
	if len(o.bad) > 0 || o.completes != 1 || len(o.errs) > 0 || len(o.elems) != n {
		t.Violate("elements of a slice flux", "%d elements, demand %d: %v", n, total, o)
		return
	}
	for i, v := range o.elems {
		if w, _ := apply(stages, values[i]); v != w {
			t.Violate("elements of a slice flux", "element %d is %d, want %d", i, v, w)
			return
		}
	}
	kit.Count("flux elements", int64(n))
	t.Case(fmt.Sprint(kind, n, workers, total, len(stages)))
}

func errorFlux(t *kit.T, r *rand.Rand) {
	e := fmt.Errorf("e%d", r.IntN(1000))
	f := flux.Error[int](e)
	stages := genStages(r)
	for _, s := range stages {
		f = flux.Map(f, rx.Transform[int, int](s.f))
	}
	o := &outcome{}
	n := note{}
	if r.IntN(2) == 0 {
		f.Notify(func(s rx.SignalType) { n.n++; n.signal = s })
	}
	f.Subscribe(o.flux(nil))
	f.Async()
	if n.n == 0 {
		f.Notify(func(s rx.SignalType) { n.n++; n.signal = s })
	}
	if len(o.errs) != 1 || o.errs[0] != e || o.terminals() != 1 || len(o.finals) != 1 || o.finals[0] != rx.SignalError || n.n != 1 || n.signal != rx.SignalError || len(o.bad) > 0 {
		t.Violate("error flux", "%v notified %v", o, n)
	}
	t.Case(e.Error())
}

// partial subscribes with some of the callbacks only, or none.
func partial(t *kit.T, r *rand.Rand) {
	has := r.IntN(16)
	e := fmt.Errorf("e%d", r.IntN(1000))
	n := r.IntN(4)
	kind, end := r.IntN(4), r.IntN(3) // how the source ends
	stages := genStages(r)
	values := make([]int, n)
	for i := range values {
		values[i] = r.IntN(100)
	}
	var elems []int
	var errs []error
	var finals []rx.SignalType
	oks := 0
	what := func() string {
		return fmt.Sprintf("kind %d, values %v, end %d, transforms %v, callbacks %04b: elements %v, %d successes or completions, errors %v, final %v", kind, values, end, stages, has, elems, oks, errs, finals)
	}
	onErr := func(err error) { errs = append(errs, err) }
	onFinal := func(s rx.SignalType) { finals = append(finals, s) }
	var want []int
	var wantErr error
	notes := make([]note, r.IntN(4)+1)
	after := r.IntN(len(notes)) // the first of those registered after the end
	register := func(notify func(rx.FnFinally), ns []note) {
		for i := range ns {
			notify(func(s rx.SignalType) { ns[i].n++; ns[i].signal = s })
		}
	}
	defer func() {
		if p := recover(); p != nil {
			t.Violate("callbacks that are not given", "%s: panic: %v", what(), p)
		}
	}()
	if kind == 3 { // a mono
		if n == 0 {
			values = append(values, 7)
		}
		m := mono.Create(func(s mono.Sink[int]) {
			if end == 0 {
				s.Error(e)
				s.Success(1)
			} else {
				s.Success(values[0])
				s.Error(e)
			}
		})
		for _, s := range stages {
			m = mono.Map(m, rx.Transform[int, int](s.f))
		}
		sub := mono.Subscribe[int]{}
		if has&1 != 0 {
			sub.OnSuccess = func(v int) { elems = append(elems, v) }
		}
		if has&4 != 0 {
			sub.OnError = onErr
		}
		if has&8 != 0 {
			sub.Finally = onFinal
		}
		register(m.Notify, notes[:after])
		m.Subscribe(sub)
		register(m.Notify, notes[after:])
		if wantErr = e; end != 0 {
			var w int
			if w, wantErr = apply(stages, values[0]); wantErr == nil && has&1 != 0 {
				want = []int{w}
			}
		}
	} else {
		var f flux.Flux[int]
		emit := func(s flux.Sink[int]) {
			for _, v := range values {
				s.Next(v)
			}
			if end == 0 {
				s.Error(e)
				s.Complete()
			} else {
				s.Complete()
				s.Error(e)
			}
		}
		switch kind {
		case 0:
			f = flux.Create(emit)
		case 1: // ended from elsewhere, after the subscription
			f = flux.NewProcessor[int]()
		case 2:
			f = flux.Error[int](e)
			end, values = 0, nil
		}
		base := f
		for _, s := range stages {
			f = flux.Map(f, rx.Transform[int, int](s.f))
		}
		sub := flux.Subscribe[int]{NoRequest: r.IntN(2) == 0}
		if has&1 != 0 {
			sub.OnNext = func(v int) { elems = append(elems, v) }
		}
		if has&2 != 0 {
			sub.OnComplete = func() { oks++ }
		}
		if has&4 != 0 {
			sub.OnError = onErr
		}
		if has&8 != 0 {
			sub.Finally = onFinal
		}
		register(f.Notify, notes[:after])
		f.Subscribe(sub)
		if p, ok := base.(flux.Processor[int]); ok && kind == 1 {
			emit(p)
		}
		register(f.Notify, notes[after:])
		for _, v := range values {
			var w int
			if w, wantErr = apply(stages, v); wantErr != nil {
				break
			}
			if has&1 != 0 {
				want = append(want, w)
			}
		}
		if wantErr == nil && end == 0 {
			wantErr = e
		}
		if w := has&2 != 0 && wantErr == nil; w != (oks == 1) || oks > 1 {
			t.Violate("callbacks that are given", "%s", what())
		}
	}
	wantErrs, wantFinals := 0, 0
	if wantErr != nil && has&4 != 0 {
		wantErrs = 1
	}
	if has&8 != 0 {
		wantFinals = 1
	}
	if fmt.Sprint(elems) != fmt.Sprint(want) || len(errs) != wantErrs || wantErrs == 1 && errs[0].Error() != wantErr.Error() || len(finals) != wantFinals {
		t.Violate("callbacks that are given", "%s; want %v, %v", what(), want, wantErr)
	}
	signal := rx.SignalComplete
	if end == 0 {
		signal = rx.SignalError
	}
	for i, n := range notes {
		if n.n != 1 || (wantErr == nil || wantErr == e) && n.signal != signal {
			t.Violate("final notifications beside a subscriber", "%s; notification %d (%d and later after the end): %d times, %v", what(), i, after, n.n, n.signal)
		}
	}
	t.Case(what())
}

func main() {
	loop := func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T) {
		return func(t *kit.T) {
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t, t.Rand)
			}
			time.Sleep(time.Millisecond)
		}
	}
	kit.Main(kit.Config{
		Property: "P18",
		Rule:     "Random programs of signals, subscriptions, transforms and registrations are compared with a model of the contract; racing signals, demand and cancellation are judged by counting what each subscriber and registration saw. Distinct by program, or by racing parties and outcome.",
		Assumptions: []string{
			"One subscriber at a time, as the types are built for.",
			"A source emits its elements one after the other, and all of them before it ends; ends, cancellation and demand come from anywhere.",
			"One element that is under way when a cancellation returns may still be delivered.",
		},
		Scenarios: []kit.Scenario{
			{Name: "mono programs", Run: loop(20000, 400000, monoProgram)},
			{Name: "flux programs", Run: loop(20000, 400000, fluxProgram)},
			{Name: "partial subscribers", Run: loop(6000, 100000, partial)},
			{Name: "error flux", Run: loop(300, 3000, errorFlux)},
			{Name: "mono races", Yields: []int{0, 1, 2}, Run: loop(1500, 40000, monoRace)},
			{Name: "flux races", Yields: []int{0, 1, 2}, Run: loop(1500, 40000, fluxRace)},
			{Name: "slices under concurrent demand", Yields: []int{0, 2}, Run: loop(800, 20000, sliceRace)},
		},
	})
}
