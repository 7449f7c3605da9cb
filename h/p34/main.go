//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifh/kit"
)

// outcome is what a stream or single value amounts to.
type outcome struct {
	elems []int // of a mono: the value
	err   error
}

var errAny = errors.New("any error")

func (o outcome) String() string { return fmt.Sprintf("%v, %v", o.elems, o.err) }

func (o outcome) like(w outcome) bool {
	if fmt.Sprint(o.elems) != fmt.Sprint(w.elems) || (o.err == nil) != (w.err == nil) {
		return false
	}
	return w.err == nil || w.err == errAny || o.err == w.err || o.err.Error() == w.err.Error()
}

// seen collects the signals of one subscriber.
type seen struct {
	mu        sync.Mutex
	elems     []int
	successes int
	completes int
	errs      []error
	finals    []rx.SignalType
	bad       []string
	done      chan struct{}
}

func newSeen() *seen { return &seen{done: make(chan struct{})} }

func (s *seen) ended(what string) {
	if len(s.finals) > 0 || s.completes+s.successes+len(s.errs) > 0 {
		s.bad = append(s.bad, what+" after the end")
	}
}

func (s *seen) success(v int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ended(fmt.Sprint("value ", v))
	s.elems = append(s.elems, v)
	s.successes++
}

func (s *seen) next(v int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ended(fmt.Sprint("element ", v))
	s.elems = append(s.elems, v)
}

func (s *seen) complete() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ended("completion")
	s.completes++
}

func (s *seen) error(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ended("error")
	s.errs = append(s.errs, err)
}

func (s *seen) finally(x rx.SignalType) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.finals = append(s.finals, x)
	if len(s.finals) == 1 {
		close(s.done)
	}
}

func (s *seen) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return fmt.Sprintf("elements %v successes %d completions %d errors %v final %v %v", s.elems, s.successes, s.completes, s.errs, s.finals, s.bad)
}

// verdict says what is wrong with the signals for the outcome.
func (s *seen) verdict(isFlux bool, want outcome) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	ends := s.completes
	if !isFlux {
		ends = s.successes
	}
	switch {
	case len(s.bad) > 0:
		return s.bad[0]
	case len(s.finals) != 1 || ends+len(s.errs) != 1:
		return "not exactly one end"
	case (s.finals[0] == rx.SignalError) != (len(s.errs) == 1) || (s.finals[0] == rx.SignalComplete) != (ends == 1):
		return "final notification"
	}
	got := outcome{elems: s.elems}
	if len(s.errs) > 0 {
		got.err = s.errs[0]
	}
	if !got.like(want) {
		return "outcome"
	}
	return ""
}

// chain is a mono or a flux that was converted, and the outcome it is to have.
type chain struct {
	f    flux.Flux[int]
	m    mono.Mono[int]
	name []string
	want outcome
	tail bool // it ends in a transform: notifications carry the signal before it
}

func (c *chain) log(f string, a ...any) { c.name = append(c.name, fmt.Sprintf(f, a...)) }
func (c *chain) String() string         { return strings.Join(c.name, " ") }

// step converts once more.
func (c *chain) step(r *rand.Rand) {
	add, bad := r.IntN(9), 0
	if r.IntN(3) == 0 {
		bad = 2 + r.IntN(6)
	}
	tx := func(v int) (int, error) {
		if bad > 0 && v%bad == 0 {
			return 0, fmt.Errorf("tx %d", v)
		}
		return v + add, nil
	}
	k := r.IntN(4)
	c.tail = false
	if c.f != nil {
		switch k {
		case 0:
			c.tail = true
			c.log("map(+%d,!%d)", add, bad)
			c.f = flux.Map(c.f, rx.Transform[int, int](tx))
			var out []int
			for _, v := range c.want.elems {
				w, err := tx(v)
				if err != nil {
					c.want.err = err
					break
				}
				out = append(out, w)
			}
			c.want.elems = out
		case 1:
			c.log("void")
			v := transform.FluxToVoid(c.f)
			x := r.IntN(100)
			c.f, c.m = nil, mono.Map(v, func(struct{}) (int, error) { return x, nil })
			c.want.elems = nil
			if c.want.err == nil {
				c.want.elems = []int{x}
			}
			c.tail = true
		default:
			c.log("mono")
			c.m, c.f = transform.FluxToMono(c.f), nil
			switch {
			case len(c.want.elems) > 0:
				c.want = outcome{elems: c.want.elems[:1]}
			case c.want.err == nil:
				c.want.err = errAny
			}
		}
		return
	}
	switch k {
	case 0:
		c.tail = true
		c.log("map(+%d,!%d)", add, bad)
		c.m = mono.Map(c.m, rx.Transform[int, int](tx))
		if c.want.err == nil {
			w, err := tx(c.want.elems[0])
			c.want = outcome{elems: []int{w}}
			if err != nil {
				c.want = outcome{err: err}
			}
		}
	default:
		c.log("flux")
		c.f, c.m = transform.MonoToFlux(c.m), nil
	}
}

// source makes the start of a chain. go_ starts what signals it.
func source(r *rand.Rand) (*chain, func()) {
	c := &chain{}
	start := func() {}
	var err error
	if r.IntN(3) == 0 {
		err = fmt.Errorf("e%d", r.IntN(100))
	}
	n := r.IntN(5)
	if r.IntN(8) == 0 {
		n = r.IntN(300)
	}
	vals := make([]int, n)
	for i := range vals {
		vals[i] = r.IntN(1000)
	}
	pause := r.IntN(3)
	wait := func(i int) {
		if pause == 1 && i&1 == 0 {
			runtime.Gosched()
		} else if pause == 2 && i == 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	late := r.IntN(2) == 0 // signals after the end are for nobody
	emit := func(s flux.Sink[int]) {
		for i, v := range vals {
			wait(i)
			s.Next(v)
		}
		if err != nil {
			s.Error(err)
		} else {
			s.Complete()
		}
		if late {
			s.Next(-1)
			s.Complete()
			s.Error(errAny)
		}
	}
	x := r.IntN(1000)
	resolve := func(s mono.Sink[int]) {
		wait(0)
		if err != nil {
			s.Error(err)
		} else {
			s.Success(x)
		}
		if late {
			s.Success(-1)
			s.Error(errAny)
		}
	}
	single := outcome{elems: []int{x}}
	if err != nil {
		single = outcome{err: err}
	}
	switch k := r.IntN(10); k {
	case 0:
		c.log("slice%v", vals)
		c.f = flux.FromSlice(append([]int(nil), vals...))
		c.want = outcome{elems: vals}
	case 1:
		err = fmt.Errorf("e%d", r.IntN(100))
		c.log("error flux(%v)", err)
		c.f = flux.Error[int](err)
		c.want = outcome{err: err}
	case 2, 3:
		async := k == 3
		c.log("create%v(%v, async %v)", vals, err, async)
		c.f = flux.Create(func(s flux.Sink[int]) {
			if async && guest {
				start = func() { emit(s) }
			} else if async {
				go emit(s)
			} else {
				emit(s)
			}
		})
		c.want = outcome{vals, err}
	case 4, 5:
		c.log("processor%v(%v)", vals, err)
		p := flux.NewProcessor[int]()
		c.f = p
		start = func() { emit(p) }
		c.want = outcome{vals, err}
	case 6:
		c.log("just(%d)", x)
		c.m = mono.Just(x)
		c.want = outcome{elems: []int{x}}
	case 7:
		err = fmt.Errorf("e%d", r.IntN(100))
		c.log("error mono(%v)", err)
		c.m = mono.Error[int](err)
		c.want = outcome{err: err}
	case 8:
		async := r.IntN(2) == 0
		c.log("create mono(%v, async %v)", single, async)
		c.m = mono.Create(func(s mono.Sink[int]) {
			if async && guest {
				start = func() { resolve(s) }
			} else if async {
				go resolve(s)
			} else {
				resolve(s)
			}
		})
		c.want = single
	case 9:
		c.log("mono processor(%v)", single)
		p := mono.NewProcessor[int]()
		c.m = p
		start = func() { resolve(p) }
		c.want = single
	}
	return c, func() { start() }
}

// programs converts sources back and forth and looks at the outcome.
func programs(t *kit.T, r *rand.Rand) {
	c, start := source(r)
	for k := 1 + r.IntN(5); k > 0; k-- {
		c.step(r)
	}
	early := r.IntN(3)
	type note struct {
		n  int
		s  rx.SignalType
		mu sync.Mutex
	}
	var notes []*note
	notify := func() {
		n := &note{}
		notes = append(notes, n)
		f := func(s rx.SignalType) {
			n.mu.Lock()
			defer n.mu.Unlock()
			n.n++
			n.s = s
		}
		if c.f != nil {
			c.f.Notify(f)
		} else {
			c.m.Notify(f)
		}
	}
	for i := 0; i < early; i++ {
		notify()
	}
	s := newSeen()
	block := !guest && r.IntN(4) == 0 && !strings.Contains(c.String(), "processor")
	what := func() string {
		return fmt.Sprintf("%v, blocked %v\nsaw  %v\nwant %v", c, block, s, c.want)
	}
	isFlux := c.f != nil
	subscribe := func() {
		if isFlux {
			c.f.Subscribe(flux.Subscribe[int]{OnNext: s.next, OnComplete: s.complete, OnError: s.error, Finally: s.finally})
		} else {
			c.m.Subscribe(mono.Subscribe[int]{OnSuccess: s.success, OnError: s.error, Finally: s.finally})
		}
	}
	switch {
	case block && isFlux:
		done := make(chan error, 1)
		go func() { done <- blockFlux(c.f, flux.Subscribe[int]{OnNext: s.next}) }()
		err, _, timely := kit.Recv(done)
		if !timely {
			t.Fatal("converted stream does not end", "%s\n%s", what(), kit.Stacks())
		}
		if got := (outcome{s.elems, err}); !got.like(c.want) {
			t.Violate("outcome", "%s\nblock gives %v", what(), err)
		}
	case block:
		type res struct {
			v   int
			err error
		}
		done := make(chan res, 1)
		go func() { v, err := blockMono(c.m); done <- res{v, err} }()
		g, _, timely := kit.Recv(done)
		if !timely {
			t.Fatal("converted value does not come", "%s\n%s", what(), kit.Stacks())
		}
		got := outcome{elems: []int{g.v}}
		if g.err != nil {
			got = outcome{err: g.err}
		}
		if !got.like(c.want) {
			t.Violate("outcome", "%s\nblock gives %v", what(), got)
		}
	default:
		subscribe()
		start()
		if _, _, timely := kit.Recv(s.done); !timely {
			t.Fatal("converted stream does not end", "%s\n%s", what(), kit.Stacks())
		}
		if v := s.verdict(isFlux, c.want); v != "" {
			t.Violate(v, "%s", what())
		}
		if c.m != nil {
			v, err := c.m.Get()
			got := outcome{elems: []int{v}}
			if err != nil {
				got = outcome{err: err}
			}
			if !got.like(c.want) {
				t.Violate("value got", "%s\nget gives %v", what(), got)
			}
		}
		notify()
		for i, n := range notes {
			ok := kit.Wait(func() bool { n.mu.Lock(); defer n.mu.Unlock(); return n.n >= 1 })
			n.mu.Lock()
			if !ok || n.n != 1 || (!c.tail && (n.s == rx.SignalError) != (c.want.err != nil)) {
				t.Violate("final notifications", "%s\nnotification %d: %d times, %v", what(), i, n.n, n.s)
			}
			n.mu.Unlock()
		}
	}
	kit.Count("elements", int64(len(s.elems)))
	kit.Count("outcomes", 1)
	if c.want.err != nil {
		kit.Count("errors", 1)
	}
	t.Case(fmt.Sprint(c, block, early))
	if t.Wants() && len(c.name) > 3 {
		t.Sample("%v -> %v", c, s)
	}
}

// races lets the ends of a source race with its conversion's subscriber,
// notifications and cancellation.
func races(t *kit.T, r *rand.Rand) {
	kind := r.IntN(3)
	n := r.IntN(6)
	ends := 1 + r.IntN(3)
	cancel := kind == 2 && r.IntN(3) == 0
	s := newSeen()
	start := make(chan struct{})
	var wg sync.WaitGroup
	run := func(f func()) {
		d := r.IntN(600)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < d; i++ {
				if i&31 == 0 {
					runtime.Gosched()
				}
			}
			f()
		}()
	}
	var notes [2]struct {
		mu sync.Mutex
		n  int
	}
	noted := func(i int) func(rx.SignalType) {
		return func(rx.SignalType) {
			notes[i].mu.Lock()
			defer notes[i].mu.Unlock()
			notes[i].n++
		}
	}
	what := ""
	desc := func() string {
		return fmt.Sprintf("%s, %d elements, %d racing ends, cancel %v: %v", what, n, ends, cancel, s)
	}
	errEnd := errors.New("end")
	var possible []outcome
	switch kind {
	case 0, 1: // flux to mono and to void
		p := flux.NewProcessor[int]()
		var m mono.Mono[int]
		if kind == 0 {
			what = "flux to mono"
			m = transform.FluxToMono[int](p)
			if n > 0 {
				possible = []outcome{{elems: []int{10}}}
			}
			possible = append(possible, outcome{err: errAny})
			if r.IntN(2) == 0 {
				m = transform.FluxToMono(transform.MonoToFlux(m))
				what += " to flux to mono"
			}
		} else {
			what = "flux to void"
			m = mono.Map(transform.FluxToVoid[int](p), func(struct{}) (int, error) { return 10, nil })
			possible = []outcome{{elems: []int{10}}, {err: errEnd}}
		}
		m.Subscribe(mono.Subscribe[int]{OnSuccess: s.success, OnError: s.error, Finally: s.finally})
		run(func() {
			for i := 0; i < n; i++ {
				p.Next(10 + i)
			}
		})
		for i := 0; i < ends; i++ {
			fail := r.IntN(2) == 0
			run(func() {
				if fail {
					p.Error(errEnd)
				} else {
					p.Complete()
				}
			})
		}
		for i := range notes {
			run(func() { m.Notify(noted(i)) })
		}
	case 2:
		what = "mono to flux"
		p := mono.NewProcessor[int]()
		f := transform.MonoToFlux[int](p)
		possible = []outcome{{elems: []int{10}}, {err: errEnd}}
		if r.IntN(2) == 0 {
			f = transform.MonoToFlux(transform.FluxToMono(f))
			what += " to mono to flux"
		}
		sub := flux.Subscribe[int]{OnNext: s.next, OnComplete: s.complete, OnError: s.error, Finally: s.finally}
		late := r.IntN(2) == 0
		if late && !cancel {
			run(func() { f.Subscribe(sub) })
		} else {
			f.Subscribe(sub)
		}
		for i := 0; i < ends; i++ {
			fail := r.IntN(2) == 0
			run(func() {
				if fail {
					p.Error(errEnd)
				} else {
					p.Success(10)
				}
			})
		}
		if cancel {
			run(func() { f.Subscription().Cancel() })
		}
		for i := range notes {
			run(func() { f.Notify(noted(i)) })
		}
	}
	close(start)
	wg.Wait()
	if _, _, timely := kit.Recv(s.done); !timely {
		t.Fatal("converted stream does not end", "%s\n%s", desc(), kit.Stacks())
	}
	s.mu.Lock()
	cancelled := cancel && len(s.finals) == 1 && s.finals[0] == rx.SignalCancel
	clean := len(s.elems) <= 1 && s.completes == 0 && len(s.errs) == 0 // the element may have been under way
	s.mu.Unlock()
	if cancelled {
		kit.Count("races cancelled", 1)
		if !clean {
			t.Violate("signals of a cancelled conversion", "%s", desc())
		}
	} else {
		v := ""
		for _, w := range possible {
			if v = s.verdict(kind == 2, w); v == "" {
				break
			}
		}
		if v != "" {
			t.Violate(v, "%s", desc())
		}
	}
	for i := range notes {
		notes[i].mu.Lock()
		if notes[i].n != 1 {
			t.Violate("final notifications", "%d: %s", notes[i].n, desc())
		}
		notes[i].mu.Unlock()
	}
	kit.Count("races", 1)
	t.Case(desc())
	if t.Wants() {
		t.Sample("%s", desc())
	}
}

func main() {
	loop := func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T) {
		return func(t *kit.T) {
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t, t.Rand)
			}
		}
	}
	scenarios := []kit.Scenario{{Name: "programs", Yields: []int{0, 2}, Run: loop(4000, 80000, programs)}}
	kit.Main(kit.Config{
		Property: "P34",
		Rule:     "Random sources (values, errors, slices, processors, synchronous and asynchronous ones, ends of connections) are converted back and forth between flux, mono and void with transforms in between; the outcome seen by the subscriber, by Block, by Get and by notifications is compared with the outcome of the source carried through the same conversions. Distinct by program and outcome.",
		Assumptions: []string{
			"A mono of a flux without elements ends with an error; which one is not specified.",
			"The first element decides a mono: what the flux does later is not looked at.",
		},
		Scenarios: append(scenarios, onlyHere(loop)...),
	})
}
