//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// pool holds results back until enough requests have arrived, and releases
// them in another order.
type pool struct {
	mu   sync.Mutex
	fs   []func()
	left int // arrivals still to come
	r    *rand.Rand
}

func (p *pool) add(f func()) {
	p.mu.Lock()
	p.fs = append(p.fs, f)
	p.left--
	var run []func()
	if p.left <= 0 || p.r.IntN(6) == 0 {
		p.r.Shuffle(len(p.fs), func(i, j int) { p.fs[i], p.fs[j] = p.fs[j], p.fs[i] })
		run, p.fs = p.fs, nil
	}
	p.mu.Unlock()
	for _, f := range run {
		go f()
	}
}

func (p *pool) gone() { p.add(func() {}) }

// flight is one call with what its caller saw.
type flight struct {
	c       *rpckit.Call
	m       mono.Mono[payload.Payload]
	want    payload.Payload
	wantErr string
	isErr   bool
	anyErr  bool

	got       payload.Payload
	err       error
	successes atomic.Int32
	errs      atomic.Int32
	finals    atomic.Int32
	done      chan struct{}
	what      string
}

func size(r *rand.Rand, big bool) int {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return 8160 + r.IntN(60)
	case 2:
		return 65500 + r.IntN(100)
	case 3:
		if big {
			return 1<<20 - 20 + r.IntN(40)
		}
	}
	return r.IntN(300)
}

var errTexts = []string{"", "boom", "not_found", "Ünïcode – ошибка 💥", "line\nbreak\x00zero", strings.Repeat("long ", 5000)}

// start prepares a call with a random handler.
func start(r *rand.Rand, p *pool, big bool) *flight {
	f := &flight{done: make(chan struct{}, 4)}
	f.c = rpckit.NewCall(r, rpckit.RR, size(r, big), []int{0, 1, 40, 3000, 0, 1, 40, 65520 + r.IntN(40), 0, 70000}[r.IntN(10)])
	seed := r.Uint64()
	md := []int{-1, 0, 1, 30, 2000, -1, 0, 1, 30, 65520 + r.IntN(40), -1, 70000}[r.IntN(12)]
	f.want = rpckit.Blob(seed, size(r, big), md)
	if r.IntN(4) == 0 {
		f.isErr = true
		f.wantErr = errTexts[r.IntN(len(errTexts))]
	}
	mode := r.IntN(6)
	give := func(s mono.Sink[payload.Payload]) {
		if f.isErr {
			s.Error(errors.New(f.wantErr))
			s.Success(f.want) // too late
		} else {
			s.Success(f.want)
			s.Error(errors.New("too late"))
		}
	}
	f.what = fmt.Sprintf("%d bytes and %d of metadata, handler %d, result %s (error %v)", len(f.c.Data), len(f.c.Extra), mode, rpckit.Show(f.want), f.isErr)
	f.c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
		switch mode {
		case 0:
			p.gone()
			if f.isErr {
				return mono.Error[payload.Payload](errors.New(f.wantErr))
			}
			return mono.Just(f.want)
		case 1:
			p.gone()
			return mono.Create(give)
		case 2:
			p.gone()
			return mono.Create(func(s mono.Sink[payload.Payload]) { go give(s) })
		case 3:
			p.gone()
			runtime.Gosched()
			m := mono.NewProcessor[payload.Payload]()
			go give(m)
			return m
		case 4: // the result is mapped
			m := mono.NewProcessor[payload.Payload]()
			p.add(func() { give(m) })
			return mono.Map[payload.Payload, payload.Payload](m, func(x payload.Payload) (payload.Payload, error) { return x, nil })
		default:
			m := mono.NewProcessor[payload.Payload]()
			p.add(func() { give(m) })
			return m
		}
	}
	return f
}

// send performs the call in one of the ways there are.
func (f *flight) send(from *handler.Handler, imported bool, how int) {
	ctx := context.Background()
	f.await(from.RequestResponse(ctx, f.c.Request(f.c.Index(from, imported))), how)
}

func (f *flight) await(m mono.Mono[payload.Payload], how int) {
	f.m = m
	f.what += fmt.Sprintf(", awaited %d", how)
	record := func(p payload.Payload, err error) {
		f.got, f.err = p, err
		if err != nil {
			f.errs.Add(1)
		} else {
			f.successes.Add(1)
		}
	}
	switch how {
	case 0:
		p, err := m.Block()
		record(p, err)
		f.finals.Add(1)
		f.done <- struct{}{}
	case 1:
		go func() {
			p, err := m.Block()
			record(p, err)
			f.finals.Add(1)
			f.done <- struct{}{}
		}()
	case 2:
		m.Async()
		m.Notify(func(s rx.SignalType) {
			p, err := m.Get()
			if (err != nil) != (s == rx.SignalError) {
				f.errs.Add(10)
			}
			record(p, err)
			f.finals.Add(1)
			f.done <- struct{}{}
		})
	case 3:
		m = mono.Map(m, func(x payload.Payload) (payload.Payload, error) { return x, nil })
		fallthrough
	default:
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { record(p, nil) },
			OnError:   func(e error) { record(nil, e) },
			Finally: func(rx.SignalType) {
				f.finals.Add(1)
				f.done <- struct{}{}
			},
		})
	}
}

func (f *flight) wait(t *kit.T) bool {
	if _, _, timely := kit.Recv(f.done); !timely {
		t.Violate("call does not end", "%s; handler ran %d times\n%s", f.what, f.c.Runs.Load(), kit.Stacks())
		return false
	}
	return true
}

func (f *flight) check(t *kit.T) {
	if f.successes.Load()+f.errs.Load() != 1 || f.finals.Load() != 1 {
		t.Violate("ends of a call", "%s: %d results, %d errors, %d final", f.what, f.successes.Load(), f.errs.Load(), f.finals.Load())
		return
	}
	switch {
	case f.anyErr:
		if f.err == nil {
			t.Violate("outcome of a call", "%s: got %s, want an error", f.what, rpckit.Show(f.got))
		}
		return
	case f.isErr:
		if f.err == nil || f.err.Error() != f.wantErr {
			t.Violate("outcome of a call", "%s: got %s, %v; want error %q", f.what, rpckit.Show(f.got), f.err, f.wantErr)
		}
	case f.err != nil:
		t.Violate("outcome of a call", "%s: got error %v", f.what, f.err)
	case !rpckit.Same(f.got, f.want):
		t.Violate("outcome of a call", "%s: got %s\n%s\n%s", f.what, rpckit.Show(f.got), rpckit.Diff(f.got.Data(), f.want.Data()), rpckit.Diff(f.got.Metadata(), f.want.Metadata()))
	}
	if f.c == nil {
		return
	}
	if f.c.Runs.Load() != 1 {
		t.Violate("handler runs", "%s: %d", f.what, f.c.Runs.Load())
	}
	f.late(t)
}

// late asks once more for the result of a call that has one: it is the same,
// and the handler does not run again.
func (f *flight) late(t *kit.T) {
	n := f.c.ID % 8
	if n > 2 || f.m == nil {
		return
	}
	p, err, times := payload.Payload(nil), error(nil), 0
	end := make(chan struct{}, 4)
	switch n {
	case 0:
		p, err = f.m.Block()
		times++
	case 1:
		f.m.Async()
		p, err = f.m.Get()
		times++
	default:
		f.m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(x payload.Payload) { p = x; times++ },
			OnError:   func(e error) { err = e; times++ },
			Finally:   func(rx.SignalType) { end <- struct{}{} },
		})
		if _, _, timely := kit.Recv(end); !timely {
			t.Violate("result asked for again", "%s: does not end", f.what)
			return
		}
	}
	if times != 1 || (err != nil) != f.isErr || f.isErr && err.Error() != f.wantErr || !f.isErr && !rpckit.Same(p, f.want) {
		t.Violate("result asked for again", "%s: %d results, %s, %v", f.what, times, rpckit.Show(p), err)
	}
	if f.c.Runs.Load() != 1 {
		t.Violate("handler runs", "%s, result asked for again: %d", f.what, f.c.Runs.Load())
	}
	kit.Count("results asked for again", 1)
}

// bad prepares a call that no handler gets.
func bad(r *rand.Rand) (f *flight, p payload.Payload) {
	f = &flight{done: make(chan struct{}, 4), anyErr: true}
	data := make([]byte, r.IntN(50))
	if r.IntN(2) == 0 {
		md := make([]byte, r.IntN(8))
		for i := range md {
			md[i] = byte(r.IntN(2) * 255)
		}
		f.what = fmt.Sprintf("metadata %x", md)
		if len(md) == 0 && r.IntN(2) == 0 {
			md = nil
		}
		return f, payload.New(data, md)
	}
	idx := []uint32{rpckit.Ops, rpckit.Ops + 1, 1 << 8, 1 << 16, 1 << 24, 1<<24 | 1, 1 << 31, 1<<32 - 1, rpckit.Ops + r.Uint32N(1000), r.Uint32()&^3 + 1<<20}[r.IntN(10)]
	f.what = fmt.Sprintf("operation %d", idx)
	md := []byte{byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx), 0, 0, 0, 0}
	return f, payload.New(data, append(md, make([]byte, r.IntN(20))...))
}

// storm sends calls from many goroutines in both directions.
func storm(t *kit.T, mem bool, pairs, calls int, tapped bool) {
	rig := rpckit.NewRig(t, mem, tapped)
	defer rig.Close()
	var ps []*rpckit.Pair
	for i := 0; i < pairs; i++ {
		ps = append(ps, rig.Connect())
	}
	pl := &pool{left: calls * pairs, r: rand.New(rand.NewPCG(t.Rand.Uint64(), 5))}
	var mu sync.Mutex
	var all []*flight
	var wg sync.WaitGroup
	workers := 2 + t.Rand.IntN(6)
	for _, p := range ps {
		for w := 0; w < workers; w++ {
			n := calls / workers
			if w == 0 {
				n += calls % workers
			}
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					from, imported := p.Client, false
					if r.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					how := 1 + r.IntN(4)
					var f *flight
					if r.IntN(8) == 0 {
						var req payload.Payload
						f, req = bad(r)
						pl.gone()
						f.await(from.RequestResponse(context.Background(), req), how)
					} else {
						f = start(r, pl, false)
						f.send(from, imported, how)
					}
					mu.Lock()
					all = append(all, f)
					mu.Unlock()
					if r.IntN(4) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
	}
	wg.Wait()
	for _, f := range all {
		if !f.wait(t) {
			return
		}
	}
	for _, p := range ps {
		p.Forgotten("after all calls ended")
	}
	for _, f := range all {
		f.check(t)
		t.Case(f.what)
		if f.c != nil {
			f.c.Forget()
		}
	}
	if t.Wants() {
		t.Sample("%d connections, %d calls each: %s", pairs, calls, all[len(all)/2].what)
	}
	kit.Count("calls", int64(len(all)))
	if tapped {
		for _, p := range ps {
			wire(t, p)
		}
	}
	for _, p := range ps {
		p.Close()
	}
}

// wire checks the recorded frames: one reply for each request.
func wire(t *kit.T, p *rpckit.Pair) {
	evs := p.ServerTap.Events()
	requests := map[uint32]bool{} // by stream: sent by the server
	replies := map[uint32]int{}
	for _, e := range evs {
		switch e.Type {
		case 4:
			if _, dup := requests[e.Stream]; dup {
				t.Violate("request sent twice", "stream %d", e.Stream)
			}
			requests[e.Stream] = e.Out
		case 10, 11:
			out, ok := requests[e.Stream]
			if !ok || out == e.Out {
				t.Violate("reply without a request", "stream %d: %+v", e.Stream, e)
				continue
			}
			if e.Type == 10 && !(e.Next && e.Complete) {
				t.Violate("reply is not complete", "stream %d: %+v", e.Stream, e)
			}
			replies[e.Stream]++
		}
	}
	for s := range requests {
		if replies[s] != 1 {
			t.Violate("replies to a request", "stream %d: %d", s, replies[s])
		}
	}
	kit.Count("frames seen on the wire", int64(len(evs)))
}

// sizes calls with all sizes of interest, one after the other.
func sizes(t *kit.T) {
	rig := rpckit.NewRig(t, false, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	var ns []int
	for n := 0; n < kit.N(70, 600); n++ {
		ns = append(ns, n)
	}
	for _, c := range []int{127, 128, 255, 256, 4096, 8192, 16384, 32768, 65535, 65536, 1 << 20} {
		for d := -24; d <= 6; d += 1 + t.Rand.IntN(3) {
			ns = append(ns, c+d)
		}
	}
	// the largest that fit, and some that do not
	const max = 1<<24 - 1
	ns = append(ns, max/2, max-6-3-8-8, max-6-3-8-8-1, max-8-8-10000)
	for _, n := range ns {
		for _, reply := range []bool{false, true} {
			f := &flight{done: make(chan struct{}, 4)}
			small, md := t.Rand.IntN(40), t.Rand.IntN(30)
			if n < 100 && t.Rand.IntN(2) == 0 {
				md, small = n, 0
			}
			req, rep := n, small
			if reply {
				req, rep = small, n
			}
			if n > 1<<20 {
				md = 0
			}
			f.c = rpckit.NewCall(t.Rand, rpckit.RR, req, 0)
			f.want = rpckit.Blob(t.Rand.Uint64(), rep, md)
			f.c.OnRR = func(context.Context) mono.Mono[payload.Payload] { return mono.Just(f.want) }
			f.what = fmt.Sprintf("request of %d bytes, result %s", req+8, rpckit.Show(f.want))
			from, imported := p.Client, false
			if t.Rand.IntN(4) == 0 {
				from, imported = p.Server, true
			}
			f.send(from, imported, 4)
			if !f.wait(t) {
				return
			}
			f.check(t)
			f.c.Forget()
			t.Case(f.what)
			kit.Count("calls", 1)
			if t.Failed() {
				return
			}
		}
	}
	// What cannot be sent is an error for its own call only.
	for _, reply := range []bool{false, true} {
		f := &flight{done: make(chan struct{}, 4), anyErr: true}
		n := 1 << 24
		req := n
		if reply {
			req = 5
		}
		f.c = rpckit.NewCall(t.Rand, rpckit.RR, req, 0)
		huge := rpckit.Blob(1, n, 0)
		f.c.OnRR = func(context.Context) mono.Mono[payload.Payload] { return mono.Just(huge) }
		f.what = fmt.Sprintf("payload of %d bytes, reply %v", n, reply)
		f.send(p.Client, false, 4)
		if !f.wait(t) {
			return
		}
		f.check(t)
		f.c.Forget()
		t.Case(f.what)
	}
	f := start(t.Rand, &pool{left: 1, r: t.Rand}, false)
	f.send(p.Client, false, 4)
	if f.wait(t) {
		f.check(t)
	}
}

// wrong sends what no handler may get.
func wrong(t *kit.T) {
	rig := rpckit.NewRig(t, true, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for i := 0; i < kit.N(600, 10000) && !t.Failed(); i++ {
		from := p.Client
		if i%3 == 0 {
			from = p.Server
		}
		f, req := bad(t.Rand)
		f.await(from.RequestResponse(context.Background(), req), t.Rand.IntN(5))
		if !f.wait(t) {
			return
		}
		f.check(t)
		t.Case(f.what)
		kit.Count("calls without a handler", 1)
	}
	wire(t, p)
	p.Forgotten("after calls without a handler")
}

// reversed lets replies come in the opposite order of the requests, and one
// by one long after.
func reversed(t *kit.T) {
	rig := rpckit.NewRig(t, true, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for round := 0; round < kit.N(20, 300) && !t.Failed(); round++ {
		n := 2 + t.Rand.IntN(30)
		var mu sync.Mutex
		var sinks []mono.Sink[payload.Payload]
		var owners []*flight
		var fs []*flight
		for i := 0; i < n; i++ {
			f := &flight{done: make(chan struct{}, 4)}
			f.c = rpckit.NewCall(t.Rand, rpckit.RR, t.Rand.IntN(50), 0)
			f.want = rpckit.Blob(t.Rand.Uint64(), t.Rand.IntN(50), t.Rand.IntN(20)-1)
			f.what = fmt.Sprintf("reversed %d of %d", i, n)
			f.c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
				m := mono.NewProcessor[payload.Payload]()
				mu.Lock()
				sinks = append(sinks, m)
				owners = append(owners, f)
				mu.Unlock()
				return m
			}
			fs = append(fs, f)
			f.send(p.Client, false, 1+t.Rand.IntN(4))
		}
		if !kit.Wait(func() bool { mu.Lock(); defer mu.Unlock(); return len(sinks) == n }) {
			t.Fatal("requests do not arrive", "%d of %d", len(sinks), n)
		}
		for i := n - 1; i >= 0; i-- {
			sinks[i].Success(owners[i].want)
			if t.Rand.IntN(3) == 0 {
				if !owners[i].wait(t) {
					return
				}
				owners[i].done <- struct{}{}
			}
			// nobody else has ended
			for k := 0; k < i; k++ {
				if owners[k].finals.Load() != 0 {
					t.Violate("call ended with another's reply", "%s", owners[k].what)
				}
			}
		}
		for _, f := range fs {
			if !f.wait(t) {
				return
			}
			f.check(t)
			f.c.Forget()
			t.Case(fmt.Sprint(round, f.what))
		}
		kit.Count("calls", int64(n))
	}
	wire(t, p)
}

// waiting has handlers that do not return before a later request of the same
// connection has run, or that call back to their caller and wait for that.
func waiting(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for round := 0; round < kit.N(12, 200) && !t.Failed(); round++ {
		n := 2 + t.Rand.IntN(12)
		fs := make([]*flight, n)
		arrived := make([]chan struct{}, n+1)
		for i := range arrived {
			arrived[i] = make(chan struct{})
		}
		close(arrived[n])
		back := t.Rand.IntN(2) == 0
		for i := n - 1; i >= 0; i-- {
			i := i
			f := &flight{done: make(chan struct{}, 4)}
			f.c = rpckit.NewCall(t.Rand, rpckit.RR, t.Rand.IntN(50), 0)
			f.want = rpckit.Blob(t.Rand.Uint64(), t.Rand.IntN(50), t.Rand.IntN(20)-1)
			how := t.Rand.IntN(3)
			f.what = fmt.Sprintf("waiting %d of %d, handler %d, calls back %v", i, n, how, back)
			wait := func() {
				close(arrived[i])
				if back && i+1 < n {
					next, from, imported := fs[i+1], p.Server, true
					if i%2 == 1 {
						from, imported = p.Client, false
					}
					next.send(from, imported, i%2)
					return
				}
				if _, _, timely := kit.Recv(arrived[i+1]); !timely {
					t.Violate("request waits for the handler of an earlier one", "%s", f.what)
				}
			}
			f.c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
				switch how {
				case 0:
					wait()
					return mono.Just(f.want)
				case 1:
					return mono.Create(func(s mono.Sink[payload.Payload]) {
						wait()
						s.Success(f.want)
					})
				default:
					m := mono.NewProcessor[payload.Payload]()
					go func() {
						wait()
						m.Success(f.want)
					}()
					return m
				}
			}
			fs[i] = f
		}
		if back {
			fs[0].send(p.Client, false, 1)
		} else {
			for _, f := range fs {
				f.send(p.Client, false, 1+t.Rand.IntN(4))
			}
		}
		for _, f := range fs {
			if !f.wait(t) {
				return
			}
			f.check(t)
			f.c.Forget()
			t.Case(fmt.Sprint(round, f.what))
		}
		kit.Count("calls that wait for later ones", int64(n))
	}
	wire(t, p)
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
			time.Sleep(time.Millisecond)
		}
	}
	kit.Main(kit.Config{
		Property: "P09",
		Rule:     "Calls between real clients and servers over TCP and memory, with handlers that answer at once, later, shuffled or with errors; every caller's record and the frames on the wire are compared with what the handlers were told to answer. Distinct by sizes, handler, result and way of waiting.",
		Assumptions: []string{
			"Callbacks of a caller do not block (they run on the goroutine that dispatches frames).",
		},
		Scenarios: []kit.Scenario{
			{Name: "sizes", Run: scn(1, 4, sizes)},
			{Name: "without a handler", Run: scn(1, 2, wrong)},
			{Name: "reversed replies", Yields: []int{0, 1}, Run: scn(1, 2, reversed)},
			{Name: "waiting handlers", Yields: []int{0, 1}, Run: scn(1, 2, waiting)},
			{Name: "storm in memory", Yields: []int{0, 1, 2}, Run: scn(8, 120, func(t *kit.T) { storm(t, true, 1+t.Rand.IntN(3), 60+t.Rand.IntN(120), t.Rand.IntN(2) == 0) })},
			{Name: "storm over TCP", Yields: []int{0, 2}, Run: scn(5, 60, func(t *kit.T) { storm(t, false, 1+t.Rand.IntN(3), 60+t.Rand.IntN(120), t.Rand.IntN(2) == 0) })},
			{Name: "storm over TLS", Yields: []int{0, 2}, Run: scn(2, 30, func(t *kit.T) {
				rpckit.WithTLS(func() { storm(t, false, 1+t.Rand.IntN(3), 60+t.Rand.IntN(120), t.Rand.IntN(2) == 0) })
			})},
			{Name: "foreign clients", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RR) })},
			{Name: "foreign servers", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RR) })},
		},
	})
}
