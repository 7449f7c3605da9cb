//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/wasmkit"
)

var room *wasmkit.Room

// rig is an instance with a guest.
type rig struct {
	t      *kit.T
	r      *rand.Rand
	g      *guest
	inst   *host.Instance
	sh     *wasmkit.Shell
	id     uint64
	ticks  atomic.Int64
	asking atomic.Int64 // handlers that wait for the guest
	stop   chan bool
	ticker sync.WaitGroup
}

func newRig(t *kit.T, prepare func(*guest)) *rig {
	g := newGuest(t, rand.New(rand.NewPCG(t.Rand.Uint64(), 1)))
	if prepare != nil {
		prepare(g)
	}
	inst, sh, err := room.Instantiate(context.Background(), g)
	if err != nil {
		t.Fatal("instance does not start", "%v", err)
	}
	g.mu.Lock()
	g.inst, g.sh = inst, sh
	g.mu.Unlock()
	x := &rig{t: t, r: rand.New(rand.NewPCG(t.Rand.Uint64(), 2)), g: g, inst: inst, sh: sh, stop: make(chan bool)}
	inst.SetRequestResponseHandler(opBack, x.rr)
	inst.SetFireAndForgetHandler(opBack, x.fnf)
	inst.SetRequestStreamHandler(opBack, x.rs)
	inst.SetRequestChannelHandler(opBack, x.rc)
	return x
}

// tick lets the guest go on.
func (x *rig) tick() {
	x.inst.FireAndForget(context.Background(), payload.New(nil, md(opTick)))
	x.ticks.Add(1)
}

func (x *rig) startTicks() {
	x.ticker.Add(1)
	go func() {
		defer x.ticker.Done()
		for n := 0; ; n++ {
			select {
			case <-x.stop:
				return
			default:
				x.tick()
				time.Sleep(time.Duration(20+min(n, 200)*10) * time.Microsecond)
			}
		}
	}()
}

func (x *rig) stopTicks() {
	close(x.stop)
	x.ticker.Wait()
}

// end closes the instance and its module.
func (x *rig) end() { x.endOne(true) }

func (x *rig) endOne(all bool) {
	x.g.closed.Store(true)
	done := make(chan bool)
	times := 1 + x.r.IntN(3)
	go func() {
		for i := 0; i < times; i++ {
			if err := x.inst.Close(); err != nil {
				x.t.Violate("close fails", "%v", err)
			}
		}
		close(done)
	}()
	if _, _, timely := kit.Recv(done); !timely {
		x.t.Fatal("close hangs", "%s", kit.Stacks())
	}
	x.stopTicks()
	x.late()
	if all {
		x.gone()
	}
}

// gone waits for what was accepted before the instance was closed.
func (x *rig) gone() {
	if !kit.WaitFor(10*time.Second, func() bool { return !strings.Contains(kit.Stacks(), "transport/wasmrs/host") }) {
		x.t.Fatal("a closed instance keeps goroutines", "%s", kit.Stacks())
	}
	x.sh.Close(context.Background())
}

// late makes calls of a closed instance, which fail at once.
func (x *rig) late() {
	ended := make(chan error, 3)
	ctx := context.Background()
	p := payload.New(make([]byte, 8), md(opCall))
	go func() {
		x.inst.FireAndForget(ctx, p)
		x.inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) { ended <- nil }, OnError: func(err error) { ended <- err }})
		x.inst.RequestStream(ctx, p).Subscribe(flux.Subscribe[payload.Payload]{
			OnComplete: func() { ended <- nil }, OnError: func(err error) { ended <- err }})
		x.inst.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{p})).Subscribe(flux.Subscribe[payload.Payload]{
			OnComplete: func() { ended <- nil }, OnError: func(err error) { ended <- err }})
	}()
	for i := 0; i < 3; i++ {
		err, _, timely := kit.Recv(ended)
		if !timely {
			x.t.Fatal("a call of a closed instance does not end", "%d\n%s", i, kit.Stacks())
		}
		if err == nil {
			x.t.Violate("a call of a closed instance succeeds", "%d", i)
		}
		kit.Count("calls after close", 1)
	}
}

// --- calls of the host ---

func (x *rig) newCall(lane, seq uint32) *call {
	g := x.g
	g.mu.Lock()
	defer g.mu.Unlock()
	r := g.r
	x.id++
	c := &call{g: g, id: x.id, kind: uint16(tRR + r.IntN(4)), lane: lane, seq: seq, late: r.IntN(2) == 0, mode: r.IntN(3), done: make(chan bool), dropAt: -1}
	c.tag = c.id
	n := count(r)
	if c.kind == tRR {
		n = 1
	}
	c.out = genPlan(r, n)
	if c.kind == tRC {
		c.in = genPlan(r, count(r))
	}
	if c.kind != tRR && r.IntN(5) == 0 {
		c.dropAt = 1 + r.IntN(3)
	}
	c.req = item{md(opCall, make([]byte, r.IntN(3))...), append(binary.BigEndian.AppendUint64(nil, c.id), genItem(r).data...)}
	g.calls[c.id] = c
	return c
}

// tag is the key of what a context carries.
type tag struct{}

// nest is a call that the host makes to answer one.
func (x *rig) nest(ctx context.Context, b *gcall) *call {
	c := x.newCall(0, 0)
	g := x.g
	g.mu.Lock()
	defer g.mu.Unlock()
	c.kind, c.out, c.in, c.mode, c.dropAt = b.kind, b.out, b.in, 0, -1
	c.lane = 1<<31 + uint32(c.id)
	c.seq = 1
	c.tag = ctx.Value(tag{})
	b.nested = c
	return c
}

// ask has a handler call the guest and wait for its answer.
func (x *rig) ask(b *gcall) {
	if b == nil || x.g.hostile || b.id%3 != 0 {
		return
	}
	x.asking.Add(1)
	defer x.asking.Add(-1)
	c := x.newCall(0, 0)
	x.g.mu.Lock()
	c.kind, c.in, c.mode, c.dropAt = tRR, plan{}, 0, -1
	c.out = genPlan(x.g.r, 1)
	c.lane = 1<<31 + uint32(c.id)
	c.seq = 1
	r := rand.New(rand.NewPCG(x.g.r.Uint64(), 4))
	x.g.mu.Unlock()
	c.run(x.inst, r)
	<-c.done
	kit.Count("handlers that waited for the guest", 1)
}

func (c *call) want() plan {
	if c.kind == tRC {
		switch c.mode {
		case 0:
			return c.in
		case 1:
			if c.in.fail != "" {
				return plan{nil, c.in.fail}
			}
			return plan{[]item{{nil, []byte(fmt.Sprint(len(c.in.items)))}}, ""}
		}
	}
	if c.kind == tRR && c.out.fail != "" {
		return plan{nil, c.out.fail}
	}
	return c.out
}

func (c *call) element(p payload.Payload, cancel func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	w := c.want()
	if c.ended > 0 || c.dropped {
		c.g.t.Violate("an element after the end", "%v: dropped %v", c, c.dropped)
		return
	}
	if c.got >= len(w.items) || !w.items[c.got].is(p.Metadata(), p.Data()) {
		c.g.t.Violate("an element is wrong", "%v: %d of %d: %x %x", c, c.got, len(w.items), p.Metadata(), p.Data())
		return
	}
	c.got++
	kit.Count("elements at the host", 1)
	if c.got == c.dropAt && cancel != nil {
		c.dropped = true
		kit.Count("cancels of the host", 1)
		cancel()
		close(c.done)
	}
}

func (c *call) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ended++
	if c.ended > 1 || c.dropped {
		c.g.t.Violate("a call ends twice", "%v: %v, dropped %v", c, err, c.dropped)
		return
	}
	c.err = err
	w := c.want()
	switch {
	case err != nil && (w.fail != err.Error() || c.got != len(w.items)):
		if !c.g.broken() || c.g.closed.Load() && !strings.Contains(err.Error(), "clos") && !strings.Contains(err.Error(), "trap") {
			c.g.t.Violate("a call fails", "%v: after %d elements: %v", c, c.got, err)
		}
		kit.Count("calls that a trap or close ended", 1)
	case err == nil && (w.fail != "" || c.got != len(w.items)):
		c.g.t.Violate("a call ends early", "%v: after %d of %d elements, fail %q", c, c.got, len(w.items), w.fail)
	default:
		kit.Count("calls answered", 1)
	}
	close(c.done)
}

// source is the input of a channel.
func (c *call) source(r *rand.Rand) flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		var mu sync.Mutex
		demand, i, busy, stopped := 0, 0, false, false
		run := func() {
			mu.Lock()
			if busy {
				mu.Unlock()
				return
			}
			busy = true
			for demand > 0 && i < len(c.in.items) && !stopped {
				demand--
				it := c.in.items[i]
				i++
				mu.Unlock()
				sink.Next(payload.New(append([]byte(nil), it.data...), append([]byte(nil), it.md...)))
				mu.Lock()
			}
			end := i == len(c.in.items) && !stopped
			if end {
				stopped = true
			}
			busy = false
			mu.Unlock()
			if end {
				if c.in.fail != "" {
					sink.Error(errors.New(c.in.fail))
				} else {
					sink.Complete()
				}
			}
		}
		async := r.IntN(2) == 0
		push := r.IntN(3) == 0 // emits without being asked
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				mu.Lock()
				demand += n
				mu.Unlock()
				if async {
					go run()
				} else {
					run()
				}
			},
			Cancel: func() { mu.Lock(); stopped = true; mu.Unlock() },
		})
		if push {
			mu.Lock()
			demand = 1 << 40
			mu.Unlock()
			kit.Count("sources that ignore demand", 1)
		}
		if push && async {
			go run()
		} else if push || len(c.in.items) == 0 {
			run()
		}
	})
}

// run makes the call.
func (c *call) run(inst *host.Instance, r *rand.Rand) {
	ctx := context.WithValue(context.Background(), tag{}, c.tag)
	p := payload.New(append([]byte(nil), c.req.data...), append([]byte(nil), c.req.md...))
	kit.Count("calls of the host", 1)
	step := 1 + r.IntN(5)
	if r.IntN(4) == 0 {
		step = rx.RequestMax
	}
	var sub rx.Subscription
	s := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { c.element(p, func() { sub.Cancel() }) },
		OnComplete: func() { c.end(nil) },
		OnError:    c.end,
		OnRequest:  func(s rx.Subscription) { sub = s; s.Request(step) },
	}
	switch c.kind {
	case tRR:
		inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { c.element(p, nil); c.end(nil) },
			OnError:   c.end,
		})
	case tFNF:
		inst.FireAndForget(ctx, p)
		close(c.done)
	case tRS:
		inst.RequestStream(ctx, p).Subscribe(s)
	case tRC:
		inst.RequestChannel(ctx, p, c.source(rand.New(rand.NewPCG(r.Uint64(), 3)))).Subscribe(s)
	}
}

// --- calls of the guest ---

func (x *rig) newBack() {
	g := x.g
	g.mu.Lock()
	defer g.mu.Unlock()
	r := g.r
	x.id++
	c := &gcall{g: g, id: x.id, kind: uint16(tRR + r.IntN(4)), mode: []int{0, 1, 1, 2, 3}[r.IntN(5)], done: make(chan bool), step: uint32(1 + r.IntN(5)), dropAt: -1}
	if r.IntN(4) == 0 {
		c.step = 1<<31 - 1
	}
	n := count(r)
	if c.kind == tRR {
		n = 1
	}
	c.out = genPlan(r, n)
	if c.kind == tRC {
		c.in = genPlan(r, count(r))
	}
	if r.IntN(5) == 0 {
		c.dropAt = 1 + r.IntN(3)
	}
	idx := uint32(opBack)
	if c.mode == 3 {
		idx = opNone + uint32(r.IntN(100))
	}
	c.req = item{md(idx, make([]byte, r.IntN(3))...), append(binary.BigEndian.AppendUint64(nil, c.id), genItem(r).data...)}
	g.gcalls[c.id] = c
	g.toStart = append(g.toStart, c)
}

func (x *rig) arrive(ctx context.Context, kind uint16, p payload.Payload) *gcall {
	if len(p.Data()) < 8 {
		if !x.g.hostile {
			x.t.Violate("a call of the guest arrives changed", "%x", p.Data())
		}
		return nil
	}
	g := x.g
	g.mu.Lock()
	c := g.gcalls[binary.BigEndian.Uint64(p.Data())]
	g.mu.Unlock()
	if c == nil || c.kind != kind || !c.req.is(p.Metadata(), p.Data()) {
		if !g.hostile {
			x.t.Violate("a call of the guest arrives changed", "%v: type %d %x %x", c, kind, p.Metadata(), p.Data())
		}
		return nil
	}
	if c.runs.Add(1) > 1 && !g.hostile {
		x.t.Violate("a handler runs twice", "%v", c)
	}
	kit.Count("handlers run", 1)
	x.belongs(ctx, c)
	return c
}

// belongs judges the context of a handler: that of the call that the guest
// named, if it has not ended, and never that of another one.
func (x *rig) belongs(ctx context.Context, c *gcall) {
	g := x.g
	g.mu.Lock()
	defer g.mu.Unlock()
	has := ctx.Value(tag{})
	p := c.parent
	switch {
	case g.hostile:
	case p == nil && has != nil, p != nil && has != nil && has != p.tag:
		x.t.Violate("a handler runs in the context of another call", "%v: of %v, belongs to %v", c, has, p)
	case p != nil && p.active() && !g.broken() && has != p.tag:
		x.t.Violate("a handler does not run in the context of its call", "%v: of %v, belongs to %v", c, has, p)
	case has != nil:
		kit.Count("handlers in the context of a call", 1)
	}
}

var errOdd = errors.New("odd request")

func (i item) payload() payload.Payload {
	return payload.New(append([]byte(nil), i.data...), append([]byte(nil), i.md...))
}

func later(id uint64, f func()) {
	go func() {
		time.Sleep(time.Duration(id%7) * 30 * time.Microsecond)
		f()
	}()
}

func (x *rig) rr(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	c := x.arrive(ctx, tRR, p)
	x.ask(c)
	switch {
	case c == nil:
		return mono.Error[payload.Payload](errOdd)
	case c.mode == 1:
		pr := mono.NewProcessor[payload.Payload]()
		later(c.id, func() {
			if c.out.fail != "" {
				pr.Error(errors.New(c.out.fail))
			} else {
				pr.Success(c.out.items[0].payload())
			}
		})
		return pr
	case c.mode == 2:
		n := x.nest(ctx, c)
		return x.inst.RequestResponse(ctx, n.req.payload())
	case c.out.fail != "":
		return mono.Error[payload.Payload](errors.New(c.out.fail))
	}
	return mono.Just[payload.Payload](c.out.items[0].payload())
}

func (x *rig) fnf(ctx context.Context, p payload.Payload) { x.ask(x.arrive(ctx, tFNF, p)) }

func (x *rig) rs(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	c := x.arrive(ctx, tRS, p)
	x.ask(c)
	switch {
	case c == nil:
		return flux.Error[payload.Payload](errOdd)
	case c.mode == 2:
		n := x.nest(ctx, c)
		return x.inst.RequestStream(ctx, n.req.payload())
	}
	out := &call{g: x.g, in: c.out} // its source emits the answer
	return out.source(rand.New(rand.NewPCG(c.id, uint64(c.mode))))
}

func (x *rig) rc(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	c := x.arrive(ctx, tRC, p)
	x.ask(c)
	if c == nil {
		return flux.Error[payload.Payload](errOdd)
	}
	echo := flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	if c.mode == 2 {
		n := x.nest(ctx, c)
		return x.inst.RequestChannel(ctx, n.req.payload(), echo)
	}
	return echo
}

// --- scenarios ---

type options struct {
	callers, calls, backs int
	slow                  bool // the guest takes its time
	trap                  bool
	close                 bool // in the middle
}

func exchange(t *kit.T, o options) {
	var trapAt, trapEvery int
	r := t.Rand
	x := newRig(t, func(g *guest) {
		if o.slow {
			var n atomic.Int64
			g.delay = func() {
				if n.Add(1)%5 == 0 {
					time.Sleep(100 * time.Microsecond)
				}
			}
		}
		if o.trap {
			trapAt, trapEvery = 1+r.IntN(40), []int{0, 7, 50}[r.IntN(3)]
			g.onSend = func(context.Context, uint32) error {
				if g.sends == trapAt {
					trapAt += trapEvery
					kit.Count("traps", 1)
					if g.sends%2 == 0 {
						return errors.New("trap: unreachable")
					}
					g.trapped.Add(1)
					g.forget()
					panic("out of bounds")
				}
				return nil
			}
		}
	})
	var all []*call
	lanes := make([][]*call, 1+r.IntN(o.callers))
	for i := range lanes {
		for k := 0; k < 1+r.IntN(o.calls); k++ {
			c := x.newCall(uint32(i), uint32(k+1))
			lanes[i] = append(lanes[i], c)
			all = append(all, c)
		}
	}
	for k := r.IntN(o.backs + 1); k > 0; k-- {
		x.newBack()
	}
	var wg sync.WaitGroup
	for i, lane := range lanes {
		rr := rand.New(rand.NewPCG(r.Uint64(), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, c := range lane {
				c.run(x.inst, rr)
				if rr.IntN(3) == 0 {
					if _, _, timely := kit.Recv(c.done); !timely {
						return
					}
				}
			}
		}()
	}
	x.startTicks()
	if o.close {
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(rand.IntN(3000)) * time.Microsecond)
				x.g.closed.Store(true)
				x.inst.Close()
			}()
		}
	}
	made := make(chan bool)
	go func() { wg.Wait(); close(made) }()
	if _, _, timely := kit.Recv(made); !timely {
		t.Fatal("callers hang", "%s", kit.Stacks())
	}
	for _, c := range all {
		if _, _, timely := kit.Recv(c.done); !timely {
			x.g.mu.Lock()
			defer x.g.mu.Unlock()
			c.mu.Lock()
			defer c.mu.Unlock()
			x.g.violate("a call does not end", "%v: %d elements, arrived %d, over %v, credit %d, input %d of %d asked %d end %v, traps %d closed %v\n%s", c, c.got, c.arrived, c.over, c.credit, c.inGot, len(c.in.items), c.inAsked, c.inEnd, x.g.trapped.Load(), x.g.closed.Load(), kit.Stacks())
			panic(failed{})
		}
	}
	if !x.g.broken() {
		// The calls of the guest get their answers.
		var backs []*gcall
		x.g.mu.Lock()
		for _, c := range x.g.gcalls {
			backs = append(backs, c)
		}
		x.g.mu.Unlock()
		for _, c := range backs {
			ended := kit.Wait(func() bool {
				select {
				case <-c.done:
					return true
				default:
					return x.g.broken()
				}
			})
			if !ended {
				x.g.mu.Lock()
				defer x.g.mu.Unlock()
				x.g.violate("a call of the guest does not end", "%v: begun %v, runs %d, %d elements of %d asked, input %d of %d asked %d\n%s", c, c.begun, c.runs.Load(), c.seen, c.asked, c.inSent, len(c.in.items), c.inAsked, kit.Stacks())
				panic(failed{})
			}
		}
		if !kit.Wait(func() bool { return x.asking.Load() == 0 || x.g.broken() }) {
			t.Fatal("a handler waits for good", "%s", kit.Stacks())
		}
	}
	x.end()
	if !kit.Wait(func() bool { return x.asking.Load() == 0 }) {
		t.Fatal("a handler waits for good", "after the end: %s", kit.Stacks())
	}
	if !o.trap && !o.close {
		x.g.mu.Lock()
		for _, c := range all {
			if c.arrived != 1 {
				x.g.violate("a request is lost", "%v", c)
			}
		}
		for _, c := range x.g.gcalls {
			if c.mode != 3 && c.runs.Load() != 1 {
				x.g.violate("a handler did not run", "%v: %d times", c, c.runs.Load())
			}
		}
		x.g.mu.Unlock()
	}
	h := fnv.New64a()
	x.g.mu.Lock()
	fmt.Fprint(h, x.g.log)
	x.g.mu.Unlock()
	t.CaseHash(h.Sum64(), true)
}

type failed struct{}

func guarded(f func(*kit.T)) func(*kit.T) {
	return func(t *kit.T) {
		defer func() {
			if v := recover(); v != nil {
				if _, is := v.(failed); !is {
					panic(v)
				}
			}
		}()
		f(t)
	}
}

func loop(quick, thorough int, o options) func(*kit.T) {
	return guarded(func(t *kit.T) {
		for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
			exchange(t, o)
		}
	})
}

func repeat(quick, thorough int, f func(*kit.T)) func(*kit.T) {
	return guarded(func(t *kit.T) {
		for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
			f(t)
		}
	})
}

func main() {
	var err error
	room, err = wasmkit.NewRoom(context.Background())
	if err != nil {
		panic(err)
	}
	y := []int{0, 30}
	kit.Main(kit.Config{
		Property: "P31",
		Rule: "Real instances of the host run guests that are written in Go and live in real wazero modules (their exports call the Go code; what they call are the host's own functions). " +
			"A model of the guest checks every frame of the host, answers and makes calls of its own; the host's callbacks and handlers check what arrives. " +
			"A call must end exactly once with the guest's answer, or with an error after a trap or a close; nothing may crash, hang, race or be left running.",
		Assumptions: []string{"a guest is Go code behind the api.Module that NewInstance is given, so a trap is an error or a panic of its exports; compiled guests are run by P33", "Close waits for the requests of the guest that are still being handled"},
		Scenarios: []kit.Scenario{
			{Name: "calls", Yields: y, Run: loop(150, 3000, options{callers: 4, calls: 8, backs: 10})},
			{Name: "slow guest", Yields: y, Run: loop(60, 1500, options{callers: 8, calls: 40, backs: 40, slow: true})},
			{Name: "traps", Yields: y, Run: loop(150, 3000, options{callers: 4, calls: 8, backs: 10, trap: true})},
			{Name: "close", Yields: y, Run: loop(150, 3000, options{callers: 4, calls: 8, backs: 10, close: true})},
			{Name: "calls from failures", Yields: y, Run: repeat(12, 200, storm)},
			{Name: "hostile guest", Yields: y, Run: repeat(120, 3000, hostileGuest)},
			{Name: "sizes", Yields: y, Run: repeat(20, 300, oversized)},
			{Name: "starts", Yields: []int{0}, Run: repeat(3, 20, starts)},
		},
	})
}
