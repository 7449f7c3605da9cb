//go:build go1.22

package rpckit

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifh/kit"
)

// Ways in which a producer emits.
const (
	PushSync  = iota // everything while it is being subscribed
	Slice            // flux.FromSlice
	Demand           // when asked, on the goroutine that asks
	Async            // when asked, on its own goroutine
	Processor        // a processor, fed when asked
	PushAsync        // everything, on its own goroutine
	Mapped           // Demand behind a transform
	Late             // like Async, and comes to know its subscriber later
	ProdModes
)

// ErrTexts are texts of errors that have to survive the wire.
var ErrTexts = []string{"", "boom", "not_found", "Ünïcode – ошибка 💥", "line\nbreak\x00zero", strings.Repeat("long ", 3000)}

// Prod is a monitored source of elements.
type Prod struct {
	T     *kit.T
	Name  string
	Seed  uint64
	N     int  // number of elements
	Big   bool // some elements are large
	Mode  int
	Fail  bool // ends with an error
	Text  string
	Hang  bool // does not end on its own
	Lazy  bool // with no elements: ends when asked, not before
	Limit func() int64

	Asked      atomic.Int64 // in total
	Emitted    atomic.Int64
	Cancels    atomic.Int32
	LateAsks   atomic.Int32 // requests that began after the cancel
	Subscribed atomic.Int32
	Ended      atomic.Bool
	stop       atomic.Bool

	mu     sync.Mutex
	cond   *sync.Cond
	credit int64
	idx    int
}

// NewProd draws a producer. Respect excludes those that ignore demand.
func NewProd(t *kit.T, r *rand.Rand, n int, respect bool) *Prod {
	p := &Prod{T: t, Seed: r.Uint64(), N: n, Lazy: r.IntN(2) == 0, Big: r.IntN(8) == 0}
	for {
		p.Mode = r.IntN(ProdModes)
		if !respect || (p.Mode != PushSync && p.Mode != PushAsync) {
			break
		}
	}
	if p.Mode != Slice && r.IntN(4) == 0 {
		p.Fail = true
		p.Text = ErrTexts[r.IntN(len(ErrTexts))]
	}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *Prod) String() string {
	s := fmt.Sprintf("%s(%d elements, mode %d", p.Name, p.N, p.Mode)
	if p.Fail {
		s += ", error"
	}
	if p.Hang {
		s += ", no end"
	}
	return s + ")"
}

// Status tells what was observed so far.
func (p *Prod) Status() string {
	return fmt.Sprintf("%v: subscribed %d, asked for %d, emitted %d, ended %v, cancels %d", p, p.Subscribed.Load(), p.Asked.Load(), p.Emitted.Load(), p.Ended.Load(), p.Cancels.Load())
}

// Elem is element i.
func (p *Prod) Elem(i int) payload.Payload {
	s := p.Seed + uint64(i)*7919
	n, m := int(s>>7%60), int(s>>17%9)-2
	if p.Big && i%7 == 3 {
		n = 3000 + int(s>>9%70000)
	}
	if p.Big && i%14 == 5 {
		m = 65500 + int(s>>11%100)
	}
	return Blob(s, n, m)
}

// counted is a processor that tells when it is subscribed.
type counted struct {
	flux.Processor[payload.Payload]
	once func()
}

func (c *counted) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
	c.once()
	return c.Processor.Subscribe(sub)
}

func (p *Prod) asked(n int) {
	if p.Cancels.Load() > 0 {
		if p.LateAsks.Add(1) > 1 {
			p.T.Violate("producer is asked after its cancellation", "%s", p.Status())
		}
	}
	if n <= 0 {
		p.T.Violate("producer is asked for nothing", "%d: %s", n, p.Status())
	}
	a := p.Asked.Add(int64(n))
	if p.Limit != nil {
		if l := p.Limit(); a > l {
			p.T.Violate("producer is asked for more than was requested", "asked for %d, requested %d: %s", a, l, p.Status())
		}
	}
	kit.Count("times a producer was asked", 1)
}

func (p *Prod) cancelled() {
	p.stop.Store(true)
	if p.Cancels.Add(1) > 1 {
		p.T.Violate("producer is cancelled twice", "%s", p.Status())
	}
	if p.cond != nil {
		p.mu.Lock()
		p.cond.Broadcast()
		p.mu.Unlock()
	}
	kit.Count("producers cancelled", 1)
}

func (p *Prod) end(s flux.Sink[payload.Payload]) {
	if p.Hang || p.Ended.Swap(true) {
		return
	}
	if p.Fail {
		s.Error(errors.New(p.Text))
		s.Complete() // too late
	} else {
		s.Complete()
		s.Error(errors.New("too late"))
	}
	s.Next(payload.New([]byte("too late")))
}

// emit sends up to n elements and the end.
func (p *Prod) emit(s flux.Sink[payload.Payload], n int) {
	for k := 0; k < n && !p.stop.Load(); k++ {
		if p.idx >= p.N {
			break
		}
		i := p.idx
		p.idx++
		if p.Emitted.Add(1) > 2000 {
			time.Sleep(100 * time.Microsecond)
		}
		s.Next(p.Elem(i))
	}
	if p.idx >= p.N && !p.stop.Load() {
		p.end(s)
	}
}

// Flux is the source. It serves one subscriber.
func (p *Prod) Flux() flux.Flux[payload.Payload] {
	once := func() {
		if p.Subscribed.Add(1) > 1 {
			p.T.Violate("source subscribed twice", "%s", p.Status())
		}
	}
	switch p.Mode {
	case Slice:
		es := make([]payload.Payload, p.N)
		for i := range es {
			es[i] = p.Elem(i)
		}
		p.Subscribed.Add(1)
		if p.Seed&1 == 0 {
			return flux.Create(func(s flux.Sink[payload.Payload]) {
				s.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(s, es)})
			})
		}
		return flux.FromSlice(es)
	case PushSync:
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			once()
			s.OnSubscribe(flux.OnSubscribe{Cancel: p.cancelled})
			p.emit(s, p.N+1)
		})
	case PushAsync:
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			once()
			s.OnSubscribe(flux.OnSubscribe{Cancel: p.cancelled})
			go p.emit(s, p.N+1)
		})
	case Demand, Mapped:
		f := flux.Create(func(s flux.Sink[payload.Payload]) {
			once()
			s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				p.asked(n)
				p.emit(s, n)
			}, Cancel: p.cancelled})
			if p.N == 0 && !p.Lazy {
				p.end(s)
			}
		})
		if p.Mode == Mapped {
			return flux.Map(f, func(x payload.Payload) (payload.Payload, error) { return payload.New(x.Data(), x.Metadata()), nil })
		}
		return f
	case Processor:
		pr := flux.NewProcessor[payload.Payload]()
		pr.OnSubscribe(p.hooks())
		go p.feed(pr)
		return &counted{pr, once}
	case Late:
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			once()
			go func() {
				time.Sleep(time.Duration(p.Seed%4) * time.Millisecond)
				s.OnSubscribe(p.hooks())
				p.feed(s)
			}()
		})
	default:
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			once()
			s.OnSubscribe(p.hooks())
			go p.feed(s)
		})
	}
}

func (p *Prod) hooks() flux.OnSubscribe {
	return flux.OnSubscribe{Request: func(n int) {
		p.asked(n)
		p.mu.Lock()
		p.credit += int64(n)
		p.cond.Broadcast()
		p.mu.Unlock()
	}, Cancel: p.cancelled}
}

// feed emits as demanded until the end or the cancellation.
func (p *Prod) feed(s flux.Sink[payload.Payload]) {
	for {
		p.mu.Lock()
		for p.credit == 0 && !p.stop.Load() && (p.idx < p.N || p.Hang || (p.N == 0 && p.Lazy)) {
			p.cond.Wait()
		}
		c := p.credit
		if p.idx >= p.N {
			c = 1
		}
		p.credit = 0
		p.mu.Unlock()
		if p.stop.Load() {
			return
		}
		if c > int64(p.N) {
			c = int64(p.N) + 1
		}
		p.emit(s, int(c))
		if p.Ended.Load() {
			return
		}
		if p.idx >= p.N && p.Hang {
			p.mu.Lock()
			for !p.stop.Load() {
				p.cond.Wait()
			}
			p.mu.Unlock()
			return
		}
	}
}

// Quit ends the goroutines of a producer that nobody ends.
func (p *Prod) Quit() {
	p.stop.Store(true)
	p.mu.Lock()
	p.cond.Broadcast()
	p.mu.Unlock()
}

// Ways in which a consumer requests.
const (
	Unbounded = iota
	Batches   // the same number whenever the demand is used up
	Varying   // another number each time
	Nested    // one, and one more for each element
	External  // from other goroutines, in any portions
	Huge      // more than fits into 31 bits
	Blocking  // Block
	ThroughMap
	ConsModes
)

// Cons is a monitored subscriber.
type Cons struct {
	T    *kit.T
	Name string
	Src  *Prod // what is to arrive
	Mode int
	K    int
	Plan atomic.Int64 // demand to request in total, 0: no limit

	ForeignEnd bool // may be ended by something else than its source
	CancelAt   int  // cancels inside OnNext of this element; -1: does not

	Requested, Received       atomic.Int64
	Completes, Errors, Finals atomic.Int32
	err                       atomic.Value // string
	Signal                    rx.SignalType
	Cancelled                 atomic.Bool // Cancel is about to be called
	cancelDone                atomic.Bool // Cancel has returned
	Late                      atomic.Int32
	Done                      chan struct{} // closed by the final callback
	OnElem                    func(i int)
	busy                      atomic.Int32
	r                         *rand.Rand
	rmu                       sync.Mutex
	sub                       func() rx.Subscription
	quit                      chan struct{}
	quitOnce                  sync.Once
}

// NewCons draws a consumer of what a producer emits.
func NewCons(t *kit.T, r *rand.Rand, src *Prod) *Cons {
	c := &Cons{T: t, Src: src, Mode: r.IntN(ConsModes), K: 1 + r.IntN(1<<r.IntN(7)), CancelAt: -1, Done: make(chan struct{}), quit: make(chan struct{})}
	c.r = rand.New(rand.NewPCG(r.Uint64(), 9))
	return c
}

func (c *Cons) String() string { return fmt.Sprintf("%s(mode %d, %d)", c.Name, c.Mode, c.K) }

// Status tells what was observed so far.
func (c *Cons) Status() string {
	return fmt.Sprintf("%v: requested %d, received %d, %d complete, %d errors (%v), %d final; from %s", c, c.Requested.Load(), c.Received.Load(), c.Completes.Load(), c.Errors.Load(), c.err.Load(), c.Finals.Load(), c.Src.Status())
}

func (c *Cons) rnd(n int) int {
	c.rmu.Lock()
	defer c.rmu.Unlock()
	return c.r.IntN(n)
}

// allow takes up to n from the plan.
func (c *Cons) allow(n int64) int64 {
	if c.Plan.Load() == 0 {
		c.Requested.Add(n)
		return n
	}
	for {
		q := c.Requested.Load()
		k := min(n, c.Plan.Load()-q)
		if k <= 0 {
			return 0
		}
		if c.Requested.CompareAndSwap(q, q+k) {
			return k
		}
	}
}

// More raises the plan and requests as much.
func (c *Cons) More(n int64, portions int) {
	c.Plan.Add(n)
	for i := 1; i < portions; i++ {
		if k := int64(c.rnd(int(min(n, 1<<20)) + 1)); k > 0 {
			c.Ask(k)
		}
	}
	c.Ask(n)
}

// Ask requests n more from any goroutine.
func (c *Cons) Ask(n int64) {
	if k := c.allow(n); k > 0 {
		if s := c.sub(); s != nil {
			s.Request(int(k))
		}
	}
}

func (c *Cons) next(p payload.Payload) {
	if c.busy.Add(1) != 1 {
		c.T.Violate("elements overlap", "%s", c.Status())
	}
	defer c.busy.Add(-1)
	i := c.Received.Add(1) - 1
	if c.Completes.Load()+c.Errors.Load() > 0 || (c.Finals.Load() > 0 && !c.Cancelled.Load()) {
		c.T.Violate("element after the end", "element %d %s: %s", i, Show(p), c.Status())
		return
	}
	if c.cancelDone.Load() || c.Finals.Load() > 0 {
		// One may have been on its way when another goroutine cancelled.
		if l := c.Late.Add(1); l > 1 || c.CancelAt >= 0 {
			c.T.Violate("element after the cancellation", "element %d %s: %s", i, Show(p), c.Status())
		}
	}
	if i >= int64(c.Src.N) {
		c.T.Violate("more elements than were emitted", "element %d %s: %s", i, Show(p), c.Status())
		return
	}
	if w := c.Src.Elem(int(i)); !Same(p, w) {
		c.T.Violate("element is lost, repeated, reordered or changed", "element %d is %s, emitted %s: %s", i, Show(p), Show(w), c.Status())
		return
	}
	if i+1 > c.Requested.Load() {
		c.T.Violate("received more than requested", "%s", c.Status())
	}
	kit.Count("elements received", 1)
	if c.OnElem != nil {
		c.OnElem(int(i))
	}
	if int(i) == c.CancelAt {
		c.Cancel()
		return
	}
	if c.Mode == Nested {
		c.Ask(1)
	}
}

func (c *Cons) terminal(n *atomic.Int32, err error) {
	if c.busy.Load() != 0 && !c.Cancelled.Load() {
		c.T.Violate("end overlaps an element", "%s", c.Status())
	}
	if err != nil {
		c.err.Store(err.Error())
	}
	n.Add(1)
	if e := c.Completes.Load() + c.Errors.Load(); e > 1 || c.Finals.Load() > 0 {
		c.T.Violate("several ends", "%s", c.Status())
	}
	if c.cancelDone.Load() && c.CancelAt >= 0 {
		c.T.Violate("end after the cancellation", "%s", c.Status())
	}
}

// Subscribe consumes f.
func (c *Cons) Subscribe(f flux.Flux[payload.Payload]) {
	if c.Mode == ThroughMap {
		f = flux.Map(f, func(x payload.Payload) (payload.Payload, error) { return x, nil })
	}
	c.sub = f.Subscription
	s := flux.Subscribe[payload.Payload]{
		OnNext:     c.next,
		OnComplete: func() { c.terminal(&c.Completes, nil) },
		OnError:    func(err error) { c.terminal(&c.Errors, err) },
		Finally: func(sig rx.SignalType) {
			c.Signal = sig
			if c.Finals.Add(1) > 1 {
				c.T.Violate("several ends", "%s", c.Status())
				return
			}
			close(c.Done)
		},
	}
	by := func(n func() int64) {
		s.OnRequest = func(sub rx.Subscription) {
			if k := c.allow(n()); k > 0 {
				sub.Request(int(k))
			}
		}
	}
	switch c.Mode {
	case Unbounded, Blocking, ThroughMap:
		if c.Plan.Load() == 0 {
			c.Requested.Store(1 << 60)
		} else {
			by(c.Plan.Load)
		}
	case Batches:
		by(func() int64 { return int64(c.K) })
	case Varying:
		by(func() int64 { return 1 + int64(c.rnd(2*c.K)) })
	case Huge:
		if c.Plan.Load() == 0 {
			by(func() int64 { return []int64{1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1<<62 - 1}[c.rnd(5)] })
		} else {
			by(func() int64 { return 1 << 40 })
		}
	case Nested, External:
		s.NoRequest = true
	}
	if c.Mode == Blocking {
		go func() {
			err := f.Block(s)
			if c.Completes.Load() > 0 && err != nil {
				c.T.Violate("Block of a completed stream", "%v: %s", err, c.Status())
			}
			if c.Errors.Load() > 0 && err == nil {
				c.T.Violate("Block of a failed stream", "%s", c.Status())
			}
		}()
		return
	}
	f.Subscribe(s)
	switch c.Mode {
	case Nested:
		c.Ask(1)
	case External:
		for g := 0; g < 1+c.K%2; g++ {
			go func() {
				for {
					select {
					case <-c.Done:
						return
					case <-c.quit:
						return
					default:
					}
					// Stay ahead of what was received, by little.
					if c.Requested.Load()-c.Received.Load() < 8 {
						c.Ask(1 + int64(c.rnd(c.K)))
						if c.rnd(4) == 0 {
							runtime.Gosched()
						}
					} else {
						runtime.Gosched()
					}
					if p := c.Plan.Load(); p > 0 && c.Requested.Load() >= p {
						return
					}
				}
			}()
		}
	}
}

// Cancel cancels the subscription.
func (c *Cons) Cancel() {
	c.Cancelled.Store(true)
	if s := c.sub(); s != nil {
		s.Cancel()
	}
	c.cancelDone.Store(true)
	kit.Count("cancellations", 1)
}

// Quit ends the goroutines of a consumer that nobody ends.
func (c *Cons) Quit() { c.quitOnce.Do(func() { close(c.quit) }) }

// Wait waits for the final callback.
func (c *Cons) Wait() bool {
	if _, _, timely := kit.Recv(c.Done); !timely {
		c.T.Violate("stream does not end", "%s\n%s", c.Status(), kit.Stacks())
		c.Quit()
		return false
	}
	return true
}

// Stopped tells whether a producer that somebody cancelled is done.
func (p *Prod) Stopped() bool {
	return p.Mode == Slice || p.Subscribed.Load() == 0 || p.Cancels.Load() == 1 || p.Ended.Load()
}

// CheckWhole checks a stream that ran to its own end.
func (c *Cons) CheckWhole() bool {
	ok := c.Finals.Load() == 1 && int(c.Received.Load()) == c.Src.N
	if c.Src.Fail {
		ok = ok && c.Errors.Load() == 1 && c.Completes.Load() == 0 && c.err.Load() == c.Src.Text && c.Signal == rx.SignalError
	} else {
		ok = ok && c.Errors.Load() == 0 && c.Completes.Load() == 1 && c.Signal == rx.SignalComplete
	}
	if !ok {
		c.T.Violate("outcome of a stream", "signal %v: %s", c.Signal, c.Status())
	}
	return ok
}

// CheckPrefix checks a stream that was cancelled or lost.
func (c *Cons) CheckPrefix(what string) bool {
	if c.Finals.Load() != 1 || c.Completes.Load()+c.Errors.Load() > 1 {
		c.T.Violate("ends of a stream", "%s: %s", what, c.Status())
		return false
	}
	return true
}

// CheckWire checks what one end of a connection saw: the frames of each
// stream follow the protocol. With demand set, elements stay within the demand
// that this end had sent or received before them.
func CheckWire(t *kit.T, name string, evs []Ev, demand bool) {
	type dir struct {
		next, comp, errs, cancels int
		demand                    uint64 // granted to this direction
	}
	type stream struct {
		kind int
		own  bool // requested by this end
		req  dir  // sent by the requester
		res  dir  // sent by the responder
	}
	m := map[uint32]*stream{}
	bad := func(sig string, e Ev, s *stream) {
		if s == nil {
			t.Violate("wire: "+sig, "%s: %+v", name, e)
			return
		}
		t.Violate("wire: "+sig, "%s: %+v; requester %+v, responder %+v", name, e, s.req, s.res)
	}
	for _, e := range evs {
		if e.Stream == 0 {
			continue
		}
		s := m[e.Stream]
		switch e.Type {
		case 4, 5, 6, 7:
			if s != nil {
				bad("stream is requested twice", e, s)
				continue
			}
			s = &stream{kind: e.Type, own: e.Out}
			switch e.Type {
			case 4:
				s.res.demand = 1
			case 6, 7:
				s.res.demand = uint64(e.N)
				if e.N == 0 || e.N > 1<<31-1 {
					bad("initial demand", e, s)
				}
			}
			m[e.Stream] = s
			continue
		}
		if s == nil {
			bad("frame without a request", e, s)
			continue
		}
		d, o := &s.res, &s.req
		if e.Out == s.own {
			d, o = o, d
		}
		fromReq := e.Out == s.own
		switch e.Type {
		case 8: // request-n
			if e.N == 0 || e.N > 1<<31-1 {
				bad("demand", e, s)
			}
			o.demand += uint64(e.N)
			if s.kind == 4 || s.kind == 5 || (s.kind == 6 && !fromReq) {
				bad("demand out of place", e, s)
			}
		case 9: // cancel
			d.cancels++
			if d.cancels > 1 {
				bad("cancelled twice", e, s)
			}
			if s.kind == 5 || (s.kind == 6 && !fromReq) {
				bad("cancel out of place", e, s)
			}
		case 10:
			if s.kind == 5 || (fromReq && s.kind != 7) {
				bad("payload out of place", e, s)
				continue
			}
			if d.comp+d.errs > 0 {
				bad("frame after the end", e, s)
			}
			if e.Next {
				d.next++
				if demand && uint64(d.next) > d.demand {
					bad("more elements than demanded", e, s)
				}
			}
			if e.Complete {
				d.comp++
			}
		case 11:
			if s.kind == 5 || (fromReq && s.kind != 7) {
				bad("error out of place", e, s)
				continue
			}
			if d.comp+d.errs > 0 {
				bad("frame after the end", e, s)
			}
			d.errs++
		default:
			bad("unknown frame", e, s)
		}
	}
	kit.Count("frames seen on the wire", int64(len(evs)))
	kit.Count("streams seen on the wire", int64(len(m)))
}
