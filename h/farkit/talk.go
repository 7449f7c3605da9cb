//go:build go1.22

package farkit

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// ways the handler of a channel deals with its input.
const (
	both = iota
	echo
	afterwards
	ignore
	modes
)

// local is the end of a stream that runs on the library.
type local struct {
	t    *kit.T
	x    *peer
	s    *stream
	c    *rpckit.Call
	mode int

	out, in       *rpckit.Prod // sources of the library's end
	cons, inCons  *rpckit.Cons // its consumers
	ends, replies atomic.Int32
	reply         atomic.Value
	ended         chan bool
}

func (l *local) String() string {
	l.x.mu.Lock()
	defer l.x.mu.Unlock()
	s := l.s.String()
	for _, c := range []*rpckit.Cons{l.cons, l.inCons} {
		if c != nil {
			s += "; " + c.Status()
		}
	}
	for _, p := range []*rpckit.Prod{l.out, l.in} {
		if p != nil {
			s += "; " + p.Status()
		}
	}
	return fmt.Sprintf("%s; handling %d, runs %d", s, l.mode, l.c.Runs.Load())
}

// what the foreign peer emits.
func foreign(t *kit.T, r *rand.Rand, n int) *rpckit.Prod {
	p := rpckit.NewProd(t, r, n, false)
	p.Mode = rpckit.Demand
	p.Name = "foreign peer"
	p.Fail = r.IntN(4) == 0
	p.Text = rpckit.ErrTexts[r.IntN(len(rpckit.ErrTexts))]
	return p
}

func size(r *rand.Rand) int { return r.IntN(1 << r.IntN(7)) }

// draw makes a request of one end to the other.
func draw(t *kit.T, r *rand.Rand, x *peer, kinds []int, own bool) *local {
	kind := kinds[r.IntN(len(kinds))]
	s := &stream{kind: kind, own: own, cancelAt: -1, lowWater: r.IntN(20)}
	l := &local{t: t, x: x, s: s, ended: make(chan bool, 1)}
	l.c = rpckit.NewCall(r, kind, size(r), r.IntN(2)*size(r))
	s.data, s.extra = l.c.Data, l.c.Extra
	one := func(p *rpckit.Prod) *rpckit.Prod {
		p.N = 1
		if p.Fail {
			p.N = 0
		}
		return p
	}
	granted := func() int64 {
		x.mu.Lock()
		defer x.mu.Unlock()
		return s.granted
	}
	switch {
	case kind == rpckit.FNF:
	case own && kind == rpckit.RR:
		p := one(foreign(t, r, 1))
		s.recv = p
		later := r.IntN(2) == 0
		l.c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
			if later {
				return mono.Create(func(k mono.Sink[payload.Payload]) {
					go func() {
						if p.Fail {
							k.Error(errors.New(p.Text))
						} else {
							k.Success(p.Elem(0))
						}
					}()
				})
			}
			if p.Fail {
				return mono.Error[payload.Payload](errors.New(p.Text))
			}
			return mono.Just(p.Elem(0))
		}
	case kind == rpckit.RR:
		s.send = one(foreign(t, r, 1))
		if !s.send.Fail && r.IntN(8) == 0 {
			s.send.N = 0 // no reply
		}
	case own:
		l.out = rpckit.NewProd(t, r, size(r), false)
		l.out.Name = "handler"
		l.out.Limit = granted
		s.recv = l.out
		if kind == rpckit.RS {
			l.c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return l.out.Flux() }
		} else {
			s.send = foreign(t, r, size(r))
			l.mode = r.IntN(modes)
			l.inCons = rpckit.NewCons(t, r, s.send)
			l.inCons.Name = "handler"
			if l.inCons.Mode == rpckit.Blocking { // which subscribes too late
				l.inCons.Mode = rpckit.Batches
			}
			if r.IntN(6) == 0 && s.send.N > 0 {
				l.inCons.CancelAt = r.IntN(s.send.N)
			}
			l.inCons.ForeignEnd = true
			if l.mode == echo {
				l.inCons, l.out = nil, nil
				s.recv = s.send
			} else if l.mode == ignore {
				l.inCons = nil
			}
			l.c.OnRC = func(_ context.Context, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				switch l.mode {
				case echo:
					return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return payload.New(p.Data(), p.Metadata()), nil })
				case afterwards:
					l.inCons.Subscribe(in)
					<-l.inCons.Done
				case both:
					l.inCons.Subscribe(in)
				}
				return l.out.Flux()
			}
		}
	default:
		s.send = foreign(t, r, size(r))
		l.cons = rpckit.NewCons(t, r, s.send)
		l.cons.Name = "caller"
		if r.IntN(6) == 0 && s.send.N > 0 {
			l.cons.CancelAt = r.IntN(s.send.N)
		}
		if kind == rpckit.RC {
			l.in = rpckit.NewProd(t, r, size(r), false)
			l.in.Name = "caller"
			l.in.Limit = granted
			s.recv = l.in
		}
	}
	if s.recv != nil && kind >= rpckit.RS && r.IntN(6) == 0 {
		s.cancelAt = r.IntN(s.recv.N + 1)
	}
	return l
}

// start makes a request of the library.
func (l *local) start(from *handler.Handler) {
	ctx := context.Background()
	req := l.c.Request(l.s.op)
	switch l.c.Kind {
	case rpckit.RR:
		from.RequestResponse(ctx, req).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				l.reply.Store(rpckit.Show(p))
				if l.s.send.N == 0 || !rpckit.Same(p, l.s.send.Elem(0)) {
					l.t.Violate("reply", "%s: %v", rpckit.Show(p), l)
				}
				l.replies.Add(1)
			},
			OnError: func(err error) {
				if l.s.send.N != 0 || (l.s.send.Fail && err.Error() != l.s.send.Text) {
					l.t.Violate("reply", "%q: %v", err, l)
				}
				l.replies.Add(1)
			},
			Finally: func(rx.SignalType) {
				if l.ends.Add(1) == 1 {
					l.ended <- true
				}
			},
		})
	case rpckit.FNF:
		from.FireAndForget(ctx, req)
	case rpckit.RS:
		l.cons.Subscribe(from.RequestStream(ctx, req))
	case rpckit.RC:
		l.cons.Subscribe(from.RequestChannel(ctx, req, l.in.Flux()))
	}
}

// check judges what the library's end saw, once the peer has finished.
func (l *local) check() bool {
	s := l.s
	runs := int32(0)
	if s.own {
		runs = 1
	}
	if !kit.Wait(func() bool { return l.c.Runs.Load() == runs }) {
		l.t.Violate("handler runs", "%v", l)
		return false
	}
	stopped := func(name string, p *rpckit.Prod) {
		if p != nil && !kit.Wait(p.Stopped) {
			l.t.Violate("source is not stopped", "%s: %v", name, l)
		}
	}
	l.x.mu.Lock()
	sentEnd, canceled, stop := s.sentEnd, s.canceled, s.stop
	l.x.mu.Unlock()
	switch {
	case s.own:
		if l.inCons != nil {
			if !l.inCons.Wait() {
				return false
			}
			if sentEnd && !stop && l.inCons.CancelAt < 0 {
				l.inCons.CheckWhole()
			} else {
				l.inCons.CheckPrefix("input")
			}
		}
		if s.kind >= rpckit.RS && canceled {
			stopped("output", l.out)
		}
		if l.out != nil && !canceled && l.out.Cancels.Load() != 0 {
			l.t.Violate("output is cancelled though nobody cancels", "%v", l)
		}
	case s.kind == rpckit.RR:
		if _, _, timely := kit.Recv(l.ended); !timely || l.ends.Load() != 1 || l.replies.Load() != 1 {
			l.t.Violate("outcome of a call", "%d ends, %d replies: %v", l.ends.Load(), l.replies.Load(), l)
		}
	case s.kind >= rpckit.RS:
		if !l.cons.Wait() {
			return false
		}
		if l.cons.CancelAt < 0 {
			l.cons.CheckWhole()
		} else {
			l.cons.CheckPrefix("cancelled output")
		}
		stopped("input", l.in)
		if l.in != nil && !canceled && !s.send.Fail && l.cons.CancelAt < 0 && l.in.Cancels.Load() != 0 {
			l.t.Violate("input is cancelled though nobody cancels", "%v", l)
		}
	}
	l.c.Forget()
	l.t.Case(fmt.Sprint(s.kind, s.own, l.mode, s.send, s.recv, l.cons, l.inCons, s.cancelAt))
	return !l.t.Failed()
}

var opKinds = map[int]int{rpckit.RR: 1, rpckit.FNF: 2, rpckit.RS: 3, rpckit.RC: 4}

// talk lets a foreign peer and a handler of the library make requests to each
// other.
func talk(t *kit.T, r *rand.Rand, x *peer, h *handler.Handler, kinds []int, requests int) {
	var all []*local
	var mine []*local
	x.mu.Lock()
	for i := 0; i < requests; i++ {
		l := draw(t, r, x, kinds, r.IntN(2) == 0)
		all = append(all, l)
		x.all = append(x.all, l.s)
		if l.s.own {
			l.s.op = uint32(l.c.Op)
			if !x.client {
				var ok bool
				if l.s.op, ok = x.table[fmt.Sprintf("%dverif/op%d", opKinds[l.c.Kind], l.c.Op)]; !ok {
					t.Violate("operation is not offered", "kind %d, op %d: %v", l.c.Kind, l.c.Op, x.table)
				}
			}
			x.todo = append(x.todo, l.s)
		} else {
			l.s.op = r.Uint32()
			x.planned[l.c.ID] = l.s
			mine = append(mine, l)
		}
	}
	x.cond.Broadcast()
	x.mu.Unlock()
	workers := 1 + r.IntN(3)
	acted := make(chan bool)
	go func() { x.act(); close(acted) }()
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < len(mine); i += workers {
				mine[i].start(h)
			}
		}()
	}
	wg.Wait()
	if x.finished() {
		for _, l := range all {
			if !l.check() {
				break
			}
		}
	}
	x.rest()
	if _, _, timely := kit.Recv(acted); !timely {
		t.Violate("foreign peer cannot write", "%s", kit.Stacks())
	}
	if t.Failed() {
		for _, l := range all {
			for _, p := range []*rpckit.Prod{l.out, l.in} {
				if p != nil {
					p.Quit()
				}
			}
			for _, c := range []*rpckit.Cons{l.cons, l.inCons} {
				if c != nil {
					c.Quit()
				}
			}
		}
		return
	}
	if rpckit.Streams(h) >= 0 && !kit.Wait(func() bool { return rpckit.Streams(h) == 0 }) {
		t.Violate("streams are not forgotten", "%d after all ended", rpckit.Streams(h))
		return
	}
	x.mu.Lock()
	evs := append([]rpckit.Ev(nil), x.evs...)
	x.mu.Unlock()
	rpckit.CheckWire(t, "foreign peer", evs, true)
	kit.Count("conversations with foreign peers", 1)
	if t.Wants() && len(all) > 0 {
		t.Sample("conversation of %d requests, among them %v", len(all), all[len(all)/2])
	}
	// The connection is fine.
	if x.lost.Load() {
		t.Violate("connection is lost", "after %d requests", len(all))
	}
}

// start is half of an ID to start with: anywhere, or where the wire form
// carries over.
func start(r *rand.Rand) uint32 {
	if r.IntN(2) == 0 {
		return r.Uint32N(1<<30 - 1<<14)
	}
	return min(1<<(6+r.IntN(25))-uint32(r.IntN(40)), 1<<30-1<<14)
}

// Clients connects foreign clients to a server.
func Clients(t *kit.T, clients, requests int, kinds ...int) {
	rig := rpckit.NewRig(t, t.Rand.IntN(3) > 0, false)
	defer rig.Close()
	var wg sync.WaitGroup
	for i := 0; i < clients; i++ {
		conn, err := rig.Dial()
		if err != nil {
			t.Fatal("connection refused", "%v", err)
		}
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 7))
		x := newPeer(t, r, conn, true)
		x.last = 1
		if r.IntN(2) == 0 {
			x.last = 1 + 2*start(r)
		}
		// Its operations have indices in no order.
		var ops []operation
		for k := 1; k <= 4; k++ {
			for o := 0; o < 5; o++ {
				ops = append(ops, operation{k, 1, r.Uint32(), "far", fmt.Sprint("o", o)})
				if r.IntN(2) == 0 {
					ops = append(ops, operation{k, 2, r.Uint32(), "far", fmt.Sprint("o", o)})
				}
				if r.IntN(2) == 0 {
					ops = append(ops, operation{k, 1, r.Uint32(), "faraway", fmt.Sprint("o", o)})
				}
			}
		}
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		if _, err := conn.Write(x.setupFrame(ops)); err != nil {
			t.Violate("connection is lost", "by a setup: %v", err)
			return
		}
		h, _, timely := kit.Recv(rig.Accepted)
		if !timely {
			t.Violate("connection is not accepted", "%s", kit.Stacks())
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer x.close()
			go x.read()
			find := []func(ns, op string) uint32{nil, h.ImportRequestResponse, h.ImportFireAndForget, h.ImportRequestStream, h.ImportRequestChannel}
			if !kit.Wait(func() bool {
				for _, o := range ops {
					if o.dir == 1 && find[o.kind](o.ns, o.name) != o.index {
						return false
					}
				}
				return true
			}) {
				t.Violate("operations of the client", "%v", ops)
				return
			}
			for round := 0; round < 1+r.IntN(3) && !t.Failed(); round++ {
				x.reset()
				talk(t, r, x, h, kinds, requests)
			}
		}()
	}
	wg.Wait()
}

// Servers connects clients to foreign servers.
func Servers(t *kit.T, servers, requests int, kinds ...int) {
	var wg sync.WaitGroup
	for i := 0; i < servers; i++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 8))
		var near, far net.Conn
		if r.IntN(3) > 0 {
			near, far = rpckit.MemPair(r)
		} else {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal("no listener", "%v", err)
			}
			if near, err = net.Dial("tcp", l.Addr().String()); err != nil {
				t.Fatal("no connection", "%v", err)
			}
			if far, err = l.Accept(); err != nil {
				t.Fatal("no connection", "%v", err)
			}
			l.Close()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := newPeer(t, r, far, false)
			defer x.close()
			go x.read()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			h, tr, _ := rpckit.NewClient(ctx, near)
			defer tr.Close()
			if _, _, timely := kit.Recv(x.setup); !timely {
				t.Violate("client does not introduce itself", "%s", kit.Stacks())
				return
			}
			if r.IntN(2) == 0 {
				x.last = 2 * start(r)
			}
			for round := 0; round < 1+r.IntN(3) && !t.Failed(); round++ {
				x.reset()
				talk(t, r, x, h, kinds, requests)
			}
		}()
	}
	wg.Wait()
}
