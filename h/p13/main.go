//go:build go1.22

package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

func size(r *rand.Rand) int {
	switch r.IntN(10) {
	case 0:
		return 0
	case 1:
		return 65500 + r.IntN(100)
	case 2:
		return 4080 + r.IntN(40)
	}
	return r.IntN(200)
}

// ping makes a call and checks its result.
func ping(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool) bool {
	c := rpckit.NewCall(r, rpckit.RR, r.IntN(40), 0)
	defer c.Forget()
	want := rpckit.Blob(r.Uint64(), r.IntN(50), 3)
	c.OnRR = func(context.Context) mono.Mono[payload.Payload] { return mono.Just(want) }
	got := make(chan payload.Payload, 1)
	from.RequestResponse(context.Background(), c.Request(c.Index(from, imported))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { got <- p },
		OnError:   func(err error) { t.Violate("other call fails", "%v", err); got <- nil },
	})
	p, _, timely := kit.Recv(got)
	if !timely || !rpckit.Same(p, want) {
		t.Violate("other call is affected", "timely %v, got %s, want %s\n%s", timely, rpckit.Show(p), rpckit.Show(want), kit.Stacks())
		return false
	}
	return true
}

// fence lets both ends catch up with each other.
func fence(t *kit.T, p *rpckit.Pair) bool {
	ok := true
	for i := 0; i < 3 && ok; i++ {
		ok = ping(t, t.Rand, p.Client, false) && ping(t, t.Rand, p.Server, true)
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	return ok
}

type shot struct {
	c    *rpckit.Call
	done chan bool
	what string
}

// storm sends messages from many goroutines in both directions, among calls.
func storm(t *kit.T, mem bool, msgs int) {
	rig := rpckit.NewRig(t, mem, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	release := make(chan bool)
	var mu sync.Mutex
	var all []*shot
	var bad atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < 2+t.Rand.IntN(6); g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < msgs && !t.Failed(); i++ {
				from, imported := p.Client, false
				if r.IntN(3) == 0 {
					from, imported = p.Server, true
				}
				switch r.IntN(10) {
				case 0:
					if !ping(t, r, from, imported) {
						return
					}
					continue
				case 1:
					from.FireAndForget(context.Background(), unhandled(r))
					bad.Add(1)
					continue
				case 2:
					prod := rpckit.NewProd(t, r, r.IntN(20), false)
					cons := rpckit.NewCons(t, r, prod)
					c := rpckit.NewCall(r, rpckit.RS, 0, 0)
					c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
					cons.Subscribe(from.RequestStream(context.Background(), c.Request(c.Index(from, imported))))
					if !cons.Wait() || !cons.CheckWhole() {
						return
					}
					continue
				}
				s := &shot{c: rpckit.NewCall(r, rpckit.FNF, size(r), r.IntN(3)*r.IntN(30)), done: make(chan bool, 8)}
				mode := r.IntN(5)
				s.what = fmt.Sprintf("message of %d bytes and %d of metadata, handler %d", len(s.c.Data), len(s.c.Extra), mode)
				back := p.Server
				if imported {
					back = p.Client
				}
				seed := r.Uint64()
				s.c.OnFNF = func(context.Context) {
					switch mode {
					case 0: // stays
						<-release
					case 1: // calls the sender
						ping(t, rand.New(rand.NewPCG(seed, 1)), back, !imported)
					case 2:
						time.Sleep(time.Duration(seed % 300000))
					}
					s.done <- true
				}
				from.FireAndForget(context.Background(), s.c.Request(s.c.Index(from, imported)))
				mu.Lock()
				all = append(all, s)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if t.Failed() || !fence(t, p) {
		close(release)
		return
	}
	close(release)
	for _, s := range all {
		if _, _, timely := kit.Recv(s.done); !timely {
			t.Violate("message is not handled", "%s: ran %d times\n%s", s.what, s.c.Runs.Load(), kit.Stacks())
			return
		}
	}
	if !fence(t, p) {
		return
	}
	for _, s := range all {
		if n := s.c.Runs.Load(); n != 1 || len(s.done) != 0 {
			t.Violate("message is handled more than once", "%s: ran %d times", s.what, n)
		}
		t.Case(s.what)
		s.c.Forget()
	}
	p.Forgotten("after all messages")
	quiet(t, p)
	kit.Count("messages", int64(len(all)))
	kit.Count("messages without a handler", bad.Load())
	if t.Wants() && len(all) > 0 {
		t.Sample("%d messages: %s", len(all), all[len(all)/2].what)
	}
}

// quiet checks that nothing was said on the streams of messages.
func quiet(t *kit.T, p *rpckit.Pair) {
	for _, tap := range []*rpckit.Tap{p.ServerTap, p.ClientTap} {
		evs := tap.Events()
		fnf := map[uint32]bool{}
		for _, e := range evs {
			if e.Type == 5 {
				fnf[e.Stream] = true
			} else if fnf[e.Stream] {
				t.Violate("frame on the stream of a message", "%+v", e)
			}
		}
		kit.Count("streams of messages seen on the wire", int64(len(fnf)))
		rpckit.CheckWire(t, "tap", evs, true)
	}
}

// unhandled is a message that no handler gets.
func unhandled(r *rand.Rand) payload.Payload {
	data := make([]byte, r.IntN(50))
	if r.IntN(2) == 0 {
		md := make([]byte, r.IntN(8))
		for i := range md {
			md[i] = byte(r.IntN(2) * 255)
		}
		return payload.New(data, md)
	}
	idx := []uint32{rpckit.Ops, rpckit.Ops + 1, 1 << 8, 1 << 16, 1 << 24, 1<<24 | 1, 1 << 31, 1<<32 - 1, rpckit.Ops + r.Uint32N(1000), r.Uint32()&^3 + 1<<20}[r.IntN(10)]
	md := []byte{byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx), 0, 0, 0, 0}
	return payload.New(data, append(md, make([]byte, r.IntN(20))...))
}

// dropped sends only messages that nobody handles.
func dropped(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for i := 0; i < kit.N(400, 5000) && !t.Failed(); i++ {
		from := p.Client
		if t.Rand.IntN(3) == 0 {
			from = p.Server
		}
		m := unhandled(t.Rand)
		from.FireAndForget(context.Background(), m)
		t.Case(fmt.Sprintf("%x %d", m.Metadata(), len(m.Data())))
		if i%100 == 99 && !fence(t, p) {
			return
		}
	}
	p.Forgotten("after messages nobody handles")
	quiet(t, p)
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P13",
		Rule:     "Messages in both directions between calls and streams of the same connection, to handlers that return, stay, or call back, and to operations nobody serves. Each handler has to run once with the bytes sent, and the frames at both ends must not contain anything on the stream of a message. Distinct by sizes and handler.",
		Scenarios: []kit.Scenario{
			{Name: "storm in memory", Yields: []int{0, 1, 2}, Run: scn(6, 80, func(t *kit.T) { storm(t, true, 60) })},
			{Name: "storm over TCP", Yields: []int{0, 2}, Run: scn(6, 80, func(t *kit.T) { storm(t, false, 60) })},
			{Name: "nobody handles", Yields: []int{0, 1}, Run: scn(2, 4, dropped)},
			{Name: "foreign clients", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.FNF, rpckit.RS) })},
			{Name: "foreign servers", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.FNF, rpckit.RS) })},
		},
	})
}
