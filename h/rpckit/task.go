//go:build go1.22

package rpckit

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

// Task is one request that is pending when the connection is lost.
type Task struct {
	What  func() string
	Begun func() bool // it has reached its handler
	Check func() bool // after the loss
	Quit  func()
}

// forget drops a call after any request for it that is still under way.
func forget(c *Call) { time.AfterFunc(10*time.Second, c.Forget) }

// CallTask makes a request/response call, often one without a reply.
func CallTask(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool) *Task {
	c := NewCall(r, RR, r.IntN(2000), r.IntN(20))
	hang := r.IntN(3) > 0
	want := Blob(r.Uint64(), r.IntN(500), -1)
	c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
		if hang {
			return mono.Create(func(mono.Sink[payload.Payload]) {})
		}
		return mono.Create(func(s mono.Sink[payload.Payload]) { go s.Success(want) })
	}
	var succ, errs, fins atomic.Int32
	block := r.IntN(3) == 0
	what := func() string {
		return fmt.Sprintf("request/response (block %v, without reply %v): handler ran %d times, %d successes, %d errors, %d final", block, hang, c.Runs.Load(), succ.Load(), errs.Load(), fins.Load())
	}
	once := func(n *atomic.Int32) {
		n.Add(1)
		if succ.Load()+errs.Load() > 1 || fins.Load() > 1 {
			t.Violate("request ends more than once", "%s", what())
		}
	}
	m := from.RequestResponse(context.Background(), c.Request(c.Index(from, imported)))
	success := func(p payload.Payload) {
		if hang || !Same(p, payload.New(want.Data(), p.Metadata())) {
			t.Violate("reply nobody sent", "%s: %s", Show(p), what())
		}
		once(&succ)
	}
	if block {
		go func() {
			p, err := m.Block()
			if err != nil {
				once(&errs)
			} else {
				success(p)
			}
			once(&fins)
		}()
	} else {
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: success,
			OnError:   func(error) { once(&errs) },
			Finally:   func(rx.SignalType) { once(&fins) },
		})
	}
	return &Task{
		What:  what,
		Begun: func() bool { return c.Runs.Load() == 1 },
		Check: func() bool {
			if !kit.Wait(func() bool { return fins.Load() == 1 && succ.Load()+errs.Load() == 1 }) {
				t.Violate("pending request does not end", "%s\n%s", what(), kit.Stacks())
				return false
			}
			return true
		},
		Quit: func() { forget(c) },
	}
}

// StreamTask requests a stream, often one without an end.
func StreamTask(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool) *Task {
	prod := NewProd(t, r, r.IntN(40), false)
	prod.Name = "handler"
	cons := NewCons(t, r, prod)
	cons.Name = "caller"
	prod.Limit = cons.Requested.Load
	hang := prod.Mode != Slice && r.IntN(4) > 0
	if hang {
		prod.Hang = true
		if r.IntN(2) == 0 && prod.Mode != PushSync {
			prod.N, prod.Big = 1<<30, false
		}
	}
	c := NewCall(r, RS, r.IntN(50), r.IntN(20))
	c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
	cons.Subscribe(from.RequestStream(context.Background(), c.Request(c.Index(from, imported))))
	return &Task{
		What:  cons.Status,
		Begun: func() bool { return c.Runs.Load() == 1 && prod.Subscribed.Load() == 1 },
		Check: func() bool {
			if !cons.Wait() {
				return false
			}
			cons.CheckPrefix("after the loss")
			if cons.Errors.Load() != 1 && (hang || cons.Completes.Load() != 1) {
				t.Violate("stream ends without an error", "signal %v: %s", cons.Signal, cons.Status())
				return false
			}
			if !kit.Wait(prod.Stopped) {
				t.Violate("producer is not told to stop", "%s\n%s", cons.Status(), kit.Stacks())
				return false
			}
			return true
		},
		Quit: func() { forget(c); prod.Quit(); cons.Quit() },
	}
}

// ChannelTask requests a channel, often one without an end.
func ChannelTask(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool) *Task {
	c := NewChan(t, r, []int{Independent, Echo, Ignore}[r.IntN(3)], r.IntN(40), r.IntN(40), false)
	if r.IntN(4) > 0 && c.In.Mode != Slice {
		c.In.Hang = true
	}
	if r.IntN(4) > 0 && c.Out.Mode != Slice {
		c.Out.Hang = true
	}
	c.Start(from, imported)
	c.InCons.ForeignEnd = true
	src := c.Out
	if c.Mode == Echo {
		src = c.In
	}
	return &Task{
		What:  c.Status,
		Begun: func() bool { return c.C.Runs.Load() == 1 },
		Check: func() bool {
			if !c.OutCons.Wait() {
				return false
			}
			c.OutCons.CheckPrefix("after the loss")
			if c.OutCons.Errors.Load() != 1 && (src.Hang || c.OutCons.Completes.Load() != 1) {
				t.Violate("channel ends without an error", "%s", c.Status())
				return false
			}
			if !kit.Wait(func() bool { return c.In.Stopped() && (c.Mode == Echo || c.Out.Stopped()) }) {
				t.Violate("producer is not told to stop", "%s\n%s", c.Status(), kit.Stacks())
				return false
			}
			if c.Mode == Independent && c.C.Runs.Load() == 1 {
				if !c.InCons.Wait() {
					return false
				}
				c.InCons.CheckPrefix("handler's input after the loss")
				if c.InCons.Errors.Load() != 1 && c.InCons.Completes.Load() != 1 {
					t.Violate("handler's input ends without an error", "%s", c.Status())
					return false
				}
			}
			return true
		},
		Quit: func() { forget(c.C); c.Quit() },
	}
}

// Later makes requests after the loss. They have to fail.
func Later(t *kit.T, r *rand.Rand, from *handler.Handler, who string) bool {
	md := make([]byte, 8)
	ctx := context.Background()
	for kind := 0; kind < 5; kind++ {
		req := payload.New([]byte("too late"), md)
		ends := make(chan string, 8)
		sub := flux.Subscribe[payload.Payload]{
			OnNext:     func(payload.Payload) { ends <- "element" },
			OnComplete: func() { ends <- "complete" },
			OnError:    func(error) { ends <- "error" },
		}
		name := []string{"request/response", "blocking request/response", "fire and forget", "stream", "channel"}[kind]
		in := NewProd(t, r, 3, false)
		in.Mode = Demand
		go func() {
			switch kind {
			case 0:
				from.RequestResponse(ctx, req).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(payload.Payload) { ends <- "success" },
					OnError:   func(error) { ends <- "error" },
				})
			case 1:
				if _, err := from.RequestResponse(ctx, req).Block(); err != nil {
					ends <- "error"
				} else {
					ends <- "success"
				}
			case 2:
				from.FireAndForget(ctx, req)
				ends <- "error" // there is nobody to tell
			case 3:
				from.RequestStream(ctx, req).Subscribe(sub)
			case 4:
				from.RequestChannel(ctx, req, in.Flux()).Subscribe(sub)
			}
		}()
		s, _, timely := kit.Recv(ends)
		if !timely {
			t.Violate("request on a lost connection hangs", "%s by the %s\n%s", name, who, kit.Stacks())
			return false
		}
		if s != "error" {
			t.Violate("request on a lost connection does not fail", "%s by the %s: %s", name, who, s)
			return false
		}
		kit.Count("requests after the loss", 1)
	}
	return true
}
