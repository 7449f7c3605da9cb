//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// side is an end of a connection that calls the other one.
type side struct {
	h        *handler.Handler
	imported bool
}

// rr makes a call, possibly from within a handler of the other side.
func rr(t *kit.T, r *rand.Rand, s, back side, depth int) bool {
	c := rpckit.NewCall(r, rpckit.RR, r.IntN(200), r.IntN(10))
	want := rpckit.Blob(r.Uint64(), r.IntN(2000), r.IntN(20)-1)
	fail := r.IntN(5) == 0
	nested := depth < 3 && r.IntN(4) == 0
	r2 := rand.New(rand.NewPCG(r.Uint64(), 1))
	c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
		return mono.Create(func(k mono.Sink[payload.Payload]) {
			reply := func() {
				if fail {
					k.Error(errors.New("as planned"))
				} else {
					k.Success(want)
				}
			}
			switch {
			case nested:
				go func() {
					rr(t, r2, back, s, depth+1)
					reply()
				}()
			case r2.IntN(2) == 0:
				go reply()
			default:
				reply()
			}
		})
	}
	var got payload.Payload
	var err error
	m := s.h.RequestResponse(context.Background(), c.Request(c.Index(s.h, s.imported)))
	switch r.IntN(3) {
	case 0:
		got, err = m.Block()
	default:
		done := make(chan bool, 4)
		var n atomic.Int32
		once := func() {
			if n.Add(1) > 1 {
				t.Violate("request ends more than once", "call of %d bytes", len(c.Data))
			}
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { once(); got = p },
			OnError:   func(e error) { once(); err = e },
			Finally:   func(rx.SignalType) { done <- true },
		})
		if _, _, timely := kit.Recv(done); !timely {
			t.Violate("call is not answered", "nested %v, depth %d\n%s", nested, depth, kit.Stacks())
			return false
		}
	}
	if fail != (err != nil) || (fail && err.Error() != "as planned") || (!fail && (got == nil || !bytes.Equal(got.Data(), want.Data()) || !bytes.Equal(got.Metadata(), want.Metadata()))) || c.Runs.Load() != 1 {
		t.Violate("outcome of a call", "error %v (expected %v), got %s, expected %s, handler ran %d times", err, fail, rpckit.Show(got), rpckit.Show(want), c.Runs.Load())
		return false
	}
	c.Forget()
	kit.Count("calls", 1)
	if nested {
		kit.Count("calls that called back", 1)
	}
	return true
}

func fnf(t *kit.T, r *rand.Rand, s side) bool {
	c := rpckit.NewCall(r, rpckit.FNF, r.IntN(300), 0)
	ran := make(chan bool, 4)
	c.OnFNF = func(context.Context) { ran <- true }
	s.h.FireAndForget(context.Background(), c.Request(c.Index(s.h, s.imported)))
	if _, _, timely := kit.Recv(ran); !timely {
		t.Violate("fire and forget is lost", "%s", kit.Stacks())
		return false
	}
	c.Forget()
	kit.Count("fires and forgets", 1)
	return true
}

func stream(t *kit.T, r *rand.Rand, s side) bool {
	prod := rpckit.NewProd(t, r, r.IntN(60), false)
	prod.Name = "handler"
	cons := rpckit.NewCons(t, r, prod)
	cons.Name = "caller"
	prod.Limit = cons.Requested.Load
	c := rpckit.NewCall(r, rpckit.RS, r.IntN(50), r.IntN(20))
	c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
	cut := r.IntN(3) == 0 && prod.N > 0 && cons.Mode != rpckit.Blocking
	if cut {
		cons.CancelAt = r.IntN(prod.N)
	}
	cons.Subscribe(s.h.RequestStream(context.Background(), c.Request(c.Index(s.h, s.imported))))
	if !cons.Wait() {
		return false
	}
	if cut {
		if !cons.CheckPrefix("cancelled") || cons.Signal != rx.SignalCancel || int(cons.Received.Load()) != cons.CancelAt+1 {
			t.Violate("outcome of a cancelled stream", "%v at %d: %s", cons.Signal, cons.CancelAt, cons.Status())
			return false
		}
		if !kit.Wait(prod.Stopped) {
			t.Violate("producer is not told to stop", "%s\n%s", cons.Status(), kit.Stacks())
			return false
		}
		kit.Count("streams cancelled", 1)
		time.AfterFunc(10*time.Second, c.Forget)
		return true
	}
	kit.Count("streams", 1)
	c.Forget()
	return cons.CheckWhole()
}

// work runs random requests on a connection that stays.
func work(t *kit.T, r *rand.Rand, a, b side, n int) {
	for i := 0; i < n && !t.Failed(); i++ {
		s, o := a, b
		if r.IntN(3) == 0 {
			s, o = b, a
		}
		ok := true
		switch r.IntN(6) {
		case 0, 1:
			ok = rr(t, r, s, o, 0)
		case 2:
			ok = fnf(t, r, s)
		case 3, 4:
			ok = stream(t, r, s)
		case 5:
			c := rpckit.NewChan(t, r, r.IntN(rpckit.ChanModes), r.IntN(40), r.IntN(40), false)
			c.Start(s.h, s.imported)
			ok = c.Finish()
		}
		if !ok {
			return
		}
		t.Case(fmt.Sprint(s.imported, r.Uint64()))
	}
}

func mix(t *kit.T, mem bool, n int) {
	tapped := t.Rand.IntN(3) == 0
	rig := rpckit.NewRig(t, mem, tapped)
	defer rig.Close()
	var pairs []*rpckit.Pair
	for k := 1 + t.Rand.IntN(3); k > 0; k-- {
		pairs = append(pairs, rig.Connect())
	}
	var wg, cw sync.WaitGroup
	stop := make(chan bool)
	// Other connections come and go.
	churn := rpckit.NewRig(t, mem, false)
	for g := 0; g < 2; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 2))
		cw.Add(1)
		go func() {
			defer cw.Done()
			for !t.Failed() {
				select {
				case <-stop:
					return
				default:
				}
				at := churn
				if r.IntN(2) == 0 {
					at = rig
				}
				var generation int64
				if r.IntN(8) == 0 {
					generation = at.Accept()
				}
				conn, err := at.Dial()
				if err != nil {
					t.Violate("connection refused", "%v", err)
					return
				}
				ctx, cancel := context.WithCancel(context.Background())
				h, tr, done := rpckit.NewClient(ctx, conn)
				var tasks []*rpckit.Task
				var tm sync.Mutex
				var tw sync.WaitGroup
				for k := 1 + r.IntN(3); k > 0; k-- {
					r2 := rand.New(rand.NewPCG(r.Uint64(), 3))
					tw.Add(1)
					go func() {
						defer tw.Done()
						for j := r2.IntN(4); j >= 0; j-- {
							var x *rpckit.Task
							switch r2.IntN(3) {
							case 0:
								x = rpckit.CallTask(t, r2, h, false)
							case 1:
								x = rpckit.StreamTask(t, r2, h, false)
							case 2:
								x = rpckit.ChannelTask(t, r2, h, false)
							}
							tm.Lock()
							tasks = append(tasks, x)
							tm.Unlock()
						}
					}()
				}
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
				}
				if generation > 0 {
					if !kit.Wait(func() bool { return at.Latest.Load() >= generation }) {
						t.Violate("connection goes to a former acceptor", "%s", kit.Stacks())
					}
					kit.Count("acceptors replaced", 1)
				}
				switch r.IntN(3) {
				case 0:
					cancel()
				case 1:
					_ = tr.Close()
				case 2:
					_ = conn.Close()
				}
				tw.Wait()
				if _, _, timely := kit.Recv(done); !timely {
					t.Violate("transport of a lost connection does not end", "%s", kit.Stacks())
				}
				for _, x := range tasks {
					x.Check()
					x.Quit()
				}
				cancel()
				kit.Count("connections that came and went", 1)
			}
		}()
	}
	for _, p := range pairs {
		a, b := side{p.Client, false}, side{p.Server, true}
		for g := 0; g < 2+t.Rand.IntN(3); g++ {
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 4))
			wg.Add(1)
			go func() { defer wg.Done(); work(t, r, a, b, n) }()
		}
	}
	wg.Wait()
	close(stop)
	cw.Wait()
	churn.Close()
	if t.Failed() {
		return
	}
	for _, p := range pairs {
		p.Forgotten("after the mix")
	}
	if tapped {
		for _, p := range pairs {
			rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
		}
	}
	for _, p := range pairs {
		p.Close()
	}
	t.Case(fmt.Sprint(t.Rand.Uint64()))
	runtime.GC()
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P17",
		Rule:     "Several connections with several goroutines each that make random requests of all kinds in both directions (nested up to four deep), cancel some and check every outcome, while other connections with pending requests to the same servers come and go; under the race detector, with and without yields inserted at the synchronisation points of the stack. Distinct by the random choices of each request.",
		Assumptions: []string{
			"Operations are registered before connections are opened; registering is not synchronised.",
		},
		Scenarios: []kit.Scenario{
			{Name: "mix in memory", Yields: []int{0, 1, 2}, Run: scn(10, 200, func(t *kit.T) { mix(t, true, 60) })},
			{Name: "mix over TCP", Yields: []int{0, 2}, Run: scn(10, 200, func(t *kit.T) { mix(t, false, 60) })},
		},
	})
}
