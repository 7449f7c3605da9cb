//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

func newStream(t *kit.T, r *rand.Rand, n int) (*rpckit.Call, *rpckit.Prod, *rpckit.Cons) {
	prod := rpckit.NewProd(t, r, n, false)
	prod.Name = "handler"
	cons := rpckit.NewCons(t, r, prod)
	cons.Name = "caller"
	prod.Limit = cons.Requested.Load
	c := rpckit.NewCall(r, rpckit.RS, r.IntN(50), r.IntN(20))
	c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
	return c, prod, cons
}

// roundNumber draws a number whose lower bytes are zero.
func roundNumber(r *rand.Rand) int64 {
	return int64(1+r.IntN(3))<<[]int{7, 8, 15, 16, 20, 23, 24, 28}[r.IntN(8)] + int64(r.IntN(4)/2)
}

// drive raises the demand of a consumer step by step. At each step exactly
// that many elements arrive.
func drive(t *kit.T, r *rand.Rand, prod *rpckit.Prod, cons *rpckit.Cons, status func() string) bool {
	for step := 0; ; step++ {
		plan := cons.Plan.Load()
		want := min(plan, int64(prod.N))
		ended := func() bool { return cons.Finals.Load() > 0 }
		if !kit.Wait(func() bool { return cons.Received.Load() >= want || ended() }) {
			t.Violate("stream stalls below its demand", "%d requested: %s\n%s", plan, status(), kit.Stacks())
			return false
		}
		if plan >= int64(prod.N) {
			return true
		}
		if r.IntN(4) == 0 {
			// Nothing more comes.
			time.Sleep(time.Duration(r.IntN(600)) * time.Microsecond)
		}
		if got := cons.Received.Load(); got > plan || ended() {
			t.Violate("received more than requested", "%d requested: %s", plan, status())
			return false
		}
		kit.Count("plateaus of demand", 1)
		n := 1 + int64(r.IntN(1<<r.IntN(6)))
		switch r.IntN(8) {
		case 0:
			n = int64(prod.N) - plan // exactly the rest
		case 1:
			n = 1
		case 2:
			// More than enough, in one round number.
			cons.More(roundNumber(r), 1)
			kit.Count("round demands", 1)
			continue
		}
		cons.More(n, 1+r.IntN(4))
	}
}

// plateaus drives streams one step of demand after the other.
func plateaus(t *kit.T, mem bool, pairs, calls int) {
	rig := rpckit.NewRig(t, mem, true)
	defer rig.Close()
	for k := 0; k < pairs && !t.Failed(); k++ {
		p := rig.Connect()
		var wg sync.WaitGroup
		for g := 0; g < 1+t.Rand.IntN(4); g++ {
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < calls && !t.Failed(); i++ {
					from, imported := p.Client, false
					if r.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					c, prod, cons := newStream(t, r, 1+r.IntN(80))
					cons.Plan.Store(1 + int64(r.IntN(2*prod.N)))
					switch r.IntN(16) {
					case 0, 1, 2, 3:
						cons.Plan.Store(1)
					case 4, 5, 6, 7:
						cons.Plan.Store(roundNumber(r))
					}
					cons.Subscribe(from.RequestStream(context.Background(), c.Request(c.Index(from, imported))))
					if !drive(t, r, prod, cons, cons.Status) || !cons.Wait() {
						cons.Quit()
						prod.Quit()
						return
					}
					cons.CheckWhole()
					c.Forget()
					t.Case(fmt.Sprint(prod, cons, cons.Plan.Load()))
				}
			}()
		}
		wg.Wait()
		if !t.Failed() && p.Forgotten("after all streams ended") {
			rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
			rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
		}
		p.Close()
	}
}

// both drives the two directions of channels independently.
func both(t *kit.T, mem bool, pairs, calls int) {
	rig := rpckit.NewRig(t, mem, true)
	defer rig.Close()
	for k := 0; k < pairs && !t.Failed(); k++ {
		p := rig.Connect()
		var wg sync.WaitGroup
		for g := 0; g < 1+t.Rand.IntN(4); g++ {
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < calls && !t.Failed(); i++ {
					from, imported := p.Client, false
					if r.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					mode := []int{rpckit.Independent, rpckit.Echo, rpckit.ThenEmit}[r.IntN(3)]
					c := rpckit.NewChan(t, r, mode, 1+r.IntN(50), 1+r.IntN(50), false)
					c.Out.Fail = false
					c.OutCons.Plan.Store(1 + int64(r.IntN(2*c.OutCons.Src.N)))
					c.InCons.Plan.Store(1 + int64(r.IntN(2*c.In.N)))
					c.Start(from, imported)
					var two sync.WaitGroup
					ok := true
					if mode != rpckit.Echo {
						r2 := rand.New(rand.NewPCG(r.Uint64(), 7))
						two.Add(1)
						go func() {
							defer two.Done()
							if !kit.Wait(func() bool {
								return c.C.Runs.Load() == 1 && c.In.Subscribed.Load() == 1 && c.InCons.Requested.Load() > 0
							}) {
								t.Violate("channel does not start", "%s", c.Status())
								return
							}
							if !drive(t, r2, c.In, c.InCons, c.Status) {
								ok = false
							}
						}()
						if mode == rpckit.ThenEmit {
							two.Wait()
						}
					}
					if !drive(t, r, c.OutCons.Src, c.OutCons, c.Status) {
						ok = false
					}
					two.Wait()
					if !ok || !c.Finish() {
						c.Quit()
						return
					}
					t.Case(fmt.Sprint(c, c.InCons.Plan.Load(), c.OutCons.Plan.Load()))
				}
			}()
		}
		wg.Wait()
		if !t.Failed() && p.Forgotten("after all channels ended") {
			rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
			rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
		}
		p.Close()
	}
}

// storm runs streams and channels with every way of requesting at once.
func storm(t *kit.T, mem bool, calls int) {
	rig := rpckit.NewRig(t, mem, true)
	defer rig.Close()
	p := rig.Connect()
	var mu sync.Mutex
	var fin []func() bool
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls; i++ {
				from, imported := p.Client, false
				if r.IntN(3) == 0 {
					from, imported = p.Server, true
				}
				var f func() bool
				if r.IntN(2) == 0 {
					c, prod, cons := newStream(t, r, r.IntN(60))
					cons.Subscribe(from.RequestStream(context.Background(), c.Request(c.Index(from, imported))))
					f = func() bool {
						if !cons.Wait() {
							prod.Quit()
							return false
						}
						t.Case(fmt.Sprint(prod, cons))
						return cons.CheckWhole()
					}
				} else {
					c := rpckit.NewChan(t, r, r.IntN(rpckit.ChanModes), r.IntN(40), r.IntN(40), false)
					c.Start(from, imported)
					f = func() bool {
						t.Case(c.String())
						return c.Finish()
					}
				}
				mu.Lock()
				fin = append(fin, f)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, f := range fin {
		if !f() {
			return
		}
	}
	if p.Forgotten("after all ended") {
		rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
		rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
	}
	p.Close()
}

// bursts sends request-n frames in bursts, glued to the request or apart, and
// counts what comes back.
func bursts(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, false)
	defer rig.Close()
	conn, err := rig.Dial()
	if err != nil {
		t.Fatal("connection refused", "%v", err)
	}
	defer conn.Close()
	x := rpckit.NewRaw(conn)
	_, _ = conn.Write(rpckit.SetupFrame())
	id := uint32(1)
	for round := 0; round < kit.N(150, 2000) && !t.Failed(); round++ {
		n := 1 + t.Rand.IntN(120)
		prod := rpckit.NewProd(t, t.Rand, n, false)
		prod.Name = "handler"
		c := rpckit.NewCall(t.Rand, rpckit.RS, 5, 0)
		c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
		req := c.Request(c.Index(nil, false))
		md := req.Metadata()
		var total, sent int64
		var mu sync.Mutex
		prod.Limit = func() int64 { mu.Lock(); defer mu.Unlock(); return sent }
		ask := func(v uint32) []byte {
			total += int64(v)
			mu.Lock()
			sent += int64(v)
			mu.Unlock()
			return binary.BigEndian.AppendUint32(nil, v)
		}
		portion := func() uint32 {
			switch t.Rand.IntN(12) {
			case 0:
				switch t.Rand.IntN(8) {
				case 0:
					return 1<<31 - 1
				case 1:
					return uint32(roundNumber(t.Rand))
				}
				return 0
			case 1, 2, 3, 4:
				return 1
			}
			return 1 + t.Rand.Uint32N(uint32(n/4+2))
		}
		first := 1 + t.Rand.Uint32N(uint32(n/4+2))
		body := append(ask(first), byte(len(md)>>16), byte(len(md)>>8), byte(len(md)))
		body = append(append(body, md...), req.Data()...)
		buf := rpckit.Frame(id, 6, 256, body...)
		for total < int64(n) {
			k := 1 + t.Rand.IntN(6)
			for j := 0; j < k; j++ {
				buf = append(buf, rpckit.Frame(id, 8, 0, ask(portion())...)...)
			}
			_, _ = conn.Write(buf)
			buf = nil
			want := int(min(total, int64(n)))
			if t.Rand.IntN(2) == 0 {
				if !kit.Wait(func() bool { x.Mu.Lock(); defer x.Mu.Unlock(); return x.Next[id] >= want }) {
					x.Mu.Lock()
					t.Violate("stream stalls below its demand", "requested %d, received %d of %d: %s", total, x.Next[id], n, prod.Status())
					x.Mu.Unlock()
					return
				}
				x.Mu.Lock()
				if got := x.Next[id]; int64(got) > total {
					t.Violate("received more than requested", "requested %d, received %d: %s", total, got, prod.Status())
				}
				x.Mu.Unlock()
			}
		}
		if len(buf) > 0 {
			_, _ = conn.Write(buf)
		}
		if !kit.Wait(func() bool { x.Mu.Lock(); defer x.Mu.Unlock(); return x.Next[id] == n && x.End[id] == 1 }) {
			x.Mu.Lock()
			t.Violate("stream stalls below its demand", "requested %d, received %d of %d, %d ends: %s", total, x.Next[id], n, x.End[id], prod.Status())
			x.Mu.Unlock()
			return
		}
		t.Case(fmt.Sprint(prod, total, round))
		kit.Count("raw streams", 1)
		c.Forget()
		id += 2
	}
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P11",
		Rule:     "Streams and channels whose demand is raised step by step, in portions from several goroutines, nested in callbacks, unbounded or beyond 31 bits. At every step the producers' hooks, the callers' callbacks and the frames on the wire are compared with the demand granted so far, and the demanded elements have to arrive. Distinct by producer, way of requesting and demand.",
		Assumptions: []string{
			"Callbacks of a caller do not block (they run on the goroutine that dispatches frames).",
		},
		Scenarios: []kit.Scenario{
			{Name: "plateaus of streams", Yields: []int{0, 1, 2}, Run: scn(3, 60, func(t *kit.T) { plateaus(t, t.Rand.IntN(3) > 0, 3, 12) })},
			{Name: "plateaus of channels", Yields: []int{0, 1, 2}, Run: scn(3, 60, func(t *kit.T) { both(t, t.Rand.IntN(3) > 0, 3, 12) })},
			{Name: "storm", Yields: []int{0, 1, 2}, Run: scn(4, 80, func(t *kit.T) { storm(t, t.Rand.IntN(3) > 0, 25) })},
			{Name: "foreign clients", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RS, rpckit.RC) })},
			{Name: "foreign servers", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RS, rpckit.RC) })},
			{Name: "bursts of demand", Yields: []int{0, 2}, Run: scn(2, 10, bursts)},
		},
	})
}
