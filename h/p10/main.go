//go:build go1.22

package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

type call struct {
	c    *rpckit.Call
	prod *rpckit.Prod
	cons *rpckit.Cons
}

func (c *call) String() string {
	return fmt.Sprintf("%v to %v", c.prod, c.cons)
}

var lengths = []int{0, 1, 2, 3, 7, 30, 200}

func newCall(t *kit.T, r *rand.Rand, respect bool) *call {
	c := &call{}
	n := lengths[r.IntN(len(lengths))]
	if r.IntN(2) == 0 {
		n = r.IntN(40)
	}
	c.prod = rpckit.NewProd(t, r, n, respect)
	c.prod.Name = "handler"
	c.cons = rpckit.NewCons(t, r, c.prod)
	c.cons.Name = "caller"
	c.c = rpckit.NewCall(r, rpckit.RS, r.IntN(100), r.IntN(3)*r.IntN(30))
	c.c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return c.prod.Flux() }
	return c
}

func (c *call) start(from *handler.Handler, imported bool) {
	c.cons.Subscribe(from.RequestStream(context.Background(), c.c.Request(c.c.Index(from, imported))))
}

func (c *call) finish(t *kit.T) bool {
	if !c.cons.Wait() {
		c.prod.Quit()
		return false
	}
	c.cons.CheckWhole()
	if c.c.Runs.Load() != 1 {
		t.Violate("handler runs", "%d: %s", c.c.Runs.Load(), c.cons.Status())
	}
	if c.prod.Cancels.Load() != 0 {
		t.Violate("producer is cancelled though nobody cancels", "%s", c.cons.Status())
	}
	t.Case(c.String())
	c.c.Forget()
	kit.Count("streams", 1)
	return !t.Failed()
}

// one runs streams one after the other, over all modes.
func one(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for prod := 0; prod < rpckit.ProdModes; prod++ {
		for cons := 0; cons < rpckit.ConsModes; cons++ {
			for _, n := range append(lengths[:4:4], 5+t.Rand.IntN(60)) {
				for _, fail := range []bool{false, true} {
					if fail && prod == rpckit.Slice {
						continue
					}
					c := newCall(t, t.Rand, false)
					c.prod.Mode, c.prod.N, c.prod.Fail, c.cons.Mode = prod, n, fail, cons
					c.prod.Text = rpckit.ErrTexts[t.Rand.IntN(len(rpckit.ErrTexts))]
					from, imported := p.Client, false
					if t.Rand.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					c.start(from, imported)
					if !c.finish(t) {
						return
					}
				}
			}
		}
	}
	if p.Forgotten("after all streams ended") {
		rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
		rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
	}
}

// many runs streams at the same time.
func many(t *kit.T, mem bool, pairs, calls int) {
	tapped := t.Rand.IntN(2) == 0
	rig := rpckit.NewRig(t, mem, tapped)
	defer rig.Close()
	var ps []*rpckit.Pair
	for i := 0; i < pairs; i++ {
		ps = append(ps, rig.Connect())
	}
	var mu sync.Mutex
	var all []*call
	var wg sync.WaitGroup
	for _, p := range ps {
		for w := 0; w < 2+t.Rand.IntN(4); w++ {
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < calls; i++ {
					from, imported := p.Client, false
					if r.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					c := newCall(t, r, false)
					c.start(from, imported)
					mu.Lock()
					all = append(all, c)
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	for _, c := range all {
		if !c.finish(t) {
			return
		}
	}
	if t.Wants() {
		t.Sample("%d connections, %d streams: %s", pairs, len(all), all[len(all)/2].cons.Status())
	}
	for _, p := range ps {
		if p.Forgotten("after all streams ended") && tapped {
			rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
			rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
		}
	}
	for _, p := range ps {
		p.Close()
	}
}

// wrong calls what no handler serves.
func wrong(t *kit.T) {
	rig := rpckit.NewRig(t, true, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for i := 0; i < kit.N(150, 2000) && !t.Failed(); i++ {
		from := p.Client
		if i%3 == 0 {
			from = p.Server
		}
		md := make([]byte, t.Rand.IntN(12))
		if len(md) >= 8 {
			md = append([]byte{0, 0, 0, rpckit.Ops + byte(t.Rand.IntN(100)), 0, 0, 0, 0}, md...)
			if t.Rand.IntN(2) == 0 {
				md[t.Rand.IntN(3)] = 1 << t.Rand.IntN(8)
				md[3] = 0
			}
		}
		c := newCall(t, t.Rand, false)
		c.prod.N = 0
		what := fmt.Sprintf("metadata %x", md)
		c.cons.Subscribe(from.RequestStream(context.Background(), payload.New([]byte("12345678"), md)))
		if !c.cons.Wait() {
			return
		}
		if c.cons.Errors.Load() != 1 || c.cons.Finals.Load() != 1 || c.cons.Received.Load() != 0 {
			t.Violate("outcome of a stream without a handler", "%s: %s", what, c.cons.Status())
		}
		t.Case(what)
	}
	p.Forgotten("after streams without a handler")
}

// sizes streams elements of all sizes of interest.
func sizes(t *kit.T) {
	rig := rpckit.NewRig(t, false, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	var es []payload.Payload
	for _, c := range []int{0, 128, 255, 256, 4096, 8192, 16384, 65536, 1 << 20} {
		for d := -20; d <= 4; d++ {
			if c+d >= 0 {
				es = append(es, rpckit.Blob(t.Rand.Uint64(), c+d, t.Rand.IntN(5)-1), rpckit.Blob(t.Rand.Uint64(), t.Rand.IntN(5), c+d))
			}
		}
	}
	es = append(es, rpckit.Blob(1, 1<<23, 1<<22), rpckit.Blob(2, 1<<24-1-6, -1))
	for _, block := range []bool{false, true} {
		c := rpckit.NewCall(t.Rand, rpckit.RS, 0, 0)
		c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return flux.FromSlice(es) }
		f := p.Client.RequestStream(context.Background(), c.Request(c.Index(p.Client, false)))
		i := 0
		done := make(chan error, 1)
		s := flux.Subscribe[payload.Payload]{
			OnNext: func(x payload.Payload) {
				if i < len(es) && !rpckit.Same(x, es[i]) {
					t.Violate("element is lost, repeated, reordered or changed", "element %d: %s, emitted %s", i, rpckit.Show(x), rpckit.Show(es[i]))
				}
				i++
			},
		}
		if block {
			go func() { done <- f.Block(s) }()
		} else {
			s.OnComplete = func() { done <- nil }
			s.OnError = func(err error) { done <- err }
			f.Subscribe(s)
		}
		err, _, timely := kit.Recv(done)
		if !timely || err != nil || i != len(es) {
			t.Violate("stream of all sizes", "timely %v, error %v, %d of %d elements", timely, err, i, len(es))
			return
		}
		c.Forget()
	}
	for i, e := range es {
		t.Case(fmt.Sprint(i, rpckit.Show(e)))
	}
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P10",
		Rule:     "Streams between real clients and servers over TCP and memory: handlers that push, answer demand, come from slices, processors and transforms, with completion or error after 0-200 elements; callers with every way of requesting. Each element is compared with the one emitted at its position, every end is counted, and the frames at both ends are checked against the protocol. Distinct by handler, caller and length.",
		Assumptions: []string{
			"Callbacks of a caller do not block (they run on the goroutine that dispatches frames).",
		},
		Scenarios: []kit.Scenario{
			{Name: "all kinds in turn", Yields: []int{0, 2}, Run: scn(1, 6, one)},
			{Name: "sizes", Run: scn(1, 2, sizes)},
			{Name: "without a handler", Run: scn(1, 2, wrong)},
			{Name: "storm in memory", Yields: []int{0, 1, 2}, Run: scn(6, 120, func(t *kit.T) { many(t, true, 1+t.Rand.IntN(3), 10+t.Rand.IntN(20)) })},
			{Name: "storm over TCP", Yields: []int{0, 2}, Run: scn(6, 100, func(t *kit.T) { many(t, false, 1+t.Rand.IntN(3), 10+t.Rand.IntN(20)) })},
			{Name: "storm over TLS", Yields: []int{0, 2}, Run: scn(3, 40, func(t *kit.T) {
				rpckit.WithTLS(func() { many(t, false, 1+t.Rand.IntN(3), 10+t.Rand.IntN(20)) })
			})},
			{Name: "foreign clients", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RS) })},
			{Name: "foreign servers", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RS) })},
		},
	})
}
