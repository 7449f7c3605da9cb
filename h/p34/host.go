//go:build go1.22 && !wasi

package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// guest tells that the code is built as for guests, which have one thread and
// do not block.
const guest = false

func blockFlux(f flux.Flux[int], s flux.Subscribe[int]) error { return f.Block(s) }
func blockMono(m mono.Mono[int]) (int, error)                 { return m.Block() }

func onlyHere(loop func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T)) []kit.Scenario {
	return []kit.Scenario{
		{Name: "races", Yields: []int{0, 1, 2}, Run: loop(2500, 50000, races)},
		{Name: "across a connection", Yields: []int{0, 2}, Run: remote},
	}
}

func num(v int) payload.Payload { p, _ := transform.Int.Encode(v); return p }

func unnum(p payload.Payload) (int, error) { return transform.Int.Decode(p) }

// remote converts what comes from, or goes to, the other end of a connection.
func remote(t *kit.T) {
	r := t.Rand
	rpckit.Use(t)
	rig := rpckit.NewRig(t, r.IntN(2) == 0, false)
	defer rig.Close()
	pair := rig.Connect()
	defer pair.Close()
	var wg sync.WaitGroup
	workers := 8
	for w := 0; w < workers; w++ {
		sub := rand.New(rand.NewPCG(r.Uint64(), uint64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < kit.N(60, 1000) && !t.Failed(); i++ {
				remoteCall(t, sub, pair)
			}
		}()
	}
	wg.Wait()
	if !t.Failed() {
		pair.Forgotten("conversions")
	}
}

func remoteCall(t *kit.T, r *rand.Rand, pair *rpckit.Pair) {
	c, start := source(r)
	for k := r.IntN(3); k > 0; k-- {
		c.step(r)
	}
	handlerSide := c.String()
	go_ := r.IntN(2) == 0
	begin := func() {
		if go_ {
			go start()
		} else {
			start()
		}
	}
	from, imported := pair.Client, false
	if r.IntN(2) == 0 {
		from, imported = pair.Server, true
	}
	var call *rpckit.Call
	// the other end converts to what the kind of request needs
	if r.IntN(2) == 0 {
		call = rpckit.NewCall(r, rpckit.RR, 4, 0)
		if c.f != nil {
			c.m, c.f = transform.FluxToMono(c.f), nil
			switch {
			case len(c.want.elems) > 0:
				c.want = outcome{elems: c.want.elems[:1]}
			case c.want.err == nil:
				c.want.err = errAny
			}
			c.log("mono")
		}
		m := mono.Map(c.m, func(v int) (payload.Payload, error) { return num(v), nil })
		call.OnRR = func(context.Context) mono.Mono[payload.Payload] {
			return mono.Create(func(s mono.Sink[payload.Payload]) {
				m.Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: s.Success, OnError: s.Error})
				begin()
			})
		}
		c.log("| request/response |")
		c.m = mono.Map(from.RequestResponse(context.Background(), call.Request(call.Index(from, imported))), rx.Transform[payload.Payload, int](unnum))
	} else {
		call = rpckit.NewCall(r, rpckit.RS, 4, 0)
		if c.m != nil {
			c.f, c.m = transform.MonoToFlux(c.m), nil
			c.log("flux")
		}
		f := flux.Map(c.f, func(v int) (payload.Payload, error) { return num(v), nil })
		call.OnRS = func(context.Context) flux.Flux[payload.Payload] {
			return flux.Create(func(s flux.Sink[payload.Payload]) {
				f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: s.Next, OnComplete: s.Complete, OnError: s.Error})
				begin()
			})
		}
		c.log("| stream |")
		c.f = flux.Map(from.RequestStream(context.Background(), call.Request(call.Index(from, imported))), rx.Transform[payload.Payload, int](unnum))
	}
	defer call.Forget()
	for k := r.IntN(4); k > 0; k-- {
		c.step(r)
	}
	s := newSeen()
	isFlux := c.f != nil
	if isFlux {
		c.f.Subscribe(flux.Subscribe[int]{OnNext: s.next, OnComplete: s.complete, OnError: s.error, Finally: s.finally})
	} else {
		c.m.Subscribe(mono.Subscribe[int]{OnSuccess: s.success, OnError: s.error, Finally: s.finally})
	}
	what := func() string {
		return fmt.Sprintf("%v\nhandler ran %d times (%s)\nsaw  %v\nwant %v", c, call.Runs.Load(), handlerSide, s, c.want)
	}
	if _, _, timely := kit.Recv(s.done); !timely {
		t.Fatal("converted stream does not end", "%s\n%s", what(), kit.Stacks())
	}
	if v := s.verdict(isFlux, c.want); v != "" {
		t.Violate(v, "%s", what())
	}
	kit.Count("remote calls", 1)
	kit.Count("elements", int64(len(s.elems)))
	t.Case(fmt.Sprint("remote ", c))
	if t.Wants() && len(c.name) > 3 {
		t.Sample("%v -> %v", c, s)
	}
}
