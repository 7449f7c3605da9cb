//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

var lengths = []int{0, 1, 2, 3, 10}

// grid runs channels one after the other, over all kinds, lengths and ends.
func grid(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for mode := 0; mode < rpckit.ChanModes; mode++ {
		for _, nin := range lengths {
			for _, nout := range lengths {
				for ends := 0; ends < 4; ends++ {
					if mode == rpckit.Echo && (nout != 0 || ends >= 2) {
						continue
					}
					c := rpckit.NewChan(t, t.Rand, mode, nin, nout, false)
					c.In.Fail, c.Out.Fail = ends&1 != 0 && c.In.Mode != rpckit.Slice, ends&2 != 0 && c.Out.Mode != rpckit.Slice
					from, imported := p.Client, false
					if t.Rand.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					c.Start(from, imported)
					if !c.Finish() {
						return
					}
					t.Case(c.String())
					if t.Rand.IntN(8) == 0 && !p.Forgotten(c.Status()) {
						return
					}
				}
			}
		}
	}
	if p.Forgotten("after all channels ended") {
		rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
		rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
	}
}

// storm runs channels at the same time.
func storm(t *kit.T, mem bool, pairs, calls int) {
	tapped := t.Rand.IntN(2) == 0
	rig := rpckit.NewRig(t, mem, tapped)
	defer rig.Close()
	var ps []*rpckit.Pair
	for i := 0; i < pairs; i++ {
		ps = append(ps, rig.Connect())
	}
	var mu sync.Mutex
	var all []*rpckit.Chan
	var wg sync.WaitGroup
	for _, p := range ps {
		for g := 0; g < 2+t.Rand.IntN(4); g++ {
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < calls; i++ {
					from, imported := p.Client, false
					if r.IntN(3) == 0 {
						from, imported = p.Server, true
					}
					c := rpckit.NewChan(t, r, r.IntN(rpckit.ChanModes), r.IntN(1<<r.IntN(8)), r.IntN(1<<r.IntN(8)), false)
					c.Start(from, imported)
					mu.Lock()
					all = append(all, c)
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	for _, c := range all {
		if !c.Finish() {
			return
		}
		t.Case(c.String())
	}
	if t.Wants() {
		t.Sample("%d connections, %d channels: %s", pairs, len(all), all[len(all)/2].Status())
	}
	for _, p := range ps {
		if p.Forgotten("after all channels ended") && tapped {
			rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
			rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
		}
		p.Close()
	}
}

// closings lets one direction end long before the other, which goes on.
func closings(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for round := 0; round < kit.N(60, 800) && !t.Failed(); round++ {
		outFirst := t.Rand.IntN(2) == 0
		failFirst := t.Rand.IntN(3) == 0 && !outFirst // an error of the output ends both
		inCancel := t.Rand.IntN(4) == 0 && !outFirst  // the handler cancels its input instead
		what := fmt.Sprintf("round %d: output first %v, error %v, handler cancels %v", round, outFirst, failFirst, inCancel)
		in, out := flux.NewProcessor[payload.Payload](), flux.NewProcessor[payload.Payload]()
		var mu sync.Mutex
		var gotIn, gotOut [][]byte
		inEnd, outEnd := make(chan rx.SignalType, 4), make(chan rx.SignalType, 4)
		inCancelled := make(chan bool, 4)
		inAsked := make(chan bool, 100)
		in.OnSubscribe(flux.OnSubscribe{Request: func(int) { inAsked <- true }, Cancel: func() { inCancelled <- true }})
		asked := make(chan bool, 100)
		out.OnSubscribe(flux.OnSubscribe{Request: func(int) { asked <- true }, Cancel: func() { t.Violate("output is cancelled", "%s", what) }})
		var sub rx.Subscription
		c := rpckit.NewCall(t.Rand, rpckit.RC, 4, 0)
		c.OnRC = func(_ context.Context, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			f.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext:  func(x payload.Payload) { mu.Lock(); gotIn = append(gotIn, x.Data()); mu.Unlock() },
				Finally: func(s rx.SignalType) { inEnd <- s },
			})
			sub = f.Subscription()
			return out
		}
		from, imported := p.Client, false
		if t.Rand.IntN(3) == 0 {
			from, imported = p.Server, true
		}
		from.RequestChannel(context.Background(), c.Request(c.Index(from, imported)), in).Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:  func(x payload.Payload) { mu.Lock(); gotOut = append(gotOut, x.Data()); mu.Unlock() },
			Finally: func(s rx.SignalType) { outEnd <- s },
		})
		if _, _, timely := kit.Recv(asked); !timely {
			t.Violate("channel does not start", "%s", what)
			return
		}
		if _, _, timely := kit.Recv(inAsked); !timely {
			t.Violate("input of a channel is not asked for", "%s", what)
			return
		}
		send := func(pr flux.Processor[payload.Payload], got *[][]byte, n int) bool {
			mu.Lock()
			from := len(*got)
			mu.Unlock()
			for i := 0; i < n; i++ {
				pr.Next(payload.New([]byte{byte(from + i)}))
			}
			if !kit.Wait(func() bool { mu.Lock(); defer mu.Unlock(); return len(*got) == from+n }) {
				mu.Lock()
				t.Violate("elements of the other direction", "%s: %d of %d", what, len(*got), from+n)
				mu.Unlock()
				return false
			}
			return true
		}
		expect := func(name string, c chan rx.SignalType, want rx.SignalType) bool {
			s, _, timely := kit.Recv(c)
			if !timely || s != want {
				t.Violate("end of a direction", "%s: %s: timely %v, signal %v, want %v", what, name, timely, s, want)
				return false
			}
			return true
		}
		k := t.Rand.IntN(4)
		if !send(in, &gotIn, k) || !send(out, &gotOut, t.Rand.IntN(4)) {
			return
		}
		if outFirst {
			out.Complete()
			if !expect("output", outEnd, rx.SignalComplete) {
				return
			}
		} else {
			want := rx.SignalComplete
			switch {
			case inCancel:
				want = rx.SignalCancel
				sub.Cancel()
			case failFirst:
				want = rx.SignalError
				in.Error(errors.New("input fails"))
			default:
				in.Complete()
			}
			if !expect("input", inEnd, want) {
				return
			}
			if inCancel {
				if _, _, timely := kit.Recv(inCancelled); !timely {
					t.Violate("input is not cancelled", "%s", what)
					return
				}
			}
		}
		// the other one works on
		for i := 0; i < 1+t.Rand.IntN(3); i++ {
			if outFirst {
				if !send(in, &gotIn, 1+t.Rand.IntN(5)) {
					return
				}
			} else if !send(out, &gotOut, 1+t.Rand.IntN(5)) {
				return
			}
		}
		if len(inEnd)+len(outEnd) > 0 {
			t.Violate("a direction ended with the other", "%s", what)
		}
		if outFirst {
			in.Complete()
			if !expect("input", inEnd, rx.SignalComplete) {
				return
			}
		} else {
			out.Complete()
			if !expect("output", outEnd, rx.SignalComplete) {
				return
			}
		}
		if !p.Forgotten(what) {
			return
		}
		if len(inEnd)+len(outEnd)+len(inCancelled) > 0 {
			t.Violate("several ends", "%s", what)
		}
		mu.Lock()
		for i, x := range gotIn {
			if len(x) != 1 || x[0] != byte(i) {
				t.Violate("input order", "%s: %v", what, gotIn)
			}
		}
		for i, x := range gotOut {
			if len(x) != 1 || x[0] != byte(i) {
				t.Violate("output order", "%s: %v", what, gotOut)
			}
		}
		mu.Unlock()
		c.Forget()
		t.Case(what)
		kit.Count("channels with one direction open", 1)
	}
	rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
	rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
}

// partial lets the handler cancel its input, or the caller the output, while
// elements flow.
func partial(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, true)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for round := 0; round < kit.N(120, 2000) && !t.Failed(); round++ {
		from, imported := p.Client, false
		if t.Rand.IntN(3) == 0 {
			from, imported = p.Server, true
		}
		c := rpckit.NewChan(t, t.Rand, rpckit.Independent, 5+t.Rand.IntN(40), 5+t.Rand.IntN(40), false)
		byHandler := t.Rand.IntN(2) == 0
		if byHandler {
			c.Out.Fail = false
			c.InCons.CancelAt = t.Rand.IntN(5)
		} else {
			c.OutCons.CancelAt = t.Rand.IntN(5)
		}
		c.Start(from, imported)
		if !c.OutCons.Wait() || !c.InCons.Wait() {
			t.Violate("channel does not end", "%s", c.Status())
			c.Quit()
			return
		}
		// A source that is cancelled before it is subscribed need not be told.
		stopped := func(x *rpckit.Prod) bool { return x.Stopped() }
		if byHandler {
			c.OutCons.CheckWhole()
			c.InCons.CheckPrefix("cancelled input")
			if c.InCons.Signal != rx.SignalCancel || c.InCons.Completes.Load()+c.InCons.Errors.Load() != 0 {
				t.Violate("end of a cancelled input", "%v: %s", c.InCons.Signal, c.Status())
			}
			if !kit.Wait(func() bool { return stopped(c.In) }) {
				t.Violate("cancelled input is not stopped", "%s", c.Status())
			}
		} else {
			c.OutCons.CheckPrefix("cancelled output")
			c.InCons.CheckPrefix("input of a cancelled channel")
			if !kit.Wait(func() bool { return stopped(c.In) && stopped(c.Out) }) {
				t.Violate("cancelled channel is not stopped", "%s", c.Status())
			}
		}
		t.Case(c.String() + fmt.Sprint(c.InCons.CancelAt, c.OutCons.CancelAt))
		if !p.Forgotten(c.Status()) {
			return
		}
		if !kit.Wait(func() bool { return stopped(c.In) && (byHandler || stopped(c.Out)) }) {
			t.Violate("cancelled channel is not stopped", "once it is forgotten: %s", c.Status())
		}
		c.C.Forget()
	}
	rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
	rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P12",
		Rule:     "Channels between real clients and servers: handlers that consume their input while, before or instead of emitting, echo it, or ignore it; either direction completing, failing or being cancelled first, with 0-255 elements each way. Elements and ends of both directions are compared with what was emitted, frames with the protocol, and the registries of streams have to be empty afterwards. Distinct by kind, producers and consumers.",
		Assumptions: []string{
			"The caller's input emits only what it is asked for.",
			"An error of the handler's output ends both directions, as RSocket has it.",
			"Callbacks of a caller do not block (they run on the goroutine that dispatches frames).",
		},
		Scenarios: []kit.Scenario{
			{Name: "all kinds in turn", Yields: []int{0, 2}, Run: scn(1, 10, grid)},
			{Name: "one direction first", Yields: []int{0, 1, 2}, Run: scn(1, 4, closings)},
			{Name: "one direction cancelled", Yields: []int{0, 1, 2}, Run: scn(1, 4, partial)},
			{Name: "storm in memory", Yields: []int{0, 1, 2}, Run: scn(4, 80, func(t *kit.T) { storm(t, true, 1+t.Rand.IntN(3), 10+t.Rand.IntN(20)) })},
			{Name: "storm over TCP", Yields: []int{0, 2}, Run: scn(4, 60, func(t *kit.T) { storm(t, false, 1+t.Rand.IntN(3), 10+t.Rand.IntN(20)) })},
			{Name: "foreign clients", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RC) })},
			{Name: "foreign servers", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) { farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RC) })},
		},
	})
}
