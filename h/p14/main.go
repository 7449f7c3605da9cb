//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// Moments of cancellation.
const (
	beforeDemand = iota
	atOnce
	inside
	others
	several
	afterEnd
	moments
)

var momentNames = []string{"before any demand", "at once", "inside a callback", "from elsewhere", "from several places", "after the end"}

// background keeps other streams of the connection busy.
type background struct {
	stop chan bool
	wg   sync.WaitGroup
}

func (b *background) end() { close(b.stop); b.wg.Wait() }

func startBackground(t *kit.T, p *rpckit.Pair, n int) *background {
	b := &background{stop: make(chan bool)}
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 8))
		b.wg.Add(1)
		go func() {
			defer b.wg.Done()
			for !t.Failed() {
				select {
				case <-b.stop:
					return
				default:
				}
				from, imported := p.Client, false
				if r.IntN(3) == 0 {
					from, imported = p.Server, true
				}
				if r.IntN(2) == 0 {
					c := rpckit.NewChan(t, r, r.IntN(rpckit.ChanModes), r.IntN(30), r.IntN(30), false)
					c.Start(from, imported)
					if !c.Finish() {
						return
					}
					continue
				}
				c, prod, cons := newStream(t, r, r.IntN(60))
				prod.Name = "other stream's handler"
				cons.Subscribe(from.RequestStream(context.Background(), c.Request(c.Index(from, imported))))
				if !cons.Wait() || !cons.CheckWhole() {
					return
				}
				c.Forget()
				kit.Count("other streams", 1)
			}
		}()
	}
	return b
}

func newStream(t *kit.T, r *rand.Rand, n int) (*rpckit.Call, *rpckit.Prod, *rpckit.Cons) {
	prod := rpckit.NewProd(t, r, n, false)
	prod.Name = "handler"
	cons := rpckit.NewCons(t, r, prod)
	cons.Name = "caller"
	prod.Limit = cons.Requested.Load
	c := rpckit.NewCall(r, rpckit.RS, r.IntN(50), r.IntN(20))
	c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
	return c, prod, cons
}

// cancelling runs streams that are cancelled at some moment.
func cancelling(t *kit.T, mem bool, rounds int) {
	tapped := t.Rand.IntN(2) == 0
	rig := rpckit.NewRig(t, mem, tapped)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	b := startBackground(t, p, t.Rand.IntN(4))
	var wg sync.WaitGroup
	for g := 0; g < 1+t.Rand.IntN(4); g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 6))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < rounds && !t.Failed(); i++ {
				from, imported := p.Client, false
				if r.IntN(3) == 0 {
					from, imported = p.Server, true
				}
				if r.IntN(3) == 0 {
					channel(t, r, from, imported)
				} else {
					stream(t, r, from, imported)
				}
			}
		}()
	}
	wg.Wait()
	b.end()
	if !t.Failed() && p.Forgotten("after the cancellations") && tapped {
		rpckit.CheckWire(t, "server", p.ServerTap.Events(), true)
		rpckit.CheckWire(t, "client", p.ClientTap.Events(), true)
	}
}

// prepare chooses the moment and returns what to do after the subscription.
func prepare(r *rand.Rand, cons *rpckit.Cons, moment int) func() {
	switch moment {
	case beforeDemand:
		cons.Mode = rpckit.External
		cons.Plan.Store(-1) // requests nothing
		return cons.Cancel
	case atOnce:
		return cons.Cancel
	case inside:
		cons.CancelAt = r.IntN(max(1, min(cons.Src.N, 20)))
		return func() {}
	case others, several:
		n := 1
		if moment == several {
			n = 2 + r.IntN(4)
		}
		at, d := int64(r.IntN(12)), time.Duration(r.IntN(300))*time.Microsecond
		return func() {
			for k := 0; k < n; k++ {
				go func() {
					kit.WaitFor(2*time.Millisecond, func() bool { return cons.Received.Load() >= at || cons.Finals.Load() > 0 })
					if at == 0 {
						time.Sleep(d)
					}
					cons.Cancel()
				}()
			}
		}
	default:
		return func() {
			if cons.Wait() {
				cons.CheckWhole()
				cons.Cancel()
				cons.Cancel()
			}
		}
	}
}

func stream(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool) {
	n := r.IntN(60)
	moment := r.IntN(moments)
	c, prod, cons := newStream(t, r, n)
	if moment != afterEnd && prod.Mode != rpckit.Slice && r.IntN(2) == 0 {
		prod.Hang = true
		if r.IntN(2) == 0 {
			prod.N = 1 << 30
			prod.Big = false
		}
	}
	if (cons.Mode == rpckit.Blocking && moment != afterEnd) || (prod.Mode == rpckit.PushSync && prod.N > 1000) {
		cons.Mode, prod.Mode = rpckit.Unbounded, rpckit.PushAsync
	}
	if prod.Hang && moment == inside && prod.N == 0 {
		prod.N = 1 // or there is nothing to cancel at
	}
	then := prepare(r, cons, moment)
	what := func() string { return momentNames[moment] + ": " + cons.Status() }
	f := from.RequestStream(context.Background(), c.Request(c.Index(from, imported)))
	cons.Subscribe(f)
	then()
	if !cons.Wait() {
		t.Violate("cancelled stream does not end", "%s", what())
		prod.Quit()
		return
	}
	cons.CheckPrefix(what())
	if moment == inside && int(cons.Received.Load()) > cons.CancelAt+1 {
		t.Violate("element after the cancellation", "%s", what())
	}
	if moment == inside && prod.N > cons.CancelAt && cons.Signal != rx.SignalCancel {
		t.Violate("end of a cancelled stream", "%v: %s", cons.Signal, what())
	}
	if moment == beforeDemand && (cons.Received.Load() != 0 || cons.Signal != rx.SignalCancel) {
		t.Violate("end of a cancelled stream", "%v: %s", cons.Signal, what())
	}
	if !kit.Wait(prod.Stopped) {
		t.Violate("producer is not told to stop", "%s\n%s", what(), kit.Stacks())
		prod.Quit()
	}
	if moment == beforeDemand && c.Runs.Load() != 0 {
		t.Violate("stream without demand reached its handler", "%s", what())
	}
	if moment == afterEnd && prod.Cancels.Load() != 0 {
		t.Violate("finished producer is cancelled", "%s", what())
	}
	cons.Quit()
	t.Case(what())
	kit.Count("streams cancelled "+momentNames[moment], 1)
	if prod.Ended.Load() {
		kit.Count("cancellations that lost the race to the end", 1)
	}
	time.AfterFunc(time.Second, c.Forget)
}

func channel(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool) {
	c := rpckit.NewChan(t, r, []int{rpckit.Independent, rpckit.Echo, rpckit.Ignore}[r.IntN(3)], 1+r.IntN(40), 1+r.IntN(40), false)
	moment := r.IntN(moments - 1) // not after the end
	if r.IntN(2) == 0 && c.In.Mode != rpckit.Slice {
		c.In.Hang = true
	}
	if r.IntN(2) == 0 && c.Out.Mode != rpckit.Slice {
		c.Out.Hang = true
	}
	if c.OutCons.Mode == rpckit.Blocking {
		c.OutCons.Mode = rpckit.Unbounded
	}
	c.InCons.ForeignEnd = true
	then := prepare(r, c.OutCons, moment)
	what := func() string { return momentNames[moment] + ": " + c.Status() }
	c.Start(from, imported)
	then()
	if !c.OutCons.Wait() {
		t.Violate("cancelled channel does not end", "%s", what())
		c.Quit()
		return
	}
	c.OutCons.CheckPrefix(what())
	ended := c.OutCons.Signal != rx.SignalCancel
	if !ended && !kit.Wait(func() bool { return c.In.Stopped() && c.Out.Stopped() }) {
		t.Violate("producer is not told to stop", "%s\n%s", what(), kit.Stacks())
	}
	if ended { // the output ended first: end the input, too
		switch c.Mode {
		case rpckit.Independent:
			if !c.Out.Fail && !c.In.Hang && !c.InCons.Wait() {
				t.Violate("channel does not end", "%s", what())
			} else if c.In.Hang && c.InCons.Finals.Load() == 0 {
				c.InCons.Cancel()
			}
		}
	} else if c.Mode == rpckit.Independent && c.C.Runs.Load() == 1 {
		if !c.InCons.Wait() {
			t.Violate("handler's input does not end with the cancelled channel", "%s", what())
		}
		c.InCons.CheckPrefix(what())
	}
	c.Quit()
	t.Case(what())
	kit.Count("channels cancelled "+momentNames[moment], 1)
	time.AfterFunc(time.Second, c.C.Forget)
}

// racing ends calls in several ways at once while they are requested.
func racing(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(3) > 0, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for batch := 0; batch < kit.N(30, 400) && !t.Failed(); batch++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			r := rand.New(rand.NewPCG(t.Rand.Uint64(), 14))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 24 && !t.Failed(); i++ {
					race(t, r, p)
				}
			}()
		}
		wg.Wait()
		if !t.Failed() {
			p.Forgotten("after calls that ended in several ways at once")
		}
	}
}

var errRace = errors.New("this ends it")

func race(t *kit.T, r *rand.Rand, p *rpckit.Pair) {
	from, imported := p.Client, false
	if r.IntN(3) == 0 {
		from, imported = p.Server, true
	}
	kind := []int{rpckit.RC, rpckit.RC, rpckit.RS}[r.IntN(3)]
	c := rpckit.NewCall(r, kind, r.IntN(20), 0)
	defer time.AfterFunc(time.Second, c.Forget)

	// What happens, each in a goroutine of its own after a while.
	const (
		demand = 1 << iota
		inComplete
		inError
		outComplete
		outError
		inRefused // the handler cancels its input
		inRead
	)
	events := demand | 1<<(1+r.IntN(6)) | 1<<(1+r.IntN(6))
	if r.IntN(2) == 0 {
		events = demand // only the cancellation
	}
	if r.IntN(2) == 0 {
		events |= inRead
	}
	var waits [8]int
	for i := range waits {
		waits[i] = r.IntN(60)
		waits[i] *= waits[i] / 4
	}
	requests := 1 + r.IntN(3)
	at := func(event, i int, f func()) {
		if events&event != 0 {
			go func() { idle(waits[i]); f() }()
		}
	}

	c.OnRS = func(context.Context) flux.Flux[payload.Payload] {
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			at(outComplete, 3, s.Complete)
			at(outError, 4, func() { s.Error(errRace) })
		})
	}
	var ins, inFinals atomic.Int32
	c.OnRC = func(_ context.Context, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if events&(inRead|inRefused) != 0 {
			ins.Add(1)
			in.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext:  func(payload.Payload) { t.Violate("an element from nowhere", "%v", c) },
				Finally: func(rx.SignalType) { inFinals.Add(1) },
			})
			at(inRefused, 5, in.Subscription().Cancel)
		}
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			at(outComplete, 3, s.Complete)
			at(outError, 4, func() { s.Error(errRace) })
		})
	}
	var f flux.Flux[payload.Payload]
	var in, cancelled atomic.Int32
	over := make(chan rx.SignalType, 1)
	if req := c.Request(c.Index(from, imported)); kind == rpckit.RS {
		f = from.RequestStream(context.Background(), req)
	} else {
		f = from.RequestChannel(context.Background(), req, flux.Create(func(s flux.Sink[payload.Payload]) {
			in.Add(1)
			s.OnSubscribe(flux.OnSubscribe{Cancel: func() { cancelled.Add(1) }})
			at(inComplete, 1, s.Complete)
			at(inError, 2, func() { s.Error(errRace) })
			go func() {
				if <-over == rx.SignalComplete {
					s.Complete() // or it goes on: nothing else ends it
				}
			}()
		}))
	}
	ends := make(chan rx.SignalType, 4)
	var finals atomic.Int32
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:    func(payload.Payload) { t.Violate("an element from nowhere", "%v", c) },
		Finally:   func(s rx.SignalType) { finals.Add(1); ends <- s },
		NoRequest: true,
	})
	s := f.Subscription()
	at(demand, 0, func() {
		for i := 0; i < requests; i++ {
			s.Request(1)
		}
	})
	if events&^inRead != demand {
		time.Sleep(time.Duration(waits[6]*[]int{1, 3, 9}[r.IntN(3)]) * time.Microsecond)
	}
	idle(waits[7])
	s.Cancel()
	what := func() string {
		return fmt.Sprintf("events %b, channel %v, waits %v: input subscribed %d times and cancelled %d times, at the handler %d times and ended %d times", events, kind == rpckit.RC, waits, in.Load(), cancelled.Load(), ins.Load(), inFinals.Load())
	}
	sig, _, timely := kit.Recv(ends)
	if !timely || sig != rx.SignalCancel && events&(outComplete|outError|inError) == 0 {
		t.Violate("cancelled stream does not end", "%v %v: %s", sig, timely, what())
	}
	over <- sig
	if events&(inComplete|inError|outComplete|outError|inRefused) == 0 && !kit.Wait(func() bool { return in.Load() == cancelled.Load() }) {
		t.Violate("producer is not told to stop", "%s", what())
	}
	t.Case(fmt.Sprint("racing", kind, events, waits, sig))
	kit.Count("calls that ended in several ways at once", 1)
	kit.Count("of them ended by "+sig.String(), 1)
}

var spin atomic.Int64

func idle(n int) {
	for i := 0; i < n; i++ {
		spin.Add(1)
	}
}

// late lets a raw server send frames on streams that its client has cancelled.
func late(t *kit.T) {
	mine, theirs := rpckit.MemPair(t.Rand)
	defer theirs.Close()
	x := rpckit.NewRaw(theirs)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	h, tr, _ := rpckit.NewClient(ctx, mine)
	defer tr.Close()
	md := make([]byte, 8)
	id := uint32(0)
	for round := 0; round < kit.N(200, 3000) && !t.Failed(); round++ {
		prod := rpckit.NewProd(t, t.Rand, 1000, false)
		prod.Mode = rpckit.Slice
		cons := rpckit.NewCons(t, t.Rand, prod)
		cons.Mode = rpckit.Unbounded
		cons.Name = "caller"
		isChan := t.Rand.IntN(2) == 0
		var f flux.Flux[payload.Payload]
		var in *rpckit.Prod
		if isChan {
			in = rpckit.NewProd(t, t.Rand, 1000, false)
			in.Mode = rpckit.Demand
			in.Hang = true
			f = h.RequestChannel(ctx, payload.New([]byte("x"), md), in.Flux())
		} else {
			f = h.RequestStream(ctx, payload.New([]byte("x"), md))
		}
		cons.Subscribe(f)
		if !kit.Wait(func() bool {
			return x.See(func() bool {
				for s := range x.Reqs {
					if s > id {
						id = s
						return true
					}
				}
				return false
			})
		}) {
			t.Fatal("request is not sent", "%s", cons.Status())
		}
		k := t.Rand.IntN(4)
		send := func(fs ...[]byte) {
			var b []byte
			for _, f := range fs {
				b = append(b, f...)
			}
			_, _ = theirs.Write(b)
		}
		elem := func(i int) []byte {
			e := prod.Elem(i)
			if len(e.Metadata()) == 0 {
				return rpckit.Frame(id, 10, 32, e.Data()...)
			}
			m := e.Metadata()
			return rpckit.Frame(id, 10, 32|256, append([]byte{byte(len(m) >> 16), byte(len(m) >> 8), byte(len(m))}, append(m, e.Data()...)...)...)
		}
		for i := 0; i < k; i++ {
			send(elem(i))
		}
		if isChan {
			send(rpckit.Frame(id, 8, 0, 0, 0, 0, 2))
		}
		if !kit.Wait(func() bool { return cons.Received.Load() == int64(k) && (in == nil || in.Emitted.Load() == 2) }) {
			t.Violate("elements do not arrive", "%d: %s", k, cons.Status())
			return
		}
		how := t.Rand.IntN(3)
		if isChan && t.Rand.IntN(3) == 0 {
			how = 3
		}
		switch how {
		case 3: // cancelled while the output completes
			late := make(chan bool)
			go func() { cons.Cancel(); close(late) }()
			if t.Rand.IntN(2) == 0 {
				runtime.Gosched()
			}
			send(rpckit.Frame(id, 10, 64))
			if !cons.Wait() {
				return
			}
			<-late
			if how = 1; cons.Signal == rx.SignalCancel {
				how = 0
				if !kit.Wait(func() bool { return in.Cancels.Load() == 1 }) {
					t.Violate("input of a cancelled channel is not stopped", "cancelled while its output completed: %s", in.Status())
				}
				kit.Count("channels cancelled while they complete", 1)
			}
		case 0:
			cons.Cancel()
			if !kit.Wait(func() bool { return x.See(func() bool { return x.Cancel[id] == 1 }) }) {
				t.Violate("cancellation is not sent", "%s", cons.Status())
				return
			}
			if isChan && !kit.Wait(func() bool { return in.Cancels.Load() == 1 }) {
				t.Violate("input of a cancelled channel is not stopped", "%s", in.Status())
			}
		case 1:
			send(rpckit.Frame(id, 10, 64))
		case 2:
			send(rpckit.Frame(id, 11, 0, 0, 0, 2, 1, 'x'))
		}
		if !cons.Wait() {
			return
		}
		before := cons.Received.Load()
		asked := int64(0)
		if isChan {
			asked = in.Asked.Load()
		}
		// what comes now is late
		lateFrames := [][]byte{elem(k), rpckit.Frame(id, 10, 64), rpckit.Frame(id, 10, 96, 1), rpckit.Frame(id, 11, 0, 0, 0, 2, 1, 'y'), rpckit.Frame(id, 9, 0), rpckit.Frame(id, 8, 0, 0, 0, 0, 9), elem(k)}
		t.Rand.Shuffle(len(lateFrames), func(i, j int) { lateFrames[i], lateFrames[j] = lateFrames[j], lateFrames[i] })
		if isChan && how == 1 {
			// only this direction is finished
			lateFrames = [][]byte{elem(k), elem(k + 1), rpckit.Frame(id, 10, 64)}
		}
		send(lateFrames[:1+t.Rand.IntN(len(lateFrames))]...)
		if isChan && how == 1 {
			send(rpckit.Frame(id, 9, 0)) // now the other one, too
			if !kit.Wait(func() bool { return in.Cancels.Load() == 1 }) {
				t.Violate("cancelled input is not stopped", "%s", in.Status())
			}
			send(rpckit.Frame(id, 8, 0, 0, 0, 0, 9))
		}
		// the connection still works
		got := make(chan string, 2)
		h.RequestResponse(ctx, payload.New([]byte("ping"), md)).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { got <- string(p.Data()) },
			OnError:   func(err error) { got <- "error " + err.Error() },
		})
		ping := uint32(0)
		if !kit.Wait(func() bool {
			return x.See(func() bool {
				for s, typ := range x.Reqs {
					if s > id && typ == 4 {
						ping = s
						return true
					}
				}
				return false
			})
		}) {
			t.Fatal("connection is lost after late frames", "%s", cons.Status())
		}
		send(rpckit.Frame(ping, 10, 96, 'o', 'k'))
		if s, _, timely := kit.Recv(got); !timely || s != "ok" {
			t.Fatal("connection is lost after late frames", "%q %s", s, cons.Status())
		}
		id = ping
		if cons.Received.Load() != before || cons.Finals.Load() != 1 {
			t.Violate("late frame is delivered", "%s", cons.Status())
		}
		if isChan && in.Asked.Load() != asked {
			t.Violate("late demand is delivered", "%s", in.Status())
		}
		if !kit.Wait(func() bool { return rpckit.Streams(h) == 0 }) {
			t.Violate("streams are not forgotten", "%d, round %d, way %d, channel %v: %s", rpckit.Streams(h), round, how, isChan, cons.Status())
			return
		}
		t.Case(fmt.Sprint(round, k, how, isChan))
		kit.Count("streams with late frames at the caller", 1)
	}
}

// lateServer sends frames to a server on streams that are over.
func lateServer(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, false)
	defer rig.Close()
	conn, err := rig.Dial()
	if err != nil {
		t.Fatal("connection refused", "%v", err)
	}
	defer conn.Close()
	x := rpckit.NewRaw(conn)
	_, _ = conn.Write(rpckit.SetupFrame())
	id := uint32(1)
	for round := 0; round < kit.N(200, 3000) && !t.Failed(); round++ {
		n := t.Rand.IntN(20)
		prod := rpckit.NewProd(t, t.Rand, n, false)
		prod.Name = "handler"
		prod.Hang = prod.Mode != rpckit.Slice && t.Rand.IntN(2) == 0
		kind := rpckit.RS
		if t.Rand.IntN(2) == 0 {
			kind = rpckit.RC
		}
		c := rpckit.NewCall(t.Rand, kind, 0, 0)
		var mu sync.Mutex
		inNext, inEnds := 0, 0
		c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
		c.OnRC = func(_ context.Context, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			in.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext:  func(payload.Payload) { mu.Lock(); inNext++; mu.Unlock() },
				Finally: func(rx.SignalType) { mu.Lock(); inEnds++; mu.Unlock() },
			})
			return prod.Flux()
		}
		demand := uint32(1 + t.Rand.IntN(30))
		buf := c.RequestFrame(id, demand)
		cancel := rpckit.Frame(id, 9, 0)
		glued := t.Rand.IntN(3) == 0 // the cancel follows the request at once
		if !glued {
			_, _ = conn.Write(buf)
			buf = nil
			want := int(min(int64(demand), int64(n)))
			if !kit.Wait(func() bool { return x.See(func() bool { return x.Next[id] >= want }) }) {
				t.Violate("stream stalls below its demand", "%d requested: %s", demand, prod.Status())
				return
			}
		}
		buf = append(buf, cancel...)
		for k := t.Rand.IntN(6); k > 0; k-- {
			switch t.Rand.IntN(6) {
			case 0:
				buf = append(buf, cancel...)
			case 1:
				buf = append(buf, rpckit.Frame(id, 8, 0, binary.BigEndian.AppendUint32(nil, 1+t.Rand.Uint32N(100))...)...)
			case 2:
				buf = append(buf, rpckit.Frame(id, 10, 32, 'z')...)
			case 3:
				buf = append(buf, rpckit.Frame(id, 10, 64)...)
			case 4:
				buf = append(buf, rpckit.Frame(id, 11, 0, 0, 0, 2, 1)...)
			case 5:
				buf = append(buf, rpckit.Frame(id, 10, 96, 'z')...)
			}
		}
		_, _ = conn.Write(buf)
		if !kit.Wait(func() bool { return c.Runs.Load() == 1 && prod.Subscribed.Load() == 1 && prod.Stopped() }) {
			t.Violate("producer is not told to stop", "glued %v: handler ran %d times: %s", glued, c.Runs.Load(), prod.Status())
			return
		}
		if kind == rpckit.RC && !kit.Wait(func() bool { mu.Lock(); defer mu.Unlock(); return inEnds == 1 }) {
			t.Violate("handler's input does not end with the cancelled channel", "glued %v: %d ends", glued, inEnds)
		}
		// the connection still works
		id += 2
		ping := rpckit.NewCall(t.Rand, rpckit.RR, 0, 0)
		ping.OnRR = func(context.Context) mono.Mono[payload.Payload] {
			return mono.Just[payload.Payload](payload.New([]byte("ok")))
		}
		_, _ = conn.Write(ping.RequestFrame(id, 0))
		if !kit.Wait(func() bool { return x.See(func() bool { return x.End[id] == 1 && string(x.Data[id]) == "ok" }) }) {
			t.Violate("connection is lost after late frames", "%s", prod.Status())
			return
		}
		mu.Lock()
		if inNext > 0 || inEnds > 1 {
			t.Violate("late frame is delivered", "%d elements, %d ends", inNext, inEnds)
		}
		mu.Unlock()
		if x.See(func() bool { return x.End[id-2] > 1 }) {
			t.Violate("stream ends twice", "%s", prod.Status())
		}
		t.Case(fmt.Sprint(round, prod, demand, kind, glued))
		kit.Count("streams with late frames at the handler", 1)
		c.Forget()
		ping.Forget()
		id += 2
	}
	select {
	case h := <-rig.Accepted:
		if h != nil && !kit.Wait(func() bool { return rpckit.Streams(h) <= 0 }) {
			t.Violate("streams are not forgotten", "%d", rpckit.Streams(h))
		}
	default:
	}
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P14",
		Rule:     "Streams and channels, many without an end of their own, cancelled before any demand, at once, inside a callback, from other goroutines, several times, or after the end, while other streams of the connection run; calls whose request, cancellation and ends of both directions race each other; and raw peers that send frames on streams that are over. Producers' hooks, callers' callbacks, frames and stream registries are checked, and the other streams have to arrive whole. Distinct by moment and what was observed.",
		Assumptions: []string{
			"One element that was on its way may still arrive after a cancellation from another goroutine has returned; none after one from inside a callback.",
			"One request for elements that was on its way may still reach a producer after its cancellation.",
			"A request/response call has no way of being cancelled.",
		},
		Scenarios: []kit.Scenario{
			{Name: "cancelling in memory", Yields: []int{0, 1, 2}, Run: scn(6, 100, func(t *kit.T) { cancelling(t, true, 40) })},
			{Name: "cancelling over TCP", Yields: []int{0, 2}, Run: scn(6, 80, func(t *kit.T) { cancelling(t, false, 40) })},
			{Name: "ends that race", Yields: []int{0, 2, 2}, Run: scn(1, 4, racing)},
			{Name: "foreign clients", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) {
				farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RR, rpckit.RS, rpckit.RC)
			})},
			{Name: "foreign servers", Yields: []int{0, 1}, Run: scn(4, 60, func(t *kit.T) {
				farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), rpckit.RR, rpckit.RS, rpckit.RC)
			})},
			{Name: "late frames to the caller", Yields: []int{0, 2}, Run: scn(1, 3, late)},
			{Name: "late frames to the handler", Yields: []int{0, 2}, Run: scn(1, 3, lateServer)},
		},
	})
}
