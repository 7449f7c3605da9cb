//go:build go1.22

// The real runtime of guests behind the real host and mesh: calls that cross
// the boundary, however often, do what the operation they end at says.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/verifh/guestlink"
	"github.com/nanobus/iota/go/verifh/guestprog"
	"github.com/nanobus/iota/go/verifh/kit"
)

type ctxt = context.Context

var ctx = context.Background()

// end is one that has operations.
type end struct {
	name    string
	rr      func(op string, data []byte, extra ...byte) mono.Mono[payload.Payload]
	fnf     func(op string, data []byte, extra ...byte)
	rs      func(op string, data []byte, extra ...byte) flux.Flux[payload.Payload]
	rc      func(op string, data []byte, in flux.Flux[payload.Payload], extra ...byte) flux.Flux[payload.Payload]
	guest   *guestlink.Guest
	noted   atomic.Uint64
	notes   atomic.Uint64
	counted func(depth int) *end // where a message of a depth arrives
}

func md(index uint32, extra ...byte) []byte {
	return append(append(binary.BigEndian.AppendUint32(nil, index), 0, 0, 0, 0), extra...)
}

// elem is what is compared of an element.
func elem(data, metadata []byte) []byte {
	return append(append(binary.BigEndian.AppendUint32(nil, uint32(len(data))), data...), metadata...)
}

// instance starts a guest on a host of its own.
func instance(t *kit.T, program string, env ...string) (*guestlink.Guest, *host.Instance) {
	g, err := guestlink.Launch(program, env...)
	if err != nil {
		t.Fatal("the program of a guest does not start", "%s: %v", program, err)
	}
	var inst *host.Instance
	if err := g.As(func() error {
		h, err := host.New(ctx)
		if err != nil {
			return err
		}
		m, err := h.Compile(ctx, guestlink.Wasm)
		if err != nil {
			return err
		}
		inst, err = m.Instantiate(ctx)
		return err
	}); err != nil {
		g.Quit()
		t.Fatal("a guest does not start", "%s: %v; %s", program, err, g.Text())
	}
	kit.Count("guests started", 1)
	return g, inst
}

// of an instance.
func of(name string, i *host.Instance, g *guestlink.Guest) *end {
	return &end{name: name, guest: g,
		rr: func(op string, data []byte, extra ...byte) mono.Mono[payload.Payload] {
			return i.RequestResponse(ctx, payload.New(data, md(i.ImportRequestResponse(name, op), extra...)))
		},
		fnf: func(op string, data []byte, extra ...byte) {
			i.FireAndForget(ctx, payload.New(data, md(i.ImportFireAndForget(name, op), extra...)))
		},
		rs: func(op string, data []byte, extra ...byte) flux.Flux[payload.Payload] {
			return i.RequestStream(ctx, payload.New(data, md(i.ImportRequestStream(name, op), extra...)))
		},
		rc: func(op string, data []byte, in flux.Flux[payload.Payload], extra ...byte) flux.Flux[payload.Payload] {
			return i.RequestChannel(ctx, payload.New(data, md(i.ImportRequestChannel(name, op), extra...)), in)
		},
	}
}

// in a mesh.
func in(m *mesh.Mesh, name string, g *guestlink.Guest) *end {
	return &end{name: name, guest: g,
		rr: func(op string, data []byte, extra ...byte) mono.Mono[payload.Payload] {
			return m.RequestResponse(ctx, name, op, payload.New(data, md(0, extra...)))
		},
		fnf: func(op string, data []byte, extra ...byte) {
			m.FireAndForget(ctx, name, op, payload.New(data, md(0, extra...)))
		},
		rs: func(op string, data []byte, extra ...byte) flux.Flux[payload.Payload] {
			return m.RequestStream(ctx, name, op, payload.New(data, md(0, extra...)))
		},
		rc: func(op string, data []byte, in flux.Flux[payload.Payload], extra ...byte) flux.Flux[payload.Payload] {
			return m.RequestChannel(ctx, name, op, payload.New(data, md(0, extra...)), in)
		},
	}
}

func text(ends []*end) string {
	var b strings.Builder
	for _, e := range ends {
		if e.guest != nil {
			fmt.Fprintf(&b, "%s: %s\n", e.name, e.guest.Text())
		}
	}
	return b.String()
}

// state of a guest.
type state struct {
	open, count, notes, queued uint64
	bad                        string
}

func (e *end) state(t *kit.T) (s state, ok bool) {
	ch := make(chan state, 2)
	e.rr("state", nil).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) {
			b := p.Data()
			if len(b) < 32 {
				ch <- state{bad: fmt.Sprintf("%x", b)}
				return
			}
			u := binary.BigEndian.Uint64
			ch <- state{u(b), u(b[8:]), u(b[16:]), u(b[24:]), string(b[32:])}
		},
		OnError: func(err error) { ch <- state{bad: err.Error()} },
	})
	s, _, timely := kit.Recv(ch)
	if !timely {
		t.Violate("a request is not answered", "state of %s: %s\n%s", e.name, e.guest.Text(), kit.Stacks())
	}
	return s, timely
}

// call makes a random call and compares its outcome.
func call(t *kit.T, r *rand.Rand, e *end, deepest int) bool {
	c := guestprog.Call{Depth: byte(r.IntN(deepest + 1)), Kind: byte(r.IntN(3)), Seed: r.Uint64()}
	switch r.IntN(6) {
	case 0:
		c.N = 0
	case 1:
		c.N = uint16(r.IntN(120))
	default:
		c.N = uint16(r.IntN(12))
	}
	if r.IntN(6) == 0 {
		c.Pad = make([]byte, r.IntN(9000))
	}
	op := r.IntN(8)
	what := fmt.Sprintf("%s %s of %v", []string{"request", "request", "request", "message", "stream", "stream", "channel", "channel"}[op], e.name, c)
	if t.Wants() {
		t.Sample("%s", what)
	}
	ok := true
	switch op {
	case 0, 1, 2:
		ok = request(t, e, c, what)
	case 3:
		c.Kind = guestprog.Plain
		to := e.counted(int(c.Depth))
		to.notes.Add(guestprog.NoteSum(c))
		to.noted.Add(1)
		e.fnf("note", c.Bytes(), c.Extra()...)
		kit.Count("messages", 1)
	case 4, 5:
		if c.Kind == guestprog.Steps {
			c.Kind = guestprog.Plain
		}
		var want [][]byte
		for i := 0; i < int(c.N); i++ {
			want = append(want, elem(guestprog.Elem(c.Seed, i), guestprog.Meta(c.Seed, i)))
		}
		err := ""
		if c.Kind == guestprog.Fails {
			err = guestprog.Text(c.Seed)
		}
		ok = read(t, r, e, what, e.rs("stream", c.Bytes(), c.Extra()...), want, err)
	default:
		ok = channel(t, r, e, c, what)
	}
	t.Case(what)
	kit.Count(fmt.Sprintf("calls that cross the boundary %d times", 1+c.Depth), 1)
	return ok
}

func request(t *kit.T, e *end, c guestprog.Call, what string) bool {
	data, metadata, failure := guestprog.Reply(c)
	want := elem(data, metadata)
	type res struct {
		p   payload.Payload
		err error
	}
	ch := make(chan res, 4)
	e.rr("reply", c.Bytes(), c.Extra()...).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { ch <- res{p, nil} },
		OnError:   func(err error) { ch <- res{nil, err} },
	})
	got, _, timely := kit.Recv(ch)
	if !timely {
		t.Violate("a request is not answered", "%s: %s\n%s", what, e.guest.Text(), kit.Stacks())
		return false
	}
	if failure != "" {
		if got.err == nil || !strings.Contains(got.err.Error(), failure) {
			t.Violate("error of a request", "%s: %v, not %q; %s", what, got.err, failure, e.guest.Text())
			return false
		}
		kit.Count("requests that failed as they had to", 1)
		return true
	}
	if got.err != nil || string(elem(got.p.Data(), got.p.Metadata())) != string(want) {
		t.Violate("reply to a request", "%s: %v, %v; not %.60x (%d); %s", what, got.err, got.p, want, len(want), e.guest.Text())
		return false
	}
	kit.Count("requests answered", 1)
	return true
}

// read consumes a stream in some way.
func read(t *kit.T, r *rand.Rand, e *end, what string, f flux.Flux[payload.Payload], want [][]byte, failure string) bool {
	var mu sync.Mutex
	got, asked, over := 0, 0, ""
	bad := ""
	portion, cancelAt := 0, -1
	if r.IntN(3) > 0 {
		portion = 1 + r.IntN(1+r.IntN(20))
	}
	if r.IntN(5) == 0 {
		cancelAt = r.IntN(len(want) + 1)
	}
	asking := func(s rx.Subscription, n int) {
		mu.Lock()
		asked += n
		mu.Unlock()
		s.Request(n)
	}
	done := make(chan rx.SignalType, 4)
	var cancelled atomic.Bool
	hit := make(chan struct{}, 1)
	sub := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			mu.Lock()
			i := got
			got++
			switch {
			case over != "":
				bad = "an element after " + over
			case i >= len(want):
				bad = fmt.Sprintf("%d elements of %d", got, len(want))
			case string(elem(p.Data(), p.Metadata())) != string(want[i]):
				bad = fmt.Sprintf("element %d is %.40x (%d bytes) with metadata %.40x, not (after its length) %.40x (%d)", i, p.Data(), len(p.Data()), p.Metadata(), want[i], len(want[i])-4)
			case portion > 0 && got > asked:
				bad = fmt.Sprintf("%d elements, %d requested", got, asked)
			}
			mu.Unlock()
			if i == cancelAt {
				cancelled.Store(true)
				hit <- struct{}{}
			}
		},
		OnComplete: func() { mu.Lock(); over += "complete;"; mu.Unlock() },
		OnError:    func(err error) { mu.Lock(); over += "error " + err.Error() + ";"; mu.Unlock() },
		Finally:    func(s rx.SignalType) { done <- s },
	}
	if portion > 0 {
		sub.OnRequest = func(s rx.Subscription) {
			if cancelled.Load() {
				s.Cancel()
				return
			}
			asking(s, portion)
		}
	}
	f.Subscribe(sub)
	if cancelAt >= 0 && portion == 0 {
		// From another goroutine, at any time after.
		select {
		case <-hit:
		case <-time.After(time.Duration(r.IntN(2000)) * time.Microsecond):
		}
		cancelled.Store(true)
		f.Subscription().Cancel()
	}
	if _, _, timely := kit.Recv(done); !timely {
		mu.Lock()
		defer mu.Unlock()
		t.Violate("a stream does not end", "%s, in portions of %d, cancelled at %d: %d of %d elements, %q; %s\n%s", what, portion, cancelAt, got, len(want), over, e.guest.Text(), kit.Stacks())
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		t.Violate("elements of a stream", "%s, in portions of %d, cancelled at %d: %s; %s", what, portion, cancelAt, bad, e.guest.Text())
		return false
	}
	kit.Count("elements received", int64(got))
	if cancelled.Load() {
		kit.Count("streams cancelled", 1)
		return true
	}
	if got != len(want) || failure == "" && over != "complete;" || failure != "" && (!strings.HasPrefix(over, "error ") || !strings.Contains(over, failure) || strings.Count(over, ";") != 1) {
		t.Violate("end of a stream", "%s, in portions of %d: %d of %d elements, ends %q, not error %q; %s", what, portion, got, len(want), over, failure, e.guest.Text())
		return false
	}
	kit.Count("streams read", 1)
	return true
}

var own = &guestprog.Ops{Later: later, Bad: func(string) {}}

func later(f func()) {
	go func() {
		time.Sleep(time.Duration(rand.IntN(400)) * time.Microsecond)
		f()
	}()
}

func channel(t *kit.T, r *rand.Rand, e *end, c guestprog.Call, what string) bool {
	n := r.IntN(1 + r.IntN(60))
	seed := r.Uint64()
	var inErr error
	if r.IntN(5) == 0 {
		inErr = errors.New(guestprog.Text(seed))
	}
	what += fmt.Sprintf(" with %d elements, %v", n, inErr)
	src := own.Source(seed, n, inErr, r.IntN(3))
	var want [][]byte
	failure := ""
	if inErr != nil {
		failure = inErr.Error()
	}
	if c.Kind == guestprog.Steps {
		if failure == "" {
			want = [][]byte{elem(guestprog.Whole(seed, n), nil)}
		}
	} else {
		for i := 0; i < n; i++ {
			if c.Kind == guestprog.Fails && i >= int(c.N) {
				failure = guestprog.Text(c.Seed)
				break
			}
			want = append(want, elem(guestprog.Flip(guestprog.Elem(seed, i)), guestprog.Flip(guestprog.Meta(seed, i))))
		}
	}
	kit.Count("channels", 1)
	return read(t, r, e, what, e.rc("channel", c.Bytes(), src, c.Extra()...), want, failure)
}

// traffic makes calls from several goroutines, until everything has settled.
func traffic(t *kit.T, ends []*end, callers, calls, deepest int) bool {
	stop := make(chan struct{})
	var tick, wg sync.WaitGroup
	tick.Add(1)
	go func() { // guests go on with what they put off
		defer tick.Done()
		idle := guestprog.Call{Kind: 9}.Bytes()
		for {
			select {
			case <-stop:
				return
			case <-time.After(300 * time.Microsecond):
			}
			for _, e := range ends {
				if e.guest != nil {
					e.fnf("note", idle)
				}
			}
		}
	}()
	var reach []*end
	for _, e := range ends {
		if e.rr != nil {
			reach = append(reach, e)
		}
	}
	for g := 0; g < callers; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < calls && !t.Failed(); k++ {
				if !call(t, r, reach[r.IntN(len(reach))], deepest) {
					return
				}
			}
		}()
	}
	wg.Wait()
	settled := func() string {
		for _, e := range ends {
			var s state
			if e.guest != nil {
				var ok bool
				if s, ok = e.state(t); !ok {
					return ""
				}
			} else {
				s = state{open: uint64(hostOps.Open.Load()), count: hostOps.Count.Load(), notes: hostOps.Notes.Load()}
			}
			if s.bad != "" {
				return e.name + ": " + s.bad
			}
			if s.open != 0 || s.queued != 0 {
				return fmt.Sprintf("%s: %d sources are open, %d things put off", e.name, int64(s.open), s.queued)
			}
			if s.count != e.noted.Load() || s.notes != e.notes.Load() {
				return fmt.Sprintf("%s: %d messages (%x), not %d (%x)", e.name, s.count, s.notes, e.noted.Load(), e.notes.Load())
			}
		}
		if n := own.Open.Load(); n != 0 {
			return fmt.Sprintf("%d inputs of channels are open", n)
		}
		return ""
	}
	if !t.Failed() && !kit.Wait(func() bool { return settled() == "" }) {
		t.Violate("not settled after all calls", "%s; %s", settled(), text(ends))
	}
	close(stop)
	tick.Wait()
	if !t.Failed() {
		kit.Count("times everything had settled", 1)
	}
	return !t.Failed()
}

var (
	hostOps *guestprog.Ops
	serve   sync.Once
)

// direct runs a guest with the operations of this process.
func direct(t *kit.T) {
	g, inst := instance(t, "guest", "GUEST_NAME=guest", "GUEST_PEER=host")
	defer g.Quit()
	hostOps = &guestprog.Ops{Peer: inst, Later: later, Bad: func(s string) { t.Violate("on the host", "%s", s) }}
	hostOps.Index = [4]uint32{
		inst.ImportRequestResponse("guest", "reply"), inst.ImportFireAndForget("guest", "note"),
		inst.ImportRequestStream("guest", "stream"), inst.ImportRequestChannel("guest", "channel"),
	}
	serve.Do(func() { // what this process registers serves its guests
		invoke.ExportRequestResponse("host", "reply", func(c ctxt, p payload.Payload) mono.Mono[payload.Payload] {
			kit.Count("requests served from what is registered", 1)
			return hostOps.Reply(c, p)
		})
		invoke.ExportFireAndForget("host", "note", func(c ctxt, p payload.Payload) {
			kit.Count("messages served from what is registered", 1)
			hostOps.Note(c, p)
		})
		invoke.ExportRequestStream("host", "stream", func(c ctxt, p payload.Payload) flux.Flux[payload.Payload] {
			kit.Count("streams served from what is registered", 1)
			return hostOps.Stream(c, p)
		})
		invoke.ExportRequestChannel("host", "channel", func(c ctxt, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			kit.Count("channels served from what is registered", 1)
			return hostOps.Channel(c, p, in)
		})
	})
	for _, op := range inst.Operations() {
		if op.Direction != operations.Import || t.Rand.IntN(2) == 0 {
			continue
		}
		switch op.Operation {
		case "reply":
			inst.SetRequestResponseHandler(op.Index, hostOps.Reply)
		case "note":
			inst.SetFireAndForgetHandler(op.Index, hostOps.Note)
		case "stream":
			inst.SetRequestStreamHandler(op.Index, hostOps.Stream)
		case "channel":
			inst.SetRequestChannelHandler(op.Index, hostOps.Channel)
		}
	}
	a, h := of("guest", inst, g), &end{name: "host"}
	a.counted = func(d int) *end { return []*end{a, h}[d%2] }
	own.Open.Store(0)
	traffic(t, []*end{a, h}, 1+t.Rand.IntN(8), 25, 5)
	closed(t, inst)
}

// closed closes an instance: its program notices nothing, later calls fail.
func closed(t *kit.T, inst *host.Instance) {
	done := make(chan error, 1)
	go func() { done <- inst.Close() }()
	if _, _, timely := kit.Recv(done); !timely {
		t.Violate("an instance does not close", "%s", kit.Stacks())
	}
}

// ring runs guests that import from each other.
func ring(t *kit.T) {
	names := []string{"a", "b.v1", "c", "d"}[:1+t.Rand.IntN(4)]
	m := mesh.New()
	dir, err := os.MkdirTemp(".", "ring")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ends := make([]*end, len(names))
	for _, i := range t.Rand.Perm(len(names)) {
		ends[i] = join(t, m, dir, names[i], "guest", "GUEST_NAME="+names[i], "GUEST_PEER="+names[(i+1)%len(names)])
		defer ends[i].guest.Quit()
	}
	for i, e := range ends {
		e.counted = func(d int) *end { return ends[(i+d)%len(ends)] }
	}
	own.Open.Store(0)
	traffic(t, ends, 1+t.Rand.IntN(8), 25, 7)
	done := make(chan struct{})
	go func() { m.Close(); close(done) }()
	if _, _, timely := kit.Recv(done); !timely {
		t.Violate("a mesh does not close", "%s", kit.Stacks())
	}
}

// join loads a guest into a mesh.
func join(t *kit.T, m *mesh.Mesh, dir, name, program string, env ...string) *end {
	file := filepath.Join(dir, name+".wasm")
	if err := os.WriteFile(file, guestlink.Wasm, 0o600); err != nil {
		panic(err)
	}
	g, err := guestlink.Launch(program, env...)
	if err != nil {
		t.Fatal("the program of a guest does not start", "%s: %v", program, err)
	}
	if err := g.As(func() error { _, err := m.LoadModule(ctx, file); return err }); err != nil {
		g.Quit()
		t.Fatal("a guest does not join", "%s: %v; %s", program, err, g.Text())
	}
	kit.Count("guests that joined a mesh", 1)
	return in(m, name, g)
}

// die ends the program of a guest under load: what is pending fails, and the
// others go on.
func die(t *kit.T) {
	g, inst := instance(t, "guest", "GUEST_NAME=guest", "GUEST_PEER=host")
	defer g.Quit()
	e := of("guest", inst, g)
	var pending []chan string
	for i := 0; i < 20; i++ {
		ch := make(chan string, 4)
		pending = append(pending, ch)
		// Put off: its seed is 2 modulo 3 after the shift. Nobody ticks.
		c := guestprog.Call{Seed: uint64(8*(3*i+2)) + 1}
		e.rr("reply", c.Bytes(), c.Extra()...).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) { ch <- "success" },
			OnError:   func(err error) { ch <- "error " + err.Error() },
		})
		if i == t.Rand.IntN(20) {
			break
		}
	}
	time.Sleep(time.Duration(t.Rand.IntN(3000)) * time.Microsecond)
	g.Quit()
	// The next call notices.
	ch := make(chan string, 4)
	e.rr("state", nil).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(payload.Payload) { ch <- "success" },
		OnError:   func(err error) { ch <- "error " + err.Error() },
	})
	for i, ch := range append(pending, ch) {
		got, _, timely := kit.Recv(ch)
		if !timely {
			t.Violate("a request is not answered", "request %d of %d, of a guest that is gone\n%s", i, len(pending), kit.Stacks())
			return
		}
		if i == len(pending) && got == "success" {
			t.Violate("a guest that is gone answers", "%s", got)
		}
	}
	kit.Count("guests that died", 1)
	t.Case(fmt.Sprint("die", len(pending)))
	closed(t, inst)
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P38",
		Rule:     "Guests - the guest runtime and programs, compiled for this machine - run behind modules of the real host and mesh. Random requests, messages, streams and channels are made from many goroutines, in portions, with cancellations, and passed on between guests and host up to seven times; flows of guests wait for several of them. Distinct by call.",
		Scenarios: []kit.Scenario{
			{Name: "a guest and its host", Yields: []int{0, 1, 2}, Run: scn(6, 120, direct)},
			{Name: "guests in a mesh", Yields: []int{0, 1, 2}, Run: scn(5, 100, ring)},
			{Name: "the customer modules", Yields: []int{0, 2}, Run: scn(5, 100, customers)},
			{Name: "the example guest", Yields: []int{0, 2}, Run: scn(5, 100, greets)},
			{Name: "components in a guest", Yields: []int{0, 2}, Run: scn(5, 100, components)},
			{Name: "programs of hosts", Run: scn(1, 3, hosts)},
			{Name: "guests that die", Yields: []int{0, 2}, Run: scn(5, 100, die)},
		},
	})
}
