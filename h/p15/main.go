//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// Exchanges that have to work on a connection nobody attacks.
func healthy(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool, what string) bool {
	switch r.IntN(4) {
	case 0, 1:
		return ping(t, r, from, imported, what)
	case 2:
		n := r.IntN(30)
		prod := rpckit.NewProd(t, r, n, false)
		prod.Name = "handler"
		cons := rpckit.NewCons(t, r, prod)
		cons.Name = "caller on " + what
		c := rpckit.NewCall(r, rpckit.RS, r.IntN(50), 0)
		c.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
		cons.Subscribe(from.RequestStream(context.Background(), c.Request(c.Index(from, imported))))
		if !cons.Wait() || !cons.CheckWhole() {
			return false
		}
		c.Forget()
	case 3:
		c := rpckit.NewChan(t, r, []int{rpckit.Independent, rpckit.Echo}[r.IntN(2)], r.IntN(12), r.IntN(12), false)
		c.Start(from, imported)
		if !c.Finish() {
			return false
		}
	}
	kit.Count("exchanges on other connections", 1)
	return true
}

// ping makes one call that has to be answered.
func ping(t *kit.T, r *rand.Rand, from *handler.Handler, imported bool, what string) bool {
	c := rpckit.NewCall(r, rpckit.RR, r.IntN(100), 0)
	want := rpckit.Blob(r.Uint64(), r.IntN(100), -1)
	c.OnRR = func(context.Context) mono.Mono[payload.Payload] { return mono.Just(want) }
	got := make(chan error, 4)
	from.RequestResponse(context.Background(), c.Request(c.Index(from, imported))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) {
			if !bytes.Equal(p.Data(), want.Data()) {
				got <- fmt.Errorf("got %s", rpckit.Show(p))
				return
			}
			got <- nil
		},
		OnError: func(err error) { got <- err },
	})
	err, _, timely := kit.Recv(got)
	if !timely || err != nil {
		t.Violate("healthy connection is disturbed", "%s: timely %v, %v\n%s", what, timely, err, kit.Stacks())
		return false
	}
	c.Forget()
	kit.Count("exchanges on other connections", 1)
	return true
}

// hostile generates what a bad peer sends.
type hostile struct {
	r    *rand.Rand
	asks bool // only well delimited and well formed frames
	ids  []uint32
}

func (h *hostile) id() uint32 {
	switch h.r.IntN(12) {
	case 0:
		return 0
	case 1:
		return h.r.Uint32()
	case 2:
		return 0x7fffffff - h.r.Uint32N(3)
	case 3:
		return 0x80000000 | h.r.Uint32N(20)
	}
	if len(h.ids) > 0 && h.r.IntN(3) > 0 {
		return h.ids[h.r.IntN(len(h.ids))]
	}
	id := 1 + h.r.Uint32N(40)
	h.ids = append(h.ids, id)
	return id
}

func (h *hostile) bytes(max int) []byte {
	b := make([]byte, h.r.IntN(1+h.r.IntN(max)))
	for i := range b {
		b[i] = byte(h.r.Uint32())
	}
	return b
}

var numbers = []uint32{0, 1, 2, 3, 7, 100, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}

func (h *hostile) num() uint32 { return numbers[h.r.IntN(len(numbers))] }

// route is a metadata prefix.
func (h *hostile) route() []byte {
	switch h.r.IntN(6) {
	case 0:
		return h.bytes(12)
	case 1:
		return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, h.num()), h.num())
	case 2:
		return nil
	case 3: // cut, or of an operation that is almost there
		return binary.BigEndian.AppendUint64(nil, uint64(h.r.Uint32N(rpckit.Ops+2))<<32)[:h.r.IntN(9)]
	}
	return append(binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, h.r.Uint32N(rpckit.Ops)), 0), h.bytes(20)...)
}

func u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }

// data never names a call of the harness.
func (h *hostile) data() []byte {
	switch h.r.IntN(4) {
	case 0:
		return nil
	case 1:
		return h.bytes(7)
	}
	return append(bytes.Repeat([]byte{0xee}, 8), h.bytes(1<<(1+h.r.IntN(12)))...)
}

// well is a well formed frame, without its length.
func (h *hostile) well() []byte {
	typ := []uint16{4, 5, 6, 7, 8, 9, 10, 11, 4, 6, 7, 8, 9, 10}[h.r.IntN(14)]
	var flags uint16
	var body []byte
	switch typ {
	case 8:
		body = binary.BigEndian.AppendUint32(nil, h.num())
	case 9:
	case 11:
		body = append(binary.BigEndian.AppendUint32(nil, h.num()), h.data()...)
	default:
		if typ == 6 || typ == 7 {
			body = binary.BigEndian.AppendUint32(nil, h.num())
		}
		if h.r.IntN(5) > 0 {
			flags |= 256
			md := h.route()
			body = append(append(body, u24(len(md))...), md...)
		}
		body = append(body, h.data()...)
		if typ == 10 {
			flags |= uint16(h.r.IntN(4)) << 5
		}
		if h.r.IntN(8) == 0 {
			flags |= 128 // follows
		}
		if typ == 7 && h.r.IntN(3) == 0 {
			flags |= 64
		}
	}
	id := h.id()
	b := binary.BigEndian.AppendUint32(nil, id)
	b = binary.BigEndian.AppendUint16(b, typ<<10|flags)
	return append(b, body...)
}

// ill is a frame that may be anything.
func (h *hostile) ill() []byte {
	b := h.well()
	switch h.r.IntN(8) {
	case 0: // truncated
		b = b[:h.r.IntN(len(b)+1)]
	case 1: // bits flipped
		for k := 1 + h.r.IntN(3); k > 0; k-- {
			b[h.r.IntN(min(len(b), 20))] ^= 1 << h.r.IntN(8)
		}
	case 2: // any header
		b[4], b[5] = byte(h.r.Uint32()), byte(h.r.Uint32())
	case 3: // metadata that is longer than the frame
		typ := []uint16{4, 5, 6, 7, 10}[h.r.IntN(5)]
		b = append(b[:4], byte(typ>>6), byte(typ<<2)|1)
		if typ == 6 || typ == 7 {
			b = binary.BigEndian.AppendUint32(b, h.num())
		}
		b = append(b, u24([]int{1, 8, 100, 1<<24 - 1, 1 << 23, 0xffff}[h.r.IntN(6)])...)
		b = append(b, h.bytes(20)...)
	case 4:
		b = h.bytes(60)
	case 5: // another setup
		b = h.setup()
	case 6: // types nobody expects here
		typ := []uint16{0, 1, 2, 3, 12, 13, 14, 62, 63}[h.r.IntN(9)]
		b = binary.BigEndian.AppendUint32(nil, []uint32{0, 0, 1, 2}[h.r.IntN(4)])
		b = binary.BigEndian.AppendUint16(b, typ<<10|uint16(h.r.IntN(1024)))
		b = append(b, h.bytes(40)...)
	case 7: // long
		b = append(b, make([]byte, h.r.IntN(200000))...)
	}
	return b
}

func (h *hostile) setup() []byte {
	b := rpckit.SetupFrame()[3:]
	switch h.r.IntN(5) {
	case 0:
		b = b[:h.r.IntN(len(b)+1)]
	case 1:
		for k := 1 + h.r.IntN(4); k > 0; k-- {
			b[h.r.IntN(len(b))] ^= 1 << h.r.IntN(8)
		}
	case 2: // resume tokens and mime types that reach beyond the frame
		b[4], b[5] = 4, byte(h.r.Uint32())
		copy(b[18:], h.bytes(8))
	case 3: // number of operations
		i := bytes.Index(b, invoke.GetOperationsTable().ToBytes()[:6])
		if i > 0 && i+10 <= len(b) {
			binary.BigEndian.PutUint32(b[i+6:], []uint32{0, 1, 1 << 20, 1 << 31, 1<<32 - 1}[h.r.IntN(5)])
		}
	}
	return b
}

func delimited(b []byte) []byte { return append(u24(len(b)), b...) }

// stream of bytes of a hostile peer. It tells whether it is made of well
// formed frames.
func (h *hostile) next() []byte {
	if h.asks {
		return delimited(h.well())
	}
	switch h.r.IntN(10) {
	case 0: // wrong length
		b := h.ill()
		return append(u24(h.r.IntN(1<<(1+h.r.IntN(24)))), b...)
	case 1:
		return h.bytes(300)
	case 2, 3, 4:
		return delimited(h.well())
	}
	return delimited(h.ill())
}

// attack opens one connection to the server and misbehaves on it.
func attack(t *kit.T, r *rand.Rand, rig *rpckit.Rig) {
	conn, err := rig.Dial()
	if err != nil {
		t.Violate("connection refused", "while others are attacked: %v", err)
		return
	}
	defer conn.Close()
	h := &hostile{r: r, asks: r.IntN(3) == 0}
	var sent bytes.Buffer
	var lost atomic.Bool
	put := func(b []byte) {
		if sent.Len() < 3000 {
			sent.Write(b[:min(len(b), 400)])
		}
		if _, err := conn.Write(b); err != nil {
			lost.Store(true)
		}
	}
	reads := r.IntN(8) > 0 || h.asks
	var x *rpckit.Raw
	if reads {
		x = rpckit.NewRaw(conn)
	}
	if !reads && !rig.Mem {
		_ = conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
	}
	switch k := r.IntN(12); {
	case h.asks || k < 8:
		put(rpckit.SetupFrame())
	case k == 8: // none at all
	case k == 9:
		put(delimited(h.setup()))
	case k == 10:
		put(delimited(h.ill()))
	default:
		put(h.bytes(40))
	}
	n := 1 + r.IntN(60)
	if !reads && rig.Mem {
		n = min(n, 5) // writing would block for ever
	}
	var batch []byte
	for i := 0; i < n && !lost.Load(); i++ {
		b := h.next()
		kit.Count("hostile frames", 1)
		if r.IntN(3) == 0 {
			batch = append(batch, b...)
			continue
		}
		b = append(batch, b...)
		batch = nil
		if r.IntN(4) == 0 && len(b) > 1 { // in pieces
			k := 1 + r.IntN(len(b)-1)
			put(b[:k])
			runtime.Gosched()
			b = b[k:]
		}
		put(b)
	}
	put(batch)
	what := fmt.Sprintf("well formed %v, reading %v, sent %x", h.asks, reads, sent.Bytes())
	if h.asks && r.IntN(2) == 0 {
		// The connection still works, for it was not misused.
		c := rpckit.NewCall(r, rpckit.RR, 8, 0)
		want := rpckit.Blob(r.Uint64(), 40, -1)
		c.OnRR = func(context.Context) mono.Mono[payload.Payload] { return mono.Just(want) }
		id := uint32(1000001)
		put(c.RequestFrame(id, 0))
		if !kit.Wait(func() bool { return x.See(func() bool { return x.End[id] > 0 }) }) {
			select {
			case <-x.Closed:
				t.Violate("well formed frames close the connection", "%s", what)
			default:
				t.Violate("connection hangs", "%s\n%s", what, kit.Stacks())
			}
			return
		}
		if !x.See(func() bool { return x.End[id] == 1 && x.Errs[id] == "" && bytes.Equal(x.Data[id], want.Data()) }) {
			t.Violate("reply on a misused connection", "%q %x, expected %x: %s", x.Errs[id], x.Data[id], want.Data(), what)
		}
		c.Forget()
		kit.Count("connections that worked on after strange frames", 1)
	}
	if reads && r.IntN(4) == 0 {
		kit.WaitFor(2*time.Millisecond, func() bool {
			select {
			case <-x.Closed:
				return true
			default:
				return false
			}
		})
	}
	_ = conn.Close()
	kit.Count("hostile connections", 1)
	t.Case(sent.String())
}

func toServer(t *kit.T, mem bool, rounds int) {
	rpckit.Hostile.Store(true)
	rig := rpckit.NewRig(t, mem, false)
	defer rig.Close()
	p := rig.Connect()
	base := -1
	var wg sync.WaitGroup
	stop := make(chan bool)
	for g := 0; g < 2; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !t.Failed() {
				select {
				case <-stop:
					return
				default:
				}
				if r.IntN(3) == 0 {
					if !healthy(t, r, p.Server, true, "the server's calls") {
						return
					}
				} else if !healthy(t, r, p.Client, false, "another connection") {
					return
				}
			}
		}()
	}
	if !ping(t, t.Rand, p.Client, false, "the first connection") {
		return
	}
	base = runtime.NumGoroutine()
	var ag sync.WaitGroup
	for g := 0; g < 4; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 2))
		ag.Add(1)
		go func() {
			defer ag.Done()
			for i := 0; i < rounds && !t.Failed(); i++ {
				attack(t, r, rig)
			}
		}()
	}
	ag.Wait()
	close(stop)
	wg.Wait()
	if t.Failed() {
		return
	}
	// New connections are accepted and work.
	for k := 0; k < 2; k++ {
		drain(rig)
		q := connect(t, rig)
		if q == nil {
			return
		}
		if !ping(t, t.Rand, q, false, "a new connection") {
			return
		}
	}
	if !ping(t, t.Rand, p.Client, false, "an old connection") {
		return
	}
	p.Close()
	if !kit.Wait(func() bool { return runtime.NumGoroutine() <= base+20 }) {
		t.Violate("goroutines of hostile connections stay", "%d, before %d\n%s", runtime.NumGoroutine(), base, kit.Stacks())
	}
}

// drain forgets the hostile connections that were accepted.
func drain(rig *rpckit.Rig) {
	for {
		select {
		case <-rig.Accepted:
		default:
			return
		}
	}
}

func connect(t *kit.T, rig *rpckit.Rig) *handler.Handler {
	conn, err := rig.Dial()
	if err != nil {
		t.Violate("connection refused", "after hostile connections: %v", err)
		return nil
	}
	h, tr, _ := rpckit.NewClient(rig.Ctx, conn)
	_ = tr
	kit.Count("connections opened after hostile ones", 1)
	return h
}

// toClient lets servers misbehave towards clients with requests.
func toClient(t *kit.T, rounds int) {
	rpckit.Hostile.Store(true)
	rig := rpckit.NewRig(t, true, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	var wg sync.WaitGroup
	stop := make(chan bool)
	r0 := rand.New(rand.NewPCG(t.Rand.Uint64(), 3))
	wg.Add(1)
	go func() {
		defer wg.Done()
		for !t.Failed() {
			select {
			case <-stop:
				return
			default:
			}
			if !healthy(t, r0, p.Client, false, "another connection") {
				return
			}
		}
	}()
	var ag sync.WaitGroup
	for g := 0; g < 4; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), 4))
		ag.Add(1)
		go func() {
			defer ag.Done()
			for i := 0; i < rounds && !t.Failed(); i++ {
				badServer(t, r)
			}
		}()
	}
	ag.Wait()
	close(stop)
	wg.Wait()
}

// outcome counts the callbacks of a request to a hostile peer.
type outcome struct {
	what      string
	ends      atomic.Int32
	finals    atomic.Int32
	after     atomic.Int32
	elements  atomic.Int64
	requested int64
}

func badServer(t *kit.T, r *rand.Rand) {
	mine, theirs := net.Conn(nil), net.Conn(nil)
	mine, theirs = rpckit.MemPair(r)
	defer theirs.Close()
	x := rpckit.NewRaw(theirs)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	h, tr, done := rpckit.NewClient(ctx, mine)
	defer tr.Close()
	b := &hostile{r: r, asks: r.IntN(2) == 0}
	md := make([]byte, 8)
	var outs []*outcome
	request := func() {
		o := &outcome{}
		outs = append(outs, o)
		b.ids = append(b.ids, uint32(len(b.ids)*2+1))
		end := func() {
			if o.ends.Add(1) > 1 {
				t.Violate("request ends more than once", "%s", o.what)
			}
		}
		next := func(payload.Payload) {
			o.elements.Add(1)
			if o.ends.Load()+o.finals.Load() > 0 {
				t.Violate("element after the end", "%s", o.what)
			}
		}
		fin := func() {
			if o.finals.Add(1) > 1 {
				t.Violate("request ends more than once", "%s", o.what)
			}
		}
		req := payload.New(b.data(), md)
		sub := flux.Subscribe[payload.Payload]{
			OnNext: next, OnComplete: end, OnError: func(error) { end() }, Finally: func(_ rx.SignalType) { fin() },
		}
		switch r.IntN(4) {
		case 0, 1:
			o.what = "request/response"
			h.RequestResponse(ctx, req).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { end() }, OnError: func(error) { end() }, Finally: func(_ rx.SignalType) { fin() },
			})
		case 2:
			o.what = "stream"
			h.RequestStream(ctx, req).Subscribe(sub)
		case 3:
			o.what = "channel"
			in := rpckit.NewProd(t, r, r.IntN(10), false)
			in.Mode = rpckit.Demand
			h.RequestChannel(ctx, req, in.Flux()).Subscribe(sub)
		}
	}
	n := 1 + r.IntN(50)
	for i := 0; i < n; i++ {
		if i == 0 || r.IntN(5) == 0 {
			request()
		}
		f := b.next()
		kit.Count("hostile frames", 1)
		if _, err := theirs.Write(f); err != nil {
			break
		}
		if r.IntN(4) == 0 {
			runtime.Gosched()
		}
	}
	if b.asks && r.IntN(2) == 0 { // the connection still works
		// A request of the server tells that the frames before it were handled.
		_, _ = theirs.Write(rpckit.Frame(2000000, 4, 256, 0, 0, 8, 0xff, 0xff, 0, 0, 0, 0, 0, 0))
		if !kit.Wait(func() bool { return x.See(func() bool { return x.End[2000000] > 0 }) }) {
			t.Violate("client of a misbehaving server hangs", "%s", kit.Stacks())
			return
		}
		got := make(chan string, 4)
		h.RequestResponse(ctx, payload.New([]byte("are you there?"), md)).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { got <- string(p.Data()) },
			OnError:   func(err error) { got <- "error " + err.Error() },
		})
		id := uint32(0)
		if !kit.Wait(func() bool {
			return x.See(func() bool {
				for s := range x.Reqs {
					if string(x.Data[s]) == "are you there?" {
						id = s
						return true
					}
				}
				return false
			})
		}) {
			t.Violate("client of a misbehaving server hangs", "%s", kit.Stacks())
			return
		}
		_, _ = theirs.Write(rpckit.Frame(id, 10, 96, 'y', 'e', 's'))
		if s, _, timely := kit.Recv(got); !timely || s != "yes" {
			t.Violate("client of a misbehaving server does not work on", "%q", s)
			return
		}
		kit.Count("connections that worked on after strange frames", 1)
	}
	_ = theirs.Close()
	if _, _, timely := kit.Recv(done); !timely {
		t.Violate("client of a misbehaving server does not end", "%s", kit.Stacks())
		return
	}
	for _, o := range outs {
		if !kit.Wait(func() bool { return o.ends.Load() == 1 && o.finals.Load() == 1 }) {
			t.Violate("request to a misbehaving server does not end once", "%s: %d ends, %d final callbacks", o.what, o.ends.Load(), o.finals.Load())
			return
		}
		kit.Count("requests to misbehaving servers", 1)
	}
	t.Case(fmt.Sprint(n, len(outs), b.asks, b.ids))
}

// declared sends huge lengths with little behind them, and watches memory.
func declared(t *kit.T) {
	rpckit.Hostile.Store(true)
	rig := rpckit.NewRig(t, false, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	var ms runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&ms)
	before := ms.HeapAlloc
	var conns []net.Conn
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	var sent uint64
	for i := 0; i < kit.N(60, 300) && !t.Failed(); i++ {
		c, err := rig.Dial()
		if err != nil {
			t.Violate("connection refused", "%v", err)
			return
		}
		conns = append(conns, c)
		var b []byte
		switch t.Rand.IntN(4) {
		case 0: // a frame of 16 MB that does not come
			b = append(b, 0xff, 0xff, 0xff)
			b = append(b, make([]byte, t.Rand.IntN(100))...)
		case 1: // a table of 4 billion operations
			s := rpckit.SetupFrame()[3:]
			s = s[:len(s)-len(invoke.GetOperationsTable().ToBytes())]
			tab := append([]byte(nil), invoke.GetOperationsTable().ToBytes()[:6]...)
			tab = append(tab, 0xff, 0xff, 0xff, 0xff)
			tab = append(tab, make([]byte, t.Rand.IntN(40))...)
			b = delimited(append(s, tab...))
		case 2: // metadata of 16 MB that is not there
			b = rpckit.SetupFrame()
			for k := 0; k < 20; k++ {
				b = append(b, rpckit.Frame(uint32(2*k+1), 6, 256, 0, 0, 0, 1, 0xff, 0xff, 0xff, 1)...)
			}
		case 3: // operations nobody has
			b = rpckit.SetupFrame()
			for k := 0; k < 100; k++ {
				md := append(binary.BigEndian.AppendUint32(nil, 0xffffffff-t.Rand.Uint32N(1<<uint(t.Rand.IntN(31)))), 0, 0, 0, 0)
				body := append([]byte{0, 0, 8}, md...)
				typ := uint16(4 + t.Rand.IntN(4))
				if typ >= 6 {
					body = append([]byte{0xff, 0xff, 0xff, 0xff}, body...)
				}
				b = append(b, rpckit.Frame(uint32(2*k+1), typ, 256, body...)...)
			}
		}
		sent += uint64(len(b))
		_, _ = c.Write(b)
		if t.Rand.IntN(5) == 0 && !ping(t, t.Rand, p.Client, false, "another connection") {
			return
		}
		t.Case(fmt.Sprint(i, len(b)))
	}
	if !ping(t, t.Rand, p.Client, false, "another connection") {
		return
	}
	runtime.GC()
	runtime.ReadMemStats(&ms)
	if grown := int64(ms.HeapAlloc) - int64(before); grown > int64(sent)*40+int64(len(conns))*200000+20<<20 {
		t.Violate("memory by declared lengths", "%d bytes for %d sent on %d connections", grown, sent, len(conns))
	}
	kit.Count("connections with absurd lengths", int64(len(conns)))
}

// silent holds connections that do not read what they ask for.
func silent(t *kit.T) {
	rpckit.Hostile.Store(true)
	rig := rpckit.NewRig(t, true, false)
	p := rig.Connect()
	var conns []net.Conn
	for i := 0; i < 6 && !t.Failed(); i++ {
		c, err := rig.Dial()
		if err != nil {
			t.Violate("connection refused", "%v", err)
			return
		}
		conns = append(conns, c)
		_, _ = c.Write(rpckit.SetupFrame())
		n := 0
		for k := 0; k < 3; k++ {
			prod := rpckit.NewProd(t, t.Rand, 400, false)
			prod.Big = true
			if prod.Mode == rpckit.PushSync || prod.Mode == rpckit.Slice {
				prod.Mode = rpckit.Demand
			}
			call := rpckit.NewCall(t.Rand, rpckit.RS, 10, 0)
			call.OnRS = func(context.Context) flux.Flux[payload.Payload] { return prod.Flux() }
			_, _ = c.Write(call.RequestFrame(uint32(2*k+1), 1<<31-1))
			if !kit.Wait(func() bool { return call.Runs.Load() == 1 }) {
				t.Violate("handler does not run", "connection %d, request %d", i, n)
				return
			}
			n++
		}
		for k := 0; k < 10; k++ {
			if !healthy(t, t.Rand, p.Client, false, "another connection") {
				return
			}
		}
		t.Case(fmt.Sprint("silent", i))
		kit.Count("connections that do not read", 1)
	}
	// The server stops nevertheless.
	done := make(chan bool)
	go func() { rig.Close(); close(done) }()
	if _, _, timely := kit.Recv(done); !timely {
		t.Violate("server with silent connections does not stop", "%s", kit.Stacks())
	}
	for _, c := range conns {
		c.Close()
	}
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P15",
		Rule:     "Connections that send random bytes, damaged, truncated and well formed but senseless frames (unknown or used streams, unknown types, wrong lengths, hostile metadata and operation indices, absurd demand, repeated or damaged setups), none at all, or read nothing, towards servers and towards clients with requests, while another connection of the same process is used and checked call by call; then new connections are opened. A panic ends the process and is reported. Distinct by the bytes sent.",
		Assumptions: []string{
			"Frames that are well formed but make no sense do not close the connection.",
			"A peer that sends faster than its frames are handled can make the receiver queue them; that queue is not limited.",
		},
		Scenarios: []kit.Scenario{
			{Name: "hostile clients in memory", Yields: []int{0, 2}, Run: scn(8, 60, func(t *kit.T) { toServer(t, true, 60) })},
			{Name: "hostile clients over TCP", Yields: []int{0, 2}, Run: scn(4, 40, func(t *kit.T) { toServer(t, false, 60) })},
			{Name: "hostile servers", Yields: []int{0, 2}, Run: scn(8, 60, func(t *kit.T) { toClient(t, 60) })},
			{Name: "absurd lengths", Run: scn(1, 5, declared)},
			{Name: "silent peers", Run: scn(2, 20, silent)},
		},
	})
}
