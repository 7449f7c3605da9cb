//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/verifh/kit"
)

// Frame types and flags.
const (
	tRR, tFNF, tRS, tRC, tN, tCancel, tPayload, tError = 4, 5, 6, 7, 8, 9, 10, 11
	fNext, fComplete, fFollow, fMeta                   = 32, 64, 128, 256
)

type frame struct {
	stream   uint32
	typ      uint16
	flags    uint16
	n        uint32
	md, data []byte
}

func (f frame) body() []byte {
	b := binary.BigEndian.AppendUint32(nil, f.stream)
	flags := f.flags
	if f.md != nil {
		flags |= fMeta
	}
	b = binary.BigEndian.AppendUint16(b, f.typ<<10|flags)
	switch f.typ {
	case tRS, tRC, tN:
		b = binary.BigEndian.AppendUint32(b, f.n)
	case tError:
		b = binary.BigEndian.AppendUint32(b, 0x201)
	}
	if f.md != nil {
		b = append(b, byte(len(f.md)>>16), byte(len(f.md)>>8), byte(len(f.md)))
		b = append(b, f.md...)
	}
	return append(b, f.data...)
}

func prefixed(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

func (f frame) bytes() []byte { return prefixed(f.body()) }

func parse(b []byte) (f frame, err error) {
	if len(b) < 6 {
		return f, errors.New("short frame")
	}
	f.stream = binary.BigEndian.Uint32(b)
	w := binary.BigEndian.Uint16(b[4:])
	f.typ, f.flags = w>>10, w&0x3ff
	b = b[6:]
	switch f.typ {
	case tRS, tRC, tN, tError:
		if len(b) < 4 {
			return f, errors.New("short frame")
		}
		f.n = binary.BigEndian.Uint32(b)
		b = b[4:]
	}
	if f.flags&fMeta != 0 {
		if len(b) < 3 {
			return f, errors.New("short metadata")
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			return f, errors.New("short metadata")
		}
		f.md = b[3 : 3+n]
		b = b[3+n:]
	}
	f.data = b
	return f, nil
}

type item struct{ md, data []byte }

func (i item) payload() payload.Payload {
	return payload.New(append([]byte(nil), i.data...), append([]byte(nil), i.md...))
}

func (i item) is(md, data []byte) bool { return bytes.Equal(i.md, md) && bytes.Equal(i.data, data) }

// fits tells whether a payload frame with the item fits into a buffer.
func (i item) fits(size int) bool {
	n := 3 + 6 + len(i.data)
	if len(i.md) > 0 {
		n += 3 + len(i.md)
	}
	return n <= size
}

func (i item) String() string {
	return fmt.Sprintf("{%d+%d bytes %.24x %.24x}", len(i.md), len(i.data), i.md, i.data)
}

func gen(r *rand.Rand, limit int) item {
	n := r.IntN(40)
	var md []byte
	if r.IntN(4) == 0 {
		md = make([]byte, 1+r.IntN(12))
	}
	if limit > 0 && r.IntN(10) == 0 { // around what fits
		over := 9
		if md != nil {
			over += 3 + len(md)
		}
		n = max(0, limit-over-3+r.IntN(5))
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(r.Uint32())
	}
	for i := range md {
		md[i] = byte(r.Uint32())
	}
	return item{md, d}
}

// big is an item that does not fit.
func big(r *rand.Rand, limit int) item {
	return item{nil, bytes.Repeat([]byte{0xBB}, limit-8+r.IntN(50))}
}

// items with how they end: "" for complete.
type plan struct {
	items []item
	fail  string
	// sent is what gets through to the other side.
}

func genPlan(r *rand.Rand, n, limit int) (p plan) {
	for i := 0; i < n; i++ {
		if limit > 0 && r.IntN(60) == 0 {
			p.items = append(p.items, big(r, limit))
		} else {
			p.items = append(p.items, gen(r, limit))
		}
	}
	if r.IntN(4) == 0 {
		p.fail = []string{"boom", "not now", "é", strings.Repeat("x", 30)}[r.IntN(4)]
	}
	return p
}

const tooBig = "\x00too big" // an error with any text

// through is what of a plan arrives over a buffer.
func (p plan) through(limit int) plan {
	for i, it := range p.items {
		if !it.fits(limit) {
			return plan{p.items[:i], tooBig}
		}
	}
	return p
}

func count(r *rand.Rand) int { return []int{0, 1, 1, 2, 3, 5, 9, 20}[r.IntN(8)] }

// --- the rig ---

type rig struct {
	t       *kit.T
	r       *rand.Rand
	gb, hb  []byte // buffers of the guest's memory
	calls   map[uint32]*call
	gcalls  map[uint32]*gcall
	byID    map[uint64]*call
	gByID   map[uint64]*gcall
	order   []*call
	gorder  []*gcall
	later   []func() // what the guest does on its own
	hostile map[uint32]int
	stream  uint32
	id      uint64
	queue   [][]byte
	log     []string
	inGuest bool
}

var cur *rig
var nextStream uint32 = 2

func (g *rig) logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 160 {
		s = s[:160]
	}
	g.log = append(g.log, s)
	if len(g.log) > 60 {
		g.log = g.log[1:]
	}
}

func (g *rig) violate(sig, f string, a ...any) {
	g.t.Violate(sig, "%s\nlast frames:\n%s", fmt.Sprintf(f, a...), strings.Join(g.log, "\n"))
}

func memory(p uintptr, n int) []byte {
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
}

func newRig(t *kit.T) *rig {
	r := t.Rand
	g := &rig{t: t, r: r, calls: map[uint32]*call{}, gcalls: map[uint32]*gcall{}, byID: map[uint64]*call{}, gByID: map[uint64]*gcall{}, hostile: map[uint32]int{}}
	gs, hs := 512+r.IntN(4096), 160+r.IntN(2000)
	if r.IntN(4) == 0 {
		gs, hs = 16*1024, 16*1024
	}
	guest.VerifInitBuffers = func(a, b uintptr) { g.gb, g.hb = memory(a, gs), memory(b, hs) }
	guest.VerifSend = g.fromGuest
	if !guest.Init(uint32(gs), uint32(hs), 1<<20) {
		t.Violate("init fails", "")
	}
	if g.gb == nil || g.hb == nil {
		t.Fatal("buffers are not announced", "")
	}
	cur = g
	return g
}

// fromGuest is what the host does when the guest sends.
func (g *rig) fromGuest(pos uint32) {
	if int(pos) > len(g.hb) {
		g.violate("a frame exceeds the buffer", "%d of %d bytes", pos, len(g.hb))
		return
	}
	b := append([]byte(nil), g.hb[:pos]...)
	for i := range g.hb {
		g.hb[i] = 0xE5
	}
	for len(b) > 0 {
		if len(b) < 3 {
			g.violate("malformed frame of the guest", "%x", b)
			return
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			g.violate("malformed frame of the guest", "%.100x", b)
			return
		}
		f, err := parse(b[3 : 3+n])
		if err != nil {
			g.violate("malformed frame of the guest", "%.100x: %v", b, err)
			return
		}
		b = b[3+n:]
		kit.Count("frames of the guest", 1)
		g.logf("guest: stream %d type %d flags %x n %d %d+%d bytes %.20q", f.stream, f.typ, f.flags, f.n, len(f.md), len(f.data), f.data)
		g.got(f)
	}
}

func (g *rig) guest(what string, f func()) {
	g.inGuest = true
	if !g.t.Guard("the guest traps", func() string { return what + "\n" + strings.Join(g.log, "\n") }, f) {
		panic(stop{})
	}
	g.inGuest = false
}

type stop struct{}

// A probe is kept by what a call hands to the guest runtime, and is freed
// when the runtime has forgotten the call.
type probe struct{ b [64]byte }

var probes, freed atomic.Int64

func newProbe() *probe {
	p := new(probe)
	probes.Add(1)
	runtime.SetFinalizer(p, func(*probe) { freed.Add(1) })
	return p
}

// send queues a frame for the guest.
func (g *rig) send(f frame) {
	g.logf("host: stream %d type %d flags %x n %d %d+%d bytes", f.stream, f.typ, f.flags, f.n, len(f.md), len(f.data))
	g.queue = append(g.queue, f.bytes())
	kit.Count("frames of the host", 1)
}

// deliver hands the queue to the guest, several frames at a time.
func (g *rig) deliver() {
	for len(g.queue) > 0 {
		pos := 0
		n := 1 + g.r.IntN(6)
		k := 0
		for len(g.queue) > 0 && (k == 0 || k < n) && pos+len(g.queue[0]) <= len(g.gb) {
			pos += copy(g.gb[pos:], g.queue[0])
			g.queue = g.queue[1:]
			k++
		}
		if k == 0 {
			panic("frame too large for the guest")
		}
		if k > 1 {
			kit.Count("buffers with several frames", 1)
		}
		g.guest("deliver", func() { guest.GuestSend(uint32(pos)) })
		for i := range g.gb {
			g.gb[i] = 0x5E
		}
	}
}

func (g *rig) got(f frame) {
	if f.stream == 0 {
		g.violate("frame on stream 0", "type %d", f.typ)
		return
	}
	if n, is := g.hostile[f.stream]; is {
		if f.typ != tError || n == 0 {
			g.violate("reply to a bad request", "stream %d: type %d, %d left", f.stream, f.typ, n)
		}
		g.hostile[f.stream] = n - 1
		return
	}
	if f.stream&1 == 0 {
		c := g.calls[f.stream]
		if c == nil {
			g.violate("frame on an unknown stream", "stream %d type %d", f.stream, f.typ)
			return
		}
		c.got(f)
		return
	}
	if f.typ >= tRR && f.typ <= tRC {
		g.request(f)
		return
	}
	c := g.gcalls[f.stream]
	if c == nil {
		g.violate("frame on an unknown stream", "stream %d type %d", f.stream, f.typ)
		return
	}
	c.fromGuest(f)
}

// --- calls of the host ---

// Ways in which a handler answers.
const (
	now      = iota // at once
	created         // from a source, on demand
	deferred        // later, within the demand
	nested          // with what the host answers
	failing         // with an error instead
	// channels
	echo
	reduce
	ignore  // does not look at the input
	collect // answers on its own and reads the input
	piped   // hands its input to the host and its answer back
	modes
)

type call struct {
	g      *rig
	id     uint64
	kind   uint16
	stream uint32
	mode   int
	out    plan // what the handler answers
	in     plan // what the host sends
	inner  *gcall
	extra  []byte

	runs      int
	asked     int64
	got_      []item
	ended     bool
	endErr    *string
	cancelled bool
	quiet     bool // the cancel has been delivered

	inAsked   int64
	inSent    int
	inEnded   bool
	inCancel  bool
	seen      []item // by the handler
	seenEnd   bool
	seenErr   error
	stopped   bool // the source was told
	emit      func(n int)
	hasSource bool
	left      int64 // demand of the source
	emitted   int
}

func (c *call) String() string {
	return fmt.Sprintf("call %d, stream %d, type %d, mode %d, %d items, fail %q", c.id, c.stream, c.kind, c.mode, len(c.out.items), c.out.fail)
}

func md(index uint32, extra []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, index)
	return append(binary.BigEndian.AppendUint32(b, 0), extra...)
}

func (g *rig) newCall() *call {
	r := g.r
	g.id++
	c := &call{g: g, id: g.id, kind: uint16(tRR + r.IntN(4)), stream: nextStream}
	nextStream += 2
	if r.IntN(20) == 0 {
		nextStream += uint32(r.IntN(100)) * 2
	}
	switch c.kind {
	case tRR, tRS:
		c.mode = []int{now, created, deferred, deferred, nested, failing}[r.IntN(6)]
	case tRC:
		c.mode = []int{created, deferred, failing, echo, echo, reduce, ignore, collect, piped, piped}[r.IntN(10)]
	}
	n := count(r)
	if c.kind == tRR {
		n = 1
	}
	c.out = genPlan(r, n, len(g.hb))
	if c.mode == failing && c.out.fail == "" {
		c.out.fail = "refused"
	}
	if c.kind == tRC {
		c.in = genPlan(r, count(r), 0)
	}
	if r.IntN(3) == 0 {
		c.extra = make([]byte, 1+r.IntN(10))
		for i := range c.extra {
			c.extra[i] = byte(r.Uint32())
		}
	}
	g.calls[c.stream] = c
	g.byID[c.id] = c
	g.order = append(g.order, c)
	f := frame{stream: c.stream, typ: c.kind, md: md(uint32(c.id%3), c.extra)}
	if c.kind == tRS || c.kind == tRC {
		f.n = uint32(1 + r.IntN(4))
		if r.IntN(4) == 0 {
			f.n = 1<<31 - 1
		}
		c.asked = int64(f.n)
	}
	f.data = append(binary.BigEndian.AppendUint64(nil, c.id), make([]byte, c.id%50)...)
	if c.kind == tRC && len(c.in.items) == 0 && c.in.fail == "" && r.IntN(2) == 0 {
		f.flags |= fComplete // there is no input
		c.inEnded = true
	}
	g.send(f)
	kit.Count("calls of the host", 1)
	return c
}

// want is what arrives at the host.
func (c *call) want() plan {
	lim := len(c.g.hb)
	switch c.mode {
	case failing:
		return plan{nil, c.out.fail}
	case nested, piped:
		if c.inner == nil {
			return plan{nil, "no inner call"}
		}
		if c.inner.badIn { // the pipe breaks
			return plan{nil, tooBig}
		}
		return c.inner.answered().through(lim)
	case echo:
		p := plan{c.in.items[:c.inSent], ""}
		if c.inEnded {
			p.fail = c.in.fail
		}
		return p.through(lim)
	case reduce:
		if c.inEnded && c.in.fail != "" {
			return plan{nil, c.in.fail}
		}
		return plan{[]item{{nil, []byte(fmt.Sprint(c.inSent))}}, ""}.through(lim)
	}
	if c.kind == tRR {
		if c.out.fail != "" {
			return plan{nil, c.out.fail}
		}
	}
	return c.out.through(lim)
}

func (c *call) got(f frame) {
	g := c.g
	if c.kind == tFNF {
		g.violate("reply to fire and forget", "%v: type %d", c, f.typ)
		return
	}
	switch f.typ {
	case tPayload:
		if c.ended || c.quiet {
			g.violate("frame after the end", "%v: type %d flags %x", c, f.typ, f.flags)
			return
		}
		if f.flags&fNext != 0 {
			i := len(c.got_)
			w := c.want()
			if i >= len(w.items) {
				g.violate("an element nobody sent", "%v: %d of %d: %.40x", c, i+1, len(w.items), f.data)
				return
			}
			if !w.items[i].is(f.md, f.data) {
				g.violate("an element is wrong", "%v: %d is %v, not %v", c, i+1, item{f.md, f.data}, w.items[i])
				return
			}
			c.got_ = append(c.got_, item{f.md, f.data})
			if c.kind != tRR && int64(len(c.got_)) > c.asked {
				g.violate("more elements than asked for", "%v: %d of %d", c, len(c.got_), c.asked)
			}
			kit.Count("elements at the host", 1)
		}
		if f.flags&fComplete != 0 {
			c.end(nil)
		}
	case tError:
		if c.ended || c.quiet {
			g.violate("frame after the end", "%v: type %d %q", c, f.typ, f.data)
			return
		}
		s := string(f.data)
		c.end(&s)
	case tN:
		if c.kind != tRC || c.inCancel {
			g.violate("demand without input", "%v", c)
			return
		}
		if f.n == 0 || f.n > 1<<31-1 {
			g.violate("demand of no or too many elements", "%v: %d", c, f.n)
		}
		c.inAsked += int64(f.n)
	case tCancel:
		// It may cross the end of the input, or of the call.
		if c.kind != tRC || c.inCancel {
			g.violate("cancel without input", "%v", c)
		}
		c.inCancel = true
	default:
		g.violate("unexpected frame", "%v: type %d", c, f.typ)
	}
}

func (c *call) end(err *string) {
	c.ended, c.endErr = true, err
	w := c.want()
	g := c.g
	if len(c.got_) != len(w.items) && !(w.fail == tooBig && c.mode == piped) {
		g.violate("elements are lost", "%v: %d of %d", c, len(c.got_), len(w.items))
	}
	switch {
	case err == nil && w.fail != "":
		g.violate("an error is lost", "%v: %q", c, w.fail)
	case err != nil && w.fail == "":
		g.violate("an error nobody raised", "%v: %q", c, *err)
	case err != nil && w.fail != tooBig && *err != w.fail:
		g.violate("an error changes", "%v: %q, not %q", c, *err, w.fail)
	}
	if err != nil && w.fail == tooBig {
		kit.Count("replies that do not fit", 1)
	}
	if err != nil {
		c.inCancel = true // an error ends both directions
	}
	kit.Count("replies", 1)
}

// arrive finds the call of a request that reached a handler.
func arrive(kind uint16, op uint32, p payload.Payload) *call {
	g := cur
	if len(p.Data()) < 8 {
		g.violate("request payload", "%x", p.Data())
		return nil
	}
	c := g.byID[binary.BigEndian.Uint64(p.Data())]
	if c == nil || c.kind != kind || uint32(c.id%3) != op {
		g.violate("call reached the wrong handler", "type %d operation %d: %v", kind, op, c)
		return nil
	}
	if c.runs++; c.runs > 1 {
		g.violate("handler ran twice", "%v", c)
		return nil
	}
	if len(p.Data()) != 8+int(c.id%50) || bytes.Count(p.Data()[8:], []byte{0}) != int(c.id%50) || !bytes.HasSuffix(p.Metadata(), c.extra) {
		g.violate("request payload", "%v: %x %x", c, p.Data(), p.Metadata())
	}
	kit.Count("handlers run", 1)
	return c
}

func (c *call) failure() error { return errors.New(c.out.fail) }

// source emits the plan within the demand.
func (c *call) source(sink flux.Sink[payload.Payload], later bool) {
	c.hasSource = true
	i := 0
	busy := false
	pr := newProbe()
	run := func() {
		if busy {
			return
		}
		busy = true
		for c.left > 0 && i < len(c.out.items) && !c.stopped {
			c.left--
			p := c.out.items[i].payload()
			i++
			c.emitted = i
			sink.Next(p)
			if later && c.g.r.IntN(3) == 0 {
				break
			}
		}
		busy = false
		if i == len(c.out.items) && !c.stopped {
			if c.out.fail != "" {
				sink.Error(c.failure())
			} else {
				sink.Complete()
			}
			c.stopped = true
		}
	}
	sink.OnSubscribe(flux.OnSubscribe{
		Request: func(n int) {
			if n <= 0 {
				c.g.violate("demand of no elements", "%v: %d", c, n)
			}
			c.left += int64(n)
			if !later {
				run()
			}
		},
		Cancel: func() { c.stopped = true; pr.b[0]++ },
	})
	if later {
		var again func()
		again = func() {
			run()
			if !c.stopped {
				c.g.later = append(c.g.later, again)
			}
		}
		c.g.later = append(c.g.later, again)
	} else if len(c.out.items) == 0 || c.g.r.IntN(4) == 0 { // may emit without being asked
		c.left += int64(len(c.out.items))
		run()
	}
}

func register() {
	for op := uint32(0); op < 3; op++ {
		name := fmt.Sprint("op", op)
		invoke.ExportRequestResponse("verif", name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			c := arrive(tRR, op, p)
			if c == nil {
				return mono.Error[payload.Payload](errors.New("no call"))
			}
			switch c.mode {
			case failing:
				return mono.Error[payload.Payload](c.failure())
			case created:
				return mono.Create(func(sink mono.Sink[payload.Payload]) {
					if c.out.fail != "" {
						sink.Error(c.failure())
					} else {
						sink.Success(c.out.items[0].payload())
					}
				})
			case deferred:
				pr := mono.NewProcessor[payload.Payload]()
				c.g.later = append(c.g.later, func() {
					if c.out.fail != "" {
						pr.Error(c.failure())
					} else {
						pr.Success(c.out.items[0].payload())
					}
				})
				return pr
			case nested:
				c.inner = c.g.newGcall(tRR)
				return guest.HostInvoker.RequestResponse(ctx, c.inner.req())
			}
			if c.out.fail != "" {
				return mono.Error[payload.Payload](c.failure())
			}
			return mono.Just[payload.Payload](c.out.items[0].payload())
		})
		invoke.ExportFireAndForget("verif", name, func(ctx context.Context, p payload.Payload) { arrive(tFNF, op, p) })
		invoke.ExportRequestStream("verif", name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			c := arrive(tRS, op, p)
			if c == nil {
				return flux.Error[payload.Payload](errors.New("no call"))
			}
			switch c.mode {
			case now:
				c.out.fail = ""
				var ps []payload.Payload
				for _, it := range c.out.items {
					ps = append(ps, it.payload())
				}
				return flux.FromSlice(ps)
			case failing:
				return flux.Error[payload.Payload](c.failure())
			case nested:
				c.inner = c.g.newGcall(tRS)
				return guest.HostInvoker.RequestStream(ctx, c.inner.req())
			}
			return flux.Create(func(sink flux.Sink[payload.Payload]) { c.source(sink, c.mode == deferred) })
		})
		invoke.ExportRequestChannel("verif", name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			c := arrive(tRC, op, p)
			if c == nil {
				return flux.Error[payload.Payload](errors.New("no call"))
			}
			step := 1 + c.g.r.IntN(4)
			reader := func(done func()) flux.Subscribe[payload.Payload] {
				return flux.Subscribe[payload.Payload]{
					OnNext:     func(p payload.Payload) { c.see(p) },
					OnComplete: func() { c.seenEnd = true; done() },
					OnError:    func(err error) { c.seenEnd, c.seenErr = true, err; done() },
					OnRequest:  func(s rx.Subscription) { s.Request(step) },
				}
			}
			switch c.mode {
			case failing:
				return flux.Error[payload.Payload](c.failure())
			case echo:
				return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { c.see(p); return p, nil })
			case reduce:
				return flux.Create(func(sink flux.Sink[payload.Payload]) {
					ready, want := false, false
					run := func() {
						if !ready || !want {
							return
						}
						ready = false
						if c.seenErr != nil {
							sink.Error(c.seenErr)
							return
						}
						sink.Next(payload.New([]byte(fmt.Sprint(len(c.seen)))))
						sink.Complete()
					}
					sink.OnSubscribe(flux.OnSubscribe{Request: func(int) { want = true; run() }, Cancel: func() { c.stopped = true }})
					in.Subscribe(reader(func() { ready = true; run() }))
				})
			case collect:
				in.Subscribe(reader(func() {}))
			case piped:
				c.inner = c.g.newGcall(tRC)
				c.inner.from = c
				return guest.HostInvoker.RequestChannel(ctx, c.inner.req(), flux.Map(in, func(p payload.Payload) (payload.Payload, error) { c.see(p); return p, nil }))
			}
			return flux.Create(func(sink flux.Sink[payload.Payload]) { c.source(sink, c.mode != created) })
		})
	}
}

// see is the handler reading an element of its input.
func (c *call) see(p payload.Payload) {
	i := len(c.seen)
	if i >= c.inSent {
		c.g.violate("an input nobody sent", "%v: %d", c, i)
		return
	}
	if !c.in.items[i].is(p.Metadata(), p.Data()) {
		c.g.violate("an input is wrong", "%v: %d is %v, not %v", c, i, item{p.Metadata(), p.Data()}, c.in.items[i])
	}
	c.seen = append(c.seen, c.in.items[i])
	kit.Count("inputs at handlers", 1)
}

// act is what the host does about a call of its own.
func (c *call) act(finish bool) {
	r := c.g.r
	if c.kind != tRS && c.kind != tRC {
		return
	}
	if !c.ended && !c.cancelled {
		switch x := r.IntN(20); {
		case finish || x < 6:
			if c.asked < 1<<40 {
				n := uint32(1 + r.IntN(6))
				if finish {
					n = 1<<31 - 1
				}
				c.asked += int64(n)
				c.g.send(frame{stream: c.stream, typ: tN, n: n})
			}
		case x < 9:
			c.cancelled = true
			c.g.send(frame{stream: c.stream, typ: tCancel})
			kit.Count("cancelled by the host", 1)
			// delivered at once, so that nothing may follow
			c.g.deliver()
			c.quiet = true
			if c.kind == tRC {
				c.inEnded = true // and nothing more is sent
			}
			return
		}
	}
	if c.kind == tRC && !c.inEnded && !c.inCancel {
		for k := r.IntN(4) + 1; (k > 0 || finish) && c.inSent < len(c.in.items) && int64(c.inSent) < c.inAsked; k-- {
			it := c.in.items[c.inSent]
			c.inSent++
			if c.inSent == len(c.in.items) && c.in.fail == "" && r.IntN(3) == 0 {
				c.inEnded = true // with the last element
				c.g.send(frame{stream: c.stream, typ: tPayload, flags: fNext | fComplete, md: it.md, data: it.data})
				return
			}
			c.g.send(frame{stream: c.stream, typ: tPayload, flags: fNext, md: it.md, data: it.data})
			if r.IntN(3) == 0 {
				c.g.deliver() // what the guest says about it matters for the next
				if c.inCancel || c.inEnded {
					return
				}
			}
		}
		if c.inSent == len(c.in.items) && (finish || r.IntN(2) == 0) {
			c.g.deliver()
			if c.inCancel {
				return
			}
			c.inEnded = true
			if c.in.fail != "" {
				c.g.send(frame{stream: c.stream, typ: tError, data: []byte(c.in.fail)})
			} else {
				c.g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
			}
		}
	}
	if finish && c.kind == tRC && !c.inEnded && c.inAsked <= int64(c.inSent) && (c.mode == ignore || c.mode == created || c.mode == deferred) && !c.inCancel {
		// nobody reads it
		c.inEnded = true
		c.g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
	}
}

func (c *call) check() {
	g := c.g
	if c.runs != 1 {
		g.violate("handler ran other than once", "%v: %d times", c, c.runs)
	}
	if c.kind == tFNF {
		return
	}
	if !c.ended && !c.cancelled {
		g.violate("a call does not end", "%v: %d elements of %d, input %d asked %d sent, ended %v, handler saw %d %v", c, len(c.got_), len(c.want().items), c.inAsked, c.inSent, c.inEnded, len(c.seen), c.seenEnd)
		return
	}
	if (c.cancelled || c.endErr != nil) && c.hasSource && !c.stopped {
		g.violate("a source is not stopped", "%v", c)
	}
	if (c.mode == collect || c.mode == reduce) && c.inEnded && !c.cancelled && !c.inCancel {
		if len(c.seen) != c.inSent || !c.seenEnd || (c.seenErr != nil) != (c.in.fail != "") {
			g.violate("input is lost", "%v: %d of %d, ended %v %v", c, len(c.seen), c.inSent, c.seenEnd, c.seenErr)
		}
	}
	if c.cancelled && (c.mode == collect || c.mode == reduce) && !c.seenEnd {
		g.violate("input does not end", "%v", c)
	}
}

// --- calls of the guest ---

type gcall struct {
	g      *rig
	id     uint64
	kind   uint16
	stream uint32
	answer plan // what the host answers
	in     plan // what the guest sends through a channel
	from   *call
	known  bool // the host has the request
	direct bool // made by the guest itself

	asked     int64
	sent      int
	ended     bool // by the host
	cancelled bool // by the guest

	inAsked  int64
	inGot    int
	inEnded  bool
	inCancel bool
	badIn    bool // an element of the input did not fit

	seen    []item
	seenEnd bool
	seenErr error
	want    int64
	dropped bool
	sub     rx.Subscription
}

func (c *gcall) String() string {
	return fmt.Sprintf("guest call %d, stream %d, type %d, %d items, fail %q", c.id, c.stream, c.kind, len(c.answer.items), c.answer.fail)
}

func (g *rig) newGcall(kind uint16) *gcall {
	g.id++
	c := &gcall{g: g, id: g.id, kind: kind}
	n := count(g.r)
	if kind == tRR {
		n = 1
	}
	c.answer = genPlan(g.r, n, 0)
	if kind == tRC {
		c.in = genPlan(g.r, count(g.r), len(g.hb))
	}
	g.gByID[c.id] = c
	g.gorder = append(g.gorder, c)
	kit.Count("calls of the guest", 1)
	return c
}

func (c *gcall) req() payload.Payload {
	return payload.New(append(binary.BigEndian.AppendUint64(nil, c.id), make([]byte, c.id%30)...), md(uint32(c.id%5), nil))
}

// answered is what the guest gets to see.
func (c *gcall) answered() plan {
	if c.kind == tRR && c.answer.fail != "" {
		return plan{nil, c.answer.fail}
	}
	return c.answer
}

// request is a request of the guest arriving at the host.
func (g *rig) request(f frame) {
	if len(f.data) < 8 {
		g.violate("request of the guest", "%x", f.data)
		return
	}
	c := g.gByID[binary.BigEndian.Uint64(f.data)]
	if c == nil || c.known || c.kind != f.typ || !bytes.Equal(f.md, md(uint32(c.id%5), nil)) || len(f.data) != 8+int(c.id%30) {
		g.violate("request of the guest", "%v: type %d, again %v, %x %x", c, f.typ, c != nil && c.known, f.md, f.data)
		return
	}
	if g.gcalls[f.stream] != nil {
		g.violate("a stream is used twice", "%d", f.stream)
	}
	c.known, c.stream = true, f.stream
	g.gcalls[f.stream] = c
	if f.typ == tRS || f.typ == tRC {
		if f.n == 0 || f.n > 1<<31-1 {
			g.violate("demand of no or too many elements", "%v: %d", c, f.n)
		}
		c.asked = int64(f.n)
	}
}

func (c *gcall) input() plan {
	if c.from != nil { // what the host sends through the call that is piped
		p := plan{c.from.in.items[:c.from.inSent], ""}
		if c.from.inEnded {
			p.fail = c.from.in.fail
		}
		return p
	}
	return c.in
}

func (c *gcall) fromGuest(f frame) {
	g := c.g
	switch f.typ {
	case tN:
		if f.n == 0 || f.n > 1<<31-1 || c.cancelled || (c.kind != tRS && c.kind != tRC) {
			g.violate("demand of the guest", "%v: %d, cancelled %v", c, f.n, c.cancelled)
		}
		c.asked += int64(f.n)
	case tCancel:
		// It may cross the end.
		if c.cancelled {
			g.violate("cancelled twice by the guest", "%v", c)
		}
		c.cancelled = true
		kit.Count("cancelled by the guest", 1)
	case tPayload:
		if c.kind != tRC || c.inEnded || c.inCancel {
			g.violate("input of the guest", "%v: ended %v", c, c.inEnded)
			return
		}
		if f.flags&fNext != 0 {
			w := c.input()
			if c.inGot >= len(w.items) || !w.items[c.inGot].is(f.md, f.data) {
				g.violate("input of the guest is wrong", "%v: %d of %d", c, c.inGot, len(w.items))
				return
			}
			if c.inGot++; int64(c.inGot) > c.inAsked {
				g.violate("more input than asked for", "%v: %d of %d", c, c.inGot, c.inAsked)
			}
			kit.Count("inputs at the host", 1)
		}
		if f.flags&fComplete != 0 {
			w := c.input().through(len(g.hb))
			if c.inGot != len(w.items) || w.fail != "" {
				g.violate("input of the guest is lost", "%v: %d of %d, %q", c, c.inGot, len(w.items), w.fail)
			}
			c.inEnded = true
		}
	case tError:
		if c.kind != tRC || c.inEnded || c.inCancel {
			g.violate("input of the guest", "%v: ended %v", c, c.inEnded)
			return
		}
		if w := c.input(); w.fail != string(f.data) {
			g.violate("input of the guest is wrong", "%v: error %q, not %q", c, f.data, w.fail)
		}
		c.inEnded = true
	}
}

// start makes the guest call the host.
func (g *rig) start() {
	r := g.r
	kind := uint16(tRR + r.IntN(4))
	c := g.newGcall(kind)
	c.direct = true
	ctx := context.Background()
	step := 1 + r.IntN(5)
	if r.IntN(4) == 0 {
		step = 1<<31 - 1
	}
	dropAt := -1
	if r.IntN(5) == 0 {
		dropAt = r.IntN(4)
	}
	asks := 0
	pr := newProbe()
	sub := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			pr.b[0]++
			c.see(p)
			if len(c.seen) == dropAt && c.sub != nil {
				c.dropped = true
				c.sub.Cancel()
			}
		},
		OnComplete: func() { c.finish(nil) },
		OnError:    func(err error) { c.finish(err) },
		OnRequest: func(s rx.Subscription) {
			c.sub = s
			if asks++; asks > 1 && r.IntN(3) == 0 {
				g.later = append(g.later, func() { s.Request(step) })
				return
			}
			s.Request(step)
		},
	}
	g.guest("call", func() {
		switch kind {
		case tFNF:
			guest.HostInvoker.FireAndForget(ctx, c.req())
		case tRR:
			guest.HostInvoker.RequestResponse(ctx, c.req()).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { pr.b[0]++; c.see(p); c.finish(nil) },
				OnError:   func(err error) { c.finish(err) },
			})
		case tRS:
			guest.HostInvoker.RequestStream(ctx, c.req()).Subscribe(sub)
		case tRC:
			in := c.in
			sent := 0
			guest.HostInvoker.RequestChannel(ctx, c.req(), flux.Create(func(sink flux.Sink[payload.Payload]) {
				stopped := false
				end := func() {
					if sent == len(in.items) && !stopped {
						stopped = true
						if in.fail != "" {
							sink.Error(errors.New(in.fail))
						} else {
							sink.Complete()
						}
					}
				}
				more := func(n int) {
					for ; n > 0 && sent < len(in.items) && !stopped; n-- {
						it := in.items[sent]
						sent++
						if !it.fits(len(g.hb)) {
							c.badIn = true
						}
						sink.Next(it.payload())
					}
					end()
				}
				sink.OnSubscribe(flux.OnSubscribe{Request: more, Cancel: func() { stopped = true }})
				fits := true
				for _, it := range in.items {
					fits = fits && it.fits(len(g.hb))
				}
				switch x := r.IntN(4); {
				case x < 2:
					end()
				case x == 2 && fits: // without being asked
					more(len(in.items))
				}
			})).Subscribe(sub)
		}
	})
	if !c.known {
		g.violate("a request of the guest is lost", "%v", c)
	}
	if dropAt == 0 && c.sub != nil && !c.seenEnd {
		c.dropped = true
		g.guest("cancel", func() { c.sub.Cancel() })
	}
}

func (c *gcall) see(p payload.Payload) {
	i := len(c.seen)
	if c.dropped || c.seenEnd {
		c.g.violate("an element after the end", "%v: %d", c, i)
	}
	if i >= c.sent {
		c.g.violate("an element nobody sent", "%v: %d", c, i)
		return
	}
	if !c.answer.items[i].is(p.Metadata(), p.Data()) {
		c.g.violate("an element is wrong", "%v: %d is %v, not %v", c, i, item{p.Metadata(), p.Data()}, c.answer.items[i])
	}
	c.seen = append(c.seen, c.answer.items[i])
	kit.Count("elements at the guest", 1)
}

func (c *gcall) finish(err error) {
	if c.seenEnd {
		c.g.violate("a call of the guest ends twice", "%v: %v", c, err)
		return
	}
	c.seenEnd, c.seenErr = true, err
	if c.dropped {
		c.g.violate("a signal after the cancel", "%v: %v", c, err)
		return
	}
	if c.badIn { // the channel fails on the guest's side
		if err == nil {
			c.g.violate("an error is lost", "%v: input does not fit", c)
		}
		return
	}
	w := c.answered()
	switch {
	case !c.ended:
		c.g.violate("a call of the guest ends early", "%v: %v", c, err)
	case err == nil && w.fail != "", err != nil && w.fail == "", err != nil && err.Error() != w.fail:
		c.g.violate("a call of the guest ends otherwise", "%v: %v", c, err)
	case len(c.seen) != len(w.items):
		c.g.violate("elements are lost", "%v: %d of %d", c, len(c.seen), len(w.items))
	}
	kit.Count("replies at the guest", 1)
}

// act is what the host does about a call of the guest.
func (c *gcall) act(finish bool) {
	r := c.g.r
	if !c.known || c.kind == tFNF {
		return
	}
	g := c.g
	if c.kind == tRC && !c.inEnded && !c.inCancel && !c.cancelled {
		if finish || r.IntN(3) == 0 {
			n := uint32(1 + r.IntN(4))
			if finish && r.IntN(2) == 0 {
				n = 1<<31 - 1
			}
			if c.inAsked < 1<<40 {
				c.inAsked += int64(n)
				g.send(frame{stream: c.stream, typ: tN, n: n})
				g.deliver()
			}
		} else if r.IntN(30) == 0 && c.from == nil {
			c.inCancel = true
			g.send(frame{stream: c.stream, typ: tCancel})
			g.deliver()
		}
	}
	if c.ended || c.cancelled || c.badIn {
		return
	}
	a := c.answered()
	if c.kind == tRR {
		if !finish && r.IntN(3) > 0 {
			return
		}
		c.ended = true
		if a.fail != "" {
			g.send(frame{stream: c.stream, typ: tError, data: []byte(a.fail)})
			return
		}
		c.sent = 1
		if r.IntN(4) == 0 { // in two frames
			g.send(frame{stream: c.stream, typ: tPayload, flags: fNext, md: a.items[0].md, data: a.items[0].data})
			g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
			return
		}
		g.send(frame{stream: c.stream, typ: tPayload, flags: fNext | fComplete, md: a.items[0].md, data: a.items[0].data})
		return
	}
	for k := r.IntN(4); (k > 0 || finish) && c.sent < len(a.items) && int64(c.sent) < c.asked && !c.cancelled; k-- {
		f := frame{stream: c.stream, typ: tPayload, flags: fNext, md: a.items[c.sent].md, data: a.items[c.sent].data}
		c.sent++
		if c.sent == len(a.items) && a.fail == "" && r.IntN(2) == 0 {
			f.flags |= fComplete
			c.ended = true
		}
		g.send(f)
		g.deliver()
	}
	if c.sent == len(a.items) && !c.ended && !c.cancelled && !c.badIn && (finish || r.IntN(2) == 0) {
		c.ended = true
		if a.fail != "" {
			g.send(frame{stream: c.stream, typ: tError, data: []byte(a.fail)})
			g.deliver()
			c.inCancel = true // an error ends both directions
		} else {
			g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
		}
	}
}

func (c *gcall) check() {
	if !c.known {
		if c.direct {
			c.g.violate("a request of the guest is lost", "%v", c)
		}
		return
	}
	if c.kind == tFNF || !c.direct {
		return
	}
	if c.dropped {
		if !c.cancelled && !c.ended {
			c.g.violate("a cancel of the guest is lost", "%v", c)
		}
		return
	}
	if !c.seenEnd {
		c.g.violate("a call of the guest does not end", "%v: %d of %d, asked %d, ended %v", c, len(c.seen), len(c.answer.items), c.asked, c.ended)
	}
	if c.kind == tRC && !c.inEnded && !c.inCancel && !c.cancelled && !c.badIn && c.answer.fail == "" {
		c.g.violate("input of the guest does not end", "%v: %d of %d, asked %d", c, c.inGot, len(c.in.items), c.inAsked)
	}
}

// --- hostile frames ---

func (g *rig) bad(r *rand.Rand) {
	s := nextStream
	nextStream += 2
	raw := func(b []byte) { g.queue = append(g.queue, b); kit.Count("bad frames", 1) }
	junk := func(n int) []byte {
		b := make([]byte, r.IntN(n+1))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return b
	}
	kind := uint16(tRR + r.IntN(4))
	g.logf("host: bad frame on stream %d", s)
	switch r.IntN(9) {
	case 0: // no such operation
		idx := []uint32{3, 4, 1000, 1 << 31, 1<<32 - 1}[r.IntN(5)]
		if kind != tFNF {
			g.hostile[s] = 1
		} else {
			g.hostile[s] = 0
		}
		g.needErr(s, kind)
		g.send(frame{stream: s, typ: kind, n: 5, md: md(idx, nil), data: junk(20)})
	case 1: // short metadata
		g.hostile[s] = 1
		if kind == tFNF {
			g.hostile[s] = 0
		}
		g.needErr(s, kind)
		f := frame{stream: s, typ: kind, n: 5, data: junk(20)}
		if r.IntN(2) == 0 {
			f.md = make([]byte, r.IntN(8))
		}
		g.send(f)
	case 2: // cut short
		if kind == tRR || kind == tFNF {
			kind = tRS
		}
		b := frame{stream: s, typ: kind, n: 5}.body()
		g.hostile[s] = 1
		g.needErr(s, kind)
		raw(prefixed(b[:6+r.IntN(4)]))
	case 3: // metadata that is not there
		b := frame{stream: s, typ: kind, flags: fMeta, n: 5}.body()
		b = append(b, 0, byte(r.IntN(3)), byte(50+r.IntN(100)))
		b = append(b, junk(40)...)
		if r.IntN(3) == 0 {
			b = b[:len(b)-min(len(b)-10, 2+r.IntN(2))]
		}
		g.hostile[s] = 1
		if kind == tFNF {
			g.hostile[s] = 0
		}
		g.needErr(s, kind)
		raw(prefixed(b))
	case 4: // nobody's stream
		if r.IntN(2) == 0 {
			s = 1<<31 - 1 - 2*uint32(r.IntN(1000))
		}
		g.hostile[s] = 0
		typ := []uint16{tN, tCancel, tPayload, tError}[r.IntN(4)]
		g.send(frame{stream: s, typ: typ, flags: uint16(r.IntN(8)) << 5 &^ fFollow, n: 3, data: junk(20)})
	case 5: // a finished stream
		var c *call
		for _, x := range g.order {
			if x.ended || x.kind == tFNF {
				c = x
			}
		}
		if c == nil || (c.kind == tRC && !c.inEnded && !c.inCancel) {
			return
		}
		typ := []uint16{tN, tCancel, tPayload, tError}[r.IntN(4)]
		g.send(frame{stream: c.stream, typ: typ, flags: uint16([]int{fNext, fComplete, fNext | fComplete}[r.IntN(3)]), n: 3, data: junk(20)})
	case 6: // unknown and unused types
		g.hostile[s] = 0
		g.send(frame{stream: s, typ: []uint16{0, 1, 2, 3, 12, 13, 14, 15, 31, 62, 63}[r.IntN(11)], flags: uint16(r.IntN(1024)), data: junk(30)})
	case 7: // less than a header
		raw(prefixed(junk(5)))
	case 8: // more than there is, as the last frame of a buffer
		g.deliver()
		b := frame{stream: s, typ: kind, md: md(0, nil), n: 1, data: make([]byte, 8)}.bytes()
		g.hostile[s] = 0
		switch r.IntN(3) {
		case 0:
			b = b[:1+r.IntN(len(b)-1)]
		case 1:
			b[0], b[1] = byte(r.Uint32()), byte(r.Uint32())|0x40
		case 2:
			b[0], b[1], b[2] = 0xff, 0xff, byte(0xf0+r.IntN(16))
		}
		raw(b)
		g.deliverOne()
	}
}

// needErr remembers that a request must be answered with an error.
func (g *rig) needErr(s uint32, kind uint16) {
	if kind != tFNF {
		g.later = append(g.later, func() {
			g.deliver()
			if g.hostile[s] != 0 {
				g.violate("a bad request is not answered", "stream %d type %d", s, kind)
			}
		})
	}
}

// deliverOne hands over the queue as it is.
func (g *rig) deliverOne() {
	pos := 0
	for _, b := range g.queue {
		pos += copy(g.gb[pos:], b)
	}
	g.queue = nil
	g.guest("deliver", func() { guest.GuestSend(uint32(pos)) })
}

func (g *rig) runLater() {
	if len(g.later) == 0 {
		return
	}
	i := g.r.IntN(len(g.later))
	f := g.later[i]
	g.later = append(g.later[:i:i], g.later[i+1:]...)
	g.guest("later", f)
}

func exchange(t *kit.T, hostile bool, calls int) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(stop); !is {
				panic(x)
			}
		}
	}()
	g := newRig(t)
	r := t.Rand
	for made := 0; made < calls && !t.Failed(); {
		switch x := r.IntN(12); {
		case x < 2:
			g.newCall()
			made++
			if r.IntN(2) == 0 {
				g.deliver()
			}
		case x == 2:
			g.start()
			made++
		case x < 5:
			g.runLater()
		case x < 7 && len(g.order) > 0:
			g.order[r.IntN(len(g.order))].act(false)
		case x < 9 && len(g.gorder) > 0:
			g.gorder[r.IntN(len(g.gorder))].act(false)
		case x == 9 && hostile:
			g.bad(r)
		default:
			g.deliver()
		}
	}
	idle := func() bool {
		for _, c := range g.order {
			if c.kind != tFNF && !c.ended && !c.cancelled {
				return false
			}
			if c.kind == tRC && !c.inEnded && !c.inCancel && (c.mode == collect || c.mode == echo || c.mode == piped) {
				return false
			}
		}
		for _, c := range g.gorder {
			if c.direct && c.known && c.kind != tFNF && !c.seenEnd && !c.dropped {
				return false
			}
			if c.kind == tRC && c.known && !c.inEnded && !c.inCancel && !c.cancelled && !c.badIn {
				return false
			}
		}
		return true
	}
	for i := 0; i < 400 && !t.Failed(); i++ {
		g.deliver()
		for _, c := range g.order {
			c.act(true)
			g.deliver()
		}
		for _, c := range g.gorder {
			c.act(true)
			g.deliver()
		}
		for k := len(g.later); k >= 0; k-- {
			g.runLater()
		}
		if idle() && i > 3 {
			break
		}
	}
	for k := 0; k < 100 && len(g.later) > 0; k++ {
		g.runLater()
	}
	g.deliver()
	for _, c := range g.order {
		c.check()
	}
	for _, c := range g.gorder {
		c.check()
	}
	t.Case(fmt.Sprint(strings.Join(g.log, "|")))
}

func loop(quick, thorough int, hostile bool, calls int) func(*kit.T) {
	return func(t *kit.T) {
		for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
			exchange(t, hostile, 1+t.Rand.IntN(calls))
		}
		cur = nil
		for i := 0; i < 20 && freed.Load() < probes.Load(); i++ {
			runtime.GC()
			time.Sleep(5 * time.Millisecond)
		}
		if n := probes.Load() - freed.Load(); n > 40 && !t.Failed() {
			t.Violate("calls are not forgotten", "%d of %d calls that have ended are still in memory", n, probes.Load())
		}
		kit.Count("calls freed", freed.Swap(0))
		probes.Store(0)
	}
}

func table(t *kit.T) {
	called := 0
	guest.VerifOpList = func(p uintptr, n uint32) {
		called++
		if b := memory(p, int(n)); !bytes.Equal(b, invoke.GetOperationsTable().ToBytes()) {
			t.Violate("the table of the guest is wrong", "%.200x", b)
		}
	}
	for i := 0; i < 10; i++ {
		t.Guard("the guest traps", func() string { return "operation list" }, guest.OperationList)
		t.Case(fmt.Sprint("table", i))
		kit.Count("tables", 1)
		kit.Count("bytes of tables", int64(len(invoke.GetOperationsTable().ToBytes())))
		// grow it, soon beyond 64 KB
		invoke.ImportRequestResponse(strings.Repeat("n", 1<<min(2*i, 15)), fmt.Sprint("grown", i))
		invoke.ImportFireAndForget("grown", strings.Repeat("o", 1<<min(2*i, 15)-1))
	}
	if called != 10 {
		t.Violate("the table of the guest is not announced", "%d", called)
	}
}

func main() {
	register()
	kit.Main(kit.Config{
		Property: "P32",
		Rule:     "A model of the host exchanges frames with the real guest runtime, compiled for this machine with its wasm build tags: up to 12 calls of all kinds at a time in both directions, nested ones included, with handlers that answer at once, on demand, later, with an error, with what the host answers or from their input; several frames to a buffer, cancels, elements around and above the size of the buffer, buffers of all sizes, hostile frames in between. The buffers are overwritten after each use. Distinct by the last frames of an exchange.",
		Assumptions: []string{
			"The guest is compiled natively: the imports of the host, the trap and two unsafe conversions that only TinyGo compiles are replaced.",
			"The host does not call the guest while the guest calls the host, as the host of this repository does not.",
			"Fragmented requests are not assembled by the guest and are not sent.",
		},
		Scenarios: []kit.Scenario{
			{Name: "table", Run: table},
			{Name: "single calls", Run: loop(15000, 300_000, false, 1)},
			{Name: "few calls", Run: loop(8000, 200_000, false, 3)},
			{Name: "many calls", Run: loop(4000, 100_000, false, 12)},
			{Name: "hostile frames", Run: loop(6000, 150_000, true, 8)},
		},
	})
}
