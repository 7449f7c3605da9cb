//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/wasmkit"
)

// Frame types and flags.
const (
	tRR, tFNF, tRS, tRC, tN, tCancel, tPayload, tError = 4, 5, 6, 7, 8, 9, 10, 11
	fNext, fComplete, fFollow, fMeta                   = 32, 64, 128, 256
)

// Operations.
const (
	opCall = 7       // what the host calls
	opTick = 9       // lets the guest go on
	opBack = 3       // what the guest calls
	opNone = 1 << 20 // what nobody offers
)

type frame struct {
	stream   uint32
	typ      uint16
	flags    uint16
	n        uint32
	md, data []byte
}

func (f frame) String() string {
	return fmt.Sprintf("stream %d type %d flags %x n %d %d+%d bytes %.12x", f.stream, f.typ, f.flags, f.n, len(f.md), len(f.data), f.data)
}

func (f frame) body() []byte {
	b := binary.BigEndian.AppendUint32(nil, f.stream)
	flags := f.flags
	if f.md != nil {
		flags |= fMeta
	}
	b = binary.BigEndian.AppendUint16(b, f.typ<<10|flags)
	switch f.typ {
	case tRS, tRC, tN:
		b = binary.BigEndian.AppendUint32(b, f.n)
	case tError:
		b = binary.BigEndian.AppendUint32(b, 0x201)
	}
	if f.md != nil {
		b = append(b, byte(len(f.md)>>16), byte(len(f.md)>>8), byte(len(f.md)))
		b = append(b, f.md...)
	}
	return append(b, f.data...)
}

func prefixed(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

func (f frame) bytes() []byte { return prefixed(f.body()) }

func parse(b []byte) (f frame, err error) {
	if len(b) < 6 {
		return f, errors.New("short frame")
	}
	f.stream = binary.BigEndian.Uint32(b)
	w := binary.BigEndian.Uint16(b[4:])
	f.typ, f.flags = w>>10, w&0x3ff
	b = b[6:]
	switch f.typ {
	case tRS, tRC, tN, tError:
		if len(b) < 4 {
			return f, errors.New("short frame")
		}
		f.n = binary.BigEndian.Uint32(b)
		b = b[4:]
	}
	if f.flags&fMeta != 0 {
		if len(b) < 3 {
			return f, errors.New("short metadata")
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			return f, errors.New("short metadata")
		}
		f.md = b[3 : 3+n]
		b = b[3+n:]
	}
	f.data = b
	return f, nil
}

func md(index uint32, extra ...byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, index)
	return append(binary.BigEndian.AppendUint32(b, 0), extra...)
}

type item struct{ md, data []byte }

func (i item) is(md, data []byte) bool { return bytes.Equal(i.md, md) && bytes.Equal(i.data, data) }

func genItem(r *rand.Rand) item {
	n := r.IntN(40)
	if r.IntN(40) == 0 {
		n = 2000 + r.IntN(3000)
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(r.Uint32())
	}
	var md []byte
	if r.IntN(4) == 0 {
		md = []byte{byte(r.Uint32()), 0, 255}
	}
	return item{md, d}
}

// anyError is the error of a plan that may be any.
const anyError = "?"

type plan struct {
	items []item
	fail  string
}

func genPlan(r *rand.Rand, n int) (p plan) {
	for i := 0; i < n; i++ {
		p.items = append(p.items, genItem(r))
	}
	if r.IntN(4) == 0 {
		p.fail = []string{"boom", "not now", "é"}[r.IntN(3)]
	}
	return p
}

func count(r *rand.Rand) int { return []int{0, 1, 1, 2, 3, 5, 9, 20}[r.IntN(8)] }

// guest is a model of a guest. It checks what the host does and answers.
type guest struct {
	t        *kit.T
	inst     *host.Instance
	sh       *wasmkit.Shell
	in, out  uint32
	inSize   uint32
	outSize  uint32
	inside   atomic.Int32
	closed   atomic.Bool // Close was called
	trapped  atomic.Int64
	started  atomic.Bool
	table    operations.Table
	hostile  bool
	noCheck  atomic.Bool // what the host sends is not checked
	delay    func()
	onSend   func(ctx context.Context, n uint32) error // before anything else
	afterAll func(ctx context.Context)                 // at the end of Send

	mu       sync.Mutex // guards everything below
	r        *rand.Rand
	calls    map[uint64]*call
	streams  map[uint32]*call
	used     map[uint32]bool
	lanes    map[uint32]uint32
	gcalls   map[uint64]*gcall
	gstreams map[uint32]*gcall
	toStart  []*gcall
	nextID   uint32
	queue    [][]byte
	later    []func()
	log      []string
	sends    int
}

func newGuest(t *kit.T, r *rand.Rand) *guest {
	g := &guest{t: t, r: r, nextID: 1}
	g.forget()
	g.calls = map[uint64]*call{}
	g.gcalls = map[uint64]*gcall{}
	g.lanes = map[uint32]uint32{}
	g.used = map[uint32]bool{}
	g.table = operations.Table{{Index: opCall, Type: operations.RequestResponse, Direction: operations.Export, Namespace: "verif", Operation: "call"}}
	return g
}

// forget is what a trap leaves.
func (g *guest) forget() {
	g.streams = map[uint32]*call{}
	g.gstreams = map[uint32]*gcall{}
	g.queue, g.later = nil, nil
}

func (g *guest) logf(f string, a ...any) {
	g.log = append(g.log, fmt.Sprintf(f, a...))
	if len(g.log) > 50 {
		g.log = g.log[1:]
	}
}

func (g *guest) violate(sig, f string, a ...any) {
	g.t.Violate(sig, "%s\nlast frames:\n%s", fmt.Sprintf(f, a...), strings.Join(g.log, "\n"))
}

func (g *guest) Init(ctx context.Context, sh *wasmkit.Shell, a, b, c uint32) error {
	g.inSize, g.outSize = a, b
	g.in = 16 * uint32(g.r.IntN(2000))
	g.out = g.in + a + 16*uint32(g.r.IntN(2000))
	return sh.InitBuffers(ctx, g.in, g.out)
}

func (g *guest) List(ctx context.Context, sh *wasmkit.Shell) error {
	b := g.table.ToBytes()
	p := uint32(g.r.IntN(1000))
	sh.Memory().Write(p, b)
	err := sh.OpList(ctx, p, uint32(len(b)))
	sh.Memory().Write(p, bytes.Repeat([]byte{0xAA}, len(b)))
	return err
}

func (g *guest) Send(ctx context.Context, sh *wasmkit.Shell, n uint32) error {
	if g.inside.Add(1) != 1 {
		g.t.Violate("the guest is entered twice at a time", "%s", kit.Stacks())
	}
	defer g.inside.Add(-1)
	if g.delay != nil {
		g.delay()
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	g.sends++
	kit.Count("times the guest was called", 1)
	if g.onSend != nil {
		if err := g.onSend(ctx, n); err != nil {
			g.trapped.Add(1)
			g.logf("trap: %v", err)
			g.forget()
			return err
		}
	}
	buf, ok := sh.Memory().Read(g.in, n)
	if !ok || n > g.inSize {
		g.violate("a frame exceeds the buffer of the guest", "%d of %d", n, g.inSize)
		return nil
	}
	b := append([]byte(nil), buf...)
	for i := range buf {
		buf[i] = 0xE5
	}
	for len(b) > 0 && !g.noCheck.Load() {
		if len(b) < 3 || len(b) < 3+int(b[0])<<16+int(b[1])<<8+int(b[2]) {
			g.violate("malformed frame of the host", "%.80x", b)
			return nil
		}
		k := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		f, err := parse(b[3 : 3+k])
		b = b[3+k:]
		if err != nil {
			g.violate("malformed frame of the host", "%v", err)
			return nil
		}
		kit.Count("frames of the host", 1)
		g.logf("host: %v", f)
		g.got(f)
	}
	for k := g.r.IntN(4); k > 0 && len(g.toStart) > 0; k-- {
		c := g.toStart[0]
		g.toStart = g.toStart[1:]
		c.start()
	}
	for k := len(g.later) / 2; k >= 0 && len(g.later) > 0; k-- {
		i := g.r.IntN(len(g.later))
		f := g.later[i]
		g.later = append(g.later[:i:i], g.later[i+1:]...)
		f()
	}
	for len(g.queue) > 0 {
		pos := 0
		k := 0
		for n := 1 + g.r.IntN(8); len(g.queue) > 0 && k < n && pos+len(g.queue[0]) <= int(g.outSize); k++ {
			sh.Memory().Write(g.out+uint32(pos), g.queue[0])
			pos += len(g.queue[0])
			g.queue = g.queue[1:]
		}
		if k > 1 {
			kit.Count("buffers with several frames", 1)
		}
		if k == 0 {
			panic("frame does not fit")
		}
		if err := sh.HostSend(ctx, uint32(pos)); err != nil {
			g.violate("the host fails", "%v", err)
		}
		out, _ := sh.Memory().Read(g.out, uint32(pos))
		for i := range out {
			out[i] = 0x5E
		}
	}
	if g.afterAll != nil {
		g.afterAll(ctx)
	}
	return nil
}

func (g *guest) send(f frame) {
	g.logf("guest: %v", f)
	kit.Count("frames of the guest", 1)
	g.queue = append(g.queue, f.bytes())
}

func (g *guest) got(f frame) {
	if f.stream == 0 {
		g.violate("frame on stream 0", "%v", f)
		return
	}
	if f.typ >= tRR && f.typ <= tRC {
		g.request(f)
		return
	}
	if f.stream&1 == 0 {
		if c := g.streams[f.stream]; c != nil {
			c.fromHost(f)
		} else if !g.used[f.stream] && g.trapped.Load() == 0 {
			g.violate("frame on an unknown stream", "%v", f)
		}
		return
	}
	if c := g.gstreams[f.stream]; c != nil {
		c.fromHost(f)
	} else if !g.hostile && g.trapped.Load() == 0 {
		g.violate("frame on an unknown stream", "%v", f)
	}
}

func (g *guest) request(f frame) {
	if f.stream&1 == 1 || g.used[f.stream] {
		g.violate("stream of a request", "%v", f)
		return
	}
	g.used[f.stream] = true
	if len(f.md) < 8 {
		g.violate("metadata of a request", "%v", f)
		return
	}
	switch binary.BigEndian.Uint32(f.md) {
	case opTick:
		return
	case opNone:
		if f.typ != tFNF {
			g.send(frame{stream: f.stream, typ: tError, data: []byte("not_found")})
		}
		return
	}
	if len(f.data) < 8 {
		g.violate("data of a request", "%v", f)
		return
	}
	c := g.calls[binary.BigEndian.Uint64(f.data)]
	if c == nil || c.arrived > 0 || c.kind != f.typ || !c.req.is(f.md, f.data) {
		g.violate("a request arrives changed or twice", "%v: %v", f, c)
		return
	}
	if c.kind == tRR || c.kind == tFNF { // the others are requested in goroutines
		if g.lanes[c.lane] >= c.seq {
			g.violate("requests arrive out of order", "%v: %d after %d of caller %d", f, c.seq, g.lanes[c.lane], c.lane)
		}
		g.lanes[c.lane] = c.seq
	}
	c.arrived++
	kit.Count("requests at the guest", 1)
	c.stream = f.stream
	g.streams[f.stream] = c
	c.credit = int64(f.n)
	c.begin()
}

// --- calls of the host, seen by the guest ---

type call struct {
	g      *guest
	id     uint64
	kind   uint16
	lane   uint32
	seq    uint32
	req    item
	out    plan
	in     plan // of a channel
	late   bool // answered after a while
	tooBig bool // its input does not fit
	tag    any  // of its context
	mode   int  // of a channel: 0 echo, 1 count, 2 not interested

	// guest
	arrived int
	stream  uint32
	credit  int64
	next    int
	gone    bool // cancelled
	over    bool // ended by the guest
	inGot   int
	inAsked int64
	inEnd   bool
	inErr   string

	// host
	mu       sync.Mutex
	got      int
	ended    int
	err      error
	dropAt   int
	dropped  bool
	done     chan bool
	inSent   int
	inStop   bool
	wantMore func(n int)
}

func (c *call) String() string {
	if c == nil {
		return "none"
	}
	return fmt.Sprintf("call %d type %d mode %d late %v, %d items, fail %q", c.id, c.kind, c.mode, c.late, len(c.out.items), c.out.fail)
}

func (c *call) soon(f func()) {
	if c.late {
		n := c.g.r.IntN(3)
		var again func()
		again = func() {
			if n--; n > 0 {
				c.g.later = append(c.g.later, again)
				return
			}
			f()
		}
		c.g.later = append(c.g.later, again)
		return
	}
	f()
}

func (c *call) begin() {
	g := c.g
	switch c.kind {
	case tRR:
		c.soon(func() {
			c.over = true
			if c.out.fail != "" {
				g.send(frame{stream: c.stream, typ: tError, data: []byte(c.out.fail)})
				return
			}
			it := c.out.items[0]
			if c.id%4 == 0 {
				g.send(frame{stream: c.stream, typ: tPayload, flags: fNext, md: it.md, data: it.data})
				g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
				return
			}
			g.send(frame{stream: c.stream, typ: tPayload, flags: fNext | fComplete, md: it.md, data: it.data})
		})
	case tRS:
		c.soon(c.emit)
	case tRC:
		switch c.mode {
		case 2:
			if c.id%2 == 0 {
				c.inEnd = true
				g.send(frame{stream: c.stream, typ: tCancel})
			}
			c.soon(c.emit)
		default:
			c.soon(c.ask)
		}
	}
}

func (c *call) ask() {
	if c.gone || c.inEnd || c.over {
		return
	}
	n := int64(1 + c.g.r.IntN(5))
	if c.g.r.IntN(5) == 0 {
		n = 1<<31 - 1
	}
	c.inAsked += n
	c.g.send(frame{stream: c.stream, typ: tN, n: uint32(n)})
}

// emit answers within the demand.
func (c *call) emit() {
	g := c.g
	if c.gone || c.over {
		return
	}
	items, end, fail := c.out.items, true, c.out.fail
	if c.kind == tRC {
		switch c.mode {
		case 0: // echo
			items, end, fail = c.in.items[:c.inGot], c.inEnd, c.inErr
		case 1:
			if !c.inEnd {
				return
			}
			items, fail = []item{{nil, []byte(fmt.Sprint(c.inGot))}}, c.inErr
			if fail != "" {
				items = nil
			}
		}
	}
	for c.next < len(items) && c.credit > 0 {
		c.credit--
		it := items[c.next]
		c.next++
		f := frame{stream: c.stream, typ: tPayload, flags: fNext, md: it.md, data: it.data}
		if c.next == len(items) && end && fail == "" && c.id%3 == 0 {
			f.flags |= fComplete
			c.over = true
		}
		g.send(f)
		if c.late && g.r.IntN(4) == 0 {
			break
		}
	}
	if c.next < len(items) {
		if c.credit > 0 {
			g.later = append(g.later, c.emit)
		}
		return
	}
	if end && !c.over {
		c.over = true
		if fail != "" {
			g.send(frame{stream: c.stream, typ: tError, data: []byte(fail)})
		} else {
			g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
		}
	}
}

func (c *call) fromHost(f frame) {
	g := c.g
	switch f.typ {
	case tN:
		if (c.kind != tRS && c.kind != tRC) || f.n == 0 || f.n > 1<<31-1 {
			g.violate("demand of the host", "%v: %v", c, f)
			return
		}
		if c.gone {
			g.violate("demand after a cancel", "%v: %v", c, f)
		}
		c.credit += int64(f.n)
		c.emit()
	case tCancel:
		if c.gone {
			g.violate("cancelled twice", "%v: %v", c, f)
		}
		c.gone = true
		kit.Count("cancels at the guest", 1)
	case tPayload, tError:
		if c.kind != tRC || (c.inEnd && c.mode != 2) {
			g.violate("input of a call", "%v: %v", c, f)
			return
		}
		if f.typ == tError {
			if string(f.data) != c.in.fail && !c.tooBig && !g.broken() {
				g.violate("an error of the input changes", "%v: %q, not %q", c, f.data, c.in.fail)
			}
			c.inEnd, c.inErr = true, string(f.data)
			c.emit()
			return
		}
		if f.flags&fNext != 0 {
			if c.inGot >= len(c.in.items) || !c.in.items[c.inGot].is(f.md, f.data) {
				g.violate("input arrives changed", "%v: %d: %v", c, c.inGot, f)
				return
			}
			c.inGot++
			kit.Count("inputs at the guest", 1)
			if int64(c.inGot) > c.inAsked {
				g.violate("more input than asked for", "%v: %d of %d", c, c.inGot, c.inAsked)
			}
		}
		if f.flags&fComplete != 0 {
			if c.inGot != len(c.in.items) || c.in.fail != "" {
				g.violate("input is lost", "%v: %d of %d, fail %q", c, c.inGot, len(c.in.items), c.in.fail)
			}
			c.inEnd = true
		} else if int64(c.inGot) == c.inAsked {
			c.soon(c.ask)
		}
		c.emit()
	default:
		g.violate("unexpected frame", "%v", f)
	}
}

// --- calls of the guest ---

type gcall struct {
	g       *guest
	id      uint64
	kind    uint16
	req     item
	out     plan // what the host answers
	in      plan
	mode    int // how the host answers: 0 at once, 1 later, 2 from another call, 3 there is no such operation
	step    uint32
	stream  uint32
	begun   bool
	runs    atomic.Int32
	asked   int64
	seen    int
	over    bool
	overErr *string
	tooBig  bool // the answer does not fit
	stopped bool // cancelled by the guest
	dropAt  int
	nested  *call
	parent  *call // that it belongs to

	inAsked  int64
	inSent   int
	inOver   bool
	inFailed bool
	done     chan bool
}

func (c *gcall) String() string {
	return fmt.Sprintf("guest call %d type %d mode %d, %d items, fail %q", c.id, c.kind, c.mode, len(c.out.items), c.out.fail)
}

func (c *gcall) start() {
	g := c.g
	c.stream = g.nextID
	g.nextID += 2
	g.gstreams[c.stream] = c
	c.begun = true
	c.belong()
	kit.Count("calls of the guest", 1)
	f := frame{stream: c.stream, typ: c.kind, md: c.req.md, data: c.req.data}
	if c.kind == tRS || c.kind == tRC {
		f.n = c.step
		c.asked = int64(f.n)
	}
	if c.kind == tRC && len(c.in.items) == 0 && c.in.fail == "" && g.r.IntN(2) == 0 {
		f.flags |= fComplete // there is no input
		c.inOver = true
	}
	g.send(f)
	if c.kind == tFNF {
		c.finish(nil)
	}
}

// belong has some calls name an active call as the one they belong to.
func (c *gcall) belong() {
	g := c.g
	if g.r.IntN(3) == 0 {
		return
	}
	var of []*call
	for _, p := range g.streams {
		if p.active() {
			of = append(of, p)
		}
	}
	if len(of) == 0 {
		return
	}
	sort.Slice(of, func(i, j int) bool { return of[i].stream < of[j].stream })
	c.parent = of[g.r.IntN(len(of))]
	binary.BigEndian.PutUint32(c.req.md[4:], c.parent.stream)
}

// active tells whether the host still waits for the guest.
func (c *call) active() bool {
	return c.kind != tFNF && c.arrived > 0 && !c.over && !c.gone && !c.tooBig && c.dropAt < 0
}

func (c *gcall) finish(err *string) {
	if c.over {
		c.g.violate("an answer ends twice", "%v", c)
		return
	}
	c.over, c.overErr = true, err
	close(c.done)
}

// want is what the host answers.
func (c *gcall) want() plan {
	if c.mode == 3 {
		return plan{nil, "not_found"}
	}
	if c.tooBig {
		return plan{nil, anyError}
	}
	if c.kind == tRC {
		p := plan{c.in.items[:c.inSent], ""}
		if c.inFailed {
			p.fail = c.in.fail
		}
		return p
	}
	if c.kind == tRR && c.out.fail != "" {
		return plan{nil, c.out.fail}
	}
	return c.out
}

// broken tells whether anything may end with an error.
func (g *guest) broken() bool { return g.trapped.Load() > 0 || g.closed.Load() }

func (c *gcall) fromHost(f frame) {
	g := c.g
	if c.kind == tFNF {
		g.violate("reply to fire and forget", "%v: %v", c, f)
		return
	}
	if c.stopped {
		return // they may have crossed the cancel
	}
	switch f.typ {
	case tN:
		if c.kind != tRC || f.n == 0 || f.n > 1<<31-1 {
			g.violate("demand of the host", "%v: %v", c, f)
			return
		}
		c.inAsked += int64(f.n)
		c.feed()
	case tCancel:
		if c.kind != tRC {
			g.violate("unexpected cancel", "%v: %v", c, f)
		}
		c.inOver = true
	case tPayload:
		if c.over {
			g.violate("a frame after the end", "%v: %v", c, f)
			return
		}
		if f.flags&fNext != 0 {
			w := c.want()
			if c.seen >= len(w.items) || !w.items[c.seen].is(f.md, f.data) {
				g.violate("an answer is wrong", "%v: %d of %d: %v", c, c.seen, len(w.items), f)
				return
			}
			c.seen++
			kit.Count("elements at the guest", 1)
			if c.kind != tRR && int64(c.seen) > c.asked {
				g.violate("more elements than asked for", "%v: %d of %d", c, c.seen, c.asked)
			}
			if c.seen == c.dropAt && c.kind != tRR && !c.stopped && f.flags&fComplete == 0 {
				c.stopped = true
				g.send(frame{stream: c.stream, typ: tCancel})
				c.inOver = true
				c.finish(nil)
				return
			}
			if c.kind != tRR && int64(c.seen) == c.asked {
				more := func() {
					if !c.over && !c.stopped {
						c.asked += int64(c.step)
						g.send(frame{stream: c.stream, typ: tN, n: c.step})
					}
				}
				if g.r.IntN(2) == 0 {
					more()
				} else {
					g.later = append(g.later, more)
				}
			}
		}
		if f.flags&fComplete != 0 {
			c.end(nil)
		}
	case tError:
		if c.over {
			g.violate("a frame after the end", "%v: %v", c, f)
			return
		}
		s := string(f.data)
		c.end(&s)
	default:
		g.violate("unexpected frame", "%v: %v", c, f)
	}
}

func (c *gcall) end(err *string) {
	g := c.g
	w := c.want()
	if !g.broken() {
		switch {
		case c.seen != len(w.items):
			g.violate("elements are lost", "%v: %d of %d, error %v", c, c.seen, len(w.items), err)
		case err == nil && w.fail != "":
			g.violate("an error is lost", "%v", c)
		case err != nil && w.fail != *err && w.fail != anyError:
			g.violate("an error is wrong", "%v: %q, not %q", c, *err, w.fail)
		}
	}
	kit.Count("answers at the guest", 1)
	c.finish(err)
}

// feed sends input within the demand.
func (c *gcall) feed() {
	g := c.g
	for !c.inOver && !c.stopped && c.inSent < len(c.in.items) && int64(c.inSent) < c.inAsked {
		it := c.in.items[c.inSent]
		c.inSent++
		if c.inSent == len(c.in.items) && c.in.fail == "" && g.r.IntN(3) == 0 {
			c.inOver = true // with the last element
			g.send(frame{stream: c.stream, typ: tPayload, flags: fNext | fComplete, md: it.md, data: it.data})
			return
		}
		g.send(frame{stream: c.stream, typ: tPayload, flags: fNext, md: it.md, data: it.data})
		if g.r.IntN(4) == 0 {
			g.later = append(g.later, c.feed)
			return
		}
	}
	if !c.inOver && !c.stopped && c.inSent == len(c.in.items) {
		c.inOver = true
		if c.in.fail != "" {
			c.inFailed = true
			g.send(frame{stream: c.stream, typ: tError, data: []byte(c.in.fail)})
		} else {
			g.send(frame{stream: c.stream, typ: tPayload, flags: fComplete})
		}
	}
}
