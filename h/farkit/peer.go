//go:build go1.22

// Package farkit is another implementation of the protocol, to talk to the
// library with.
package farkit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// stream is a request as the foreign peer sees it.
type stream struct {
	kind  int
	own   bool // requested by the foreign peer
	id    uint32
	op    uint32
	data  []byte // of the request
	extra []byte // metadata behind the routing prefix
	seen  bool   // the request was sent or received

	send    *rpckit.Prod // what the foreign peer emits
	sent    int
	credit  int64
	sentEnd bool
	stop    bool // the other end does not want more

	recv     *rpckit.Prod // what it is to receive
	got      int
	granted  int64
	gotEnd   bool
	cancelAt int // cancels once it has got as many; -1: does not
	canceled bool
	lowWater int

	rejected bool // an error instead of the wanted elements is right
}

func (s *stream) String() string {
	return fmt.Sprintf("stream %d of kind %d, requested by the foreign peer: %v; it sent %d (end %v, stopped %v) of %v, got %d (end %v, granted %d, cancelled %v) of %v",
		s.id, s.kind, s.own, s.sent, s.sentEnd, s.stop, s.send, s.got, s.gotEnd, s.granted, s.canceled, s.recv)
}

func (s *stream) done() bool {
	return s.seen && (s.send == nil || s.sentEnd || s.stop) && (s.recv == nil || s.gotEnd || s.canceled)
}

// peer speaks the protocol without any code of the library. One goroutine
// reads, another one chooses among all that it may send.
type peer struct {
	t      *kit.T
	r      *rand.Rand
	conn   net.Conn
	client bool

	mu      sync.Mutex
	cond    *sync.Cond
	streams map[uint32]*stream
	planned map[uint64]*stream // requests of the other end, by the start of their data
	todo    []*stream          // requests of the foreign peer
	all     []*stream
	last    uint32
	evs     []rpckit.Ev
	quit    bool
	table   map[string]uint32 // operations the other end offers, by kind and name
	setup   chan bool
	skew    int // how it prefers to act
	lost    atomic.Bool
}

func newPeer(t *kit.T, r *rand.Rand, conn net.Conn, client bool) *peer {
	x := &peer{t: t, r: r, conn: conn, client: client, streams: map[uint32]*stream{}, planned: map[uint64]*stream{}, setup: make(chan bool, 1), skew: r.IntN(4)}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *peer) bad(sig, format string, a ...any) {
	x.t.Violate("foreign peer: "+sig, format, a...)
	x.quit = true
	x.cond.Broadcast()
}

// ---- encoding

func u16(b []byte, n int) []byte { return binary.BigEndian.AppendUint16(b, uint16(n)) }
func u32(b []byte, n uint32) []byte {
	return binary.BigEndian.AppendUint32(b, n)
}
func u24(b []byte, n int) []byte { return append(b, byte(n>>16), byte(n>>8), byte(n)) }

func frame(id uint32, typ, flags int, body []byte) []byte {
	b := u24(nil, 6+len(body))
	b = u32(b, id)
	b = u16(b, typ<<10|flags)
	return append(b, body...)
}

// content encodes metadata and data. No metadata may be written in two ways.
func (x *peer) content(b []byte, p payload.Payload) ([]byte, int) {
	md := p.Metadata()
	if len(md) == 0 && x.r.IntN(2) == 0 {
		return append(b, p.Data()...), 0
	}
	b = u24(b, len(md))
	b = append(b, md...)
	return append(b, p.Data()...), 256
}

// setupFrame offers operations, given as kind, name and index.
func (x *peer) setupFrame(ops []operation) []byte {
	r := x.r
	flags := 0
	b := u32(nil, uint32(r.IntN(2))<<16|uint32(r.IntN(5)))
	b = u32(b, 1+uint32(r.IntN(100000)))
	b = u32(b, 1+uint32(r.IntN(100000)))
	if r.IntN(4) == 0 {
		flags |= 128 // resume
		tok := []byte("token"[:r.IntN(6)])
		b = append(u16(b, len(tok)), tok...)
	}
	if r.IntN(4) == 0 {
		flags |= 64 // lease
	}
	for k := 0; k < 2; k++ {
		m := []string{"", "application/octet-stream", "text/plain", "message/x.rsocket.composite-metadata.v0"}[r.IntN(4)]
		b = append(append(b, byte(len(m))), m...)
	}
	if r.IntN(3) == 0 {
		flags |= 256
		md := []byte("metadata of the setup"[:r.IntN(10)])
		b = append(u24(b, len(md)), md...)
	}
	b = append(b, 0, 'w', 'r', 's', 0, 1)
	b = u32(b, uint32(len(ops)))
	for _, o := range ops {
		b = append(b, byte(o.kind), byte(o.dir))
		b = u32(b, o.index)
		b = append(u16(b, len(o.ns)), o.ns...)
		b = append(u16(b, len(o.name)), o.name...)
		b = u16(b, 0)
	}
	return frame(0, 1, flags, b)
}

type operation struct {
	kind, dir int
	index     uint32
	ns, name  string
}

// ---- reading

func (x *peer) read() {
	defer func() {
		x.lost.Store(true)
		x.mu.Lock()
		x.quit = true
		x.cond.Broadcast()
		x.mu.Unlock()
	}()
	var h [3]byte
	for {
		if _, err := io.ReadFull(x.conn, h[:]); err != nil {
			return
		}
		b := make([]byte, int(h[0])<<16|int(h[1])<<8|int(h[2]))
		if _, err := io.ReadFull(x.conn, b); err != nil {
			return
		}
		x.mu.Lock()
		x.handle(b)
		x.cond.Broadcast()
		stop := x.quit
		x.mu.Unlock()
		if stop && x.t.Failed() {
			return
		}
	}
}

func (x *peer) handle(b []byte) {
	if len(b) < 6 {
		x.bad("frame is too short", "%x", b)
		return
	}
	id, w := binary.BigEndian.Uint32(b), int(binary.BigEndian.Uint16(b[4:]))
	typ, flags := w>>10, w&1023
	whole := b
	b = b[6:]
	broken := func(why string) {
		x.bad("frame it cannot read", "%s: %x", why, whole[:min(len(whole), 60)])
	}
	ev := rpckit.Ev{Type: typ, Stream: id, Complete: typ != 7 && flags&64 != 0, Error: typ == 11}
	if id>>31 != 0 {
		broken("stream ID")
		return
	}
	if flags&128 != 0 && typ != 1 {
		broken("fragment that is not announced")
		return
	}
	if typ == 6 || typ == 7 || typ == 8 {
		if len(b) < 4 {
			broken("demand")
			return
		}
		ev.N = binary.BigEndian.Uint32(b)
		b = b[4:]
	}
	var md []byte
	switch typ {
	case 4, 5, 6, 7, 10:
		if flags&256 != 0 {
			if len(b) < 3 || len(b) < 3+(int(b[0])<<16|int(b[1])<<8|int(b[2])) {
				broken("metadata")
				return
			}
			n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
			md, b = b[3:3+n], b[3+n:]
		}
		if typ == 10 {
			ev.Next = flags&32 != 0
			if !ev.Next && (len(b)+len(md) > 0 || !ev.Complete) {
				broken("payload that is neither an element nor an end")
				return
			}
		}
	case 8, 9:
		if len(b) != 0 || flags != 0 {
			broken("demand or cancel")
			return
		}
	case 11:
		if len(b) < 4 || flags != 0 {
			broken("error")
			return
		}
		ev.Text = string(b[4:])
	case 1:
		if x.client || id != 0 {
			broken("setup")
			return
		}
		x.readSetup(whole)
		return
	default:
		broken("type")
		return
	}
	if !x.client && x.table == nil {
		x.bad("frame before the setup", "%x", whole[:min(len(whole), 60)])
		return
	}
	x.evs = append(x.evs, ev)
	kit.Count("frames read by foreign peers", 1)

	s := x.streams[id]
	if typ <= 7 {
		if (id&1 == 1) == x.client || id == 0 {
			x.bad("ID of a request", "%d", id)
			return
		}
		if s != nil {
			x.bad("ID is used again", "%d", id)
			return
		}
		s = x.planned[rpckit.CallID(b, md)]
		kind := map[int]int{4: rpckit.RR, 5: rpckit.FNF, 6: rpckit.RS, 7: rpckit.RC}[typ]
		if s == nil || s.seen || s.kind != kind || !bytes.Equal(b, s.data) || len(md) < 8 || !bytes.Equal(md[8:], s.extra) || binary.BigEndian.Uint32(md) != s.op {
			x.bad("request payload", "kind %d, metadata %x, data %x, for %v", kind, md, b[:min(len(b), 40)], s)
			return
		}
		s.id, s.seen = id, true
		x.streams[id] = s
		switch typ {
		case 4:
			s.credit = 1
		case 6, 7:
			s.credit = int64(ev.N)
			if ev.N == 0 {
				x.bad("initial demand", "%v", s)
			}
			if typ == 7 && flags&64 != 0 { // no input
				if s.recv.N > 0 || s.recv.Fail {
					x.bad("input is said to be empty", "%v", s)
				}
				s.gotEnd = true
			}
		}
		kit.Count("requests to foreign peers", 1)
		return
	}
	if s == nil {
		x.bad("frame without a request", "type %d of stream %d", typ, id)
		return
	}
	switch typ {
	case 8:
		s.credit += int64(ev.N)
	case 9:
		s.stop = true
		if !s.own {
			s.gotEnd = true // no input either
		}
		kit.Count("cancellations seen by foreign peers", 1)
	case 10:
		if s.recv == nil {
			x.bad("payload out of place", "%v", s)
			return
		}
		if s.gotEnd && !s.stop {
			x.bad("payload after the end", "%v", s)
			return
		}
		if ev.Next && !(s.gotEnd && s.stop) {
			if s.got >= s.recv.N {
				x.bad("more elements than were emitted", "%v", s)
				return
			}
			p := payload.New(b, md)
			if w := s.recv.Elem(s.got); !rpckit.Same(p, w) {
				x.bad("element is lost, repeated, reordered or changed", "element %d is %s, emitted %s: %v", s.got, rpckit.Show(p), rpckit.Show(w), s)
				return
			}
			s.got++
			if s.kind >= rpckit.RS && int64(s.got) > s.granted {
				x.bad("more elements than demanded", "%v", s)
			}
			kit.Count("elements received by foreign peers", 1)
		}
		if ev.Complete {
			if !s.gotEnd && !s.canceled && (s.recv.Fail || s.got < s.recv.N) {
				x.bad("completes early", "%v", s)
			}
			s.gotEnd = true
		}
	case 11:
		if s.recv == nil {
			x.bad("error out of place", "%v", s)
			return
		}
		if s.gotEnd && !s.stop {
			x.bad("error after the end", "%v", s)
			return
		}
		if !s.gotEnd && !s.canceled && !s.rejected && (!s.recv.Fail || s.got < s.recv.N || ev.Text != s.recv.Text) {
			x.bad("wrong error", "%q: %v", ev.Text[:min(len(ev.Text), 50)], s)
		}
		s.gotEnd = true
		if s.own { // ends both directions
			s.stop = true
		}
	}
}

func (x *peer) readSetup(b []byte) {
	if x.table != nil {
		x.bad("several setups", "%x", b[:min(len(b), 40)])
		return
	}
	// Skip to the table, which has to be the data.
	i := 6 + 12
	fail := func() { x.bad("setup it cannot read", "%x", b[:min(len(b), 200)]) }
	if len(b) < i+2 {
		fail()
		return
	}
	if binary.BigEndian.Uint16(b[4:])&128 != 0 {
		i += 2 + int(binary.BigEndian.Uint16(b[i:]))
	}
	for k := 0; k < 2; k++ {
		if i >= len(b) {
			fail()
			return
		}
		i += 1 + int(b[i])
	}
	if i+3 <= len(b) && binary.BigEndian.Uint16(b[4:])&256 != 0 {
		i += 3 + int(b[i])<<16 | int(b[i+1])<<8 | int(b[i+2])
	}
	if i+10 > len(b) || !bytes.Equal(b[i:i+6], []byte{0, 'w', 'r', 's', 0, 1}) {
		fail()
		return
	}
	n := binary.BigEndian.Uint32(b[i+6:])
	i += 10
	x.table = map[string]uint32{}
	field := func() string {
		if i+2 > len(b) {
			i = len(b) + 1
			return ""
		}
		k := int(binary.BigEndian.Uint16(b[i:]))
		i += 2
		if i+k > len(b) {
			i = len(b) + 1
			return ""
		}
		i += k
		return string(b[i-k : i])
	}
	for ; n > 0; n-- {
		if i+6 > len(b) {
			fail()
			return
		}
		kind, dir, index := b[i], b[i+1], binary.BigEndian.Uint32(b[i+2:])
		i += 6
		ns, op := field(), field()
		field()
		if dir == 1 {
			x.table[fmt.Sprintf("%d%s/%s", kind, ns, op)] = index
		}
	}
	if i != len(b) {
		fail()
		return
	}
	x.setup <- true
}

// ---- acting

// end says how the emission of a stream ends after its last element.
func (x *peer) end(s *stream) []byte {
	s.sentEnd = true
	if s.send.Fail {
		code := []uint32{0x201, 0x202, 0x203, 0x204, 0x301, 0xfffffffe}[x.r.IntN(6)]
		b := append(u32(nil, code), s.send.Text...)
		x.evs = append(x.evs, rpckit.Ev{Out: true, Type: 11, Stream: s.id, Error: true})
		if !s.own { // ends both directions
			s.gotEnd, s.stop = true, true
		}
		return frame(s.id, 11, 0, b)
	}
	x.evs = append(x.evs, rpckit.Ev{Out: true, Type: 10, Stream: s.id, Complete: true})
	return frame(s.id, 10, 64, nil)
}

// actions lists what the peer may do now.
func (x *peer) actions() []func() []byte {
	var as []func() []byte
	if len(x.todo) > 0 {
		as = append(as, x.request)
		if x.skew == 1 {
			return as
		}
	}
	for _, s := range x.all {
		if !s.seen || s.done() {
			continue
		}
		if s.send != nil && !s.sentEnd && !s.stop {
			if s.sent < s.send.N && s.credit > 0 {
				as = append(as, func() []byte { return x.element(s) })
				if x.skew == 2 {
					as = append(as, as[len(as)-1], as[len(as)-1])
				}
			} else if s.sent == s.send.N {
				as = append(as, func() []byte { return x.end(s) })
			}
		}
		if s.recv != nil && !s.gotEnd && !s.canceled && s.kind >= rpckit.RS {
			if s.cancelAt >= 0 && s.got >= s.cancelAt {
				as = append(as, func() []byte { return x.cancel(s) })
			}
			if left := s.granted - int64(s.got); left == 0 || left < int64(s.lowWater) {
				as = append(as, func() []byte { return x.grant(s) })
			}
		}
	}
	return as
}

func (x *peer) element(s *stream) []byte {
	p := s.send.Elem(s.sent)
	s.sent++
	s.credit--
	flags := 32
	ev := rpckit.Ev{Out: true, Type: 10, Stream: s.id, Next: true}
	if s.sent == s.send.N && !s.send.Fail && (s.kind == rpckit.RR || x.r.IntN(2) == 0) {
		flags |= 64
		ev.Complete = true
		s.sentEnd = true
		kit.Count("elements that came with the end", 1)
	}
	x.evs = append(x.evs, ev)
	b, f := x.content(nil, p)
	kit.Count("elements sent by foreign peers", 1)
	return frame(s.id, 10, flags|f, b)
}

func (x *peer) grantSize() uint32 {
	switch x.r.IntN(12) {
	case 0:
		return 1<<31 - 1
	case 1:
		return 100 + uint32(x.r.IntN(1000))
	case 2:
		return 1<<(5+x.r.IntN(26)) + uint32(x.r.IntN(3))
	}
	return 1 + uint32(x.r.IntN(1<<x.r.IntN(6)))
}

func (x *peer) grant(s *stream) []byte {
	n := x.grantSize()
	s.granted += int64(n)
	x.evs = append(x.evs, rpckit.Ev{Out: true, Type: 8, Stream: s.id, N: n})
	return frame(s.id, 8, 0, u32(nil, n))
}

func (x *peer) cancel(s *stream) []byte {
	s.canceled = true
	if s.own {
		s.stop = true // and there is no more input
	}
	x.evs = append(x.evs, rpckit.Ev{Out: true, Type: 9, Stream: s.id})
	kit.Count("cancellations by foreign peers", 1)
	return frame(s.id, 9, 0, nil)
}

func (x *peer) request() []byte {
	i := x.r.IntN(len(x.todo))
	s := x.todo[i]
	x.todo = append(x.todo[:i], x.todo[i+1:]...)
	// IDs rise, perhaps with gaps.
	step := uint32(2)
	if x.r.IntN(4) == 0 && x.last < 1<<31-1<<24 {
		step = 2 + 2*uint32(x.r.IntN(1<<x.r.IntN(20)))
	}
	x.last += step
	s.id, s.seen = x.last, true
	x.streams[s.id] = s
	typ := map[int]int{rpckit.RR: 4, rpckit.FNF: 5, rpckit.RS: 6, rpckit.RC: 7}[s.kind]
	ev := rpckit.Ev{Out: true, Type: typ, Stream: s.id}
	var b []byte
	flags := 0
	if s.kind >= rpckit.RS {
		ev.N = x.grantSize()
		s.granted = int64(ev.N)
		b = u32(b, ev.N)
	}
	if s.kind == rpckit.RC && s.send.N == 0 && !s.send.Fail && x.r.IntN(2) == 0 {
		flags |= 64 // there is no input
		s.sentEnd = true
		kit.Count("channels requested without input", 1)
	}
	x.evs = append(x.evs, ev)
	md := u32(u32(nil, s.op), 0)
	b, f := x.content(b, payload.New(s.data, append(md, s.extra...)))
	kit.Count("requests of foreign peers", 1)
	return frame(s.id, typ, flags|f, b)
}

// act runs until all streams are done.
func (x *peer) act() {
	for {
		x.mu.Lock()
		var as []func() []byte
		for {
			if x.quit {
				x.mu.Unlock()
				return
			}
			if as = x.actions(); len(as) > 0 {
				break
			}
			x.cond.Wait()
		}
		// Several frames may share a packet.
		b := as[x.r.IntN(len(as))]()
		for x.r.IntN(3) == 0 {
			if as = x.actions(); len(as) == 0 {
				break
			}
			b = append(b, as[x.r.IntN(len(as))]()...)
		}
		cut := 0
		if x.r.IntN(6) == 0 {
			cut = x.r.IntN(len(b))
		}
		pause := x.r.IntN(4) == 0
		x.mu.Unlock()
		for _, part := range [][]byte{b[:cut], b[cut:]} {
			if len(part) == 0 {
				continue
			}
			if _, err := x.conn.Write(part); err != nil {
				return
			}
		}
		if pause {
			runtime.Gosched()
		}
	}
}

// finished waits until the peer has nothing left to do.
func (x *peer) finished() bool {
	ok := kit.Wait(func() bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		if x.quit || x.t.Failed() {
			return true
		}
		for _, s := range x.all {
			if !s.done() {
				return false
			}
		}
		return true
	})
	x.mu.Lock()
	defer x.mu.Unlock()
	if !ok || (x.quit && !x.t.Failed()) {
		for _, s := range x.all {
			if !s.done() {
				x.t.Violate("foreign peer: stream does not end", "connection lost %v: %v\n%s", x.lost.Load(), s, kit.Stacks())
				return false
			}
		}
		if x.quit {
			x.t.Violate("foreign peer: connection is lost", "")
			return false
		}
	}
	return !x.t.Failed()
}

// reset forgets the requests of a conversation, but not what was on the wire.
func (x *peer) reset() {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.quit = x.lost.Load()
	x.all = nil // late frames of its streams may still come
}

// rest lets the actor end.
func (x *peer) rest() {
	x.mu.Lock()
	x.quit = true
	x.cond.Broadcast()
	x.mu.Unlock()
}

func (x *peer) close() {
	x.mu.Lock()
	x.quit = true
	x.cond.Broadcast()
	x.mu.Unlock()
	x.conn.Close()
}
