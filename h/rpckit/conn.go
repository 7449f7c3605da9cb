//go:build go1.22

// Package rpckit connects real transports and handlers over TCP or memory,
// records what passes on the wire, and provides operations whose behaviour a
// workload chooses per call.
package rpckit

import (
	"errors"
	"io"
	"math/rand/v2"
	"net"
	"sync"
	"time"
)

// half is one direction of a connection in memory.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	max    int
	eof    bool // the writer has closed
	broken bool // the reader has closed
	chunky bool
	r      *rand.Rand
}

func newHalf(chunky bool, max int, seed uint64) *half {
	h := &half{chunky: chunky, max: max, r: rand.New(rand.NewPCG(seed, 7))}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) write(p []byte) (n int, err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(p) > 0 {
		for len(h.buf) >= h.max && !h.broken && !h.eof {
			h.cond.Wait()
		}
		if h.eof {
			return n, net.ErrClosed
		}
		if h.broken {
			return n, errors.New("write: broken pipe")
		}
		k := min(len(p), h.max-len(h.buf))
		h.buf = append(h.buf, p[:k]...)
		p = p[k:]
		n += k
		h.cond.Broadcast()
	}
	return n, nil
}

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.buf) == 0 && !h.eof && !h.broken {
		h.cond.Wait()
	}
	if h.broken {
		return 0, net.ErrClosed
	}
	if len(h.buf) == 0 {
		return 0, io.EOF
	}
	if h.chunky && len(p) > 1 && h.r.IntN(3) == 0 {
		p = p[:1+h.r.IntN(min(len(p), 40))]
	}
	n := copy(p, h.buf)
	h.buf = h.buf[n:]
	if len(h.buf) == 0 {
		h.buf = nil
	}
	h.cond.Broadcast()
	return n, nil
}

func (h *half) set(eof, broken bool) {
	h.mu.Lock()
	h.eof = h.eof || eof
	h.broken = h.broken || broken
	h.cond.Broadcast()
	h.mu.Unlock()
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

// memConn is a connection in memory. Its two directions share nothing, so
// that the race detector sees no order that the wire does not give.
type memConn struct {
	in, out *half
	once    sync.Once
}

func (c *memConn) Read(p []byte) (int, error)  { return c.in.read(p) }
func (c *memConn) Write(p []byte) (int, error) { return c.out.write(p) }
func (c *memConn) Close() error {
	c.once.Do(func() {
		c.in.set(false, true)
		c.out.set(true, false)
	})
	return nil
}
func (c *memConn) LocalAddr() net.Addr              { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr             { return memAddr{} }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

// MemPair returns the two ends of a connection.
func MemPair(r *rand.Rand) (net.Conn, net.Conn) {
	max := 1 << 20
	if r.IntN(3) == 0 {
		max = 64 + r.IntN(4096)
	}
	a := newHalf(r.IntN(2) == 0, max, r.Uint64())
	b := newHalf(r.IntN(2) == 0, max, r.Uint64())
	return &memConn{in: a, out: b}, &memConn{in: b, out: a}
}

// memListener accepts connections in memory.
type memListener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *memListener) Close() error { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr {
	return memAddr{}
}

// Ev is one frame seen on the wire at one of its ends.
type Ev struct {
	Out                            bool // sent by this end
	Type                           int
	Stream                         uint32
	Next, Complete, Follows, Error bool
	N                              uint32 // demand of requests and request-n
	Len                            int
	Text                           string // of errors
}

// Tap records the frames that pass one end of a connection: those that come
// in before this end sees them, and those that go out before the peer can.
type Tap struct {
	net.Conn
	mu      sync.Mutex
	in, out []byte
	evs     []Ev
	keep    bool
	On      func(Ev) // called under the lock
}

func (t *Tap) Read(p []byte) (int, error) {
	n, err := t.Conn.Read(p)
	if n > 0 {
		t.mu.Lock()
		t.in = t.parse(append(t.in, p[:n]...), false)
		t.mu.Unlock()
	}
	return n, err
}

func (t *Tap) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.out = t.parse(append(t.out, p...), true)
	t.mu.Unlock()
	return t.Conn.Write(p)
}

func be(b []byte, n int) (v uint32) {
	for i := 0; i < n; i++ {
		v = v<<8 | uint32(b[i])
	}
	return
}

func (t *Tap) parse(b []byte, out bool) []byte {
	for len(b) >= 3 {
		n := int(be(b, 3))
		if len(b) < 3+n {
			break
		}
		f := b[3 : 3+n]
		b = b[3+n:]
		ev := Ev{Out: out, Type: -1, Len: n}
		if n >= 6 {
			ev.Stream = be(f, 4) & 0x7fffffff
			w := be(f[4:], 2)
			ev.Type = int(w >> 10)
			ev.Next = w&(1<<5) != 0
			ev.Complete = w&(1<<6) != 0
			ev.Follows = w&(1<<7) != 0
			ev.Error = ev.Type == 11
			if ev.Error && n >= 10 {
				ev.Text = string(f[10:])
			}
			if (ev.Type == 6 || ev.Type == 7 || ev.Type == 8) && n >= 10 {
				ev.N = be(f[6:], 4)
			}
		}
		if t.keep {
			t.evs = append(t.evs, ev)
		}
		if t.On != nil {
			t.On(ev)
		}
	}
	if len(b) == 0 {
		return nil
	}
	return b
}

// Events returns what was seen so far.
func (t *Tap) Events() []Ev {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]Ev(nil), t.evs...)
}
