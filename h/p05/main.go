//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifh/framekit"
	"github.com/nanobus/iota/go/verifh/kit"
)

// wire is a connection that records what is written, slowly and in pieces.
type wire struct {
	net.Conn
	mu      sync.Mutex
	buf     []byte
	writes  int
	inside  int
	overlap bool
	slow    bool
	failAt  int // fail once this many bytes were written (0: never)
}

func (w *wire) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.inside++
	if w.inside > 1 {
		w.overlap = true
	}
	w.writes++
	w.mu.Unlock()
	for n := 0; n < len(p); {
		k := len(p) - n
		if w.slow && k > 7 {
			k = 1 + rand.IntN(k)
			if rand.IntN(8) == 0 {
				runtime.Gosched()
			}
		}
		w.mu.Lock()
		w.buf = append(w.buf, p[n:n+k]...)
		w.mu.Unlock()
		n += k
	}
	w.mu.Lock()
	w.inside--
	w.mu.Unlock()
	return len(p), nil
}

func (w *wire) Close() error { return nil }

func (w *wire) len() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.buf)
}

// alone sends frames of which each has to arrive before the next is sent.
func alone(t *kit.T) {
	r := t.Rand
	w := &wire{}
	tr := rsocket.NewTransport(rsocket.NewTCPConn(w), stub{}, false)
	total := 0
	for i := 0; i < kit.N(3000, 30000) && !t.Failed(); i++ {
		n := r.IntN(300)
		switch r.IntN(4) {
		case 0:
			n = []int{4096, 8192, 16384, 24576, 65536, 1 << 17}[r.IntN(6)] - r.IntN(60)
		case 1:
			n = r.IntN(40000)
		}
		f := frameOf(r, body(r, 0, i, n))
		total += 3 + int(f.Size())
		var err error
		if r.IntN(3) > 0 {
			err = tr.Send(f, true)
		} else {
			g := frameOf(r, body(r, 0, i, r.IntN(9000)))
			total += 3 + int(g.Size())
			if err = tr.Send(f, false); err == nil {
				if r.IntN(2) == 0 {
					err = tr.Send(g, true)
				} else if err = tr.Send(g, false); err == nil {
					err = tr.Flush()
				}
			}
		}
		if err != nil {
			t.Violate("frame refused", "a lone sender: %v", err)
		}
		if !kit.Wait(func() bool { return w.len() >= total }) {
			t.Violate("a flushed frame is kept back", "frame of %d bytes: %d of %d bytes are on the wire", f.Size(), w.len(), total)
		}
		kit.Count("frames that arrive by themselves", 1)
		t.Case(fmt.Sprint("alone", f.Size(), i))
		w.mu.Lock()
		w.buf, total = w.buf[:0], 0
		w.mu.Unlock()
	}
}

type stub struct{}

func (stub) SetFrameSender(func(frames.Frame) error) {}
func (stub) HandleFrame(frames.Frame) error          { return nil }

// body makes a payload that identifies sender and sequence and checks itself.
func body(r *rand.Rand, sender, seq, n int) []byte {
	b := make([]byte, 16+n)
	binary.BigEndian.PutUint32(b[4:], uint32(sender))
	binary.BigEndian.PutUint32(b[8:], uint32(seq))
	copy(b[16:], framekit.Blob(r, n))
	binary.BigEndian.PutUint32(b[12:], uint32(n))
	binary.BigEndian.PutUint32(b, crc32.ChecksumIEEE(b[4:]))
	return b
}

type sent struct{ sender, seq int }

// parse checks the bytes on the wire.
func parse(t *kit.T, wireBytes []byte, senders, per int, accepted map[sent]bool, what string) {
	next := make([]int, senders)
	rest := wireBytes
	n := 0
	for len(rest) > 0 {
		if len(rest) < 3 {
			t.Violate("torn frame", "%s: %d bytes left after %d frames", what, len(rest), n)
			return
		}
		l := int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
		if len(rest) < 3+l || l < 6 {
			t.Violate("torn frame", "%s: length %d with %d bytes left after %d frames", what, l, len(rest)-3, n)
			return
		}
		raw := rest[3 : 3+l]
		rest = rest[3+l:]
		n++
		typ := int(raw[4] >> 2)
		if framekit.Empty(typ) == nil {
			t.Violate("torn frame", "%s: unknown type %d after %d frames", what, typ, n)
			return
		}
		var b []byte
		switch typ {
		case framekit.Payload:
			b = raw[6:]
			if raw[4]&1 != 0 { // metadata repeats the body's start
				ml := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
				if 3+ml > len(b) {
					t.Violate("torn frame", "%s: metadata of frame %d", what, n)
					return
				}
				b = b[3+ml:]
			}
		case framekit.RR, framekit.FNF:
			b = raw[6:]
		case framekit.RS, framekit.RC, framekit.Error:
			b = raw[10:]
		}
		if len(b) < 16 || binary.BigEndian.Uint32(b) != crc32.ChecksumIEEE(b[4:]) || int(binary.BigEndian.Uint32(b[12:])) != len(b)-16 {
			t.Violate("torn or modified frame", "%s: frame %d, type %d, %d bytes: %.60x", what, n, typ, l, raw)
			return
		}
		s, q := int(binary.BigEndian.Uint32(b[4:])), int(binary.BigEndian.Uint32(b[8:]))
		if s >= senders || q < next[s] {
			t.Violate("frame repeated or out of order", "%s: sender %d sequence %d, expected %d", what, s, q, next[s])
			return
		}
		for ; next[s] < q; next[s]++ {
			if accepted[sent{s, next[s]}] {
				t.Violate("frame lost", "%s: sender %d sequence %d (next seen %d)", what, s, next[s], q)
				return
			}
		}
		if !accepted[sent{s, q}] {
			t.Violate("refused frame on the wire", "%s: sender %d sequence %d", what, s, q)
			return
		}
		next[s] = q + 1
	}
	for s := range next {
		for ; next[s] < per; next[s]++ {
			if accepted[sent{s, next[s]}] {
				t.Violate("frame lost", "%s: sender %d sequence %d, after the last", what, s, next[s])
				return
			}
		}
	}
	kit.Count("frames on the wire", int64(n))
}

func frameOf(r *rand.Rand, b []byte) frames.Frame {
	switch r.IntN(6) {
	case 0:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: r.Uint32() >> 1, Data: b}
	case 1:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: r.Uint32() >> 1, Data: b, InitialN: r.Uint32()}
	case 2:
		return &frames.Error{StreamID: r.Uint32() >> 1, Data: string(b)}
	case 3:
		return &frames.Payload{StreamID: r.Uint32() >> 1, Data: b, Metadata: framekit.Blob(r, r.IntN(50))}
	}
	return &frames.Payload{StreamID: r.Uint32() >> 1, Data: b, Next: true}
}

func workload(t *kit.T, from *rand.Rand, slow bool, sizes func(r *rand.Rand) int, senders, per int, oversize bool, what string) {
	w := &wire{slow: slow}
	tr := rsocket.NewTransport(rsocket.NewTCPConn(w), stub{}, false)
	accepted := map[sent]bool{}
	last := from.IntN(2) == 0 // the last frame of each sender is flushed with it
	var bytesSent atomic.Int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	switches := 0
	for s := 0; s < senders; s++ {
		r := rand.New(rand.NewPCG(from.Uint64(), uint64(s)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := map[int]bool{}
			for q := 0; q < per; q++ {
				n := sizes(r)
				big := oversize && r.IntN(per) < 2
				if big {
					n = 1<<24 + r.IntN(1000) - 20
				}
				f := frameOf(r, body(r, s, q, n))
				err := tr.Send(f, r.IntN(3) != 0 || last && q == per-1)
				if f.Size() > 1<<24-1 && err == nil {
					t.Violate("oversized frame accepted", "%s: %d bytes", what, f.Size())
				}
				if f.Size() <= 1<<24-1 && err != nil {
					t.Violate("frame refused", "%s: %d bytes: %v", what, f.Size(), err)
				}
				mine[q] = err == nil
				if err == nil {
					bytesSent.Add(3 + int64(f.Size()))
				} else if last && q == per-1 {
					_ = tr.Flush()
				}
				if r.IntN(16) == 0 {
					_ = tr.Flush()
				}
			}
			mu.Lock()
			for q, ok := range mine {
				accepted[sent{s, q}] = ok
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	if last {
		if !kit.Wait(func() bool { return w.len() >= int(bytesSent.Load()) }) {
			t.Violate("a flushed frame is kept back", "%s: %d of %d bytes are on the wire", what, w.len(), bytesSent.Load())
		}
	} else if err := tr.Flush(); err != nil {
		t.Violate("flush fails", "%s: %v", what, err)
	}
	if w.overlap {
		t.Violate("overlapping writes to the connection", "%s", what)
	}
	parse(t, w.buf, senders, per, accepted, what)
	// how interleaved was it
	previous := -1
	for rest := w.buf; len(rest) > 3; {
		l := int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
		if len(rest) < 3+l {
			break
		}
		if l >= 26 {
			s := int(crc32.ChecksumIEEE(rest[3 : 3+min(l, 40)]))
			if s != previous {
				switches++
			}
			previous = s
		}
		rest = rest[3+l:]
	}
	kit.Count("writes to the connection", int64(w.writes))
	h := crc32.ChecksumIEEE(w.buf)
	t.Case(fmt.Sprint(what, h))
	if t.Wants() {
		t.Sample("%s: %d bytes on the wire in %d writes", what, len(w.buf), w.writes)
	}
}

func main() {
	small := func(r *rand.Rand) int { return r.IntN(64) }
	mixed := func(r *rand.Rand) int {
		switch r.IntN(6) {
		case 0:
			return 4080 + r.IntN(40)
		case 1:
			return r.IntN(20000)
		}
		return r.IntN(300)
	}
	kit.Main(kit.Config{
		Property:    "P05",
		Rule:        "Many senders write self-describing frames (sender, sequence, checksum) through one transport onto a recording connection that writes slowly and in pieces; the recorded bytes are parsed offline. A run is distinct by the bytes on the wire (the interleaving that happened).",
		Assumptions: []string{"A frame sent without flush may stay buffered until the next flush."},
		Scenarios: []kit.Scenario{
			{Name: "small frames", Yields: []int{0, 1, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(25, 300) && !t.Failed(); i++ {
					workload(t, t.Rand, i%2 == 0, small, 2+t.Rand.IntN(14), kit.N(60, 200), false, fmt.Sprintf("small #%d", i))
				}
			}},
			{Name: "mixed frames", Yields: []int{0, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(15, 150) && !t.Failed(); i++ {
					workload(t, t.Rand, i%2 == 0, mixed, 2+t.Rand.IntN(10), kit.N(60, 200), false, fmt.Sprintf("mixed #%d", i))
				}
			}},
			{Name: "several connections", Yields: []int{0, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(12, 120) && !t.Failed(); i++ {
					var wg sync.WaitGroup
					for c := 2 + t.Rand.IntN(6); c > 0; c-- {
						r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(c)))
						wg.Add(1)
						go func() {
							defer wg.Done()
							workload(t, r, c%3 != 0, mixed, 1+r.IntN(4), kit.N(40, 100), false, fmt.Sprintf("connection %d of round #%d", c, i))
						}()
					}
					wg.Wait()
				}
			}},
			{Name: "one at a time", Run: alone},
			{Name: "oversized frames", Yields: []int{0, 1}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(3, 12) && !t.Failed(); i++ {
					workload(t, t.Rand, false, mixed, 4, 12, true, fmt.Sprintf("oversized #%d", i))
				}
			}},
			{Name: "around the limit", Run: func(t *kit.T) {
				for d := -12; d <= 3; d++ {
					w := &wire{}
					tr := rsocket.NewTransport(rsocket.NewTCPConn(w), stub{}, false)
					data := framekit.Blob(t.Rand, 1<<24-1+d)
					f := &frames.Payload{StreamID: 1, Data: data, Next: true}
					err := tr.Send(f, true)
					fits := len(data)+6 <= 1<<24-1
					if (err == nil) != fits {
						t.Violate("limit of the length prefix", "frame of %d bytes: %v", f.Size(), err)
					}
					if err2 := tr.Send(&frames.Cancel{StreamID: 7}, true); err2 != nil {
						t.Violate("connection unusable after a refused frame", "%v", err2)
					}
					want := []byte{0, 0, 6, 0, 0, 0, 7, 9 << 2, 0}
					if fits {
						raw := framekit.F{Type: framekit.Payload, Stream: 1, Data: data, Next: true}.Bytes()
						want = append(append([]byte{byte(len(raw) >> 16), byte(len(raw) >> 8), byte(len(raw))}, raw...), want...)
					}
					if !bytes.Equal(w.buf, want) {
						t.Violate("bytes on the wire", "frame of %d bytes (err %v): %d bytes on the wire, want %d", f.Size(), err, len(w.buf), len(want))
					}
					t.Case(fmt.Sprint(d))
				}
			}},
			{Name: "over TCP", Yields: []int{0, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(6, 60) && !t.Failed(); i++ {
					l, err := net.Listen("tcp", "127.0.0.1:0")
					if err != nil {
						t.Inconclusive("listen: %v", err)
						return
					}
					c, err := net.Dial("tcp", l.Addr().String())
					if err != nil {
						t.Inconclusive("dial: %v", err)
						return
					}
					peer, _ := l.Accept()
					got := make(chan []byte, 1)
					go func() {
						var b bytes.Buffer
						_ = peer.SetReadDeadline(time.Now().Add(60 * time.Second))
						_, _ = b.ReadFrom(peer)
						got <- b.Bytes()
					}()
					tr := rsocket.NewTransport(rsocket.NewTCPConn(c), stub{}, false)
					const senders, per = 8, 80
					accepted := map[sent]bool{}
					var wg sync.WaitGroup
					for s := 0; s < senders; s++ {
						r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(s)))
						for q := 0; q < per; q++ {
							accepted[sent{s, q}] = true
						}
						wg.Add(1)
						go func() {
							defer wg.Done()
							for q := 0; q < per; q++ {
								if err := tr.Send(frameOf(r, body(r, s, q, mixed(r))), true); err != nil {
									t.Violate("frame refused", "over TCP: %v", err)
								}
							}
						}()
					}
					wg.Wait()
					_ = tr.Close()
					b := <-got
					parse(t, b, senders, per, accepted, fmt.Sprintf("TCP #%d", i))
					t.Case(fmt.Sprint(i, crc32.ChecksumIEEE(b)))
					_ = peer.Close()
					_ = l.Close()
				}
			}},
		},
	})
}
