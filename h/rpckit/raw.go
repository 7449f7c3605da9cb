//go:build go1.22

package rpckit

import (
	"encoding/binary"
	"io"
	"net"
	"sync"

	"github.com/nanobus/iota/go/invoke"
)

// Raw is a peer that writes its own frames and counts what it gets.
type Raw struct {
	Conn   net.Conn
	Mu     sync.Mutex
	Next   map[uint32]int   // elements by stream
	End    map[uint32]int   // completions and errors by stream
	Asks   map[uint32]int64 // demand by stream
	Cancel map[uint32]int
	Reqs   map[uint32]int // requests of the peer: type by stream
	Errs   map[uint32]string
	Data   map[uint32][]byte // of the last request or element
	Closed chan struct{}
	Frames int
}

// NewRaw reads from a connection.
func NewRaw(conn net.Conn) *Raw {
	x := &Raw{Conn: conn, Next: map[uint32]int{}, End: map[uint32]int{}, Asks: map[uint32]int64{}, Cancel: map[uint32]int{}, Reqs: map[uint32]int{}, Errs: map[uint32]string{}, Data: map[uint32][]byte{}, Closed: make(chan struct{})}
	go x.read()
	return x
}

// Frame builds a frame with its length prefix.
func Frame(stream uint32, typ, flags uint16, body ...byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, stream)
	b = binary.BigEndian.AppendUint16(b, typ<<10|flags)
	b = append(b, body...)
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

// SetupFrame is what a client sends first.
func SetupFrame() []byte {
	setup := append([]byte{0, 0, 0, 2, 0, 0, 0x4e, 0x20, 0, 1, 0x5f, 0x90}, 0, 0)
	return Frame(0, 1, 0, append(setup, invoke.GetOperationsTable().ToBytes()...)...)
}

// RequestFrame builds the request of a call.
func (c *Call) RequestFrame(stream uint32, n uint32) []byte {
	p := c.Request(c.Index(nil, false))
	typ := map[int]uint16{RR: 4, FNF: 5, RS: 6, RC: 7}[c.Kind]
	var body []byte
	if c.Kind == RS || c.Kind == RC {
		body = binary.BigEndian.AppendUint32(nil, n)
	}
	md := p.Metadata()
	body = append(body, byte(len(md)>>16), byte(len(md)>>8), byte(len(md)))
	return Frame(stream, typ, 256, append(append(body, md...), p.Data()...)...)
}

func (x *Raw) read() {
	defer close(x.Closed)
	var h [3]byte
	for {
		if _, err := io.ReadFull(x.Conn, h[:]); err != nil {
			return
		}
		b := make([]byte, int(h[0])<<16|int(h[1])<<8|int(h[2]))
		if _, err := io.ReadFull(x.Conn, b); err != nil || len(b) < 6 {
			return
		}
		s := binary.BigEndian.Uint32(b)
		w := binary.BigEndian.Uint16(b[4:])
		body := b[6:]
		if t := w >> 10; t == 6 || t == 7 {
			x.Mu.Lock()
			x.Asks[s] += int64(binary.BigEndian.Uint32(body))
			x.Mu.Unlock()
			body = body[4:]
		}
		if w&256 != 0 && len(body) >= 3 {
			n := int(body[0])<<16 | int(body[1])<<8 | int(body[2])
			body = body[3+n:]
		}
		x.Mu.Lock()
		x.Frames++
		switch w >> 10 {
		case 4, 5, 6, 7:
			x.Reqs[s] = int(w >> 10)
			x.Data[s] = body
		case 10:
			if w&32 != 0 {
				x.Next[s]++
				x.Data[s] = body
			}
			if w&64 != 0 {
				x.End[s]++
			}
		case 11:
			x.End[s]++
			x.Errs[s] = string(body[4:])
		case 8:
			x.Asks[s] += int64(binary.BigEndian.Uint32(b[6:]))
		case 9:
			x.Cancel[s]++
		}
		x.Mu.Unlock()
	}
}

// See calls f under the lock.
func (x *Raw) See(f func() bool) bool {
	x.Mu.Lock()
	defer x.Mu.Unlock()
	return f()
}
