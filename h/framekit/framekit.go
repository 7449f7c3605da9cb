//go:build go1.22

// Package framekit is an independent model of the RSocket frame layout, and
// generators of frames.
package framekit

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
)

// F is a frame in model form.
type F struct {
	Type                           int
	Stream                         uint32
	Follows, Complete, Next, Lease bool
	N                              uint32
	Code                           uint32
	Major, Minor                   uint16
	Keepalive, Lifetime            uint32        // ms
	Odd                            time.Duration // what the durations have in excess of that
	Token                          []byte
	MimeM, MimeD                   string
	MD, Data                       []byte

	// Choices only a foreign encoder makes.
	ForceM, ForceR bool // set the flag though the field is empty
	Extra          uint16
}

const (
	Setup   = 1
	RR      = 4
	FNF     = 5
	RS      = 6
	RC      = 7
	ReqN    = 8
	Cancel  = 9
	Payload = 10
	Error   = 11
)

var Types = []int{Setup, RR, FNF, RS, RC, ReqN, Cancel, Payload, Error}

func (f F) String() string {
	short := func(b []byte) string {
		if len(b) > 12 {
			return fmt.Sprintf("%x..(%d)", b[:12], len(b))
		}
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("type=%d stream=%d F=%v C=%v N=%v L=%v n=%d code=%x v=%d.%d ka=%d lt=%d token=%s mime=%d/%d md=%s data=%s forceM=%v forceR=%v extra=%x",
		f.Type, f.Stream, f.Follows, f.Complete, f.Next, f.Lease, f.N, f.Code, f.Major, f.Minor, f.Keepalive, f.Lifetime, short(f.Token), len(f.MimeM), len(f.MimeD), short(f.MD), short(f.Data), f.ForceM, f.ForceR, f.Extra)
}

// Key identifies the shape of a frame.
func (f F) Key() string {
	return fmt.Sprintf("%d %d %v%v%v%v %d %d %d %d %d %d %d", f.Type, f.Stream, f.Follows, f.Complete, f.Next, f.Lease, f.N, f.Code, len(f.Token), len(f.MimeM), len(f.MimeD), len(f.MD), len(f.Data))
}

const (
	flN = 1 << 5
	flC = 1 << 6
	flF = 1 << 7
	flM = 1 << 8
	flI = 1 << 9
)

func be(n uint64, bytes int) []byte {
	b := make([]byte, bytes)
	for i := range b {
		b[i] = byte(n >> (8 * (bytes - 1 - i)))
	}
	return b
}

// Bytes writes the frame as the RSocket protocol lays it out.
func (f F) Bytes() []byte {
	fl := int(f.Extra)
	if len(f.MD) > 0 || f.ForceM {
		fl |= flM
	}
	if f.Type == Setup {
		if f.Lease {
			fl |= flC
		}
		if len(f.Token) > 0 || f.ForceR {
			fl |= flF
		}
	}
	switch f.Type {
	case RR, FNF, RS, RC, Payload:
		if f.Follows {
			fl |= flF
		}
	}
	if f.Complete && (f.Type == RC || f.Type == Payload) {
		fl |= flC
	}
	if f.Next && f.Type == Payload {
		fl |= flN
	}
	var b []byte
	b = append(b, be(uint64(f.Stream), 4)...)
	b = append(b, be(uint64(f.Type)<<10|uint64(fl), 2)...)
	switch f.Type {
	case Setup:
		b = append(b, be(uint64(f.Major), 2)...)
		b = append(b, be(uint64(f.Minor), 2)...)
		b = append(b, be(uint64(f.Keepalive), 4)...)
		b = append(b, be(uint64(f.Lifetime), 4)...)
		if fl&flF != 0 {
			b = append(b, be(uint64(len(f.Token)), 2)...)
			b = append(b, f.Token...)
		}
		b = append(b, byte(len(f.MimeM)))
		b = append(b, f.MimeM...)
		b = append(b, byte(len(f.MimeD)))
		b = append(b, f.MimeD...)
	case RS, RC, ReqN:
		b = append(b, be(uint64(f.N), 4)...)
	case Error:
		b = append(b, be(uint64(f.Code), 4)...)
	}
	switch f.Type {
	case Setup, RR, FNF, RS, RC, Payload:
		if fl&flM != 0 {
			b = append(b, be(uint64(len(f.MD)), 3)...)
			b = append(b, f.MD...)
		}
		b = append(b, f.Data...)
	case Error:
		b = append(b, f.Data...)
	}
	return b
}

// Real builds the frame of the code under test.
func (f F) Real() frames.Frame {
	switch f.Type {
	case Setup:
		return &frames.Setup{MajorVersion: f.Major, MinorVersion: f.Minor,
			TimeBetweenKeepalive: time.Duration(f.Keepalive) * time.Millisecond, MaxLifetime: time.Duration(f.Lifetime) * time.Millisecond,
			Token: f.Token, MimeMetadata: f.MimeM, MimeData: f.MimeD, Metadata: f.MD, Data: f.Data, Lease: f.Lease}
	case RR, FNF, RS, RC:
		return &frames.RequestPayload{FrameType: frames.FrameType(f.Type), StreamID: f.Stream, Metadata: f.MD, Data: f.Data,
			Follows: f.Follows, Complete: f.Complete, InitialN: f.N}
	case ReqN:
		return &frames.RequestN{StreamID: f.Stream, N: f.N}
	case Cancel:
		return &frames.Cancel{StreamID: f.Stream}
	case Payload:
		return &frames.Payload{StreamID: f.Stream, Metadata: f.MD, Data: f.Data, Follows: f.Follows, Complete: f.Complete, Next: f.Next}
	case Error:
		return &frames.Error{StreamID: f.Stream, Code: frames.ErrCode(f.Code), Data: string(f.Data)}
	}
	panic("type")
}

// Empty returns an empty frame of the type for decoding.
func Empty(typ int) frames.Frame {
	switch typ {
	case Setup:
		return &frames.Setup{}
	case RR, FNF, RS, RC:
		return &frames.RequestPayload{}
	case ReqN:
		return &frames.RequestN{}
	case Cancel:
		return &frames.Cancel{}
	case Payload:
		return &frames.Payload{}
	case Error:
		return &frames.Error{}
	}
	return nil
}

// Model reads the fields of a frame of the code under test.
func Model(fr frames.Frame) F {
	m := F{Type: int(fr.Type()), Stream: fr.GetStreamID()}
	switch x := fr.(type) {
	case *frames.Setup:
		m.Major, m.Minor = x.MajorVersion, x.MinorVersion
		m.Keepalive, m.Lifetime = uint32(x.TimeBetweenKeepalive/time.Millisecond), uint32(x.MaxLifetime/time.Millisecond)
		if m.Odd = x.TimeBetweenKeepalive - time.Duration(m.Keepalive)*time.Millisecond; m.Odd == 0 {
			m.Odd = x.MaxLifetime - time.Duration(m.Lifetime)*time.Millisecond
		}
		m.Token, m.MimeM, m.MimeD, m.MD, m.Data, m.Lease = x.Token, x.MimeMetadata, x.MimeData, x.Metadata, x.Data, x.Lease
	case *frames.RequestPayload:
		m.MD, m.Data, m.Follows, m.Complete, m.N = x.Metadata, x.Data, x.Follows, x.Complete, x.InitialN
	case *frames.RequestN:
		m.N = x.N
	case *frames.Payload:
		m.MD, m.Data, m.Follows, m.Complete, m.Next = x.Metadata, x.Data, x.Follows, x.Complete, x.Next
	case *frames.Error:
		m.Code, m.Data = uint32(x.Code), []byte(x.Data)
	}
	return m
}

// Diff names the first field in which the frames differ in meaning.
func Diff(a, b F) string {
	switch {
	case a.Type != b.Type:
		return "type"
	case a.Stream != b.Stream:
		return "stream ID"
	}
	switch a.Type {
	case Setup:
		switch {
		case a.Major != b.Major || a.Minor != b.Minor:
			return "version"
		case a.Keepalive != b.Keepalive || a.Lifetime != b.Lifetime || a.Odd != b.Odd:
			return "durations"
		case !bytes.Equal(a.Token, b.Token):
			return "token"
		case a.MimeM != b.MimeM || a.MimeD != b.MimeD:
			return "MIME types"
		case a.Lease != b.Lease:
			return "lease flag"
		}
	case RR, FNF, RS, RC, Payload:
		if a.Follows != b.Follows {
			return "follows flag"
		}
	}
	if (a.Type == RC || a.Type == Payload) && a.Complete != b.Complete {
		return "complete flag"
	}
	if a.Type == Payload && a.Next != b.Next {
		return "next flag"
	}
	if (a.Type == RS || a.Type == RC || a.Type == ReqN) && a.N != b.N {
		return "demand"
	}
	if a.Type == Error && a.Code != b.Code {
		return "error code"
	}
	if a.Type != ReqN && a.Type != Cancel {
		if !bytes.Equal(a.MD, b.MD) {
			return "metadata"
		}
		if !bytes.Equal(a.Data, b.Data) {
			return "data"
		}
	}
	return ""
}

// Blob returns n random bytes.
func Blob(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.Uint64()
		for j := 0; j < 8; j++ {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	for ; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

var lens = []int{0, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 127, 128, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 70000}

// Len picks a length, mostly small and at boundaries.
func Len(r *rand.Rand, max int) int {
	var n int
	switch r.IntN(4) {
	case 0:
		n = r.IntN(40)
	case 1:
		n = r.IntN(600)
	default:
		n = lens[r.IntN(len(lens))]
	}
	if n > max {
		n = r.IntN(max + 1)
	}
	return n
}

func U32(r *rand.Rand) uint32 {
	switch r.IntN(5) {
	case 0:
		return uint32(r.IntN(4))
	case 1:
		return 0x7fffffff - uint32(r.IntN(2))
	case 2:
		return 0xffffffff - uint32(r.IntN(2))
	case 3:
		return 1 << r.IntN(32)
	}
	return r.Uint32()
}

// Gen makes a frame of the type within the limits of the wire format.
func Gen(r *rand.Rand, typ int) F {
	b := func() bool { return r.IntN(2) == 0 }
	f := F{Type: typ, Stream: U32(r) & 0x7fffffff}
	maxBody := 70000
	switch typ {
	case Setup:
		f.Stream = 0
		f.Major, f.Minor = uint16(U32(r)), uint16(U32(r)>>16)
		f.Keepalive, f.Lifetime = U32(r), U32(r)
		f.Token = Blob(r, Len(r, 65535))
		f.MimeM, f.MimeD = string(Blob(r, Len(r, 255))), string(Blob(r, Len(r, 255)))
		f.MD, f.Data = Blob(r, Len(r, maxBody)), Blob(r, Len(r, maxBody))
		f.Lease = b()
	case RR, FNF, RS, RC:
		f.Follows, f.Complete, f.N = b(), b(), U32(r)
		f.MD, f.Data = Blob(r, Len(r, maxBody)), Blob(r, Len(r, maxBody))
	case ReqN:
		f.N = U32(r)
	case Payload:
		f.Follows, f.Complete, f.Next = b(), b(), b()
		f.MD, f.Data = Blob(r, Len(r, maxBody)), Blob(r, Len(r, maxBody))
	case Error:
		f.Code = U32(r)
		f.Data = Blob(r, Len(r, maxBody))
	}
	return f
}

// DecodeReal decodes bytes with the code under test.
func DecodeReal(typ int, raw []byte) (frames.Frame, error) {
	h := frames.ParseFrameHeader(raw)
	fr := Empty(typ)
	return fr, fr.Decode(&h, raw[frames.FrameHeaderLen:])
}

// EncodeReal encodes a frame of the code under test into a buffer with guard
// bytes around the announced size and reports what was overwritten.
func EncodeReal(fr frames.Frame, fill byte) (raw []byte, overrun bool) {
	const g = 16
	n := int(fr.Size())
	buf := make([]byte, g+n+g)
	for i := range buf {
		buf[i] = fill
	}
	fr.Encode(buf[g : g+n])
	for i := 0; i < g; i++ {
		if buf[i] != fill || buf[g+n+i] != fill {
			overrun = true
		}
	}
	return buf[g : g+n : g+n], overrun
}
