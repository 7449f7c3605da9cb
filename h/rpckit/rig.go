//go:build go1.22

package rpckit

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifh/kit"
)

// Rig is a listening server.
type Rig struct {
	T        *kit.T
	Mem      bool
	Tapped   bool
	Server   rsocket.ServerTransport
	Ctx      context.Context
	Cancel   context.CancelFunc
	Stopped  chan error // receives the result of Listen
	Accepted chan *handler.Handler
	Listener net.Listener
	Wrap     func(net.Conn) net.Conn // around the clients' ends
	took     atomic.Pointer[func(net.Conn)]
	Probe    atomic.Bool  // watch whether accepted connections are released
	Held     atomic.Int64 // of those

	Generations atomic.Int64 // acceptors set
	Latest      atomic.Int64 // the latest that was called

	mu   sync.Mutex
	r    *rand.Rand
	taps chan *Tap
}

// probed tells, by its finalizer, that nobody holds the connection any more.
type probed struct {
	net.Conn
	_ [8]byte
}

type tapListener struct {
	net.Listener
	r *Rig
}

func (l *tapListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if f := l.r.took.Load(); err == nil && f != nil {
		(*f)(c)
	}
	if err == nil && l.r.Probe.Load() {
		p, held := &probed{Conn: c}, &l.r.Held
		held.Add(1)
		runtime.SetFinalizer(p, func(*probed) { held.Add(-1) })
		return p, nil
	}
	if err != nil || !l.r.Tapped {
		return c, err
	}
	t := &Tap{Conn: c, keep: true}
	select {
	case l.r.taps <- t:
	default:
	}
	return t, nil
}

// NewRig starts a server.
func NewRig(t *kit.T, mem, tapped bool) *Rig {
	r := &Rig{T: t, Mem: mem, Tapped: tapped, Stopped: make(chan error, 1), Accepted: make(chan *handler.Handler, 1024), taps: make(chan *Tap, 1024)}
	r.r = rand.New(rand.NewPCG(t.Rand.Uint64(), 3))
	r.Ctx, r.Cancel = context.WithCancel(context.Background())
	lf := func(ctx context.Context) (net.Listener, error) {
		if mem {
			r.Listener = &memListener{conns: make(chan net.Conn), done: make(chan struct{})}
		} else {
			var config *tls.Config
			if TLS.Load() {
				config = certificate().server
			}
			l, err := rsocket.NewTCPListenerFactory("tcp", "127.0.0.1:0", config)(ctx)
			if err != nil {
				return nil, err
			}
			r.Listener = l
		}
		return &tapListener{r.Listener, r}, nil
	}
	r.Server = rsocket.NewTCPServerTransport(lf, func(ctx context.Context) (rsocket.DuplexHandler, error) {
		return handler.New(ctx, handler.ServerMode), nil
	})
	r.Accept()
	up := make(chan bool, 1)
	go func() { r.Stopped <- r.Server.Listen(r.Ctx, up) }()
	ok, _, timely := kit.Recv(up)
	if !timely || !ok {
		t.Fatal("server does not listen", "")
	}
	return r
}

// Accept sets what is called for a connection, again and again if need be. The
// n-th call of it has connections counted in generation n.
func (r *Rig) Accept() (generation int64) {
	generation = r.Generations.Add(1)
	r.Server.Accept(func(ctx context.Context, c invoke.Caller, onClose func(*rsocket.Transport)) {
		for {
			old := r.Latest.Load()
			if old >= generation || r.Latest.CompareAndSwap(old, generation) {
				break
			}
		}
		h, _ := c.(*handler.Handler)
		select {
		case r.Accepted <- h:
		default:
		}
	})
	return generation
}

// Took sets what is called for each socket that is accepted from now on.
func (r *Rig) Took(f func(net.Conn)) { r.took.Store(&f) }

// Dial opens a raw connection.
func (r *Rig) Dial() (net.Conn, error) {
	if !r.Mem {
		var config *tls.Config
		if TLS.Load() {
			config = certificate().client
		}
		return rsocket.NewConnWithAddr(context.Background(), "tcp", r.Listener.Addr().String(), config)
	}
	r.mu.Lock()
	a, b := MemPair(r.r)
	r.mu.Unlock()
	l := r.Listener.(*memListener)
	select {
	case l.conns <- b:
		return a, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// Pair is a client and the server's side of its connection.
type Pair struct {
	Rig        *Rig
	Client     *handler.Handler
	Server     *handler.Handler
	Transport  *rsocket.Transport
	Conn       net.Conn
	ClientTap  *Tap
	ServerTap  *Tap
	Ctx        context.Context
	CancelCtx  context.CancelFunc
	StartErr   chan error
	closedOnce sync.Once
}

// NewClient runs a client on a connection.
func NewClient(ctx context.Context, conn net.Conn) (*handler.Handler, *rsocket.Transport, chan error) {
	h := rsocket.Handler(ctx)
	tr := rsocket.NewTCPClientTransport(conn, h)
	h.SetFrameSender(func(f frames.Frame) error { return tr.Send(f, true) })
	done := make(chan error, 1)
	_ = tr.Send(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}, true)
	go func() { done <- tr.Start(ctx) }()
	return h, tr, done
}

// Connect opens a connection with a client. Connections are opened one at a
// time, so that the ends are known to belong together.
func (r *Rig) Connect() *Pair {
	conn, err := r.Dial()
	if err != nil {
		r.T.Fatal("connection refused", "%v", err)
	}
	if r.Wrap != nil {
		conn = r.Wrap(conn)
	}
	p := &Pair{Rig: r, Conn: conn}
	p.Ctx, p.CancelCtx = context.WithCancel(context.Background())
	if r.Tapped {
		p.ClientTap = &Tap{Conn: conn, keep: true}
		conn = p.ClientTap
	}
	p.Client, p.Transport, p.StartErr = NewClient(p.Ctx, conn)
	h, _, timely := kit.Recv(r.Accepted)
	if !timely || h == nil {
		r.T.Fatal("connection is not accepted", "%s", kit.Stacks())
	}
	p.Server = h
	if r.Tapped {
		p.ServerTap, _, _ = kit.Recv(r.taps)
	}
	return p
}

// Close closes the client's end.
func (p *Pair) Close() {
	_ = p.Transport.Close()
	p.CancelCtx()
}

// Close stops the server and waits for it.
func (r *Rig) Close() {
	_ = r.Server.Close()
	if _, _, timely := kit.Recv(r.Stopped); !timely {
		r.T.Violate("server does not stop", "%s", kit.Stacks())
	}
	r.Cancel()
}

// Streams counts the streams a handler remembers. It returns -1 if it does
// not keep them in registries.
func Streams(h *handler.Handler) int {
	v := reflect.ValueOf(h).Elem()
	n, found := 0, false
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		var l *proxy.Lookup
		switch f.Type() {
		case reflect.TypeOf(proxy.Lookup{}):
			l = (*proxy.Lookup)(unsafe.Pointer(f.UnsafeAddr()))
		case reflect.TypeOf(&proxy.Lookup{}):
			l = *(**proxy.Lookup)(unsafe.Pointer(f.UnsafeAddr()))
		}
		if l != nil {
			n += l.Size()
			found = true
		}
	}
	if !found {
		return -1
	}
	return n
}

// Forgotten waits until neither end remembers a stream.
func (p *Pair) Forgotten(what string) bool {
	if Streams(p.Client) < 0 || Streams(p.Server) < 0 {
		return true
	}
	if !kit.Wait(func() bool { return Streams(p.Client) == 0 && Streams(p.Server) == 0 }) {
		p.Rig.T.Violate("streams are not forgotten", "%s: caller %d, handler %d", what, Streams(p.Client), Streams(p.Server))
		return false
	}
	kit.Count("times all streams were seen forgotten", 1)
	return true
}

// Kinds of calls.
const (
	RR = iota
	FNF
	RS
	RC
)

// Ops is the number of operations of each kind.
const Ops = 4

// Call is one call and what its handler is to do.
type Call struct {
	ID    uint64
	Kind  int
	Op    int
	Data  []byte // as sent, starts with the ID unless it is too short for it
	Extra []byte // metadata behind the routing prefix, ends with the ID then
	Runs  atomic.Int32

	OnRR  func(context.Context) mono.Mono[payload.Payload]
	OnFNF func(context.Context)
	OnRS  func(context.Context) flux.Flux[payload.Payload]
	OnRC  func(context.Context, flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

var (
	calls  sync.Map
	nextID atomic.Uint64
	report atomic.Pointer[kit.T]
	setup  sync.Once
)

// Use registers the operations and names the scenario that hears about
// misrouted calls.
func Use(t *kit.T) {
	report.Store(t)
	setup.Do(func() {
		for k := 0; k < Ops; k++ {
			name := fmt.Sprint("op", k)
			invoke.ExportRequestResponse("verif", name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				c := arrive(RR, k, p)
				if c == nil || c.OnRR == nil {
					return mono.Error[payload.Payload](fmt.Errorf("verif: no such call"))
				}
				return c.OnRR(ctx)
			})
			invoke.ExportFireAndForget("verif", name, func(ctx context.Context, p payload.Payload) {
				if c := arrive(FNF, k, p); c != nil && c.OnFNF != nil {
					c.OnFNF(ctx)
				}
			})
			invoke.ExportRequestStream("verif", name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				c := arrive(RS, k, p)
				if c == nil || c.OnRS == nil {
					return flux.Error[payload.Payload](fmt.Errorf("verif: no such call"))
				}
				return c.OnRS(ctx)
			})
			invoke.ExportRequestChannel("verif", name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				c := arrive(RC, k, p)
				if c == nil || c.OnRC == nil {
					return flux.Error[payload.Payload](fmt.Errorf("verif: no such call"))
				}
				return c.OnRC(ctx, in)
			})
		}
	})
}

// Hostile tells that payloads without a call are expected.
var Hostile atomic.Bool

func arrive(kind, op int, p payload.Payload) *Call {
	t := report.Load()
	d := p.Data()
	x, ok := calls.Load(CallID(d, p.Metadata()))
	if !ok {
		if !Hostile.Load() {
			t.Violate("request payload", "kind %d op %d: unknown call: data %.20x, metadata %.40x", kind, op, d, p.Metadata())
		}
		return nil
	}
	c := x.(*Call)
	if c.Runs.Add(1) != 1 {
		t.Violate("handler ran twice", "call %d of kind %d", c.ID, c.Kind)
	}
	if c.Kind != kind || c.Op != op {
		t.Violate("call reached the wrong handler", "kind %d op %d, sent to kind %d op %d", kind, op, c.Kind, c.Op)
		return nil
	}
	if !bytes.Equal(d, c.Data) || !bytes.HasSuffix(p.Metadata(), c.Extra) ||
		(len(p.Metadata()) != len(c.Extra) && len(p.Metadata()) != len(c.Extra)+8) {
		t.Violate("request payload", "kind %d: data of %d bytes, metadata of %d; sent %d and %d\n%s\n%s", kind, len(d), len(p.Metadata()), len(c.Data), len(c.Extra)+8,
			Diff(d, c.Data), Diff(p.Metadata(), c.Extra))
	}
	return c
}

// Diff describes where two byte strings differ.
func Diff(a, b []byte) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("differ at %d: %x / %x", i, a[i:min(len(a), i+8)], b[i:min(len(b), i+8)])
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

// mask keeps metadata from looking like the ID of a call by chance.
const mask = 0x5eedc0ffee15900d

// CallID is the ID of the call that a request belongs to.
func CallID(data, metadata []byte) uint64 {
	if len(data) >= 8 {
		return binary.BigEndian.Uint64(data)
	}
	if n := len(metadata); n >= 8 {
		return binary.BigEndian.Uint64(metadata[n-8:]) ^ mask
	}
	return 0
}

// NewCall registers a call of about n bytes of data and m of extra metadata.
// Now and then it has hardly any data, or none.
func NewCall(r *rand.Rand, kind, n, m int) *Call {
	c := &Call{ID: nextID.Add(1), Kind: kind, Op: r.IntN(Ops)}
	if n < 6 && r.IntN(2) == 0 {
		c.Data = make([]byte, []int{0, 0, 1, 2, 3, 4, 5, 6, 7}[r.IntN(9)])
		for i := range c.Data {
			c.Data[i] = byte(r.Uint32())
		}
		c.Extra = make([]byte, m+8)
		for i := range c.Extra {
			c.Extra[i] = byte(r.Uint32())
		}
		binary.BigEndian.PutUint64(c.Extra[m:], c.ID^mask)
		calls.Store(c.ID, c)
		kit.Count("requests with hardly any data", 1)
		return c
	}
	c.Data = make([]byte, 8+n)
	for i := range c.Data {
		c.Data[i] = byte(r.Uint32())
	}
	binary.BigEndian.PutUint64(c.Data, c.ID)
	c.Extra = make([]byte, m)
	for i := range c.Extra {
		c.Extra[i] = byte(r.Uint32())
	}
	calls.Store(c.ID, c)
	return c
}

// Forget drops a call that is over.
func (c *Call) Forget() { calls.Delete(c.ID) }

// Index is the index under which an end of the connection reaches the
// operation.
func (c *Call) Index(from *handler.Handler, imported bool) uint32 {
	name := fmt.Sprint("op", c.Op)
	if imported {
		switch c.Kind {
		case RR:
			return from.ImportRequestResponse("verif", name)
		case FNF:
			return from.ImportFireAndForget("verif", name)
		case RS:
			return from.ImportRequestStream("verif", name)
		case RC:
			return from.ImportRequestChannel("verif", name)
		}
	}
	return uint32(c.Op)
}

// Request is the payload to call with.
func (c *Call) Request(index uint32) payload.Payload {
	md := binary.BigEndian.AppendUint32(nil, index)
	md = binary.BigEndian.AppendUint32(md, 0)
	return payload.New(c.Data, append(md, c.Extra...))
}

// Same compares payloads.
func Same(a, b payload.Payload) bool {
	if a == nil || b == nil {
		return a == b
	}
	return bytes.Equal(a.Data(), b.Data()) && bytes.Equal(a.Metadata(), b.Metadata())
}

// Blob is a payload that is known by a seed.
func Blob(seed uint64, n, m int) payload.Payload {
	fill := func(k int, s uint64) []byte {
		if k < 0 {
			return nil
		}
		b := make([]byte, k)
		x := s*0x9E3779B97F4A7C15 + 1
		for i := range b {
			if i&7 == 0 {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
			}
			b[i] = byte(x >> (8 * (i & 7)))
		}
		return b
	}
	return payload.New(fill(n, seed), fill(m, seed+77))
}

// Show abbreviates a payload.
func Show(p payload.Payload) string {
	if p == nil {
		return "none"
	}
	s := func(b []byte) string {
		if len(b) > 10 {
			return fmt.Sprintf("%x..(%d)", b[:10], len(b))
		}
		return fmt.Sprintf("%x", b)
	}
	return s(p.Data()) + "/" + s(p.Metadata())
}
