//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// cut is a connection that is lost after a number of bytes.
type cut struct {
	net.Conn
	mu   sync.Mutex
	left int
}

func (c *cut) take(n int) (int, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if n < c.left {
		c.left -= n
		return n, true
	}
	n, c.left = c.left, 0
	return n, false
}

func (c *cut) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	k, ok := c.take(n)
	if !ok && err == nil {
		_ = c.Conn.Close()
		err = errors.New("connection reset")
	}
	return k, err
}

func (c *cut) Write(p []byte) (int, error) {
	k, ok := c.take(len(p))
	n, err := c.Conn.Write(p[:k])
	if !ok {
		_ = c.Conn.Close()
		return n, errors.New("connection reset")
	}
	return n, err
}

// halfDead is a connection that fails to write after a number of bytes, while
// it can still be read from.
type halfDead struct {
	net.Conn
	left   atomic.Int64
	failed atomic.Bool
}

func (c *halfDead) Write(p []byte) (int, error) {
	left := c.left.Add(-int64(len(p)))
	if left >= 0 {
		return c.Conn.Write(p)
	}
	c.failed.Store(true)
	if k := left + int64(len(p)); k > 0 {
		n, _ := c.Conn.Write(p[:k])
		return n, errors.New("broken pipe")
	}
	return 0, errors.New("broken pipe")
}

// unwritable makes requests over a connection that can no longer be written
// to. Requests made from then on fail, the others at the latest when the
// connection is closed.
func unwritable(t *kit.T, mem bool) {
	base, files := runtime.NumGoroutine(), fds()
	rig := rpckit.NewRig(t, mem, false)
	r := t.Rand
	var conn *halfDead
	rig.Wrap = func(c net.Conn) net.Conn {
		conn = &halfDead{Conn: c}
		conn.left.Store(int64(400 + r.IntN(1<<(4+r.IntN(14)))))
		return conn
	}
	p := rig.Connect()
	var tasks []*rpckit.Task
	for i := 0; i < 200 && !conn.failed.Load() && !t.Failed(); i++ {
		from, imported := p.Client, false
		if r.IntN(2) == 0 {
			from, imported = p.Server, true
		}
		switch r.IntN(5) {
		case 0, 1:
			tasks = append(tasks, rpckit.CallTask(t, r, from, imported))
		case 2, 3:
			tasks = append(tasks, rpckit.StreamTask(t, r, from, imported))
		case 4:
			tasks = append(tasks, rpckit.ChannelTask(t, r, from, imported))
		}
		if r.IntN(4) == 0 {
			runtime.Gosched()
		}
	}
	conn.left.Store(0)
	ok := rpckit.Later(t, r, p.Client, "client")
	_ = p.Transport.Close()
	if _, _, timely := kit.Recv(p.StartErr); !timely {
		t.Violate("transport of a lost connection does not end", "half dead\n%s", kit.Stacks())
		ok = false
	}
	for _, x := range tasks {
		if ok && !x.Check() {
			t.Violate("after the loss", "half dead: %s", x.What())
			ok = false
		}
	}
	ok = ok && p.Forgotten("half dead")
	for _, x := range tasks {
		x.Quit()
	}
	p.Close()
	rig.Close()
	if !ok || t.Failed() {
		return
	}
	if !kit.Wait(func() bool { return runtime.NumGoroutine() <= base && (mem || fds() <= files) }) {
		t.Violate("goroutines of lost connections stay", "half dead: %d, before %d\n%s", runtime.NumGoroutine(), base, kit.Stacks())
	}
	key := "half dead "
	for _, x := range tasks {
		key += x.What()
	}
	t.Case(key)
	kit.Count("requests made over connections that fail to write", int64(len(tasks)))
}

// moody is a listener that fails now and then, and that has its own error for
// being closed.
type moody struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
	mu    sync.Mutex
	r     *rand.Rand
	fails int
	err   error // after it was closed
}

func (l *moody) Accept() (net.Conn, error) {
	l.mu.Lock()
	fail := l.r.IntN(3) == 0
	if fail {
		l.fails++
	}
	l.mu.Unlock()
	select {
	case <-l.done:
		time.Sleep(50 * time.Microsecond)
		return nil, l.err
	default:
	}
	if fail {
		return nil, errors.New("accept: too many open files")
	}
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, l.err
	}
}

func (l *moody) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *moody) Addr() net.Addr { return &net.IPAddr{} }

// listeners serves from listeners other than those of package net.
func listeners(t *kit.T) {
	base := runtime.NumGoroutine()
	r := t.Rand
	l := &moody{conns: make(chan net.Conn), done: make(chan struct{}), r: rand.New(rand.NewPCG(r.Uint64(), 9))}
	l.err = []error{errors.New("listener is closed"), net.ErrClosed, fmt.Errorf("custom: %w", net.ErrClosed), context.Canceled, io.EOF}[r.IntN(5)]
	refuse := r.IntN(8) == 0
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		if refuse {
			return nil, errors.New("address in use")
		}
		return l, nil
	}, func(ctx context.Context) (rsocket.DuplexHandler, error) {
		return handler.New(ctx, handler.ServerMode), nil
	})
	accepted := make(chan bool, 64)
	srv.Accept(func(context.Context, invoke.Caller, func(*rsocket.Transport)) { accepted <- true })
	up, stopped := make(chan bool, 4), make(chan error, 1)
	go func() { stopped <- srv.Listen(ctx, up) }()
	is, _, timely := kit.Recv(up)
	if !timely || is == refuse {
		t.Violate("server does not tell whether it listens", "timely %v, listens %v, listener fails %v", timely, is, refuse)
		return
	}
	if refuse {
		if err, _, timely := kit.Recv(stopped); !timely || err == nil {
			t.Violate("server without a listener does not fail", "timely %v, %v", timely, err)
		}
		t.Case("refused")
		return
	}
	var ends []chan error
	var clients []*handler.Handler
	for k := r.IntN(6); k > 0 && !t.Failed(); k-- {
		a, b := rpckit.MemPair(r)
		select {
		case l.conns <- b:
		case <-time.After(kit.Patience):
			t.Violate("server stops accepting connections", "after %d failures of its listener", l.fails)
			return
		}
		h, _, done := rpckit.NewClient(ctx, a)
		if _, _, timely := kit.Recv(accepted); !timely {
			t.Violate("connection is not accepted", "%s", kit.Stacks())
			return
		}
		clients, ends = append(clients, h), append(ends, done)
		c := rpckit.NewCall(r, rpckit.RR, 8, 0)
		c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
			return mono.Just[payload.Payload](payload.New([]byte("fine")))
		}
		got := make(chan error, 4)
		h.RequestResponse(ctx, c.Request(c.Index(h, false))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) { got <- nil }, OnError: func(err error) { got <- err },
		})
		if err, _, timely := kit.Recv(got); !timely || err != nil {
			t.Violate("request fails", "timely %v, %v", timely, err)
		}
	}
	byCtx := r.IntN(2) == 0
	if byCtx {
		cancel()
	} else if err := srv.Close(); err != nil {
		t.Violate("closing a server fails", "%v", err)
	}
	if _, _, timely := kit.Recv(stopped); !timely {
		t.Violate("server does not stop", "its listener fails with %v, by its context %v\n%s", l.err, byCtx, kit.Stacks())
		return
	}
	for i, done := range ends {
		if _, _, timely := kit.Recv(done); !timely {
			t.Violate("connection of a closed server stays open", "%s", kit.Stacks())
			return
		}
		if !rpckit.Later(t, r, clients[i], "client") {
			return
		}
	}
	if !kit.Wait(func() bool { return runtime.NumGoroutine() <= base }) {
		t.Violate("goroutines of a stopped server stay", "%d, before %d\n%s", runtime.NumGoroutine(), base, kit.Stacks())
	}
	kit.Count("failures of listeners", int64(l.fails))
	t.Case(fmt.Sprint(len(ends), byCtx, l.err, l.fails))
}

var ways = []string{"transport closed", "context of the client cancelled", "client's socket closed", "server closed", "context of the server cancelled", "cut in the middle", "server's socket closed"}

// The first socket makes the runtime open what it needs for all of them.
var warm = sync.OnceFunc(func() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	if c, err := net.Dial("tcp", l.Addr().String()); err == nil {
		c.Close()
	}
	l.Close()
	time.Sleep(10 * time.Millisecond)
})

func fds() int {
	warm()
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}

func dropping(t *kit.T, mem bool) {
	base, files := runtime.NumGoroutine(), fds()
	rig := rpckit.NewRig(t, mem, false)
	r := t.Rand
	way := r.IntN(len(ways))
	sockets := make(chan net.Conn, 16)
	rig.Took(func(c net.Conn) { sockets <- c })
	if way == 5 {
		rig.Wrap = func(c net.Conn) net.Conn {
			return &cut{Conn: c, left: 400 + r.IntN(1<<(4+r.IntN(16)))}
		}
	}
	var pairs []*rpckit.Pair
	var socks []net.Conn
	for k := 1 + r.IntN(3); k > 0; k-- {
		p := rig.Connect()
		pairs = append(pairs, p)
		s, _, _ := kit.Recv(sockets)
		socks = append(socks, s)
	}
	var mu sync.Mutex
	var tasks []*rpckit.Task
	quiet := r.IntN(3) == 0 // no request while the connection is lost
	var wg sync.WaitGroup
	stop := make(chan bool)
	for _, p := range pairs {
		for g := 0; g < 2; g++ {
			rr := rand.New(rand.NewPCG(r.Uint64(), 5))
			from, imported := p.Client, false
			if g == 1 {
				from, imported = p.Server, true
			}
			n := r.IntN(8)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					if !quiet {
						select {
						case <-stop:
							n = min(n, i+2)
						default:
						}
					}
					var x *rpckit.Task
					switch rr.IntN(5) {
					case 0, 1:
						x = rpckit.CallTask(t, rr, from, imported)
					case 2, 3:
						x = rpckit.StreamTask(t, rr, from, imported)
					case 4:
						x = rpckit.ChannelTask(t, rr, from, imported)
					}
					mu.Lock()
					tasks = append(tasks, x)
					mu.Unlock()
				}
			}()
		}
	}
	if quiet {
		wg.Wait()
		if way != 5 && r.IntN(2) == 0 {
			for _, x := range tasks {
				if !kit.Wait(x.Begun) {
					t.Violate("request does not reach its handler", "%s", x.What())
				}
			}
		}
	}
	if d := r.IntN(3); d > 0 {
		time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
	}
	all := way == 3 || way == 4 || r.IntN(2) == 0
	lost := pairs[:1]
	if all {
		lost = pairs
	}
	for i, p := range lost {
		switch way {
		case 0:
			_ = p.Transport.Close()
		case 1:
			p.CancelCtx()
		case 2, 5:
			_ = p.Conn.Close()
		case 3:
			if err := rig.Server.Close(); err != nil && i == 0 {
				t.Violate("closing a server fails", "%v", err)
			}
		case 4:
			rig.Cancel()
		case 6:
			_ = socks[i].Close()
		}
		if r.IntN(2) == 0 { // the others a little later
			runtime.Gosched()
		}
	}
	close(stop)
	wg.Wait()
	ok := true
	if !all && way != 5 {
		// The other connections are not affected.
		for _, p := range pairs[1:] {
			c := rpckit.NewCall(r, rpckit.RR, 8, 0)
			c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
				return mono.Just[payload.Payload](payload.New([]byte("fine")))
			}
			got := make(chan error, 4)
			p.Client.RequestResponse(context.Background(), c.Request(c.Index(p.Client, false))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { got <- nil }, OnError: func(err error) { got <- err },
			})
			if err, _, timely := kit.Recv(got); !timely || err != nil {
				t.Violate("another connection is affected", "%s: %v %v", ways[way], timely, err)
				ok = false
			}
		}
	}
	for i, p := range pairs {
		if !all && i > 0 {
			p.Close()
		}
	}
	for _, p := range pairs {
		if _, _, timely := kit.Recv(p.StartErr); !timely {
			t.Violate("transport of a lost connection does not end", "%s\n%s", ways[way], kit.Stacks())
			ok = false
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for _, x := range tasks {
		if ok && !x.Check() {
			t.Violate("after the loss", "%s: %s", ways[way], x.What())
			ok = false
		}
	}
	for _, p := range pairs {
		ok = ok && rpckit.Later(t, r, p.Client, "client")
		// The server may notice a little later.
		if ok && kit.Wait(func() bool { return rpckit.Streams(p.Server) <= 0 }) {
			probe := func() bool {
				var failed atomic.Bool
				p.Server.RequestResponse(context.Background(), payload.New([]byte("gone?"), make([]byte, 8))).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(payload.Payload) {}, OnError: func(error) { failed.Store(true) },
				})
				return failed.Load()
			}
			if !kit.Wait(probe) {
				t.Violate("request on a lost connection does not fail", "by the server, %s", ways[way])
				ok = false
			}
			ok = ok && rpckit.Later(t, r, p.Server, "server")
		}
		ok = ok && p.Forgotten(ways[way])
		if !ok {
			break
		}
	}
	if way == 3 || way == 4 {
		if err, _, timely := kit.Recv(rig.Stopped); !timely || (err != nil && way == 3) {
			t.Violate("server does not stop", "%s: timely %v, %v\n%s", ways[way], timely, err, kit.Stacks())
			ok = false
		} else if c, err := rig.Dial(); err == nil {
			c.Close()
			t.Violate("stopped server accepts connections", "%s", ways[way])
		}
		rig.Stopped <- nil
	}
	for _, x := range tasks {
		x.Quit()
	}
	for _, p := range pairs {
		p.Close()
		p.Close()
	}
	rig.Close()
	_ = rig.Server.Close()
	if !ok || t.Failed() {
		return
	}
	if !kit.Wait(func() bool { return runtime.NumGoroutine() <= base }) {
		t.Violate("goroutines of lost connections stay", "%s: %d, before %d\n%s", ways[way], runtime.NumGoroutine(), base, kit.Stacks())
	}
	if !mem && !kit.Wait(func() bool { return fds() <= files }) {
		t.Violate("file descriptors of lost connections stay", "%s: %d, before %d", ways[way], fds(), files)
	}
	key := fmt.Sprint(way, len(pairs), quiet, all)
	for _, x := range tasks {
		key += x.What()
	}
	t.Case(key)
	kit.Count("connections lost: "+ways[way], int64(len(lost)))
	kit.Count("requests pending at a loss", int64(len(tasks)))
}

// opening closes a server while connections are being opened.
func opening(t *kit.T, mem bool) {
	base, files := runtime.NumGoroutine(), fds()
	rig := rpckit.NewRig(t, mem, false)
	r := t.Rand
	var wg sync.WaitGroup
	var opened, refused atomic.Int32
	for g := 0; g < 4; g++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 6))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60 && !t.Failed(); i++ {
				conn, err := rig.Dial()
				if err != nil {
					refused.Add(1)
					return
				}
				opened.Add(1)
				switch rr.IntN(4) {
				case 0: // says nothing
					buf := make([]byte, 100)
					end := make(chan bool)
					go func() {
						for {
							if _, err := conn.Read(buf); err != nil {
								break
							}
						}
						close(end)
					}()
					if rr.IntN(2) == 0 {
						_ = conn.Close()
					} else if refused.Load() > 0 {
						if _, _, timely := kit.Recv(end); !timely {
							t.Violate("connection of a closed server stays open", "%s", kit.Stacks())
						}
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						if _, _, timely := kit.Recv(end); !timely {
							t.Violate("connection of a closed server stays open", "%s", kit.Stacks())
						}
						_ = conn.Close()
					}()
				default:
					ctx, cancel := context.WithCancel(context.Background())
					h, tr, done := rpckit.NewClient(ctx, conn)
					x := rpckit.CallTask(t, rr, h, false)
					wg.Add(1)
					hold := rr.IntN(2) == 0
					go func() {
						defer wg.Done()
						defer cancel()
						if !hold {
							_ = tr.Close()
						}
						if _, _, timely := kit.Recv(done); !timely {
							t.Violate("connection of a closed server stays open", "%s", kit.Stacks())
						}
						x.Check()
						x.Quit()
					}()
				}
			}
		}()
	}
	want := int32(r.IntN(40))
	kit.WaitFor(time.Second, func() bool { return opened.Load() >= want })
	if r.IntN(2) == 0 {
		rig.Cancel()
	} else {
		for k := 0; k < 1+r.IntN(3); k++ {
			wg.Add(1)
			go func() { defer wg.Done(); _ = rig.Server.Close() }()
		}
	}
	wg.Wait()
	rig.Close()
	if t.Failed() {
		return
	}
	if c, err := rig.Dial(); err == nil {
		c.Close()
		t.Violate("stopped server accepts connections", "")
	}
	if !kit.Wait(func() bool { return runtime.NumGoroutine() <= base }) {
		t.Violate("goroutines of lost connections stay", "%d, before %d\n%s", runtime.NumGoroutine(), base, kit.Stacks())
	}
	if !mem && !kit.Wait(func() bool { return fds() <= files }) {
		t.Violate("file descriptors of lost connections stay", "%d, before %d", fds(), files)
	}
	t.Case(fmt.Sprint(opened.Load(), refused.Load(), want))
	kit.Count("connections opened while the server closes", int64(opened.Load()))
}

// visit opens a connection, makes requests and loses it.
func visit(t *kit.T, r *rand.Rand, rig *rpckit.Rig) {
	p := rig.Connect()
	way := r.IntN(3)
	var calls []*rpckit.Call
	var ends []chan bool
	for k := r.IntN(6); k > 0; k-- {
		from, imported := p.Client, false
		if r.IntN(2) == 0 {
			from, imported = p.Server, true
		}
		kind := []int{rpckit.RR, rpckit.RS, rpckit.FNF}[r.IntN(3)]
		hang := r.IntN(2) == 0
		c := rpckit.NewCall(r, kind, r.IntN(100), 0)
		calls = append(calls, c)
		end := make(chan bool)
		c.OnRR = func(context.Context) mono.Mono[payload.Payload] {
			if hang {
				return mono.Create(func(mono.Sink[payload.Payload]) {})
			}
			return mono.Just[payload.Payload](payload.New(nil))
		}
		c.OnRS = func(context.Context) flux.Flux[payload.Payload] {
			return flux.Create(func(s flux.Sink[payload.Payload]) {
				s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
				s.Next(payload.New(nil))
				if !hang {
					s.Complete()
				}
			})
		}
		switch kind {
		case rpckit.FNF:
			from.FireAndForget(context.Background(), c.Request(c.Index(from, imported)))
			close(end)
		case rpckit.RR:
			from.RequestResponse(context.Background(), c.Request(c.Index(from, imported))).Subscribe(mono.Subscribe[payload.Payload]{Finally: func(rx.SignalType) { close(end) }})
		case rpckit.RS:
			from.RequestStream(context.Background(), c.Request(c.Index(from, imported))).Subscribe(flux.Subscribe[payload.Payload]{Finally: func(rx.SignalType) { close(end) }})
		}
		ends = append(ends, end)
	}
	for _, c := range calls {
		if !kit.Wait(func() bool { return c.Runs.Load() == 1 }) {
			t.Violate("request does not reach its handler", "kind %d", c.Kind)
			return
		}
		c.Forget()
	}
	switch way {
	case 0:
		_ = p.Transport.Close()
	case 1:
		p.CancelCtx()
	case 2:
		_ = p.Conn.Close()
	}
	for i, e := range ends {
		if _, _, timely := kit.Recv(e); !timely {
			t.Violate("pending request does not end", "kind %d, way %d\n%s", calls[i].Kind, way, kit.Stacks())
			return
		}
	}
	p.Close()
}

// visitors come and go while the server stays. Nothing of them may stay.
func visitors(t *kit.T, mem bool) {
	rig := rpckit.NewRig(t, mem, false)
	rig.Probe.Store(true)
	n := 5 + t.Rand.IntN(20)
	for i := 0; i < n && !t.Failed(); i++ {
		if t.Rand.IntN(8) == 0 { // one that never says anything
			if c, err := rig.Dial(); err == nil {
				time.Sleep(time.Millisecond)
				_ = c.Close()
				continue
			}
		}
		visit(t, t.Rand, rig)
	}
	if t.Failed() {
		return
	}
	for k := len(rig.Accepted); k > 0; k-- {
		<-rig.Accepted
	}
	if !kit.Wait(func() bool { runtime.GC(); return rig.Held.Load() == 0 }) {
		t.Violate("lost connections stay in memory", "%d of %d", rig.Held.Load(), n)
	}
	kit.Count("connections seen released", int64(n))
	t.Case(fmt.Sprint(n, t.Rand.Uint64()))
	rig.Close()
}

// entry uses the functions that programs start with.
func entry(t *kit.T) {
	r := t.Rand
	var l net.Listener
	var err error
	for k := 0; k < 10; k++ {
		if l, err = net.Listen("tcp", "127.0.0.1:0"); err == nil {
			break
		}
	}
	if err != nil {
		t.Inconclusive("no port: %v", err)
		return
	}
	addr := l.Addr().String()
	l.Close()
	os.Setenv("RSOCKET_ADDRESS", addr)
	os.Setenv("RSOCKET_NETWORK", "tcp")
	defer os.Unsetenv("RSOCKET_ADDRESS")
	defer os.Unsetenv("RSOCKET_NETWORK")
	base, files := runtime.NumGoroutine(), fds()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if err := rsocket.Connect(rsocket.Handler(ctx)); err == nil {
		t.Violate("connecting to nobody succeeds", "")
		return
	}
	callers := make(chan invoke.Caller, 4)
	srv := rsocket.NewServer(func(_ context.Context, c invoke.Caller, _ func(*rsocket.Transport)) { callers <- c })
	stopped, up := make(chan error, 1), make(chan bool, 1)
	go func() { stopped <- srv.Listen(ctx, up) }()
	if ok, _, timely := kit.Recv(up); !timely || !ok {
		t.Inconclusive("port is taken")
		return
	}
	h := rsocket.Handler(ctx)
	ended := make(chan error, 1)
	go func() { ended <- rsocket.Connect(h) }()
	c, _, timely := kit.Recv(callers)
	if !timely {
		t.Violate("connection is not accepted", "%s", kit.Stacks())
		return
	}
	var tasks []*rpckit.Task
	for k := 0; k < 4; k++ {
		x := rpckit.StreamTask(t, r, h, false)
		tasks = append(tasks, x)
		if !kit.Wait(x.Begun) {
			t.Violate("request does not reach its handler", "%s", x.What())
			return
		}
		if s, ok := c.(*handler.Handler); ok {
			tasks = append(tasks, rpckit.CallTask(t, r, s, true))
		}
	}
	if r.IntN(2) == 0 {
		cancel()
	} else {
		_ = srv.Close()
	}
	for _, ch := range []chan error{stopped, ended} {
		if _, _, timely := kit.Recv(ch); !timely {
			t.Violate("closed server or its client does not end", "%s", kit.Stacks())
			return
		}
	}
	for _, x := range tasks {
		if !x.Check() {
			return
		}
		x.Quit()
	}
	if !rpckit.Later(t, r, h, "client") {
		return
	}
	cancel()
	if !kit.Wait(func() bool { return runtime.NumGoroutine() <= base && fds() <= files }) {
		t.Violate("goroutines or descriptors stay", "%d, before %d; %d, before %d\n%s", runtime.NumGoroutine(), base, fds(), files, kit.Stacks())
	}
	t.Case(fmt.Sprint(r.Uint64()))
	kit.Count("servers and clients started by their entry points", 1)
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P16",
		Rule:     "Connections with pending requests of all kinds in both directions are lost in seven ways (either end closed, contexts cancelled, server closed, cut after any number of bytes) at random moments, also while requests are being made; and servers are closed while connections are being opened. Every pending request has to end once, producers and inputs have to stop, later requests have to fail, and goroutines, descriptors and registered streams have to go back to what they were. Distinct by way and what was observed.",
		Assumptions: []string{
			"A handler of a request/response call that is under way is not told of the loss.",
		},
		Scenarios: []kit.Scenario{
			{Name: "losing connections in memory", Yields: []int{0, 1, 2}, Run: scn(120, 2500, func(t *kit.T) { dropping(t, true) })},
			{Name: "losing connections over TCP", Yields: []int{0, 2}, Run: scn(100, 2500, func(t *kit.T) { dropping(t, false) })},
			{Name: "losing connections over TLS", Run: scn(50, 800, func(t *kit.T) { rpckit.WithTLS(func() { dropping(t, false) }) })},
			{Name: "closing while opening in memory", Yields: []int{0, 2}, Run: scn(40, 600, func(t *kit.T) { opening(t, true) })},
			{Name: "closing while opening over TCP", Yields: []int{0, 2}, Run: scn(40, 600, func(t *kit.T) { opening(t, false) })},
			{Name: "closing while opening over TLS", Run: scn(15, 200, func(t *kit.T) { rpckit.WithTLS(func() { opening(t, false) }) })},
			{Name: "visitors in memory", Run: scn(8, 100, func(t *kit.T) { visitors(t, true) })},
			{Name: "visitors over TCP", Run: scn(8, 100, func(t *kit.T) { visitors(t, false) })},
			{Name: "failing writes in memory", Yields: []int{0, 2}, Run: scn(60, 800, func(t *kit.T) { unwritable(t, true) })},
			{Name: "failing writes over TCP", Run: scn(40, 500, func(t *kit.T) { unwritable(t, false) })},
			{Name: "listeners", Run: scn(40, 500, listeners)},
			{Name: "entry points", Run: scn(20, 200, entry)},
		},
	})
}
