//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/wasmkit"
)

// storm has many calls waiting when the guest traps; each failure makes the
// next call at once, from its callback.
func storm(t *kit.T) {
	r := t.Rand
	n := 50 + r.IntN(400)
	traps := 1 + r.IntN(3)
	deep := 1 + r.IntN(3) // answered calls that make another
	var hold atomic.Bool
	hold.Store(true)
	var trap atomic.Bool
	var x *rig
	x = newRig(t, func(g *guest) {
		g.noCheck.Store(true)
		g.onSend = func(ctx context.Context, n uint32) error {
			if trap.CompareAndSwap(true, false) {
				kit.Count("traps", 1)
				return errors.New("trap: unreachable")
			}
			buf, _ := g.sh.Memory().Read(g.in, n)
			f, err := parse(buf[3:])
			if err != nil {
				g.violate("malformed frame of the host", "%v", err)
				return nil
			}
			if hold.Load() || f.typ != tRR {
				return nil
			}
			g.send(frame{stream: f.stream, typ: tPayload, flags: fNext | fComplete, data: append([]byte(nil), f.data...)})
			return nil
		}
	})
	var left atomic.Int64
	left.Store(int64(n))
	done := make(chan bool)
	var failed atomic.Int64
	var call func(id, tries, depth int)
	call = func(id, tries, depth int) {
		d := fmt.Appendf(nil, "%d/%d/%d", id, tries, depth)
		var ended atomic.Int32
		once := func() {
			if ended.Add(1) != 1 {
				t.Violate("a call ends twice", "%s", d)
			}
		}
		kit.Count("calls of the host", 1)
		x.inst.RequestResponse(context.Background(), payload.New(d, md(opCall))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				once()
				if !bytes.Equal(p.Data(), d) {
					t.Violate("an answer is wrong", "%s: %s", d, p.Data())
				}
				kit.Count("calls answered", 1)
				if depth < deep {
					call(id, tries, depth+1)
				} else if left.Add(-1) == 0 {
					close(done)
				}
			},
			OnError: func(err error) {
				once()
				kit.Count("calls that a trap or close ended", 1)
				failed.Add(1)
				call(id, tries+1, depth)
			},
		})
	}
	finished := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			call(i, 0, 0)
		}
		close(finished)
	}()
	if _, _, timely := kit.Recv(finished); !timely {
		t.Fatal("callers hang", "%s", kit.Stacks())
	}
	for k := 0; k < traps; k++ {
		if k == traps-1 {
			hold.Store(false)
		}
		before := failed.Load()
		trap.Store(true)
		x.tick()
		if k < traps-1 && !kit.Wait(func() bool { return failed.Load() >= before+int64(n) }) {
			t.Fatal("a call does not end", "%d of %d after a trap\n%s", failed.Load()-before, n, kit.Stacks())
		}
	}
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("a call does not end", "%d of %d left\n%s", left.Load(), n, kit.Stacks())
	}
	x.startTicks()
	x.end()
	t.CaseHash(uint64(n)<<16|uint64(traps)<<8|uint64(failed.Load()), true)
}

// --- hostile guests ---

// villain sends what it likes.
type villain struct {
	*guest
	seen []uint32 // streams of the host
	pend []uint16
}

func (v *villain) frame() []byte {
	r := v.r
	if r.IntN(8) == 0 {
		b := make([]byte, r.IntN(30))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return b
	}
	f := frame{typ: uint16(r.IntN(13)), flags: uint16(r.IntN(16)) << 5}
	if r.IntN(20) == 0 {
		f.typ = uint16(r.IntN(64))
	}
	switch r.IntN(6) {
	case 0:
		f.stream = r.Uint32N(40)
	case 1:
		f.stream = []uint32{0, 1, 1 << 31, 1<<31 - 1, 1<<32 - 1}[r.IntN(5)]
	case 2:
		f.stream = 2*r.Uint32N(20) + 1
	default:
		if len(v.seen) > 0 {
			f.stream = v.seen[r.IntN(len(v.seen))]
		}
	}
	f.n = []uint32{0, 1, 5, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.IntN(6)]
	if r.IntN(3) > 0 {
		f.md = md([]uint32{opBack, opBack, opCall, opNone, 1<<32 - 1}[r.IntN(5)])
		binary.BigEndian.PutUint32(f.md[4:], []uint32{0, 0, 1, 2, r.Uint32N(40)}[r.IntN(5)])
		if r.IntN(5) == 0 {
			f.md = f.md[:r.IntN(8)]
		}
	}
	f.data = make([]byte, r.IntN(30))
	b := f.bytes()
	switch r.IntN(8) {
	case 0: // wrong length
		b[r.IntN(3)] = byte(r.Uint32())
	case 1: // cut
		b = b[:r.IntN(len(b)+1)]
	case 2: // damaged
		b[r.IntN(len(b))] ^= byte(1 << r.IntN(8))
	case 3: // cut inside
		k := r.IntN(len(b) - 2)
		b = prefixed(b[3 : 3+k])
	}
	return b
}

func (v *villain) attack(ctx context.Context, n uint32) error {
	r := v.r
	kit.Count("attacks", 1)
	if buf, ok := v.sh.Memory().Read(v.in, n); ok && len(buf) > 9 {
		v.seen = append(v.seen, binary.BigEndian.Uint32(buf[3:]))
	}
	var b []byte
	for k := r.IntN(6); k > 0; k-- {
		b = append(b, v.frame()...)
	}
	b = b[:min(len(b), int(v.outSize))]
	v.sh.Memory().Write(v.out, b)
	pos := uint32(len(b))
	switch r.IntN(12) {
	case 0:
		pos += r.Uint32N(100)
	case 1:
		pos = []uint32{0, 1, 2, 3, 1 << 16, wasmkit.Pages << 16, 1 << 31, 1<<32 - 1}[r.IntN(8)]
	}
	if err := v.sh.HostSend(ctx, pos); err != nil {
		v.violate("the host fails", "%v", err)
	}
	switch r.IntN(30) {
	case 0:
		p := []uint32{0, wasmkit.Pages<<16 - 100, wasmkit.Pages << 16, 1<<32 - 1}[r.IntN(4)]
		q := []uint32{0, wasmkit.Pages<<16 - 100, wasmkit.Pages << 16, 1<<32 - 1}[r.IntN(4)]
		if r.IntN(2) == 0 {
			p = v.in
		}
		if err := v.sh.InitBuffers(ctx, p, q); err != nil {
			v.violate("the host fails", "%v", err)
		}
		kit.Count("bad buffers announced", 1)
	case 1, 2:
		return errors.New("trap: unreachable")
	case 3:
		panic("trap")
	case 4, 5, 6:
		v.badList(ctx)
	}
	return nil
}

// badList announces operations that make no sense.
func (v *villain) badList(ctx context.Context) {
	r := v.r
	b := v.table.ToBytes()
	switch r.IntN(4) {
	case 0:
		b = b[:r.IntN(len(b)+1)]
	case 1:
		for k := r.IntN(4); k >= 0; k-- {
			b[r.IntN(len(b))] = byte(r.Uint32())
		}
	}
	p := r.Uint32N(1000)
	v.sh.Memory().Write(p, b)
	n := uint32(len(b))
	if r.IntN(4) == 0 {
		p = []uint32{0, wasmkit.Pages<<16 - 1, wasmkit.Pages << 16, 1<<32 - 1}[r.IntN(4)]
		n = []uint32{0, 1, n, wasmkit.Pages << 16, 1<<32 - 1}[r.IntN(5)]
	}
	if err := v.sh.OpList(ctx, p, n); err != nil {
		v.violate("the host fails", "%v", err)
	}
	kit.Count("odd operation lists", 1)
}

// hostileGuest has calls and callers with a guest that misbehaves. A second
// guest of the same host is not affected.
func hostileGuest(t *kit.T) {
	r := t.Rand
	v := &villain{}
	var calm atomic.Bool
	x := newRig(t, func(g *guest) {
		v.guest = g
		g.hostile = true
		g.noCheck.Store(true)
		g.onSend = func(ctx context.Context, n uint32) error {
			if calm.Load() {
				return errors.New("trap: over")
			}
			return v.attack(ctx, n)
		}
	})
	good := newRig(t, nil)
	var done sync.WaitGroup
	ctx := context.Background()
	n := 5 + r.IntN(30)
	type result struct {
		what  string
		ended atomic.Int32
	}
	var results []*result
	for i := 0; i < n; i++ {
		kind := r.IntN(4)
		res := &result{what: fmt.Sprint(i, " of kind ", kind)}
		end := func(error) {
			if res.ended.Add(1) > 1 {
				t.Violate("a call ends twice", "call %s of a hostile guest", res.what)
				return
			}
			kit.Count("calls of hostile guests ended", 1)
			done.Done()
		}
		p := payload.New(append(binary.BigEndian.AppendUint64(nil, uint64(i)), 1, 2, 3), md(opCall))
		s := flux.Subscribe[payload.Payload]{OnComplete: func() { end(nil) }, OnError: end}
		if kind != 0 {
			results = append(results, res)
			done.Add(1)
		}
		switch kind {
		case 0:
			x.inst.FireAndForget(ctx, p)
		case 1:
			x.inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: func(payload.Payload) { end(nil) }, OnError: end})
		case 2:
			x.inst.RequestStream(ctx, p).Subscribe(s)
		case 3:
			x.inst.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{p, p, p})).Subscribe(s)
		}
		kit.Count("calls of the host", 1)
		if r.IntN(3) == 0 {
			x.inst.Operations()
		}
		if r.IntN(5) == 0 {
			c := good.newCall(0, uint32(i+1))
			c.kind, c.late = tFNF, false
			c.run(good.inst, rand.New(rand.NewPCG(r.Uint64(), 1)))
		}
		if r.IntN(3) == 0 {
			time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
		}
	}
	// The other guest is fine.
	c := good.newCall(1, 1)
	c.kind, c.late, c.out = tRR, false, plan{[]item{genItem(r)}, ""}
	c.run(good.inst, r)
	if _, _, timely := kit.Recv(c.done); !timely {
		t.Fatal("a call does not end", "of the other guest\n%s", kit.Stacks())
	}
	// A trap ends whatever is left.
	calm.Store(true)
	over := make(chan bool)
	go func() { done.Wait(); close(over) }()
	x.startTicks()
	if _, _, timely := kit.Recv(over); !timely {
		for _, res := range results {
			if res.ended.Load() == 0 {
				t.Violate("a call does not end", "call %s of a hostile guest\n%s", res.what, kit.Stacks())
				panic(failed{})
			}
		}
	}
	good.startTicks()
	x.endOne(false)
	good.end()
	x.sh.Close(ctx)
	h := uint64(0)
	for _, res := range results {
		h = h*31 + uint64(res.ended.Load())
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	t.CaseHash(h^uint64(v.sends)<<32^r.Uint64(), true)
}

// --- frames that do not fit ---

// oversized has requests, answers and inputs around the size of the buffers.
func oversized(t *kit.T) {
	r := t.Rand
	x := newRig(t, nil)
	g := x.g
	near := func() []byte {
		d := make([]byte, 16*1024-60+r.IntN(70))
		if r.IntN(4) == 0 {
			d = make([]byte, 16*1024+r.IntN(1<<18))
		}
		for i := range d {
			d[i] = byte(i * 7)
		}
		return d
	}
	fits := func(typ uint16, md, data []byte) bool {
		return len(frame{typ: typ, stream: 2, md: md, data: data}.bytes()) <= 16*1024
	}
	ctx := context.Background()
	x.startTicks()
	// From the host.
	for k := 0; k < 6; k++ {
		c := x.newCall(0, uint32(k+1))
		c.lane = uint32(k)
		c.dropAt, c.mode, c.late = -1, k%2, r.IntN(2) == 0
		c.out = plan{[]item{{nil, []byte("fine")}}, ""}
		c.in = plan{[]item{{nil, []byte("one")}, {nil, []byte("two")}}, ""}
		big, bigIn := r.IntN(3) > 0, false
		if big {
			c.req.data = append(c.req.data[:8:8], near()...)
		} else if c.kind == tRC {
			bigIn = true
			c.in.items[1].data = near()
		}
		ok := fits(c.kind, c.req.md, c.req.data)
		c.tooBig = bigIn
		okIn := !bigIn || fits(tPayload, nil, c.in.items[1].data)
		if ok && okIn && c.kind != tRC {
			c.run(x.inst, r)
			if _, _, timely := kit.Recv(c.done); !timely {
				t.Fatal("a call does not end", "%v with %d bytes\n%s", c, len(c.req.data), kit.Stacks())
			}
			kit.Count("big requests that fit", 1)
			continue
		}
		p := payload.New(c.req.data, c.req.md)
		ended := make(chan error, 10)
		s := flux.Subscribe[payload.Payload]{OnComplete: func() { ended <- nil }, OnError: func(err error) { ended <- err }}
		switch c.kind {
		case tFNF:
			x.inst.FireAndForget(ctx, p)
			continue
		case tRR:
			x.inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: func(payload.Payload) { ended <- nil }, OnError: func(err error) { ended <- err }})
		case tRS:
			x.inst.RequestStream(ctx, p).Subscribe(s)
		case tRC:
			x.inst.RequestChannel(ctx, p, c.source(rand.New(rand.NewPCG(1, 2)))).Subscribe(s)
		}
		err, _, timely := kit.Recv(ended)
		if !timely {
			t.Fatal("a call does not end", "%v with %d bytes, input fits %v\n%s", c, len(c.req.data), okIn, kit.Stacks())
		}
		if (err == nil) != (ok && okIn) {
			t.Violate("a call that does not fit", "%v with %d bytes, input of %d: %v", c, len(c.req.data), len(c.in.items[1].data), err)
		}
		time.Sleep(time.Millisecond)
		if len(ended) > 0 {
			t.Violate("a call ends twice", "%v with %d bytes", c, len(c.req.data))
		}
		kit.Count("requests that do not fit", 1)
	}
	// From the guest.
	for k := 0; k < 6; k++ {
		g.mu.Lock()
		x.id++
		c := &gcall{g: g, id: x.id, kind: uint16(tRR + r.IntN(2)*2), mode: r.IntN(2), done: make(chan bool), step: 1<<31 - 1, dropAt: -1}
		it := item{nil, near()}
		c.out = plan{[]item{it}, ""}
		if c.kind == tRS {
			c.out.items = append(c.out.items, item{nil, []byte("next")})
		}
		if !fits(tPayload, nil, it.data) {
			c.tooBig = true
			kit.Count("answers that do not fit", 1)
		}
		c.req = item{md(opBack), binary.BigEndian.AppendUint64(nil, c.id)}
		g.gcalls[c.id] = c
		g.toStart = append(g.toStart, c)
		g.mu.Unlock()
		if _, _, timely := kit.Recv(c.done); !timely {
			t.Fatal("a call of the guest does not end", "%v, answer of %d bytes\n%s", c, len(it.data), kit.Stacks())
		}
	}
	x.end()
	t.CaseHash(r.Uint64(), true)
}

// --- instances that do not start ---

type broken struct {
	*guest
	how int
}

var errBroken = errors.New("broken")

func (b *broken) Init(ctx context.Context, sh *wasmkit.Shell, x, y, z uint32) error {
	b.inSize, b.outSize = x, y
	switch b.how {
	case 0:
		return errBroken
	case 1:
		panic("init")
	case 2: // says nothing
		return nil
	case 3:
		sh.InitBuffers(ctx, 1<<32-1, 1<<32-1)
		return nil
	}
	return b.guest.Init(ctx, sh, x, y, z)
}

func (b *broken) List(ctx context.Context, sh *wasmkit.Shell) error {
	switch b.how {
	case 4:
		return errBroken
	case 5:
		panic("list")
	case 6:
		return nil
	case 7:
		return sh.OpList(ctx, 1<<31, 1<<31)
	case 8:
		return sh.OpList(ctx, 0, 64)
	}
	return b.guest.List(ctx, sh)
}

func starts(t *kit.T) {
	ctx := context.Background()
	for how := 0; how <= 12; how++ {
		g := newGuest(t, rand.New(rand.NewPCG(t.Rand.Uint64(), 1)))
		g.noCheck.Store(true)
		b := &broken{g, how}
		lacks := ""
		if how >= 10 {
			lacks = []string{"__wasmrs_init", "__wasmrs_send", "__wasmrs_op_list_request"}[how-10]
		}
		var inst *host.Instance
		var sh *wasmkit.Shell
		var err error
		t.Guard("the host crashes", func() string { return fmt.Sprintf("instance %d", how) }, func() { inst, sh, err = room.InstantiateWithout(ctx, b, lacks) })
		if t.Failed() {
			return
		}
		mustFail := how <= 1 || how == 4 || how == 5 || how >= 10
		if mustFail != (err != nil) || (err == nil) != (inst != nil) {
			t.Violate("a guest that cannot start", "instance %d: %v, error %v", how, inst != nil, err)
		}
		kit.Count("starts", 1)
		if err != nil {
			if how == 0 || how == 4 {
				if !strings.Contains(err.Error(), "broken") {
					t.Violate("the reason why a guest does not start", "instance %d: %v", how, err)
				}
			}
			kit.Count("failed starts", 1)
		} else {
			if how >= 6 && how <= 8 && len(inst.Operations()) != 0 {
				t.Violate("operations that nobody announced", "instance %d: %v", how, inst.Operations())
			}
			if how == 9 && !sameTable(inst.Operations(), g.table) {
				t.Violate("operations are wrong", "%v, not %v", inst.Operations(), g.table)
			}
			ended := make(chan error, 10)
			inst.RequestResponse(ctx, payload.New(nil, md(opTick))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { ended <- nil }, OnError: func(err error) { ended <- err }})
			inst.Close()
			if _, _, timely := kit.Recv(ended); !timely {
				t.Fatal("a call does not end", "instance %d\n%s", how, kit.Stacks())
			}
		}
		if !kit.WaitFor(10*time.Second, func() bool { return !strings.Contains(kit.Stacks(), "transport/wasmrs/host") }) {
			t.Fatal("an instance that does not start keeps goroutines", "%d\n%s", how, kit.Stacks())
		}
		if sh != nil {
			sh.Close(ctx)
		}
		t.CaseHash(uint64(how), true)
	}
}

func sameTable(a, b operations.Table) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
