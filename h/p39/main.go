//go:build go1.22

// Several modules and instances on one host, each on its own.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sync"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/meshkit"
)

var ctx = context.Background()

const (
	rr = operations.RequestResponse
	fn = operations.FireAndForget
	rs = operations.RequestStream
	rc = operations.RequestChannel
)

// box is a host.
type box struct {
	t    *kit.T
	h    *host.Host
	mods []*module
	tags uint32

	mu   sync.Mutex
	all  []*inst
	last uint32

	peers []*inst // that live as long as the box
}

type module struct {
	meshkit.Module
	m *host.Module
}

// inst is an instance and what it has to be.
type inst struct {
	b   *box
	m   *module
	i   *host.Instance
	id  uint32
	mu  sync.Mutex
	fns uint32
	sum uint32
	// What it has told the host, and what the host has heard.
	told, heard uint64

	out bool // closed, or has trapped
}

func (i *inst) String() string { return fmt.Sprintf("instance %d of module %x", i.id, i.m.Tag) }

func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func cat(bs ...[]byte) (b []byte) {
	for _, x := range bs {
		b = append(b, x...)
	}
	return b
}

func fnv1(b []byte) uint32 {
	h := fnv.New32a()
	h.Write(b)
	return h.Sum32()
}

func fill(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func newBox(t *kit.T) *box {
	h, err := host.New(ctx)
	if err != nil {
		t.Fatal("a host does not start", "%v", err)
	}
	return &box{t: t, h: h}
}

// make makes up a module.
func (b *box) make(r *rand.Rand) *module {
	b.mu.Lock()
	b.tags++
	n := b.tags
	b.mu.Unlock()
	m := &module{Module: meshkit.Module{Tag: n<<16 | uint32(r.IntN(1<<16))}}
	if r.IntN(2) == 0 {
		m.Flags = meshkit.Batch
	}
	for _, typ := range []operations.RequestType{rr, fn, rs, rc} {
		at := map[operations.Direction]uint32{}
		for _, d := range []operations.Direction{operations.Export, operations.Import} {
			for k := 1 + r.IntN(2); k > 0; k-- {
				at[d] += uint32(r.IntN(3))
				m.Ops = append(m.Ops, operations.Operation{Index: at[d], Type: typ, Direction: d,
					Namespace: fmt.Sprint("m", n%3), Operation: fmt.Sprint("o", len(m.Ops))})
				at[d]++
			}
		}
	}
	return m
}

func (m *module) op(r *rand.Rand, typ operations.RequestType, d operations.Direction) operations.Operation {
	var ops []operations.Operation
	for _, o := range m.Ops {
		if o.Type == typ && o.Direction == d {
			ops = append(ops, o)
		}
	}
	return ops[r.IntN(len(ops))]
}

func (b *box) compile(m *module) {
	var err error
	if !b.t.Guard("a module crashes its host", func() string { return "compile" }, func() { m.m, err = b.h.Compile(ctx, m.Bytes()) }) {
		return
	}
	if err != nil {
		b.t.Fatal("a module is not compiled", "module %x: %v", m.Tag, err)
	}
	b.mu.Lock()
	b.mods = append(b.mods, m)
	b.mu.Unlock()
	kit.Count("modules", 1)
}

// start makes an instance; what it calls is answered with its own ID.
func (b *box) start(m *module) *inst {
	var i *host.Instance
	var err error
	b.t.Guard("an instance crashes its host", func() string { return "instantiate" }, func() { i, err = m.m.Instantiate(ctx) })
	if err != nil || i == nil {
		b.mu.Lock()
		defer b.mu.Unlock()
		b.t.Fatal("a module is not instantiated", "module %x, after %d instances: %v", m.Tag, len(b.all), err)
	}
	b.mu.Lock()
	b.last++
	x := &inst{b: b, m: m, i: i, id: 0x1d000000 | b.last}
	b.all = append(b.all, x)
	b.mu.Unlock()
	kit.Count("instances", 1)
	if got := i.Operations(); !bytes.Equal(meshkit.Table(got), meshkit.Table(m.Ops)) {
		b.t.Violate("an instance has the operations of another", "%v: %v", x, got)
	}
	for _, o := range m.Ops {
		if o.Direction != operations.Import {
			continue
		}
		o := o
		mark := cat(u32(x.id), u32(o.Index))
		switch o.Type {
		case rr:
			i.SetRequestResponseHandler(o.Index, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				kit.Count("requests of guests", 1)
				if d := p.Data(); len(d) > 9 && d[0] == 'N' {
					to := b.peers[int(d[1])%len(b.peers)]
					kit.Count("instances that call others", 1)
					return mono.Map(to.i.RequestResponse(ctx, payload.New(cat([]byte("R"), d[9:]), bytes.Clone(cat(d[5:9], u32(0))))),
						func(p payload.Payload) (payload.Payload, error) { return payload.New(cat(mark, p.Data())), nil })
				}
				if d := p.Data(); len(d) > 0 && d[0] == 'E' {
					return mono.Error[payload.Payload](errors.New(fmt.Sprintf("%x", append(mark, d...))))
				}
				return mono.Just[payload.Payload](payload.New(cat(mark, p.Data())))
			})
		case fn:
			i.SetFireAndForgetHandler(o.Index, func(_ context.Context, p payload.Payload) {
				kit.Count("messages of guests", 1)
				x.mu.Lock()
				defer x.mu.Unlock()
				x.heard += uint64(fnv1(cat(mark, p.Data()))) | 1<<40
			})
		case rs:
			i.SetRequestStreamHandler(o.Index, func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				kit.Count("streams of guests", 1)
				return flux.FromSlice([]payload.Payload{payload.New(mark), payload.New(bytes.Clone(p.Data()))})
			})
		case rc:
			i.SetRequestChannelHandler(o.Index, func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				kit.Count("channels of guests", 1)
				return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return payload.New(cat(mark, p.Data())), nil })
			})
		}
	}
	return x
}

type outcome struct {
	items [][]byte
	err   error
}

func (o outcome) String() string { return fmt.Sprintf("%x, error %v", o.items, o.err) }

func (i *inst) get(what string, run func(end func(outcome))) (outcome, bool) {
	ch := make(chan outcome, 4)
	run(func(o outcome) { ch <- o })
	o, _, timely := kit.Recv(ch)
	if !timely {
		i.b.t.Fatal("a call does not end", "%v: %s\n%s", i, what, kit.Stacks())
	}
	return o, timely
}

func (i *inst) one(what string, index uint32, data []byte) outcome {
	o, _ := i.get(what, func(end func(outcome)) {
		i.i.RequestResponse(ctx, payload.New(data, cat(u32(index), u32(0)))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { end(outcome{items: [][]byte{bytes.Clone(p.Data())}}) },
			OnError:   func(err error) { end(outcome{err: err}) },
		})
	})
	return o
}

func (i *inst) many(what string, f flux.Flux[payload.Payload]) outcome {
	o, _ := i.get(what, func(end func(outcome)) {
		var items [][]byte
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { items = append(items, bytes.Clone(p.Data())) },
			OnComplete: func() { end(outcome{items: items}) },
			OnError:    func(err error) { end(outcome{items, err}) },
		})
	})
	return o
}

func (i *inst) judge(what string, got outcome, fails string, want ...[]byte) {
	ok := len(got.items) == len(want)
	for k := 0; ok && k < len(want); k++ {
		ok = bytes.Equal(got.items[k], want[k])
	}
	if got.err == nil {
		ok = ok && fails == ""
	} else {
		ok = ok && got.err.Error() == fails
	}
	if !ok {
		i.b.t.Violate("a call does not do what its instance does", "%v: %s: %v; want %x, error %q", i, what, got, want, fails)
	}
	kit.Count("calls", 1)
}

// call makes a call of any kind.
func (i *inst) call(r *rand.Rand) {
	m := i.m
	data := fill(r, r.IntN(40))
	tag := u32(m.Tag)
	switch k := r.IntN(10); k {
	case 0, 1:
		o := m.op(r, rr, operations.Export)
		if r.IntN(8) == 0 {
			data = fill(r, 8000)
		}
		what := fmt.Sprintf("request %d with %d bytes", o.Index, len(data))
		i.judge(what, i.one(what, o.Index, cat([]byte{'R'}, data)), "", cat(tag, u32(o.Index), data))
	case 2:
		o := m.op(r, rr, operations.Export)
		i.judge("error", i.one("error", o.Index, cat([]byte("Eat "), data)), string(cat([]byte("at "), data)))
	case 3, 4:
		o, to := m.op(r, rr, operations.Export), m.op(r, rr, operations.Import)
		mark := cat(u32(i.id), u32(to.Index))
		d := cat([]byte("R"), data)
		if r.IntN(4) == 0 {
			d[0] = 'E'
		}
		what := fmt.Sprintf("request %d that calls %d", o.Index, to.Index)
		if n := len(i.b.peers); n > 0 && r.IntN(3) == 0 {
			k := r.IntN(n)
			peer := i.b.peers[k]
			at := peer.m.op(r, rr, operations.Export)
			what += fmt.Sprintf(", which calls %d of %v", at.Index, peer)
			data = append(data, 1)
			got := i.one(what, o.Index, cat([]byte{'F'}, u32(to.Index), []byte{'N', byte(k), 0, 0, 0}, u32(at.Index), data))
			i.judge(what, got, "", cat(tag, mark, u32(peer.m.Tag), u32(at.Index), data))
			return
		}
		got := i.one(what, o.Index, cat([]byte{'F'}, u32(to.Index), d))
		if d[0] == 'E' {
			i.judge(what, got, fmt.Sprintf("%x", cat(mark, d)))
		} else {
			i.judge(what, got, "", cat(tag, mark, d))
		}
	case 5:
		o := m.op(r, fn, operations.Export)
		if r.IntN(2) == 0 {
			to := m.op(r, fn, operations.Import)
			i.mu.Lock()
			i.told += uint64(fnv1(cat(u32(i.id), u32(to.Index), []byte{'x'}, data))) | 1<<40
			i.mu.Unlock()
			i.i.FireAndForget(ctx, payload.New(cat([]byte{'F'}, u32(to.Index), []byte{'x'}, data), cat(u32(o.Index), u32(0))))
			return
		}
		i.mu.Lock()
		i.fns++
		i.sum += fnv1(data) ^ o.Index
		i.mu.Unlock()
		i.i.FireAndForget(ctx, payload.New(cat([]byte{'R'}, data), cat(u32(o.Index), u32(0))))
		kit.Count("messages", 1)
	case 6:
		o := m.op(r, rs, operations.Export)
		n := []int{0, 1, 3, 12}[r.IntN(4)]
		var want [][]byte
		for k := 0; k < n; k++ {
			want = append(want, cat(tag, u32(o.Index), u32(uint32(k)), data))
		}
		what := fmt.Sprintf("stream %d of %d", o.Index, n)
		i.judge(what, i.many(what, i.i.RequestStream(ctx, payload.New(cat([]byte{'R'}, u32(uint32(n)), []byte{'c'}, data), cat(u32(o.Index), u32(0))))), "", want...)
	case 7:
		o, to := m.op(r, rs, operations.Export), m.op(r, rs, operations.Import)
		d := cat([]byte("x"), data)
		what := fmt.Sprintf("stream %d that calls %d", o.Index, to.Index)
		i.judge(what, i.many(what, i.i.RequestStream(ctx, payload.New(cat([]byte{'F'}, u32(to.Index), d), cat(u32(o.Index), u32(0))))), "",
			cat(tag, u32(i.id), u32(to.Index)), cat(tag, d))
	default:
		o, to := m.op(r, rc, operations.Export), m.op(r, rc, operations.Import)
		n := r.IntN(6)
		prog, pre := cat([]byte{'R'}, data), cat(tag, u32(o.Index), u32(fnv1(data)))
		if k == 9 { // what passes a guest is marked in both directions
			prog, pre = cat([]byte{'F'}, u32(to.Index), []byte{'x'}), cat(tag, u32(i.id), u32(to.Index), tag)
		}
		var in []payload.Payload
		var want [][]byte
		for ; n > 0; n-- {
			d := fill(r, 1+r.IntN(30))
			in = append(in, payload.New(d))
			want = append(want, cat(pre, d))
		}
		what := fmt.Sprintf("channel %d, %q", o.Index, prog[:1])
		i.judge(what, i.many(what, i.i.RequestChannel(ctx, payload.New(prog, cat(u32(o.Index), u32(0))), flux.FromSlice(in))), "", want...)
	}
	i.b.t.CaseHash(uint64(i.m.Tag)<<32|uint64(i.id)<<8|uint64(len(data)), true)
}

// settle compares what an instance has counted.
func (i *inst) settle(r *rand.Rand) {
	i.mu.Lock()
	fns, sum := i.fns, i.sum
	i.mu.Unlock()
	o := i.m.op(r, rr, operations.Export)
	i.judge("what has been counted", i.one("counted", o.Index, []byte{'Q'}), "", cat(u32(i.m.Tag), u32(o.Index), u32(fns), u32(sum)))
	i.heardAll()
}

// heardAll waits for what the instance has told the host.
func (i *inst) heardAll() {
	if !kit.Wait(func() bool {
		i.mu.Lock()
		defer i.mu.Unlock()
		return i.heard == i.told
	}) {
		i.mu.Lock()
		defer i.mu.Unlock()
		i.b.t.Violate("messages of an instance are lost or go astray", "%v: %x, not %x", i, i.heard, i.told)
	}
}

// end closes an instance, or has it trap.
func (i *inst) end(r *rand.Rand) {
	i.out = true
	if r.IntN(2) == 0 {
		o := i.m.op(r, rr, operations.Export)
		if got := i.one("trap", o.Index, []byte{'T'}); got.err == nil {
			i.b.t.Violate("a trap is not an error", "%v: %v", i, got)
		}
		kit.Count("traps", 1)
		if r.IntN(2) == 0 {
			return
		}
	}
	done := make(chan error, 1)
	go func() { done <- i.i.Close() }()
	err, _, timely := kit.Recv(done)
	if !timely || err != nil {
		i.b.t.Fatal("an instance is not closed", "%v: %v\n%s", i, err, kit.Stacks())
	}
	if got := i.one("late", 0, []byte{'R'}); got.err == nil {
		i.b.t.Violate("a closed instance answers", "%v: %v", i, got)
	}
	kit.Count("closed", 1)
}

// fail starts what cannot be started.
func (b *box) fail(r *rand.Rand) {
	m := b.make(r)
	code := m.Bytes()
	how := r.IntN(7)
	switch how {
	case 0:
		code = code[:len(code)/2]
	case 1, 2, 3:
		m.Flags |= []uint32{meshkit.BadInit, meshkit.BadList, meshkit.BadStart}[how-1]
		code = m.Bytes()
	case 4, 5, 6:
		m.Lacks = []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"}[how-4]
		code = m.Bytes()
	}
	var err error
	var i *host.Instance
	b.t.Guard("a module that does not start crashes its host", func() string { return fmt.Sprint("module ", how) }, func() {
		var c *host.Module
		if c, err = b.h.Compile(ctx, code); err == nil {
			i, err = c.Instantiate(ctx)
		}
	})
	if err == nil || i != nil {
		b.t.Violate("a broken module starts", "module %d", how)
	}
	kit.Count("failed starts", 1)
}

// live has instances come and go while others are called.
func live(t *kit.T) {
	b := newBox(t)
	r := t.Rand
	for n := 1 + r.IntN(3); n > 0; n-- {
		b.compile(b.make(r))
	}
	workers := 1 + r.IntN(5)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []*inst
			for k := 0; k < kit.N(40, 200) && !t.Failed(); k++ {
				switch {
				case len(mine) == 0 || len(mine) < 4 && r.IntN(10) == 0:
					b.mu.Lock()
					m := b.mods[r.IntN(len(b.mods))]
					b.mu.Unlock()
					mine = append(mine, b.start(m))
				case r.IntN(25) == 0:
					n := r.IntN(len(mine))
					mine[n].settle(r)
					mine[n].end(r)
					mine = append(mine[:n], mine[n+1:]...)
				case r.IntN(30) == 0:
					b.fail(r)
				case r.IntN(30) == 0:
					b.compile(b.make(r))
				default:
					mine[r.IntN(len(mine))].call(r)
				}
			}
		}()
	}
	wg.Wait()
	if t.Failed() {
		return
	}
	for _, i := range b.all {
		if i.out {
			continue
		}
		i.call(r)
		i.settle(r)
	}
	if t.Wants() {
		t.Sample("%d instances of %d modules, %d workers", len(b.all), len(b.mods), workers)
	}
	for _, i := range b.all {
		if !i.out {
			i.i.Close()
		}
	}
}

// shared calls the same instances from everywhere.
func shared(t *kit.T) {
	b := newBox(t)
	r := t.Rand
	for n := 1 + r.IntN(2); n > 0; n-- {
		b.compile(b.make(r))
	}
	for n := 2 + r.IntN(4); n > 0; n-- {
		b.start(b.mods[r.IntN(len(b.mods))])
	}
	b.peers = append(b.peers, b.all...)
	lost := b.start(b.mods[0])
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(w)))
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < kit.N(30, 150) && !t.Failed(); k++ {
				if w == 0 && k == 15 {
					lost.end(r)
				}
				b.all[r.IntN(len(b.all)-1)].call(r)
			}
		}()
	}
	wg.Wait()
	for _, i := range b.all {
		if !t.Failed() && !i.out {
			i.settle(r)
		}
		i.i.Close()
	}
}

func repeat(quick, thorough int, f func(*kit.T)) func(*kit.T) {
	return func(t *kit.T) {
		for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
			f(t)
		}
	}
}

func main() {
	y := []int{0, 30}
	kit.Main(kit.Config{
		Property: "P39",
		Rule: "Real hosts compile several modules and start, call, trap, close and fail to start any number of instances of them, from several goroutines. " +
			"Modules leave their tags, and the host answers what an instance calls with a mark of that instance, so the reply to every call tells which instances it has passed; what is sent and forgotten is counted in the memory of each instance and compared.",
		Assumptions: []string{"an instance that has trapped is not called again"},
		Scenarios: []kit.Scenario{
			{Name: "live", Yields: y, Run: repeat(12, 200, live)},
			{Name: "shared", Yields: y, Run: repeat(12, 200, shared)},
		},
	})
}
