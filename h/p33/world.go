//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/meshkit"
)

const (
	rr = operations.RequestResponse
	fn = operations.FireAndForget
	rs = operations.RequestStream
	rc = operations.RequestChannel
)

type op struct {
	typ      operations.RequestType
	ns, name string
}

// version is a module as it was loaded once.
type version struct {
	meshkit.Module
	exp  map[op]uint32
	imp  map[op]uint32
	fnfs uint32 // what it should have received
	sum  uint32
}

type file struct {
	path             string
	exports, imports []op
	query            op
	cur              *version // nil before it is loaded
}

// world is a mesh and what it should look like.
type world struct {
	t      *kit.T
	r      *rand.Rand
	dir    string
	layout int // how the files are named
	m      *mesh.Mesh
	files  []*file
	owner  map[op]*file
	tags   uint32
	loose  bool // calls may fail
}

func newWorld(t *kit.T, opts ...mesh.Option) *world {
	dir, err := os.MkdirTemp("", "verif-p33-")
	if err != nil {
		panic(err)
	}
	r := rand.New(rand.NewPCG(t.Rand.Uint64(), 5))
	return &world{t: t, r: r, dir: dir, layout: r.IntN(3), m: mesh.New(opts...), owner: map[op]*file{}}
}

func (w *world) remove() { os.RemoveAll(w.dir) }

// populate makes up files that import from each other.
// path is where module i lies: next to the others, or under the same name in
// a directory of its own.
func (w *world) path(i int) string {
	switch w.layout {
	case 1:
		d := filepath.Join(w.dir, fmt.Sprint(i))
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
		return filepath.Join(d, "module.wasm")
	case 2:
		return filepath.Join(w.dir, "m"+strings.Repeat(".wasm", i+1))
	}
	return filepath.Join(w.dir, fmt.Sprintf("m%d.wasm", i))
}

func (w *world) populate(n int) {
	var all []op
	names := []string{"a", "b", "c", ""}
	for i := 0; i < n; i++ {
		f := &file{path: w.path(i)}
		w.files = append(w.files, f)
		add := func(o op) {
			if w.owner[o] == nil {
				w.owner[o] = f
				f.exports = append(f.exports, o)
				all = append(all, o)
			}
		}
		f.query = op{rr, "q", fmt.Sprint(i)}
		add(f.query)
		k := w.r.IntN(8)
		if w.r.IntN(3) == 0 {
			k = -1 // a single export
		}
		for ; k >= 0; k-- {
			// The same names in different namespaces and of different types.
			add(op{operations.RequestType(1 + w.r.IntN(4)), []string{"x", "y.z", fmt.Sprint("f", i)}[w.r.IntN(3)], names[w.r.IntN(4)]})
		}
	}
	for _, f := range w.files {
		seen := map[op]bool{}
		for k := w.r.IntN(8); k > 0; k-- {
			o := all[w.r.IntN(len(all))]
			switch w.r.IntN(12) {
			case 0:
				o.name = "nobody"
			case 1:
				o.ns = "nowhere"
			}
			if !seen[o] {
				seen[o] = true
				f.imports = append(f.imports, o)
			}
		}
	}
}

// next makes the next version of a file.
func (w *world) next(f *file) *version {
	w.tags++
	v := &version{exp: map[op]uint32{}, imp: map[op]uint32{}}
	v.Tag = w.tags
	if w.r.IntN(2) == 0 {
		v.Flags = meshkit.Batch
	}
	number := func(ops []op, d operations.Direction, at map[op]uint32) {
		var next [8]uint32
		for i := range next {
			next[i] = w.r.Uint32N(3)
		}
		for _, i := range w.r.Perm(len(ops)) {
			o := ops[i]
			at[o] = next[o.typ]
			next[o.typ] += 1 + w.r.Uint32N(2)
			v.Ops = append(v.Ops, operations.Operation{Index: at[o], Type: o.typ, Direction: d, Namespace: o.ns, Operation: o.name})
		}
	}
	number(f.exports, operations.Export, v.exp)
	number(f.imports, operations.Import, v.imp)
	w.r.Shuffle(len(v.Ops), func(i, k int) { v.Ops[i], v.Ops[k] = v.Ops[k], v.Ops[i] })
	return v
}

func (w *world) load(f *file) {
	v := w.next(f)
	v.Write(f.path)
	inst, err := w.m.LoadModule(context.Background(), f.path)
	if err != nil || inst == nil {
		w.t.Fatal("a module does not load", "%v", err)
	}
	f.cur = v
	kit.Count("loads", 1)
}

// --- calls ---

type item struct{ md, data []byte }

func (i item) String() string { return fmt.Sprintf("%x|%.60x", i.md, i.data) }

type call struct {
	w     *world
	entry op
	route []*version
	last  op
	term  byte
	req   item // for the mesh
	in    []item
	inErr string
	push  bool // the input ignores demand
	items []item
	err   bool // any error
	msg   string
	step  int
	drop  int

	mu      sync.Mutex
	got     int
	ended   int
	failed  bool
	dropped bool
	done    chan bool
}

func (c *call) String() string {
	s := fmt.Sprintf("%v program %c of", c.entry, c.term)
	for _, v := range c.route {
		s += fmt.Sprintf(" %d", v.Tag)
	}
	return fmt.Sprintf("%s: %d items, error %v %q, input %d %q", s, len(c.items), c.err, c.msg, len(c.in), c.inErr)
}

func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func cat(bs ...[]byte) (b []byte) {
	for _, x := range bs {
		b = append(b, x...)
	}
	return b
}

func fnv1(b []byte) uint32 {
	h := fnv.New32a()
	h.Write(b)
	return h.Sum32()
}

func (w *world) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(w.r.Uint32())
	}
	return b
}

// plan makes up a call. Term is the program at its end; 0 is any.
func (w *world) plan(entry op, depth int, term byte) *call {
	r := w.r
	c := &call{w: w, entry: entry, last: entry, done: make(chan bool), step: 1 + r.IntN(4), drop: -1}
	if r.IntN(3) == 0 {
		c.step = rx.RequestMax
	}
	var extra []byte
	if r.IntN(2) == 0 {
		extra = w.bytes(1 + r.IntN(40))
	}
	var prog []byte
	cur := w.owner[entry]
	lost := cur == nil || cur.cur == nil
	for !lost {
		c.route = append(c.route, cur.cur)
		var forward []op
		for _, o := range cur.imports {
			if o.typ == entry.typ {
				forward = append(forward, o)
			}
		}
		if depth--; depth < 0 || len(forward) == 0 {
			break
		}
		o := forward[r.IntN(len(forward))]
		prog = append(prog, 'F')
		prog = append(prog, u32(cur.cur.imp[o])...)
		c.last = o
		cur = w.owner[o]
		lost = cur == nil || cur.cur == nil
	}
	size := r.IntN(60)
	if r.IntN(10) == 0 && entry.typ == rr {
		size = r.IntN(8000)
	}
	data := w.bytes(size)
	if term == 0 {
		if c.term = 'R'; r.IntN(6) == 0 {
			c.term = 'E'
		}
		if entry.typ == rr && r.IntN(4) == 0 {
			c.term = 'P'
		}
	} else {
		c.term = term
	}
	prog = append(prog, c.term)
	head := prog
	if entry.typ == rs && c.term == 'R' {
		n := []int{0, 1, 2, 5, 20}[r.IntN(5)]
		end := byte('c')
		if r.IntN(4) == 0 {
			end = 'e'
		}
		prog = append(prog, u32(uint32(n))...)
		prog = append(prog, end)
	}
	prog = append(prog, data...)
	c.req = item{cat(u32(r.Uint32()), u32(0), extra), prog}
	var tags, back []byte
	var at *version
	for i, v := range c.route {
		if i < len(c.route)-1 || lost {
			tags = append(tags, u32(v.Tag)...)
			back = cat(u32(v.Tag), back)
		} else {
			at = v
		}
	}
	if entry.typ == rc {
		for k := []int{0, 1, 2, 5, 20}[r.IntN(5)]; k > 0; k-- {
			var md []byte
			if r.IntN(3) == 0 {
				md = w.bytes(1 + r.IntN(10))
			}
			c.in = append(c.in, item{md, w.bytes(r.IntN(40))})
		}
		if r.IntN(4) == 0 {
			c.inErr = "input"
		}
		c.push = r.IntN(3) == 0
	}
	switch {
	case lost:
		c.err = true
	case entry.typ == fn:
		at.fnfs++
		at.sum += fnv1(data) ^ at.exp[c.last]
	case c.term == 'E':
		c.err, c.msg = true, string(data)
	case c.term == 'T':
		c.err = true
	default:
		pre := cat(tags, u32(at.Tag), u32(at.exp[c.last]))
		switch entry.typ {
		case rr:
			if c.term == 'Q' {
				data = cat(u32(at.fnfs), u32(at.sum))
			}
			c.items = []item{{extra, cat(pre, data)}}
		case rs:
			n := binary.BigEndian.Uint32(prog[len(head):])
			for i := uint32(0); i < n; i++ {
				c.items = append(c.items, item{extra, cat(pre, u32(i), data)})
			}
			if prog[len(head)+4] == 'e' {
				c.err, c.msg = true, string(data)
			}
			if n > 1 && r.IntN(5) == 0 {
				c.drop = 1 + r.IntN(int(n)-1)
			}
		case rc:
			for _, it := range c.in {
				c.items = append(c.items, item{it.md, cat(pre, u32(fnv1(data)), back, it.data)})
			}
			if c.inErr != "" {
				c.err, c.msg = true, c.inErr
			}
		}
	}
	return c
}

func (w *world) anyOp(typ operations.RequestType) op {
	var ops []op
	for _, f := range w.files {
		for _, o := range f.exports {
			if o.typ == typ {
				ops = append(ops, o)
			}
		}
	}
	if len(ops) == 0 || w.r.IntN(15) == 0 {
		return op{typ, "x", "missing"}
	}
	return ops[w.r.IntN(len(ops))]
}

func (w *world) any() *call {
	return w.plan(w.anyOp(operations.RequestType(1+w.r.IntN(4))), w.r.IntN(6), 0)
}

func (c *call) element(p payload.Payload, cancel func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.ended > 0 {
		c.w.t.Violate("an element after the end", "%v", c)
		return
	}
	if c.dropped {
		return
	}
	if c.got >= len(c.items) || !bytes.Equal(c.items[c.got].md, p.Metadata()) || !bytes.Equal(c.items[c.got].data, p.Data()) {
		want := "none"
		if c.got < len(c.items) {
			want = c.items[c.got].String()
		}
		c.w.t.Violate("an element is wrong", "%v: element %d is %v, want %s", c, c.got, item{p.Metadata(), p.Data()}, want)
		c.got++
		return
	}
	c.got++
	kit.Count("elements", 1)
	if c.got == c.drop && cancel != nil {
		c.dropped = true
		kit.Count("cancels", 1)
		cancel()
		close(c.done)
	}
}

func (c *call) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.dropped {
		return
	}
	c.ended++
	if c.ended > 1 {
		c.w.t.Violate("a call ends twice", "%v: %v", c, err)
		return
	}
	c.failed = err != nil
	switch {
	case err != nil && c.w.loose:
		kit.Count("calls that a trap or close ended", 1)
	case err != nil && !c.err:
		c.w.t.Violate("a call fails", "%v: after %d elements: %v", c, c.got, err)
	case err == nil && c.err:
		c.w.t.Violate("an error is lost", "%v: after %d elements", c, c.got)
	case err != nil && c.msg != "" && c.msg != err.Error():
		c.w.t.Violate("an error is wrong", "%v: %v", c, err)
	case c.got != len(c.items):
		c.w.t.Violate("elements are lost", "%v: %d of %d", c, c.got, len(c.items))
	case err != nil:
		kit.Count("calls that failed as they should", 1)
	default:
		kit.Count("calls answered", 1)
	}
	close(c.done)
}

func (c *call) source() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		var mu sync.Mutex
		demand, i, busy, over := 0, 0, false, false
		run := func() {
			mu.Lock()
			if busy {
				mu.Unlock()
				return
			}
			busy = true
			for demand > 0 && i < len(c.in) && !over {
				demand--
				it := c.in[i]
				i++
				mu.Unlock()
				sink.Next(payload.New(bytes.Clone(it.data), bytes.Clone(it.md)))
				mu.Lock()
			}
			end := i == len(c.in) && !over
			over = over || end
			busy = false
			mu.Unlock()
			if end && c.inErr != "" {
				sink.Error(errors.New(c.inErr))
			} else if end {
				sink.Complete()
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				mu.Lock()
				demand += n
				mu.Unlock()
				run()
			},
			Cancel: func() { mu.Lock(); over = true; mu.Unlock() },
		})
		if c.push {
			mu.Lock()
			demand = 1 << 40
			mu.Unlock()
			kit.Count("sources that ignore demand", 1)
		}
		if c.push || len(c.in) == 0 {
			run()
		}
	})
}

// start makes the call.
func (c *call) start() {
	m := c.w.m
	ctx := context.Background()
	md, data := bytes.Clone(c.req.md), bytes.Clone(c.req.data)
	p := payload.New(data, md)
	kit.Count("calls", 1)
	kit.Count("hops", int64(len(c.route)))
	var sub rx.Subscription
	s := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { c.element(p, func() { sub.Cancel() }) },
		OnComplete: func() { c.end(nil) },
		OnError:    c.end,
		OnRequest:  func(s rx.Subscription) { sub = s; s.Request(c.step) },
	}
	o := c.entry
	switch o.typ {
	case rr:
		m.RequestResponse(ctx, o.ns, o.name, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { c.element(p, nil); c.end(nil) },
			OnError:   c.end,
		})
	case fn:
		m.FireAndForget(ctx, o.ns, o.name, p)
		close(c.done)
	case rs:
		m.RequestStream(ctx, o.ns, o.name, p).Subscribe(s)
	case rc:
		m.RequestChannel(ctx, o.ns, o.name, p, c.source()).Subscribe(s)
	}
	if !bytes.Equal(md, c.req.md) || !bytes.Equal(data, c.req.data) {
		c.w.t.Violate("the payload of the caller changes", "%v: %x", c, md)
	}
}

func (c *call) wait() {
	if _, _, timely := kit.Recv(c.done); !timely {
		c.w.t.Fatal("a call does not end", "%v: %d elements\n%s", c, c.got, kit.Stacks())
	}
}

// calls makes calls from several callers.
func (w *world) calls(n int) {
	var cs []*call
	for i := 0; i < n; i++ {
		cs = append(cs, w.any())
	}
	w.all(cs, 1+w.r.IntN(6))
}

func (w *world) all(cs []*call, callers int) {
	var wg sync.WaitGroup
	for k := 0; k < callers; k++ {
		pause := w.r.IntN(3) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < len(cs); i += callers {
				cs[i].start()
				if pause {
					kit.Recv(cs[i].done)
				}
			}
		}()
	}
	made := make(chan bool)
	go func() { wg.Wait(); close(made) }()
	if _, _, timely := kit.Recv(made); !timely {
		w.t.Fatal("callers hang", "%s", kit.Stacks())
	}
	for _, c := range cs {
		c.wait()
	}
	h := fnv.New64a()
	for _, c := range cs {
		fmt.Fprint(h, c.String(), c.got)
	}
	w.t.CaseHash(h.Sum64(), true)
}

// settle waits until every module has received what was sent to it.
func (w *world) settle() {
	for _, f := range w.files {
		if f.cur == nil {
			continue
		}
		var got []byte
		want := cat(u32(f.cur.Tag), u32(f.cur.exp[f.query]), u32(f.cur.fnfs), u32(f.cur.sum))
		ok := kit.Wait(func() bool {
			done := make(chan bool)
			got = nil
			p := payload.New([]byte("Q"), make([]byte, 8))
			w.m.RequestResponse(context.Background(), f.query.ns, f.query.name, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { got = p.Data(); close(done) },
				OnError:   func(err error) { got = []byte(err.Error()); close(done) },
			})
			kit.Recv(done)
			return len(got) != len(want) || bytes.Equal(got, want) || binary.BigEndian.Uint32(got[8:]) >= f.cur.fnfs
		})
		if !ok || !bytes.Equal(got, want) {
			w.t.Violate("what was sent and forgotten does not arrive once", "module %d: %x, want %x", f.cur.Tag, got, want)
		}
		kit.Count("sent and forgotten", int64(f.cur.fnfs))
	}
}
