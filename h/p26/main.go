//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	ops "github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
	"github.com/nanobus/iota/go/verifh/wasmkit"
)

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// encode writes a table as the format defines it. reserved is what foreign
// writers may put after an operation.
func encode(t ops.Table, reserved func() []byte) []byte {
	b := []byte{0, 'w', 'r', 's', 0, 1}
	b = binary.BigEndian.AppendUint32(b, uint32(len(t)))
	for _, o := range t {
		b = append(b, byte(o.Type), byte(o.Direction))
		b = binary.BigEndian.AppendUint32(b, o.Index)
		for _, s := range []string{o.Namespace, o.Operation} {
			b = binary.BigEndian.AppendUint16(b, uint16(len(s)))
			b = append(b, s...)
		}
		var x []byte
		if reserved != nil {
			x = reserved()
		}
		b = binary.BigEndian.AppendUint16(b, uint16(len(x)))
		b = append(b, x...)
	}
	return b
}

var errRef = errors.New("not a table")

// decode reads a table slowly; rest is what follows it.
func decode(b []byte) (t ops.Table, rest int, err error) {
	at := 0
	take := func(n int) []byte {
		if err != nil || len(b)-at < n {
			err = errRef
			return make([]byte, 8)[:min(n, 8)]
		}
		at += n
		return b[at-n : at]
	}
	if m := take(6); err != nil || !bytes.Equal(m, []byte{0, 'w', 'r', 's', 0, 1}) {
		return nil, 0, errRef
	}
	n := binary.BigEndian.Uint32(take(4))
	for i := uint32(0); i < n && err == nil; i++ {
		var o ops.Operation
		o.Type = ops.RequestType(take(1)[0])
		o.Direction = ops.Direction(take(1)[0])
		o.Index = binary.BigEndian.Uint32(take(4))
		o.Namespace = string(take(int(binary.BigEndian.Uint16(take(2)))))
		o.Operation = string(take(int(binary.BigEndian.Uint16(take(2)))))
		take(int(binary.BigEndian.Uint16(take(2))))
		t = append(t, o)
	}
	if err != nil {
		return nil, 0, err
	}
	return t, len(b) - at, nil
}

func same(a, b ops.Table) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var words = []string{"", "a", "b", "ab", "a.b", "greeting", "Greeting", "greeting.v1", "sayHello", "sayHello ", "say", "\x00", "é", "\xff\xfe", "日本", "/", ".", "::"}

func name(r *rand.Rand) string {
	switch r.IntN(12) {
	case 0:
		b := make([]byte, []int{1, 2, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535}[r.IntN(11)])
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return string(b)
	case 1:
		b := make([]byte, r.IntN(40))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return string(b)
	}
	return words[r.IntN(len(words))]
}

func table(r *rand.Rand) ops.Table {
	n := []int{0, 1, 1, 2, 3, 5, 8, 20, 60, 255, 256, 257}[r.IntN(12)]
	var t ops.Table
	for size := 0; len(t) < n && size < 300_000; {
		o := ops.Operation{Index: uint32(r.IntN(n)), Type: ops.RequestType(1 + r.IntN(4)), Direction: ops.Direction(1 + r.IntN(2)), Namespace: name(r), Operation: name(r)}
		if r.IntN(6) == 0 {
			o.Index = []uint32{0, 255, 256, 65535, 65536, 1 << 24, 1 << 31, 1<<32 - 1}[r.IntN(8)]
		}
		if r.IntN(20) == 0 {
			o.Type, o.Direction = ops.RequestType(r.Uint32()), ops.Direction(r.Uint32())
		}
		size += len(o.Namespace) + len(o.Operation)
		t = append(t, o)
	}
	return t
}

func exact(b []byte) []byte { c := append([]byte(nil), b...); return c[:len(c):len(c)] }

// read decodes b and compares the outcome with the reference.
func read(t *kit.T, b []byte, kind string) {
	want, rest, werr := decode(b)
	in := exact(b)
	what := func() string { return fmt.Sprintf("%s: %d bytes %.80x", kind, len(b), b) }
	t.Guard("reading a table", what, func() {
		var m0, m1 runtime.MemStats
		measured := len(b) < 4096
		if measured {
			runtime.ReadMemStats(&m0)
		}
		got, err := ops.FromBytes(in)
		if measured {
			runtime.ReadMemStats(&m1)
			if d := m1.TotalAlloc - m0.TotalAlloc; d > 64*1024+64*uint64(len(b)) {
				t.Violate("too much is allocated", "%s: %d bytes", what(), d)
			}
		}
		for i := range in {
			in[i] ^= 0x55
		}
		switch {
		case werr != nil && err == nil:
			t.Violate("what is no table is read as one", "%s: %v", what(), got)
		case werr == nil && err != nil && rest == 0:
			t.Violate("a table is refused", "%s: %v", what(), err)
		case werr == nil && err == nil && !same(got, want):
			t.Violate("a table is misread", "%s: %.300v, not %.300v", what(), got, want)
		}
		if werr != nil {
			kit.Count("malformed tables", 1)
		} else {
			kit.Count("tables", 1)
			kit.Count("operations", int64(len(want)))
		}
	})
	t.CaseHash(hash(b), true)
}

func tables(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(4000, 100_000); i++ {
		tb := table(r)
		if i == 0 {
			tb = nil
		}
		var b []byte
		t.Guard("writing a table", func() string { return fmt.Sprintf("%.300v", tb) }, func() { b = tb.ToBytes() })
		if want := encode(tb, nil); !bytes.Equal(b, want) {
			t.Violate("a table is miswritten", "%.300v: %.200x, not %.200x", tb, b, want)
			return
		}
		var got ops.Table
		var err error
		t.Guard("reading a table", func() string { return fmt.Sprintf("%.300v", tb) }, func() { got, err = ops.FromBytes(b) })
		if err != nil || !same(got, tb) {
			t.Violate("a table does not survive", "%.300v: %.300v %v", tb, got, err)
			return
		}
		read(t, b, "own")
		// a foreign writer uses the reserved field
		read(t, encode(tb, func() []byte { return make([]byte, r.IntN(3)*r.IntN(300)) }), "foreign")
		if i%8 == 0 {
			read(t, append(b, make([]byte, r.IntN(30))...), "followed")
		}
	}
}

func damaged(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(1500, 50_000); i++ {
		tb := table(r)
		b := encode(tb, func() []byte { return make([]byte, r.IntN(2)*r.IntN(9)) })
		if len(b) < 300 {
			for n := range b {
				read(t, b[:n], "cut")
			}
		} else {
			for j := 0; j < 10; j++ {
				read(t, b[:r.IntN(len(b))], "cut")
			}
			read(t, b[:len(b)-1], "cut")
		}
		for j := 0; j < 20; j++ {
			m := append([]byte(nil), b...)
			for k := 0; k < 1+r.IntN(3); k++ {
				p := r.IntN(len(m))
				if r.IntN(3) == 0 {
					p = r.IntN(min(len(m), 24))
				}
				switch r.IntN(4) {
				case 0:
					m[p] ^= 1 << r.IntN(8)
				case 1:
					m[p] = byte(r.Uint32())
				case 2:
					m[p] = 0xff
				case 3:
					m = append(m[:p], m[p+1:]...)
					if len(m) == 0 {
						m = []byte{0}
					}
				}
			}
			read(t, m, "mutated")
		}
	}
	for i := 0; i < kit.N(20_000, 500_000); i++ {
		b := make([]byte, r.IntN(100))
		for j := range b {
			b[j] = byte(r.Uint32()) & byte(r.Uint32())
		}
		if r.IntN(4) > 0 {
			copy(b, ops.Magic)
			if len(b) > 5 {
				b[4], b[5] = 0, byte(r.IntN(8))
				if r.IntN(8) > 0 {
					b[5] = 1
				}
			}
			if len(b) > 9 && r.IntN(2) == 0 {
				binary.BigEndian.PutUint32(b[6:], []uint32{0, 1, 2, 3, 0xffffffff, 0x7fffffff, 0x80000000, 357913942, 1 << 24}[r.IntN(9)])
			}
		}
		read(t, b, "random")
	}
}

// --- imports ---

var kinds = []ops.RequestType{ops.RequestResponse, ops.FireAndForget, ops.RequestStream, ops.RequestChannel}

func importOf(h invoke.Caller, k ops.RequestType, ns, op string) uint32 {
	switch k {
	case ops.RequestResponse:
		return h.ImportRequestResponse(ns, op)
	case ops.FireAndForget:
		return h.ImportFireAndForget(ns, op)
	case ops.RequestStream:
		return h.ImportRequestStream(ns, op)
	}
	return h.ImportRequestChannel(ns, op)
}

// resolve compares imports with the peer's table.
func resolve(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(1500, 30_000); i++ {
		h := handler.New(context.Background(), handler.ServerMode)
		h.SetFrameSender(func(frames.Frame) error { return nil })
		tb := table(r)
		for j := range tb { // keep names short, so that they collide
			if len(tb[j].Namespace) > 300 || r.IntN(2) == 0 {
				tb[j].Namespace = words[r.IntN(6)]
			}
			if r.IntN(2) == 0 {
				tb[j].Operation = words[r.IntN(6)]
			}
		}
		b := encode(tb, nil)
		bad := r.IntN(6) == 0
		if bad {
			b = b[:r.IntN(len(b))]
		}
		before := importOf(h, ops.RequestResponse, "a", "b")
		err := h.HandleFrame(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: b})
		if bad && err == nil {
			t.Violate("a damaged table is accepted", "%.200x", b)
		} else if !bad && err != nil {
			t.Violate("a table is refused", "%.200x: %v", b, err)
		}
		if before != importOf(handler.New(context.Background(), handler.ClientMode), ops.RequestResponse, "a", "b") {
			t.Violate("an import resolves without a table", "%d", before)
		}
		named(t, h, tb, bad)
		t.CaseHash(hash(b), true)
	}
}

// named compares what a caller finds with the peer's table.
func named(t *kit.T, h invoke.Caller, tb ops.Table, bad bool) {
	r := t.Rand
	type key struct {
		k      ops.RequestType
		ns, op string
	}
	offered := map[key]map[uint32]bool{}
	taken := map[ops.RequestType]map[uint32]bool{}
	for _, o := range tb {
		if o.Direction != ops.Export || bad {
			continue
		}
		k := key{o.Type, o.Namespace, o.Operation}
		if offered[k] == nil {
			offered[k] = map[uint32]bool{}
		}
		if taken[o.Type] == nil {
			taken[o.Type] = map[uint32]bool{}
		}
		offered[k][o.Index] = true
		taken[o.Type][o.Index] = true
	}
	ask := func(k key) {
		got := importOf(h, k.k, k.ns, k.op)
		kit.Count("imports", 1)
		if set := offered[k]; len(set) > 0 {
			if !set[got] {
				t.Violate("an import resolves to another operation", "%v %q %q: %d, not one of %v", k.k, k.ns, k.op, got, set)
			}
			kit.Count("imports the peer offers", 1)
		} else if taken[k.k][got] && got != 1<<32-1 {
			t.Violate("an import the peer does not offer resolves", "%v %q %q: %d", k.k, k.ns, k.op, got)
		}
	}
	for _, o := range tb {
		k := o.Type
		if r.IntN(3) == 0 || k < 1 || k > 4 {
			k = kinds[r.IntN(4)]
		}
		ask(key{k, o.Namespace, o.Operation})
		ask(key{k, o.Operation, o.Namespace})
		ask(key{k, o.Namespace + o.Operation, ""})
		ask(key{k, o.Namespace + " ", o.Operation})
		ask(key{k, o.Namespace, words[r.IntN(len(words))]})
	}
}

// lister is a guest that announces its operations.
type lister struct {
	table []byte
	at    uint32
}

func (l *lister) Init(ctx context.Context, sh *wasmkit.Shell, _, _, _ uint32) error {
	return sh.InitBuffers(ctx, 0, 32<<10)
}

func (l *lister) List(ctx context.Context, sh *wasmkit.Shell) error {
	if !sh.Memory().Write(l.at, l.table) {
		return errors.New("no room")
	}
	return sh.OpList(ctx, l.at, uint32(len(l.table)))
}

func (l *lister) Send(context.Context, *wasmkit.Shell, uint32) error { return nil }

// guests compares imports with the operations of a guest, and with those of
// other guests of the same host.
func guests(t *kit.T) {
	r := t.Rand
	ctx := context.Background()
	room, err := wasmkit.NewRoom(ctx)
	if err != nil {
		t.Fatal("no host", "%v", err)
	}
	for i := 0; i < kit.N(60, 1500) && !t.Failed(); i++ {
		type one struct {
			tb   ops.Table
			bad  bool
			inst *host.Instance
			sh   *wasmkit.Shell
		}
		var all []one
		for n := 1 + r.IntN(3); n > 0; n-- {
			var o one
			o.tb = table(r)
			for j := range o.tb {
				if r.IntN(2) == 0 {
					o.tb[j].Namespace = words[r.IntN(6)]
				}
				if r.IntN(2) == 0 {
					o.tb[j].Operation = words[r.IntN(6)]
				}
			}
			b := encode(o.tb, nil)
			if len(b) > wasmkit.Pages<<16 {
				continue
			}
			if len(b) > 1<<16 {
				kit.Count("guests whose table exceeds 64 KB", 1)
			}
			if o.bad = r.IntN(8) == 0; o.bad {
				b = b[:r.IntN(len(b))]
			}
			// anywhere in the guest's memory, or at its very ends
			free := wasmkit.Pages<<16 - len(b)
			at := []int{0, free, r.IntN(free + 1), r.IntN(free + 1)}[r.IntN(4)]
			if o.inst, o.sh, err = room.Instantiate(ctx, &lister{b, uint32(at)}); err != nil {
				t.Fatal("a guest does not start", "%.200x: %v", b, err)
			}
			all = append(all, o)
			t.CaseHash(hash(b), true)
		}
		for k := 2 * len(all); k > 0; k-- {
			o := all[r.IntN(len(all))]
			named(t, o.inst, o.tb, o.bad)
			kit.Count("guests asked", 1)
		}
		for _, o := range all {
			o.inst.Close()
			o.sh.Close(ctx)
		}
	}
}

// --- calls ---

const metaLen = 8

type hit struct {
	k      ops.RequestType
	ns, op string
	data   string
}

var hits = make(chan hit, 4096)

type entry struct {
	k      ops.RequestType
	ns, op string
}

func register(r *rand.Rand) (all []entry) {
	seen := map[entry]bool{}
	for len(all) < 60 {
		e := entry{kinds[r.IntN(4)], words[r.IntN(len(words))], words[r.IntN(len(words))]}
		if seen[e] {
			continue
		}
		seen[e] = true
		all = append(all, e)
		said := func(p payload.Payload) string { return fmt.Sprintf("%d %q %q|%s", e.k, e.ns, e.op, p.Data()) }
		arrived := func(p payload.Payload) { hits <- hit{e.k, e.ns, e.op, string(p.Data())} }
		switch e.k {
		case ops.RequestResponse:
			invoke.ExportRequestResponse(e.ns, e.op, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				arrived(p)
				return mono.Just[payload.Payload](payload.New([]byte(said(p))))
			})
		case ops.FireAndForget:
			invoke.ExportFireAndForget(e.ns, e.op, func(ctx context.Context, p payload.Payload) { arrived(p) })
		case ops.RequestStream:
			invoke.ExportRequestStream(e.ns, e.op, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				arrived(p)
				return flux.FromSlice([]payload.Payload{payload.New([]byte(said(p)))})
			})
		case ops.RequestChannel:
			invoke.ExportRequestChannel(e.ns, e.op, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				arrived(p)
				in.Subscribe(flux.Subscribe[payload.Payload]{})
				return flux.FromSlice([]payload.Payload{payload.New([]byte(said(p)))})
			})
		}
	}
	// imports of this side are in the table as well, but are not offered
	for i := 0; i < 20; i++ {
		e := entry{kinds[r.IntN(4)], words[r.IntN(len(words))], words[r.IntN(len(words))]}
		switch e.k {
		case ops.RequestResponse:
			invoke.ImportRequestResponse(e.ns, e.op)
		case ops.FireAndForget:
			invoke.ImportFireAndForget(e.ns, e.op)
		case ops.RequestStream:
			invoke.ImportRequestStream(e.ns, e.op)
		case ops.RequestChannel:
			invoke.ImportRequestChannel(e.ns, e.op)
		}
	}
	return all
}

var registered []entry

type outcome struct {
	val string
	err error
}

func request(h invoke.Caller, e entry, data string) chan outcome {
	out := make(chan outcome, 8)
	md := make([]byte, metaLen)
	binary.BigEndian.PutUint32(md, importOf(h, e.k, e.ns, e.op))
	p := payload.New([]byte(data), md)
	got := ""
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { got += string(p.Data()) },
		OnComplete: func() { out <- outcome{got, nil} },
		OnError:    func(err error) { out <- outcome{got, err} },
		OnRequest:  func(s rx.Subscription) { s.Request(100) },
	}
	ctx := context.Background()
	switch e.k {
	case ops.RequestResponse:
		h.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { out <- outcome{string(p.Data()), nil} },
			OnError:   func(err error) { out <- outcome{"", err} },
		})
	case ops.FireAndForget:
		h.FireAndForget(ctx, p)
	case ops.RequestStream:
		h.RequestStream(ctx, p).Subscribe(sub)
	case ops.RequestChannel:
		h.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{})).Subscribe(sub)
	}
	return out
}

// callsByName has the server call what the client offers, by name.
func callsByName(t *kit.T) {
	r := t.Rand
	if registered == nil {
		registered = register(kit.SubRand("registered"))
	}
	offered := map[entry]bool{}
	for _, e := range registered {
		offered[e] = true
	}
	for c := 0; c < kit.N(3, 20); c++ {
		rig := rpckit.NewRig(t, c%2 == 0, false)
		p := rig.Connect()
		// the table arrives before anything is answered
		first := registered[0]
		if !kit.Wait(func() bool {
			return importOf(p.Server, first.k, first.ns, first.op) != importOf(p.Server, first.k, "no such", "operation")
		}) {
			t.Violate("the table of the peer is not known", "%s", kit.Stacks())
			return
		}
		for i := 0; i < kit.N(300, 2000); i++ {
			e := registered[r.IntN(len(registered))]
			if r.IntN(2) == 0 {
				e = entry{kinds[r.IntN(4)], words[r.IntN(len(words))], words[r.IntN(len(words))]}
			}
			data := fmt.Sprintf("call %d of %d", i, c)
			out := request(p.Server, e, data)
			kit.Count("calls", 1)
			t.Case(fmt.Sprint(e, offered[e]))
			if e.k != ops.FireAndForget {
				o, _, timely := kit.Recv(out)
				switch {
				case !timely:
					t.Violate("a call does not end", "%v\n%s", e, kit.Stacks())
					return
				case offered[e] && (o.err != nil || o.val != fmt.Sprintf("%d %q %q|%s", e.k, e.ns, e.op, data)):
					t.Violate("a call reaches another operation", "%v: %q %v", e, o.val, o.err)
				case !offered[e] && o.err == nil:
					t.Violate("a call of what is not offered succeeds", "%v: %q", e, o.val)
				}
			}
			if offered[e] {
				h, _, timely := kit.Recv(hits)
				if !timely || h != (hit{e.k, e.ns, e.op, data}) {
					t.Violate("a call reaches another operation", "%v: %v", e, h)
				}
				kit.Count("calls of what is offered", 1)
			} else {
				if e.k == ops.FireAndForget {
					if i%16 == 0 {
						time.Sleep(20 * time.Millisecond)
					}
				}
				select {
				case h := <-hits:
					t.Violate("a call of what is not offered reaches an operation", "%v: %v", e, h)
				default:
				}
			}
			if t.Failed() {
				return
			}
		}
		time.Sleep(20 * time.Millisecond)
		select {
		case h := <-hits:
			t.Violate("a call of what is not offered reaches an operation", "%v", h)
		default:
		}
		p.Close()
		rig.Close()
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P26",
		Rule:     "Tables of 0 to 257 operations with every kind, direction, edge indices and names (empty, colliding, binary, up to 65535 bytes) are written and read back, compared byte for byte with a reference writer and value for value with a reference reader; cut, mutated and random bytes likewise, with the memory taken. Imports are resolved against such tables, announced by peers and by wasm guests of one host, and against a connected peer that is then called by name. Distinct by bytes, and by operation called.",
		Assumptions: []string{
			"Names of up to 65535 bytes, the limit of the format.",
			"Bytes after the table may be ignored or refused.",
			"An import that is not offered need not fail before it is called.",
		},
		Scenarios: []kit.Scenario{
			{Name: "tables", Run: tables},
			{Name: "damaged tables", Run: damaged},
			{Name: "imports", Run: resolve},
			{Name: "imports of guests", Run: guests},
			{Name: "calls by name", Run: callsByName},
		},
	})
}
