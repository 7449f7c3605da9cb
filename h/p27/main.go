//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"

	"github.com/nanobus/iota/go/invoke"
	ops "github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

type name struct{ ns, op string }

type entry struct {
	name
	tag int
}

// What is registered, by kind.
var (
	exports [5][]entry
	imports [5][]name // by index
	known   [5]map[name]uint32
	tags    int
	ran     []int // tags of the handlers that ran
)

func export(k ops.RequestType, n name) {
	tags++
	tag := tags
	exports[k] = append(exports[k], entry{n, tag})
	switch k {
	case ops.RequestResponse:
		invoke.ExportRequestResponse(n.ns, n.op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			ran = append(ran, tag)
			return nil
		})
	case ops.FireAndForget:
		invoke.ExportFireAndForget(n.ns, n.op, func(context.Context, payload.Payload) { ran = append(ran, tag) })
	case ops.RequestStream:
		invoke.ExportRequestStream(n.ns, n.op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			ran = append(ran, tag)
			return nil
		})
	case ops.RequestChannel:
		invoke.ExportRequestChannel(n.ns, n.op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			ran = append(ran, tag)
			return nil
		})
	}
}

// call runs the handler of an index and tells whether there is one.
func call(k ops.RequestType, i uint32) bool {
	ctx, p := context.Background(), payload.New(nil)
	switch k {
	case ops.RequestResponse:
		h := invoke.GetRequestResponseHandler(i)
		if h == nil {
			return false
		}
		h(ctx, p)
	case ops.FireAndForget:
		h := invoke.GetFireAndForgetHandler(i)
		if h == nil {
			return false
		}
		h(ctx, p)
	case ops.RequestStream:
		h := invoke.GetRequestStreamHandler(i)
		if h == nil {
			return false
		}
		h(ctx, p)
	case ops.RequestChannel:
		h := invoke.GetRequestChannelHandler(i)
		if h == nil {
			return false
		}
		h(ctx, p, nil)
	}
	return true
}

func imp(t *kit.T, k ops.RequestType, n name) {
	var got uint32
	switch k {
	case ops.RequestResponse:
		got = invoke.ImportRequestResponse(n.ns, n.op)
	case ops.FireAndForget:
		got = invoke.ImportFireAndForget(n.ns, n.op)
	case ops.RequestStream:
		got = invoke.ImportRequestStream(n.ns, n.op)
	case ops.RequestChannel:
		got = invoke.ImportRequestChannel(n.ns, n.op)
	}
	if known[k] == nil {
		known[k] = map[name]uint32{}
	}
	kit.Count("imports declared", 1)
	if was, is := known[k][n]; is {
		if was != got {
			t.Violate("an import declared twice changes its index", "%v %q: %d, then %d", k, n, was, got)
		}
		kit.Count("imports declared twice", 1)
		return
	}
	for m, i := range known[k] {
		if i == got {
			t.Violate("imports share an index", "%v %q and %q: %d", k, n, m, got)
		}
	}
	known[k][n] = got
}

// check compares the tables with what is registered.
func check(t *kit.T, r *rand.Rand, full bool) {
	tb := invoke.GetOperationsTable()
	var left, have int
	for k := 1; k <= 4; k++ {
		left += len(exports[k]) + len(known[k])
	}
	if len(tb) != left {
		t.Violate("size of the table", "%d operations, registered %d", len(tb), left)
	}
	found := map[int]bool{}
	seen := map[string]bool{}
	for _, o := range tb {
		id := fmt.Sprint(o.Direction, o.Type, o.Index)
		if seen[id] {
			t.Violate("operations share an index", "%v", o)
		}
		seen[id] = true
		switch o.Direction {
		case ops.Import:
			if i, is := known[o.Type%5][name{o.Namespace, o.Operation}]; !is || i != o.Index {
				t.Violate("import in the table", "%+v, declared as %d (%v)", o, i, is)
			}
			have++
		case ops.Export:
			ran = ran[:0]
			if !call(o.Type, o.Index) || len(ran) != 1 {
				t.Violate("exported operation without handler", "%+v", o)
				return
			}
			tag := ran[0]
			ok := false
			for _, e := range exports[o.Type%5] {
				if e.tag == tag {
					ok = e.name == name{o.Namespace, o.Operation}
				}
			}
			if !ok {
				t.Violate("exported operation leads to another handler", "%+v", o)
				return
			}
			if found[tag] {
				t.Violate("two operations lead to one handler", "%+v", o)
			}
			found[tag] = true
			kit.Count("handlers reached", 1)
		default:
			t.Violate("direction in the table", "%+v", o)
		}
	}
	for k := ops.RequestResponse; k <= ops.RequestChannel; k++ {
		n := uint32(len(exports[k]))
		for _, i := range []uint32{n, n + 1, n + 2, 2*n + 20, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, n + r.Uint32N(1<<32-1-n)} {
			t.Guard("an index nobody registered", func() string { return fmt.Sprint(k, i) }, func() {
				if call(k, i) {
					t.Violate("an index nobody registered leads to a handler", "%v %d of %d", k, i, n)
				}
			})
			kit.Count("indices nobody registered", 1)
		}
	}
	if full {
		b := tb.ToBytes()
		back, err := ops.FromBytes(b)
		if err != nil || fmt.Sprint(back) != fmt.Sprint(tb) {
			t.Violate("the table does not survive", "%v", err)
		}
	}
	h := fnv.New64a()
	h.Write(tb.ToBytes())
	t.CaseHash(h.Sum64(), true)
}

var words = []string{"", "a", "b", "ab", "A", "a.b", "ns", "ns.v1", "op", "Op", "op ", "\x00", "\x00op", "é", "日本"}

func word(r *rand.Rand) string {
	if r.IntN(3) == 0 {
		return fmt.Sprint(words[r.IntN(len(words))], r.IntN(60))
	}
	return words[r.IntN(len(words))]
}

func registrations(t *kit.T) {
	r := t.Rand
	var old ops.Table
	var oldText string
	var opers invoke.Operations
	var opersText string
	for i := 0; i < kit.N(1200, 8000); i++ {
		k := ops.RequestType(1 + r.IntN(4))
		if i < 90 { // one kind at a time over the initial capacity
			k = ops.RequestType(1 + i/23%4)
		}
		n := name{word(r), word(r)}
		if r.IntN(2) == 0 {
			export(k, n)
		} else {
			imp(t, k, n)
			if r.IntN(2) == 0 {
				imp(t, ops.RequestType(1+r.IntN(4)), n)
			}
			if r.IntN(4) == 0 {
				imp(t, k, name{n.op, n.ns})
				imp(t, k, name{n.ns + n.op, ""})
				// Names that look the same once they are joined.
				for _, sep := range []string{".", "::", "/", ":", "\x00", "-", "_", " ", "|", ","} {
					if w := word(r); r.IntN(6) == 0 {
						imp(t, k, name{n.ns, w + sep + n.op})
						imp(t, k, name{n.ns + sep + w, n.op})
					}
				}
			}
		}
		kit.Count("registrations", 1)
		if i < 150 || i%10 == 0 {
			check(t, r, i%40 == 0)
			if old != nil && (fmt.Sprint(old) != oldText || fmt.Sprint(opers) != opersText) {
				t.Violate("a table that was read changes", "")
			}
			if old == nil || r.IntN(10) == 0 {
				old = invoke.GetOperationsTable()
				oldText = fmt.Sprint(old)
				opers = invoke.GetOperations()
				opersText = fmt.Sprint(opers)
			}
		}
		if t.Failed() {
			return
		}
	}
}

func port(r *rand.Rand) string {
	n := []int{0, 1, 2, 7, 100, 255, 256, 257, 1000, 32768, 65534, 65535}[r.IntN(12)]
	if r.IntN(2) == 0 {
		n = r.IntN(30)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return string(b)
}

func ports(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(20_000, 400_000); i++ {
		p := invoke.PortIO{Port: port(r), Data: []byte(port(r)), Complete: r.IntN(2) == 0, Next: r.IntN(2) == 0}
		if r.IntN(50) == 0 {
			p.Data = make([]byte, 100_000+r.IntN(100_000))
		}
		if r.IntN(10) == 0 {
			p.Data = nil
		}
		what := func() string {
			return fmt.Sprintf("port of %d bytes %.20q, %d bytes of data, %v %v", len(p.Port), p.Port, len(p.Data), p.Complete, p.Next)
		}
		var b []byte
		if !t.Guard("port message", what, func() { b = p.Encode() }) {
			return
		}
		cp := append([]byte(nil), b...)
		if len(p.Data) > 0 {
			p.Data[0] ^= 1
			if !bytes.Equal(b, cp) {
				t.Violate("a message shares its data", "%s", what())
			}
			p.Data[0] ^= 1
		}
		q := invoke.PortIO{Port: "old", Data: []byte("old"), Complete: r.IntN(2) == 0, Next: r.IntN(2) == 0}
		t.Guard("port message", what, func() {
			if err := q.Decode(b); err != nil {
				t.Violate("a port message is refused", "%s: %v", what(), err)
			} else if q.Port != p.Port || !bytes.Equal(q.Data, p.Data) || q.Complete != p.Complete || q.Next != p.Next {
				t.Violate("a port message does not survive", "%s: %.20q %d %v %v", what(), q.Port, len(q.Data), q.Complete, q.Next)
			}
		})
		kit.Count("port messages", 1)
		h := fnv.New64a()
		h.Write(b)
		t.CaseHash(h.Sum64(), true)
		// cut before the end of the port
		for j := 0; j < 6; j++ {
			n := r.IntN(3 + len(p.Port))
			if j == 0 {
				n = 2 + len(p.Port)
			} else if j < 4 {
				n = min(j-1, len(b))
			}
			t.Guard("cut port message", what, func() {
				in := append([]byte(nil), b[:n]...)
				q := invoke.PortIO{}
				if err := q.Decode(in[:n:n]); err == nil {
					t.Violate("a truncated port message is read", "%d bytes of %s", n, what())
				}
			})
			kit.Count("truncated port messages", 1)
		}
	}
	for i := 0; i < kit.N(50_000, 1_000_000); i++ {
		b := make([]byte, r.IntN(40))
		for j := range b {
			b[j] = byte(r.Uint32())
		}
		if len(b) > 2 && r.IntN(4) > 0 {
			b[1], b[2] = 0, byte(r.IntN(42))
		}
		what := func() string { return fmt.Sprintf("%x", b) }
		t.Guard("port message", what, func() {
			q := invoke.PortIO{}
			err := q.Decode(b[:len(b):len(b)])
			short := len(b) < 3 || len(b) < 3+int(binary.BigEndian.Uint16(b[1:]))
			if short != (err != nil) {
				t.Violate("arbitrary port message", "%s: %v", what(), err)
			}
			if err == nil && (q.Port+string(q.Data) != string(b[3:]) || len(q.Port) != int(b[2])|int(b[1])<<8) {
				t.Violate("arbitrary port message", "%s: %q %q", what(), q.Port, q.Data)
			}
		})
		kit.Count("arbitrary port messages", 1)
		h := fnv.New64a()
		h.Write(b)
		t.CaseHash(h.Sum64(), true)
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P27",
		Rule:     "Thousands of registrations of exports and imports of all kinds with colliding and similar names, over the initial capacity; after each the table is compared with a model, every index of it called, and indices beyond it tried. Port messages of all flags and lengths up to 65535, cut and arbitrary ones. Distinct by the bytes of the table or message.",
		Assumptions: []string{
			"Registration happens before use, from one goroutine, as the package-level tables are not synchronised.",
			"Port names of up to 65535 bytes, the limit of the format.",
		},
		Scenarios: []kit.Scenario{
			{Name: "registrations", Run: registrations},
			{Name: "ports", Run: ports},
		},
	})
}
