//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"runtime"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/verifh/kit"
	mk "github.com/nanobus/iota/go/verifh/msgkit"
)

func hash(parts ...[]byte) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum64()
}

// exact is a copy without spare capacity: anything read beyond is a panic.
func exact(b []byte) []byte {
	in := append(make([]byte, 0, len(b)), b...)
	return in[:len(in):len(in)]
}

// run performs one operation at the start of b and compares it with the model.
func run(t *kit.T, o mk.Op, b []byte) {
	what := func() string { return fmt.Sprintf("%s of %d bytes %.60x", o.Name, len(b), b) }
	in := exact(b)
	t.Guard(o.Name, what, func() {
		d := msgpack.NewDecoder(in)
		got, err := o.Do(&d)
		if c, _, _ := mk.Judge(o, b, got, err); c != "" {
			t.Violate("wrong result of "+o.Name, "%s: %s", what(), c)
		}
		if err != nil {
			kit.Count("inputs refused", 1)
		} else {
			kit.Count("inputs read", 1)
		}
	})
	if !bytes.Equal(in, b) {
		t.Violate("reading changes the input", "%s: %.60x", what(), in)
	}
	t.CaseHash(hash([]byte(o.Name), b), true)
}

// measured runs f and tells how much it allocated.
func measured(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// bounded runs one operation and bounds its memory by the input.
func bounded(t *kit.T, o mk.Op, b []byte) {
	in := exact(b)
	var err error
	begun := time.Now()
	what := func() string { return fmt.Sprintf("%s of %d bytes %.60x", o.Name, len(b), b) }
	t.Guard(o.Name, what, func() {
		n := measured(func() {
			d := msgpack.NewDecoder(in)
			_, err = o.Do(&d)
		})
		if limit := uint64(64<<10 + 16384*len(b)); n > limit {
			t.Violate("memory is not bounded by the input", "%s allocated %d bytes (%v)", what(), n, err)
		}
		kit.Count("reads whose memory was measured", 1)
	})
	if d := time.Since(begun); d > 20*time.Second {
		t.Violate("reading takes too long", "%s: %v", what(), d)
	}
	t.CaseHash(hash([]byte("mem"+o.Name), b), true)
}

// mutate damages an encoding.
func mutate(t *kit.T, b []byte) []byte {
	r := t.Rand
	b = append([]byte(nil), b...)
	for n := 1 + r.IntN(3); n > 0 && len(b) > 0; n-- {
		i := r.IntN(len(b))
		switch r.IntN(6) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.Uint32())
		case 2:
			b[i] ^= 1 << r.IntN(8)
		case 3: // a format byte
			b[i] = 0xc0 + byte(r.IntN(0x20))
		case 4:
			b = append(b[:i], b[i+r.IntN(len(b)-i):]...)
		case 5:
			b = append(b[:i], append(mk.Bytes(r, 1+r.IntN(4)), b[i:]...)...)
		}
	}
	return b
}

func small(t *kit.T) {
	for _, o := range mk.Ops {
		run(t, o, nil)
		for a := 0; a < 256 && !t.Failed(); a++ {
			run(t, o, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				run(t, o, []byte{byte(a), byte(b)})
			}
		}
	}
}

func single(t *kit.T) {
	for i, n := 0, kit.N(6000, 100000); i < n && !t.Failed(); i++ {
		for _, o := range mk.Ops {
			b := mk.Encode(nil, o.Gen(t.Rand), t.Rand)
			if len(b) > 2000 {
				b = b[:2000]
			}
			switch t.Rand.IntN(4) {
			case 0:
				run(t, o, b[:t.Rand.IntN(len(b))])
			case 1:
				run(t, o, mutate(t, b))
			case 2: // the value of another operation
				run(t, o, mk.Encode(nil, mk.Gen(t.Rand, 2, true), t.Rand))
			case 3:
				b = mk.Bytes(t.Rand, t.Rand.IntN(30))
				if len(b) > 0 && t.Rand.IntN(2) == 0 {
					b[0] = 0xc0 + b[0]&0x1f
				}
				run(t, o, b)
			}
		}
	}
}

// programs reads streams of values, damaged or not, with operations that fit or
// do not.
func programs(t *kit.T) {
	r := t.Rand
	for i, n := 0, kit.N(120000, 2000000); i < n && !t.Failed(); i++ {
		var b []byte
		var ops []mk.Op
		for j := 1 + r.IntN(8); j > 0; j-- {
			o := mk.Ops[r.IntN(len(mk.Ops))]
			b = mk.Encode(b, o.Gen(r), r)
			if len(b) > 4000 {
				break
			}
			if r.IntN(8) == 0 {
				o = mk.Ops[r.IntN(len(mk.Ops))]
			}
			if o.Name != "IsNextNil" {
				ops = append(ops, o)
			} else {
				ops = append(ops, mk.Find("Skip"))
			}
		}
		if r.IntN(3) > 0 {
			b = mutate(t, b)
		}
		for j := r.IntN(6); j > 0; j-- {
			ops = append(ops, mk.Ops[r.IntN(len(mk.Ops))])
		}
		names := ""
		for _, o := range ops {
			names += o.Name + " "
		}
		what := func() string { return fmt.Sprintf("%s of %d bytes %.80x", names, len(b), b) }
		in := exact(b)
		t.Guard("program of reads", what, func() {
			d := msgpack.NewDecoder(in)
			at, judged, sticky := 0, true, false
			for k, o := range ops {
				got, err := o.Do(&d)
				if sticky && err == nil {
					t.Violate("reads go on after the input is exhausted", "%s: step %d gave %v", what(), k, mk.Of(got))
					return
				}
				if d.Err() != nil {
					if err == nil {
						t.Violate("a read that exhausts the input succeeds", "%s: step %d gave %v", what(), k, mk.Of(got))
						return
					}
					sticky = true
				}
				if judged {
					c, n, on := mk.Judge(o, b[at:], got, err)
					if c != "" {
						t.Violate("wrong result in a program of reads", "%s: step %d at %d: %s", what(), k, at, c)
						return
					}
					at += n
					judged = on
					kit.Count("reads compared with the model", 1)
				}
				if err != nil {
					kit.Count("reads refused", 1)
				}
			}
			if sticky {
				kit.Count("programs that exhaust the input", 1)
			}
		})
		if !bytes.Equal(in, b) {
			t.Violate("reading changes the input", "%s: %.60x", what(), in)
		}
		t.CaseHash(hash([]byte(names), b), true)
		if t.Wants() {
			t.Sample("%s", what())
		}
	}
}

// heads are beginnings that declare more than there is.
func heads() (l [][]byte) {
	for _, c := range []byte{0xc4, 0xc7, 0xd9} {
		l = append(l, []byte{c, 0xff})
	}
	for _, c := range []byte{0xc5, 0xc8, 0xda, 0xdc, 0xde} {
		l = append(l, []byte{c, 0xff, 0xff}, []byte{c, 0x80, 0x00})
	}
	for _, c := range []byte{0xc6, 0xc9, 0xdb, 0xdd, 0xdf} {
		for _, n := range []uint32{0xffffffff, 0xfffffffe, 0xfffffffb, 0xfffffffa, 0xfffffff0, 0x80000000, 0x7fffffff, 0x40000000, 0x10000000, 0x01000000, 0x00100000} {
			l = append(l, []byte{c, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
		}
	}
	for _, c := range []byte{0x8f, 0x9f, 0xbf} {
		l = append(l, []byte{c})
	}
	return
}

func declared(t *kit.T) {
	tails := [][]byte{nil, {0xc0}, {0x01, 0x02, 0x03}, {0xa1, 'x', 0xc4, 0x01, 7, 0xa1}, bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{0xa1, 'x'}, 500)}
	for _, o := range mk.Ops {
		for _, h := range heads() {
			for _, tail := range tails {
				// also inside of containers, and inside of itself
				for _, pre := range [][]byte{nil, {0x91}, {0x81, 0x01}, h} {
					if t.Failed() {
						return
					}
					b := append(append(append([]byte(nil), pre...), h...), tail...)
					run(t, o, b)
					bounded(t, o, b)
				}
			}
		}
	}
}

func deep(t *kit.T) {
	cut := kit.N(1_000_000, 20_000_000)
	for _, name := range []string{"ReadAny", "Skip"} {
		o := mk.Find(name)
		for _, unit := range [][]byte{{0x91}, {0x9f}, {0xdc, 0, 1}, {0xdc, 0xff, 0xff}, {0xdd, 0, 0, 0, 1}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0x81, 0x00}, {0x8f, 0x00}, {0xde, 0, 1, 0}, {0xde, 0xff, 0xff, 0xa0}, {0xdf, 0, 0, 0, 1, 0xc0}, {0xdf, 0xff, 0xff, 0xff, 0xff, 0x00}} {
			for _, n := range []int{100, 3000, 9998, 10002, 50000, cut} {
				if t.Failed() {
					return
				}
				b := bytes.Repeat(unit, n)
				if n < mk.MaxDepth {
					run(t, o, b)
					run(t, o, append(b[:len(b):len(b)], 0xc0))
				}
				bounded(t, o, b)
				bounded(t, o, append(b, 0xc0))
				kit.Count("deeply nested inputs", 2)
			}
		}
	}
	// wide rather than deep
	for _, o := range mk.Ops {
		for _, fill := range []byte{0x00, 0x90, 0x80, 0xa0, 0xc0, 0xc1} {
			b := append([]byte{0xdd, 0, 1, 0, 0}, bytes.Repeat([]byte{fill}, 1<<16)...)
			bounded(t, o, b)
			b[0] = 0xdf
			bounded(t, o, b)
		}
	}
}

// thing is a structure as generated code declares it: known fields are read,
// others skipped.
type thing struct {
	A  int32
	B  *string
	C  []float64
	D  map[string]uint8
	E  *thing
	F  any
	G  time.Time
	H  []byte
	xs int
}

func (o *thing) Encode(w msgpack.Writer) error { return nil }

func (o *thing) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		f, err := d.ReadString()
		if err != nil {
			return err
		}
		switch f {
		case "a":
			o.A, err = d.ReadInt32()
		case "b":
			o.B, err = d.ReadNillableString()
		case "c":
			o.C, err = msgpack.ReadSlice(d, msgpack.Reader.ReadFloat64)
		case "d":
			o.D, err = msgpack.ReadMap(d, msgpack.Reader.ReadString, msgpack.Reader.ReadUint8)
		case "e":
			o.E, err = msgpack.DecodeNillable[thing](d)
		case "f":
			o.F, err = d.ReadAny()
		case "g":
			o.G, err = d.ReadTime()
		case "h":
			o.H, err = d.ReadByteArray()
		default:
			o.xs++
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// structures decodes damaged structures as generated code would.
func structures(t *kit.T) {
	r := t.Rand
	var gen func(depth int) mk.Val
	gen = func(depth int) mk.Val {
		v := mk.Val{K: mk.Map}
		add := func(k string, x mk.Val) { v.M = append(v.M, mk.Pair{K: mk.S(k), V: x}) }
		for _, k := range r.Perm(10)[:r.IntN(11)] {
			switch k {
			case 0:
				add("a", mk.I(int64(int32(mk.Int64(r)))))
			case 1:
				add("b", mk.Find("ReadNillableString").Gen(r))
			case 2:
				add("c", mk.Val{K: mk.Arr, A: []mk.Val{mk.FD(1), mk.FF(2)}})
			case 3:
				add("d", mk.Val{K: mk.Map, M: []mk.Pair{{K: mk.S("x"), V: mk.U(3)}}})
			case 4:
				if depth > 0 {
					add("e", gen(depth-1))
				} else {
					add("e", mk.Val{})
				}
			case 5:
				add("f", mk.Gen(r, 2, false))
			case 6:
				add("g", mk.Time(mk.When(r)))
			case 7:
				add("h", mk.B(mk.Bytes(r, r.IntN(20))))
			default:
				add(mk.Text(r, 3), mk.Gen(r, 2, true))
			}
		}
		return v
	}
	for i, n := 0, kit.N(60000, 800000); i < n && !t.Failed(); i++ {
		v := gen(3)
		whole := mk.Encode(nil, v, r)
		b := whole
		damaged := r.IntN(3) > 0
		if damaged {
			b = mutate(t, whole)
		}
		what := func() string { return fmt.Sprintf("%d bytes %.100x", len(b), b) }
		in := exact(b)
		t.Guard("structure", what, func() {
			d := msgpack.NewDecoder(in)
			x, err := msgpack.Decode[thing](&d)
			if !damaged && err != nil {
				t.Violate("structure refused", "%v: %v", v, err)
			}
			if !damaged {
				if _, err := d.ReadBool(); err == nil {
					t.Violate("structure leaves bytes", "%v", v)
				}
				for _, p := range v.M {
					if string(p.K.S) == "a" && int64(x.A) != func() int64 { n, _ := p.V.Int64(); return n }() {
						t.Violate("field of a structure", "%v: a is %d", v, x.A)
					}
				}
				kit.Count("structures decoded", 1)
			} else {
				kit.Count("damaged structures", 1)
			}
			// every truncation fails
			if !damaged && len(b) < 200 {
				for n := range b {
					d := msgpack.NewDecoder(exact(b[:n]))
					if _, err := msgpack.Decode[thing](&d); err == nil {
						t.Violate("truncated structure accepted", "%d bytes of %s", n, what())
						return
					}
					kit.Count("truncated structures", 1)
				}
			}
		})
		t.CaseHash(hash(b), true)
	}
}

func main() {
	kit.Main(kit.Config{
		Property:    "P23",
		Rule:        "Every operation of the reader on all inputs of up to two bytes, and on truncated, mutated, mismatched and random inputs and programs of reads; results are compared with a reference decoder, from slices without spare capacity. Hostile declared lengths and nesting are read with the allocated memory measured. Distinct by operations and bytes.",
		Assumptions: []string{"Reading an array header as the length of a string or binary, and nil as an empty binary or container, is the leniency of the format's implementations; either outcome is accepted for the former.", "The dynamic reader may refuse nesting beyond 5000."},
		Scenarios: []kit.Scenario{
			{Name: "all of two bytes", Run: small},
			{Name: "single reads", Run: single},
			{Name: "programs of reads", Run: programs},
			{Name: "declared lengths", Run: declared},
			{Name: "nesting", Run: deep},
			{Name: "structures", Run: structures},
		},
	})
}
