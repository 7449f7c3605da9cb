//go:build go1.22

package main

import (
	"bytes"
	"cmp"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"sync"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifh/kit"
	mk "github.com/nanobus/iota/go/verifh/msgkit"
)

const guard = 0x5a

// encode runs write against a sizer and an encoder of exactly the size.
func encode(t *kit.T, what func() string, write func(w msgpack.Writer)) (out []byte, ok bool) {
	t.Guard("write", what, func() {
		sz := msgpack.NewSizer()
		write(&sz)
		if err := sz.Err(); err != nil {
			t.Violate("sizer refuses a supported value", "%s: %v", what(), err)
			return
		}
		n := int(sz.Len())
		if n > 1<<28 {
			t.Violate("sizer is far off", "%s: %d bytes", what(), n)
			return
		}
		mem := bytes.Repeat([]byte{guard}, n+8)
		e := msgpack.NewEncoder(mem[:n:n])
		write(&e)
		if err := e.Err(); err != nil {
			t.Violate("encoder needs more than the size", "%s: sized %d: %v; wrote %.60x", what(), n, err, mem[:n])
			return
		}
		if !bytes.Equal(mem[n:], bytes.Repeat([]byte{guard}, 8)) {
			t.Violate("encoder writes beyond its buffer", "%s: %x", what(), mem[n:])
			return
		}
		out, ok = mem[:n], true
	})
	return
}

// short encodes into a buffer that is too small: an error and nothing beyond.
func short(t *kit.T, what func() string, n, cut int, write func(w msgpack.Writer)) {
	t.Guard("write to a short buffer", what, func() {
		mem := bytes.Repeat([]byte{guard}, n+8)
		e := msgpack.NewEncoder(mem[:cut:cut])
		write(&e)
		if e.Err() == nil {
			t.Violate("encoder hides that its buffer is too small", "%s: %d of %d bytes", what(), cut, n)
		}
		if !bytes.Equal(mem[cut:], bytes.Repeat([]byte{guard}, n+8-cut)) {
			t.Violate("encoder writes beyond its buffer", "%s: %d of %d bytes", what(), cut, n)
		}
		kit.Count("writes to buffers too small", 1)
	})
}

func hash(parts ...[]byte) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum64()
}

// one checks one write and the read that matches it.
func one(t *kit.T, name string, want mk.Val, write func(w msgpack.Writer), op string) []byte {
	what := func() string { return name + " " + want.String() }
	b, ok := encode(t, what, write)
	if !ok {
		return nil
	}
	t.CaseHash(hash([]byte(name), b), true)
	if want.K != mk.Arr && want.K != mk.Map {
		v, n, err := mk.Decode(b)
		if err != nil || n != len(b) || !mk.Same(v, want) {
			t.Violate("independent reader sees another value", "%s: %.60x is %v in %d of %d bytes, %v", what(), b, v, n, len(b), err)
			return nil
		}
	}
	t.Guard("read", what, func() {
		d := msgpack.NewDecoder(b[:len(b):len(b)])
		o := mk.Find(op)
		got, err := o.Do(&d)
		if c, _, _ := mk.Judge(o, b, got, err); c != "" {
			t.Violate("read back changed", "%s: %.60x: %s", what(), b, c)
			return
		}
		if err != nil {
			t.Violate("not read back", "%s: %.60x: %v", what(), b, err)
			return
		}
		if _, err := d.ReadBool(); err == nil {
			t.Violate("bytes left over", "%s: %.60x", what(), b)
		}
	})
	return b
}

var keep = kit.NewKeeper("conversions to bytes", 3000)

// typed checks values of one type through the plain and nullable writes.
func typed[T any](t *kit.T, name string, write func(msgpack.Writer, T), nil_ func(msgpack.Writer, *T), conv func(T) ([]byte, error), vals ...T) {
	for _, v := range vals {
		if t.Failed() {
			return
		}
		want := mk.Of(v)
		b := one(t, "Write"+name, want, func(w msgpack.Writer) { write(w, v) }, "Read"+name)
		if b == nil {
			return
		}
		n := one(t, "WriteNillable"+name, want, func(w msgpack.Writer) { nil_(w, &v) }, "ReadNillable"+name)
		a := one(t, "WriteAny", want, func(w msgpack.Writer) { w.WriteAny(v) }, "ReadAny")
		if n == nil || a == nil {
			return
		}
		for i, o := range [][]byte{n, a} {
			if !bytes.Equal(b, o) {
				t.Violate("writes of one value differ", "Write%s %v: %.40x, %s: %.40x", name, want, b, []string{"nullable", "any"}[i], o)
			}
		}
		c, err := conv(v)
		if err != nil || !bytes.Equal(c, b) {
			t.Violate("conversion to bytes differs", "%s %v: %.40x, Write: %.40x, %v", name, want, c, b, err)
		}
		keep.Bytes(t, func() string { return "bytes of " + name + " " + want.String() }, c)
		kit.Count("values of type "+name, 1)
	}
	one(t, "WriteNillable"+name, mk.Val{}, func(w msgpack.Writer) { nil_(w, nil) }, "ReadNillable"+name)
}

func all[T int8 | int16 | uint8 | uint16](lo, hi int) (l []T) {
	for i := lo; i <= hi; i++ {
		l = append(l, T(i))
	}
	return
}

func cast[T int32 | int64 | uint32 | uint64](r *rand.Rand, n int) (l []T) {
	s, u := mk.Edges()
	for _, v := range s {
		l = append(l, T(v))
	}
	for _, v := range u {
		l = append(l, T(v))
	}
	for i := 0; i < n; i++ {
		l = append(l, T(mk.Int64(r)), T(mk.Uint64(r)))
	}
	return
}

type W = msgpack.Writer

func scalars(t *kit.T) {
	n := kit.N(20000, 400000)
	typed(t, "Bool", W.WriteBool, W.WriteNillableBool, msgpack.BoolToBytes, false, true)
	typed(t, "Int8", W.WriteInt8, W.WriteNillableInt8, msgpack.I8ToBytes, all[int8](-128, 127)...)
	typed(t, "Uint8", W.WriteUint8, W.WriteNillableUint8, msgpack.U8ToBytes, all[uint8](0, 255)...)
	typed(t, "Int16", W.WriteInt16, W.WriteNillableInt16, msgpack.I16ToBytes, all[int16](-32768, 32767)...)
	typed(t, "Uint16", W.WriteUint16, W.WriteNillableUint16, msgpack.U16ToBytes, all[uint16](0, 65535)...)
	typed(t, "Int32", W.WriteInt32, W.WriteNillableInt32, msgpack.I32ToBytes, cast[int32](t.Rand, n)...)
	typed(t, "Uint32", W.WriteUint32, W.WriteNillableUint32, msgpack.U32ToBytes, cast[uint32](t.Rand, n)...)
	typed(t, "Int64", W.WriteInt64, W.WriteNillableInt64, msgpack.I64ToBytes, cast[int64](t.Rand, n)...)
	typed(t, "Uint64", W.WriteUint64, W.WriteNillableUint64, msgpack.U64ToBytes, cast[uint64](t.Rand, n)...)
	var f32 []float32
	var f64 []float64
	var tm []time.Time
	for i := 0; i < n; i++ {
		f32 = append(f32, mk.Float32(t.Rand))
		f64 = append(f64, mk.Float64(t.Rand))
		tm = append(tm, mk.When(t.Rand))
	}
	// the seconds around the widths of a timestamp, to the nanosecond
	for _, s := range []int64{0, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, -1, math.MinInt32, 1<<62 - 1, -62135596800} {
		for _, d := range []int64{-1, 0, 1} {
			for _, ns := range []int64{0, 1, 999999999} {
				tm = append(tm, time.Unix(s+d, ns))
			}
		}
	}
	typed(t, "Float32", W.WriteFloat32, W.WriteNillableFloat32, msgpack.F32ToBytes, f32...)
	typed(t, "Float64", W.WriteFloat64, W.WriteNillableFloat64, msgpack.F64ToBytes, f64...)
	typed(t, "Time", W.WriteTime, W.WriteNillableTime, msgpack.TimeToBytes, tm...)
	one(t, "WriteNil", mk.Val{}, func(w W) { w.WriteNil() }, "ReadAny")
	keep.Check(t)
}

func lengths(t *kit.T) {
	ls := mk.Lengths()
	for i := 0; i < 300; i++ {
		ls = append(ls, i)
	}
	for i := 0; i < kit.N(100, 2000); i++ {
		ls = append(ls, t.Rand.IntN(70000))
	}
	var ss []string
	var bs [][]byte
	for _, n := range ls {
		ss = append(ss, mk.Text(t.Rand, n))
		bs = append(bs, mk.Bytes(t.Rand, n))
	}
	if kit.Thorough {
		bs = append(bs, make([]byte, 1<<24))
		ss = append(ss, string(make([]byte, 1<<24+1)))
	}
	typed(t, "String", W.WriteString, W.WriteNillableString, msgpack.StringToBytes, ss...)
	nilb := func(w W, v *[]byte) {
		if v == nil {
			w.WriteNillableByteArray(nil)
		} else {
			w.WriteNillableByteArray(*v)
		}
	}
	typed(t, "ByteArray", W.WriteByteArray, nilb, msgpack.BytesToBytes, bs...)
	one(t, "WriteByteArray", mk.B(nil), func(w W) { w.WriteByteArray(nil) }, "ReadByteArray")
	keep.Check(t)

	// sizes alone: the elements do not have to follow
	var sizes []uint32
	_, u := mk.Edges()
	for _, v := range u {
		if v < 1<<32 {
			sizes = append(sizes, uint32(v))
		}
	}
	for i := 0; i < 70000; i += 7 {
		sizes = append(sizes, uint32(i))
	}
	for _, n := range sizes {
		if t.Failed() {
			return
		}
		for k, name := range map[mk.Kind]string{mk.Arr: "ArraySize", mk.Map: "MapSize"} {
			write := func(w W) {
				if k == mk.Arr {
					w.WriteArraySize(n)
				} else {
					w.WriteMapSize(n)
				}
			}
			what := func() string { return fmt.Sprintf("Write%s %d", name, n) }
			b, ok := encode(t, what, write)
			if !ok {
				return
			}
			t.CaseHash(hash([]byte(name), b), true)
			h, err := mk.Peek(b)
			if err != nil || h.K != k || uint32(h.Len) != n || h.Size != len(b) {
				t.Violate("independent reader sees another size", "%s: %x", what(), b)
				return
			}
			d := msgpack.NewDecoder(b)
			o := mk.Find("Read" + name)
			got, err := o.Do(&d)
			if c, _, _ := mk.Judge(o, b, got, err); c != "" {
				t.Violate("read back changed", "%s: %x: %s", what(), b, c)
			}
			kit.Count("container sizes", 1)
		}
	}
}

// dynamic checks one Go value through the dynamic writer and reader.
func dynamic(t *kit.T, v any) {
	want := mk.Of(v)
	what := func() string { return fmt.Sprintf("%T %v", v, want) }
	b, ok := encode(t, what, func(w W) { w.WriteAny(v) })
	if !ok {
		return
	}
	t.CaseHash(hash([]byte("any"), b), true)
	got, n, err := mk.Decode(b)
	if err != nil || n != len(b) || !want.Ambiguous() && !mk.Same(got, want) {
		t.Violate("independent reader sees another value", "%s: %.60x is %v in %d of %d bytes, %v", what(), b, got, n, len(b), err)
		return
	}
	a, err := msgpack.AnyToBytes(v)
	if err != nil || len(a) != len(b) {
		t.Violate("conversion to bytes differs", "%s: %d bytes instead of %d, %v", what(), len(a), len(b), err)
		return
	}
	keep.Bytes(t, what, a)
	t.Guard("read", what, func() {
		d := msgpack.NewDecoder(b[:len(b):len(b)])
		x, err := d.ReadAny()
		if err != nil {
			t.Violate("not read back", "%s: %.60x: %v", what(), b, err)
			return
		}
		if r := mk.Of(x); !want.Ambiguous() && !mk.Same(r, want) {
			t.Violate("read back changed", "%s became %v", what(), r)
		}
		if _, err := d.ReadBool(); err == nil {
			t.Violate("bytes left over", "%s: %.60x", what(), b)
		}
	})
	if len(b) > 0 {
		short(t, what, len(b), t.Rand.IntN(len(b)), func(w W) { w.WriteAny(v) })
	}
	kit.Count("dynamic values", 1)
	if t.Wants() {
		t.Sample("%s: %.40x", what(), b)
	}
}

// step is one write of a program.
type step struct {
	want  mk.Val
	op    string
	write func(w W)
}

func steps(r *rand.Rand, n int) (l []step) {
	add := func(v mk.Val, op string, f func(w W)) { l = append(l, step{v, op, f}) }
	for i := 0; i < n; i++ {
		s, u := mk.Int64(r), mk.Uint64(r)
		switch r.IntN(17) {
		case 0:
			v := r.IntN(2) == 0
			add(mk.Of(v), "ReadBool", func(w W) { w.WriteBool(v) })
		case 1:
			v := int8(s)
			add(mk.Of(v), "ReadInt8", func(w W) { w.WriteInt8(v) })
		case 2:
			v := int16(s)
			add(mk.Of(v), "ReadNillableInt16", func(w W) { w.WriteNillableInt16(&v) })
		case 3:
			v := int32(s)
			add(mk.Of(v), "ReadInt32", func(w W) { w.WriteInt32(v) })
		case 4:
			add(mk.Of(s), "ReadInt64", func(w W) { w.WriteInt64(s) })
		case 5:
			v := uint8(u)
			add(mk.Of(v), "ReadNillableUint8", func(w W) { w.WriteNillableUint8(&v) })
		case 6:
			v := uint32(u)
			add(mk.Of(v), "ReadUint32", func(w W) { w.WriteUint32(v) })
		case 7:
			add(mk.Of(u), "ReadUint64", func(w W) { w.WriteUint64(u) })
		case 8:
			v := mk.Float32(r)
			add(mk.Of(v), "ReadFloat32", func(w W) { w.WriteFloat32(v) })
		case 9:
			v := mk.Float64(r)
			add(mk.Of(v), "ReadNillableFloat64", func(w W) { w.WriteNillableFloat64(&v) })
		case 10:
			v := mk.Text(r, r.IntN(300))
			add(mk.Of(v), "ReadNillableString", func(w W) { w.WriteNillableString(&v) })
		case 11:
			v := mk.Bytes(r, r.IntN(300))
			add(mk.Of(v), "ReadByteArray", func(w W) { w.WriteByteArray(v) })
		case 12:
			v := mk.When(r)
			add(mk.Of(v), "ReadTime", func(w W) { w.WriteTime(v) })
		case 13:
			add(mk.Val{}, []string{"ReadNillableInt8", "ReadNillableString", "ReadNillableByteArray", "ReadNillableTime", "ReadNillableBool"}[r.IntN(5)], func(w W) { w.WriteNil() })
		case 14:
			v := mk.Go(r, 2)
			add(mk.Of(v), "ReadAny", func(w W) { w.WriteAny(v) })
		case 15:
			v := make([]int32, r.IntN(20))
			for i := range v {
				v[i] = int32(mk.Int64(r))
			}
			add(mk.Of(v), "ReadSlice", func(w W) { msgpack.WriteSlice(w, v, W.WriteInt32) })
		case 16:
			v := map[string][]byte{}
			for i := r.IntN(20); i > 0; i-- {
				v[mk.Text(r, 5)] = mk.Bytes(r, r.IntN(40))
			}
			add(mk.Of(v), "ReadMap", func(w W) { msgpack.WriteMap(w, v, W.WriteString, W.WriteByteArray) })
		}
	}
	return
}

// program is a Codec made of steps, so that it passes through ToBytes as well.
type program []step

func (p *program) Encode(w msgpack.Writer) error {
	for _, s := range *p {
		s.write(w)
	}
	return w.Err()
}

func (p *program) Decode(msgpack.Reader) error { return nil }

func programs(t *kit.T) {
	for i, n := 0, kit.N(20000, 300000); i < n && !t.Failed(); i++ {
		p := program(steps(t.Rand, 1+t.Rand.IntN(12)))
		what := func() string {
			s := ""
			for _, x := range p {
				s += x.op + " " + x.want.String() + "; "
			}
			return s
		}
		b, ok := encode(t, what, func(w W) { p.Encode(w) })
		if !ok {
			return
		}
		t.CaseHash(hash(b), true)
		c, err := msgpack.ToBytes(&p)
		if err != nil || len(c) != len(b) {
			t.Violate("conversion to bytes differs", "%s: %d bytes instead of %d, %v", what(), len(c), len(b), err)
			return
		}
		// nested in a dynamic value, too
		if a, err := msgpack.AnyToBytes([]any{&p, 7}); err != nil || len(a) != len(b)+2 {
			t.Violate("a codec in a dynamic value changes size", "%s: %d bytes instead of %d, %v", what(), len(a), len(b)+2, err)
		}
		t.Guard("read", what, func() {
			d := msgpack.NewDecoder(b[:len(b):len(b)])
			at := 0
			for i, s := range p {
				o := mk.Find(s.op)
				got, err := o.Do(&d)
				if c, n, _ := mk.Judge(o, b[at:], got, err); c != "" {
					t.Violate("read back changed", "%s: step %d: %s", what(), i, c)
					return
				} else if err != nil {
					t.Violate("not read back", "%s: step %d: %v", what(), i, err)
					return
				} else {
					at += n
				}
				if v := mk.Of(got); !s.want.Ambiguous() && !mk.Same(v, s.want) {
					t.Violate("read back changed", "%s: step %d: %v", what(), i, v)
					return
				}
			}
			if at != len(b) {
				t.Violate("bytes left over", "%s: %d", what(), len(b)-at)
			}
		})
		kit.Count("programs of writes", 1)
		kit.Count("writes in programs", int64(len(p)))
		short(t, what, len(b), t.Rand.IntN(len(b)), func(w W) { p.Encode(w) })
	}
}

// foreign reads values in any of the formats another encoder may choose.
func foreign(t *kit.T) {
	for i, n := 0, kit.N(4000, 60000); i < n && !t.Failed(); i++ {
		for _, o := range mk.Ops {
			v := o.Gen(t.Rand)
			b := mk.Encode(nil, v, t.Rand)
			what := func() string { return fmt.Sprintf("%s of %.60x, which is %v", o.Name, b, v) }
			t.Guard("read", what, func() {
				d := msgpack.NewDecoder(b[:len(b):len(b)])
				got, err := o.Do(&d)
				if c, _, _ := mk.Judge(o, b, got, err); c != "" {
					t.Violate("another encoder's value is misread", "%s: %s", what(), c)
				}
			})
			t.CaseHash(hash([]byte(o.Name), b), true)
		}
		kit.Count("foreign encodings", int64(len(mk.Ops)))
	}
}

// together converts and reads values on many goroutines at once.
func together(t *kit.T) {
	const n = 8
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := kit.NewKeeper("results of many goroutines", 500)
			for i := 0; i < kit.N(1500, 20000) && !t.Failed(); i++ {
				var b []byte
				var err error
				var want mk.Val
				o := mk.Find("ReadAny")
				switch r.IntN(6) {
				case 0:
					v := mk.Text(r, r.IntN(100))
					want, o = mk.Of(v), mk.Find("ReadString")
					b, err = msgpack.StringToBytes(v)
				case 1:
					v := mk.Int64(r)
					want, o = mk.Of(v), mk.Find("ReadInt64")
					b, err = msgpack.I64ToBytes(v)
				case 2:
					v := mk.When(r)
					want, o = mk.Of(v), mk.Find("ReadTime")
					b, err = msgpack.TimeToBytes(v)
				case 3:
					v := mk.Bytes(r, r.IntN(100))
					want, o = mk.Of(v), mk.Find("ReadByteArray")
					b, err = msgpack.BytesToBytes(v)
				case 4:
					p := program(steps(r, 1))
					want, o = p[0].want, mk.Find(p[0].op)
					b, err = msgpack.ToBytes(&p)
				default:
					v := mk.Go(r, 2)
					want = mk.Of(v)
					b, err = msgpack.AnyToBytes(v)
				}
				what := func() string { return fmt.Sprintf("%s of %v at the same time as others", o.Name, want) }
				if err != nil {
					t.Violate("sizer refuses a supported value", "%s: %v", what(), err)
					return
				}
				mine.Bytes(t, what, b)
				d := msgpack.NewDecoder(b[:len(b):len(b)])
				got, err := o.Do(&d)
				if c, _, _ := mk.Judge(o, b, got, err); c != "" {
					t.Violate("read back changed", "%s: %.60x: %s", what(), b, c)
				} else if v := mk.Of(got); err != nil || !want.Ambiguous() && !mk.Same(v, want) {
					t.Violate("read back changed", "%s: %.60x: %v, %v", what(), b, v, err)
				}
				t.CaseHash(hash([]byte(o.Name), b), true)
				kit.Count("values of many goroutines", 1)
			}
			mine.Check(t)
		}()
	}
	wg.Wait()
}

// collection checks what the generic functions for lists and maps wrote.
func collection(t *kit.T, what func() string, want mk.Val, b []byte, err error) bool {
	if err != nil {
		t.Violate("a collection is refused", "%s: %v", what(), err)
		return false
	}
	got, n, err := mk.Decode(b)
	if err != nil || n != len(b) || !mk.Same(got, want) {
		t.Violate("independent reader sees another value", "%s: %.60x is %v in %d of %d bytes, %v", what(), b, got, n, len(b), err)
		return false
	}
	keep.Bytes(t, what, b)
	t.CaseHash(hash([]byte("collection"), b), true)
	kit.Count("collections", 1)
	return true
}

func listOf[E any](t *kit.T, l []E, write func(W, E), read func(msgpack.Reader) (E, error)) {
	what := func() string { return fmt.Sprintf("%T of %d: %.100v", l, len(l), l) }
	t.Guard("list", what, func() {
		want := mk.Val{K: mk.Arr}
		for _, e := range l {
			want.A = append(want.A, mk.Of(e))
		}
		b, err := msgpack.SliceToBytes(l, write)
		if !collection(t, what, want, b, err) {
			return
		}
		p, err := transform.SliceEncode(write)(l)
		if err != nil {
			t.Violate("a collection is refused", "%s as payload: %v", what(), err)
			return
		}
		if !collection(t, what, want, p.Data(), nil) {
			return
		}
		d := msgpack.NewDecoder(b[:len(b):len(b)])
		got, err := msgpack.ReadSlice(&d, read)
		if err != nil || len(got) != len(l) {
			t.Violate("not read back", "%s: %d elements, %v", what(), len(got), err)
			return
		}
		for i := range l {
			if v := mk.Of(got[i]); !mk.Same(v, want.A[i]) {
				t.Violate("read back changed", "%s: element %d is %v", what(), i, v)
				return
			}
		}
		for _, n := range []int{0, len(b) / 2, len(b) - 1} {
			d := msgpack.NewDecoder(b[:n:n])
			if got, err := msgpack.ReadSlice(&d, read); err == nil {
				t.Violate("a truncated collection is read", "%s: %d of %d bytes: %.100v", what(), n, len(b), got)
			}
		}
	})
}

func tableOf[K cmp.Ordered, E any](t *kit.T, m map[K]E, key func(W, K), write func(W, E), readKey func(msgpack.Reader) (K, error), read func(msgpack.Reader) (E, error)) {
	what := func() string { return fmt.Sprintf("%T of %d: %.100v", m, len(m), m) }
	t.Guard("table", what, func() {
		want := mk.Val{K: mk.Map}
		for k, e := range m {
			want.M = append(want.M, mk.Pair{K: mk.Of(k), V: mk.Of(e)})
		}
		b, err := msgpack.MapToBytes(m, key, write)
		if !collection(t, what, want, b, err) {
			return
		}
		p, err := transform.MapEncode(key, write)(m)
		if err != nil {
			t.Violate("a collection is refused", "%s as payload: %v", what(), err)
			return
		}
		if !collection(t, what, want, p.Data(), nil) {
			return
		}
		d := msgpack.NewDecoder(b[:len(b):len(b)])
		got, err := msgpack.ReadMap(&d, readKey, read)
		if err != nil || len(got) != len(m) {
			t.Violate("not read back", "%s: %d entries, %v", what(), len(got), err)
			return
		}
		for k, e := range m {
			if x, ok := got[k]; !ok || !mk.Same(mk.Of(x), mk.Of(e)) {
				t.Violate("read back changed", "%s: entry %v is %v", what(), k, x)
				return
			}
		}
		for _, n := range []int{0, len(b) / 2, len(b) - 1} {
			d := msgpack.NewDecoder(b[:n:n])
			if got, err := msgpack.ReadMap(&d, readKey, read); err == nil {
				t.Violate("a truncated collection is read", "%s: %d of %d bytes: %.100v", what(), n, len(b), got)
			}
		}
	})
}

// collections writes lists and maps of typed elements.
func collections(t *kit.T) {
	r := t.Rand
	type R = msgpack.Reader
	sizes := []int{0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537}
	for i := 0; i < kit.N(8, 100) && !t.Failed(); i++ {
		for _, n := range append(sizes, r.IntN(40), r.IntN(400)) {
			if n > 60000 && i%8 != 0 {
				continue
			}
			ints, texts, times := make([]int64, n), make([]string, n), make([]time.Time, n)
			bins, floats, flags := make([][]byte, n), make([]float64, n), make([]bool, n)
			for j := range ints {
				ints[j], texts[j], times[j] = mk.Int64(r), mk.Text(r, r.IntN(40)), mk.When(r)
				bins[j], floats[j], flags[j] = mk.Bytes(r, r.IntN(40)), mk.Float64(r), r.IntN(2) == 0
			}
			listOf(t, ints, W.WriteInt64, R.ReadInt64)
			listOf(t, texts, W.WriteString, R.ReadString)
			listOf(t, times, W.WriteTime, R.ReadTime)
			listOf(t, bins, W.WriteByteArray, R.ReadByteArray)
			listOf(t, floats, W.WriteFloat64, R.ReadFloat64)
			listOf(t, flags, W.WriteBool, R.ReadBool)
			if n == 0 {
				listOf[int8](t, nil, W.WriteInt8, R.ReadInt8)
				tableOf[int8, bool](t, nil, W.WriteInt8, W.WriteBool, R.ReadInt8, R.ReadBool)
			}
			byText, byInt, byFloat := map[string]int64{}, map[int64]string{}, map[float64]time.Time{}
			for j := range ints {
				byText[fmt.Sprint(j, texts[j])] = ints[j]
				byInt[int64(j-n/2)] = texts[j]
				byFloat[float64(j)/2] = times[j]
			}
			tableOf(t, byText, W.WriteString, W.WriteInt64, R.ReadString, R.ReadInt64)
			tableOf(t, byInt, W.WriteInt64, W.WriteString, R.ReadInt64, R.ReadString)
			tableOf(t, byFloat, W.WriteFloat64, W.WriteTime, R.ReadFloat64, R.ReadTime)
			if t.Failed() {
				return
			}
		}
		// what cannot be written is an error, wherever it stands
		l := make([]any, 1+r.IntN(20))
		l[r.IntN(len(l))] = strange{1}
		m := map[string]any{}
		for j, v := range l {
			m[fmt.Sprint(j)] = v
		}
		for name, f := range map[string]func() ([]byte, error){
			"a list": func() ([]byte, error) { return msgpack.SliceToBytes(l, W.WriteAny) },
			"a map":  func() ([]byte, error) { return msgpack.MapToBytes(m, W.WriteString, W.WriteAny) },
		} {
			t.Guard("unsupported", func() string { return name }, func() {
				if b, err := f(); err == nil {
					if _, n, err := mk.Decode(b); err != nil || n != len(b) {
						t.Violate("an unsupported value is written as no value", "in %s: %x", name, b)
					}
				}
				kit.Count("unsupported values", 1)
			})
		}
	}
	// a Codec that fails is an error, not bytes
	for at := 1; at <= 3; at++ {
		f := &failing{at: at}
		t.Guard("failing codec", func() string { return fmt.Sprint(at) }, func() {
			if b, err := msgpack.ToBytes(f); f.calls >= at && !errors.Is(err, errFailing) {
				t.Violate("the error of a codec is lost", "failing the %d. time: %x, %v", at, b, err)
			}
			kit.Count("failing codecs", 1)
		})
	}
}

var errFailing = errors.New("failing")

// failing fails the at-th time it is encoded.
type failing struct{ at, calls int }

func (f *failing) Decode(msgpack.Reader) error { return nil }
func (f *failing) Encode(w msgpack.Writer) error {
	if f.calls++; f.calls == f.at {
		return errFailing
	}
	w.WriteInt32(1)
	return w.Err()
}

type strange struct{ X int }

func unsupported(t *kit.T) {
	x := 1
	vals := []any{strange{1}, &strange{2}, &x, make(chan int), func() {}, complex(1, 2), [3]int{}, struct{}{}, uintptr(1), []strange{{1}}, map[string]strange{"a": {1}}, []chan int{nil}, time.March}
	for _, v := range vals {
		for _, w := range []any{v, []any{1, v}, map[string]any{"a": v}, map[int]any{1: v}, []any{[]any{map[any]any{"x": v}}}, map[any]any{1: v}} {
			t.Case(fmt.Sprintf("%T in %T", v, w))
			t.Guard("write of an unsupported value", func() string { return fmt.Sprintf("%T in %T", v, w) }, func() {
				b, err := msgpack.AnyToBytes(w)
				if err == nil {
					// a maintainer may support more types, but then as a value
					if _, n, err := mk.Decode(b); err != nil || n != len(b) {
						t.Violate("an unsupported value is written as no value", "%T in %T: %x", v, w, b)
					}
				}
				kit.Count("unsupported values", 1)
			})
		}
	}
}

func main() {
	kit.Main(kit.Config{
		Property:    "P22",
		Rule:        "Writes of every type (exhaustive for 8 and 16 bits, every width boundary, random beyond), dynamic values of every supported Go type nested, programs of up to 12 writes, and encodings in any valid format; each is sized, encoded into exactly that size and into less, decoded by an independent decoder and by the matching read; distinct by operation and bytes.",
		Assumptions: []string{"Times are equal if their instants are; all NaN are equal.", "Keys of one map are different values, not only different Go types."},
		Scenarios: []kit.Scenario{
			{Name: "at the same time", Yields: []int{0, 2}, Raced: true, Run: together},
			{Name: "scalars", Plain: true, Run: scalars},
			{Name: "lengths", Plain: true, Run: lengths},
			{Name: "containers", Plain: true, Run: func(t *kit.T) {
				for k := 0; k < mk.Containers; k++ {
					for _, n := range []int{0, 1, 2, 14, 15, 16, 17, 31, 32, 255, 256, 257} {
						if t.Failed() {
							return
						}
						dynamic(t, mk.ContainerOf(t.Rand, 2, k, n))
					}
					for _, n := range []int{65535, 65536, 65537} {
						if kit.Thorough || (k < 16 || k == 17) && n == 65536 {
							dynamic(t, mk.ContainerOf(t.Rand, 0, k, n))
						}
					}
				}
			}},
			{Name: "dynamic", Plain: true, Run: func(t *kit.T) {
				for i, n := 0, kit.N(30000, 500000); i < n && !t.Failed(); i++ {
					if i%2 == 0 {
						dynamic(t, mk.Container(t.Rand, 4))
					} else {
						dynamic(t, mk.Go(t.Rand, 4))
					}
				}
			}},
			{Name: "deep", Plain: true, Run: func(t *kit.T) {
				for _, n := range []int{10, 100, 1000, 4000} {
					var a, m any = 1, "x"
					for i := 0; i < n; i++ {
						a, m = []any{a}, map[string]any{"k": m}
					}
					dynamic(t, a)
					dynamic(t, m)
				}
			}},
			{Name: "programs", Plain: true, Run: programs},
			{Name: "foreign", Plain: true, Run: foreign},
			{Name: "unsupported", Plain: true, Run: unsupported},
			{Name: "collections", Plain: true, Run: collections},
		},
	})
}
