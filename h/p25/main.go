//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"strconv"
	"sync"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifh/kit"
	mk "github.com/nanobus/iota/go/verifh/msgkit"
)

func hash(parts ...[]byte) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum64()
}

func exact(b []byte) []byte {
	in := append(make([]byte, 0, len(b)), b...)
	return in[:len(in):len(in)]
}

// kind is a pair of an encoder and a decoder with the read it has to agree with.
type kind struct {
	name   string
	encode func(v any) (payload.Payload, error)
	decode func(p payload.Payload) (any, error)
	gen    func(t *kit.T) any
	// form is how the value is written; by default as itself.
	form func(v any) mk.Val
	op   mk.Op
}

func pair[T any](name string, enc func(T) (payload.Payload, error), dec func(payload.Payload) (T, error), op string, gen func(t *kit.T) T) kind {
	return kind{
		name:   name,
		encode: func(v any) (payload.Payload, error) { x, _ := v.(T); return enc(x) }, // nil is the zero of any
		decode: func(p payload.Payload) (any, error) { return dec(p) },
		gen:    func(t *kit.T) any { return gen(t) },
		form:   func(v any) mk.Val { return mk.Of(v) },
		op:     mk.Find(op),
	}
}

func of[T any](name string, x transform.Transform[T], op string, gen func(t *kit.T) T) kind {
	return pair(name, x.Encode, x.Decode, op, gen)
}

type (
	level  int32
	serial int64
	id     uint64
	ratio  float32
	weight float64
	label  string
	flag   bool
	blob   []byte
)

func size(t *kit.T) int {
	if t.Rand.IntN(20) == 0 {
		l := mk.Lengths()
		return l[t.Rand.IntN(len(l))]
	}
	return t.Rand.IntN(60)
}

// texted reads a string and converts it.
func texted(f func(string) (mk.Val, error)) mk.Op {
	o := mk.Find("ReadString")
	want := o.Want
	o.Want = func(b []byte) mk.Outcome {
		w := want(b)
		if w.Err != nil || w.Any {
			return w
		}
		v, err := f(string(w.Val.S))
		return mk.Outcome{Val: v, Size: w.Size, Err: err}
	}
	return o
}

func kinds() []kind {
	i64 := func(t *kit.T) int64 { return mk.Int64(t.Rand) }
	u64 := func(t *kit.T) uint64 { return mk.Uint64(t.Rand) }
	text := func(t *kit.T) string { return mk.Text(t.Rand, size(t)) }
	l := []kind{
		of("Bool", transform.Bool, "ReadBool", func(t *kit.T) bool { return t.Rand.IntN(2) == 0 }),
		of("Int", transform.Int, "ReadInt64", func(t *kit.T) int { return int(i64(t)) }),
		of("Int64", transform.Int64, "ReadInt64", i64),
		of("Int32", transform.Int32, "ReadInt32", func(t *kit.T) int32 { return int32(i64(t)) }),
		of("Int16", transform.Int16, "ReadInt16", func(t *kit.T) int16 { return int16(i64(t)) }),
		of("Int8", transform.Int8, "ReadInt8", func(t *kit.T) int8 { return int8(i64(t)) }),
		of("Uint", transform.Uint, "ReadUint64", func(t *kit.T) uint { return uint(u64(t)) }),
		of("Uint64", transform.Uint64, "ReadUint64", u64),
		of("Uint32", transform.Uint32, "ReadUint32", func(t *kit.T) uint32 { return uint32(u64(t)) }),
		of("Uint16", transform.Uint16, "ReadUint16", func(t *kit.T) uint16 { return uint16(u64(t)) }),
		of("Uint8", transform.Uint8, "ReadUint8", func(t *kit.T) uint8 { return uint8(u64(t)) }),
		of("Float64", transform.Float64, "ReadFloat64", func(t *kit.T) float64 { return mk.Float64(t.Rand) }),
		of("Float32", transform.Float32, "ReadFloat32", func(t *kit.T) float32 { return mk.Float32(t.Rand) }),
		of("String", transform.String, "ReadString", text),
		of("Bytes", transform.Bytes, "ReadByteArray", func(t *kit.T) []byte { return mk.Bytes(t.Rand, size(t)) }),
		of("Any", transform.Any, "ReadAny", func(t *kit.T) any { return mk.Go(t.Rand, 3) }),
		pair("Int32 kind", transform.Int32Encode[level], transform.Int32Decode[level], "ReadInt32", func(t *kit.T) level { return level(i64(t)) }),
		pair("Int64 kind", transform.Int64Encode[serial], transform.Int64Decode[serial], "ReadInt64", func(t *kit.T) serial { return serial(i64(t)) }),
		pair("Uint64 kind", transform.Uint64Encode[id], transform.Uint64Decode[id], "ReadUint64", func(t *kit.T) id { return id(u64(t)) }),
		pair("Float32 kind", transform.Float32Encode[ratio], transform.Float32Decode[ratio], "ReadFloat32", func(t *kit.T) ratio { return ratio(mk.Float32(t.Rand)) }),
		pair("Float64 kind", transform.Float64Encode[weight], transform.Float64Decode[weight], "ReadFloat64", func(t *kit.T) weight { return weight(mk.Float64(t.Rand)) }),
		pair("String kind", transform.StringEncode[label], transform.StringDecode[label], "ReadString", func(t *kit.T) label { return label(text(t)) }),
		pair("Slice", transform.SliceEncode(msgpack.Writer.WriteInt32), transform.SliceDecode(msgpack.Reader.ReadInt32), "ReadSlice", func(t *kit.T) []int32 {
			l := make([]int32, size(t))
			for i := range l {
				l[i] = int32(i64(t))
			}
			return l
		}),
		pair("Map", transform.MapEncode(msgpack.Writer.WriteString, msgpack.Writer.WriteByteArray), transform.MapDecode(msgpack.Reader.ReadString, msgpack.Reader.ReadNillableByteArray), "ReadMap", func(t *kit.T) map[string][]byte {
			m := map[string][]byte{}
			for i := size(t) % 400; i > 0; i-- {
				m[mk.Text(t.Rand, 4)] = mk.Bytes(t.Rand, t.Rand.IntN(10))
			}
			return m
		}),
	}
	tm := of("Time", transform.Time, "ReadString", func(t *kit.T) time.Time { return mk.When(t.Rand) })
	parse := func(s string) (mk.Val, error) {
		x, err := time.Parse(time.RFC3339Nano, s)
		return mk.Time(x), err
	}
	tm.op = texted(parse)
	tm.form = func(v any) mk.Val { return mk.S(v.(time.Time).Format(time.RFC3339Nano)) }
	num := pair("String conversion", transform.ToStringEncode(strconv.Itoa), transform.ToStringDecode(strconv.Atoi), "ReadString", func(t *kit.T) int { return int(i64(t)) })
	num.op = texted(func(s string) (mk.Val, error) {
		n, err := strconv.Atoi(s)
		return mk.I(int64(n)), err
	})
	num.form = func(v any) mk.Val { return mk.S(strconv.Itoa(v.(int))) }
	return append(l, tm, num)
}

var keep = kit.NewKeeper("values and payloads", 3000)

// whole encodes and decodes values.
func whole(t *kit.T) {
	for _, k := range kinds() {
		for i, n := 0, kit.N(6000, 100000); i < n && !t.Failed(); i++ {
			v := k.gen(t)
			want := k.form(v)
			what := func() string { return fmt.Sprintf("%s of %v", k.name, want) }
			t.Guard("transform", what, func() {
				p, err := k.encode(v)
				if err != nil {
					t.Violate("value is not encoded", "%s: %v", what(), err)
					return
				}
				got, n, err := mk.Decode(p.Data())
				if err != nil || n != len(p.Data()) || !want.Ambiguous() && !mk.Same(got, want) {
					t.Violate("payload stands for another value", "%s: %.60x is %v, %v", what(), p.Data(), got, err)
					return
				}
				if len(p.Metadata()) != 0 {
					t.Violate("payload has metadata", "%s: %x", what(), p.Metadata())
				}
				keep.Bytes(t, what, p.Data())
				back, err := k.decode(payload.New(exact(p.Data()), mk.Bytes(t.Rand, 4)))
				if err != nil {
					t.Violate("value is not decoded", "%s: %v", what(), err)
					return
				}
				was := mk.Of(v)
				if b := mk.Of(back); !want.Ambiguous() && !mk.Same(b, was) {
					t.Violate("value changed", "%s: %v became %v", what(), was, b)
				} else if !want.Ambiguous() {
					keep.Add(t, what, func() bool { return mk.Same(mk.Of(back), was) })
				}
				t.CaseHash(hash([]byte(k.name), p.Data()), true)
			})
			kit.Count("values transformed", 1)
		}
	}
	keep.Check(t)
	p, err := transform.Void.Encode(struct{}{})
	if err != nil || len(p.Data()) != 0 {
		t.Violate("void payload", "%v, %v", p, err)
	}
	if _, err := transform.Void.Decode(p); err != nil {
		t.Violate("void payload", "%v", err)
	}
}

// together uses the transforms on many goroutines at once.
func together(t *kit.T) {
	var wg sync.WaitGroup
	mu := &sync.Mutex{} // for the generators, which use the source of the scenario
	for g := 0; g < 8; g++ {
		ks := kinds()
		mu.Lock()
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(g)))
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := kit.NewKeeper("results of many goroutines", 500)
			parse := convert.NillableParse(strconv.Atoi)
			for i := 0; i < kit.N(600, 20000) && !t.Failed(); i++ {
				k := ks[r.IntN(len(ks))]
				mu.Lock()
				v := k.gen(t)
				mu.Unlock()
				want := k.form(v)
				what := func() string { return fmt.Sprintf("%s of %v at the same time as others", k.name, want) }
				p, err := k.encode(v)
				if err != nil {
					t.Violate("value is not encoded", "%s: %v", what(), err)
					return
				}
				mine.Bytes(t, what, p.Data())
				in := exact(p.Data())
				back, err := k.decode(payload.New(in))
				if err != nil {
					t.Violate("value is not decoded", "%s: %v", what(), err)
					return
				}
				if was, b := mk.Of(v), mk.Of(back); !want.Ambiguous() {
					if !mk.Same(b, was) {
						t.Violate("value changed", "%s: %v became %v", what(), was, b)
					}
					mine.Add(t, what, func() bool { return mk.Same(mk.Of(back), was) })
				}
				text := strconv.Itoa(i)
				if n, err := parse(&text, nil); err != nil || *n != i {
					t.Violate("conversion changes the value", "NillableParse %s: %v", text, err)
				} else {
					mine.Add(t, what, func() bool { return *n == i })
				}
				t.CaseHash(hash([]byte(k.name), p.Data()), true)
				kit.Count("values of many goroutines", 1)
			}
			mine.Check(t)
		}()
	}
	wg.Wait()
}

// damaged decodes payloads of another or no shape.
func damaged(t *kit.T) {
	r := t.Rand
	ks := kinds()
	for i, n := 0, kit.N(60000, 900000); i < n && !t.Failed(); i++ {
		k := ks[i%len(ks)]
		var b []byte
		switch r.IntN(6) {
		case 0: // another type
			b = mk.Encode(nil, mk.Gen(r, 2, true), r)
		case 1: // another transform
			o := ks[r.IntN(len(ks))]
			p, err := o.encode(o.gen(t))
			if err != nil {
				continue
			}
			b = p.Data()
		case 2: // too short
			b = mk.Encode(nil, k.form(k.gen(t)), r)
			b = b[:r.IntN(len(b))]
		case 3: // damaged
			b = mk.Encode(nil, k.form(k.gen(t)), r)
			for j := r.IntN(3); j >= 0; j-- {
				b[r.IntN(min(len(b), 8))] = byte(r.Uint32())
			}
		case 4:
			b = mk.Bytes(r, r.IntN(12))
		case 5: // as another encoder may write it
			b = mk.Encode(nil, k.form(k.gen(t)), r)
		}
		what := func() string { return fmt.Sprintf("%s of %d bytes %.60x", k.name, len(b), b) }
		in := exact(b)
		t.Guard("transform", what, func() {
			got, err := k.decode(payload.New(in))
			if c, _, _ := mk.Judge(k.op, b, got, err); c != "" {
				t.Violate("wrong value or missing error", "%s: %s", what(), c)
			}
			if err != nil {
				kit.Count("payloads refused", 1)
			} else {
				kit.Count("payloads decoded", 1)
			}
		})
		if !bytes.Equal(in, b) {
			t.Violate("decoding changes the payload", "%s: %.60x", what(), in)
		}
		t.CaseHash(hash([]byte(k.name), b), true)
		if t.Wants() {
			t.Sample("%s", what())
		}
	}
	for _, k := range ks {
		t.Guard("transform", func() string { return k.name + " of nothing" }, func() {
			if v, err := k.decode(payload.New(nil)); err == nil {
				t.Violate("wrong value or missing error", "%s of nothing: %v", k.name, v)
			}
		})
	}
}

// record has every nullable and list form as generated code declares them.
type record struct {
	Level  level
	Serial *serial
	Label  label
	Nick   *label
	Flag   *flag
	Blob   blob
	When   time.Time
	Then   *time.Time
	Count  *int64
	Tags   []string
	Sub    *record
	Any    any
	fail   error
}

func (o *record) Encode(w msgpack.Writer) error {
	if o == nil {
		w.WriteNil()
		return nil
	}
	if o.fail != nil {
		return o.fail
	}
	w.WriteMapSize(12)
	w.WriteString("level")
	w.WriteInt32(int32(o.Level))
	w.WriteString("serial")
	w.WriteNillableInt64((*int64)(o.Serial))
	w.WriteString("label")
	w.WriteString(string(o.Label))
	w.WriteString("nick")
	w.WriteNillableString((*string)(o.Nick))
	w.WriteString("flag")
	w.WriteNillableBool((*bool)(o.Flag))
	w.WriteString("blob")
	w.WriteByteArray(o.Blob)
	w.WriteString("when")
	w.WriteString(convert.TimeToString(o.When))
	w.WriteString("then")
	w.WriteNillableString(convert.TimeToStringPtr(o.Then))
	w.WriteString("count")
	w.WriteNillableInt64(o.Count)
	w.WriteString("tags")
	msgpack.WriteSlice(w, o.Tags, msgpack.Writer.WriteString)
	w.WriteString("sub")
	if err := o.Sub.Encode(w); err != nil {
		return err
	}
	w.WriteString("any")
	w.WriteAny(o.Any)
	return nil
}

func (o *record) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		f, err := d.ReadString()
		if err != nil {
			return err
		}
		switch f {
		case "level":
			o.Level, err = convert.Numeric[level](d.ReadInt32())
		case "serial":
			o.Serial, err = convert.NillableNumeric[serial](d.ReadNillableInt64())
		case "label":
			o.Label, err = convert.String[label](d.ReadString())
		case "nick":
			o.Nick, err = convert.NillableString[label](d.ReadNillableString())
		case "flag":
			o.Flag, err = convert.NillableBool[flag](d.ReadNillableBool())
		case "blob":
			o.Blob, err = convert.ByteArray[blob](d.ReadByteArray())
		case "when":
			o.When, err = convert.StringToTime(d.ReadString())
		case "then":
			o.Then, err = convert.StringToTimePtr(d.ReadNillableString())
		case "count":
			o.Count, err = convert.NillableParse(func(v int64) (int64, error) { return v, nil })(d.ReadNillableInt64())
		case "tags":
			o.Tags, err = msgpack.ReadSlice(d, msgpack.Reader.ReadString)
		case "sub":
			o.Sub, err = msgpack.DecodeNillable[record](d)
		case "any":
			o.Any, err = d.ReadAny()
		default:
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func ptr[T any](t *kit.T, v T) *T {
	if t.Rand.IntN(3) == 0 {
		return nil
	}
	return &v
}

func random(t *kit.T, depth int) *record {
	r := t.Rand
	o := &record{
		Level: level(mk.Int64(r)), Serial: ptr(t, serial(mk.Int64(r))),
		Label: label(mk.Text(r, r.IntN(50))), Nick: ptr(t, label(mk.Text(r, r.IntN(50)))), Flag: ptr(t, flag(r.IntN(2) == 0)),
		Blob: mk.Bytes(r, r.IntN(300)), When: mk.When(r), Then: ptr(t, mk.When(r)), Count: ptr(t, mk.Int64(r)), Any: mk.Go(r, 2),
	}
	for i := r.IntN(20); i > 0; i-- {
		o.Tags = append(o.Tags, mk.Text(r, r.IntN(9)))
	}
	if depth > 0 && r.IntN(2) == 0 {
		o.Sub = random(t, depth-1)
	}
	return o
}

func same[T comparable](a, b *T) bool {
	return a == nil && b == nil || a != nil && b != nil && *a == *b
}

func diff(a, b *record) string {
	av, bv := mk.Of(a.Any), mk.Of(b.Any)
	switch {
	case a.Level != b.Level || a.Label != b.Label || !bytes.Equal(a.Blob, b.Blob):
		return "field"
	case !same(a.Serial, b.Serial) || !same(a.Nick, b.Nick) || !same(a.Flag, b.Flag) || !same(a.Count, b.Count):
		return "nullable field"
	case !a.When.Equal(b.When) || (a.Then == nil) != (b.Then == nil) || a.Then != nil && !a.Then.Equal(*b.Then):
		return "time"
	case !mk.Same(mk.Of(a.Tags), mk.Of(b.Tags)):
		return "list"
	case (a.Sub == nil) != (b.Sub == nil):
		return "nested"
	case !av.Ambiguous() && !mk.Same(av, bv):
		return "dynamic field"
	case a.Sub != nil:
		return diff(a.Sub, b.Sub)
	}
	return ""
}

type unencodable struct{}

func records(t *kit.T) {
	for i, n := 0, kit.N(8000, 120000); i < n && !t.Failed(); i++ {
		o := random(t, 3)
		what := func() string { return fmt.Sprintf("%+v", *o) }
		t.Guard("record", what, func() {
			p, err := transform.MsgPackEncode(*o)
			if err != nil {
				t.Violate("record is not encoded", "%s: %v", what(), err)
				return
			}
			q, err := transform.CodecEncode(o)
			if err != nil || len(q.Data()) != len(p.Data()) {
				t.Violate("record is encoded in two ways", "%s: %d and %d bytes, %v", what(), len(q.Data()), len(p.Data()), err)
			}
			b, err := transform.MsgPackDecode[record](p)
			if err != nil {
				t.Violate("record is not decoded", "%s: %v", what(), err)
				return
			}
			var c record
			if err := transform.CodecDecode(q, &c); err != nil {
				t.Violate("record is not decoded", "%s: %v", what(), err)
				return
			}
			for _, x := range []*record{&b, &c} {
				if d := diff(o, x); d != "" {
					t.Violate("record changed: "+d, "%s became %+v", what(), *x)
				}
			}
			data := p.Data()
			for j := 0; j < 8; j++ {
				if _, err := transform.MsgPackDecode[record](payload.New(exact(data[:t.Rand.IntN(len(data))]))); err == nil {
					t.Violate("truncated record accepted", "%s", what())
					return
				}
			}
			kit.Count("records", 1)
			t.CaseHash(hash(data), true)
		})
		// a codec that fails anywhere makes no payload
		if i%8 == 0 {
			x := o
			for x.Sub != nil && t.Rand.IntN(3) > 0 {
				x = x.Sub
			}
			if t.Rand.IntN(2) == 0 {
				x.fail = errors.New("no")
			} else {
				x.Any = []any{1, unencodable{}}
			}
			if p, err := transform.CodecEncode(o); err == nil {
				t.Violate("failed encoding hidden", "%s: %.60x", what(), p.Data())
			}
			if p, err := transform.MsgPackEncode(*o); err == nil {
				t.Violate("failed encoding hidden", "%s: %.60x", what(), p.Data())
			}
			kit.Count("failing codecs", 1)
		}
	}
	if p, err := transform.Any.Encode(unencodable{}); err == nil {
		t.Violate("failed encoding hidden", "%x", p.Data())
	}
	type list = []any
	if p, err := transform.SliceEncode(msgpack.Writer.WriteAny)(list{1, unencodable{}, 2}); err == nil {
		t.Violate("failed encoding hidden", "%x", p.Data())
	}
	if p, err := transform.MapEncode(msgpack.Writer.WriteString, msgpack.Writer.WriteAny)(map[string]any{"x": unencodable{}}); err == nil {
		t.Violate("failed encoding hidden", "%x", p.Data())
	}
}

// nillable checks a conversion of values that may be nil or come with an error.
func nillable[I, T any](t *kit.T, name string, f func(*I, error) (*T, error), eq func(I, T) bool, vals ...I) {
	bad := errors.New("bad")
	t.Guard(name, func() string { return "nil, no error" }, func() {
		if p, err := f(nil, nil); p != nil || err != nil {
			t.Violate("conversion of nil", "%s: %v, %v", name, p, err)
		}
	})
	t.Guard(name, func() string { return "nil, error" }, func() {
		if _, err := f(nil, bad); err != bad {
			t.Violate("conversion hides an error", "%s: %v", name, err)
		}
	})
	for _, v := range vals {
		t.Guard(name, func() string { return fmt.Sprint(v) }, func() {
			p, err := f(&v, nil)
			if err != nil || p == nil || !eq(v, *p) {
				t.Violate("conversion changes the value", "%s: %v became %v, %v", name, v, p, err)
			} else {
				v := v
				keep.Add(t, func() string { return fmt.Sprint(name, " of ", v) }, func() bool { return eq(v, *p) })
			}
			if _, err := f(&v, bad); err != bad {
				t.Violate("conversion hides an error", "%s: %v", name, err)
			}
		})
		t.Case(fmt.Sprint(name, v))
	}
}

func plain[I, T any](t *kit.T, name string, f func(I, error) (T, error), eq func(I, T) bool, vals ...I) {
	bad := errors.New("bad")
	for _, v := range vals {
		t.Guard(name, func() string { return fmt.Sprint(v) }, func() {
			p, err := f(v, nil)
			if err != nil || !eq(v, p) {
				t.Violate("conversion changes the value", "%s: %v became %v, %v", name, v, p, err)
			}
			if _, err := f(v, bad); err != bad {
				t.Violate("conversion hides an error", "%s: %v", name, err)
			}
		})
		t.Case(fmt.Sprint(name, v))
	}
}

func conversions(t *kit.T) {
	r := t.Rand
	parse := convert.NillableParse(strconv.Atoi)
	form := convert.Format(func(v *int64) string { return strconv.FormatInt(*v, 10) })
	for i, n := 0, kit.N(3000, 50000); i < n && !t.Failed(); i++ {
		s, u := mk.Int64(r), mk.Uint64(r)
		f := mk.Float64(r)
		str := mk.Text(r, r.IntN(20))
		when := mk.When(r)
		eqf := func(a float64, b weight) bool { return a == float64(b) || a != a && b != b }
		plain(t, "Numeric", convert.Numeric[level, int32], func(a int32, b level) bool { return a == int32(b) }, int32(s), math.MinInt32, math.MaxInt32)
		plain(t, "Numeric", convert.Numeric[serial, int64], func(a int64, b serial) bool { return a == int64(b) }, s, math.MinInt64, math.MaxInt64)
		plain(t, "Numeric", convert.Numeric[id, uint64], func(a uint64, b id) bool { return a == uint64(b) }, u, math.MaxUint64)
		plain(t, "Numeric", convert.Numeric[weight, float64], eqf, f)
		plain(t, "Numeric", convert.Numeric[int64, uint8], func(a uint8, b int64) bool { return int64(a) == b }, uint8(u))
		plain(t, "String", convert.String[label], func(a string, b label) bool { return a == string(b) }, str, "")
		plain(t, "Bool", convert.Bool[flag], func(a bool, b flag) bool { return a == bool(b) }, true, false)
		plain(t, "ByteArray", convert.ByteArray[blob, []byte], func(a []byte, b blob) bool { return bytes.Equal(a, b) && (a == nil) == (b == nil) }, []byte(str), nil)
		nillable(t, "NillableNumeric", convert.NillableNumeric[level, int32], func(a int32, b level) bool { return a == int32(b) }, int32(s), 0)
		nillable(t, "NillableNumeric", convert.NillableNumeric[id, uint64], func(a uint64, b id) bool { return a == uint64(b) }, u, 0)
		nillable(t, "NillableNumeric", convert.NillableNumeric[weight, float64], eqf, f)
		nillable(t, "NillableString", convert.NillableString[label], func(a string, b label) bool { return a == string(b) }, str, "")
		nillable(t, "NillableBool", convert.NillableBool[flag], func(a bool, b flag) bool { return a == bool(b) }, true, false)
		nillable(t, "StringToTimePtr", convert.StringToTimePtr, func(a string, b time.Time) bool { return b.Equal(when) }, *convert.TimeToStringPtr(&when))
		plain(t, "StringToTime", convert.StringToTime, func(a string, b time.Time) bool { return b.Equal(when) }, convert.TimeToString(when))
		nillable(t, "NillableParse", parse, func(a string, b int) bool { return a == strconv.Itoa(b) }, strconv.FormatInt(s, 10))
		plain(t, "Parse", convert.Parse(strconv.Atoi), func(a string, b int) bool { return a == strconv.Itoa(b) }, strconv.FormatInt(s, 10))
		if p := convert.TimeToStringPtr(nil); p != nil {
			t.Violate("conversion of nil", "TimeToStringPtr: %v", *p)
		}
		if p := form(nil); p != nil {
			t.Violate("conversion of nil", "Format: %v", *p)
		}
		if p := form(&s); p == nil || *p != strconv.FormatInt(s, 10) {
			t.Violate("conversion changes the value", "Format: %d", s)
		} else {
			keep.Add(t, func() string { return fmt.Sprint("Format of ", s) }, func() bool { return *p == strconv.FormatInt(s, 10) })
		}
		junk := "x" + str
		if _, err := convert.Parse(strconv.Atoi)(junk, nil); err == nil {
			t.Violate("conversion hides an error", "Parse %q", junk)
		}
		if p, err := convert.NillableParse(strconv.Atoi)(&junk, nil); err == nil {
			t.Violate("conversion hides an error", "NillableParse %q: %v", junk, p)
		}
		if v, err := convert.StringToTime(junk, nil); err == nil {
			t.Violate("conversion hides an error", "StringToTime %q: %v", junk, v)
		}
		if v, err := convert.StringToTimePtr(&junk, nil); err == nil {
			t.Violate("conversion hides an error", "StringToTimePtr %q: %v", junk, v)
		}
		kit.Count("conversions", 22)
	}
	keep.Check(t)
}

func main() {
	kit.Main(kit.Config{
		Property:    "P25",
		Rule:        "Values of every transform (every width boundary, random beyond), records with every nullable and list form, codecs that fail, and payloads of another, damaged, truncated or foreign shape; payloads are decoded by a reference decoder and by the transform of the type. Conversions to named types get values, nil and errors. Distinct by transform and payload.",
		Assumptions: []string{"Times have years 0 to 9999 and zones of whole minutes, which is what RFC 3339 can express.", "A double read as a float is rounded to it.", "Reading an array header as the length of a string or binary is the leniency of the format's implementations; either outcome is accepted."},
		Scenarios: []kit.Scenario{
			{Name: "at the same time", Yields: []int{0, 2}, Raced: true, Run: together},
			{Name: "values", Plain: true, Run: whole},
			{Name: "damaged payloads", Plain: true, Run: damaged},
			{Name: "records", Plain: true, Run: records},
			{Name: "conversions", Plain: true, Run: conversions},
		},
	})
}
