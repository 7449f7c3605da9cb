//go:build go1.22

package msgkit

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"github.com/nanobus/iota/go/msgpack"
)

// Outcome is what an operation does to an input according to the model.
type Outcome struct {
	Val  Val
	Size int   // bytes consumed
	Err  error // must fail
	Any  bool  // not specified: anything but a panic is fine
}

// Op is a read operation of the decoder.
type Op struct {
	Name string
	Do   func(d msgpack.Reader) (any, error)
	Want func(b []byte) Outcome
	// Gen is a value that the operation reads.
	Gen func(r *rand.Rand) Val
}

func fail(err error) Outcome { return Outcome{Err: err} }

var errType = fmt.Errorf("of another type")

func head(f func(h Head) Outcome) func([]byte) Outcome {
	return func(b []byte) Outcome {
		h, err := Peek(b)
		if err != nil {
			return fail(err)
		}
		o := f(h)
		if o.Err == nil && o.Size == 0 {
			o.Size = h.Size
		}
		return o
	}
}

func signed(bits int) func([]byte) Outcome {
	return head(func(h Head) Outcome {
		v, ok := h.Int64()
		if !ok || v < -1<<(bits-1) || v > 1<<(bits-1)-1 {
			return fail(errType)
		}
		return Outcome{Val: h.Val}
	})
}

func unsigned(bits int) func([]byte) Outcome {
	return head(func(h Head) Outcome {
		if h.K != Int || h.N < 0 || h.U > math.MaxUint64>>(64-bits) {
			return fail(errType)
		}
		return Outcome{Val: h.Val}
	})
}

func container(k Kind) func([]byte) Outcome {
	return head(func(h Head) Outcome {
		switch h.K {
		case k:
			return Outcome{Val: U(uint64(h.Len))}
		case Nil:
			return Outcome{Val: U(0)}
		}
		return fail(errType)
	})
}

// arrayHead tells whether b begins with the header of an array, which the
// decoder takes for the length of a string or, if short, of a binary.
func arrayHead(b []byte) bool {
	return len(b) > 0 && (b[0]&0xf0 == 0x90 || b[0] == 0xdc || b[0] == 0xdd)
}

func wantString(b []byte) Outcome {
	if arrayHead(b) {
		return Outcome{Any: true}
	}
	return head(func(h Head) Outcome {
		if h.K != Str {
			return fail(errType)
		}
		return Outcome{Val: h.Val}
	})(b)
}

func wantBytes(b []byte) Outcome {
	if arrayHead(b) {
		return Outcome{Any: true}
	}
	return head(func(h Head) Outcome {
		switch h.K {
		case Bin:
			return Outcome{Val: h.Val}
		case Nil:
			return Outcome{Val: B(nil)}
		}
		return fail(errType)
	})(b)
}

func wantTime(b []byte) Outcome {
	if arrayHead(b) {
		return Outcome{Any: true}
	}
	return head(func(h Head) Outcome {
		switch h.K {
		case Str:
			t, err := time.Parse(time.RFC3339Nano, string(h.S))
			if err != nil {
				return fail(err)
			}
			return Outcome{Val: Time(t)}
		case Ext:
			if t, ok := h.AsTime(); ok {
				return Outcome{Val: Time(t)}
			}
		}
		return fail(errType)
	})(b)
}

// MaxDepth is the nesting that the dynamic reader accepts at least; deeper
// values may be refused.
const MaxDepth = 5000

func wantAny(b []byte) Outcome {
	v, n, o := dynamic(b, 0)
	if o != nil {
		return *o
	}
	return Outcome{Val: v, Size: n}
}

func dynamic(b []byte, depth int) (Val, int, *Outcome) {
	if depth > MaxDepth {
		return Val{}, 0, &Outcome{Any: true}
	}
	h, err := Peek(b)
	if err != nil {
		return Val{}, 0, &Outcome{Err: err}
	}
	at := h.Size
	one := func() (Val, *Outcome) {
		v, n, o := dynamic(b[at:], depth+1)
		at += n
		return v, o
	}
	switch h.K {
	case Ext:
		if _, ok := h.AsTime(); !ok {
			return Val{}, 0, &Outcome{Err: errType}
		}
		if h.Byte == 0xc8 || h.Byte == 0xc9 {
			return Val{}, 0, &Outcome{Any: true}
		}
	case Arr:
		for i := 0; i < h.Len; i++ {
			v, o := one()
			if o != nil {
				return v, 0, o
			}
			h.A = append(h.A, v)
		}
	case Map:
		for i := 0; i < h.Len; i++ {
			k, o := one()
			if o != nil {
				return k, 0, o
			}
			if k.K == Bin || k.K == Arr || k.K == Map {
				return k, 0, &Outcome{Err: errType}
			}
			v, o := one()
			if o != nil {
				return v, 0, o
			}
			h.M = append(h.M, Pair{k, v})
		}
	}
	return h.Val, at, nil
}

func wantSkip(b []byte) Outcome {
	n, err := Skip(b)
	return Outcome{Size: n, Err: err}
}

func nillable(f func([]byte) Outcome) func([]byte) Outcome {
	return func(b []byte) Outcome {
		if len(b) > 0 && b[0] == 0xc0 {
			return Outcome{Size: 1}
		}
		return f(b)
	}
}

func ref[T any](f func(msgpack.Reader) (T, error)) func(msgpack.Reader) (any, error) {
	return func(d msgpack.Reader) (any, error) { return f(d) }
}

func ptr[T any](f func(msgpack.Reader) (*T, error)) func(msgpack.Reader) (any, error) {
	return func(d msgpack.Reader) (any, error) {
		p, err := f(d)
		if p == nil {
			return nil, err
		}
		return *p, err
	}
}

func orNil(f func(*rand.Rand) Val) func(*rand.Rand) Val {
	return func(r *rand.Rand) Val {
		if r.IntN(3) == 0 {
			return Val{}
		}
		return f(r)
	}
}

func wantNil(b []byte) Outcome {
	if len(b) == 0 {
		return fail(ErrShort)
	}
	if b[0] == 0xc0 {
		return Outcome{Val: Val{K: Bool, N: 1}, Size: 1}
	}
	return Outcome{Val: Val{K: Bool}, Size: -1}
}

// List of ints and table of strings, read through the generic helpers.
func wantInts(b []byte) Outcome {
	o := container(Arr)(b)
	if o.Err != nil {
		return o
	}
	v := Val{K: Arr}
	for n := o.Val.U; n > 0; n-- {
		e := signed(32)(b[o.Size:])
		if e.Err != nil {
			return e
		}
		v.A = append(v.A, e.Val)
		o.Size += e.Size
	}
	return Outcome{Val: v, Size: o.Size}
}

func wantTable(b []byte) Outcome {
	o := container(Map)(b)
	if o.Err != nil {
		return o
	}
	v := Val{K: Map}
	for n := o.Val.U; n > 0; n-- {
		k := wantString(b[o.Size:])
		if k.Err != nil || k.Any {
			return k
		}
		o.Size += k.Size
		e := nillable(wantBytes)(b[o.Size:])
		if e.Err != nil || e.Any {
			return e
		}
		o.Size += e.Size
		if e.Val.K == Nil {
			e.Val = B(nil)
		}
		v.M = append(v.M, Pair{k.Val, e.Val})
	}
	return Outcome{Val: v, Size: o.Size}
}

// Ops are all read operations.
var Ops = ops()

func ops() []Op {
	R := func(name string, do func(msgpack.Reader) (any, error), want func([]byte) Outcome, gen func(*rand.Rand) Val) Op {
		return Op{name, do, want, gen}
	}
	genS := func(bits int) func(*rand.Rand) Val {
		return func(r *rand.Rand) Val { return I(Int64(r) << (64 - bits) >> (64 - bits)) }
	}
	genU := func(bits int) func(*rand.Rand) Val {
		return func(r *rand.Rand) Val { return U(Uint64(r) << (64 - bits) >> (64 - bits)) }
	}
	genBool := func(r *rand.Rand) Val { return Val{K: Bool, N: int64(r.IntN(2))} }
	genStr := func(r *rand.Rand) Val { return S(Text(r, length(r, false))) }
	genBin := func(r *rand.Rand) Val { return B(Bytes(r, length(r, false))) }
	genF32 := func(r *rand.Rand) Val { return FF(Float32(r)) }
	genFloat := func(r *rand.Rand) Val {
		if r.IntN(2) == 0 {
			return FF(Float32(r))
		}
		return FD(Float64(r))
	}
	genTime := func(r *rand.Rand) Val {
		if r.IntN(3) == 0 {
			return S(When(r).Format(time.RFC3339Nano))
		}
		v := Time(When(r))
		if r.IntN(4) == 0 {
			v.T = 13
		}
		return v
	}
	wantBool := head(func(h Head) Outcome {
		if h.K != Bool {
			return fail(errType)
		}
		return Outcome{Val: h.Val}
	})
	want32 := head(func(h Head) Outcome {
		switch h.K {
		case F32:
			return Outcome{Val: h.Val}
		case F64:
			return Outcome{Val: FF(float32(h.Float64()))}
		}
		return fail(errType)
	})
	want64 := head(func(h Head) Outcome {
		switch h.K {
		case F64:
			return Outcome{Val: h.Val}
		case F32:
			return Outcome{Val: FD(float64(h.Float32()))}
		}
		return fail(errType)
	})
	type D = msgpack.Reader
	l := []Op{
		R("IsNextNil", ref(D.IsNextNil), wantNil, orNil(genBool)),
		R("ReadBool", ref(D.ReadBool), wantBool, genBool),
		R("ReadInt8", ref(D.ReadInt8), signed(8), genS(8)),
		R("ReadInt16", ref(D.ReadInt16), signed(16), genS(16)),
		R("ReadInt32", ref(D.ReadInt32), signed(32), genS(32)),
		R("ReadInt64", ref(D.ReadInt64), signed(64), genS(64)),
		R("ReadUint8", ref(D.ReadUint8), unsigned(8), genU(8)),
		R("ReadUint16", ref(D.ReadUint16), unsigned(16), genU(16)),
		R("ReadUint32", ref(D.ReadUint32), unsigned(32), genU(32)),
		R("ReadUint64", ref(D.ReadUint64), unsigned(64), genU(64)),
		R("ReadFloat32", ref(D.ReadFloat32), want32, genF32),
		R("ReadFloat64", ref(D.ReadFloat64), want64, genFloat),
		R("ReadString", ref(D.ReadString), wantString, genStr),
		R("ReadTime", ref(D.ReadTime), wantTime, genTime),
		R("ReadByteArray", ref(D.ReadByteArray), wantBytes, genBin),
		R("ReadNillableBool", ptr(D.ReadNillableBool), nillable(wantBool), orNil(genBool)),
		R("ReadNillableInt8", ptr(D.ReadNillableInt8), nillable(signed(8)), orNil(genS(8))),
		R("ReadNillableInt16", ptr(D.ReadNillableInt16), nillable(signed(16)), orNil(genS(16))),
		R("ReadNillableInt32", ptr(D.ReadNillableInt32), nillable(signed(32)), orNil(genS(32))),
		R("ReadNillableInt64", ptr(D.ReadNillableInt64), nillable(signed(64)), orNil(genS(64))),
		R("ReadNillableUint8", ptr(D.ReadNillableUint8), nillable(unsigned(8)), orNil(genU(8))),
		R("ReadNillableUint16", ptr(D.ReadNillableUint16), nillable(unsigned(16)), orNil(genU(16))),
		R("ReadNillableUint32", ptr(D.ReadNillableUint32), nillable(unsigned(32)), orNil(genU(32))),
		R("ReadNillableUint64", ptr(D.ReadNillableUint64), nillable(unsigned(64)), orNil(genU(64))),
		R("ReadNillableFloat32", ptr(D.ReadNillableFloat32), nillable(want32), orNil(genF32)),
		R("ReadNillableFloat64", ptr(D.ReadNillableFloat64), nillable(want64), orNil(genFloat)),
		R("ReadNillableString", ptr(D.ReadNillableString), nillable(wantString), orNil(genStr)),
		R("ReadNillableTime", ptr(D.ReadNillableTime), nillable(wantTime), orNil(genTime)),
		R("ReadNillableByteArray", func(d D) (any, error) {
			b, err := d.ReadNillableByteArray()
			if b == nil {
				return nil, err
			}
			return b, err
		}, nillable(wantBytes), orNil(genBin)),
		R("ReadArraySize", ref(D.ReadArraySize), container(Arr), func(r *rand.Rand) Val { return Val{K: Arr, A: make([]Val, length(r, false))} }),
		R("ReadMapSize", ref(D.ReadMapSize), container(Map), func(r *rand.Rand) Val { return Val{K: Map, M: make([]Pair, length(r, false))} }),
		R("ReadAny", D.ReadAny, wantAny, func(r *rand.Rand) Val { return Gen(r, 3, false) }),
		R("Skip", func(d D) (any, error) { return nil, d.Skip() }, wantSkip, func(r *rand.Rand) Val { return Gen(r, 3, true) }),
		R("ReadSlice", func(d D) (any, error) { return msgpack.ReadSlice(d, msgpack.Reader.ReadInt32) }, wantInts, func(r *rand.Rand) Val {
			v := Val{K: Arr}
			for n := length(r, false); n > 0; n-- {
				v.A = append(v.A, I(int64(int32(Int64(r)))))
			}
			return v
		}),
		R("ReadMap", func(d D) (any, error) {
			return msgpack.ReadMap(d, msgpack.Reader.ReadString, msgpack.Reader.ReadNillableByteArray)
		}, wantTable, func(r *rand.Rand) Val {
			v := Val{K: Map}
			for n := length(r, true); n > 0; n-- {
				v.M = append(v.M, Pair{genStr(r), genBin(r)})
			}
			return v
		}),
	}
	return l
}

// Find is the operation of the name.
func Find(name string) Op {
	for _, o := range Ops {
		if o.Name == name {
			return o
		}
	}
	panic(name)
}

// Judge compares what an operation on b returned with the model. It tells
// whether the input can be read on and where.
func Judge(o Op, b []byte, got any, err error) (complaint string, size int, on bool) {
	w := o.Want(b)
	switch {
	case w.Any:
		return "", 0, false
	case w.Err != nil && err == nil:
		return fmt.Sprintf("%s accepted an input that is %v: %v", o.Name, w.Err, Of(got)), 0, false
	case w.Err == nil && err != nil:
		return fmt.Sprintf("%s refused %v: %v", o.Name, w.Val, err), 0, false
	case err != nil:
		return "", 0, false
	}
	if w.Size < 0 {
		w.Size = 0
	}
	if w.Val.Ambiguous() {
		return "", w.Size, true
	}
	if v := Of(got); !Same(v, w.Val) {
		return fmt.Sprintf("%s read %v instead of %v", o.Name, v, w.Val), 0, false
	}
	return "", w.Size, true
}
