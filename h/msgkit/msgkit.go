//go:build go1.22

// Package msgkit is a reference implementation of the MessagePack format, written
// from its specification, and generators of values for the checks of the codec.
package msgkit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"time"
)

type Kind int

const (
	Nil Kind = iota
	Bool
	Int
	F32
	F64
	Str
	Bin
	Arr
	Map
	Ext
)

// Val is a value of the MessagePack data model.
type Val struct {
	K Kind
	N int64  // Int below zero; Bool (0 or 1)
	U uint64 // Int from zero; bits of F32, F64
	S []byte // Str, Bin, Ext
	T int8   // Ext
	A []Val  // Arr
	M []Pair // Map
}

type Pair struct{ K, V Val }

func I(v int64) Val {
	if v < 0 {
		return Val{K: Int, N: v}
	}
	return Val{K: Int, U: uint64(v)}
}
func U(v uint64) Val   { return Val{K: Int, U: v} }
func S(s string) Val   { return Val{K: Str, S: []byte(s)} }
func B(b []byte) Val   { return Val{K: Bin, S: b} }
func FF(f float32) Val { return Val{K: F32, U: uint64(math.Float32bits(f))} }
func FD(f float64) Val { return Val{K: F64, U: math.Float64bits(f)} }
func Time(t time.Time) Val {
	sec, ns := t.Unix(), uint64(t.Nanosecond())
	var b []byte
	switch {
	case ns == 0 && sec >= 0 && sec < 1<<32:
		b = binary.BigEndian.AppendUint32(b, uint32(sec))
	case sec >= 0 && sec < 1<<34:
		b = binary.BigEndian.AppendUint64(b, ns<<34|uint64(sec))
	default:
		b = binary.BigEndian.AppendUint32(b, uint32(ns))
		b = binary.BigEndian.AppendUint64(b, uint64(sec))
	}
	return Val{K: Ext, T: -1, S: b}
}

// AsTime is the time of a timestamp extension.
func (v Val) AsTime() (time.Time, bool) {
	if v.K != Ext || v.T != -1 && v.T != 13 {
		return time.Time{}, false
	}
	switch len(v.S) {
	case 4:
		return time.Unix(int64(binary.BigEndian.Uint32(v.S)), 0), true
	case 8:
		u := binary.BigEndian.Uint64(v.S)
		return time.Unix(int64(u&(1<<34-1)), int64(u>>34)), true
	case 12:
		return time.Unix(int64(binary.BigEndian.Uint64(v.S[4:])), int64(binary.BigEndian.Uint32(v.S))), true
	}
	return time.Time{}, false
}

func (v Val) Float64() float64 { return math.Float64frombits(v.U) }
func (v Val) Float32() float32 { return math.Float32frombits(uint32(v.U)) }

// Int64 is the value of an integer if it is one of int64.
func (v Val) Int64() (int64, bool) {
	if v.K != Int || v.N == 0 && v.U > math.MaxInt64 {
		return 0, false
	}
	if v.N < 0 {
		return v.N, true
	}
	return int64(v.U), true
}

// Head is the first byte of an encoded value with its length and immediate value.
type Head struct {
	Val
	Len  int // elements of a container
	Size int // bytes up to and including the immediate value
	Byte byte
}

var (
	ErrShort = fmt.Errorf("truncated")
	ErrBad   = fmt.Errorf("not MessagePack")
)

// Peek reads what b begins with, without the elements of a container.
func Peek(b []byte) (h Head, err error) {
	if len(b) == 0 {
		return h, ErrShort
	}
	c := b[0]
	h.Byte = c
	num := func(n int) uint64 {
		if err != nil || len(b) < h.Size+n {
			err = ErrShort
			return 0
		}
		var u uint64
		for _, x := range b[h.Size : h.Size+n] {
			u = u<<8 | uint64(x)
		}
		h.Size += n
		return u
	}
	body := func(n uint64) {
		if err != nil || uint64(len(b)-h.Size) < n {
			err = ErrShort
			return
		}
		h.S = b[h.Size : h.Size+int(n)]
		h.Size += int(n)
	}
	h.Size = 1
	switch {
	case c < 0x80:
		h.Val = U(uint64(c))
	case c < 0x90:
		h.K, h.Len = Map, int(c&15)
	case c < 0xa0:
		h.K, h.Len = Arr, int(c&15)
	case c < 0xc0:
		h.K = Str
		body(uint64(c & 31))
	case c >= 0xe0:
		h.Val = I(int64(c) - 256)
	default:
		switch c {
		case 0xc0:
		case 0xc1:
			return h, ErrBad
		case 0xc2, 0xc3:
			h.K, h.N = Bool, int64(c-0xc2)
		case 0xc4, 0xc5, 0xc6:
			h.K = Bin
			body(num(1 << (c - 0xc4)))
		case 0xc7, 0xc8, 0xc9:
			h.K = Ext
			n := num(1 << (c - 0xc7))
			h.T = int8(num(1))
			body(n)
		case 0xca:
			h.K, h.U = F32, num(4)
		case 0xcb:
			h.K, h.U = F64, num(8)
		case 0xcc, 0xcd, 0xce, 0xcf:
			h.Val = U(num(1 << (c - 0xcc)))
		case 0xd0:
			h.Val = I(int64(int8(num(1))))
		case 0xd1:
			h.Val = I(int64(int16(num(2))))
		case 0xd2:
			h.Val = I(int64(int32(num(4))))
		case 0xd3:
			h.Val = I(int64(num(8)))
		case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
			h.K = Ext
			h.T = int8(num(1))
			body(1 << (c - 0xd4))
		case 0xd9, 0xda, 0xdb:
			h.K = Str
			body(num(1 << (c - 0xd9)))
		case 0xdc, 0xdd:
			h.K, h.Len = Arr, int(num(2<<(c-0xdc)))
		case 0xde, 0xdf:
			h.K, h.Len = Map, int(num(2<<(c-0xde)))
		}
	}
	return h, err
}

// Decode reads one value and the number of bytes it takes.
func Decode(b []byte) (Val, int, error) {
	h, err := Peek(b)
	if err != nil {
		return Val{}, 0, err
	}
	at := h.Size
	switch h.K {
	case Arr:
		for i := 0; i < h.Len; i++ {
			v, n, err := Decode(b[at:])
			if err != nil {
				return Val{}, 0, err
			}
			at += n
			h.A = append(h.A, v)
		}
	case Map:
		for i := 0; i < h.Len; i++ {
			k, n, err := Decode(b[at:])
			if err != nil {
				return Val{}, 0, err
			}
			at += n
			v, n, err := Decode(b[at:])
			if err != nil {
				return Val{}, 0, err
			}
			at += n
			h.M = append(h.M, Pair{k, v})
		}
	}
	return h.Val, at, nil
}

// Skip is the number of bytes of the value at the start of b.
func Skip(b []byte) (int, error) {
	at := 0
	for left := uint64(1); left > 0; left-- {
		h, err := Peek(b[at:])
		if err != nil {
			return 0, err
		}
		at += h.Size
		switch h.K {
		case Arr:
			left += uint64(h.Len)
		case Map:
			left += 2 * uint64(h.Len)
		}
	}
	return at, nil
}

// Encode appends v. Without r it is encoded in the fewest bytes, with r in any
// of the valid formats.
func Encode(b []byte, v Val, r *rand.Rand) []byte {
	// widen picks one of the formats from the least index that fits.
	widen := func(least, most int) int {
		if r == nil || r.IntN(2) == 0 {
			return least
		}
		return least + r.IntN(most-least+1)
	}
	be := func(u uint64, n int) {
		for i := n - 1; i >= 0; i-- {
			b = append(b, byte(u>>(8*i)))
		}
	}
	width := func(u uint64) int {
		switch {
		case u < 1<<8:
			return 0
		case u < 1<<16:
			return 1
		case u < 1<<32:
			return 2
		}
		return 3
	}
	switch v.K {
	case Nil:
		b = append(b, 0xc0)
	case Bool:
		b = append(b, 0xc2+byte(v.N))
	case Int:
		if v.N < 0 {
			least := 4
			switch {
			case v.N >= -32:
				least = 0
			case v.N >= math.MinInt8:
				least = 1
			case v.N >= math.MinInt16:
				least = 2
			case v.N >= math.MinInt32:
				least = 3
			}
			if w := widen(least, 4); w == 0 {
				b = append(b, byte(v.N))
			} else {
				b = append(b, 0xcf+byte(w))
				be(uint64(v.N), 1<<(w-1))
			}
			break
		}
		if r != nil && v.U <= math.MaxInt64 && r.IntN(3) == 0 {
			// as a signed integer
			least := 4
			switch {
			case v.U <= math.MaxInt8:
				least = 1
			case v.U <= math.MaxInt16:
				least = 2
			case v.U <= math.MaxInt32:
				least = 3
			}
			w := widen(least, 4)
			b = append(b, 0xcf+byte(w))
			be(v.U, 1<<(w-1))
			break
		}
		least := width(v.U) + 1
		if v.U < 128 {
			least = 0
		}
		if w := widen(least, 4); w == 0 {
			b = append(b, byte(v.U))
		} else {
			b = append(b, 0xcb+byte(w))
			be(v.U, 1<<(w-1))
		}
	case F32:
		b = append(b, 0xca)
		be(v.U, 4)
	case F64:
		b = append(b, 0xcb)
		be(v.U, 8)
	case Str:
		least := width(uint64(len(v.S))) + 1
		if len(v.S) < 32 {
			least = 0
		}
		if w := widen(least, 3); w == 0 {
			b = append(b, 0xa0|byte(len(v.S)))
		} else {
			b = append(b, 0xd8+byte(w))
			be(uint64(len(v.S)), 1<<(w-1))
		}
		b = append(b, v.S...)
	case Bin:
		w := widen(width(uint64(len(v.S))), 2)
		b = append(b, 0xc4+byte(w))
		be(uint64(len(v.S)), 1<<w)
		b = append(b, v.S...)
	case Ext:
		if _, ok := v.AsTime(); ok {
			r = nil // the specification names one format for each length
		}
		fixed := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[len(v.S)]
		if fixed != 0 && (r == nil || r.IntN(2) == 0) {
			b = append(b, fixed)
		} else {
			w := widen(width(uint64(len(v.S))), 2)
			b = append(b, 0xc7+byte(w))
			be(uint64(len(v.S)), 1<<w)
		}
		b = append(b, byte(v.T))
		b = append(b, v.S...)
	case Arr:
		b = size(b, len(v.A), 0x90, 0xdc, widen)
		for _, e := range v.A {
			b = Encode(b, e, r)
		}
	case Map:
		b = size(b, len(v.M), 0x80, 0xde, widen)
		for _, p := range v.M {
			b = Encode(b, p.K, r)
			b = Encode(b, p.V, r)
		}
	}
	return b
}

func size(b []byte, n int, fix, wide byte, widen func(int, int) int) []byte {
	least := 2
	if n < 16 {
		least = 0
	} else if n < 1<<16 {
		least = 1
	}
	switch widen(least, 2) {
	case 0:
		return append(b, fix|byte(n))
	case 1:
		return append(b, wide, byte(n>>8), byte(n))
	}
	return append(b, wide+1, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

// Canon is the shortest encoding with the pairs of maps in order. Times are equal
// if their instants are.
func Canon(v Val) []byte { return canon(nil, v) }

func canon(b []byte, v Val) []byte {
	switch v.K {
	case F32:
		if f := v.Float32(); f != f {
			v.U = 0x7fc00000
		}
		return Encode(b, v, nil)
	case F64:
		if f := v.Float64(); f != f {
			v.U = 0x7ff8000000000000
		}
		return Encode(b, v, nil)
	case Arr:
		b = binary.BigEndian.AppendUint32(append(b, 0xdd), uint32(len(v.A)))
		for _, e := range v.A {
			b = append(b, canon(nil, e)...)
		}
	case Map:
		var ps []string
		for _, p := range v.M {
			ps = append(ps, string(Canon(p.K))+string(Canon(p.V)))
		}
		sort.Strings(ps)
		b = binary.BigEndian.AppendUint32(append(b, 0xdf), uint32(len(v.M)))
		for _, p := range ps {
			b = append(b, p...)
		}
	case Ext:
		if t, ok := v.AsTime(); ok {
			v = Time(t)
		}
		return Encode(b, v, nil)
	default:
		return Encode(b, v, nil)
	}
	return b
}

// Same compares two values.
func Same(a, b Val) bool { return bytes.Equal(Canon(a), Canon(b)) }

// Ambiguous tells whether v has a map with equal keys, or a key or extension
// that is no Go value of the dynamic reader.
func (v Val) Ambiguous() bool {
	seen := map[string]bool{}
	for _, p := range v.M {
		k := string(Canon(p.K))
		if p.K.K == F32 && p.K.Float32() == 0 || p.K.K == F64 && p.K.Float64() == 0 {
			k = string(rune(p.K.K)) // the zeros are one key in Go
		}
		if seen[k] || p.K.Ambiguous() || p.V.Ambiguous() {
			return true
		}
		seen[k] = true
	}
	for _, e := range v.A {
		if e.Ambiguous() {
			return true
		}
	}
	return false
}

// Dynamic tells whether the dynamic reader has a Go value for v, given the
// bytes it was encoded as: no extensions but timestamps and only scalar keys.
func (v Val) Dynamic() bool {
	for _, p := range v.M {
		if p.K.K == Bin || p.K.K == Arr || p.K.K == Map || !p.K.Dynamic() || !p.V.Dynamic() {
			return false
		}
	}
	for _, e := range v.A {
		if !e.Dynamic() {
			return false
		}
	}
	if v.K == Ext {
		_, ok := v.AsTime()
		return ok
	}
	return true
}

// Depth is the nesting of containers.
func (v Val) Depth() int {
	d := 0
	for _, p := range v.M {
		d = max(d, p.K.Depth(), p.V.Depth())
	}
	for _, e := range v.A {
		d = max(d, e.Depth())
	}
	return d + 1
}

func (v Val) String() string {
	s := v.str()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (v Val) str() string {
	switch v.K {
	case Nil:
		return "nil"
	case Bool:
		return fmt.Sprint(v.N == 1)
	case Int:
		if v.N < 0 {
			return fmt.Sprint(v.N)
		}
		return fmt.Sprint(v.U)
	case F32:
		return fmt.Sprintf("%vf(%#x)", v.Float32(), v.U)
	case F64:
		return fmt.Sprintf("%vd(%#x)", v.Float64(), v.U)
	case Str:
		if len(v.S) > 40 {
			return fmt.Sprintf("str[%d]%q...", len(v.S), v.S[:20])
		}
		return fmt.Sprintf("%q", v.S)
	case Bin:
		if len(v.S) > 40 {
			return fmt.Sprintf("bin[%d]%x...", len(v.S), v.S[:20])
		}
		return fmt.Sprintf("bin(%x)", v.S)
	case Ext:
		if t, ok := v.AsTime(); ok {
			return t.UTC().Format(time.RFC3339Nano)
		}
		return fmt.Sprintf("ext(%d,%.20x)", v.T, v.S)
	}
	var p []string
	for i, e := range v.A {
		if i == 20 {
			p = append(p, fmt.Sprintf("...%d", len(v.A)))
			break
		}
		p = append(p, e.String())
	}
	for i, e := range v.M {
		if i == 20 {
			p = append(p, fmt.Sprintf("...%d", len(v.M)))
			break
		}
		p = append(p, e.K.String()+":"+e.V.String())
	}
	if v.K == Map {
		return "{" + strings.Join(p, " ") + "}"
	}
	return "[" + strings.Join(p, " ") + "]"
}

// Of is the value a Go value stands for.
func Of(x any) Val {
	switch x := x.(type) {
	case nil:
		return Val{}
	case Val:
		return x
	case time.Time:
		return Time(x)
	case []byte:
		return B(x)
	case float32:
		return FF(x)
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return Val{K: Bool, N: 1}
		}
		return Val{K: Bool}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return I(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return U(v.Uint())
	case reflect.Float32:
		return FF(float32(v.Float()))
	case reflect.Float64:
		return FD(v.Float())
	case reflect.String:
		return S(v.String())
	case reflect.Slice:
		a := Val{K: Arr}
		for i := 0; i < v.Len(); i++ {
			a.A = append(a.A, Of(v.Index(i).Interface()))
		}
		return a
	case reflect.Map:
		m := Val{K: Map}
		for it := v.MapRange(); it.Next(); {
			m.M = append(m.M, Pair{Of(it.Key().Interface()), Of(it.Value().Interface())})
		}
		return m
	case reflect.Pointer:
		if v.IsNil() {
			return Val{}
		}
		return Of(v.Elem().Interface())
	}
	panic(fmt.Sprintf("no value for %T", x))
}
