//go:build go1.22

package msgkit

import (
	"math"
	"math/rand/v2"
	"time"
)

// Edges are the integers around every boundary of an encoding width.
func Edges() (s []int64, u []uint64) {
	add := func(v uint64) {
		for d := uint64(0); d < 5; d++ {
			u = append(u, v+d-2)
			s = append(s, int64(v+d-2), -int64(v+d-2))
		}
	}
	for _, v := range []uint64{0, 5, 1 << 4, 1 << 5, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63} {
		add(v)
	}
	return append(s, math.MinInt64, math.MinInt64+1), u
}

// Lengths are the lengths around every boundary.
func Lengths() (l []int) {
	for _, v := range []int{1, 15, 16, 31, 32, 127, 128, 255, 256, 65535, 65536} {
		l = append(l, v-1, v, v+1)
	}
	return append(l, 300, 1000, 70000)
}

func length(r *rand.Rand, small bool) int {
	switch {
	case small || r.IntN(3) > 0:
		return r.IntN(6)
	case r.IntN(40) == 0:
		return 65530 + r.IntN(12)
	case r.IntN(3) == 0:
		return 250 + r.IntN(12)
	}
	return r.IntN(60)
}

func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// Int64 is an integer with a random number of bits.
func Int64(r *rand.Rand) int64 {
	s, _ := Edges()
	if r.IntN(3) == 0 {
		return s[r.IntN(len(s))]
	}
	return int64(r.Uint64()) >> r.IntN(64)
}

func Uint64(r *rand.Rand) uint64 {
	_, u := Edges()
	if r.IntN(3) == 0 {
		return u[r.IntN(len(u))]
	}
	return r.Uint64() >> r.IntN(64)
}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 0.1, 1 << 53}

func Float64(r *rand.Rand) float64 {
	if r.IntN(2) == 0 {
		return floats[r.IntN(len(floats))]
	}
	return math.Float64frombits(r.Uint64())
}

func Float32(r *rand.Rand) float32 {
	if r.IntN(2) == 0 {
		return float32(floats[r.IntN(len(floats))])
	}
	return math.Float32frombits(r.Uint32())
}

// When is a time of years 0 to 9999 whose zone has whole minutes.
func When(r *rand.Rand) time.Time {
	var sec int64
	switch r.IntN(6) {
	case 0:
		return time.Time{}
	case 1:
		sec = []int64{0, 1, -1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, 1<<34 + 1, -62135596800, 253402300799 - 86400}[r.IntN(12)]
	case 2:
		sec = int64(r.Uint32())
	default:
		sec = -62135596800 + 86400 + r.Int64N(253402300799+62135596800-200000)
	}
	var ns int64
	switch r.IntN(4) {
	case 0:
		ns = []int64{1, 999999999, 500000000, 1000}[r.IntN(4)]
	case 1:
		ns = r.Int64N(1e9)
	}
	t := time.Unix(sec, ns)
	switch r.IntN(3) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("Z", 60*(r.IntN(1440)-720)))
	}
	return t
}

func Text(r *rand.Rand, n int) string {
	if r.IntN(4) == 0 {
		return string(Bytes(r, n))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + r.IntN(95))
	}
	return string(b)
}

// Gen is a random value nested at most depth deep. Foreign values have
// extensions and keys of any kind.
func Gen(r *rand.Rand, depth int, foreign bool) Val {
	n := r.IntN(13)
	if depth <= 0 {
		n = r.IntN(9)
	}
	small := depth < 3
	switch n {
	case 0:
		return Val{}
	case 1:
		return Val{K: Bool, N: int64(r.IntN(2))}
	case 2:
		return I(Int64(r))
	case 3:
		return U(Uint64(r))
	case 4:
		return FF(Float32(r))
	case 5:
		return FD(Float64(r))
	case 6:
		return S(Text(r, length(r, small)))
	case 7:
		return B(Bytes(r, length(r, small)))
	case 8:
		if foreign && r.IntN(2) == 0 {
			return Val{K: Ext, T: int8(r.Uint32()), S: Bytes(r, []int{0, 1, 2, 3, 4, 5, 8, 12, 15, 16, 17, 255, 256, 300}[r.IntN(14)])}
		}
		return Time(When(r))
	case 9, 10:
		a := Val{K: Arr}
		l := length(r, small)
		if l > 1000 && r.IntN(3) > 0 {
			l = 20
		}
		d := depth - 1
		if l > 10 {
			d = 0
		}
		for i := 0; i < l; i++ {
			a.A = append(a.A, Gen(r, min(d, 2), foreign))
			if l > 1000 {
				a.A[i] = I(int64(i))
			}
		}
		return a
	default:
		m := Val{K: Map}
		l := length(r, small)
		if l > 1000 && r.IntN(6) > 0 {
			l = 20
		}
		d := depth - 1
		if l > 10 {
			d = 0
		}
		for i := 0; i < l; i++ {
			k := Gen(r, 0, foreign)
			if !foreign && k.K == Bin || l > 10 {
				k = U(uint64(i))
			}
			if foreign && r.IntN(30) == 0 {
				k = Gen(r, 1, foreign)
			}
			v := I(int64(i))
			if l < 1000 {
				v = Gen(r, min(d, 2), foreign)
			}
			m.M = append(m.M, Pair{k, v})
		}
		return m
	}
}

// Go is a random Go value of a type WriteAny knows.
func Go(r *rand.Rand, depth int) any {
	if depth > 0 && r.IntN(3) == 0 {
		return Container(r, depth)
	}
	switch r.IntN(17) {
	case 0:
		return nil
	case 1:
		return r.IntN(2) == 0
	case 2:
		return int(Int64(r))
	case 3:
		return int8(Int64(r))
	case 4:
		return int16(Int64(r))
	case 5:
		return int32(Int64(r))
	case 6:
		return Int64(r)
	case 7:
		return uint(Uint64(r))
	case 8:
		return uint8(Uint64(r))
	case 9:
		return uint16(Uint64(r))
	case 10:
		return uint32(Uint64(r))
	case 11:
		return Uint64(r)
	case 12:
		return Float32(r)
	case 13:
		return Float64(r)
	case 14:
		return Text(r, length(r, depth < 3))
	case 15:
		return Bytes(r, length(r, depth < 3))
	}
	return When(r)
}

func slice[E any](r *rand.Rand, n int, f func(*rand.Rand) E) []E {
	s := make([]E, n)
	for i := range s {
		s[i] = f(r)
	}
	return s
}

func table[K comparable, V any](r *rand.Rand, n int, k func(*rand.Rand) K, f func(*rand.Rand) V) map[K]V {
	m := make(map[K]V, n)
	for i := 0; i < n; i++ {
		m[k(r)] = f(r)
	}
	return m
}

// Containers is the number of container types of WriteAny.
const Containers = 28

// Container is a random Go container of a type WriteAny knows.
func Container(r *rand.Rand, depth int) any {
	return ContainerOf(r, depth, r.IntN(Containers), length(r, depth < 3))
}

func ContainerOf(r *rand.Rand, depth, kind, n int) any {
	d := depth - 1
	if n > 10 {
		d = 0
	}
	elem := func(r *rand.Rand) any {
		if n > 1000 {
			return r.IntN(300)
		}
		return Go(r, d)
	}
	text := func(r *rand.Rand) string { return Text(r, length(r, true)) }
	i64 := Int64
	u64 := Uint64
	switch kind {
	case 0, 1:
		return slice(r, n, elem)
	case 2:
		return slice(r, n, text)
	case 3:
		return slice(r, n, When)
	case 4:
		return slice(r, n, func(r *rand.Rand) bool { return r.IntN(2) == 0 })
	case 5:
		return slice(r, n, func(r *rand.Rand) int { return int(i64(r)) })
	case 6:
		return slice(r, n, func(r *rand.Rand) int8 { return int8(i64(r)) })
	case 7:
		return slice(r, n, func(r *rand.Rand) int16 { return int16(i64(r)) })
	case 8:
		return slice(r, n, func(r *rand.Rand) int32 { return int32(i64(r)) })
	case 9:
		return slice(r, n, i64)
	case 10:
		return slice(r, n, func(r *rand.Rand) uint { return uint(u64(r)) })
	case 11:
		return Bytes(r, n)
	case 12:
		return slice(r, n, func(r *rand.Rand) uint16 { return uint16(u64(r)) })
	case 13:
		return slice(r, n, func(r *rand.Rand) uint32 { return uint32(u64(r)) })
	case 14:
		return slice(r, n, u64)
	case 15:
		return table(r, n, text, text)
	case 16:
		return table(r, n, text, elem)
	case 17:
		return table(r, n, func(r *rand.Rand) int { return int(i64(r)) }, elem)
	case 18:
		return table(r, n, func(r *rand.Rand) int8 { return int8(i64(r)) }, elem)
	case 19:
		return table(r, n, func(r *rand.Rand) int16 { return int16(i64(r)) }, elem)
	case 20:
		return table(r, n, func(r *rand.Rand) int32 { return int32(i64(r)) }, elem)
	case 21:
		return table(r, n, i64, elem)
	case 22:
		return table(r, n, func(r *rand.Rand) uint { return uint(u64(r)) }, elem)
	case 23:
		return table(r, n, func(r *rand.Rand) uint8 { return uint8(u64(r)) }, elem)
	case 24:
		return table(r, n, func(r *rand.Rand) uint16 { return uint16(u64(r)) }, elem)
	case 25:
		return table(r, n, func(r *rand.Rand) uint32 { return uint32(u64(r)) }, elem)
	case 26:
		return table(r, n, u64, elem)
	default:
		// keys that are different values, not only different Go types
		m := map[any]any{}
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				m[Text(r, 3)] = elem(r)
			case 1:
				m[int64(-1-r.IntN(1<<20))] = elem(r)
			case 2:
				m[uint64(r.Uint32())] = elem(r)
			case 3:
				m[float64(r.IntN(1000))+0.5] = elem(r)
			}
		}
		return m
	}
}
