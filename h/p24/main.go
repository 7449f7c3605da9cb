//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/verifh/kit"
	mk "github.com/nanobus/iota/go/verifh/msgkit"
)

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func exact(b []byte) []byte {
	in := append(make([]byte, 0, len(b)), b...)
	return in[:len(in):len(in)]
}

// skip skips the value b and expects what follows to be read correctly.
func skip(t *kit.T, b []byte) {
	r := t.Rand
	next := mk.Gen(r, 1, false)
	if r.IntN(2) == 0 {
		next = mk.U(mk.Uint64(r))
	}
	in := mk.Encode(exact(b), next, r)
	what := func() string { return fmt.Sprintf("%d bytes %.60x before %v", len(b), b, next) }
	t.Guard("skip", what, func() {
		d := msgpack.NewDecoder(exact(in))
		if err := d.Skip(); err != nil {
			t.Violate("a value is not skipped", "%s: %v", what(), err)
			return
		}
		got, err := d.ReadAny()
		if c, _, _ := mk.Judge(mk.Find("ReadAny"), in[len(b):], got, err); c != "" {
			t.Violate("what follows is misread", "%s: %s", what(), c)
			return
		}
		if err := d.Skip(); err == nil {
			t.Violate("the end of the input is skipped", "%s", what())
		}
	})
	kit.Count("values skipped", 1)
	t.CaseHash(hash(b), true)
}

// cut skips the value b without its end.
func cut(t *kit.T, b []byte, n int) {
	what := func() string { return fmt.Sprintf("%d of %d bytes %.60x", n, len(b), b) }
	t.Guard("skip", what, func() {
		d := msgpack.NewDecoder(exact(b[:n]))
		if err := d.Skip(); err == nil {
			t.Violate("truncated value skipped", "%s", what())
		}
	})
	kit.Count("truncated values", 1)
}

func cuts(t *kit.T, b []byte) {
	if len(b) <= 80 {
		for n := range b {
			cut(t, b, n)
		}
		return
	}
	for i := 0; i < 20; i++ {
		cut(t, b, t.Rand.IntN(len(b)))
	}
	cut(t, b, len(b)-1)
	for n := 0; n < 8; n++ {
		cut(t, b, n)
	}
}

// formats is one value of each first byte but the unused one.
func formats(t *kit.T) {
	for c := 0; c < 256; c++ {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 13, 16, 17, 255, 256, 257, 65535, 65536} {
			if t.Failed() {
				return
			}
			if c == 0xc1 {
				continue
			}
			// build a value with this first byte and, where it declares one, length n
			var b []byte
			elems := 0
			fill := func(w, n int) {
				for i := w - 1; i >= 0; i-- {
					b = append(b, byte(n>>(8*i)))
				}
			}
			b = append(b, byte(c))
			body := 0
			width := 0
			switch {
			case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
			case c < 0x90:
				elems = 2 * (c & 15)
			case c < 0xa0:
				elems = c & 15
			case c < 0xc0:
				body = c & 31
			case c >= 0xc4 && c <= 0xc6:
				width, body = 1<<(c-0xc4), n
			case c >= 0xc7 && c <= 0xc9:
				width, body = 1<<(c-0xc7), n+1
			case c == 0xca:
				body = 4
			case c == 0xcb:
				body = 8
			case c >= 0xcc && c <= 0xcf:
				body = 1 << (c - 0xcc)
			case c >= 0xd0 && c <= 0xd3:
				body = 1 << (c - 0xd0)
			case c >= 0xd4 && c <= 0xd8:
				body = 1 + 1<<(c-0xd4)
			case c >= 0xd9 && c <= 0xdb:
				width, body = 1<<(c-0xd9), n
			case c == 0xdc || c == 0xdd:
				width, elems = 2<<(c-0xdc), n
			case c == 0xde || c == 0xdf:
				width, elems = 2<<(c-0xde), 2*n
			}
			if width > 0 {
				if width < 3 && n >= 1<<(8*width) {
					continue
				}
				fill(width, n)
			}
			b = append(b, mk.Bytes(t.Rand, body)...)
			for ; elems > 0; elems-- {
				b = append(b, byte(t.Rand.IntN(128)))
			}
			skip(t, b)
			cuts(t, b)
			kit.Count("formats and lengths", 1)
		}
	}
}

func values(t *kit.T, foreign bool) {
	for i, n := 0, kit.N(25000, 400000); i < n && !t.Failed(); i++ {
		var b []byte
		if foreign {
			b = mk.Encode(nil, mk.Gen(t.Rand, 4, true), t.Rand)
		} else {
			v := mk.Go(t.Rand, 4)
			var err error
			if b, err = msgpack.AnyToBytes(v); err != nil {
				t.Violate("not encoded", "%T: %v", v, err)
				return
			}
		}
		skip(t, b)
		if i%4 == 0 {
			cuts(t, b)
		}
		if t.Wants() {
			t.Sample("%.40x", b)
		}
	}
}

// mixed skips some values of a stream and reads the others.
func mixed(t *kit.T) {
	r := t.Rand
	for i, n := 0, kit.N(30000, 400000); i < n && !t.Failed(); i++ {
		var b []byte
		var at []int
		l := 2 + r.IntN(10)
		for j := 0; j < l; j++ {
			at = append(at, len(b))
			b = mk.Encode(b, mk.Gen(r, 2, true), r)
		}
		at = append(at, len(b))
		what := func() string { return fmt.Sprintf("stream of %d bytes %.80x", len(b), b) }
		t.Guard("skip", what, func() {
			d := msgpack.NewDecoder(exact(b))
			for j := 0; j < l; j++ {
				v, _, _ := mk.Decode(b[at[j]:])
				if r.IntN(2) == 0 || !v.Dynamic() {
					if err := d.Skip(); err != nil {
						t.Violate("a value is not skipped", "%s: at %d: %v", what(), at[j], err)
						return
					}
					continue
				}
				got, err := d.ReadAny()
				c, n, on := mk.Judge(mk.Find("ReadAny"), b[at[j]:], got, err)
				if c != "" {
					t.Violate("what follows is misread", "%s: at %d: %s", what(), at[j], c)
					return
				}
				if !on {
					return
				}
				if n != at[j+1]-at[j] {
					t.Violate("harness", "%s: at %d", what(), at[j])
				}
			}
			if err := d.Skip(); err == nil {
				t.Violate("the end of the input is skipped", "%s", what())
			}
			kit.Count("streams of skipped and read values", 1)
		})
		t.CaseHash(hash(b), true)
	}
}

// malformed puts the byte that begins no value where a value is due.
func malformed(t *kit.T) {
	r := t.Rand
	for i, n := 0, kit.N(30000, 300000); i < n && !t.Failed(); i++ {
		v := mk.Gen(r, 3, true)
		if v.K != mk.Arr && v.K != mk.Map {
			v = mk.Val{K: mk.Arr, A: []mk.Val{v, {}}}
		}
		b := mk.Encode(nil, v, r)
		// the starts of values
		var at []int
		for p := 0; p < len(b); {
			h, err := mk.Peek(b[p:])
			if err != nil {
				panic(err)
			}
			at = append(at, p)
			p += h.Size
		}
		p := at[r.IntN(len(at))]
		bad := append([]byte(nil), b...)
		bad[p] = 0xc1
		what := func() string { return fmt.Sprintf("%.80x, at %d", bad, p) }
		t.Guard("skip", what, func() {
			d := msgpack.NewDecoder(exact(bad))
			if err := d.Skip(); err == nil {
				t.Violate("malformed value skipped", "%s", what())
			}
		})
		kit.Count("malformed values", 1)
		t.CaseHash(hash(bad), true)
	}
}

func deep(t *kit.T) {
	n := kit.N(1_000_000, 10_000_000)
	for _, u := range [][2][]byte{{{0x91}, nil}, {{0x81, 0x01}, nil}, {{0x92, 0x01}, nil}, {{0x92}, {0x01}}, {{0x82, 0x01}, {0x02, 0x03}}, {{0xdc, 0, 1}, nil}, {{0xdf, 0, 0, 0, 1, 0xa1, 'k'}, nil}} {
		b := append(append(bytes.Repeat(u[0], n), 0xc0), bytes.Repeat(u[1], n)...)
		begun := time.Now()
		skip(t, b)
		cut(t, b, len(b)-1)
		cut(t, b, len(b)/2)
		if d := time.Since(begun); d > 60*time.Second {
			t.Violate("skipping takes too long", "%.10x: %v", b, d)
		}
		kit.Count("deeply nested values", 1)
	}
	// children that add up to more than 32 bits, but are not there
	for _, b := range [][]byte{{0xdf, 0x80, 0, 0, 0}, {0xdf, 0xff, 0xff, 0xff, 0xff, 1}, {0xdd, 0xff, 0xff, 0xff, 0xff, 0xdd, 0, 0, 0, 1}, {0x92, 0xdf, 0x7f, 0xff, 0xff, 0xff, 0xdf, 0x80, 0, 0, 1}, {0xdf, 0x80, 0, 0, 1, 1, 2, 3, 4}} {
		for _, tail := range [][]byte{nil, {0}, {0, 0}, {0, 0, 0, 0}} {
			b := append(append([]byte(nil), b...), tail...)
			cut(t, b, len(b))
		}
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P24",
		Rule:     "Values of every first byte and boundary length, dynamic values as the encoder writes them and in every valid foreign format with extensions, deep nesting; each is skipped and what follows compared with a reference decoder, and skipped truncated (every length of short values) and malformed. Distinct by bytes.",
		Scenarios: []kit.Scenario{
			{Name: "every format", Run: formats},
			{Name: "own encodings", Run: func(t *kit.T) { values(t, false) }},
			{Name: "foreign encodings", Run: func(t *kit.T) { values(t, true) }},
			{Name: "streams", Run: mixed},
			{Name: "malformed", Run: malformed},
			{Name: "nesting", Run: deep},
		},
	})
}
