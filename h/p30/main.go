//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"unicode/utf8"

	"github.com/tetratelabs/wabin/binary"
	"github.com/tetratelabs/wabin/wasm"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
	"github.com/nanobus/iota/go/verifh/kit"
)

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// leb writes a length in n bytes, or in as few as it takes.
func leb(b []byte, v uint32, n int) []byte {
	for i := 1; ; i++ {
		c := byte(v & 0x7f)
		v >>= 7
		if v == 0 && i >= n {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

type section struct {
	id   byte
	name string
	data []byte
}

func (s section) content(r *rand.Rand) (b []byte) {
	if s.id == 0 {
		b = leb(b, uint32(len(s.name)), wide(r))
		b = append(b, s.name...)
	}
	return append(b, s.data...)
}

func wide(r *rand.Rand) int {
	if r == nil || r.IntN(3) > 0 {
		return 1
	}
	return 1 + r.IntN(5)
}

var header = []byte{0, 'a', 's', 'm', 1, 0, 0, 0}

func module(r *rand.Rand, ss []section) []byte {
	b := append([]byte(nil), header...)
	for _, s := range ss {
		c := s.content(r)
		b = append(b, s.id)
		b = leb(b, uint32(len(c)), wide(r))
		b = append(b, c...)
	}
	return b
}

var errRef = errors.New("malformed")

// reference reads all custom sections; clean tells that nothing else about
// the module is wrong.
func reference(b []byte) (ss []section, clean bool, err error) {
	at := 0
	fail := false
	take := func(end, n int) []byte {
		if n < 0 || end-at < n {
			fail = true
			return nil
		}
		at += n
		return b[at-n : at]
	}
	num := func(end int) int {
		v := uint64(0)
		for i := 0; i < 5; i++ {
			c := take(end, 1)
			if fail {
				return 0
			}
			if i == 4 && c[0] > 15 {
				fail = true
				return 0
			}
			v |= uint64(c[0]&0x7f) << (7 * i)
			if c[0] < 0x80 {
				return int(v)
			}
		}
		fail = true
		return 0
	}
	if !bytes.Equal(take(len(b), 8), header) {
		return nil, false, errRef
	}
	clean = true
	for at < len(b) {
		id := take(len(b), 1)[0]
		n := num(len(b))
		if fail || len(b)-at < n {
			return nil, false, errRef
		}
		end := at + n
		if id != 0 {
			clean = clean && id <= 12
			at = end
			continue
		}
		k := num(end)
		name := string(take(end, k))
		if fail || !utf8.ValidString(name) {
			return nil, false, errRef
		}
		ss = append(ss, section{0, name, b[at:end]})
		at = end
	}
	return ss, clean, nil
}

func read(t *kit.T, b []byte, kind string, names ...string) {
	ref, clean, werr := reference(b)
	what := func() string { return fmt.Sprintf("%s: %q of %d bytes %.100x", kind, names, len(b), b) }
	in := append([]byte(nil), b...)
	in = in[:len(in):len(in)]
	t.Guard("reading sections", what, func() {
		var m0, m1 runtime.MemStats
		measured := t.Rand.IntN(8) == 0
		if measured {
			runtime.ReadMemStats(&m0)
		}
		got, err := customsections.Read(in, names...)
		if measured {
			runtime.ReadMemStats(&m1)
			if d := m1.TotalAlloc - m0.TotalAlloc; d > 256*1024+40*uint64(len(b)) {
				t.Violate("too much is allocated", "%s: %d bytes", what(), d)
			}
		}
		if !bytes.Equal(in, b) {
			t.Violate("reading changes the module", "%s", what())
		}
		for i := range in {
			in[i] ^= 0x5a
		}
		if werr != nil {
			if err == nil {
				t.Violate("a malformed module is read", "%s: %v", what(), got)
			}
			kit.Count("malformed modules", 1)
			return
		}
		if err != nil {
			if clean {
				t.Violate("a module is refused", "%s: %v", what(), err)
			}
			return
		}
		wanted := map[string]bool{}
		for _, n := range names {
			wanted[n] = true
		}
		exists := map[string]bool{}
		for _, s := range ref {
			exists[s.name] = true
		}
		for n, s := range got {
			if s == nil || !wanted[n] || s.Name != n {
				t.Violate("a section that was not asked for", "%s: %q %v", what(), n, s)
				continue
			}
			ok := false
			for _, c := range ref { // any of those with this name
				ok = ok || (c.name == n && bytes.Equal(c.data, s.Data))
			}
			if !ok {
				t.Violate("a section is misread", "%s: %q has %d bytes %.60x", what(), n, len(s.Data), s.Data)
			}
			kit.Count("sections read", 1)
		}
		for n := range wanted {
			if exists[n] && got[n] == nil {
				t.Violate("a section is not found", "%s: %q", what(), n)
			}
		}
		kit.Count("modules", 1)
	})
	t.CaseHash(hash(b), true)
}

var words = []string{"", "a", "name", "wasmrs_ops", "wasmrs", "wasmrs_opz", "WASMRS_OPS", "producers", "é", "日本", "\x00", "a b", "wasmrs_ops\x00"}

func name(r *rand.Rand) string {
	if r.IntN(12) == 0 {
		return string(bytes.Repeat([]byte("n"), []int{127, 128, 129, 300, 16383, 16384}[r.IntN(6)]))
	}
	return words[r.IntN(len(words))]
}

func blob(r *rand.Rand) []byte {
	n := r.IntN(20)
	switch r.IntN(12) {
	case 0:
		n = 0
	case 1:
		n = []int{115, 116, 117, 127, 128, 129, 255, 256, 16370, 16383, 16384, 16385}[r.IntN(12)]
	case 2:
		n = r.IntN(1000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	if n > 12 && r.IntN(4) == 0 { // looks like another section
		copy(b, module(nil, []section{{0, "wasmrs_ops", []byte("decoy")}})[8:])
	}
	return b
}

func sections(r *rand.Rand) (ss []section) {
	for n := r.IntN(9); n > 0; n-- {
		s := section{data: blob(r)}
		if r.IntN(2) == 0 {
			s.id = byte(1 + r.IntN(12))
		} else {
			s.name = name(r)
		}
		ss = append(ss, s)
	}
	return ss
}

func pick(r *rand.Rand, ss []section) (ns []string) {
	for _, s := range ss {
		if s.id == 0 && r.IntN(2) == 0 {
			ns = append(ns, s.name)
		}
	}
	for n := r.IntN(3); n > 0; n-- {
		ns = append(ns, name(r))
	}
	return ns
}

func wellFormed(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(25_000, 500_000); i++ {
		ss := sections(r)
		b := module(r, ss)
		if _, clean, err := reference(b); err != nil || !clean {
			panic("bad module")
		}
		read(t, b, "well-formed", pick(r, ss)...)
		if i%10 == 0 {
			read(t, b, "all", words...)
			read(t, b, "none")
		}
		if t.Failed() {
			return
		}
	}
	// a section is found behind and before large ones
	for _, n := range []int{1 << 16, 1<<21 - 1, 1 << 21, 5 << 20} {
		big := bytes.Repeat([]byte{0, 1, 0xff}, n/3)
		ss := []section{{10, "", big}, {0, "wasmrs_ops", []byte("x")}, {0, "big", big}, {11, "", big}, {0, "last", []byte("y")}}
		read(t, module(r, ss), "large", "wasmrs_ops", "big", "last")
	}
}

// real has another encoder write the module and an operation table in it.
func real(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(2000, 50_000); i++ {
		m := &wasm.Module{}
		if r.IntN(2) == 0 {
			m.TypeSection = []*wasm.FunctionType{{}}
			m.FunctionSection = []wasm.Index{0}
			m.CodeSection = []*wasm.Code{{Body: []byte{0x0b}}}
		}
		var tb operations.Table
		for n := r.IntN(20); n > 0; n-- {
			tb = append(tb, operations.Operation{Index: r.Uint32(), Type: operations.RequestType(1 + r.IntN(4)), Direction: operations.Direction(1 + r.IntN(2)), Namespace: name(r), Operation: name(r)})
		}
		at := r.IntN(3)
		for j := 0; j < 3; j++ {
			if j == at {
				m.CustomSections = append(m.CustomSections, &wasm.CustomSection{Name: "wasmrs_ops", Data: tb.ToBytes()})
			} else if n := words[r.IntN(len(words))]; n != "name" && n != "wasmrs_ops" { // the encoder miswrites long names
				m.CustomSections = append(m.CustomSections, &wasm.CustomSection{Name: n, Data: blob(r)})
			}
		}
		b := binary.EncodeModule(m)
		read(t, b, "encoded", "wasmrs_ops", "a")
		t.Guard("table in a module", func() string { return fmt.Sprintf("%.100x", b) }, func() {
			got, err := customsections.Read(b, "wasmrs_ops")
			if err != nil || got["wasmrs_ops"] == nil {
				t.Violate("a section is not found", "%.200x: %v", b, err)
				return
			}
			back, err := operations.FromBytes(got["wasmrs_ops"].Data)
			if err != nil || len(back) != len(tb) {
				t.Violate("the table of a module is misread", "%v %v", back, err)
				return
			}
			for j := range tb {
				if back[j] != tb[j] {
					t.Violate("the table of a module is misread", "%v, not %v", back[j], tb[j])
				}
			}
		})
		kit.Count("tables in modules", 1)
		if t.Failed() {
			return
		}
	}
}

func malformed(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(1200, 40_000); i++ {
		ss := sections(r)
		b := module(r, ss)
		ns := append(pick(r, ss), "wasmrs_ops")
		if len(b) < 250 {
			for n := range b {
				read(t, b[:n], "cut", ns...)
			}
		} else {
			for j := 0; j < 20; j++ {
				read(t, b[:r.IntN(len(b))], "cut", ns...)
			}
			read(t, b[:len(b)-1], "cut", ns...)
		}
		for j := 0; j < 20; j++ {
			m := append([]byte(nil), b...)
			for k := 0; k < 1+r.IntN(2); k++ {
				p := r.IntN(len(m))
				switch r.IntN(5) {
				case 0:
					m[p] ^= 1 << r.IntN(8)
				case 1:
					m[p] = byte(r.Uint32())
				case 2:
					m[p] |= 0x80
				case 3:
					m = append(m[:p], m[p+1:]...)
					if len(m) == 0 {
						m = []byte{0}
					}
				case 4:
					m = append(m[:p], append(leb(nil, []uint32{0, 1, 1 << 31, 1<<32 - 1, 1 << 28, r.Uint32()}[r.IntN(6)], 1), m[p:]...)...)
				}
			}
			read(t, m, "mutated", ns...)
		}
		if t.Failed() {
			return
		}
	}
	// absurd sizes of sections and names
	for i := 0; i < kit.N(20_000, 400_000); i++ {
		size := func() uint32 {
			return []uint32{0, 1, 2, 3, 10, 11, 12, 100, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2, 1<<32 - 5, 1<<32 - 11, r.Uint32()}[r.IntN(16)]
		}
		b := append([]byte(nil), header...)
		if r.IntN(2) == 0 {
			b = module(r, sections(r))
		}
		b = append(b, byte([]int{0, 0, 0, 1, 12, 13, 255}[r.IntN(7)]))
		b = leb(b, size(), wide(r))
		b = leb(b, size(), wide(r))
		b = append(b, []byte("wasmrs_ops and more")[:r.IntN(20)]...)
		read(t, b, "sizes", "wasmrs_ops", "", "w", "wa")
		if t.Failed() {
			return
		}
	}
	for i := 0; i < kit.N(20_000, 400_000); i++ {
		b := make([]byte, r.IntN(60))
		for j := range b {
			b[j] = byte(r.Uint32()) & byte(r.Uint32()) & byte(r.Uint32())
		}
		if r.IntN(5) > 0 {
			copy(b, header)
		}
		read(t, b, "random", words...)
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P30",
		Rule:     "Modules of up to eight sections of all kinds, sizes and names, with lengths in one to five bytes, decoys in the content and repeated names, and modules written by another encoder with operation tables, are read and compared with a reference reader; cut at every length, mutated, with absurd sizes and random bytes likewise, with the memory taken. Distinct by bytes.",
		Assumptions: []string{
			"Of sections with the same name, any may be returned.",
			"Sections with an unknown ID may be skipped or refused.",
		},
		Scenarios: []kit.Scenario{
			{Name: "well-formed modules", Run: wellFormed},
			{Name: "encoded modules", Run: real},
			{Name: "malformed modules", Run: malformed},
		},
	})
}
