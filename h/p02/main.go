//go:build go1.22

package main

import (
	"fmt"
	"hash/fnv"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/verifh/framekit"
	"github.com/nanobus/iota/go/verifh/kit"
)

// try decodes raw as a frame of the type and checks the outcome.
func try(t *kit.T, typ int, raw []byte) (decoded bool) {
	t.Guard("decode", func() string { return fmt.Sprintf("type %d, %d bytes: %.100x", typ, len(raw), raw) }, func() {
		// a slice without spare capacity: anything read beyond is a panic
		in := append(make([]byte, 0, len(raw)), raw...)
		fr, err := framekit.DecodeReal(typ, in[:len(in):len(in)])
		if err != nil {
			kit.Count("refused", 1)
			return
		}
		kit.Count("decoded", 1)
		decoded = true
		if int(raw[4]>>2) == typ && len(raw) < 6+4 && (typ == framekit.ReqN || typ == framekit.RS || typ == framekit.RC || typ == framekit.Error) {
			t.Violate("frame decoded from missing bytes", "type %d: %x gave %v", typ, raw, framekit.Model(fr))
		}
		m := framekit.Model(fr)
		if n := len(m.MD) + len(m.Data) + len(m.Token) + len(m.MimeM) + len(m.MimeD); n > len(raw)-6 {
			t.Violate("fields larger than the frame", "type %d: %d bytes in fields of %x", typ, n, raw)
		}
		if typ == framekit.RR || typ == framekit.FNF || typ == framekit.RS || typ == framekit.RC {
			// the type comes from the header; a header of another type is the
			// caller's choice
			if m.Type != framekit.RR && m.Type != framekit.FNF && m.Type != framekit.RS && m.Type != framekit.RC {
				return
			}
			typ = m.Type
		}
		enc, over := framekit.EncodeReal(fr, 0x5a)
		if over {
			t.Violate("re-encoding overruns", "type %d: %x", typ, raw)
		}
		fr2, err := framekit.DecodeReal(typ, enc)
		if err != nil {
			t.Violate("re-encoded frame does not decode", "type %d: %.100x -> %.100x: %v", typ, raw, enc, err)
			return
		}
		if d := framekit.Diff(m, framekit.Model(fr2)); d != "" {
			t.Violate("re-encoding changes "+d, "type %d: %.100x: %v -> %v", typ, raw, m, framekit.Model(fr2))
		}
	})
	h := fnv.New64a()
	h.Write([]byte{byte(typ)})
	h.Write(raw)
	t.CaseHash(h.Sum64(), true)
	return
}

func small(t *kit.T, typ int) framekit.F {
	f := framekit.Gen(t.Rand, typ)
	cut := func(b []byte) []byte { return b[:min(len(b), t.Rand.IntN(20))] }
	f.MD, f.Data, f.Token = cut(f.MD), cut(f.Data), cut(f.Token)
	f.MimeM, f.MimeD = string(cut([]byte(f.MimeM))), string(cut([]byte(f.MimeD)))
	f.ForceM = f.Type != framekit.ReqN && f.Type != framekit.Cancel && f.Type != framekit.Error && t.Rand.IntN(3) == 0
	f.ForceR = t.Rand.IntN(3) == 0
	return f
}

func main() {
	kit.Main(kit.Config{
		Property:    "P02",
		Rule:        "Byte sequences (every truncation of generated frames, mutations, random bytes under every type and flag) are decoded as every frame type from slices without spare capacity; distinct by content.",
		Assumptions: []string{"A decoder is handed at least the six header bytes; shorter input is refused by the framing layer (P04) before it is called."},
		Scenarios: []kit.Scenario{
			{Name: "truncations", Run: func(t *kit.T) {
				n := kit.N(600, 6000)
				for i := 0; i < n && !t.Failed(); i++ {
					for _, typ := range framekit.Types {
						f := small(t, typ)
						raw := f.Bytes()
						if t.Wants() {
							t.Sample("all %d truncations of %v", len(raw)-6, f)
						}
						for l := 6; l <= len(raw) && !t.Failed(); l++ {
							ok := try(t, typ, raw[:l])
							if l == len(raw) && !ok {
								t.Violate("complete frame refused", "%v", f)
							}
							// what precedes the data cannot be missing
							if need := len(raw) - len(f.Data); l < need && ok {
								t.Violate("truncated frame accepted", "%v cut to %d of at least %d bytes", f, l, need)
							}
						}
					}
				}
			}},
			{Name: "mutations", Run: func(t *kit.T) {
				n := kit.N(300000, 3000000)
				for i := 0; i < n && !t.Failed(); i++ {
					typ := framekit.Types[t.Rand.IntN(len(framekit.Types))]
					raw := small(t, typ).Bytes()
					for k := t.Rand.IntN(4) + 1; k > 0; k-- {
						p := t.Rand.IntN(len(raw))
						switch t.Rand.IntN(4) {
						case 0:
							raw[p] = 0xff
						case 1:
							raw[p] ^= 1 << t.Rand.IntN(8)
						case 2:
							raw[p] = byte(t.Rand.Uint32())
						case 3:
							if p >= 6 {
								raw = append(raw[:p], raw[min(len(raw), p+1+t.Rand.IntN(4)):]...)
							}
						}
					}
					if t.Wants() {
						t.Sample("type %d: %x", typ, raw)
					}
					try(t, typ, raw)
				}
			}},
			{Name: "random bytes", Run: func(t *kit.T) {
				n := kit.N(300000, 3000000)
				for i := 0; i < n && !t.Failed(); i++ {
					raw := framekit.Blob(t.Rand, 6+t.Rand.IntN(40))
					if t.Rand.IntN(2) == 0 { // small lengths make it into the fields
						for j := 6; j < len(raw); j++ {
							if t.Rand.IntN(2) == 0 {
								raw[j] &= 3
							}
						}
					}
					typ := framekit.Types[t.Rand.IntN(len(framekit.Types))]
					try(t, typ, raw)
				}
			}},
			{Name: "every flag with few bytes", Run: func(t *kit.T) {
				for _, typ := range framekit.Types {
					for fl := 0; fl < 1024 && !t.Failed(); fl++ {
						for l := 0; l <= 22; l++ {
							for _, fill := range []byte{0, 1, 0xff} {
								raw := framekit.F{Type: typ, Stream: 5}.Bytes()[:6]
								raw[4], raw[5] = byte(typ<<2|fl>>8), byte(fl)
								for k := 0; k < l; k++ {
									raw = append(raw, fill)
								}
								try(t, typ, raw)
							}
						}
					}
				}
			}},
			{Name: "names of types and flags", Run: func(t *kit.T) {
				for i := 0; i < 256; i++ {
					_ = frames.FrameType(i).String()
				}
				for i := 0; i < 65536; i++ {
					_ = frames.FrameFlag(i).String()
					h := frames.NewFrameHeader(uint32(i), frames.FrameType(i>>10), frames.FrameFlag(i))
					_, _ = h.String(), h.Resumable()
				}
				t.Case("names")
			}},
		},
	})
}
