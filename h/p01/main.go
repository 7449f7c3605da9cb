//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/verifh/framekit"
	"github.com/nanobus/iota/go/verifh/kit"
)

func check(t *kit.T, f framekit.F) {
	t.Guard("frame codec", func() string { return f.String() }, func() {
		want := f.Bytes()
		real := f.Real()
		if int(real.Type()) != f.Type {
			t.Violate("type of frame", "%v reports type %d", f, real.Type())
		}
		if real.GetStreamID() != f.Stream {
			t.Violate("stream ID of frame", "%v reports stream %d", f, real.GetStreamID())
		}
		if n := int(real.Size()); n != len(want) {
			t.Violate("announced size", "%v: announced %d bytes, the layout needs %d", f, n, len(want))
			return
		}
		for _, fill := range []byte{0, 0xA5} {
			raw, over := framekit.EncodeReal(real, fill)
			if over {
				t.Violate("encoding writes outside its size", "%v", f)
			}
			if !bytes.Equal(raw, want) {
				t.Violate("encoded bytes differ from the layout", "%v\n got %.80x\nwant %.80x", f, raw, want)
				return
			}
		}
		got, err := framekit.DecodeReal(f.Type, want)
		if err != nil {
			t.Violate("decode refuses an encoded frame", "%v: %v", f, err)
			return
		}
		if d := framekit.Diff(f, framekit.Model(got)); d != "" {
			t.Violate("round trip changes "+d, "%v\ngot %v", f, framekit.Model(got))
		}
		if !bytes.Equal(want, f.Bytes()) {
			t.Violate("decoding changes its input", "%v", f)
		}
		// the frame may be encoded again, into the same bytes
		if again, _ := framekit.EncodeReal(got, 0); f.Type != framekit.RS && f.Type != framekit.RC && !bytes.Equal(again, want) && f.Type != framekit.RR && f.Type != framekit.FNF {
			t.Violate("re-encoding differs", "%v", f)
		}
	})
	t.Case(f.Key())
	if t.Wants() {
		t.Sample("%v", f)
	}
}

func main() {
	perType := func(typ int, name string) kit.Scenario {
		return kit.Scenario{Name: name, Run: func(t *kit.T) {
			n := kit.N(12000, 150000)
			for i := 0; i < n && !t.Failed(); i++ {
				check(t, framekit.Gen(t.Rand, typ))
			}
			kit.Count("frames round-tripped", int64(n))
		}}
	}
	sc := []kit.Scenario{
		perType(framekit.Setup, "setup"), perType(framekit.RR, "request-response"), perType(framekit.FNF, "fire-and-forget"),
		perType(framekit.RS, "request-stream"), perType(framekit.RC, "request-channel"), perType(framekit.ReqN, "request-n"),
		perType(framekit.Cancel, "cancel"), perType(framekit.Payload, "payload"), perType(framekit.Error, "error"),
	}
	sc = append(sc, kit.Scenario{Name: "every flag and small length", Run: func(t *kit.T) {
		// exhaustive over flags and lengths 0..3 of every variable field
		for _, typ := range framekit.Types {
			for fl := 0; fl < 16; fl++ {
				for l := 0; l < 256; l++ {
					f := framekit.Gen(t.Rand, typ)
					f.Follows, f.Complete, f.Next, f.Lease = fl&1 != 0, fl&2 != 0, fl&4 != 0, fl&8 != 0
					switch typ {
					case framekit.ReqN, framekit.Cancel:
					case framekit.Error:
						f.Data = framekit.Blob(t.Rand, l>>2&3)
					default:
						f.MD, f.Data = framekit.Blob(t.Rand, l&3), framekit.Blob(t.Rand, l>>2&3)
					}
					if typ == framekit.Setup {
						f.Token = framekit.Blob(t.Rand, l>>4&3)
						f.MimeM, f.MimeD = string(framekit.Blob(t.Rand, l>>6&1)), string(framekit.Blob(t.Rand, l>>7&1))
					}
					check(t, f)
					if t.Failed() {
						return
					}
				}
			}
		}
	}}, kit.Scenario{Name: "large metadata and data", Run: func(t *kit.T) {
		const top = 1<<24 - 1
		for _, typ := range []int{framekit.Setup, framekit.RR, framekit.FNF, framekit.RS, framekit.RC, framekit.Payload} {
			for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 + 3, top - 1, top} {
				f := framekit.Gen(t.Rand, typ)
				f.MD, f.Data = framekit.Blob(t.Rand, n), framekit.Blob(t.Rand, t.Rand.IntN(3))
				check(t, f)
				f.MD, f.Data = framekit.Blob(t.Rand, t.Rand.IntN(3)), framekit.Blob(t.Rand, n)
				check(t, f)
			}
		}
	}}, kit.Scenario{Name: "foreign encoders", Run: func(t *kit.T) {
		// what another implementation may write: flags on empty fields, ignore
		// flag and unknown flag bits
		n := kit.N(20000, 200000)
		for i := 0; i < n && !t.Failed(); i++ {
			f := framekit.Gen(t.Rand, framekit.Types[t.Rand.IntN(len(framekit.Types))])
			f.ForceM = t.Rand.IntN(2) == 0 && f.Type != framekit.ReqN && f.Type != framekit.Cancel && f.Type != framekit.Error
			f.ForceR = t.Rand.IntN(2) == 0
			if t.Rand.IntN(2) == 0 {
				f.Extra |= 1 << 9
			}
			f.Extra |= uint16(t.Rand.IntN(32)) // the protocol leaves these bits unused
			raw := f.Bytes()
			t.Guard("foreign frame", func() string { return f.String() }, func() {
				got, err := framekit.DecodeReal(f.Type, raw)
				if err != nil {
					t.Violate("decode refuses a foreign frame", "%v: %v\n%x", f, err, raw[:min(len(raw), 60)])
					return
				}
				if d := framekit.Diff(f, framekit.Model(got)); d != "" {
					t.Violate("foreign frame misread: "+d, "%v\ngot %v", f, framekit.Model(got))
				}
			})
			t.Case(f.Key() + fmt.Sprint(f.ForceM, f.ForceR, f.Extra))
		}
		kit.Count("foreign frames decoded", int64(n))
	}}, kit.Scenario{Name: "headers", Run: func(t *kit.T) {
		ids := []uint32{0, 1, 2, 127, 255, 256, 65535, 65536, 1 << 24, 1 << 30, 1<<31 - 1}
		for typ := 0; typ < 64; typ++ {
			for fl := 0; fl < 1024; fl++ {
				for _, id := range ids {
					want := framekit.F{Type: typ, Stream: id, Extra: uint16(fl)}.Bytes()[:6]
					h := frames.NewFrameHeader(id, frames.FrameType(typ), frames.FrameFlag(fl))
					var w, w2 bytes.Buffer
					_, _ = h.WriteTo(&w)
					_ = frames.WriteFrameHeader(&w2, id, frames.FrameType(typ), frames.FrameFlag(fl))
					buf := []byte{9, 9, 9, 9, 9, 9}
					frames.ResetFrameHeader(buf, id, frames.FrameType(typ), frames.FrameFlag(fl))
					p := frames.ParseFrameHeader(want)
					if !bytes.Equal(h.Bytes(), want) || !bytes.Equal(w.Bytes(), want) || !bytes.Equal(w2.Bytes(), want) || !bytes.Equal(buf, want) || p != h {
						t.Violate("header bytes", "type %d flags %x stream %d: %x %x %x %x, want %x", typ, fl, id, h.Bytes(), w.Bytes(), w2.Bytes(), buf, want)
						return
					}
					if p.StreamID() != id || int(p.Type()) != typ || int(p.Flag()) != fl {
						t.Violate("header fields", "type %d flags %x stream %d read as %d %x %d", typ, fl, id, p.Type(), p.Flag(), p.StreamID())
						return
					}
					kit.Count("headers", 1)
				}
				t.Case(fmt.Sprint(typ, fl))
			}
		}
	}}, kit.Scenario{Name: "24-bit lengths", Run: func(t *kit.T) {
		step := uint32(kit.N(7, 1))
		for n := uint32(0); n <= u24.MaxUint24; n += step {
			if n > u24.MaxUint24-20 {
				step = 1
			}
			v, err := u24.NewUint24(n)
			if err != nil || v.AsInt() != int(n) || u24.ReadUint24ToInt(v.Bytes()) != int(n) || v[0] != byte(n>>16) || v[1] != byte(n>>8) || v[2] != byte(n) || u24.NewUint24Bytes(v.Bytes()) != v {
				t.Fatal("24-bit length", "%d encodes as %x (%v)", n, v.Bytes(), err)
			}
			if n&0xfff < 7 {
				t.Case(fmt.Sprint(n))
				var w bytes.Buffer
				if err := u24.WriteUint24(&w, n); err != nil || !bytes.Equal(w.Bytes(), v.Bytes()) {
					t.Fatal("24-bit length", "%d written as %x (%v)", n, w.Bytes(), err)
				}
			}
		}
		for _, n := range []uint32{1 << 24, 1<<24 + 1, 1 << 31, 1<<32 - 1} {
			if _, err := u24.NewUint24(n); err == nil {
				t.Violate("24-bit length", "%d accepted", n)
			}
			var w bytes.Buffer
			if err := u24.WriteUint24(&w, n); err == nil {
				t.Violate("24-bit length", "%d written as %x", n, w.Bytes())
			}
		}
	}})
	kit.Main(kit.Config{
		Property:    "P01",
		Rule:        "Frames of every type are generated from the seed (boundary lengths and values, all flags) and through an independent model of the RSocket layout; a case is non-trivial and distinct by its type, flags, numeric fields and field lengths.",
		Assumptions: []string{"Field limits of the wire format: metadata below 2^24 bytes, MIME types up to 255 bytes, tokens up to 65535 bytes, durations a whole number of milliseconds below 2^32.", "The completion flag and demand are only meaningful on the frame types that carry them."},
		Scenarios:   sc,
	})
}
