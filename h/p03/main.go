//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/verifh/framekit"
	"github.com/nanobus/iota/go/verifh/kit"
)

func check(t *kit.T, f framekit.F, max uint32) {
	what := func() string { return fmt.Sprintf("%v, max frame size %d", f, max) }
	t.Guard("fragment", what, func() {
		md0, data0 := bytes.Clone(f.MD), bytes.Clone(f.Data)
		fr := f.Real().(frames.Fragmentable)
		frags := fr.Fragment(max)
		if fr.Size() <= max {
			kit.Count("not split", 1)
			if frags != nil && len(frags) != 0 {
				t.Violate("frame that fits is split", "%s: %d fragments", what(), len(frags))
			}
			return
		}
		kit.Count("split", 1)
		kit.Count("fragments", int64(len(frags)))
		if len(frags) < 2 {
			t.Violate("frame that does not fit is not split", "%s: %d fragments", what(), len(frags))
			return
		}
		var md, data []byte
		for i, g := range frags {
			last := i == len(frags)-1
			m := framekit.Model(g)
			if g.Size() > max {
				t.Violate("fragment exceeds the maximum", "%s: fragment %d/%d has %d bytes", what(), i, len(frags), g.Size())
			}
			raw, over := framekit.EncodeReal(g, 0)
			if over || uint32(len(raw)) > max {
				t.Violate("fragment exceeds the maximum", "%s: fragment %d encodes to %d bytes", what(), i, len(raw))
			}
			// what the receiver sees
			dec, err := framekit.DecodeReal(m.Type, raw)
			if err != nil {
				t.Violate("fragment does not decode", "%s: fragment %d: %v", what(), i, err)
				return
			}
			m = framekit.Model(dec)
			if m.Stream != f.Stream {
				t.Violate("fragment of another stream", "%s: fragment %d on %d", what(), i, m.Stream)
			}
			if i == 0 && m.Type != f.Type {
				t.Violate("first fragment changes type", "%s: %d", what(), m.Type)
			}
			if i == 0 && (f.Type == framekit.RS || f.Type == framekit.RC) && m.N != f.N {
				t.Violate("first fragment changes the demand", "%s: %d", what(), m.N)
			}
			if i > 0 && m.Type != framekit.Payload {
				t.Violate("later fragment is not a payload", "%s: fragment %d type %d", what(), i, m.Type)
			}
			if m.Follows != !last {
				t.Violate("follows flag", "%s: fragment %d/%d follows=%v", what(), i, len(frags), m.Follows)
			}
			carries := m.Type == framekit.RC || m.Type == framekit.Payload
			if !last && carries && m.Complete {
				t.Violate("completion before the last fragment", "%s: fragment %d/%d", what(), i, len(frags))
			}
			if last && m.Complete != f.Complete {
				t.Violate("completion of the last fragment", "%s: %v", what(), m.Complete)
			}
			if last && f.Type == framekit.Payload && m.Next != f.Next {
				t.Violate("next flag of the last fragment", "%s: %v", what(), m.Next)
			}
			if len(m.MD) > 0 && len(data) > 0 {
				t.Violate("metadata after data", "%s: fragment %d", what(), i)
			}
			md = append(md, m.MD...)
			data = append(data, m.Data...)
		}
		if !bytes.Equal(md, md0) {
			t.Violate("metadata lost or changed", "%s: %d bytes from %d", what(), len(md), len(md0))
		}
		if !bytes.Equal(data, data0) {
			t.Violate("data lost or changed", "%s: %d bytes from %d", what(), len(data), len(data0))
		}
		if !bytes.Equal(f.MD, md0) || !bytes.Equal(f.Data, data0) {
			t.Violate("fragmenting changes the payload", "%s", what())
		}
		kit.Count("payload bytes reassembled", int64(len(md)+len(data)))
	})
	t.Case(fmt.Sprint(f.Type, f.Complete, f.Next, len(f.MD), len(f.Data), max))
	if t.Wants() && f.Real().Size() > max {
		t.Sample("%s", what())
	}
}

var types = []int{framekit.RR, framekit.FNF, framekit.RS, framekit.RC, framekit.Payload}

func head(typ int) int {
	if typ == framekit.RS || typ == framekit.RC {
		return 13
	}
	return 9
}

func main() {
	kit.Main(kit.Config{
		Property:    "P03",
		Rule:        "Payloads are fragmented for lengths around every boundary of metadata and data against the maximum frame size, the fragments encoded, decoded and reassembled; distinct by type, flags, lengths and frame size.",
		Assumptions: []string{"The maximum frame size leaves room for the headers of the frame (with demand and metadata length) and one byte."},
		Scenarios: []kit.Scenario{
			{Name: "small lengths exhaustively", Run: func(t *kit.T) {
				lim := kit.N(34, 48)
				for _, typ := range types {
					for max := head(typ) + 1; max <= head(typ)+kit.N(9, 14); max++ {
						for m := 0; m <= lim; m++ {
							for d := 0; d <= lim; d++ {
								if t.Failed() {
									return
								}
								f := framekit.F{Type: typ, Stream: 77, N: 1<<31 + uint32(m), Complete: (m+d)&1 == 0, Next: (m+d)&2 == 0,
									MD: framekit.Blob(t.Rand, m), Data: framekit.Blob(t.Rand, d)}
								check(t, f, uint32(max))
							}
						}
					}
				}
			}},
			{Name: "all flags at boundaries", Run: func(t *kit.T) {
				for _, typ := range types {
					for fl := 0; fl < 4; fl++ {
						for _, max := range []int{14, 20, 64, 1024} {
							for k := 0; k < 6; k++ {
								for dm := -4; dm <= 4; dm++ {
									for dd := -4; dd <= 4; dd++ {
										m, d := k/2*(max-9)+dm, (k+1)/2*(max-6)+dd
										if m < 0 || d < 0 || t.Failed() || max <= head(typ) {
											continue
										}
										f := framekit.F{Type: typ, Stream: 3, N: 5, Complete: fl&1 != 0, Next: fl&2 != 0, MD: framekit.Blob(t.Rand, m), Data: framekit.Blob(t.Rand, d)}
										check(t, f, uint32(max))
									}
								}
							}
						}
					}
				}
			}},
			{Name: "random", Run: func(t *kit.T) {
				n := kit.N(6000, 60000)
				for i := 0; i < n && !t.Failed(); i++ {
					typ := types[t.Rand.IntN(len(types))]
					f := framekit.Gen(t.Rand, typ)
					max := head(typ) + 1 + t.Rand.IntN(100)
					if t.Rand.IntN(2) == 0 {
						max = head(typ) + 1 + t.Rand.IntN(40000)
					}
					if max < 60 {
						f.MD, f.Data = f.MD[:min(len(f.MD), 3000)], f.Data[:min(len(f.Data), 3000)]
					}
					check(t, f, uint32(max))
				}
			}},
			{Name: "maximum of the wire", Run: func(t *kit.T) {
				for _, typ := range types {
					for _, n := range []int{1<<24 - 20, 1<<24 - 6, 1 << 24, 1<<24 + 50000} {
						f := framekit.F{Type: typ, Stream: 3, N: 5, Complete: true, Next: true, MD: framekit.Blob(t.Rand, n), Data: framekit.Blob(t.Rand, n)}
						check(t, f, 1<<24-1)
						f.MD = framekit.Blob(t.Rand, 10)
						check(t, f, 1<<24-1)
					}
				}
			}},
		},
	})
}
