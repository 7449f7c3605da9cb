//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"testing/iotest"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifh/framekit"
	"github.com/nanobus/iota/go/verifh/kit"
)

// chunker hands out the stream in the given chunk lengths; withEOF makes the
// last chunk arrive together with the end of the stream.
type chunker struct {
	data    []byte
	next    func() int
	withEOF bool
	endErr  error
}

func (c *chunker) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.endErr
	}
	n := min(c.next(), len(p), len(c.data))
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.withEOF {
		return n, c.endErr
	}
	return n, nil
}

func frameLen(t *kit.T) int {
	switch t.Rand.IntN(8) {
	case 0:
		return 6
	case 1:
		return 8*1024 - 3 + t.Rand.IntN(7) - 3
	case 2:
		return 6 + t.Rand.IntN(20000)
	case 3:
		return 4096 + t.Rand.IntN(9) - 4
	}
	return 6 + t.Rand.IntN(200)
}

func put(b []byte, f []byte) []byte {
	b = append(b, byte(len(f)>>16), byte(len(f)>>8), byte(len(f)))
	return append(b, f...)
}

// run decodes the stream and compares with the frames; cut is how many bytes of
// the stream are delivered (all if negative).
func run(t *kit.T, fs [][]byte, stream []byte, r io.Reader, complete int, endErr error, what string) {
	t.Guard("decoder", func() string { return what }, func() {
		dec := rsocket.NewLengthBasedFrameDecoder(r)
		var got [][]byte
		for {
			raw, err := dec.Read()
			if err != nil {
				if len(raw) != 0 {
					t.Violate("bytes handed out with an error", "%s: %d bytes with %v", what, len(raw), err)
				}
				break
			}
			got = append(got, raw)
			if len(got) > len(fs) {
				break
			}
		}
		kit.Count("frames read", int64(len(got)))
		if len(got) != complete {
			t.Violate("number of frames", "%s: %d frames read, %d were complete", what, len(got), complete)
			return
		}
		// compared only now, after all later reads
		for i := range got {
			if !bytes.Equal(got[i], fs[i]) {
				t.Violate("frame content", "%s: frame %d (%d bytes) differs, got %d bytes %.40x want %.40x", what, i, len(fs[i]), len(got[i]), got[i], fs[i])
				return
			}
		}
		// the end stays the end
		if raw, err := dec.Read(); err == nil {
			t.Violate("frame after the end", "%s: %d bytes", what, len(raw))
		}
	})
	t.Case(what)
	if t.Wants() {
		t.Sample("%s", what)
	}
}

func main() {
	chunkers := map[string]func(t *kit.T) func() int{
		"one byte":   func(t *kit.T) func() int { return func() int { return 1 } },
		"two bytes":  func(t *kit.T) func() int { return func() int { return 2 } },
		"tiny":       func(t *kit.T) func() int { return func() int { return 1 + t.Rand.IntN(5) } },
		"random":     func(t *kit.T) func() int { return func() int { return 1 + t.Rand.IntN(3000) } },
		"everything": func(t *kit.T) func() int { return func() int { return 1 << 30 } },
		"4096":       func(t *kit.T) func() int { return func() int { return 4096 } },
	}
	names := []string{"one byte", "two bytes", "tiny", "random", "everything", "4096"}
	gen := func(t *kit.T, n int, maxLen int) (fs [][]byte, stream []byte, ends []int) {
		for i := 0; i < n; i++ {
			f := framekit.Blob(t.Rand, min(frameLen(t), maxLen))
			fs = append(fs, f)
			stream = put(stream, f)
			ends = append(ends, len(stream))
		}
		return
	}
	kit.Main(kit.Config{
		Property:    "P04",
		Rule:        "Streams of length-prefixed frames are delivered through readers that chunk them in every way (fixed, random, with the end of the stream, cut at every position); frames are compared after all reads. Distinct by frames, chunking and cut.",
		Assumptions: []string{"A frame carries at least its six header bytes."},
		Scenarios: []kit.Scenario{
			{Name: "chunkings", Run: func(t *kit.T) {
				n := kit.N(1500, 15000)
				for i := 0; i < n && !t.Failed(); i++ {
					nm := names[t.Rand.IntN(len(names))]
					fs, stream, _ := gen(t, 1+t.Rand.IntN(12), 1<<24)
					end := io.EOF
					if t.Rand.IntN(4) == 0 {
						end = errors.New("connection reset")
					}
					weof := t.Rand.IntN(2) == 0
					r := &chunker{data: stream, next: chunkers[nm](t), withEOF: weof, endErr: end}
					run(t, fs, stream, r, len(fs), end, fmt.Sprintf("#%d: %d frames, %d bytes, %s chunks, end with data %v: %v", i, len(fs), len(stream), nm, weof, end))
				}
			}},
			{Name: "cut at every byte", Run: func(t *kit.T) {
				n := kit.N(25, 250)
				for i := 0; i < n && !t.Failed(); i++ {
					fs, stream, ends := gen(t, 1+t.Rand.IntN(4), 60)
					for cut := 0; cut <= len(stream) && !t.Failed(); cut++ {
						complete := 0
						for _, e := range ends {
							if e <= cut {
								complete++
							}
						}
						nm := names[t.Rand.IntN(len(names))]
						r := &chunker{data: stream[:cut:cut], next: chunkers[nm](t), withEOF: t.Rand.IntN(2) == 0, endErr: io.EOF}
						run(t, fs, stream, r, complete, io.EOF, fmt.Sprintf("#%d: %d frames, cut at %d of %d, %s chunks", i, len(fs), cut, len(stream), nm))
					}
				}
			}},
			{Name: "every pair of chunk boundaries", Run: func(t *kit.T) {
				fs, stream, _ := gen(t, 3, 24)
				for a := 0; a <= len(stream); a++ {
					for b := a; b <= len(stream) && !t.Failed(); b++ {
						cuts := []int{a, b - a, len(stream) - b}
						r := io.MultiReader(bytes.NewReader(stream[:a]), bytes.NewReader(stream[a:b]), bytes.NewReader(stream[b:]))
						run(t, fs, stream, iotest.DataErrReader(r), len(fs), io.EOF, fmt.Sprint("chunks ", cuts))
					}
				}
			}},
			{Name: "large frames", Run: func(t *kit.T) {
				for _, n := range []int{65535, 65536, 1 << 20, 1<<24 - 2, 1<<24 - 1} {
					for _, nm := range []string{"random", "everything", "4096"} {
						fs := [][]byte{framekit.Blob(t.Rand, 10), framekit.Blob(t.Rand, n), framekit.Blob(t.Rand, 6)}
						var stream []byte
						for _, f := range fs {
							stream = put(stream, f)
						}
						r := &chunker{data: stream, next: chunkers[nm](t), endErr: io.EOF}
						run(t, fs, stream, r, 3, io.EOF, fmt.Sprintf("frame of %d bytes, %s chunks", n, nm))
					}
				}
			}},
			{Name: "malformed lengths", Run: func(t *kit.T) {
				for n := 0; n < 6; n++ {
					fs := [][]byte{framekit.Blob(t.Rand, 30)}
					stream := put(nil, fs[0])
					stream = put(stream, framekit.Blob(t.Rand, n))
					stream = put(stream, framekit.Blob(t.Rand, 30))
					t.Guard("short frame", func() string { return fmt.Sprint(n) }, func() {
						dec := rsocket.NewLengthBasedFrameDecoder(bytes.NewReader(stream))
						if raw, err := dec.Read(); err != nil || !bytes.Equal(raw, fs[0]) {
							t.Violate("frame before a malformed one", "%x %v", raw, err)
						}
						if raw, err := dec.Read(); err == nil {
							t.Violate("frame shorter than a header accepted", "%d bytes: %x", n, raw)
						}
					})
					t.Case(fmt.Sprint("short", n))
				}
			}},
			{Name: "connection", Run: func(t *kit.T) {
				// the same through a connection: frames of all types written by the
				// code under test or by the model, read by the code under test
				n := kit.N(150, 1500)
				for i := 0; i < n && !t.Failed(); i++ {
					a, b := net.Pipe()
					conn := rsocket.NewTCPConn(b)
					var fs []framekit.F
					for k := 1 + t.Rand.IntN(12); k > 0; k-- {
						fs = append(fs, framekit.Gen(t.Rand, framekit.Types[t.Rand.IntN(len(framekit.Types))]))
					}
					byCode := t.Rand.IntN(2) == 0
					step := 1 + t.Rand.IntN(5000)
					go func() {
						defer a.Close()
						if byCode {
							w := rsocket.NewTCPConn(a)
							for _, f := range fs {
								if w.Write(f.Real()) != nil {
									return
								}
							}
							_ = w.Flush()
							return
						}
						var stream []byte
						for _, f := range fs {
							stream = put(stream, f.Bytes())
						}
						for len(stream) > 0 {
							k := min(step, len(stream))
							if _, err := a.Write(stream[:k]); err != nil {
								return
							}
							stream = stream[k:]
						}
					}()
					_ = b.SetReadDeadline(time.Now().Add(kit.Patience))
					var got []frames.Frame
					for {
						f, err := conn.Read()
						if err != nil {
							break
						}
						if f == nil {
							t.Violate("no frame and no error", "after %d frames", len(got))
							break
						}
						got = append(got, f)
						if len(got) > len(fs) {
							break
						}
					}
					_ = conn.Close()
					if len(got) != len(fs) {
						t.Violate("frames of a connection", "%d of %d frames read", len(got), len(fs))
						continue
					}
					for k := range fs {
						if d := framekit.Diff(fs[k], framekit.Model(got[k])); d != "" {
							t.Violate("frame of a connection: "+d, "frame %d/%d: sent %v\nread %v", k, len(fs), fs[k], framekit.Model(got[k]))
							break
						}
					}
					kit.Count("frames read from connections", int64(len(got)))
					t.Case(fmt.Sprint(i, len(fs), byCode, step))
				}
			}},
		},
	})
}
