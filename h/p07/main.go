//go:build go1.22

package main

import (
	"context"
	"fmt"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

func gen(client bool, start uint64) socket.StreamID {
	if client {
		c := socket.ClientStreamIDs(start)
		return &c
	}
	s := socket.ServerStreamIDs(start)
	return &s
}

func side(client bool) string {
	if client {
		return "client"
	}
	return "server"
}

// fullCycle draws more IDs than there are and watches every one.
func fullCycle(t *kit.T, client bool) {
	g := gen(client, 0)
	const half = 1 << 30
	parity, space := uint32(0), half-1
	if client {
		parity, space = 1, half
	}
	seen := make([]uint64, half/64)
	var firsts []uint32
	const extra = 1 << 20
	for i := 0; i < space+extra; i++ {
		id, first := g.Next()
		if id == 0 || id>>31 != 0 || id&1 != parity {
			t.Fatal("invalid stream ID", "%s draw %d: %d", side(client), i, id)
		}
		k := id >> 1
		dup := seen[k/64]&(1<<(k%64)) != 0
		if i < space {
			if dup {
				t.Fatal("stream ID repeated", "%s draw %d: %d before the space of %d was used up", side(client), i, id, space)
			}
			seen[k/64] |= 1 << (k % 64)
			if i < extra {
				firsts = append(firsts, id)
			}
		} else if id != firsts[i-space] {
			// any other ID was handed out fewer than the whole space of draws ago
			t.Fatal("stream ID repeated", "%s draw %d after wrap-around: %d, only %d was unused for longest", side(client), i, id, firsts[i-space])
		}
		if first != (i < space) {
			t.Fatal("first-pass flag", "%s draw %d of %d: %v", side(client), i, space, first)
		}
	}
	kit.Count("IDs drawn", int64(space+extra))
	t.Case("full cycle " + side(client))
	t.Sample("%s: %d draws, every one of %d IDs once, then the same again", side(client), space+extra, space)
}

func concurrent(t *kit.T, client bool, start uint64, workers, per int) {
	g := gen(client, start)
	parity := uint32(0)
	if client {
		parity = 1
	}
	ids := make([][]uint32, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				id, _ := g.Next()
				ids[w] = append(ids[w], id)
			}
		}()
	}
	wg.Wait()
	seen := make(map[uint32]int, workers*per)
	switches := 0
	for w := range ids {
		for i, id := range ids[w] {
			if id == 0 || id>>31 != 0 || id&1 != parity {
				t.Fatal("invalid stream ID", "%s from %d: %d", side(client), start, id)
			}
			if o, dup := seen[id]; dup {
				t.Fatal("stream ID repeated", "%s from %d: %d drawn by %d and %d", side(client), start, id, o, w)
			}
			seen[id] = w
			if i > 0 && id-ids[w][i-1] != 2 {
				switches++
			}
		}
	}
	kit.Count("IDs drawn", int64(workers*per))
	kit.Count("interleavings of draws seen", int64(switches))
	t.Case(fmt.Sprint(client, start, workers, switches))
	if t.Wants() {
		t.Sample("%s from %d: %d workers drew %d IDs, %d times another came in between", side(client), start, workers, workers*per, switches)
	}
}

func main() {
	full := func(client bool) kit.Scenario {
		return kit.Scenario{Name: "full cycle " + side(client), Plain: true, Run: func(t *kit.T) { fullCycle(t, client) }}
	}
	kit.Main(kit.Config{
		Property: "P07",
		Rule:     "All 2^30 IDs of a side are drawn once around (one case each), and concurrent draws start at fresh counters and around the wrap-around; distinct by side, start and number of observed interleavings.",
		Scenarios: []kit.Scenario{
			full(true), full(false),
			{Name: "concurrent draws", Run: func(t *kit.T) {
				starts := []uint64{0, 0, 1<<30 - 4000, 1<<30 - 1, 1 << 30, 1<<31 - 4000, 1<<32 - 4000, 1<<33 - 100}
				for r := 0; r < kit.N(4, 40); r++ {
					for _, s := range starts {
						for _, client := range []bool{true, false} {
							concurrent(t, client, s, 2+t.Rand.IntN(14), kit.N(5000, 50000))
						}
					}
				}
			}},
			{Name: "IDs of requests", Run: func(t *kit.T) {
				// the IDs a handler puts into its request frames
				for r := 0; r < kit.N(20, 200) && !t.Failed(); r++ {
					for _, mode := range []handler.Mode{handler.ClientMode, handler.ServerMode} {
						h := handler.New(context.Background(), mode)
						var mu sync.Mutex
						seen := map[uint32]bool{}
						h.SetFrameSender(func(f frames.Frame) error {
							id := f.GetStreamID()
							mu.Lock()
							defer mu.Unlock()
							if _, is := f.(*frames.RequestPayload); !is {
								return nil
							}
							if id == 0 || id>>31 != 0 || (id&1 == 1) != (mode == handler.ClientMode) {
								t.Violate("invalid stream ID", "mode %d: %d", mode, id)
							}
							if seen[id] {
								t.Violate("stream ID repeated", "mode %d: %d", mode, id)
							}
							seen[id] = true
							return nil
						})
						var wg sync.WaitGroup
						const workers, per = 6, 40
						for w := 0; w < workers; w++ {
							wg.Add(1)
							go func() {
								defer wg.Done()
								ctx := context.Background()
								p := payload.New(nil, make([]byte, 8))
								for i := 0; i < per; i++ {
									switch i % 4 {
									case 0:
										h.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{})
									case 1:
										h.FireAndForget(ctx, p)
									case 2:
										h.RequestStream(ctx, p).Subscribe(flux.Subscribe[payload.Payload]{})
									case 3:
										h.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{p})).Subscribe(flux.Subscribe[payload.Payload]{})
									}
								}
							}()
						}
						wg.Wait()
						if !kit.Wait(func() bool { mu.Lock(); defer mu.Unlock(); return len(seen) == workers*per }) {
							t.Violate("requests without a frame", "mode %d: %d of %d", mode, len(seen), workers*per)
						}
						kit.Count("request frames", workers*per)
						t.Case(fmt.Sprint(r, mode))
						_ = h.Close()
					}
				}
			}},
		},
	})
}
