//go:build go1.22

package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifh/kit"
)

type inst struct {
	id  int
	pad [8]byte // not zero-sized: addresses differ
}

// sequential compares a table with a model.
func sequential(t *kit.T) {
	r := t.Rand
	for i := 0; i < kit.N(400, 6000); i++ {
		tb := invoke.NewLiveInstances[*inst]()
		live := map[uint64]*inst{}
		gone := map[uint64]bool{}
		var order []uint64
		pick := func() uint64 {
			switch {
			case len(order) > 0 && r.IntN(3) > 0:
				return order[r.IntN(len(order))]
			case len(order) > 0 && r.IntN(2) == 0:
				return order[r.IntN(len(order))] + uint64(r.IntN(5)) - 2
			}
			return []uint64{0, 1, 2, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, r.Uint64(), uint64(r.IntN(2000))}[r.IntN(10)]
		}
		trace := ""
		step := func(f string, a ...any) {
			if len(trace) < 3000 {
				trace += fmt.Sprintf(f, a...)
			}
		}
		put := func() {
			x := &inst{id: r.Int()}
			if r.IntN(20) == 0 {
				x = nil // a nil instance is an instance
			}
			h := tb.Put(x)
			step("put=%d ", h)
			if _, is := live[h]; is {
				t.Violate("instances share a handle", "%s", trace)
			}
			if gone[h] {
				t.Violate("a removed handle resolves again", "%s", trace)
			}
			live[h] = x
			order = append(order, h)
			kit.Count("instances", 1)
		}
		n := r.IntN(60)
		if i%50 == 0 {
			n = 3000
		}
		for j := 0; j < n; j++ {
			switch r.IntN(5) {
			case 0, 1:
				put()
				if r.IntN(10) == 0 && len(order) > 0 { // the same instance again
					h := order[len(order)-1]
					h2 := tb.Put(live[h])
					step("put again=%d ", h2)
					if _, is := live[h2]; is || gone[h2] {
						t.Violate("instances share a handle", "%s", trace)
					}
					live[h2] = live[h]
					order = append(order, h2)
				}
			case 2, 3:
				h := pick()
				x, ok := tb.Get(h)
				want, is := live[h]
				step("get %d ", h)
				if ok != is || (is && x != want) || (!is && x != nil) {
					t.Violate("a handle resolves to something else", "%s= %v %v, not %v %v", trace, x, ok, want, is)
				}
				kit.Count("look-ups", 1)
				if !is {
					kit.Count("look-ups of nothing", 1)
				}
			case 4:
				h := pick()
				x, ok := tb.Remove(h)
				want, is := live[h]
				step("remove %d ", h)
				if ok != is || (is && x != want) || (!is && x != nil) {
					t.Violate("something else is removed", "%s= %v %v, not %v %v", trace, x, ok, want, is)
				}
				if is {
					gone[h] = true
				}
				delete(live, h)
				kit.Count("removals", 1)
			}
			if t.Failed() {
				return
			}
		}
		for h, want := range live {
			if x, ok := tb.Get(h); !ok || x != want {
				t.Violate("an instance is lost", "%s: %d", trace, h)
			}
		}
		t.Case(trace)
		if t.Failed() {
			return
		}
	}
}

// concurrent has each worker own its handles while all use one table.
func concurrent(t *kit.T) {
	const workers = 8
	for round := 0; round < kit.N(150, 1500); round++ {
		tb := invoke.NewLiveInstances[*inst]()
		var owner sync.Map // handle -> *inst, for ever
		var gone sync.Map  // handles that were removed
		var shared [16]atomic.Uint64
		var wg sync.WaitGroup
		var collisions atomic.Int64
		seed := t.Rand.Uint64()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, uint64(w)))
				mine := map[uint64]*inst{}
				var keys []uint64
				for i := 0; i < 80; i++ {
					switch r.IntN(6) {
					case 0, 1:
						x := &inst{id: w*1000 + i}
						h := tb.Put(x)
						if was, dup := owner.LoadOrStore(h, x); dup {
							t.Violate("instances share a handle", "%d: %v and %v", h, was, x)
							return
						}
						mine[h] = x
						keys = append(keys, h)
						shared[r.IntN(len(shared))].Store(h)
					case 2:
						if len(keys) == 0 {
							continue
						}
						h := keys[r.IntN(len(keys))]
						x, ok := tb.Get(h)
						if want := mine[h]; ok != (want != nil) || x != want {
							t.Violate("a handle resolves to something else", "%d: %v %v, not %v", h, x, ok, want)
							return
						}
					case 3:
						if len(keys) == 0 {
							continue
						}
						h := keys[r.IntN(len(keys))]
						x, ok := tb.Remove(h)
						if want := mine[h]; ok != (want != nil) || x != want {
							t.Violate("something else is removed", "%d: %v %v, not %v", h, x, ok, want)
							return
						}
						gone.Store(h, true)
						mine[h] = nil
					case 4, 5: // somebody else's
						h := shared[r.IntN(len(shared))].Load()
						_, removed := gone.Load(h)
						x, ok := tb.Get(h)
						if h == 0 {
							continue
						}
						if ok && removed {
							t.Violate("a removed handle resolves", "%d", h)
							return
						}
						if was, _ := owner.Load(h); ok && was != any(x) {
							t.Violate("a handle resolves to something else", "%d: %v, not %v", h, x, was)
							return
						}
						collisions.Add(1)
					}
				}
			}()
		}
		wg.Wait()
		kit.Count("concurrent look-ups of others", collisions.Load())
		kit.Count("concurrent rounds", 1)
		t.Case(fmt.Sprint(collisions.Load(), t.Yield))
		if t.Failed() {
			return
		}
	}
}

// contended has all workers remove the same handles: one of them gets each.
func contended(t *kit.T) {
	const workers = 6
	for round := 0; round < kit.N(200, 2000); round++ {
		tb := invoke.NewLiveInstances[*inst]()
		var hs []uint64
		var xs []*inst
		for i := 0; i < 20; i++ {
			x := &inst{id: i}
			xs = append(xs, x)
			hs = append(hs, tb.Put(x))
		}
		won := make([]atomic.Int64, len(hs))
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, h := range hs {
					if x, ok := tb.Remove(h); ok {
						won[i].Add(1)
						if x != xs[i] {
							t.Violate("something else is removed", "%d: %v", h, x)
						}
					}
					if x, ok := tb.Get(h); ok {
						t.Violate("a removed handle resolves", "%d: %v", h, x)
					}
				}
			}()
		}
		wg.Wait()
		for i := range won {
			if n := won[i].Load(); n != 1 {
				t.Violate("an instance is removed other than once", "%d times", n)
			}
		}
		kit.Count("contended removals", int64(len(hs)*workers))
		t.Case(fmt.Sprint(round))
		if t.Failed() {
			return
		}
	}
}

// handles carries handles over the wire as modules do.
func handles(t *kit.T) {
	r := t.Rand
	tb := invoke.NewLiveInstances[any]()
	send := transform.InterfaceEncode(tb)
	seen := map[uint64]bool{} // every handle there was
	keep := kit.NewKeeper("handles sent", 500)
	defer keep.Check(t)
	for i := 0; i < kit.N(2000, 20_000); i++ {
		x := &inst{id: i}
		h := tb.Put(x)
		if seen[h] {
			t.Violate("instances share a handle", "%d", h)
			return
		}
		seen[h] = true
		t.Guard("handle as payload", func() string { return fmt.Sprint(h) }, func() {
			p, err := transform.Uint64.Encode(h)
			if err != nil {
				t.Violate("a handle cannot be sent", "%v", err)
				return
			}
			if r.IntN(2) == 0 { // the instance itself is sent: its handle is what arrives
				z := &inst{id: -i}
				q, err := send(z)
				if err != nil {
					t.Violate("an instance cannot be sent", "%v", err)
					return
				}
				d := append([]byte(nil), q.Data()...)
				got, err := transform.Uint64.Decode(payload.New(d))
				if err != nil {
					t.Violate("a handle changes on the way", "of an instance: %x %v", d, err)
					return
				}
				if seen[got] {
					t.Violate("instances share a handle", "%d", got)
					return
				}
				seen[got] = true
				if y, ok := tb.Get(got); !ok || y != any(z) {
					t.Violate("a handle resolves to something else", "%d: %v %v, not %v", got, y, ok, z)
					return
				}
				keep.Bytes(t, func() string { return fmt.Sprint("the handle ", got) }, q.Data())
				kit.Count("instances sent", 1)
			}
			got, err := transform.Uint64.Decode(payload.New(p.Data()))
			if err != nil || got != h {
				t.Violate("a handle changes on the way", "%d: %d %v", h, got, err)
				return
			}
			if y, ok := tb.Get(got); !ok || y != any(x) {
				t.Violate("a handle resolves to something else", "%d: %v %v", h, y, ok)
			}
			if r.IntN(2) == 0 {
				tb.Remove(got)
				if y, ok := tb.Get(h); ok {
					t.Violate("a removed handle resolves", "%d: %v", h, y)
				}
			}
		})
		kit.Count("handles sent", 1)
		t.Case(fmt.Sprint("sent", h))
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P28",
		Rule:     "Random sequences of additions, look-ups and removals of live, removed, forged and neighbouring handles are compared with a model; eight workers add, look up and remove on one table while a record of who owns which handle is kept, and compete for removals, under the race detector. Distinct by sequence.",
		Scenarios: []kit.Scenario{
			{Name: "sequences", Run: sequential},
			{Name: "concurrent", Yields: []int{0, 1, 2}, Run: concurrent},
			{Name: "contended removal", Yields: []int{0, 1, 2}, Run: contended},
			{Name: "handles on the wire", Run: handles},
		},
	})
}
