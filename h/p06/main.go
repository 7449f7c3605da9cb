//go:build go1.22

package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"sync"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/verifh/kit"
)

type item struct {
	p, seq    int
	put0, ret int64
}

// run drives producers against one consumer. stamp records real-time order
// (which adds synchronisation of its own), dispose lets a concurrent goroutine
// dispose of the queue.
func run(t *kit.T, producers, per int, stamp, dispose bool, lazy int, what string) {
	b := buffer.NewUnbounded[*item]()
	var clk kit.Clock
	accepted := make([][]*item, producers)
	refusedThenAccepted := make([]bool, producers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p := 0; p < producers; p++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(p)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			refused := false
			for q := 0; q < per; q++ {
				it := &item{p: p, seq: q}
				if stamp {
					it.put0 = clk.Tick()
				}
				ok := b.Put(it)
				if stamp {
					it.ret = clk.Tick()
				}
				if ok {
					if refused {
						refusedThenAccepted[p] = true
					}
					accepted[p] = append(accepted[p], it)
				} else {
					refused = true
				}
				if r.IntN(6) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	var got []*item
	done := make(chan struct{})
	r := rand.New(rand.NewPCG(t.Rand.Uint64(), 99))
	go func() {
		defer close(done)
		<-start
		for it := range b.Get() {
			got = append(got, it)
			if lazy > 0 && r.IntN(lazy) == 0 {
				runtime.Gosched()
			}
			b.Load()
			if r.IntN(16) == 0 {
				b.Load() // harmless when there is nothing to hand over
			}
		}
	}()
	delay := t.Rand.IntN(2000)
	if dispose {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < delay; k++ {
				if k&7 == 0 {
					runtime.Gosched()
				}
			}
			b.Dispose()
		}()
	}
	close(start)
	wg.Wait()
	b.Dispose()
	if b.Put(&item{p: -1}) {
		t.Violate("value accepted after disposal", "%s", what)
	}
	if _, _, timely := kit.Recv(done); !timely {
		t.Fatal("channel not closed after disposal", "%s: %d received", what, len(got))
	}
	b.Dispose()
	b.Load()
	next := make([]int, producers)
	total := 0
	for p := range accepted {
		total += len(accepted[p])
		if refusedThenAccepted[p] {
			t.Violate("value accepted after one was refused", "%s: producer %d", what, p)
		}
	}
	maxPut := int64(0)
	h := fnv.New64a()
	for i, it := range got {
		if it.p < 0 || next[it.p] >= len(accepted[it.p]) || accepted[it.p][next[it.p]] != it {
			t.Violate("value lost, repeated or out of order", "%s: received #%d is producer %d seq %d, its next is %d of %d", what, i, it.p, it.seq, next[it.p], len(accepted[it.p]))
			return
		}
		next[it.p]++
		if stamp {
			// nothing received later may have been put entirely before
			if it.ret < maxPut {
				t.Violate("real-time order", "%s: producer %d seq %d was put before a value received earlier", what, it.p, it.seq)
				return
			}
			if it.put0 > maxPut {
				maxPut = it.put0
			}
		}
		h.Write([]byte{byte(it.p)})
	}
	if len(got) != total {
		t.Violate("values lost", "%s: %d accepted, %d received", what, total, len(got))
	}
	kit.Count("values delivered", int64(len(got)))
	kit.Count("values refused after disposal", int64(producers*per-total))
	t.Case(fmt.Sprintf("%d %d %x", producers, per, h.Sum64()))
	if t.Wants() {
		t.Sample("%s: %d accepted and delivered, order hash %x", what, total, h.Sum64())
	}
}

func main() {
	kit.Main(kit.Config{
		Property:    "P06",
		Rule:        "Producers put uniquely numbered values while one consumer receives and acknowledges; the received sequence is checked offline against what was accepted. A run is distinct by the order of producers in which values came out.",
		Assumptions: []string{"One consumer, which acknowledges each received value, as the queue documents."},
		Scenarios: []kit.Scenario{
			{Name: "producers and consumer", Yields: []int{0, 1, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(150, 3000) && !t.Failed(); i++ {
					run(t, 1+t.Rand.IntN(8), 1+t.Rand.IntN(150), false, false, t.Rand.IntN(4), fmt.Sprintf("#%d", i))
				}
			}},
			{Name: "real-time order", Yields: []int{0, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(150, 3000) && !t.Failed(); i++ {
					run(t, 2+t.Rand.IntN(6), 1+t.Rand.IntN(150), true, false, t.Rand.IntN(4), fmt.Sprintf("#%d", i))
				}
			}},
			{Name: "few values", Yields: []int{0, 1, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(1500, 20000) && !t.Failed(); i++ {
					run(t, 1+t.Rand.IntN(3), 1+t.Rand.IntN(3), i%2 == 0, i%3 == 0, 0, fmt.Sprintf("#%d", i))
				}
			}},
			{Name: "concurrent disposal", Yields: []int{0, 1, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(300, 5000) && !t.Failed(); i++ {
					run(t, 1+t.Rand.IntN(6), 1+t.Rand.IntN(60), i%2 == 0, true, t.Rand.IntN(4), fmt.Sprintf("#%d", i))
				}
			}},
			{Name: "concurrent disposals", Yields: []int{0, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(500, 5000) && !t.Failed(); i++ {
					b := buffer.NewUnbounded[int]()
					b.Put(1)
					b.Put(2)
					var wg sync.WaitGroup
					for k := 0; k < 4; k++ {
						wg.Add(1)
						go func() { defer wg.Done(); b.Dispose() }()
					}
					var got []int
					for v := range b.Get() {
						got = append(got, v)
						b.Load()
					}
					wg.Wait()
					if fmt.Sprint(got) != "[1 2]" {
						t.Violate("values lost", "disposed four times: %v", got)
					}
					t.Case(fmt.Sprint(i & 15))
				}
			}},
			{Name: "producer without consumer", Run: func(t *kit.T) {
				n := 200000
				b := buffer.NewUnbounded[int]()
				for i := 0; i < n; i++ {
					if !b.Put(i) {
						t.Fatal("value refused", "%d", i)
					}
				}
				b.Dispose()
				if b.Put(-1) {
					t.Violate("value accepted after disposal", "")
				}
				want := 0
				for v := range b.Get() {
					if v != want {
						t.Fatal("value lost, repeated or out of order", "received %d, want %d", v, want)
					}
					want++
					b.Load()
				}
				if want != n {
					t.Violate("values lost", "%d of %d", want, n)
				}
				kit.Count("values delivered", int64(want))
				t.Case("200000 values without consumer")
			}},
			{Name: "alternation", Run: func(t *kit.T) {
				// every pattern of put and receive, against a model queue
				for mask := 0; mask < 1<<14 && !t.Failed(); mask++ {
					b := buffer.NewUnbounded[int]()
					var q []int
					n := 0
					for k := 0; k < 14; k++ {
						if mask>>k&1 == 1 || len(q) == 0 {
							b.Put(n)
							q = append(q, n)
							n++
							continue
						}
						select {
						case v := <-b.Get():
							if v != q[0] {
								t.Violate("value lost, repeated or out of order", "pattern %014b: %d, want %d", mask, v, q[0])
							}
							q = q[1:]
							b.Load()
						default:
							t.Violate("value not available", "pattern %014b: %v queued", mask, q)
						}
					}
					b.Dispose()
					for v := range b.Get() {
						if len(q) == 0 || v != q[0] {
							t.Violate("value lost, repeated or out of order", "pattern %014b: %d, want %v", mask, v, q)
							break
						}
						q = q[1:]
						b.Load()
					}
					if len(q) != 0 {
						t.Violate("values lost", "pattern %014b: %v", mask, q)
					}
					t.Case(fmt.Sprint(mask))
				}
			}},
		},
	})
}
