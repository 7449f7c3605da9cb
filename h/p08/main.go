//go:build go1.22

package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/verifh/kit"
)

type str struct {
	id    uint32
	token int64
}

func (s *str) Context() context.Context { return context.Background() }
func (s *str) StreamID() uint32         { return s.id }
func (s *str) OnNext(payload.Payload)   {}
func (s *str) OnComplete()              {}
func (s *str) OnError(error)            {}

// step is a register of one stream ID: 0 absent, else the token.
func step(state int64, o kit.Op) (int64, bool) {
	switch o.Kind {
	case "add":
		return o.Arg, true
	case "get":
		return state, o.Out == state
	case "remove":
		return 0, true
	case "all": // out: the token handed out, 0 if it was not among them
		return 0, o.Out == state
	}
	return state, false
}

func get(l *proxy.Lookup, id uint32) int64 {
	s, ok := l.Get(id)
	if !ok {
		return 0
	}
	x, is := s.(*str)
	if !is || x == nil || x.id != id {
		return -1
	}
	return x.token
}

// concurrent runs owners that add and remove their own IDs against others that
// look them up or remove them, and checks the history of each ID.
func concurrent(t *kit.T, owners, others, ids, ops int, stamp bool, removeAll int) {
	var l proxy.Lookup
	var clk kit.Clock
	tick := func() int64 {
		if stamp {
			return clk.Tick()
		}
		return 0
	}
	all := ids * owners
	procs := owners + others
	if removeAll > 0 {
		procs++
	}
	hist := make([][]map[uint32]struct{}, 0)
	_ = hist
	type rec struct {
		id uint32
		op kit.Op
	}
	logs := make([][]rec, procs)
	var wg sync.WaitGroup
	var tokens = make([]int64, owners)
	for p := 0; p < procs; p++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(p)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			add := func(id uint32, kind string, arg int64, f func() int64) {
				c := tick()
				out := f()
				e := tick()
				logs[p] = append(logs[p], rec{id, kit.Op{Proc: p, Call: c, Ret: e, Kind: kind, Arg: arg, Out: out}})
			}
			if p >= owners+others {
				for k := 0; k < removeAll; k++ {
					c := tick()
					ss := l.RemoveAll()
					e := tick()
					tok := map[uint32]int64{}
					for _, s := range ss {
						x := s.(*str)
						if tok[x.id] != 0 {
							t.Violate("stream returned twice", "%d", x.id)
						}
						tok[x.id] = x.token
					}
					for id := uint32(1); id <= uint32(all); id++ {
						logs[p] = append(logs[p], rec{id, kit.Op{Proc: p, Call: c, Ret: e, Kind: "all", Out: tok[id]}})
					}
				}
				return
			}
			present := map[uint32]bool{}
			for k := 0; k < ops; k++ {
				if p < owners {
					id := uint32(p*ids + r.IntN(ids) + 1)
					if present[id] {
						add(id, "remove", 0, func() int64 { l.Remove(id); return 0 })
						present[id] = false
					} else {
						tokens[p]++
						tk := int64(p+1)<<32 | tokens[p]
						add(id, "add", tk, func() int64 { l.Add(&str{id, tk}); return 0 })
						present[id] = true
					}
					if r.IntN(2) == 0 {
						q := uint32(r.IntN(all) + 1)
						add(q, "get", 0, func() int64 { return get(&l, q) })
					}
				} else {
					id := uint32(r.IntN(all) + 1)
					if r.IntN(4) == 0 {
						add(id, "remove", 0, func() int64 { l.Remove(id); return 0 })
					} else {
						add(id, "get", 0, func() int64 { return get(&l, id) })
					}
					_ = l.Size()
					_ = l.IsEmpty()
				}
			}
		}()
	}
	wg.Wait()
	n := 0
	present := 0
	for id := uint32(1); id <= uint32(all); id++ {
		var ops []kit.Op
		for p := range logs {
			for _, r := range logs[p] {
				if r.id == id {
					ops = append(ops, r.op)
				}
			}
		}
		c := clk.Tick()
		fin := get(&l, id)
		ops = append(ops, kit.Op{Proc: -1, Call: c, Ret: clk.Tick(), Kind: "get", Out: fin})
		if fin != 0 {
			present++
		}
		n += len(ops)
		if !stamp || len(ops) > 60 {
			continue
		}
		ok, decided := kit.Linearizable(ops, 0, step)
		if !ok && decided {
			t.Violate("history of a stream ID is not linearizable", "ID %d:\n%s", id, kit.History(ops))
			return
		}
		if decided {
			kit.Count("histories checked", 1)
			t.Case(kit.History(ops))
		} else {
			kit.Count("histories undecided", 1)
		}
	}
	if l.Size() != present || l.IsEmpty() != (present == 0) {
		t.Violate("size", "size %d, empty %v, but %d are found", l.Size(), l.IsEmpty(), present)
	}
	left := l.RemoveAll()
	if len(left) != present || l.Size() != 0 || !l.IsEmpty() {
		t.Violate("remove all", "%d returned of %d, %d left", len(left), present, l.Size())
	}
	kit.Count("operations", int64(n))
}

func main() {
	kit.Main(kit.Config{
		Property:    "P08",
		Rule:        "Concurrent clients register, look up and remove streams; the timed history of every stream ID is checked for linearizability against a register. Sequential programs are compared with a map. Distinct by history.",
		Assumptions: []string{"An ID is registered by one owner, which does not register it again before it removed it (as stream IDs are used)."},
		Scenarios: []kit.Scenario{
			{Name: "sequential against a map", Run: func(t *kit.T) {
				for i := 0; i < kit.N(1500, 15000) && !t.Failed(); i++ {
					var l proxy.Lookup
					m := map[uint32]int64{}
					span := []int{2, 4, 12, 100, 600}[t.Rand.IntN(5)]
					bias := t.Rand.IntN(5)
					var trace []string
					for k := 0; k < 30+t.Rand.IntN(span*3); k++ {
						id := uint32(t.Rand.IntN(span))
						if t.Rand.IntN(10) == 0 {
							id |= 0x7fff0000
						}
						switch {
						case m[id] == 0 && t.Rand.IntN(5) <= bias+1:
							tk := int64(k + 1)
							l.Add(&str{id, tk})
							m[id] = tk
							trace = append(trace, fmt.Sprint("+", id))
						case t.Rand.IntN(400) == 0:
							for _, s := range l.RemoveAll() {
								x := s.(*str)
								if m[x.id] != x.token {
									t.Violate("stream returned that is not registered", "%d after %v", x.id, trace)
								}
								delete(m, x.id)
							}
							if len(m) != 0 {
								t.Violate("stream not returned", "%v", trace)
								m = map[uint32]int64{}
							}
							trace = append(trace, "clear")
						default:
							l.Remove(id)
							delete(m, id)
							trace = append(trace, fmt.Sprint("-", id))
						}
						if l.Size() != len(m) || l.IsEmpty() != (len(m) == 0) {
							t.Violate("size", "%d, want %d after %v", l.Size(), len(m), trace)
						}
						probe := uint32(t.Rand.IntN(span))
						for _, q := range []uint32{id, probe} {
							if got := get(&l, q); got != m[q] {
								t.Violate("look-up", "%d gives %d, want %d after %v", q, got, m[q], trace)
							}
						}
						if t.Failed() {
							return
						}
					}
					for id, tk := range m {
						if got := get(&l, id); got != tk {
							t.Violate("look-up", "%d gives %d, want %d after %v", id, got, tk, trace)
						}
					}
					t.Case(fmt.Sprint(trace))
					if t.Wants() {
						t.Sample("%v", trace)
					}
					kit.Count("operations", int64(len(trace)))
				}
			}},
			{Name: "every removal order", Run: func(t *kit.T) {
				var perm func(a []int, n int, f func([]int))
				perm = func(a []int, n int, f func([]int)) {
					if n == 1 {
						f(a)
						return
					}
					for i := 0; i < n; i++ {
						perm(a, n-1, f)
						j := 0
						if n%2 == 0 {
							j = i
						}
						a[j], a[n-1] = a[n-1], a[j]
					}
				}
				for n := 1; n <= 6; n++ {
					a := make([]int, n)
					for i := range a {
						a[i] = i + 1
					}
					perm(a, n, func(order []int) {
						var l proxy.Lookup
						for i := 1; i <= n; i++ {
							l.Add(&str{uint32(i), int64(i)})
						}
						gone := map[int]bool{}
						for _, id := range order {
							l.Remove(uint32(id))
							gone[id] = true
							for q := 1; q <= n; q++ {
								want := int64(q)
								if gone[q] {
									want = 0
								}
								if got := get(&l, uint32(q)); got != want {
									t.Violate("look-up", "%d gives %d after removing %v", q, got, order)
								}
							}
							// a late arrival in between
							l.Add(&str{100, 100})
							if get(&l, 100) != 100 {
								t.Violate("look-up", "stream added after removing part of %v is not found", order)
							}
							l.Remove(100)
							if get(&l, 100) != 0 || l.Size() != n-len(gone) {
								t.Violate("look-up", "removed stream found or size %d", l.Size())
							}
						}
						t.Case(fmt.Sprint(order))
					})
				}
			}},
			{Name: "concurrent histories", Yields: []int{0, 1, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(250, 4000) && !t.Failed(); i++ {
					concurrent(t, 1+t.Rand.IntN(3), 1+t.Rand.IntN(3), 1+t.Rand.IntN(3), 4+t.Rand.IntN(12), true, t.Rand.IntN(3))
				}
			}},
			{Name: "concurrent load", Yields: []int{0, 2}, Run: func(t *kit.T) {
				for i := 0; i < kit.N(25, 300) && !t.Failed(); i++ {
					concurrent(t, 6, 4, 20, 250, false, i%2)
					t.Case(fmt.Sprint("load", i))
				}
			}},
		},
	})
}
