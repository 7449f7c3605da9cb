//go:build go1.22

// P33: modules in a mesh call each other by name. The modules are compiled
// ones that carry out the program in a request: forward it through an import,
// answer, emit, echo, fail or trap. What they add to the data tells which
// modules, and which versions of them, a request has passed.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/meshkit"
)

func (w *world) end(clean bool) {
	done := make(chan bool)
	go func() { w.m.Close(); close(done) }()
	if _, _, timely := kit.Recv(done); !timely {
		w.t.Fatal("close hangs", "%s", kit.Stacks())
	}
	if clean && !kit.WaitFor(10*time.Second, func() bool { return !strings.Contains(kit.Stacks(), "transport/wasmrs/host.(") }) {
		w.t.Fatal("a closed mesh keeps goroutines", "%s", kit.Stacks())
	}
	w.remove()
}

// links loads modules in some order.
func links(t *kit.T) {
	var opts []mesh.Option
	if t.Rand.IntN(10) == 0 {
		opts = append(opts, mesh.WithVerbose())
	}
	w := newWorld(t, opts...)
	w.populate(1 + w.r.IntN(5))
	if w.r.IntN(3) == 0 { // at once
		var wg sync.WaitGroup
		for _, f := range w.files {
			v := w.next(f)
			v.Write(f.path)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, err := w.m.LoadModule(context.Background(), f.path); err != nil {
					t.Violate("a module does not load", "%v", err)
				}
				kit.Count("loads", 1)
				f.cur = v
			}()
		}
		wg.Wait()
	} else {
		for _, i := range w.r.Perm(len(w.files)) {
			w.load(w.files[i])
			w.calls(w.r.IntN(20))
		}
	}
	w.calls(40)
	w.settle()
	w.end(true)
}

// reloads loads modules again.
func reloads(t *kit.T) {
	w := newWorld(t)
	w.populate(1 + w.r.IntN(4))
	for k := 0; k < 2*len(w.files)+2; k++ {
		w.load(w.files[w.r.IntN(len(w.files))])
		w.calls(15)
		w.settle()
		if t.Failed() {
			return
		}
	}
	w.end(false)
}

// underLoad replaces modules while they are called.
func underLoad(t *kit.T) {
	w := newWorld(t)
	// A chain; all versions number their operations alike.
	n := 1 + w.r.IntN(3)
	for i := 0; i < n; i++ {
		f := &file{path: w.path(i)}
		for _, typ := range []op{{typ: rr}, {typ: rs}, {typ: rc}} {
			o := op{typ.typ, "chain", fmt.Sprint(i)}
			f.exports = append(f.exports, o)
			w.owner[o] = f
			if i+1 < n {
				f.imports = append(f.imports, op{typ.typ, "chain", fmt.Sprint(i + 1)})
			}
		}
		w.files = append(w.files, f)
	}
	first := make([]*version, n)
	type state struct{ from, to atomic.Uint32 } // loaded, being loaded
	states := make([]state, n)
	stride := uint32(1000)
	make1 := func(i int, k uint32) {
		f := w.files[i]
		v := *first[i]
		v.Tag = uint32(i)*stride + k
		states[i].to.Store(v.Tag)
		v.Write(f.path)
		if _, err := w.m.LoadModule(context.Background(), f.path); err != nil {
			t.Violate("a module does not load", "%v", err)
		}
		kit.Count("loads", 1)
		states[i].from.Store(v.Tag)
	}
	for i, f := range w.files {
		first[i] = w.next(f)
		f.cur = first[i]
		make1(i, 1)
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		r := rand.New(rand.NewPCG(w.r.Uint64(), 8))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && !t.Failed() {
				from := make([]uint32, n)
				for i := range from {
					from[i] = states[i].from.Load()
				}
				var prog []byte
				for i := 0; i+1 < n; i++ {
					prog = append(prog, 'F')
					prog = append(prog, u32(first[i].imp[op{rr, "chain", fmt.Sprint(i + 1)}])...)
				}
				x := byte(r.Uint32())
				prog = append(prog, 'R', x)
				done := make(chan error, 1)
				var got []byte
				w.m.RequestResponse(context.Background(), "chain", "0", payload.New(prog, make([]byte, 8))).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(p payload.Payload) { got = p.Data(); done <- nil },
					OnError:   func(err error) { done <- err },
				})
				err, _, timely := kit.Recv(done)
				if !timely {
					t.Fatal("a call does not end", "while modules are replaced\n%s", kit.Stacks())
				}
				if err != nil || len(got) != 4*n+5 || got[4*n+4] != x {
					t.Violate("a call fails while modules are replaced", "%v: %x", err, got)
					return
				}
				kit.Count("calls while modules are replaced", 1)
				for i := range from {
					tag := uint32(got[4*i])<<24 | uint32(got[4*i+1])<<16 | uint32(got[4*i+2])<<8 | uint32(got[4*i+3])
					if to := states[i].to.Load(); tag < from[i] || tag > to {
						t.Violate("a call reaches a module that was replaced", "module %d: %d, not in %d to %d", i, tag, from[i], to)
						return
					}
				}
			}
		}()
	}
	for k := uint32(2); k < uint32(kit.N(16, 30)); k++ {
		make1(w.r.IntN(n), k)
		time.Sleep(time.Duration(w.r.IntN(3000)) * time.Microsecond)
	}
	stop.Store(true)
	wg.Wait()
	h := uint64(0)
	for i := range states {
		h = h*1000003 + uint64(states[i].from.Load())
	}
	t.CaseHash(h, true)
	w.end(false)
}

// linking loads modules while those that are there are called, so that calls
// meet imports and exports in every stage of being linked.
func linking(t *kit.T) {
	w := newWorld(t)
	n := 2 + w.r.IntN(5)
	name := func(i int) string { return fmt.Sprint("m", i) }
	kinds := []op{{typ: rr}, {typ: fn}, {typ: rs}, {typ: rc}}
	for i := 0; i < n; i++ {
		f := &file{path: w.path(i), query: op{rr, name(i), "q"}}
		f.exports = append(f.exports, f.query)
		for _, k := range kinds {
			f.exports = append(f.exports, op{k.typ, name(i), "op"})
		}
		w.files = append(w.files, f)
	}
	for i, f := range w.files {
		for j := range w.files {
			for _, k := range kinds {
				if w.r.IntN(4) > 0 || i == j {
					f.imports = append(f.imports, op{k.typ, name(j), "op"})
				}
			}
		}
	}
	versions := make([]*version, n)
	for i, f := range w.files {
		versions[i] = w.next(f)
		versions[i].Write(f.path)
		f.cur = versions[i]
	}
	loaded := make([]atomic.Bool, n)
	sure, made := make([]atomic.Int64, n), make([]atomic.Int64, n) // of fire and forget
	var stop atomic.Bool
	var wg sync.WaitGroup
	ctx := context.Background()
	var total atomic.Int64
	for k := 0; k < 5; k++ {
		r := rand.New(rand.NewPCG(w.r.Uint64(), 8))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && !t.Failed() {
				typ := kinds[r.IntN(4)].typ
				i := r.IntN(n)
				route := []int{i}
				var prog, tags []byte
				if r.IntN(4) > 0 {
					j := r.IntN(n)
					if at, ok := versions[i].imp[op{typ, name(j), "op"}]; ok {
						prog = cat([]byte{'F'}, u32(at))
						route = append(route, j)
					}
				}
				all := true
				for _, i := range route {
					all = all && loaded[i].Load()
				}
				to := route[len(route)-1]
				for _, i := range route {
					tags = append(tags, u32(versions[i].Tag)...)
				}
				index := u32(versions[to].exp[op{typ, name(to), "op"}])
				x := byte(r.Uint32())
				var want [][]byte
				var got [][]byte
				done := make(chan error, 1)
				prog = append(prog, 'R')
				md := make([]byte, 8)
				onNext := func(p payload.Payload) { got = append(got, p.Data()) }
				sub := func(f flux.Flux[payload.Payload]) {
					f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: onNext,
						OnComplete: func() { done <- nil }, OnError: func(err error) { done <- err }})
				}
				switch typ {
				case fn:
					made[to].Add(1)
					w.m.FireAndForget(ctx, name(i), "op", payload.New(append(prog, x), md))
					if all {
						sure[to].Add(1)
					}
					done <- nil
				case rr:
					want = [][]byte{cat(tags, index, []byte{x})}
					w.m.RequestResponse(ctx, name(i), "op", payload.New(append(prog, x), md)).Subscribe(mono.Subscribe[payload.Payload]{
						OnSuccess: func(p payload.Payload) { onNext(p); done <- nil },
						OnError:   func(err error) { done <- err },
					})
				case rs:
					m := uint32(r.IntN(4))
					for i := uint32(0); i < m; i++ {
						want = append(want, cat(tags, index, u32(i), []byte{x}))
					}
					sub(w.m.RequestStream(ctx, name(i), "op", payload.New(cat(prog, u32(m), []byte{'c', x}), md)))
				case rc:
					var in []payload.Payload
					for k := r.IntN(3); k > 0; k-- {
						b := byte(r.Uint32())
						in = append(in, payload.New([]byte{b}, nil))
						back := []byte{}
						for _, i := range route[:len(route)-1] {
							back = cat(u32(versions[i].Tag), back)
						}
						want = append(want, cat(tags, index, u32(fnv1([]byte{x})), back, []byte{b}))
					}
					sub(w.m.RequestChannel(ctx, name(i), "op", payload.New(append(prog, x), md), flux.FromSlice(in)))
				}
				err, _, timely := kit.Recv(done)
				if !timely {
					t.Fatal("a call does not end", "while modules are linked\n%s", kit.Stacks())
				}
				total.Add(1)
				if err != nil {
					if all {
						t.Violate("a call between linked modules fails", "while others are loaded: %v via %v: %v", typ, route, err)
						return
					}
					kit.Count("calls of what is not linked yet", 1)
					continue
				}
				if typ != fn && fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
					t.Violate("a call is answered wrongly", "while modules are loaded: %v via %v: %x, not %x", typ, route, got, want)
					return
				}
				if all {
					kit.Count("calls of what is linked while others are loaded", 1)
				}
			}
		}()
	}
	for _, i := range w.r.Perm(n) {
		before := total.Load()
		if _, err := w.m.LoadModule(ctx, w.files[i].path); err != nil {
			t.Violate("a module does not load", "%v", err)
		}
		loaded[i].Store(true)
		kit.Count("loads", 1)
		kit.WaitFor(time.Second, func() bool { return total.Load() > before+10 || t.Failed() })
	}
	stop.Store(true)
	wg.Wait()
	for i := range w.files {
		if t.Failed() {
			return
		}
		var fnfs uint32
		if !kit.WaitFor(5*time.Second, func() bool {
			done := make(chan error, 1)
			w.m.RequestResponse(ctx, name(i), "q", payload.New([]byte{'Q'}, make([]byte, 8))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					if b := p.Data(); len(b) == 16 {
						fnfs = uint32(b[8])<<24 | uint32(b[9])<<16 | uint32(b[10])<<8 | uint32(b[11])
					}
					done <- nil
				},
				OnError: func(err error) { done <- err },
			})
			kit.Recv(done)
			return int64(fnfs) >= sure[i].Load()
		}) || int64(fnfs) > made[i].Load() {
			t.Violate("messages between modules are lost or repeated", "module %d: %d, of %d to %d", i, fnfs, sure[i].Load(), made[i].Load())
		}
		kit.Count("messages sent while modules are loaded", int64(fnfs))
	}
	t.CaseHash(uint64(total.Load())<<8|uint64(n), true)
	w.end(true)
}

// traps has modules that trap.
func traps(t *kit.T) {
	w := newWorld(t)
	w.populate(1 + w.r.IntN(4))
	for _, f := range w.files {
		if w.r.IntN(2) == 0 {
			f.imports = nil
		}
	}
	for _, i := range w.r.Perm(len(w.files)) {
		w.load(w.files[i])
	}
	for k := 0; k < 3; k++ {
		w.loose = true
		var cs []*call
		for i := 0; i < 20; i++ {
			typ := []op{{typ: rr}, {typ: rs}, {typ: rc}}[w.r.IntN(3)].typ
			c := w.plan(w.anyOp(typ), w.r.IntN(6), 0)
			if c.survivable() && w.r.IntN(4) == 0 {
				c = w.plan(c.entry, len(c.route)-1, 'T')
			}
			if c.term == 'T' && !c.survivable() {
				c = w.plan(c.entry, 0, 0)
			}
			cs = append(cs, c)
		}
		w.all(cs, 1+w.r.IntN(6))
		for _, c := range cs {
			if c.term == 'T' {
				kit.Count("traps", 1)
				if !c.failed {
					t.Violate("a call succeeds although the module traps", "%v", c)
				}
			}
		}
		// All is well again, once what the failed calls have left is dealt with.
		ok := kit.Wait(func() bool {
			var cs []*call
			for _, f := range w.files {
				cs = append(cs, w.plan(f.query, 0, 'R'), w.plan(f.query, 0, 'P'))
			}
			for i := 0; i < 6; i++ {
				typ := []op{{typ: rr}, {typ: rs}, {typ: rc}}[w.r.IntN(3)].typ
				cs = append(cs, w.plan(w.anyOp(typ), w.r.IntN(6), 0))
			}
			w.all(cs, 2)
			for _, c := range cs {
				if c.failed && !c.err {
					return false
				}
			}
			return true
		})
		if !ok {
			t.Fatal("modules do not recover from a trap", "%s", kit.Stacks())
		}
	}
	w.end(true)
}

// survivable tells whether a trap at the end of the route leaves nothing in
// the module that waits for an answer.
func (c *call) survivable() bool {
	if len(c.route) == 0 {
		return false
	}
	for o := range c.route[len(c.route)-1].imp {
		if o.typ != rr {
			return false
		}
	}
	return true
}

// closing closes the mesh while it is used.
func closing(t *kit.T) {
	w := newWorld(t)
	w.populate(1 + w.r.IntN(4))
	for _, i := range w.r.Perm(len(w.files)) {
		w.load(w.files[i])
	}
	w.loose = true
	var cs []*call
	for i := 0; i < 40; i++ {
		cs = append(cs, w.any())
	}
	for _, f := range w.files { // never answered
		cs = append(cs, w.plan(f.query, 0, 'H'))
	}
	var wg sync.WaitGroup
	wait := time.Duration(w.r.IntN(4000)) * time.Microsecond
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(wait)
			w.m.Close()
		}()
	}
	w.all(cs, 1+w.r.IntN(6))
	closed := make(chan bool)
	go func() { wg.Wait(); close(closed) }()
	if _, _, timely := kit.Recv(closed); !timely {
		t.Fatal("close hangs", "%s", kit.Stacks())
	}
	for i := 0; i < 10; i++ {
		c := w.any()
		c.start()
		c.wait()
		if c.entry.typ != fn && !c.failed {
			t.Violate("a call of a closed mesh succeeds", "%v", c)
		}
	}
	w.end(true)
}

// failures loads what cannot be loaded.
func failures(t *kit.T) {
	w := newWorld(t)
	w.populate(2)
	w.load(w.files[0])
	good := w.next(w.files[1]).Bytes()
	for how := 0; how < 11; how++ {
		m := w.next(w.files[1]).Module
		path := w.files[w.r.IntN(2)].path
		b := good
		switch how {
		case 0:
			path = filepath.Join(w.dir, "nothing")
		case 1:
			b = nil
		case 2:
			b = w.bytes(100)
		case 3:
			b = good[:len(good)/2]
		case 4, 5, 6:
			m.Flags = []uint32{meshkit.BadInit, meshkit.BadList, meshkit.BadStart}[how-4]
			b = m.Bytes()
		case 7, 8, 9:
			m.Lacks = []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"}[how-7]
			b = m.Bytes()
		case 10:
			path = w.dir
		}
		if how != 0 && how != 10 {
			os.WriteFile(path, b, 0o600)
		}
		var err error
		var inst *host.Instance
		ok := t.Guard("loading crashes", func() string { return fmt.Sprint("module ", how) }, func() {
			if how%2 == 0 {
				err = w.m.LoadModules(context.Background(), path)
			} else {
				inst, err = w.m.LoadModule(context.Background(), path)
			}
		})
		if !ok {
			return
		}
		if err == nil || inst != nil {
			t.Violate("a broken module loads", "module %d", how)
		}
		kit.Count("failed loads", 1)
		w.calls(10) // as before
	}
	w.load(w.files[1])
	w.calls(20)
	w.settle()
	w.end(true)
}

// grace replaces a module that does not answer.
func grace(t *kit.T) {
	var wg sync.WaitGroup
	for k := 0; k < kit.N(4, 12); k++ {
		w := newWorld(t)
		w.layout = k % 3
		w.populate(2)
		w.load(w.files[0])
		w.load(w.files[1])
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := w.files[k%2]
			w.loose = true
			var cs []*call
			for i := 0; i < 3; i++ {
				c := w.plan(f.query, 0, 'H')
				c.start()
				cs = append(cs, c)
			}
			time.Sleep(5 * time.Millisecond)
			w.load(f)
			for _, c := range cs {
				c.wait()
				if !c.failed {
					t.Violate("a call that nobody answers succeeds", "%v", c)
				}
				kit.Count("calls of replaced modules ended", 1)
			}
			w.loose = false
			w.calls(20)
			w.settle()
			w.end(false)
		}()
	}
	wg.Wait()
	t.CaseHash(1, true)
}

func repeat(quick, thorough int, f func(*kit.T)) func(*kit.T) {
	return func(t *kit.T) {
		for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
			f(t)
		}
	}
}

func main() {
	y := []int{0, 30}
	kit.Main(kit.Config{
		Property: "P33",
		Rule: "Compiled modules that import from each other are loaded into real meshes, in any order, at once, again, broken, and closed. " +
			"Requests carry programs that send them through the modules; every module and version they pass leaves its mark, which a model of the links predicts. " +
			"Every request must come back with exactly the predicted elements and end; what is sent and forgotten is counted by the modules.",
		Assumptions: []string{"no two modules export the same operation", "nothing that a module has called is left unanswered when the mesh is closed (Close waits for it); a module that traps has no streams to others, of which it would not learn that nobody wants them any more"},
		Scenarios: []kit.Scenario{
			{Name: "links", Yields: y, Run: repeat(15, 400, links)},
			{Name: "reloads", Yields: y, Run: repeat(5, 120, reloads)},
			{Name: "reloads under load", Yields: y, Run: repeat(8, 60, underLoad)},
			{Name: "links under load", Yields: y, Run: repeat(12, 200, linking)},
			{Name: "traps", Yields: y, Run: repeat(12, 300, traps)},
			{Name: "close", Yields: y, Run: repeat(12, 300, closing)},
			{Name: "failed loads", Yields: []int{0}, Run: repeat(3, 30, failures)},
			{Name: "grace", Yields: []int{0}, Run: grace},
		},
	})
}
