//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/example"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/verifh/guestlink"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/msgkit"
)

// str is a string in MessagePack, written independently of the code under test.
func str(s string) []byte {
	n := len(s)
	switch {
	case n < 32:
		return append([]byte{0xa0 | byte(n)}, s...)
	case n < 256:
		return append([]byte{0xd9, byte(n)}, s...)
	}
	return append([]byte{0xda, byte(n >> 8), byte(n)}, s...)
}

func record(keyvals ...string) []byte {
	b := []byte{0x80 | byte(len(keyvals)/2)}
	for _, s := range keyvals {
		b = append(b, str(s)...)
	}
	return b
}

// some is a record that may lack fields, which are empty then, have others, and
// any order.
func some(r *rand.Rand, keyvals ...*string) []byte {
	var l []string
	for _, i := range r.Perm(len(keyvals) / 2) {
		if r.IntN(6) == 0 {
			*keyvals[2*i+1] = ""
			continue
		}
		l = append(l, *keyvals[2*i], *keyvals[2*i+1])
	}
	if r.IntN(5) == 0 {
		l = append([]string{"other", word(r)}, l...)
	}
	return record(l...)
}

func field(s string) *string { return &s }

func word(r *rand.Rand) string {
	if r.IntN(12) == 0 {
		return strings.Repeat("long é ", 1+r.IntN(400))
	}
	return string(msgkit.Text(r, r.IntN(30)))
}

// answer waits for a string.
func answer(t *kit.T, what string, m mono.Mono[payload.Payload], want string, about func() string) bool {
	ch := make(chan string, 4)
	m.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { ch <- string(p.Data()) },
		OnError:   func(err error) { ch <- "error " + err.Error() },
	})
	got, _, timely := kit.Recv(ch)
	if !timely {
		t.Violate("a program does not answer", "%s: %s\n%s", what, about(), kit.Stacks())
		return false
	}
	if got != string(str(want)) {
		t.Violate("answer of a program", "%s: %.200q, not %.200q; %s", what, got, str(want), about())
		return false
	}
	kit.Count("answers of the programs", 1)
	t.Case(what)
	return true
}

// customers is the mesh of the customer module and those it needs.
func customers(t *kit.T) {
	m := mesh.New()
	dir, err := os.MkdirTemp(".", "mesh")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var ends []*end
	programs := []string{"concat", "greeting", "customer"}
	for _, i := range t.Rand.Perm(3) {
		e := join(t, m, dir, programs[i], programs[i])
		ends = append(ends, e)
		defer e.guest.Quit()
	}
	about := func() string { return text(ends) }
	var wg sync.WaitGroup
	for g := 0; g < 1+t.Rand.IntN(8); g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 25 && !t.Failed(); k++ {
				a, b := word(r), word(r)
				ok := true
				switch r.IntN(4) {
				case 0:
					data := some(r, field("left"), &a, field("right"), &b)
					ok = answer(t, fmt.Sprintf("concat %q %q", a, b), in(m, "concat.v1", nil).rr("concat", data), a+" "+b, about)
				case 1:
					data := some(r, field("name"), &a)
					ok = answer(t, fmt.Sprintf("greeting %q", a), in(m, "greeting.v1", nil).rr("sayHello", data), "Hello, "+a, about)
				default:
					data := some(r, field("firstName"), &a, field("lastName"), &b)
					ok = answer(t, fmt.Sprintf("customer %q %q", a, b), in(m, "flow.v1", nil).rr("flow", data), "Hello, "+a+" "+b, about)
				}
				if !ok {
					return
				}
			}
		}()
	}
	wg.Wait()
	m.Close()
}

var (
	exampleOnce sync.Once
	exampleEnds atomic.Int64 // of the counters
)

// counter counts as the example's host does, without its pauses.
func counter(to uint64) flux.Flux[string] {
	return flux.Create(func(sink flux.Sink[string]) {
		i := uint64(1)
		sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			for ; i <= to && n > 0; i++ {
				n--
				sink.Next(fmt.Sprint(i))
			}
			if i > to {
				i++
				exampleEnds.Add(1)
				sink.Complete()
			}
		}})
	})
}

// greets is the example of a guest that calls its host.
func greets(t *kit.T) {
	exampleOnce.Do(func() {
		example.RegisterCounter(func(_ ctxt, to uint64) flux.Flux[string] { return counter(to) })
		example.RegisterUppercase(func(_ ctxt, in flux.Flux[string]) flux.Flux[string] {
			return flux.Map(in, func(s string) (string, error) { return strings.ToUpper(s), nil })
		})
	})
	g, inst := instance(t, "example-guest")
	defer g.Quit()
	exampleEnds.Store(0)
	hello, upper := of("greeting", inst, g), inst.ImportRequestChannel("host", "counter")
	var wg sync.WaitGroup
	var greetings int
	var mu sync.Mutex
	for k := 0; k < 1+t.Rand.IntN(5); k++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 6 && !t.Failed(); k++ {
				if r.IntN(3) > 0 {
					a, b := word(r), word(r)
					if !answer(t, fmt.Sprintf("greet %q %q", a, b), hello.rr("sayHello", record("firstName", a, "lastName", b)), "Hello, "+a+" "+b, g.Text) {
						return
					}
					mu.Lock()
					greetings++
					if n := exampleEnds.Load(); n < int64(3*greetings) {
						t.Violate("the example guest does not wait", "%d greetings when %d counters have ended", greetings, n)
					}
					mu.Unlock()
					continue
				}
				var l []payload.Payload
				var want [][]byte
				for i := r.IntN(20); i > 0; i-- {
					s := word(r)
					l = append(l, payload.New(str(s)))
					want = append(want, elem(str(strings.ToUpper(s)), nil))
				}
				if !read(t, r, hello, fmt.Sprintf("uppercase %d", len(l)), inst.RequestChannel(ctx, payload.New(nil, md(upper)), flux.FromSlice(l)), want, "") {
					return
				}
				t.Case(fmt.Sprint("uppercase", want))
			}
		}()
	}
	wg.Wait()
	// Each greeting made the calls of the flow: the words in capitals, and eleven counts.
	told := func() (n [4]int) {
		for _, l := range strings.Split(g.Text(), "\n") {
			switch {
			case l == "ONE" || l == "TWO" || l == "THREE":
				n[3]++
			case strings.HasPrefix(l, "Counter ") && len(l) > 8 && l[8] >= '0' && l[8] <= '2':
				n[l[8]-'0']++
			}
		}
		return
	}
	want := [4]int{3 * greetings, 3 * greetings, 5 * greetings, 3 * greetings}
	if !t.Failed() && len(g.Text()) < 60000 && !kit.Wait(func() bool { return told() == want }) {
		t.Violate("calls of the example guest", "%d greetings: %v, not %v; %s", greetings, told(), want, g.Text())
	}
	closed(t, inst)
}

func port(name string, flags byte) []byte {
	return append([]byte{flags, byte(len(name) >> 8), byte(len(name))}, name...)
}

// components runs the components in a guest.
func components(t *kit.T) {
	g, inst := instance(t, "components")
	defer g.Quit()
	var wg sync.WaitGroup
	for k := 0; k < 1+t.Rand.IntN(5); k++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 8 && !t.Failed(); k++ {
				name := []string{"Concat", "Greeter", "WordFrequency"}[r.IntN(3)]
				var l, want []string
				counts := map[string]int{}
				a, b := word(r), word(r)
				switch name {
				case "Concat":
					l = append(l, string(port("strings", 3)), string(record("left", a, "right", b)))
					want = append(want, string(port("value", 3)), string(str(a+" "+b)))
				case "Greeter":
					l = append(l, string(port("name", 3)), string(str(a)))
					want = append(want, string(port("message", 3)), string(str("Hello, "+a)))
				default:
					for i := r.IntN(100); i > 0; i-- {
						w := []string{"wasm", "WASM", "guest", "the", "host", "Host"}[r.IntN(6)]
						l = append(l, string(port("words", 1)), string(str(w)))
						if w != "the" {
							counts[strings.ToLower(w)]++
						}
					}
				}
				var ps []payload.Payload
				for i := 0; i < len(l); i += 2 {
					ps = append(ps, payload.New([]byte(l[i+1]), []byte(l[i])))
				}
				what := fmt.Sprintf("%s of %d: %.80q", name, len(ps), l)
				index := inst.ImportRequestChannel(strings.ToLower(name), name)
				got, end, ok := outputs(t, what, g, inst.RequestChannel(ctx, payload.New([]byte{}, md(index)), flux.FromSlice(ps)), r.IntN(3))
				if !ok {
					return
				}
				if name != "WordFrequency" {
					if end != "complete" || !slices.Equal(got, want) {
						t.Violate("outputs of a component", "%s: %.300q, %s, not %.300q; %s", what, got, end, want, g.Text())
					}
				} else if s := counted(got, counts); end != "complete" || s != "" {
					t.Violate("outputs of a component", "%s: %s, %s; %s", what, end, s, g.Text())
				}
				kit.Count("components run in guests", 1)
				t.Case(what)
			}
		}()
	}
	wg.Wait()
	closed(t, inst)
}

func counted(got []string, counts map[string]int) string {
	if len(got) != 2*len(counts)+2 {
		return fmt.Sprintf("%d outputs, %v", len(got)/2, counts)
	}
	last := 1 << 30
	for i := 0; i < len(got); i += 2 {
		if i == len(got)-2 {
			if got[i] != string(port("counts", 2)) {
				return fmt.Sprintf("the last output is %q", got[i])
			}
			break
		}
		found := false
		for w, n := range counts {
			if got[i] == string(port("counts", 1)) && n <= last && n < 128 && (got[i+1] == string(append(append(append([]byte{0x82}, str("word")...), str(w)...), append(str("count"), byte(n))...)) ||
				got[i+1] == string(append(append(append([]byte{0x82}, str("count")...), byte(n)), append(str("word"), str(w)...)...))) {
				found, last = true, n
				delete(counts, w)
				counts["\x00"+w] = -1
				break
			}
		}
		if !found {
			return fmt.Sprintf("output %q %q, left are %q", got[i], got[i+1], counts)
		}
	}
	return ""
}

func outputs(t *kit.T, what string, g *guestlink.Guest, f flux.Flux[payload.Payload], portion int) (got []string, end string, ok bool) {
	done := make(chan struct{}, 4)
	s := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { got = append(got, string(p.Metadata()), string(p.Data())) },
		OnComplete: func() { end += "complete" },
		OnError:    func(err error) { end += "error " + err.Error() },
		Finally:    func(rx.SignalType) { done <- struct{}{} },
	}
	if portion > 0 {
		s.OnRequest = func(s rx.Subscription) { s.Request(portion) }
	}
	f.Subscribe(s)
	if _, _, timely := kit.Recv(done); !timely {
		t.Violate("a component does not end", "%s: %s\n%s", what, g.Text(), kit.Stacks())
		return nil, "", false
	}
	return got, end, true
}

// hosts runs the programs of hosts with the guests they are made for.
func hosts(t *kit.T) {
	for _, x := range []struct{ program, file, guest, out, err string }{
		{"host", "cmd/guest/main.wasm", "example-guest", "", "Success: Hello, John Doe\n"},
		{"components-host", "cmd/fbp/guest/main.wasm", "components", "Hello, Foo Bar\n", ""},
	} {
		dir, err := os.MkdirTemp(".", "host")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, x.file)
		if err := os.MkdirAll(filepath.Dir(file), 0o700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(file, guestlink.Wasm, 0o600); err != nil {
			panic(err)
		}
		g, err := guestlink.Launch(x.guest)
		if err != nil {
			t.Fatal("the program of a guest does not start", "%s: %v", x.guest, err)
		}
		cmd := exec.Command(guestlink.Program(x.program))
		var msg bytes.Buffer
		cmd.Dir, cmd.Stdin, cmd.Stdout, cmd.Stderr = dir, g.In, g.Out, &msg
		if err := cmd.Start(); err != nil {
			t.Fatal("the program of a host does not start", "%s: %v", x.program, err)
		}
		g.Out.Close()
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil || !strings.Contains(msg.String(), x.err) || !strings.Contains(g.Text(), x.out) || strings.Contains(msg.String(), "DATA RACE") {
				t.Violate("program of a host", "%s: %v: %s; %s", x.program, err, msg.String(), g.Text())
			}
			kit.Count("programs of hosts run", 1)
			t.Case(x.program)
		case <-time.After(90 * time.Second):
			_ = cmd.Process.Kill()
			<-done
			t.Defect("program of a host does not end", "%s: %s; %s", x.program, msg.String(), g.Text())
		}
		g.Quit()
	}
}
