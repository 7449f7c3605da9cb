//go:build go1.22

package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	concomp "github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	grecomp "github.com/nanobus/iota/go/transport/wasmrs/example/greeter"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// MessagePack and port data, written independently of the code under test.

func str(s string) []byte {
	n := len(s)
	switch {
	case n < 32:
		return append([]byte{0xa0 | byte(n)}, s...)
	case n < 256:
		return append([]byte{0xd9, byte(n)}, s...)
	case n < 65536:
		return append([]byte{0xda, byte(n >> 8), byte(n)}, s...)
	}
	return append(binary.BigEndian.AppendUint32([]byte{0xdb}, uint32(n)), s...)
}

func pair(left, right string, order int, extra bool) []byte {
	b := []byte{0x82}
	if extra {
		b = []byte{0x83}
		b = append(append(b, str("other")...), 0x93, 1, 0xc0, 0xa1, 'x')
	}
	l := append(str("left"), str(left)...)
	r := append(str("right"), str(right)...)
	if order == 0 {
		return append(append(b, l...), r...)
	}
	return append(append(b, r...), l...)
}

// readStr reads a string and what follows.
func readStr(b []byte) (string, []byte, bool) {
	if len(b) == 0 {
		return "", nil, false
	}
	n, k := 0, 0
	switch c := b[0]; {
	case c&0xe0 == 0xa0:
		n, k = int(c&31), 1
	case c == 0xd9 && len(b) > 1:
		n, k = int(b[1]), 2
	case c == 0xda && len(b) > 2:
		n, k = int(b[1])<<8|int(b[2]), 3
	case c == 0xdb && len(b) > 4:
		n, k = int(binary.BigEndian.Uint32(b[1:])), 5
	default:
		return "", nil, false
	}
	if len(b) < k+n {
		return "", nil, false
	}
	return string(b[k : k+n]), b[k+n:], true
}

func readUint(b []byte) (uint64, bool) {
	if len(b) == 0 {
		return 0, false
	}
	switch c := b[0]; {
	case c < 0x80 && len(b) == 1:
		return uint64(c), true
	case c == 0xcc && len(b) == 2:
		return uint64(b[1]), true
	case c == 0xcd && len(b) == 3:
		return uint64(binary.BigEndian.Uint16(b[1:])), true
	}
	return 0, false
}

// readCount reads a word and its count, a map of two.
func readCount(b []byte) (word string, n uint64, ok bool) {
	if len(b) == 0 || b[0] != 0x82 {
		return
	}
	b = b[1:]
	var key string
	for i := 0; i < 2; i++ {
		if key, b, ok = readStr(b); !ok {
			return
		}
		switch key {
		case "word":
			if word, b, ok = readStr(b); !ok {
				return
			}
		case "count":
			k := 1
			if b[0] >= 0x80 {
				k = map[byte]int{0xcc: 2, 0xcd: 3, 0xce: 5, 0xcf: 9}[b[0]]
			}
			if k == 0 || len(b) < k {
				return "", 0, false
			}
			if n, ok = readUint(b[:k]); !ok {
				return
			}
			b = b[k:]
		default:
			return "", 0, false
		}
	}
	return word, n, len(b) == 0
}

func portMD(name string, next, complete bool) []byte {
	var f byte
	if next {
		f |= 1
	}
	if complete {
		f |= 2
	}
	return append([]byte{f, byte(len(name) >> 8), byte(len(name))}, name...)
}

// out is what a component sent.
type out struct {
	port           string
	next, complete bool
	data           []byte
}

func readPort(p payload.Payload) (o out, ok bool) {
	md := p.Metadata()
	if len(md) < 3 {
		return o, false
	}
	n := int(md[1])<<8 | int(md[2])
	if len(md) < 3+n || md[0]&^3 != 0 {
		return o, false
	}
	return out{string(md[3 : 3+n]), md[0]&1 != 0, md[0]&2 != 0, p.Data()}, true
}

// feed is the input of a component.
type feed struct {
	items []payload.Payload
	end   int // 0: complete, 1: error, 2: stays open until released
	rel   chan struct{}
	async bool
}

var errFeed = errors.New("input is lost")

func (f *feed) flux() flux.Flux[payload.Payload] {
	finish := func(s flux.Sink[payload.Payload]) {
		switch f.end {
		case 0:
			s.Complete()
		case 1:
			s.Error(errFeed)
		case 2:
			go func() {
				<-f.rel
				s.Complete()
			}()
		}
	}
	if !f.async {
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			for _, p := range f.items {
				s.Next(p)
			}
			finish(s)
		})
	}
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		i, over := 0, false
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			for ; n > 0 && i < len(f.items); n-- {
				i++
				s.Next(f.items[i-1])
			}
			if i == len(f.items) && !over {
				over = true
				finish(s)
			}
		}})
	})
}

type way func(t *kit.T, operation string, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]

func direct(t *kit.T, operation string, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	ns := strings.ToLower(operation)
	return invoke.GetRequestChannelHandler(find(operations.RequestChannel, ns, operation))(context.Background(), payload.New(nil), in)
}

// remote calls many components over one connection, from both ends.
func remote(t *kit.T) {
	rig := rpckit.NewRig(t, t.Rand.IntN(2) == 0, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	callers := []invoke.Caller{p.Server, near{p.Client}}
	var wg sync.WaitGroup
	for g := 0; g < 5; g++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(g)))
		c := callers[g%2]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 10 && !t.Failed(); k++ {
				component(t, r, func(t *kit.T, operation string, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
					md := binary.BigEndian.AppendUint32(nil, c.ImportRequestChannel(strings.ToLower(operation), operation))
					return c.RequestChannel(context.Background(), payload.New([]byte{}, append(md, 0, 0, 0, 0)), in)
				})
			}
		}()
	}
	wg.Wait()
	if !t.Failed() {
		p.Forgotten("components")
	}
}

var vocabulary = []string{"the", "The", "I", "i", "a", "A", "word", "Word", "WORD", "és", "ÉS", "", "nix", "Xi", "you", "that", "thou", "界", "to be", "my"}

var ignored = map[string]bool{"i": true, "the": true, "and": true, "to": true, "of": true, "a": true, "my": true, "in": true, "you": true, "is": true, "that": true}

// component runs a component with one input and compares what comes out.
func component(t *kit.T, r *rand.Rand, w way) {
	name := []string{"WordFrequency", "Concat", "Greeter"}[r.IntN(3)]
	port := map[string]string{"WordFrequency": "words", "Concat": "strings", "Greeter": "name"}[name]
	f := &feed{rel: make(chan struct{}), async: r.IntN(2) == 0, end: r.IntN(6)}
	if f.end > 2 {
		f.end = 0
	}
	released := sync.OnceFunc(func() { close(f.rel) })
	defer released()
	n := r.IntN(5)
	if name == "WordFrequency" {
		n = r.IntN(60)
	}
	var (
		done, bad bool
		counts    = map[string]uint64{}
		value     string
		show      []string
	)
	for i := 0; i < n && !bad; i++ {
		portName, next, complete := port, true, false
		if r.IntN(8) == 0 {
			portName = []string{"", "other", port + "s", strings.ToUpper(port), strings.Repeat("p", 300)}[r.IntN(5)]
		}
		if r.IntN(10) == 0 {
			next = false
		}
		if r.IntN(25) == 0 {
			complete = true
		}
		var data []byte
		var w1, w2 string
		if name == "WordFrequency" {
			w1 = vocabulary[r.IntN(len(vocabulary))]
			if r.IntN(30) == 0 {
				w1 = text(r)
			}
			data = str(w1)
		} else {
			w1, w2 = text(r), text(r)
			data = str(w1)
			if name == "Concat" {
				data = pair(w1, w2, r.IntN(2), r.IntN(3) == 0)
			}
		}
		md := portMD(portName, next, complete)
		if r.IntN(20) == 0 {
			md = append(md, "behind the name"...)
		}
		broken := !done && r.IntN(60) == 0
		if broken {
			switch r.IntN(4) {
			case 0:
				md = md[:r.IntN(3)]
			case 1:
				md = binary.BigEndian.AppendUint16(md[:1], uint16(len(md)))
			default:
				portName, next, complete = port, true, false
				md = portMD(portName, next, complete)
				data = [][]byte{{}, {0xc1}, str(strings.Repeat("x", 50))[:20], {0xdb, 0xff, 0xff, 0xff, 0xff, 'x'}}[r.IntN(4)]
			}
		}
		f.items = append(f.items, payload.New(data, md))
		if len(show) < 12 {
			show = append(show, fmt.Sprintf("%.12q/%.12q/%x", brief(portName), brief(w1), md[:min(1, len(md))]))
		}
		if done {
			continue // settled
		}
		if broken {
			bad = true
			break
		}
		if portName != port {
			continue
		}
		switch name {
		case "WordFrequency":
			if next {
				if l := strings.ToLower(w1); !ignored[l] {
					counts[l]++
				}
			}
			done = complete
		case "Concat":
			if next {
				value, done = w1+" "+w2, true
			}
		case "Greeter":
			if next {
				value, done = "Hello, "+w1, true
			}
		}
	}
	if !bad && !done {
		// Input that fails, or ends without a value, is for lost.
		if name != "WordFrequency" {
			w1, w2 := text(r), text(r)
			data := str(w1)
			value = "Hello, " + w1
			if name == "Concat" {
				data, value = pair(w1, w2, 0, false), w1+" "+w2
			}
			f.items = append(f.items, payload.New(data, portMD(port, true, false)))
			done = true
		} else if f.end == 1 {
			f.end = 0
		}
	}
	what := fmt.Sprintf("%s, %d items, end %d: %s", name, len(f.items), f.end, strings.Join(show, " "))
	if !bad && !done && f.end == 2 {
		f.end = 0
	}
	var mu sync.Mutex
	var got []out
	var end []string
	malformed, over := 0, 0
	ended := make(chan struct{}, 4)
	fl := w(t, name, f.flux())
	sub := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			mu.Lock()
			defer mu.Unlock()
			if len(end) > 0 {
				over++
			}
			o, ok := readPort(p)
			if !ok {
				malformed++
			}
			got = append(got, o)
		},
		OnComplete: func() { mu.Lock(); end = append(end, "complete"); mu.Unlock() },
		OnError:    func(err error) { mu.Lock(); end = append(end, "error: "+err.Error()); mu.Unlock() },
		Finally:    func(rx.SignalType) { ended <- struct{}{} },
	}
	fl.Subscribe(sub)
	if _, _, timely := kit.Recv(ended); !timely {
		t.Violate("component does not end", "%s: %d outputs\n%s", what, len(got), kit.Stacks())
		return
	}
	released()
	mu.Lock()
	defer mu.Unlock()
	kit.Count("outputs of components", int64(len(got)))
	if malformed > 0 || over > 0 || len(end) != 1 {
		t.Violate("outputs of a component", "%s: %d of %d outputs are malformed, %d after the end, ends %q", what, malformed, len(got), over, end)
		return
	}
	if bad {
		if !strings.HasPrefix(end[0], "error") || len(got) > 0 {
			t.Violate("component with input that failed", "%s: %d outputs, %s", what, len(got), end[0])
			return
		}
		kit.Count("components that failed with their input", 1)
		t.Case(what)
		return
	}
	if end[0] != "complete" {
		t.Violate("component fails", "%s: %s after %d outputs", what, end[0], len(got))
		return
	}
	if name != "WordFrequency" {
		op := map[string]string{"Concat": "value", "Greeter": "message"}[name]
		if len(got) != 1 || got[0].port != op || !got[0].next || !got[0].complete {
			t.Violate("outputs of a component", "%s: %d outputs, %.200v", what, len(got), got)
			return
		}
		if s, rest, ok := readStr(got[0].data); !ok || s != value || len(rest) > 0 {
			t.Violate("value of a component", "%s: %.60q, not %.60q", what, s, value)
			return
		}
		kit.Count("values of components", 1)
		t.Case(what)
		return
	}
	if len(got) != len(counts)+1 {
		t.Violate("outputs of a component", "%s: %d outputs, %d different words", what, len(got), len(counts))
		return
	}
	last := uint64(1 << 63)
	seen := map[string]bool{}
	for i, o := range got {
		if o.port != "counts" || o.complete != (i == len(counts)) || o.next != (i < len(counts)) {
			t.Violate("outputs of a component", "%s: output %d of %d is on port %q, next %v, complete %v", what, i, len(got), o.port, o.next, o.complete)
			return
		}
		if i == len(counts) {
			break
		}
		word, n, ok := readCount(o.data)
		if !ok || counts[word] != n || n == 0 || n > last || seen[word] {
			t.Violate("count of a word", "%s: %q counted %d times, is there %d times, the one before %d times (%v, again %v)", what, word, n, counts[word], last, ok, seen[word])
			return
		}
		seen[word], last = true, n
		kit.Count("words counted", 1)
	}
	t.Case(what)
	if t.Wants() {
		t.Sample("%s", what)
	}
}

// composed pipes components into each other without a connection, as
// cmd/greeter and cmd/wordfrequency do.
func composed(t *kit.T) {
	r := t.Rand
	ctx := context.Background()
	if r.IntN(2) == 0 {
		concatIn, concatOut := mono.NewProcessor[concomp.Strings](), mono.NewProcessor[string]()
		greetIn, greetOut := mono.NewProcessor[string](), mono.NewProcessor[string]()
		c := concomp.Concat{Inputs: concomp.ConcatInputs{Strings: concatIn}, Outputs: concomp.ConcatOutputs{Value: concatOut}}
		c.Process(ctx)
		g := grecomp.Greeter{Inputs: grecomp.GreeterInputs{Name: greetIn}, Outputs: grecomp.GreeterOutputs{Message: greetOut}}
		g.Process(ctx)
		done := make(chan struct{})
		var got []string
		concatOut.Subscribe(mono.Subscribe[string]{OnSuccess: func(s string) { greetIn.Success(s) }, OnError: func(err error) { greetIn.Error(err) }})
		greetOut.Subscribe(mono.Subscribe[string]{OnSuccess: func(s string) { got = append(got, s) }, OnError: func(err error) { got = append(got, "error "+err.Error()) }})
		greetOut.Notify(func(rx.SignalType) { close(done) })
		a, b := text(r), text(r)
		want := "Hello, " + a + " " + b
		go concatIn.Success(concomp.Strings{Left: a, Right: b})
		if _, _, timely := kit.Recv(done); !timely {
			t.Violate("components that follow each other do not end", "%.40q %.40q\n%s", a, b, kit.Stacks())
			return
		}
		if len(got) != 1 || got[0] != want {
			t.Violate("result of components that follow each other", "%.100q, not %.100q", got, want)
			return
		}
		t.Case(fmt.Sprint("pipe", len(a), len(b)))
		kit.Count("pipes of components", 1)
		return
	}
	// Counts are read in portions until they are below a limit.
	words, counts := flux.NewProcessor[string](), flux.NewProcessor[wordfrequency.WordCount]()
	comp := wordfrequency.WordFrequency{Input: wordfrequency.WordFrequencyInputs{Words: words}, Output: wordfrequency.WordFrequencyOutputs{Counts: counts}}
	comp.Process(ctx)
	var got []wordfrequency.WordCount
	portion := 1 + r.IntN(4)
	limit := uint64(r.IntN(6))
	cancel := false
	var end rx.SignalType
	done := make(chan struct{}, 2)
	counts.Subscribe(flux.Subscribe[wordfrequency.WordCount]{
		OnNext: func(c wordfrequency.WordCount) {
			if c.Count < limit {
				cancel = true
			} else {
				got = append(got, c)
			}
		},
		Finally: func(s rx.SignalType) { end = s; done <- struct{}{} },
		OnRequest: func(s rx.Subscription) {
			if cancel {
				s.Cancel()
			} else {
				s.Request(portion)
			}
		},
	})
	model := map[string]uint64{}
	n := r.IntN(200)
	for i := 0; i < n; i++ {
		w := vocabulary[r.IntN(1+r.IntN(len(vocabulary)))]
		words.Next(w)
		if l := strings.ToLower(w); !ignored[l] {
			model[l]++
		}
	}
	words.Complete()
	if _, _, timely := kit.Recv(done); !timely {
		t.Violate("counts do not end", "%d words, %d different, portions of %d, limit %d, %d counts\n%s", n, len(model), portion, limit, len(got), kit.Stacks())
		return
	}
	t.Case(fmt.Sprint("count", n, portion, limit, len(model)))
	var want []wordfrequency.WordCount
	for w, c := range model {
		if c >= limit {
			want = append(want, wordfrequency.WordCount{Word: w, Count: c})
		}
	}
	sorted := slices.IsSortedFunc(got, func(a, b wordfrequency.WordCount) int { return int(b.Count) - int(a.Count) })
	less := func(l []wordfrequency.WordCount) func(i, k int) bool {
		return func(i, k int) bool { return l[i].Word < l[k].Word }
	}
	sort.Slice(want, less(want))
	sort.Slice(got, less(got))
	if !slices.Equal(want, got) || !sorted {
		t.Violate("counts", "%v (sorted %v), not %v; portions of %d, limit %d, ended by %v", got, sorted, want, portion, limit, end)
		return
	}
	kit.Count("word counts read in portions", 1)
}

// lost runs each component with input that fails, or that ends without a value
// though it needs one: the component ends with an error.
func lost(t *kit.T) {
	type run struct {
		what  string
		ended chan string
	}
	var runs []run
	watch := func(what string, f flux.Flux[payload.Payload]) {
		n, ch := 0, make(chan string, 4)
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(payload.Payload) { n++ },
			OnComplete: func() { ch <- fmt.Sprintf("completes after %d outputs", n) },
			OnError:    func(err error) { ch <- fmt.Sprintf("error %v after %d outputs", err, n) },
		})
		runs = append(runs, run{what, ch})
	}
	for _, name := range []string{"WordFrequency", "Concat", "Greeter"} {
		for end, how := range []string{"ends without a value", "fails"} {
			if name == "WordFrequency" && end == 0 {
				continue // no words
			}
			for _, async := range []bool{false, true} {
				f := &feed{async: async, end: end}
				if name == "WordFrequency" && async {
					f.items = append(f.items, payload.New(str("word"), portMD("words", true, false)))
				}
				watch(fmt.Sprintf("%s when its input %s", name, how), direct(t, name, f.flux()))
			}
		}
	}
	ctx := context.Background()
	watch2 := func(what string) (func(error), func(string)) {
		ch := make(chan string, 4)
		runs = append(runs, run{what, ch})
		return func(err error) { ch <- fmt.Sprintf("error %v after 0 outputs", err) }, func(s string) { ch <- s }
	}
	{
		in, o := mono.NewProcessor[concomp.Strings](), mono.NewProcessor[string]()
		c := concomp.Concat{Inputs: concomp.ConcatInputs{Strings: in}, Outputs: concomp.ConcatOutputs{Value: o}}
		c.Process(ctx)
		onErr, other := watch2("Concat.Process when its input fails")
		o.Subscribe(mono.Subscribe[string]{OnSuccess: other, OnError: onErr})
		in.Error(errFeed)
	}
	{
		in, o := mono.NewProcessor[string](), mono.NewProcessor[string]()
		c := grecomp.Greeter{Inputs: grecomp.GreeterInputs{Name: in}, Outputs: grecomp.GreeterOutputs{Message: o}}
		c.Process(ctx)
		onErr, other := watch2("Greeter.Process when its input fails")
		o.Subscribe(mono.Subscribe[string]{OnSuccess: other, OnError: onErr})
		in.Error(errFeed)
	}
	{
		in, o := flux.NewProcessor[string](), flux.NewProcessor[wordfrequency.WordCount]()
		c := wordfrequency.WordFrequency{Input: wordfrequency.WordFrequencyInputs{Words: in}, Output: wordfrequency.WordFrequencyOutputs{Counts: o}}
		c.Process(ctx)
		onErr, other := watch2("WordFrequency.Process when its input fails")
		o.Subscribe(flux.Subscribe[wordfrequency.WordCount]{OnError: onErr, OnNext: func(wordfrequency.WordCount) { other("an output") }, OnComplete: func() { other("completes") }})
		in.Error(errFeed)
	}
	// What does not end is known; what does gets all the time it may need.
	ends := time.Now().Add(3 * time.Second)
	for _, x := range runs {
		for len(x.ended) == 0 && time.Now().Before(ends) {
			time.Sleep(time.Millisecond)
		}
		select {
		case got := <-x.ended:
			ok := strings.HasPrefix(got, "error ") && strings.HasSuffix(got, " after 0 outputs")
			if strings.HasSuffix(x.what, "fails") {
				ok = ok && strings.Contains(got, errFeed.Error())
			}
			t.Check(ok, "component with input that failed", "%s: %s", x.what, got)
		default:
			t.Defect("component does not end", "%s", x.what)
		}
		t.Case(x.what)
	}
}
