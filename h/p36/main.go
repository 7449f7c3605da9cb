//go:build go1.22

// Components and generated clients: what is called through them is what their
// handlers do.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/example/greeter"
	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/example"
	concomp "github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	grecomp "github.com/nanobus/iota/go/transport/wasmrs/example/greeter"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/customer"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/greeting"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

// --- what the services do: a function of their arguments ---

// reply is s, at once or later, or an error if s contains a '!'.
func reply(s string) mono.Mono[string] {
	if strings.Contains(s, "!") {
		return mono.Error[string](fmt.Errorf("refused %s", brief(s)))
	}
	switch len(s) % 3 {
	case 0:
		return mono.Just(s)
	case 1:
		p := mono.NewProcessor[string]()
		go p.Success(s)
		return p
	}
	return mono.Create(func(sink mono.Sink[string]) { sink.Success(s) })
}

func want(s string) (string, string) {
	if strings.Contains(s, "!") {
		return "", "refused " + brief(s)
	}
	return s, ""
}

func brief(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%.20s..(%d)", s, len(s))
	}
	return s
}

const failing = 7 // a count that is a multiple of it ends in an error

func element(i, to uint64) string { return fmt.Sprintf("%d of %d", i, to) }

func countToN(ctx context.Context, to uint64) flux.Flux[string] {
	return flux.Create(func(sink flux.Sink[string]) {
		i := uint64(1)
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				for ; i <= to && n > 0; i++ {
					sink.Next(element(i, to))
					n--
				}
				if i > to {
					i++
					if to%failing == 0 && to != 0 {
						sink.Error(fmt.Errorf("after %d", to))
					} else {
						sink.Complete()
					}
				}
			},
		})
	})
}

func uppercase(ctx context.Context, in flux.Flux[string]) flux.Flux[string] {
	return flux.Map(in, func(s string) (string, error) {
		if strings.Contains(s, "!") {
			return "", fmt.Errorf("refused %s", brief(s))
		}
		return strings.ToUpper(s), nil
	})
}

func hello(first, last string) string { return "Hello, " + first + " " + last }

type service struct{}

func (service) SayHello(ctx context.Context, first, last string) mono.Mono[string] {
	return reply(hello(first, last))
}

// newCustomer is what mesh/modules/customer/cmd does, with the operations of
// the other end of the connection.
func newCustomer(ctx context.Context, c *customer.Customer) mono.Mono[string] {
	f := flow.New[string]()
	var nameMono, messageMono mono.Mono[string]
	return f.Steps(func() (await.Group, error) {
		nameMono = concat.Concat(ctx, c.FirstName, c.LastName)
		return await.All(nameMono)
	}, func() (await.Group, error) {
		name, err := nameMono.Get()
		if err != nil {
			return nil, err
		}
		messageMono = greeting.SayHello(ctx, name)
		return await.All(messageMono)
	}, func() (await.Group, error) {
		message, err := messageMono.Get()
		if err != nil {
			return nil, err
		}
		return f.Success(message)
	}).Mono()
}

var once sync.Once

func use(t *kit.T) {
	rpckit.Use(t)
	once.Do(func() {
		greeter.RegisterGreeter(service{})
		example.RegisterSayHello(service{}.SayHello)
		example.RegisterCounter(countToN)
		example.RegisterUppercase(uppercase)
		concat.RegisterConcat(func(ctx context.Context, l, r string) mono.Mono[string] { return reply(l + " " + r) })
		greeting.RegisterSayHello(func(ctx context.Context, name string) mono.Mono[string] { return reply("Hello, " + name) })
		customer.RegisterNewCustomer(newCustomer)
		concomp.Register()
		grecomp.Register()
		wordfrequency.Register()
	})
}

// near is a caller that resolves imports with the operations of this process,
// which are those of its peer: a client is not told the peer's.
type near struct{ *handler.Handler }

func find(typ operations.RequestType, namespace, operation string) uint32 {
	for _, op := range invoke.GetOperationsTable() {
		if op.Direction == operations.Export && op.Type == typ && op.Namespace == namespace && op.Operation == operation {
			return op.Index
		}
	}
	panic("not exported: " + namespace + " " + operation)
}

func (near) ImportRequestResponse(n, o string) uint32 { return find(operations.RequestResponse, n, o) }
func (near) ImportFireAndForget(n, o string) uint32   { return find(operations.FireAndForget, n, o) }
func (near) ImportRequestStream(n, o string) uint32   { return find(operations.RequestStream, n, o) }
func (near) ImportRequestChannel(n, o string) uint32  { return find(operations.RequestChannel, n, o) }

func text(r *rand.Rand) string {
	var b strings.Builder
	n := r.IntN(12)
	switch r.IntN(12) {
	case 0:
		n = 0
	case 1:
		n = 200 + r.IntN(400)
	case 2:
		n = 20000 + r.IntN(50000)
	}
	alphabet := []rune("abcXYZ 0éß界\x00\"'\\\U0001F600")
	for i := 0; i < n; i++ {
		b.WriteRune(alphabet[r.IntN(len(alphabet))])
	}
	if r.IntN(8) == 0 {
		b.WriteByte('!')
	}
	return b.String()
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// one blocks for a mono.
func one(t *kit.T, what string, m mono.Mono[string], value, msg string) bool {
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		s, err := m.Block()
		ch <- res{s, err}
	}()
	got, _, timely := kit.Recv(ch)
	if !timely {
		t.Violate("a typed call is not answered", "%s\n%s", what, kit.Stacks())
		return false
	}
	if msg != "" {
		if got.err == nil || !strings.Contains(got.err.Error(), msg) {
			t.Violate("error of a typed call", "%s: %q, %v, not %q", what, brief(got.s), got.err, msg)
			return false
		}
		kit.Count("typed calls that failed as they had to", 1)
		return true
	}
	if got.err != nil || got.s != value {
		t.Violate("value of a typed call", "%s: %q (%d bytes), %v; not %q (%d bytes)", what, brief(got.s), len(got.s), got.err, brief(value), len(value))
		return false
	}
	kit.Count("typed calls answered", 1)
	return true
}

// many reads a flux, in portions of a size.
func many[E comparable](t *kit.T, what string, f flux.Flux[E], portion int, wanted []E, msg string) bool {
	var mu sync.Mutex
	var got []E
	var end string
	over := 0
	done := make(chan struct{}, 4)
	sub := flux.Subscribe[E]{
		OnNext: func(v E) {
			mu.Lock()
			defer mu.Unlock()
			if end != "" {
				over++
			}
			got = append(got, v)
		},
		OnComplete: func() { mu.Lock(); end += "complete;"; mu.Unlock() },
		OnError:    func(err error) { mu.Lock(); end += "error " + err.Error() + ";"; mu.Unlock() },
		Finally:    func(rx.SignalType) { done <- struct{}{} },
	}
	if portion > 0 {
		sub.OnRequest = func(s rx.Subscription) { s.Request(portion) }
	}
	f.Subscribe(sub)
	if _, _, timely := kit.Recv(done); !timely {
		mu.Lock()
		defer mu.Unlock()
		t.Violate("a typed stream does not end", "%s: %d of %d elements, %s\n%s", what, len(got), len(wanted), end, kit.Stacks())
		return false
	}
	mu.Lock()
	defer mu.Unlock()
	if !slices.Equal(got, wanted) || over > 0 {
		i := 0
		for i < len(got) && i < len(wanted) && got[i] == wanted[i] {
			i++
		}
		t.Violate("elements of a typed stream", "%s: %d elements, %d wanted, different from %d on, %d after the end; %s", what, len(got), len(wanted), i, over, end)
		return false
	}
	if msg == "" && end != "complete;" || msg != "" && (!strings.HasPrefix(end, "error ") || !strings.Contains(end, msg) || strings.Count(end, ";") != 1) {
		t.Violate("end of a typed stream", "%s: %q, wanted error %q", what, end, msg)
		return false
	}
	kit.Count("typed streams read", 1)
	kit.Count("elements of typed streams", int64(len(got)))
	return true
}

// typed makes calls in both directions of a connection at the same time.
func typed(t *kit.T, mem bool) {
	rig := rpckit.NewRig(t, mem, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	type caller struct {
		who     string
		c       invoke.Caller
		hello   *example.Greeting
		hello2  *greeter.GreeterClient
		counter *example.Counter
		upper   *example.Uppercase
	}
	var callers []caller
	for i, c := range []invoke.Caller{p.Server, near{p.Client}} {
		callers = append(callers, caller{[]string{"server", "client"}[i], c, example.NewGreeting(c), greeter.NewGreeting(c), example.NewCounter(c), example.NewUppercase(c)})
	}
	side := t.Rand.IntN(2)
	concat.Initialize(callers[side].c)
	greeting.Initialize(callers[side].c)
	opFlow := callers[1-side].c.ImportRequestResponse("flow.v1", "flow")
	ctx := context.Background()
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		g := g
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 12 && !t.Failed(); k++ {
				c := callers[r.IntN(2)]
				a, b := text(r), text(r)
				var ok bool
				kind := r.IntN(7)
				switch kind {
				case 0:
					v, e := want(hello(a, b))
					ok = one(t, c.who+" SayHello", c.hello.SayHello(ctx, a, b), v, e)
				case 1:
					v, e := want(hello(a, b))
					ok = one(t, c.who+" greeter SayHello", c.hello2.SayHello(ctx, a, b), v, e)
				case 2:
					to := r.Uint64N(40)
					var l []string
					for i := uint64(1); i <= to; i++ {
						l = append(l, element(i, to))
					}
					msg := ""
					if to%failing == 0 && to != 0 {
						msg = fmt.Sprint("after ", to)
					}
					ok = many(t, fmt.Sprintf("%s CountToN(%d)", c.who, to), c.counter.CountToN(ctx, to), r.IntN(4), l, msg)
				case 3:
					n := r.IntN(12)
					in := make([]string, n)
					var l []string
					msg := ""
					for i := range in {
						in[i] = text(r)
						if msg == "" {
							if strings.Contains(in[i], "!") {
								msg = "refused " + brief(in[i])
							} else {
								l = append(l, strings.ToUpper(in[i]))
							}
						}
					}
					ok = many(t, fmt.Sprintf("%s Uppercase of %d", c.who, n), c.upper.Uppercase(ctx, flux.FromSlice(in)), r.IntN(4), l, msg)
				case 4: // through globals, from one side
					v, e := want(a + " " + b)
					ok = one(t, "Concat", concat.Concat(ctx, a, b), v, e)
				case 5:
					v, e := want("Hello, " + a)
					ok = one(t, "greeting SayHello", greeting.SayHello(ctx, a), v, e)
				case 6: // a handler that calls back
					v, e := want(a + " " + b)
					if e == "" {
						v, e = want("Hello, " + v)
					}
					ok = one(t, "customer", flowCall(callers[1-side].c, opFlow, a, b), v, e)
				}
				if !ok {
					return
				}
				t.Case(fmt.Sprint(kind, len(a), len(b), brief(a)))
			}
		}()
	}
	wg.Wait()
	if !t.Failed() {
		p.Forgotten("typed calls")
	}
}

// uppercases calls an operation through each of its two clients.
func uppercases(t *kit.T) {
	rig := rpckit.NewRig(t, true, false)
	defer rig.Close()
	p := rig.Connect()
	defer p.Close()
	for i, c := range []invoke.Caller{p.Server, near{p.Client}} {
		who := []string{"server", "client"}[i]
		if !many(t, who+" Uppercase", example.NewUppercase(c).Uppercase(context.Background(), flux.FromSlice([]string{"ab", "c"})), 0, []string{"AB", "C"}, "") {
			return
		}
		var got []string
		end := make(chan string, 4)
		example.NewGreeting(c).Uppercase(context.Background(), flux.FromSlice([]string{"ab", "c"})).Subscribe(flux.Subscribe[string]{
			OnNext:     func(s string) { got = append(got, s) },
			OnComplete: func() { end <- fmt.Sprintf("%q", got) },
			OnError:    func(err error) { end <- "error " + err.Error() },
		})
		switch s, _, timely := kit.Recv(end); {
		case !timely:
			t.Violate("a typed stream does not end", "%s: Greeting.Uppercase", who)
		case s != `["AB" "C"]`:
			t.Defect("the second client of an operation", "%s: Greeting.Uppercase: %s", who, s)
		}
		t.Case(who)
	}
}

func flowCall(c invoke.Caller, index uint32, first, last string) mono.Mono[string] {
	data := append(append(append(append([]byte{0x82}, str("firstName")...), str(first)...), str("lastName")...), str(last)...)
	md := append(binary.BigEndian.AppendUint32(nil, index), 0, 0, 0, 0)
	return mono.Map(c.RequestResponse(context.Background(), payload.New(data, md)), func(p payload.Payload) (string, error) {
		s, rest, ok := readStr(p.Data())
		if !ok || len(rest) > 0 {
			return "", fmt.Errorf("not a string: %.40x", p.Data())
		}
		return s, nil
	})
}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P36",
		Rule:     "The components (word frequency, concat, greeter) and the typed services with their generated clients (greeting, counter, uppercase, and the concat, greeting and customer modules) are called with random inputs - texts of any length, words of every case, input for unknown ports, malformed input, inputs that end, fail or stay open at any point - in process and over connections, in both directions and many at a time; what arrives is compared with a function of the inputs. Records of the generated types are written and read back from other forms (order, widths, missing and unknown fields, cut short, fields of another type). Distinct by inputs.",
		Scenarios: []kit.Scenario{
			{Name: "typed clients in memory", Yields: []int{0, 2}, Run: scn(20, 400, func(t *kit.T) { typed(t, true) })},
			{Name: "typed clients over TCP", Yields: []int{0, 2}, Run: scn(15, 300, func(t *kit.T) { typed(t, false) })},
			{Name: "components in process", Yields: []int{0, 1, 2}, Run: scn(400, 8000, func(t *kit.T) { component(t, t.Rand, direct) })},
			{Name: "components over connections", Yields: []int{0, 1, 2}, Run: scn(15, 300, remote)},
			{Name: "components whose input fails", Run: scn(1, 1, lost)},
			{Name: "the second client of an operation", Run: scn(1, 1, uppercases)},
			{Name: "composed components", Yields: []int{0, 2}, Run: scn(200, 4000, composed)},
			{Name: "records", Run: scn(4000, 100_000, written)},
		},
	})
}
