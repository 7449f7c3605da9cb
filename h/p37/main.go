//go:build go1.22

// The programs: what they print, how they exit and what they do to files.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/meshkit"
	"github.com/nanobus/iota/go/verifh/msgkit"
)

func program(name string) string { return filepath.Join(os.Getenv("VERIF_PROGRAMS"), name) }

// result is what a program did.
type result struct {
	args     []string
	out, err string
	code     int
	hung     bool
}

func (r result) String() string {
	return fmt.Sprintf("%q: exit %d, stdout %.600q, stderr %.900q", r.args, r.code, r.out, r.err)
}

// run runs a program to its end.
func run(t *kit.T, dir, stdin, name string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 2*kit.Patience)
	defer cancel()
	cmd := exec.CommandContext(ctx, program(name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	r := result{args: append([]string{name}, args...), out: out.String(), err: errs.String(), code: cmd.ProcessState.ExitCode(), hung: ctx.Err() != nil}
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		t.Fatal("program does not start", "%v: %v", r.args, err)
	}
	if r.hung {
		t.Violate("program does not end", "%v", r)
	}
	if strings.Contains(r.err, "DATA RACE") {
		t.Violate("data race", "%v", r)
	}
	kit.Count("programs run", 1)
	return r
}

// fails checks a run that has to report an error.
func (r result) fails(t *kit.T, text string) {
	if r.hung {
		return
	}
	if r.code == 0 {
		t.Violate("an error is not reported", "want %q: %v", text, r)
	}
	if strings.TrimSpace(r.out) != "" {
		t.Violate("output in spite of an error", "%v", r)
	}
	if !strings.Contains(r.err, text) {
		t.Violate("the text of an error is lost", "want %q: %v", text, r)
	}
	kit.Count("errors reported", 1)
}

// --- values ---

func text(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.IntN(8) {
		case 0:
			b.WriteRune([]rune("äé中💥\u0000\u2028\"\\/<>&\n\t\u007f")[r.IntN(15)])
		case 1:
			b.WriteRune(rune(0x20 + r.IntN(0x2000)))
		default:
			b.WriteByte(byte(' ' + r.IntN(95)))
		}
	}
	return strings.ToValidUTF8(b.String(), "?")
}

func size(r *rand.Rand) int {
	return []int{0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 60, 255, 256, 300}[r.IntN(8+7*(r.IntN(4)/3))]
}

// jsonValue draws a value as JSON decodes it.
func jsonValue(r *rand.Rand, depth int) any {
	k := r.IntN(9)
	if depth == 0 {
		k %= 6
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.IntN(2) == 0
	case 2:
		return []float64{0, 1, -1, 127, 128, -128, -129, 255, 256, 65535, 65536, 1 << 31, 1 << 32, 1 << 53, -(1 << 53), 1e21, 0.1, 1.5, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64}[r.IntN(22)]
	case 3:
		for {
			if f := math.Float64frombits(r.Uint64()); !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 4, 5:
		return text(r, size(r))
	case 6:
		a := []any{}
		for i := size(r) % 40; i > 0; i-- {
			a = append(a, jsonValue(r, depth-1))
		}
		return a
	default:
		m := map[string]any{}
		for i := size(r) % 40; i > 0; i-- {
			m[text(r, r.IntN(40))] = jsonValue(r, depth-1)
		}
		return m
	}
}

// msgValue draws a value of MessagePack that JSON can express.
func msgValue(r *rand.Rand, depth int) msgkit.Val {
	k := r.IntN(12)
	if depth == 0 {
		k %= 8
	}
	switch k {
	case 0:
		return msgkit.Val{K: msgkit.Nil}
	case 1:
		return msgkit.Val{K: msgkit.Bool, N: int64(r.IntN(2))}
	case 2:
		return msgkit.I(msgkit.Int64(r))
	case 3:
		return msgkit.U(msgkit.Uint64(r))
	case 4:
		for {
			if f := msgkit.Float64(r); !math.IsNaN(f) && !math.IsInf(f, 0) {
				return msgkit.FD(f)
			}
		}
	case 5:
		for {
			if f := float64(msgkit.Float32(r)); !math.IsNaN(f) && !math.IsInf(f, 0) {
				return msgkit.FF(float32(f))
			}
		}
	case 6:
		return msgkit.B(msgkit.Bytes(r, size(r)))
	case 7:
		return msgkit.S(text(r, size(r)))
	case 8, 9:
		v := msgkit.Val{K: msgkit.Arr}
		for i := size(r) % 20; i > 0; i-- {
			v.A = append(v.A, msgValue(r, depth-1))
		}
		return v
	default:
		v := msgkit.Val{K: msgkit.Map}
		for i := size(r) % 20; i > 0; i-- {
			v.M = append(v.M, msgkit.Pair{K: msgkit.S(fmt.Sprint(text(r, r.IntN(10)), i)), V: msgValue(r, depth-1)})
		}
		return v
	}
}

// shows tells whether JSON, decoded with numbers as texts, shows a value.
func shows(j any, v msgkit.Val) bool {
	switch v.K {
	case msgkit.Nil:
		return j == nil
	case msgkit.Bool:
		return j == (v.N != 0)
	case msgkit.Int:
		n, _ := j.(json.Number)
		if i, ok := v.Int64(); ok {
			return string(n) == strconv.FormatInt(i, 10)
		}
		return string(n) == strconv.FormatUint(v.U, 10)
	case msgkit.F64:
		n, _ := j.(json.Number)
		f, err := strconv.ParseFloat(string(n), 64)
		return err == nil && f == v.Float64()
	case msgkit.F32:
		n, _ := j.(json.Number)
		f, err := strconv.ParseFloat(string(n), 32)
		return err == nil && float32(f) == v.Float32()
	case msgkit.Str:
		return j == string(v.S)
	case msgkit.Bin:
		s, ok := j.(string)
		b, err := base64.StdEncoding.DecodeString(s)
		return (ok || j == nil && len(v.S) == 0) && err == nil && bytes.Equal(b, v.S)
	case msgkit.Arr:
		a, ok := j.([]any)
		if !ok || len(a) != len(v.A) {
			return false
		}
		for i := range a {
			if !shows(a[i], v.A[i]) {
				return false
			}
		}
		return true
	case msgkit.Map:
		m, ok := j.(map[string]any)
		if !ok || len(m) != len(v.M) {
			return false
		}
		for _, e := range v.M {
			x, ok := m[string(e.K.S)]
			if !ok || !shows(x, e.V) {
				return false
			}
		}
		return true
	}
	return false
}

// --- modules ---

const hint = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._/-äé"

func name(r *rand.Rand) string {
	rs := []rune(hint)
	n := []rune{rs[r.IntN(26)]}
	for i := r.IntN(20); i > 0; i-- {
		n = append(n, rs[r.IntN(len(rs))])
	}
	return string(n)
}

// chain is a list of modules of which each sends what it is asked on to the next.
type chain struct {
	dir    string
	files  []string
	ns     []string
	tables []operations.Table
	last   [4]string // operations of the last module: echo, error, hex, and one that traps
	relay  []string
}

// newChain writes the modules. The last one does what kind says.
func newChain(r *rand.Rand, n, kind int) *chain {
	dir, err := os.MkdirTemp(".", "chain")
	if err != nil {
		panic(err)
	}
	if dir, err = filepath.Abs(dir); err != nil {
		panic(err)
	}
	c := &chain{dir: dir}
	for i := 0; i < n; i++ {
		c.ns = append(c.ns, fmt.Sprint(name(r), ".", i))
		c.relay = append(c.relay, name(r))
	}
	for i := range c.last {
		c.last[i] = fmt.Sprint(name(r), i)
	}
	index := []uint32{0, 1, 2, 4}
	for i := 0; i < n; i++ {
		m := meshkit.Module{Tag: uint32(i), Flags: meshkit.Bare | uint32(r.IntN(2))*meshkit.Batch}
		exp := func(op string, index uint32) {
			m.Ops = append(m.Ops, operations.Operation{Index: index, Type: operations.RequestResponse, Direction: operations.Export, Namespace: c.ns[i], Operation: op})
		}
		imp := func(ns, op string) {
			m.Ops = append(m.Ops, operations.Operation{Index: 0, Type: operations.RequestResponse, Direction: operations.Import, Namespace: ns, Operation: op})
		}
		switch {
		case i == n-1:
			for k, op := range c.last {
				exp(op, index[k])
			}
		case i == n-2:
			exp(c.relay[i], 3)
			imp(c.ns[i+1], c.last[kind])
		default:
			exp(c.relay[i], 3)
			imp(c.ns[i+1], c.relay[i+1])
		}
		r.Shuffle(len(m.Ops), func(a, b int) { m.Ops[a], m.Ops[b] = m.Ops[b], m.Ops[a] })
		c.tables = append(c.tables, m.Ops)
		f := filepath.Join(dir, fmt.Sprint("m", i, ".wasm"))
		m.Write(f)
		c.files = append(c.files, f)
	}
	return c
}

func (c *chain) entry(kind int) (ns, op string) {
	if len(c.files) == 1 {
		return c.ns[0], c.last[kind]
	}
	return c.ns[0], c.relay[0]
}

func (c *chain) remove() { os.RemoveAll(c.dir) }

func shuffled(r *rand.Rand, s []string) []string {
	s = slices.Clone(s)
	r.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
	return s
}

// parallel runs f at several times.
func parallel(t *kit.T, quick, thorough int, f func(r *rand.Rand)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
		r := rand.New(rand.NewPCG(t.Rand.Uint64(), uint64(i)))
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			f(r)
		}()
	}
	wg.Wait()
}

func encode(r *rand.Rand, v any) string {
	b, err := json.Marshal(v)
	if r.IntN(3) == 0 {
		b, err = json.MarshalIndent(v, "", " ")
	}
	if err != nil {
		panic(err)
	}
	return string(b)
}

const (
	echoes = iota
	errs
	hexes
	traps
)

func invokes(t *kit.T) {
	parallel(t, 150, 4000, func(r *rand.Rand) {
		kind := []int{echoes, echoes, hexes, hexes, errs, traps}[r.IntN(6)]
		n := 1 + r.IntN(4)*r.IntN(2)
		c := newChain(r, n, kind)
		defer c.remove()
		ns, op := c.entry(kind)
		args := []string{"invoke"}
		pretty, verbose := r.IntN(3) == 0, r.IntN(6) == 0
		if pretty {
			args = append(args, "--pretty")
		}
		if verbose {
			args = append(args, "--verbose")
		}
		args = append(append(args, ns, op), shuffled(r, c.files)...)
		switch kind {
		case traps:
			x := run(t, c.dir, "1", "wasmrs", args...)
			if !verbose {
				x.fails(t, "unreachable")
			}
			t.Case(fmt.Sprint("trap", n))
			return
		case errs:
			msg := "failed: " + strings.Map(func(c rune) rune {
				if c < ' ' || c == 0x7f {
					return '.'
				}
				return c
			}, text(r, r.IntN(60)))
			if verbose {
				args = slices.Delete(args, len(args)-n-3, len(args)-n-2)
				verbose = false
			}
			run(t, c.dir, encode(r, msg), "wasmrs", args...).fails(t, msg)
			t.Case("error" + msg)
			return
		}
		var in string
		var want any
		var val msgkit.Val
		for {
			if kind == echoes {
				want = jsonValue(r, 3)
				in = encode(r, want)
				if len(in) < 4000 {
					break
				}
				continue
			}
			val = msgValue(r, 3)
			b := msgkit.Encode(nil, val, r)
			in = encode(r, hex.EncodeToString(b))
			if len(in) < 4000 {
				break
			}
		}
		x := run(t, c.dir, in, "wasmrs", args...)
		if x.hung {
			return
		}
		if x.code != 0 || x.err != "" {
			t.Violate("invocation fails", "input %.300s: %v", in, x)
			return
		}
		out := x.out
		if verbose {
			for i, tbl := range c.tables {
				for _, o := range tbl {
					if !slices.ContainsFunc(strings.Split(out, "\n"), func(l string) bool { return listed(l, o) }) {
						t.Violate("verbose: an operation is not listed", "module %d, %v: %v", i, o, x)
						return
					}
				}
			}
			// What is printed before the JSON ends with an empty line.
			k := strings.LastIndex(out, "\n\n") + 2
			out = out[k:]
		}
		if !strings.HasSuffix(out, "\n") || (!pretty && strings.Count(out, "\n") != 1) {
			t.Violate("lines of the output", "%v", x)
			return
		}
		var got any
		d := json.NewDecoder(strings.NewReader(out))
		if kind == hexes {
			d.UseNumber()
		}
		if err := d.Decode(&got); err != nil {
			t.Violate("output is no JSON", "%v: %v", err, x)
			return
		}
		if kind == echoes {
			var norm any
			_ = json.Unmarshal([]byte(in), &norm)
			if !reflect.DeepEqual(got, norm) {
				t.Violate("output differs from the reply", "input %.900s: %v", in, x)
			}
		} else if !shows(got, val) {
			t.Violate("output differs from the reply", "reply %.900v: %v", val, x)
		}
		var again []byte
		if pretty {
			var b bytes.Buffer
			_ = json.Indent(&b, []byte(out), "", "  ")
			again = b.Bytes()
		} else {
			var b bytes.Buffer
			_ = json.Compact(&b, []byte(out))
			again = append(b.Bytes(), '\n')
		}
		if string(again) != out {
			t.Violate("form of the output", "want %.600q: %v", again, x)
		}
		kit.Count("invocations compared", 1)
		t.Case(in)
	})
}

// wrong invokes what cannot work.
func wrong(t *kit.T) {
	parallel(t, 60, 1000, func(r *rand.Rand) {
		n := 1 + r.IntN(3)
		c := newChain(r, n, hexes)
		defer c.remove()
		ns, op := c.entry(hexes)
		files := shuffled(r, c.files)
		in, text := encode(r, "c0"), ""
		odd := filepath.Join(c.dir, "odd.wasm")
		what := r.IntN(11)
		switch what {
		case 0: // no JSON
			in, text = []string{"", "{", "[1,]", "nope", "1 2", "\"\x01\""}[r.IntN(6)], "stdin"
		case 1:
			ns, text = ns+"x", "not_found"
		case 2:
			op, text = op+"x", "not_found"
		case 3: // a reply that is no MsgPack, or cut
			b := msgkit.Encode(nil, msgkit.S("some text"), r)
			if r.IntN(2) == 0 {
				b = []byte{0xc1}
			}
			if len(b) > 1 {
				b = b[:1+r.IntN(len(b)-1)]
			}
			in, text = encode(r, hex.EncodeToString(b)), "output"
		case 4: // a reply that JSON cannot express
			v := []msgkit.Val{msgkit.FD(math.NaN()), msgkit.FD(math.Inf(1)), {K: msgkit.Map, M: []msgkit.Pair{{K: msgkit.I(1), V: msgkit.I(2)}}}, {K: msgkit.Ext, T: 77, S: []byte{1, 2, 3}}}[r.IntN(4)]
			in = encode(r, hex.EncodeToString(msgkit.Encode(nil, v, r)))
		case 5: // no module
			text = odd
			files = append(files, odd)
		case 6:
			b := [][]byte{nil, []byte("text"), {0, 'a', 's', 'm', 1, 0, 0, 0, 99}, {0, 'a', 's', 'm', 2, 0, 0, 0}}[r.IntN(4)]
			_ = os.WriteFile(odd, b, 0o600)
			files = append(files, odd)
		case 7:
			meshkit.Module{Flags: []uint32{meshkit.BadInit, meshkit.BadList, meshkit.BadStart}[r.IntN(3)]}.Write(odd)
			files = append(files, odd)
		case 8: // nothing satisfies an import
			if n == 1 {
				return
			}
			files, text = shuffled(r, c.files[:n-1]), "not"
		case 9: // too large for the buffers
			in = encode(r, strings.Repeat("00", 100000))
		case 10: // an empty reply
			in, text = encode(r, ""), "output"
		}
		run(t, c.dir, in, "wasmrs", append([]string{"invoke", ns, op}, files...)...).fails(t, text)
		t.Case(fmt.Sprint(what, in))
	})
}

// --- wasmrs-ops ---

// listed tells whether a line of a table shows an operation.
func listed(line string, o operations.Operation) bool {
	f := strings.Fields(line)
	dir := map[operations.Direction]string{operations.Export: "export", operations.Import: "import"}[o.Direction]
	typ := map[operations.RequestType]string{operations.RequestResponse: "response", operations.FireAndForget: "forget", operations.RequestStream: "stream", operations.RequestChannel: "channel"}[o.Type]
	return len(f) >= 5 && f[0] == o.Namespace && f[1] == o.Operation && strings.Contains(strings.ToLower(f[2]), dir) &&
		strings.Contains(strings.ToLower(strings.Join(f[3:len(f)-1], " ")), typ) && f[len(f)-1] == fmt.Sprint(o.Index)
}

type section struct {
	id   byte
	name string
	data []byte
}

func uleb(b []byte) (v uint64, n int) {
	for s := 0; n < len(b); s += 7 {
		c := b[n]
		n++
		v |= uint64(c&127) << s
		if c < 128 {
			return v, n
		}
	}
	return 0, -1
}

// sections reads a module.
func sections(b []byte) (ss []section, err error) {
	if len(b) < 8 || string(b[:8]) != "\x00asm\x01\x00\x00\x00" {
		return nil, errors.New("no module")
	}
	for b = b[8:]; len(b) > 0; {
		id := b[0]
		n, k := uleb(b[1:])
		if k < 0 || uint64(len(b)-1-k) < n {
			return nil, errors.New("section")
		}
		s := section{id: id, data: b[1+k : 1+k+int(n)]}
		b = b[1+k+int(n):]
		if id == 0 {
			n, k := uleb(s.data)
			if k < 0 || uint64(len(s.data)-k) < n {
				return nil, errors.New("name of a section")
			}
			s.name, s.data = string(s.data[k:k+int(n)]), s.data[k+int(n):]
		}
		ss = append(ss, s)
	}
	return ss, nil
}

func custom(b []byte, name string, data []byte) []byte {
	body := append(append([]byte{byte(len(name))}, name...), data...)
	b = append(b, 0)
	for n := uint(len(body)); ; n >>= 7 {
		if n < 128 {
			b = append(b, byte(n))
			break
		}
		b = append(b, byte(n)|128)
	}
	return append(b, body...)
}

func ops(t *kit.T) {
	parallel(t, 60, 1500, func(r *rand.Rand) {
		dir, err := os.MkdirTemp(".", "ops")
		if err != nil {
			panic(err)
		}
		dir, _ = filepath.Abs(dir)
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "m.wasm")
		m := meshkit.Module{Tag: 1, Flags: meshkit.Bare}
		ns, echo := name(r), name(r)+"echo"
		m.Ops = append(m.Ops, operations.Operation{Index: 0, Type: operations.RequestResponse, Direction: operations.Export, Namespace: ns, Operation: echo})
		for i := []int{0, 1, 2, 5, 30}[r.IntN(5)]; i > 0; i-- {
			o := operations.Operation{Index: r.Uint32() >> r.IntN(32), Type: operations.RequestType(1 + r.IntN(4)), Direction: operations.Export, Namespace: name(r), Operation: name(r)}
			if r.IntN(2) == 0 {
				o.Direction = operations.Import
			}
			m.Ops = append(m.Ops, o)
		}
		r.Shuffle(len(m.Ops), func(a, b int) { m.Ops[a], m.Ops[b] = m.Ops[b], m.Ops[a] })
		bin := m.Bytes()
		if r.IntN(2) == 0 {
			bin = custom(bin, "verif", msgkit.Bytes(r, r.IntN(3000)))
		}
		mode := os.FileMode([]uint32{0o600, 0o644, 0o755}[r.IntN(3)])
		if err := os.WriteFile(file, bin, mode); err != nil {
			panic(err)
		}
		was, err := sections(bin)
		if err != nil {
			panic(err)
		}
		x := run(t, dir, "", "wasmrs-ops", file)
		if x.code != 0 || x.err != "" {
			t.Violate("wasmrs-ops fails", "%v: %v", m.Ops, x)
			return
		}
		show := func(x result) {
			var want []operations.Operation
			for _, l := range strings.Split(x.out, "\n") {
				if len(want) == 0 {
					want = slices.Clone(m.Ops)
				}
				if listed(l, want[0]) {
					want = want[1:]
					if len(want) == 0 {
						return
					}
				}
			}
			t.Violate("operations are not listed", "%v of %v: %v", want, m.Ops, x)
		}
		show(x)
		now, err := os.ReadFile(file)
		if err != nil {
			t.Violate("the module is gone", "%v: %v", err, x)
			return
		}
		is, err := sections(now)
		if err != nil {
			t.Violate("the module is damaged", "%v: %v", err, x)
			return
		}
		found := 0
		for _, s := range is {
			if s.id == 0 && s.name == "wasmrs_ops" {
				found++
				if !bytes.Equal(s.data, meshkit.Table(m.Ops)) {
					t.Violate("the operations in the module are wrong", "%v: %x: %v", m.Ops, s.data, x)
				}
			}
		}
		if found != 1 {
			t.Violate("the operations in the module", "%d sections: %v", found, x)
			return
		}
		for _, s := range was {
			if s.id == 0 && s.name == "verif" && !slices.ContainsFunc(is, func(o section) bool { return o.id == 0 && o.name == s.name && bytes.Equal(o.data, s.data) }) {
				t.Violate("a section of the module is lost", "%q of %d bytes: %v", s.name, len(s.data), x)
			}
		}
		// The module does what it did.
		in := encode(r, text(r, 40))
		y := run(t, dir, in, "wasmrs", "invoke", ns, echo, file)
		var a, b any
		_ = json.Unmarshal([]byte(in), &a)
		if err := json.Unmarshal([]byte(y.out), &b); err != nil || a != b || y.code != 0 {
			t.Violate("the module no longer works", "%v", y)
		}
		// And is complete.
		x = run(t, dir, "", "wasmrs-ops", file)
		if x.code != 0 || x.err != "" {
			t.Violate("wasmrs-ops fails", "second run, %v: %v", m.Ops, x)
			return
		}
		show(x)
		last, _ := os.ReadFile(file)
		if !bytes.Equal(now, last) {
			t.Violate("a complete module is changed", "%d, now %d bytes: %v", len(now), len(last), x)
		}
		if st, err := os.Stat(file); err != nil || st.Mode().Perm() != mode {
			t.Violate("the mode of the module is changed", "%v: %v", mode, x)
		}
		kit.Count("modules completed", 1)
		t.Case(fmt.Sprint(m.Ops))
	})
}

// odd modules are reported and left as they are.
func odd(t *kit.T) {
	parallel(t, 30, 400, func(r *rand.Rand) {
		dir, err := os.MkdirTemp(".", "odd")
		if err != nil {
			panic(err)
		}
		dir, _ = filepath.Abs(dir)
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "m.wasm")
		m := meshkit.Module{Tag: 1, Flags: meshkit.Bare, Ops: operations.Table{{Index: 0, Type: operations.RequestResponse, Direction: operations.Export, Namespace: "a", Operation: "b"}}}
		var bin []byte
		what := r.IntN(5)
		switch what {
		case 0:
			bin = [][]byte{nil, []byte("some text"), {0, 'a', 's', 'm', 1, 0, 0, 0, 99}}[r.IntN(3)]
		case 1:
			m.Flags |= []uint32{meshkit.BadInit, meshkit.BadList, meshkit.BadStart}[r.IntN(3)]
			bin = m.Bytes()
		case 2: // cut
			b := m.Bytes()
			bin = b[:len(b)-1-r.IntN(len(b)/2)]
			if _, err := sections(bin); err == nil {
				return
			}
		case 3: // its section is damaged
			d := meshkit.Table(m.Ops)
			bin = custom(m.Bytes(), "wasmrs_ops", d[:r.IntN(len(d))])
		case 4:
			bin = custom(m.Bytes(), "wasmrs_ops", []byte("nonsense"))
		}
		if err := os.WriteFile(file, bin, 0o600); err != nil {
			panic(err)
		}
		x := run(t, dir, "", "wasmrs-ops", file)
		if x.code == 0 && !x.hung {
			t.Violate("an error is not reported", "case %d: %v", what, x)
		}
		if now, err := os.ReadFile(file); err != nil || !bytes.Equal(now, bin) {
			t.Violate("an odd module is changed", "case %d, %v, %d to %d bytes: %v", what, err, len(bin), len(now), x)
		}
		t.Case(fmt.Sprint("odd", what, len(bin)))
	})
}

// --- the examples ---

func words(t *kit.T) {
	x := run(t, ".", "", "flow")
	if x.code != 0 || !strings.Contains(x.out+x.err, "Hello, Foo Bar\n") {
		t.Violate("flow", "%v", x)
	}
	ignored := strings.Fields("i the and to of a my in you is that")
	parallel(t, 10, 200, func(r *rand.Rand) {
		dir, err := os.MkdirTemp(".", "words")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		var all []string
		count := map[string]int{}
		for k := r.IntN(1 + 250*r.IntN(3)); k >= 0; k-- {
			w := fmt.Sprint([]string{"word", "Émile", "x", "WORD-", "it's"}[r.IntN(5)], r.IntN(1000))
			n := []int{1, 10, 999, 1000, 1001, 1500}[r.IntN(6)]
			if r.IntN(10) == 0 {
				w = ignored[r.IntN(len(ignored))]
			} else {
				count[strings.ToLower(w)] += n
			}
			for ; n > 0; n-- {
				v := w
				switch r.IntN(4) {
				case 0:
					v = strings.ToUpper(w)
				case 1:
					v = w + ","
				}
				all = append(all, v)
			}
		}
		r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		if err := os.WriteFile(filepath.Join(dir, "shakespeare.txt"), []byte(strings.Join(all, []string{" ", "\n", "\r\n\t"}[r.IntN(3)])), 0o600); err != nil {
			panic(err)
		}
		x := run(t, dir, "", "wordfrequency")
		if x.hung {
			return
		}
		last := math.MaxInt
		left := map[string]int{}
		for w, n := range count {
			if n >= 1000 {
				left[w] = n
			}
		}
		total := len(left)
		for _, l := range strings.Split(strings.TrimSuffix(x.out, "\n"), "\n") {
			f := strings.Fields(l)
			if len(f) == 0 {
				continue
			}
			n, _ := strconv.Atoi(f[0])
			if len(f) != 2 || left[f[1]] != n || n > last {
				t.Violate("a wrong count", "%q, %d left: %v", l, len(left), x)
				return
			}
			last = n
			delete(left, f[1])
		}
		if len(left) > 0 || x.code != 0 {
			t.Violate("counts are lost", "%d of %d, like %.200v: %v", len(left), total, left, x)
		}
		kit.Count("words counted", int64(len(all)))
		t.Case(fmt.Sprint("words", len(all), total))
	})
}

// proc is a program that runs on.
type proc struct {
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
}

func (p *proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

func (p *proc) text() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

var _ io.Writer = (*proc)(nil)

func start(t *kit.T, env []string, name string) *proc {
	p := &proc{cmd: exec.Command(program(name)), done: make(chan struct{})}
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.Stdout, p.cmd.Stderr = p, p
	if err := p.cmd.Start(); err != nil {
		t.Fatal("program does not start", "%s: %v", name, err)
	}
	kit.Count("programs run", 1)
	go func() { _ = p.cmd.Wait(); close(p.done) }()
	return p
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// greeters runs the server and clients of the greeter example.
func greeters(t *kit.T) {
	for round := 0; round < kit.N(4, 60) && !t.Failed(); round++ {
		var env []string
		if round%2 == 0 {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Inconclusive("no loopback network: %v", err)
				return
			}
			env = []string{"RSOCKET_ADDRESS=" + l.Addr().String()}
			l.Close()
		} else {
			env = []string{"RSOCKET_NETWORK=unix", fmt.Sprintf("RSOCKET_ADDRESS=g%d.sock", round)}
		}
		server := start(t, env, "greeter-server")
		var clients []*proc
		func() {
			defer func() {
				for _, p := range append(clients, server) {
					_ = p.cmd.Process.Kill()
					<-p.done
				}
			}()
			if !kit.Wait(func() bool { return strings.Contains(server.text(), "waiting for connections") || server.ended() }) || server.ended() {
				t.Violate("the server does not listen", "%v: %q", env, server.text())
				return
			}
			n := 1 + t.Rand.IntN(5)
			for k := 0; k < n; k++ {
				clients = append(clients, start(t, env, "greeter-client"))
			}
			greeted := func(k int) bool { return strings.Count(server.text(), "Hello, RSocket Server\n") == k }
			if !kit.Wait(func() bool { return greeted(n) }) {
				t.Violate("the server is not answered", "%d clients: server %q, client %q", n, server.text(), clients[0].text())
				return
			}
			for _, c := range clients {
				if !kit.Wait(func() bool { return c.text() == "SayHello called!\n" }) || c.ended() {
					t.Violate("a client is not called", "%q", c.text())
				}
			}
			// A client that dies, and another one.
			_ = clients[0].cmd.Process.Kill()
			<-clients[0].done
			clients = append(clients, start(t, env, "greeter-client"))
			if !kit.Wait(func() bool { return greeted(n + 1) }) {
				t.Violate("the server is not answered", "after a client died: server %q, client %q", server.text(), clients[n].text())
				return
			}
			_ = server.cmd.Process.Signal(syscall.SIGINT)
			if !kit.Wait(server.ended) || server.cmd.ProcessState.ExitCode() != 0 {
				t.Violate("the server does not end", "%v: %q", server.cmd.ProcessState, server.text())
			}
			for _, c := range clients {
				if !kit.Wait(c.ended) {
					t.Violate("a client does not end with the server", "%q", c.text())
				}
			}
			for _, p := range append(clients, server) {
				if strings.Contains(p.text(), "DATA RACE") {
					t.Violate("data race", "%s", p.text())
				}
			}
			kit.Count("greetings", int64(n+1))
			t.Case(fmt.Sprint("greeters", round%2, n))
		}()
	}
}

func main() {
	kit.Main(kit.Config{
		Property: "P37",
		Rule:     "The command line tools and example programs, built with the race detector, are run on generated modules (chains that send requests on to each other, loaded in any order), JSON inputs, replies in any MessagePack encoding, word lists and connections, and on what cannot work. Output, exit status and files are compared with a reference. Distinct by input.",
		Scenarios: []kit.Scenario{
			{Name: "invoke", Run: invokes},
			{Name: "invoke what cannot work", Run: wrong},
			{Name: "wasmrs-ops", Run: ops},
			{Name: "wasmrs-ops on odd modules", Run: odd},
			{Name: "word frequency and flow", Run: words},
			{Name: "greeter server and clients", Run: greeters},
		},
	})
}
