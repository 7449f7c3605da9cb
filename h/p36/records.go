//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/nanobus/iota/go/example/greeter"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/transport/wasmrs/example"
	concomp "github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/customer"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/greeting"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/msgkit"
)

// record is a generated type: its fields in the order in which it is written.
type record struct {
	name   string
	fields []string
	number map[string]bool
	codec  func(v map[string]msgkit.Val) msgpack.Codec
	read   func(*msgpack.Decoder) (map[string]msgkit.Val, error)
	none   msgpack.Codec
}

func textOf(v msgkit.Val) string { return string(v.S) }

// records are the types that cross the wire through generated code.
var records = []record{
	{name: "customer.Customer", fields: []string{"firstName", "lastName"}, none: of[*customer.Customer]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*customer.Customer]{&customer.Customer{FirstName: textOf(v["firstName"]), LastName: textOf(v["lastName"])}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c customer.Customer
			err := c.Decode(d)
			return map[string]msgkit.Val{"firstName": msgkit.S(c.FirstName), "lastName": msgkit.S(c.LastName)}, err
		}},
	{name: "greeting.GreetingRequest", fields: []string{"name"}, none: of[*greeting.GreetingRequest]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*greeting.GreetingRequest]{&greeting.GreetingRequest{Name: textOf(v["name"])}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c greeting.GreetingRequest
			err := c.Decode(d)
			return map[string]msgkit.Val{"name": msgkit.S(c.Name)}, err
		}},
	{name: "modules/concat.Strings", fields: []string{"left", "right"}, none: of[*concat.Strings]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*concat.Strings]{&concat.Strings{Left: textOf(v["left"]), Right: textOf(v["right"])}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c concat.Strings
			err := c.Decode(d)
			return map[string]msgkit.Val{"left": msgkit.S(c.Left), "right": msgkit.S(c.Right)}, err
		}},
	{name: "example/concat.Strings", fields: []string{"left", "right"}, none: of[*concomp.Strings]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*concomp.Strings]{&concomp.Strings{Left: textOf(v["left"]), Right: textOf(v["right"])}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c concomp.Strings
			err := c.Decode(d)
			return map[string]msgkit.Val{"left": msgkit.S(c.Left), "right": msgkit.S(c.Right)}, err
		}},
	{name: "example.GreetingRequest", fields: []string{"firstName", "lastName"}, none: of[*example.GreetingRequest]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*example.GreetingRequest]{&example.GreetingRequest{FirstName: textOf(v["firstName"]), LastName: textOf(v["lastName"])}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c example.GreetingRequest
			err := c.Decode(d)
			return map[string]msgkit.Val{"firstName": msgkit.S(c.FirstName), "lastName": msgkit.S(c.LastName)}, err
		}},
	{name: "greeter.GreetingRequest", fields: []string{"firstName", "lastName"}, none: of[*greeter.GreetingRequest]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*greeter.GreetingRequest]{&greeter.GreetingRequest{FirstName: textOf(v["firstName"]), LastName: textOf(v["lastName"])}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c greeter.GreetingRequest
			err := c.Decode(d)
			return map[string]msgkit.Val{"firstName": msgkit.S(c.FirstName), "lastName": msgkit.S(c.LastName)}, err
		}},
	{name: "example.CounterRequest", fields: []string{"to"}, number: map[string]bool{"to": true}, none: of[*example.CounterRequest]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*example.CounterRequest]{&example.CounterRequest{To: v["to"].U}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c example.CounterRequest
			err := c.Decode(d)
			return map[string]msgkit.Val{"to": msgkit.U(c.To)}, err
		}},
	{name: "wordfrequency.WordCount", fields: []string{"word", "count"}, number: map[string]bool{"count": true}, none: of[*wordfrequency.WordCount]{},
		codec: func(v map[string]msgkit.Val) msgpack.Codec {
			return of[*wordfrequency.WordCount]{&wordfrequency.WordCount{Word: textOf(v["word"]), Count: v["count"].U}}
		},
		read: func(d *msgpack.Decoder) (map[string]msgkit.Val, error) {
			var c wordfrequency.WordCount
			err := c.Decode(d)
			return map[string]msgkit.Val{"word": msgkit.S(c.Word), "count": msgkit.U(c.Count)}, err
		}},
}

// of makes a codec of a type that writes itself, whatever it reads from.
type of[T interface{ Encode(msgpack.Writer) error }] struct{ v T }

func (o of[T]) Encode(w msgpack.Writer) error { return o.v.Encode(w) }
func (o of[T]) Decode(msgpack.Reader) error   { panic("not read") }

func field(r *rand.Rand, number bool) msgkit.Val {
	if number {
		return msgkit.U(msgkit.Uint64(r))
	}
	n := r.IntN(40)
	if r.IntN(8) == 0 {
		n = []int{0, 31, 32, 255, 256, 65535, 65536, 70000}[r.IntN(8)]
	}
	return msgkit.S(msgkit.Text(r, n))
}

// written compares what a record writes with its fields, and what it reads
// from any form of them, with others in between, with what they are.
func written(t *kit.T) {
	r := t.Rand
	rec := records[r.IntN(len(records))]
	v := map[string]msgkit.Val{}
	want := msgkit.Val{K: msgkit.Map}
	for _, f := range rec.fields {
		v[f] = field(r, rec.number[f])
		want.M = append(want.M, msgkit.Pair{K: msgkit.S(f), V: v[f]})
	}
	what := func() string { return fmt.Sprintf("%s %.200v", rec.name, want) }
	t.Guard("writing a record", what, func() {
		b, err := msgpack.ToBytes(rec.codec(v))
		got, n, derr := msgkit.Decode(b)
		if err != nil || derr != nil || n != len(b) || !msgkit.Same(got, want) {
			t.Violate("a record is miswritten", "%s: %.200x %v", what(), b, err)
		}
		if b, err := msgpack.ToBytes(rec.none); err != nil || !bytes.Equal(b, []byte{0xc0}) {
			t.Violate("a missing record is miswritten", "%s: %.200x %v", rec.name, b, err)
		}
	})
	if t.Failed() {
		return
	}
	t.Case(rec.name + want.String())

	// another writer: other order, missing and unknown fields, other widths
	form := msgkit.Val{K: msgkit.Map}
	expect := map[string]msgkit.Val{}
	for _, f := range rec.fields {
		expect[f] = msgkit.S("")
		if rec.number[f] {
			expect[f] = msgkit.U(0)
		}
	}
	for _, i := range r.Perm(len(rec.fields)) {
		for f := rec.fields[i]; r.IntN(6) > 0; {
			form.M = append(form.M, msgkit.Pair{K: msgkit.S(f), V: v[f]})
			expect[f] = v[f]
			break
		}
		for r.IntN(2) == 0 {
			k := []string{"", "Name", "firstname", "FirstName", "left ", "x", "toto"}[r.IntN(7)]
			form.M = append(form.M, msgkit.Pair{K: msgkit.S(k), V: msgkit.Gen(r, 2, true)})
		}
	}
	b := msgkit.Encode(nil, form, r)
	extra := msgkit.Encode(nil, msgkit.Gen(r, 1, true), r)
	what = func() string { return fmt.Sprintf("%s %.200v in %.200x", rec.name, form, b) }
	read := func(in []byte) (got map[string]msgkit.Val, err error) {
		in = append(make([]byte, 0, len(in)), in...)
		t.Guard("reading a record", what, func() {
			d := msgpack.NewDecoder(in)
			got, err = rec.read(&d)
		})
		return
	}
	got, err := read(b)
	for _, f := range rec.fields {
		if err != nil || !msgkit.Same(got[f], expect[f]) {
			t.Violate("a record is misread", "%s: field %s: %.100v, not %.100v, %v", what(), f, got[f], expect[f], err)
			return
		}
	}
	kit.Count("records read", 1)
	// it ends where it ends: two in a row
	t.Guard("reading records in a row", what, func() {
		d := msgpack.NewDecoder(append(append(append([]byte(nil), b...), extra...), b...))
		if _, err := rec.read(&d); err != nil {
			t.Violate("a record is misread", "%s, followed by others: %v", what(), err)
			return
		}
		if err := d.Skip(); err != nil {
			t.Violate("a record is misread", "%s: what follows it is not found: %v", what(), err)
			return
		}
		got, err := rec.read(&d)
		for _, f := range rec.fields {
			if err != nil || !msgkit.Same(got[f], expect[f]) {
				t.Violate("a record is misread", "%s, after others: field %s: %.100v, not %.100v, %v", what(), f, got[f], expect[f], err)
				return
			}
		}
	})
	if t.Failed() {
		return
	}
	// cut short, it is an error
	cut := r.IntN(len(b))
	if _, err := read(b[:cut]); err == nil {
		t.Violate("half a record is read", "%s, %d bytes of it", what(), cut)
		return
	}
	kit.Count("records cut short", 1)
	// so is a field of another type
	if f := rec.fields[r.IntN(len(rec.fields))]; true {
		bad := []msgkit.Val{msgkit.B([]byte("1")), {K: msgkit.Bool, N: 1}, {K: msgkit.Map}, msgkit.FD(0.5), msgkit.S("1")}[r.IntN(4+b2i(rec.number[f]))]
		form.M = append(form.M, msgkit.Pair{K: msgkit.S(f), V: bad})
		b := msgkit.Encode(nil, form, r)
		if _, err := read(b); err == nil {
			t.Violate("a field of another type is read", "%s: %v as %s", what(), bad, f)
			return
		}
		kit.Count("records with a field of another type", 1)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
