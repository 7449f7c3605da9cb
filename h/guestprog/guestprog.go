//go:build go1.22

// Package guestprog holds operations that do what a call says. They are the
// same in guests and hosts, and pass calls on to each other.
package guestprog

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// Kinds of calls.
const (
	Plain = iota // a value; a stream that completes; a channel that maps
	Fails        // an error; a stream that ends with one; a channel that does so
	Steps        // a flow of calls; a channel that first reads everything
)

// Call is what the data of a request says.
type Call struct {
	Depth, Kind byte
	N           uint16
	Seed        uint64
	Pad         []byte
}

func (c Call) Bytes() []byte {
	b := []byte{c.Depth, c.Kind}
	b = binary.BigEndian.AppendUint16(b, c.N)
	b = binary.BigEndian.AppendUint64(b, c.Seed)
	return append(b, c.Pad...)
}

func (c Call) String() string {
	return fmt.Sprintf("call(depth %d, kind %d, %d elements, seed %x, %d bytes more)", c.Depth, c.Kind, c.N, c.Seed, len(c.Pad))
}

func parse(b []byte) Call {
	if len(b) < 12 {
		return Call{}
	}
	return Call{b[0], b[1], binary.BigEndian.Uint16(b[2:]), binary.BigEndian.Uint64(b[4:]), b[12:]}
}

// Elem is element i of a seed.
func Elem(seed uint64, i int) []byte {
	s := seed*0x9e3779b97f4a7c15 + uint64(i)*0xbf58476d1ce4e5b9
	s ^= s >> 29
	n := int(s % 60)
	if s>>8%16 == 0 {
		n = int(s >> 12 % 6000)
	}
	b := make([]byte, n)
	for k := range b {
		s = s*6364136223846793005 + 1442695040888963407
		b[k] = byte(s >> 56)
	}
	return b
}

// Meta is the metadata of element i of a seed.
func Meta(seed uint64, i int) []byte {
	s := (seed ^ 0x517cc1b727220a95) + uint64(i)*0xbf58476d1ce4e5b9
	s ^= s >> 31
	if s%3 > 0 {
		return nil
	}
	return Elem(s, 1)
}

// Extra is what follows the address in the metadata of a call.
func (c Call) Extra() []byte { return Meta(c.Seed+99, 0) }

// unread tells whether a flow awaits a stream that nobody reads.
func (c Call) unread() bool { return c.Seed>>7%3 == 0 }

func element(seed uint64, i int) payload.Payload {
	return payload.New(Elem(seed, i), Meta(seed, i))
}

// Flip is what a channel does to its elements.
func Flip(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i] ^ 0x5a
	}
	return r
}

// Text is the error of a call that fails.
func Text(seed uint64) string { return fmt.Sprintf("refused %x – %d", seed, seed%97) }

type sum struct {
	n int
	h uint64
}

func (s *sum) add(b []byte) {
	h := fnv.New64a()
	var p [8]byte
	binary.BigEndian.PutUint64(p[:], s.h+uint64(len(b)))
	_, _ = h.Write(p[:])
	_, _ = h.Write(b)
	s.h = h.Sum64()
	s.n++
}

func (s *sum) bytes() []byte {
	return binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32(nil, uint32(s.n)), s.h)
}

// Reply is what a request is answered with.
func Reply(c Call) (data, metadata []byte, err string) {
	switch c.Kind {
	case Fails:
		return nil, nil, Text(c.Seed)
	case Steps:
		var s sum
		for i := 0; i < int(c.N) && !c.unread(); i++ {
			s.add(Elem(c.Seed+2, i))
		}
		s.add(Elem(c.Seed+1, 0))
		s.add(Elem(s.h, 0))
		return s.bytes(), nil, ""
	}
	return Elem(c.Seed, 0), Meta(c.Seed, 0), ""
}

// Whole is what a channel that reads everything answers.
func Whole(seed uint64, n int) []byte {
	var s sum
	for i := 0; i < n; i++ {
		s.add(Elem(seed, i))
		s.add(Meta(seed, i))
	}
	return s.bytes()
}

// Ops are the operations of one side.
type Ops struct {
	Peer  invoke.Caller
	Index [4]uint32 // of those of the peer: reply, note, stream, channel
	Later func(func())
	Open  atomic.Int64 // sources that have begun and not ended
	Notes atomic.Uint64
	Count atomic.Uint64
	Bad   func(what string) // something is wrong on this side
}

func (o *Ops) request(c Call, op int) payload.Payload {
	c.Depth--
	md := append(binary.BigEndian.AppendUint32(nil, o.Index[op]), 0, 0, 0, 0)
	return payload.New(c.Bytes(), append(md, c.Extra()...))
}

// arrived checks the metadata of a call. Whether it still holds the address
// depends on the kind of call.
func (o *Ops) arrived(p payload.Payload) Call {
	c := parse(p.Data())
	md, extra := p.Metadata(), c.Extra()
	if len(p.Data()) >= 12 && c.Kind <= Steps && (!bytes.HasSuffix(md, extra) || len(md) != len(extra) && len(md) != len(extra)+8) {
		o.Bad(fmt.Sprintf("%v arrives with metadata %x, not %x", c, md, extra))
	}
	return c
}

// Reply answers requests.
func (o *Ops) Reply(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	return o.reply(ctx, o.arrived(p))
}

func (o *Ops) reply(ctx context.Context, c Call) mono.Mono[payload.Payload] {
	if c.Kind == Steps {
		return o.steps(ctx, c)
	}
	if c.Depth > 0 {
		m := o.Peer.RequestResponse(ctx, o.request(c, 0))
		if c.Seed&1 == 0 {
			return mono.Map(m, func(p payload.Payload) (payload.Payload, error) { return payload.New(p.Data(), p.Metadata()), nil })
		}
		return m
	}
	data, md, e := Reply(c)
	err := errors.New(e)
	switch c.Seed >> 3 % 3 {
	case 0:
		if e != "" {
			return mono.Error[payload.Payload](err)
		}
		return mono.Just[payload.Payload](payload.New(data, md))
	case 1:
		return mono.Create(func(s mono.Sink[payload.Payload]) {
			if e != "" {
				s.Error(err)
				return
			}
			s.Success(payload.New(data, md))
		})
	}
	pr := mono.NewProcessor[payload.Payload]()
	o.Open.Add(1)
	o.Later(func() {
		o.Open.Add(-1)
		if e != "" {
			pr.Error(err)
			return
		}
		pr.Success(payload.New(data, md))
	})
	return pr
}

// steps makes several calls in the order in which their results are needed.
func (o *Ops) steps(ctx context.Context, c Call) mono.Mono[payload.Payload] {
	f := flow.New[payload.Payload]()
	sub := c
	sub.Kind = Plain
	var s sum
	var one, two mono.Mono[payload.Payload]
	var ends atomic.Int32
	return f.Steps(func() (await.Group, error) {
		a, b := sub, sub
		a.Seed, b.Seed = c.Seed+1, c.Seed+2
		one = o.reply(ctx, a)
		if c.unread() { // Only its end matters: awaiting it subscribes.
			many := o.stream(ctx, b)
			many.Notify(func(sig rx.SignalType) {
				if sig != rx.SignalComplete {
					o.Bad("a stream that nobody reads ends with " + sig.String())
				}
				ends.Add(1)
			})
			return await.All(many, one)
		}
		many := o.stream(ctx, b).Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { s.add(p.Data()) },
			OnComplete: func() { ends.Add(1) },
			OnError:    func(err error) { o.Bad("stream of a flow: " + err.Error()) },
			OnRequest:  func(r rx.Subscription) { r.Request(1 + int(c.Seed%5)) },
		})
		return await.All(one, many)
	}, func() (await.Group, error) {
		p, err := one.Get()
		if err != nil {
			return f.Error(err)
		}
		if ends.Load() != 1 {
			o.Bad("a step runs before the stream it waits for has ended")
		}
		s.add(p.Data())
		b := sub
		b.Seed = s.h
		two = o.reply(ctx, b)
		return await.All(two)
	}, func() (await.Group, error) {
		p, err := two.Get()
		if err != nil {
			return f.Error(err)
		}
		s.add(p.Data())
		return f.Success(payload.New(s.bytes()))
	}).Mono()
}

// Note takes messages.
func (o *Ops) Note(ctx context.Context, p payload.Payload) {
	c := o.arrived(p)
	if c.Depth > 0 {
		o.Peer.FireAndForget(ctx, o.request(c, 1))
		return
	}
	if c.Kind == Plain {
		var s sum
		s.add(p.Data())
		o.Notes.Add(s.h) // in any order
		o.Count.Add(1)
	}
}

// NoteSum is what a message adds to Notes.
func NoteSum(c Call) uint64 {
	c.Depth = 0
	var s sum
	s.add(c.Bytes())
	return s.h
}

// Stream answers streams.
func (o *Ops) Stream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return o.stream(ctx, o.arrived(p))
}

func (o *Ops) stream(ctx context.Context, c Call) flux.Flux[payload.Payload] {
	if c.Depth > 0 {
		f := o.Peer.RequestStream(ctx, o.request(c, 2))
		if c.Seed&1 == 0 {
			return flux.Map(f, func(p payload.Payload) (payload.Payload, error) { return payload.New(p.Data(), p.Metadata()), nil })
		}
		return f
	}
	var err error
	if c.Kind == Fails {
		err = errors.New(Text(c.Seed))
	}
	return o.Source(c.Seed, int(c.N), err, int(c.Seed>>5%3))
}

// Source emits elements on demand.
func (o *Ops) Source(seed uint64, n int, err error, how int) flux.Flux[payload.Payload] {
	if how == 1 && err == nil {
		l := make([]payload.Payload, n)
		for i := range l {
			l[i] = element(seed, i)
		}
		return flux.FromSlice(l)
	}
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		o.Open.Add(1)
		var mu sync.Mutex
		i, demand, running, over := 0, 0, false, false
		var serve func()
		serve = func() {
			for k := 1; ; k++ {
				mu.Lock()
				if over || (demand == 0 && i < n) {
					running = false
					mu.Unlock()
					return
				}
				if i == n {
					over = true
					mu.Unlock()
					o.Open.Add(-1)
					if err != nil {
						s.Error(err)
					} else {
						s.Complete()
					}
					return
				}
				demand--
				e := i
				i++
				mu.Unlock()
				s.Next(element(seed, e))
				if how == 2 && k%2 == 0 {
					o.Later(serve)
					return
				}
			}
		}
		start := func(more int) {
			mu.Lock()
			demand = min(demand+more, 1<<30)
			idle := !running && !over
			running = running || idle
			mu.Unlock()
			if idle {
				serve()
			}
		}
		s.OnSubscribe(flux.OnSubscribe{
			Request: func(k int) {
				if k <= 0 {
					o.Bad("a source is asked for nothing")
				}
				start(k)
			},
			Cancel: func() {
				mu.Lock()
				was := over
				over = true
				mu.Unlock()
				if !was {
					o.Open.Add(-1)
				}
			},
		})
		if n == 0 {
			start(0)
		}
	})
}

// Channel answers channels.
func (o *Ops) Channel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	c := o.arrived(p)
	if c.Depth > 0 {
		return o.Peer.RequestChannel(ctx, o.request(c, 3), in)
	}
	if c.Kind != Steps {
		k := 0
		return flux.Map(in, func(p payload.Payload) (payload.Payload, error) {
			k++
			if c.Kind == Fails && k > int(c.N) {
				return nil, errors.New(Text(c.Seed))
			}
			return payload.New(Flip(p.Data()), Flip(p.Metadata())), nil
		})
	}
	return flux.Create(func(out flux.Sink[payload.Payload]) {
		var s sum
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) { s.add(p.Data()); s.add(p.Metadata()) },
			OnComplete: func() {
				out.Next(payload.New(s.bytes()))
				out.Complete()
			},
			OnError:   func(err error) { out.Error(err) },
			OnRequest: func(r rx.Subscription) { r.Request(1 + int(c.Seed%7)) },
		})
	})
}
