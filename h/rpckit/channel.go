//go:build go1.22

package rpckit

import (
	"context"
	"fmt"
	"math/rand/v2"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifh/kit"
)

// What a channel's handler does with its input.
const (
	Independent = iota // consumes it while emitting something else
	Echo               // returns it through a transform
	ThenEmit           // consumes it to its end before emitting something else
	Ignore             // never subscribes it
	ChanModes
)

// Chan is a channel call with its producers and consumers.
type Chan struct {
	T       *kit.T
	C       *Call
	Mode    int
	In      *Prod // the caller's elements
	InCons  *Cons // the handler's consumer of them
	Out     *Prod // the handler's elements
	OutCons *Cons // the caller's consumer of them
	flux    flux.Flux[payload.Payload]
}

func (c *Chan) String() string {
	return fmt.Sprintf("channel of kind %d: %v to %v, %v to %v", c.Mode, c.In, c.InCons, c.Out, c.OutCons)
}

// Status tells what was observed so far.
func (c *Chan) Status() string {
	return fmt.Sprintf("channel of kind %d: input: %s; output: %s", c.Mode, c.InCons.Status(), c.OutCons.Status())
}

// NewChan draws a channel. The producers may ignore demand unless respect is set.
func NewChan(t *kit.T, r *rand.Rand, mode, nin, nout int, respect bool) *Chan {
	c := &Chan{T: t, Mode: mode}
	c.In = NewProd(t, r, nin, respect)
	c.In.Name = "caller"
	c.InCons = NewCons(t, r, c.In)
	c.InCons.Name = "handler"
	if c.InCons.Mode == Blocking { // which subscribes too late
		c.InCons.Mode = Unbounded
	}
	c.Out = NewProd(t, r, nout, respect)
	c.Out.Name = "handler"
	c.OutCons = NewCons(t, r, c.Out)
	c.OutCons.Name = "caller"
	c.Out.Limit = c.OutCons.Requested.Load
	c.In.Limit = c.InCons.Requested.Load
	if mode == Echo {
		c.OutCons.Src = c.In
		c.In.Limit = c.OutCons.Requested.Load
	}
	c.C = NewCall(r, RC, r.IntN(60), r.IntN(3)*r.IntN(20))
	c.C.OnRC = func(_ context.Context, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		switch mode {
		case Echo:
			return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return payload.New(p.Data(), p.Metadata()), nil })
		case ThenEmit:
			c.InCons.Subscribe(in)
			<-c.InCons.Done
			return c.Out.Flux()
		case Ignore:
			return c.Out.Flux()
		}
		c.InCons.Subscribe(in)
		return c.Out.Flux()
	}
	return c
}

// Start makes the call.
func (c *Chan) Start(from *handler.Handler, imported bool) {
	// An error of the output ends the input, and so does cancelling the output.
	c.InCons.ForeignEnd = c.Out.Fail || c.OutCons.CancelAt >= 0
	c.flux = from.RequestChannel(context.Background(), c.C.Request(c.C.Index(from, imported)), c.In.Flux())
	c.OutCons.Subscribe(c.flux)
}

// Quit ends what nobody ends.
func (c *Chan) Quit() {
	c.In.Quit()
	c.Out.Quit()
	c.InCons.Quit()
	c.OutCons.Quit()
}

// Finish waits for a channel that nobody cancels and checks it.
func (c *Chan) Finish() bool {
	if !c.OutCons.Wait() {
		c.T.Violate("channel does not end", "%s", c.Status())
		c.Quit()
		return false
	}
	c.OutCons.CheckWhole()
	switch c.Mode {
	case Independent, ThenEmit:
		if !c.InCons.Wait() {
			c.T.Violate("channel does not end", "%s", c.Status())
			c.Quit()
			return false
		}
		if c.Out.Fail && c.Mode == Independent {
			c.InCons.CheckPrefix("input of a failed channel")
		} else {
			c.InCons.CheckWhole()
			if c.In.Cancels.Load() != 0 {
				c.T.Violate("input is cancelled though nobody cancels", "%s", c.Status())
			}
		}
	case Ignore:
		if c.In.Mode != Slice && !kit.Wait(func() bool { return c.In.Cancels.Load() == 1 || c.In.Ended.Load() }) {
			c.T.Violate("input nobody wants is not cancelled", "%s", c.Status())
		}
		if n := c.In.Emitted.Load(); n != 0 && c.In.Mode != PushSync && c.In.Mode != PushAsync {
			c.T.Violate("input nobody wants is asked for", "%s", c.Status())
		}
	}
	if c.Out.Cancels.Load() != 0 {
		c.T.Violate("output is cancelled though nobody cancels", "%s", c.Status())
	}
	if c.C.Runs.Load() != 1 {
		c.T.Violate("handler runs", "%d: %s", c.C.Runs.Load(), c.Status())
	}
	c.C.Forget()
	kit.Count("channels", 1)
	return !c.T.Failed()
}
