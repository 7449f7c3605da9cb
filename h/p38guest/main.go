//go:build go1.22

// The guest of the harness.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"os"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/verifh/guestprog"
)

func main() {
	name, peer := os.Getenv("GUEST_NAME"), os.Getenv("GUEST_PEER")
	var queue []func()
	bad := ""
	o := &guestprog.Ops{Peer: guest.HostInvoker, Later: func(f func()) { queue = append(queue, f) }, Bad: func(s string) { bad = s; fmt.Fprintln(os.Stderr, s) }}
	o.Index = [4]uint32{
		guest.HostInvoker.ImportRequestResponse(peer, "reply"), guest.HostInvoker.ImportFireAndForget(peer, "note"),
		guest.HostInvoker.ImportRequestStream(peer, "stream"), guest.HostInvoker.ImportRequestChannel(peer, "channel"),
	}
	invoke.ExportRequestResponse(name, "reply", o.Reply)
	invoke.ExportFireAndForget(name, "note", o.Note)
	invoke.ExportRequestStream(name, "stream", o.Stream)
	invoke.ExportRequestChannel(name, "channel", o.Channel)
	invoke.ExportRequestResponse(name, "state", func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		b := binary.BigEndian.AppendUint64(nil, uint64(o.Open.Load()))
		b = binary.BigEndian.AppendUint64(b, o.Count.Load())
		b = binary.BigEndian.AppendUint64(b, o.Notes.Load())
		b = binary.BigEndian.AppendUint64(b, uint64(len(queue)))
		return mono.Just[payload.Payload](payload.New(append(b, bad...)))
	})
	guest.VerifIdle = func() {
		for n := 3; n > 0 && len(queue) > 0; n-- {
			f := queue[0]
			queue = queue[1:]
			f()
		}
	}
	guest.VerifServe()
}
