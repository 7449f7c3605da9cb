//go:build go1.22

package main

import (
	"github.com/nanobus/iota/go/verifh/farkit"
	"github.com/nanobus/iota/go/verifh/kit"
	"github.com/nanobus/iota/go/verifh/rpckit"
)

var all = []int{rpckit.RR, rpckit.FNF, rpckit.RS, rpckit.RC}

func main() {
	scn := func(quick, thorough int, f func(t *kit.T)) func(t *kit.T) {
		return func(t *kit.T) {
			rpckit.Use(t)
			for i := 0; i < kit.N(quick, thorough) && !t.Failed(); i++ {
				f(t)
			}
		}
	}
	kit.Main(kit.Config{
		Property: "P35",
		Rule:     "Conversations of real clients and servers with peers that have their own implementation of the protocol (encoder, decoder and state of each stream share no code with the library) and use what it allows: elements that come together with the end, empty metadata written or left out, channels requested without input, demand in any portions, error codes, setups with any fields, IDs with gaps, operation tables in any order, several frames in a packet or one in several. Requests of all kinds run in both directions at once, ending by completion, error or cancellation of either side. Both sides compare every element and end with what was emitted. Distinct by kind, sources, consumers and cancellation.",
		Assumptions: []string{
			"Peers follow the protocol and do not use fragmentation, keepalive, leases or resumption, which the library does not implement.",
			"A reply without an element is reported to the caller as an error.",
		},
		Scenarios: []kit.Scenario{
			{Name: "foreign clients", Yields: []int{0, 1, 2}, Run: scn(12, 200, func(t *kit.T) { farkit.Clients(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), all...) })},
			{Name: "foreign servers", Yields: []int{0, 1, 2}, Run: scn(12, 200, func(t *kit.T) { farkit.Servers(t, 1+t.Rand.IntN(4), 10+t.Rand.IntN(60), all...) })},
		},
	})
}
