//go:build go1.22 && wasi

package main

import (
	"math/rand/v2"

	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifh/kit"
)

// guest tells that the code is built as for guests, which have one thread and
// do not block.
const guest = true

func blockFlux(flux.Flux[int], flux.Subscribe[int]) error { panic("no blocking in guests") }
func blockMono(mono.Mono[int]) (int, error)               { panic("no blocking in guests") }

func onlyHere(func(quick, thorough int, f func(*kit.T, *rand.Rand)) func(*kit.T)) []kit.Scenario {
	return nil
}
