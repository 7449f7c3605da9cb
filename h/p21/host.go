//go:build go1.22 && !wasi

package main

import "github.com/nanobus/iota/go/rx/mono"

// later runs f on a goroutine of its own.
func later(f func()) { go f() }

// settle lets what is due happen; it does so by itself.
func settle(func(int) int) {}

func blockMono(m mono.Mono[int], _ func(int) int) (int, error) { return m.Block() }
