//go:build go1.22 && wasi

package main

import (
	"errors"

	"github.com/nanobus/iota/go/rx/mono"
)

// Guests have one thread: what happens later happens when the calls that led
// to it have returned.
var due []func()

func later(f func()) { due = append(due, f) }

// settle lets what is due happen, in an order chosen by pick.
func settle(pick func(int) int) {
	for len(due) > 0 {
		i := pick(len(due))
		f := due[i]
		due = append(due[:i:i], due[i+1:]...)
		f()
	}
}

func blockMono(m mono.Mono[int], pick func(int) int) (v int, err error) {
	err = errors.New("nothing more happens")
	m.Subscribe(mono.Subscribe[int]{
		OnSuccess: func(x int) { v, err = x, nil },
		OnError:   func(e error) { err = e },
	})
	settle(pick)
	return v, err
}
