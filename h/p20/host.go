//go:build go1.22 && !wasi

package main

// guest tells that the code is built as for guests, which have one thread.
const guest = false
