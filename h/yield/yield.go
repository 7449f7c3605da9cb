//go:build go1.22

// Package yield is called before the statements of instrumented packages and
// perturbs the schedule. It uses no synchronisation of its own besides reading
// the level, so that the race detector sees no edges that the code lacks.
package yield

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

var level atomic.Int32

// Set selects how often Y perturbs: 0 never, 1 light, 2 heavy.
func Set(l int) { level.Store(int32(l)) }

// Y is inserted before statements.
func Y() {
	l := level.Load()
	if l == 0 {
		return
	}
	r := rand.Uint32()
	switch l {
	case 1:
		if r&63 == 0 {
			runtime.Gosched()
		} else if r&0xfff == 1 {
			time.Sleep(time.Duration(r>>12&63) * time.Microsecond)
		}
	default:
		if r&7 == 0 {
			runtime.Gosched()
		} else if r&255 == 1 {
			time.Sleep(time.Duration(r>>12&127) * time.Microsecond)
		}
	}
}
