//go:build go1.22

package kit

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
)

// Clock is a logical clock for histories.
type Clock struct{ n atomic.Int64 }

func (c *Clock) Tick() int64 { return c.n.Add(1) }

// Op is one operation of a history. Pending operations have Ret < 0.
type Op struct {
	Proc      int
	Call, Ret int64
	Kind      string
	Arg, Out  int64
}

func (o Op) String() string {
	return fmt.Sprintf("[%d,%d] p%d %s(%d)=%d", o.Call, o.Ret, o.Proc, o.Kind, o.Arg, o.Out)
}

// History formats a history.
func History(ops []Op) string {
	var sb strings.Builder
	for i, o := range ops {
		if i > 80 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(o.String())
		sb.WriteByte('\n')
	}
	return sb.String()
}

// Linearizable decides whether some order of the operations that respects
// real time is accepted by step from the initial state. Histories have at most
// 64 operations. ok is false only if there is none; decided is false if the
// budget was used up.
func Linearizable(ops []Op, init int64, step func(state int64, o Op) (int64, bool)) (ok, decided bool) {
	n := len(ops)
	if n > 64 {
		return true, false
	}
	ops = append([]Op(nil), ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	type key struct {
		done  uint64
		state int64
	}
	seen := map[key]struct{}{}
	var required uint64
	for i, o := range ops {
		if o.Ret >= 0 {
			required |= 1 << i
		}
	}
	budget := 2_000_000
	var rec func(done uint64, state int64) bool
	rec = func(done uint64, state int64) bool {
		if done&required == required {
			return true
		}
		k := key{done, state}
		if _, dup := seen[k]; dup {
			return false
		}
		seen[k] = struct{}{}
		if budget--; budget < 0 {
			return false
		}
		minRet := int64(1<<62 - 1)
		for i, o := range ops {
			if done&(1<<i) == 0 && o.Ret >= 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 {
				continue
			}
			if o.Call > minRet {
				break
			}
			if s, good := step(state, o); good && rec(done|1<<i, s) {
				return true
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, ok || budget >= 0
}
