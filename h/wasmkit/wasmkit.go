//go:build go1.22

// Package wasmkit runs guests written in Go against the real host runtime. A
// guest lives in a module that provides the memory and passes calls on to the
// functions of the host.
package wasmkit

import (
	"context"
	"fmt"
	"reflect"
	"sync/atomic"
	"unsafe"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// Pages of memory of a guest.
const Pages = 4

// Room is a host with room for guests.
type Room struct {
	r wazero.Runtime
	c wazero.CompiledModule
	n atomic.Int64
}

func section(id byte, body ...byte) []byte {
	if len(body) > 127 {
		b := []byte{id, byte(len(body)&0x7f | 0x80), byte(len(body) >> 7)}
		return append(b, body...)
	}
	return append([]byte{id, byte(len(body))}, body...)
}

func name(s string) []byte { return append([]byte{byte(len(s))}, s...) }

func cat(bs ...[]byte) (b []byte) {
	for _, x := range bs {
		b = append(b, x...)
	}
	return b
}

// shell is the module around a guest.
func shell() []byte {
	imp := func(n string, t byte) []byte { return cat(name("wasmrs"), name(n), []byte{0, t}) }
	exp := func(n string, kind, i byte) []byte { return cat(name(n), []byte{kind, i}) }
	two := func(f byte) []byte { return []byte{8, 0, 0x20, 0, 0x20, 1, 0x10, f, 0x0b} }
	one := func(f byte) []byte { return []byte{6, 0, 0x20, 0, 0x10, f, 0x0b} }
	return cat([]byte("\x00asm\x01\x00\x00\x00"),
		section(1, cat([]byte{2}, []byte{0x60, 2, 0x7f, 0x7f, 0}, []byte{0x60, 1, 0x7f, 0})...),
		section(2, cat([]byte{3}, imp("__init_buffers", 0), imp("__op_list", 0), imp("__send", 1))...),
		section(3, 3, 0, 0, 1),
		section(5, 1, 0, Pages),
		section(7, cat([]byte{4}, exp("memory", 2, 0), exp("init", 0, 3), exp("list", 0, 4), exp("send", 0, 5))...),
		section(10, cat([]byte{3}, two(0), two(1), one(2))...),
	)
}

// NewRoom starts a host and finds its runtime.
func NewRoom(ctx context.Context) (*Room, error) {
	h, err := host.New(ctx)
	if err != nil {
		return nil, err
	}
	room := &Room{}
	v := reflect.ValueOf(h).Elem()
	want := reflect.TypeOf((*wazero.Runtime)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type().Implements(want) {
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			room.r = f.Interface().(wazero.Runtime)
		}
	}
	if room.r == nil {
		return nil, fmt.Errorf("the host has no runtime")
	}
	room.c, err = room.r.CompileModule(ctx, shell())
	return room, err
}

// Guest is the other side. Its methods are called by the host; an error or
// panic is a trap.
type Guest interface {
	Init(ctx context.Context, sh *Shell, hostToGuest, guestToHost, maxFrame uint32) error
	List(ctx context.Context, sh *Shell) error
	Send(ctx context.Context, sh *Shell, n uint32) error
}

// Shell is what a guest can do.
type Shell struct {
	api.Module
	g     Guest
	lacks string // an export that is not there
}

func (s *Shell) call(ctx context.Context, f string, args ...uint64) error {
	_, err := s.Module.ExportedFunction(f).Call(ctx, args...)
	return err
}

// InitBuffers announces the buffers.
func (s *Shell) InitBuffers(ctx context.Context, in, out uint32) error {
	return s.call(ctx, "init", uint64(in), uint64(out))
}

// OpList announces the operations.
func (s *Shell) OpList(ctx context.Context, p, n uint32) error {
	return s.call(ctx, "list", uint64(p), uint64(n))
}

// HostSend sends frames to the host.
func (s *Shell) HostSend(ctx context.Context, n uint32) error { return s.call(ctx, "send", uint64(n)) }

type function struct {
	api.Function
	f func(ctx context.Context, params []uint64) error
}

func (f *function) Call(ctx context.Context, params ...uint64) (res []uint64, err error) {
	defer func() {
		if x := recover(); x != nil {
			res, err = nil, fmt.Errorf("trap: %v", x)
		}
	}()
	if err := f.f(ctx, params); err != nil {
		return nil, err
	}
	return []uint64{1}, nil
}

func (s *Shell) ExportedFunction(n string) api.Function {
	f := &function{Function: s.Module.ExportedFunction("send")}
	switch n {
	case s.lacks:
		return nil
	case "__wasmrs_init":
		f.f = func(ctx context.Context, p []uint64) error {
			return s.g.Init(ctx, s, uint32(p[0]), uint32(p[1]), uint32(p[2]))
		}
	case "__wasmrs_op_list_request":
		f.f = func(ctx context.Context, p []uint64) error { return s.g.List(ctx, s) }
	case "__wasmrs_send":
		f.f = func(ctx context.Context, p []uint64) error { return s.g.Send(ctx, s, uint32(p[0])) }
	default:
		return s.Module.ExportedFunction(n)
	}
	return f
}

// Instantiate starts a guest.
func (r *Room) Instantiate(ctx context.Context, g Guest) (*host.Instance, *Shell, error) {
	return r.InstantiateWithout(ctx, g, "")
}

// InstantiateWithout starts a guest that lacks an export.
func (r *Room) InstantiateWithout(ctx context.Context, g Guest, lacks string) (*host.Instance, *Shell, error) {
	m, err := r.r.InstantiateModule(ctx, r.c, wazero.NewModuleConfig().WithName(fmt.Sprint("guest", r.n.Add(1))))
	if err != nil {
		return nil, nil, err
	}
	sh := &Shell{m, g, lacks}
	i, err := host.NewInstance(ctx, sh)
	return i, sh, err
}
