//go:build go1.22

// Package guestlink runs programs for guests, compiled for this machine,
// behind modules of the real host: a module passes everything on to the
// program, over pipes that are its standard input and output.
package guestlink

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
)

// Wasm is the module.
var Wasm = func() []byte {
	b, err := base64.StdEncoding.DecodeString(packed)
	if err != nil {
		panic(err)
	}
	z, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	b, err = io.ReadAll(z)
	if err != nil {
		panic(err)
	}
	return b
}()

// Program is the path of a program of the check.
func Program(name string) string { return filepath.Join(os.Getenv("VERIF_PROGRAMS"), name) }

// Guest is a running program.
type Guest struct {
	Cmd     *exec.Cmd
	In, Out *os.File // the standard input and output of its module
	Done    chan struct{}
	mu      sync.Mutex
	text    bytes.Buffer
}

func (g *Guest) Write(b []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.text.Len() < 1<<16 {
		g.text.Write(b)
	}
	return len(b), nil
}

// Text is what it wrote to the standard error.
func (g *Guest) Text() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.text.String()
}

// Launch starts a program.
func Launch(name string, env ...string) (*Guest, error) {
	r1, w1, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	g := &Guest{Cmd: exec.Command(Program(name)), In: r1, Out: w2, Done: make(chan struct{})}
	g.Cmd.Stdin, g.Cmd.Stdout, g.Cmd.Stderr = r2, w1, g
	g.Cmd.Env = append(os.Environ(), env...)
	err = g.Cmd.Start()
	r2.Close()
	w1.Close()
	if err != nil {
		return nil, err
	}
	go func() { _ = g.Cmd.Wait(); close(g.Done) }()
	return g, nil
}

var std sync.Mutex

// As calls f, which starts a host whose module is to be this guest.
func (g *Guest) As(f func() error) error {
	std.Lock()
	defer std.Unlock()
	in, out := os.Stdin, os.Stdout
	os.Stdin, os.Stdout = g.In, g.Out
	defer func() { os.Stdin, os.Stdout = in, out }()
	return f()
}

// Ended tells whether the program has ended.
func (g *Guest) Ended() bool {
	select {
	case <-g.Done:
		return true
	default:
		return false
	}
}

// Quit ends the program.
func (g *Guest) Quit() {
	_ = g.Cmd.Process.Kill()
	<-g.Done
	g.In.Close()
	g.Out.Close()
}
