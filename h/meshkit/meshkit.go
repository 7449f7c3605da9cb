//go:build go1.22

// Package meshkit makes modules for a mesh. All are the guest of guest.c with
// different tags and operations.
package meshkit

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"os"

	"github.com/nanobus/iota/go/operations"
)

// Flags of a module.
const (
	Batch    = 1 // several frames at a time
	BadInit  = 2
	BadList  = 4
	BadStart = 8
	Bare     = 16 // replies to any data as the index says: 0 with it, 1 an error, 2 what it is the hexadecimal form of, 3 what an import says, 4 traps
)

// Module is what a module is made of.
type Module struct {
	Tag   uint32
	Flags uint32
	Ops   operations.Table
	Lacks string // an export it does not have
}

var plain = func() []byte {
	b, err := base64.StdEncoding.DecodeString(packed)
	if err != nil {
		panic(err)
	}
	z, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	b, err = io.ReadAll(z)
	if err != nil {
		panic(err)
	}
	return b
}()

const opsSize = 4096

// table writes the operations independently of the code under test.
// Table is the table of operations in a module.
func Table(ops operations.Table) []byte { return table(ops) }

func table(ops operations.Table) []byte {
	b := []byte{0, 'w', 'r', 's', 0, 1}
	b = binary.BigEndian.AppendUint32(b, uint32(len(ops)))
	for _, op := range ops {
		b = append(b, byte(op.Type), byte(op.Direction))
		b = binary.BigEndian.AppendUint32(b, op.Index)
		b = binary.BigEndian.AppendUint16(b, uint16(len(op.Namespace)))
		b = append(b, op.Namespace...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(op.Operation)))
		b = append(b, op.Operation...)
		b = binary.BigEndian.AppendUint16(b, 0)
	}
	return b
}

// Bytes is the binary of the module.
func (m Module) Bytes() []byte {
	b := append([]byte(nil), plain...)
	i := bytes.Index(b, []byte("VERIF-MESH-CONF"))
	ops := table(m.Ops)
	if i < 0 || len(ops) > opsSize {
		panic(fmt.Sprint("module: ", i, " ", len(ops)))
	}
	i += 16
	binary.LittleEndian.PutUint32(b[i:], m.Tag)
	binary.LittleEndian.PutUint32(b[i+4:], m.Flags)
	binary.LittleEndian.PutUint32(b[i+8:], uint32(len(ops)))
	copy(b[i+12:], ops)
	if m.Lacks != "" {
		// As the name of an export.
		n := append([]byte{byte(len(m.Lacks))}, m.Lacks...)
		k := bytes.Index(b, n)
		if k < 0 {
			panic("no export " + m.Lacks)
		}
		b[k+1] = 'X'
	}
	return b
}

// Write writes the binary to a file.
func (m Module) Write(file string) {
	if err := os.WriteFile(file, m.Bytes(), 0o600); err != nil {
		panic(err)
	}
}
