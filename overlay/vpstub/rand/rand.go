// Package rand: every byte of entropy is a fresh symbolic byte.
package rand

import (
	"io"
	"math/big"

	"github.com/si-co/vpir-code/vp"
)

// Hook, if set, fills buffers instead.
var Hook func(p []byte)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	if Hook != nil {
		Hook(p)
		return len(p), nil
	}
	if len(p) > 0 {
		copy(p, vp.Bytes("rnd", len(p)))
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	return new(big.Int).SetUint64(vp.U64Max("rnd.int", max.Uint64()-1)), nil
}
