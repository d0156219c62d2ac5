// Package blake2b: a collision-free function of the message.
package blake2b

import (
	"hash"

	"github.com/si-co/vpir-code/vp"
)

const (
	BlockSize = 128
	Size      = 64
	Size384   = 48
	Size256   = 32
)

type digest struct {
	buf  []byte
	size int
	key  []byte
}

func sum(n int, key, b []byte) []byte {
	if len(key) > 0 {
		return vp.UF("inj:blake2bkeyed", n, key, b)
	}
	return vp.UF("inj:blake2b", n, b)
}

func (h *digest) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *digest) Sum(b []byte) []byte         { return append(b, sum(h.size, h.key, h.buf)...) }
func (h *digest) Reset()                      { h.buf = nil }
func (h *digest) Size() int                   { return h.size }
func (h *digest) BlockSize() int              { return BlockSize }

func New256(key []byte) (hash.Hash, error)        { return &digest{size: 32, key: key}, nil }
func New512(key []byte) (hash.Hash, error)        { return &digest{size: 64, key: key}, nil }
func New(size int, key []byte) (hash.Hash, error) { return &digest{size: size, key: key}, nil }
func Sum256(b []byte) (out [32]byte)              { copy(out[:], sum(32, nil, b)); return }
func Sum512(b []byte) (out [64]byte)              { copy(out[:], sum(64, nil, b)); return }
