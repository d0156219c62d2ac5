// Package blake3: a collision-free function of the message.
package blake3

import "github.com/si-co/vpir-code/vp"

type Hasher struct {
	buf  []byte
	size int
	key  []byte
}

func New(size int, key []byte) *Hasher { return &Hasher{size: size, key: key} }

func sum(n int, key, b []byte) []byte {
	if len(key) > 0 {
		return vp.UF("inj:blake3keyed", n, key, b)
	}
	return vp.UF("inj:blake3", n, b)
}

func (h *Hasher) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *Hasher) Sum(b []byte) []byte         { return append(b, sum(h.size, h.key, h.buf)...) }
func (h *Hasher) Reset()                      { h.buf = nil }
func (h *Hasher) Size() int                   { return h.size }
func (h *Hasher) BlockSize() int              { return 64 }

func Sum256(b []byte) (out [32]byte) { copy(out[:], sum(32, nil, b)); return }
func Sum512(b []byte) (out [64]byte) { copy(out[:], sum(64, nil, b)); return }
