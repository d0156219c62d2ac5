// Package fnv: a function of the message, with arbitrary collisions.
package fnv

import (
	"encoding/binary"
	"hash"

	"github.com/si-co/vpir-code/vp"
)

type digest struct{ buf []byte }

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, vp.UF("fnv64", 8, d.buf)...) }
func (d *digest) Reset()                      { d.buf = nil }
func (d *digest) Size() int                   { return 8 }
func (d *digest) BlockSize() int              { return 1 }
func (d *digest) Sum64() uint64               { return binary.BigEndian.Uint64(vp.UF("fnv64", 8, d.buf)) }

func New64a() hash.Hash64 { return &digest{} }
func New64() hash.Hash64  { return &digest{} }
