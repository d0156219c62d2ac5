// Package crypto: hash functions selected by number, collision free.
package crypto

import (
	"hash"

	"github.com/si-co/vpir-code/vp"
)

type Hash uint

const (
	MD4 Hash = 1 + iota
	MD5
	SHA1
	SHA224
	SHA256
	SHA384
	SHA512
	MD5SHA1
	RIPEMD160
	SHA3_224
	SHA3_256
	SHA3_384
	SHA3_512
	SHA512_224
	SHA512_256
	BLAKE2s_256
	BLAKE2b_256
	BLAKE2b_384
	BLAKE2b_512
	maxHash
)

var sizes = []int{0, 16, 16, 20, 28, 32, 48, 64, 36, 20, 28, 32, 48, 64, 28, 32, 32, 32, 48, 64}

type digest struct {
	h   Hash
	buf []byte
}

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, sum(d.h, d.buf)...) }
func (d *digest) Reset()                      { d.buf = nil }
func (d *digest) Size() int                   { return d.h.Size() }
func (d *digest) BlockSize() int              { return 128 }

func sum(h Hash, b []byte) []byte {
	if h == BLAKE2b_256 {
		return vp.UF("inj:blake2b", 32, b)
	}
	return vp.UF("inj:hash", h.Size(), []byte{byte(h)}, b)
}

func (h Hash) HashFunc() Hash { return h }
func (h Hash) Size() int {
	if h > 0 && h < maxHash {
		return sizes[h]
	}
	panic("crypto: Size of unknown hash function")
}
func (h Hash) Available() bool { return h > 0 && h < maxHash }
func (h Hash) New() hash.Hash {
	if h > 0 && h < maxHash {
		return &digest{h: h}
	}
	panic("crypto: requested hash function is unavailable")
}
