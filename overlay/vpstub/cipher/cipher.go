// Package cipher: counter mode over the stubbed block cipher.
package cipher

import (
	"crypto/cipher"
)

type Block = cipher.Block
type Stream = cipher.Stream

type ctr struct {
	b    Block
	ctr  []byte
	out  []byte
	used int
}

func NewCTR(b Block, iv []byte) Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	c := &ctr{b: b, ctr: make([]byte, len(iv)), out: make([]byte, b.BlockSize()), used: b.BlockSize()}
	copy(c.ctr, iv)
	return c
}

func (c *ctr) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := range src {
		if c.used == len(c.out) {
			c.b.Encrypt(c.out, c.ctr)
			for j := len(c.ctr) - 1; j >= 0; j-- {
				c.ctr[j]++
				if c.ctr[j] != 0 {
					break
				}
			}
			c.used = 0
		}
		dst[i] = src[i] ^ c.out[c.used]
		c.used++
	}
}
