// Package aes: the block cipher as an uninterpreted function of key and block.
package aes

import (
	"crypto/cipher"
	"strconv"

	"github.com/si-co/vpir-code/vp"
)

const BlockSize = 16

type KeySizeError int

func (k KeySizeError) Error() string { return "crypto/aes: invalid key size " + strconv.Itoa(int(k)) }

// Hook, if set, gives the result of encrypting a block instead.
var Hook func(key, src []byte) []byte

type block struct{ key []byte }

func NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, KeySizeError(len(key))
	}
	k := make([]byte, len(key))
	copy(k, key)
	return &block{k}, nil
}

func (b *block) BlockSize() int { return BlockSize }

func (b *block) Encrypt(dst, src []byte) {
	if len(src) < BlockSize {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < BlockSize {
		panic("crypto/aes: output not full block")
	}
	if Hook != nil {
		copy(dst, Hook(b.key, src[:BlockSize]))
		return
	}
	copy(dst, vp.UF("aes", BlockSize, b.key, src[:BlockSize]))
}

func (b *block) Decrypt(dst, src []byte) { panic("vpstub: aes decryption is not modelled") }
