package dpf

import (
	"unsafe"

	"github.com/si-co/vpir-code/vp"
)

// The assembly routines of the original package over the uninterpreted block
// cipher: an "expanded" key holds the 16 key bytes.

func xor16(dst, a, b *byte) {
	d := vp.ByteView(unsafe.Pointer(dst), 16)
	p := vp.ByteView(unsafe.Pointer(a), 16)
	q := vp.ByteView(unsafe.Pointer(b), 16)
	for i := 0; i < 16; i++ {
		d[i] = p[i] ^ q[i]
	}
}

func keyOf(xk *uint32) []byte {
	return vp.ByteView(unsafe.Pointer(xk), 16)
}

func encryptAes128(xk *uint32, dst, src *byte) {
	copy(vp.ByteView(unsafe.Pointer(dst), 16), vp.UF("aes", 16, keyOf(xk), vp.ByteView(unsafe.Pointer(src), 16)))
}

func aes128MMO(xk *uint32, dst, src *byte) {
	s := vp.ByteView(unsafe.Pointer(src), 16)
	e := vp.UF("aes", 16, keyOf(xk), s)
	d := vp.ByteView(unsafe.Pointer(dst), 16)
	for i := 0; i < 16; i++ {
		d[i] = e[i] ^ s[i]
	}
}

func expandKeyAsm(key *byte, enc *uint32) {
	copy(vp.ByteView(unsafe.Pointer(enc), 16), vp.ByteView(unsafe.Pointer(key), 16))
}
