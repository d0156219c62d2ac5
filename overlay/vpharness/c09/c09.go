// Package c09: the error-correcting code of the amplified scheme.
package c09

import (
	"github.com/si-co/vpir-code/lib/ecc"
	"github.com/si-co/vpir-code/vp"
)

// VPCode: words with at most t wrong symbols are decoded to the encoded one.
func VPCode() {
	t := vp.Cfg("t", 1)
	n := 2*t + 1
	x := vp.U32("x")
	w := ecc.New(t).Encode(x)
	vp.Assert(len(w) == n, "2t+1 symbols")
	wrong := uint32(0)
	same := true
	for i := range w {
		same = vp.And(same, w[i] == x)
		s := vp.U32("s")
		wrong += vp.Ite32(s != x, 1, 0)
		w[i] = s
	}
	vp.Assert(same, "every symbol is the encoded one")
	vp.Assume(wrong <= uint32(t))
	y, err := ecc.New(t).Decode(w)
	vp.Assert(vp.And(err == nil, y == x), "at most t wrong symbols are corrected")
	vp.Reach("end")
}

// VPMajority: a word is decoded to its strict majority, and to nothing else.
func VPMajority() {
	n := vp.Cfg("n", 3)
	w := make([]uint32, n)
	for i := range w {
		w[i] = vp.U32("s")
	}
	in := append([]uint32{}, w...)
	y, err := ecc.New((n - 1) / 2).Decode(w)
	has, is := false, false
	for i := range in {
		c := uint32(0)
		for j := range in {
			c += vp.Ite32(in[j] == in[i], 1, 0)
		}
		m := c > uint32(n/2)
		has = vp.Or(has, m)
		is = vp.Or(is, vp.And(m, in[i] == y))
	}
	if err != nil {
		vp.Assert(!has, "a word with a strict majority is decoded")
		vp.Reach("rejected")
	} else {
		vp.Assert(is, "only a strict majority is returned")
		vp.Reach("decoded")
	}
}
