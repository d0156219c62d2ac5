// Package c12: field, bit and index encodings are exact for every input.
package c12

import (
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
)

// VPWords: 32-bit words and bytes, most significant byte first, both ways.
func VPWords() {
	n := vp.Case("words", vp.Cfg("max", 5)+1)
	w := make([]uint32, n)
	for i := range w {
		w[i] = vp.U32("w")
	}
	orig := append([]uint32(nil), w...)
	b := utils.Uint32SliceToByteSlice(w)
	ok := len(b) == 4*n
	vp.Assert(ok, "four bytes per word")
	for i := range orig {
		v := uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
		ok = vp.And(ok, v == orig[i])
	}
	vp.Assert(ok, "the bytes of a word, most significant first")
	back := utils.ByteSliceToUint32Slice(b)
	vp.Assert(len(back) == n, "as many words back")
	for i := range orig {
		ok = vp.And(ok, vp.And(back[i] == orig[i], w[i] == orig[i]))
	}
	vp.Assert(ok, "words survive the round trip")
	c := vp.Bytes("c", 4*n)
	cc := append([]byte(nil), c...)
	vp.Assert(vp.EqBytes(utils.Uint32SliceToByteSlice(utils.ByteSliceToUint32Slice(c)), cc), "bytes survive the round trip")
	vp.Assert(vp.EqBytes(c, cc), "the input is not modified")
	vp.Reach("end")
}

// VPBits: eight bits per byte, most significant first.
func VPBits() {
	n := vp.Case("bytes", vp.Cfg("max", 5)+1)
	in := vp.Bytes("in", n)
	orig := append([]byte(nil), in...)
	out := utils.ByteToBits(in)
	vp.Assert(len(out) == 8*n, "eight bits per byte")
	ok := true
	for i := 0; i < n; i++ {
		for j := 0; j < 8; j++ {
			ok = vp.And(ok, out[8*i+j] == ((orig[i]>>uint(7-j))&1 == 1))
		}
	}
	vp.Assert(ok, "bits, most significant first")
	vp.Assert(vp.EqBytes(in, orig), "the input is not modified")
	vp.Reach("end")
}

// VPElements: bytes to field elements.
func VPElements() {
	n := 1 + vp.Case("elements", vp.Cfg("max", 4))
	in := vp.Bytes("in", 4*n)
	a, b := append([]byte(nil), in...), append([]byte(nil), in...)
	e1, e2 := make([]uint32, n), make([]uint32, n)
	field.BytesToElements(e1, a)
	field.BytesToElements(e2, b)
	below, same, value := true, true, true
	for i := range e1 {
		v := uint32(in[4*i]&0x7f)<<24 | uint32(in[4*i+1])<<16 | uint32(in[4*i+2])<<8 | uint32(in[4*i+3])
		below = vp.And(below, e1[i] < field.ModP)
		same = vp.And(same, e1[i] == e2[i])
		value = vp.And(value, vp.Or(e1[i] == v, vp.And(v == field.ModP, e1[i] == 0)))
	}
	vp.Assert(below, "every element is below the modulus")
	vp.Assert(same, "elements are a function of the bytes")
	vp.Assert(value, "the low 31 bits, reduced")
	vp.Reach("end")
}

type tape struct {
	b []byte
	k int
}

func (t *tape) Read(p []byte) (int, error) {
	for i := range p {
		if t.k == len(t.b) {
			vp.Assume(false)
		}
		p[i] = t.b[t.k]
		t.k++
	}
	return len(p), nil
}

// VPRandom: random elements are below the modulus and a function of the
// generator's output; up to two draws in a row may be the modulus.
func VPRandom() {
	n := 1 + vp.Case("elements", vp.Cfg("max", 3))
	tp := vp.Bytes("tape", 4*n+8)
	v1 := field.RandVectorWithPRG(n, &tape{b: append([]byte(nil), tp...)})
	v2 := field.RandVectorWithPRG(n, &tape{b: append([]byte(nil), tp...)})
	e1 := field.RandElementWithPRG(&tape{b: append([]byte(nil), tp...)})
	e2 := field.RandElementWithPRG(&tape{b: append([]byte(nil), tp...)})
	vp.Assert(len(v1) == n, "as many elements as asked for")
	ok := vp.And(e1 < field.ModP, e1 == e2)
	plain := true
	for i := range v1 {
		ok = vp.And(ok, vp.And(v1[i] < field.ModP, v1[i] == v2[i]))
		w := uint32(tp[4*i]&0x7f)<<24 | uint32(tp[4*i+1])<<16 | uint32(tp[4*i+2])<<8 | uint32(tp[4*i+3])
		plain = vp.And(plain, vp.Or(w == field.ModP, v1[i] == w))
	}
	vp.Assert(ok, "random elements are below the modulus and reproducible")
	vp.Assert(plain, "an element takes all values below the modulus equally often")
	vp.Reach("end")
}

// VPNegate: x + (-x) is zero in the field and the result is reduced.
func VPNegate() {
	n := vp.Case("elements", vp.Cfg("max", 4)+1)
	in := make([]uint32, n)
	for i := range in {
		in[i] = vp.U32("x")
		vp.Assume(in[i] < field.ModP)
	}
	orig := append([]uint32(nil), in...)
	out := field.NegateVector(in)
	vp.Assert(len(out) == n, "as many elements")
	ok := true
	for i := range orig {
		s := uint64(orig[i]) + uint64(out[i])
		ok = vp.And(ok, vp.And(out[i] < field.ModP, vp.Or(s == 0, s == uint64(field.ModP))))
	}
	vp.Assert(ok, "the negation adds up to zero and is below the modulus")
	vp.Reach("end")
}

// VPVector: three bytes of data per element.
func VPVector() {
	n := vp.Case("elements", vp.Cfg("max", 4)+1)
	data := vp.Bytes("data", 3*n)
	in := make([]uint32, n)
	for i := range in {
		in[i] = uint32(data[3*i])<<16 | uint32(data[3*i+1])<<8 | uint32(data[3*i+2])
	}
	vp.Assert(vp.EqBytes(field.VectorToBytes(in), data), "data embedded in elements comes back")
	vp.Reach("end")
}

// VPIndices: position to row and column and back.
func VPIndices() {
	cols := 1 + vp.Case("cols", vp.Cfg("cols", 9))
	i := int(vp.U64Max("i", uint64(vp.Cfg("max", 100000))))
	r, c := utils.VectorToMatrixIndices(i, cols)
	vp.Assert(vp.And(vp.And(r >= 0, c >= 0), vp.And(c < cols, r*cols+c == i)), "row and column of a position")
	vp.Reach("end")
}

// VPHash: hashed positions are inside the table and depend on the key only.
func VPHash() {
	n := vp.Case("len", vp.Cfg("max", 4)+1)
	id := string(vp.Bytes("id", n))
	size := 1 + vp.Case("size", vp.Cfg("size", 12))
	h := database.HashToIndex(id, size)
	vp.Assert(uint64(h) < uint64(size), "a hashed position is inside the table")
	vp.Assert(h == database.HashToIndex(id, size), "a hashed position depends on the key only")
	vp.Reach("end")
}

// VPSquare: the next perfect square, for every size up to the bound.
func VPSquare() {
	lo := vp.Cfg("from", 0)
	n := lo + vp.Case("n", vp.Cfg("max", 130))
	m := n
	utils.IncreaseToNextSquare(&m)
	root := 0
	for root*root < n {
		root++
	}
	vp.Assert(m == root*root, "the next perfect square")
	if n > 0 {
		r, c := database.CalculateNumRowsAndColumns(n, true)
		vp.Assert(r == root && c == root, "a square table")
		r, c = database.CalculateNumRowsAndColumns(n, false)
		vp.Assert(r == 1 && c == n, "a vector")
	}
	vp.Reach("end")
}
