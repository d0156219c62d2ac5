// Package c11: matrix kernels and encodings.
package c11

import (
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/vp"
	"lukechampine.com/uint128"
)

func any32(r, c int) *matrix.Matrix {
	m := matrix.New(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.Set(i, j, vp.U32("x"))
		}
	}
	return m
}

func any128(r, c int) *matrix.Matrix128 {
	m := matrix.New128(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.Set(i, j, uint128.New(vp.U64("lo"), vp.U64("hi")))
		}
	}
	return m
}

func anyBits(r, c int) *matrix.MatrixBytes {
	m := matrix.NewBytes(r, c)
	for i := 0; i < r*c; i++ {
		b := vp.Bool("bit")
		m.SetData(i, byte(vp.Ite32(b, 1, 0)))
	}
	return m
}

func copy32(m *matrix.Matrix) *matrix.Matrix {
	n := matrix.New(m.Rows(), m.Cols())
	for i := 0; i < m.Rows(); i++ {
		for j := 0; j < m.Cols(); j++ {
			n.Set(i, j, m.Get(i, j))
		}
	}
	return n
}

func copy128(m *matrix.Matrix128) *matrix.Matrix128 {
	n := matrix.New128(m.Rows(), m.Cols())
	for i := 0; i < m.Rows(); i++ {
		for j := 0; j < m.Cols(); j++ {
			n.Set(i, j, m.Get(i, j))
		}
	}
	return n
}

func same32(a, b *matrix.Matrix) bool {
	if a == nil || b == nil || a.Rows() != b.Rows() || a.Cols() != b.Cols() || a.Len() != b.Len() {
		return false
	}
	eq := true
	for i := 0; i < a.Rows(); i++ {
		for j := 0; j < a.Cols(); j++ {
			eq = vp.And(eq, a.Get(i, j) == b.Get(i, j))
		}
	}
	return eq
}

func eq128(a, b uint128.Uint128) bool { return vp.And(a.Lo == b.Lo, a.Hi == b.Hi) }

func same128(a, b *matrix.Matrix128) bool {
	if a == nil || b == nil || a.Rows() != b.Rows() || a.Cols() != b.Cols() {
		return false
	}
	eq := true
	for i := 0; i < a.Rows(); i++ {
		for j := 0; j < a.Cols(); j++ {
			eq = vp.And(eq, eq128(a.Get(i, j), b.Get(i, j)))
		}
	}
	return eq
}

// VPMul: products modulo 2^32.
func VPMul() {
	r, n, c := vp.Cfg("r", 2), vp.Cfg("n", 2), vp.Cfg("c", 2)
	a, b := any32(r, n), any32(n, c)
	a0, b0 := copy32(a), copy32(b)
	out := matrix.Mul(a, b)
	vp.Assert(out.Rows() == r && out.Cols() == c && out.Len() == r*c, "dimensions of a product")
	eq := true
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			s := uint32(0)
			for k := 0; k < n; k++ {
				s += a0.Get(i, k) * b0.Get(k, j)
			}
			eq = vp.And(eq, out.Get(i, j) == s)
		}
	}
	vp.Assert(eq, "the product modulo 2^32")
	vp.Assert(vp.And(same32(a, a0), same32(b, b0)), "the operands are unchanged")
	// again: nothing is kept between calls
	vp.Assert(same32(matrix.Mul(a, b), out), "the same product again")
	vp.Reach("end")
}

// VPBinary: products with a binary matrix.
func VPBinary() {
	r, n, c := vp.Cfg("r", 2), vp.Cfg("n", 2), vp.Cfg("c", 2)
	b := anyBits(n, c)
	bit := func(k, j int) bool { return b.Get(k, j) == 1 }
	if vp.Cfg("wide", 0) == 1 {
		a := any128(r, n)
		a0 := copy128(a)
		out := matrix.BinaryMul128(a, b)
		vp.Assert(out.Rows() == r && out.Cols() == c, "dimensions of a product")
		eq := true
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				s := uint128.Uint128{}
				for k := 0; k < n; k++ {
					x := a0.Get(i, k)
					s = s.AddWrap(uint128.New(vp.Ite64(bit(k, j), x.Lo, 0), vp.Ite64(bit(k, j), x.Hi, 0)))
				}
				eq = vp.And(eq, eq128(out.Get(i, j), s))
			}
		}
		vp.Assert(eq, "the product with a binary matrix modulo 2^128")
		vp.Assert(same128(a, a0), "the operand is unchanged")
	} else {
		a := any32(r, n)
		a0 := copy32(a)
		out := matrix.BinaryMul(a, b)
		vp.Assert(out.Rows() == r && out.Cols() == c && out.Len() == r*c, "dimensions of a product")
		eq := true
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				s := uint32(0)
				for k := 0; k < n; k++ {
					s += vp.Ite32(bit(k, j), a0.Get(i, k), 0)
				}
				eq = vp.And(eq, out.Get(i, j) == s)
			}
		}
		vp.Assert(eq, "the product with a binary matrix modulo 2^32")
		vp.Assert(same32(a, a0), "the operand is unchanged")
	}
	vp.Reach("end")
}

// VPMul128: products modulo 2^128.
func VPMul128() {
	r, n, c := vp.Cfg("r", 2), vp.Cfg("n", 2), vp.Cfg("c", 1)
	a, b := any128(r, n), any128(n, c)
	a0, b0 := copy128(a), copy128(b)
	out := matrix.Mul128(a, b)
	vp.Assert(out.Rows() == r && out.Cols() == c, "dimensions of a product")
	eq := true
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			s := uint128.Uint128{}
			for k := 0; k < n; k++ {
				s = s.AddWrap(a0.Get(i, k).MulWrap(b0.Get(k, j)))
			}
			eq = vp.And(eq, eq128(out.Get(i, j), s))
		}
	}
	vp.Assert(eq, "the product modulo 2^128")
	vp.Assert(vp.And(same128(a, a0), same128(b, b0)), "the operands are unchanged")
	vp.Reach("end")
}

// VPAdd: addition and subtraction.
func VPAdd() {
	r, c := vp.Cfg("r", 2), vp.Cfg("c", 3)
	a, b := any32(r, c), any32(r, c)
	s, d := copy32(a), copy32(a)
	b0 := copy32(b)
	s.Add(b)
	d.Sub(b)
	x, y := any128(r, c), any128(r, c)
	t, e := copy128(x), copy128(x)
	y0 := copy128(y)
	t.Add(y)
	e.Sub(y)
	eq := true
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			eq = vp.And(eq, vp.And(s.Get(i, j) == a.Get(i, j)+b0.Get(i, j), d.Get(i, j) == a.Get(i, j)-b0.Get(i, j)))
			eq = vp.And(eq, vp.And(eq128(t.Get(i, j), x.Get(i, j).AddWrap(y0.Get(i, j))), eq128(e.Get(i, j), x.Get(i, j).SubWrap(y0.Get(i, j)))))
		}
	}
	vp.Assert(eq, "sums and differences")
	vp.Assert(vp.And(same32(b, b0), same128(y, y0)), "the operand is unchanged")
	vp.Reach("end")
}

// VPEncode: encodings of matrices and of lists of them.
func VPEncode() {
	r, c := vp.Case("rows", vp.Cfg("r", 4)), vp.Case("cols", vp.Cfg("c", 4))
	a := any32(r, c)
	vp.Assert(same32(matrix.BytesToMatrix(matrix.MatrixToBytes(a)), a), "a matrix is decoded as it was encoded")
	w := any128(r, c)
	vp.Assert(same128(matrix.BytesToMatrix128(matrix.Matrix128ToBytes(w)), w), "a 128-bit matrix is decoded as it was encoded")
	n := 1 + vp.Case("matrices", 3)
	var list []*matrix.Matrix
	for i := 0; i < n; i++ {
		list = append(list, any32(r, c))
	}
	back := matrix.BytesToMatrices(matrix.MatricesToBytes(list))
	vp.Assert(len(back) == n, "the number of matrices")
	eq := true
	for i := range back {
		eq = vp.And(eq, same32(back[i], list[i]))
	}
	vp.Assert(eq, "a list of matrices is decoded as it was encoded")
	vp.Reach("end")
}

type reader struct{ got []byte }

func (r *reader) Read(p []byte) (int, error) {
	q := vp.Bytes("rnd", len(p))
	copy(p, q)
	r.got = append(r.got, q...)
	return len(p), nil
}

// VPRandom: random matrices have the right number of elements, made of
// distinct random bytes.
func VPRandom() {
	r, c := vp.Case("rows", 3), vp.Case("cols", 3)
	src := &reader{}
	a := matrix.NewRandom(src, r, c)
	vp.Assert(a.Rows() == r && a.Cols() == c && a.Len() == r*c, "size of a random matrix")
	vp.Assert(len(src.got) == 4*r*c, "four random bytes for each element")
	// two sources that differ give matrices that differ
	src2 := &reader{}
	b := matrix.NewRandom(src2, r, c)
	vp.Assert(vp.Implies(same32(a, b), vp.EqBytes(src.got, src2.got)), "every random byte counts")
	x, y := &reader{}, &reader{}
	d, e := matrix.NewRandom128(x, r, c), matrix.NewRandom128(y, r, c)
	vp.Assert(d.Rows() == r && d.Cols() == c && len(x.got) == 16*r*c, "size of a random 128-bit matrix")
	vp.Assert(vp.Implies(same128(d, e), vp.EqBytes(x.got, y.got)), "every random byte counts (128 bit)")
	vp.Reach("end")
}

// VPWide: encodings of matrices with dimensions beyond 16 bits.
func VPWide() {
	n := vp.Cfg("n", 70000)
	shape := [][2]int{{1, n}, {n, 1}}[vp.Case("shape", 2)]
	if vp.Cfg("wide", 0) == 1 {
		a := matrix.New128(shape[0], shape[1])
		a.Set(0, 0, uint128.New(vp.U64("lo"), vp.U64("hi")))
		a.Set(shape[0]-1, shape[1]-1, uint128.New(vp.U64("lo"), vp.U64("hi")))
		b := matrix.BytesToMatrix128(matrix.Matrix128ToBytes(a))
		vp.Assert(b != nil && b.Rows() == shape[0] && b.Cols() == shape[1], "dimensions beyond 16 bits (128 bit)")
		vp.Assert(vp.And(eq128(a.Get(0, 0), b.Get(0, 0)), eq128(a.Get(shape[0]-1, shape[1]-1), b.Get(shape[0]-1, shape[1]-1))), "elements of a large matrix (128 bit)")
		vp.Reach("end")
		return
	}
	a := matrix.New(shape[0], shape[1])
	a.Set(0, 0, vp.U32("x"))
	a.Set(shape[0]-1, shape[1]-1, vp.U32("x"))
	b := matrix.BytesToMatrix(matrix.MatrixToBytes(a))
	vp.Assert(b != nil && b.Rows() == shape[0] && b.Cols() == shape[1] && b.Len() == n, "dimensions beyond 16 bits")
	vp.Assert(vp.And(a.Get(0, 0) == b.Get(0, 0), a.Get(shape[0]-1, shape[1]-1) == b.Get(shape[0]-1, shape[1]-1)), "elements of a large matrix")
	l := matrix.BytesToMatrices(matrix.MatricesToBytes([]*matrix.Matrix{a, a}))
	vp.Assert(len(l) == 2 && l[1].Rows() == shape[0] && l[1].Cols() == shape[1] && l[1].Len() == n, "a list of large matrices")
	vp.Reach("end")
}
