// Package c08: single-server lattice retrieval, 32-bit modulus.
package c08

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	mrand "github.com/si-co/vpir-code/vpstub/mrand"
)

// tape is the client's randomness: every aligned word (32 or 128 bits, little
// endian) is farther than 2B from 0 modulo q, because the retrieval scalar t
// is one of them. rewind replays it.
type tape struct {
	data []byte
	pos  int
	word int
	far  uint64 // 0: no restriction
}

func (t *tape) Read(p []byte) (int, error) {
	if t.pos+len(p) > len(t.data) {
		n := t.pos + len(p) - len(t.data)
		fresh := vp.Bytes("rnd", n)
		if t.far != 0 {
			for i := 0; i+t.word <= n; i += t.word {
				vp.Assume(farFromZero(fresh[i:i+t.word], t.far))
			}
		}
		t.data = append(t.data, fresh...)
	}
	copy(p, t.data[t.pos:t.pos+len(p)])
	t.pos += len(p)
	return len(p), nil
}

func le(b []byte) uint64 {
	v := uint64(0)
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func farFromZero(b []byte, far uint64) bool {
	if len(b) == 4 {
		v := uint32(le(b))
		return vp.And(v >= uint32(far), v <= -uint32(far))
	}
	lo, hi := le(b[:8]), le(b[8:])
	return vp.And(vp.Or(hi != 0, lo >= far), vp.Or(hi != 1<<64-1, lo <= -far))
}

// bits is an arbitrary binary database of r rows and c columns.
func bits(r, c int) ([]int, *matrix.MatrixBytes) {
	m := matrix.NewBytes(r, c)
	d := make([]int, r*c)
	for i := range d {
		d[i] = vp.Case("bit", 2)
		m.SetData(i, byte(d[i]))
	}
	return d, m
}

// noise assumes that the noise accumulated by any column stays below B, or
// that there is none.
func noise(from int, d []int, r, c int, b uint32, none bool) {
	draws := mrand.Draws[from:]
	for _, e := range draws {
		if none {
			vp.Assume(e == 0)
		}
	}
	if none || len(draws) < r {
		return
	}
	for j := 0; j < c; j++ {
		s := uint32(0)
		for i := 0; i < r; i++ {
			if d[i*c+j] == 1 {
				s += uint32(draws[i])
			}
		}
		vp.Assume(s < b)
	}
}

func params(r, c int) *utils.ParamsLWE {
	p := utils.ParamsWithDatabaseSize(r, c)
	p.N = vp.Cfg("n", 2)
	return p
}

func db32(p *utils.ParamsLWE, r, c int) ([]int, *database.LWE) {
	d, m := bits(r, c)
	a := matrix.NewRandom(utils.NewPRG(p.SeedA), p.N, r)
	return d, &database.LWE{Matrix: m, Info: database.Info{
		NumRows: r, NumColumns: c, BlockSize: 1,
		Auth: &database.Auth{DigestLWE: matrix.BinaryMul(a, m)},
	}}
}

// VPCorrect: an honest answer gives back the stored bit.
func VPCorrect() {
	r, c := vp.Cfg("r", 2), vp.Cfg("c", 2)
	p := params(r, c)
	d, db := db32(p, r, c)
	t := &tape{word: 4, far: 2 * uint64(p.B)}
	cl := client.NewLWE(t, &db.Info, p)
	s := server.NewLWE(db)
	for q := 0; q < vp.Cfg("queries", 1); q++ {
		from := len(mrand.Draws)
		pos := vp.Case("pos", r*c)
		qb, err := cl.QueryBytes(pos)
		vp.Assert(err == nil, "a query is produced")
		ab, err := s.AnswerBytes(qb)
		vp.Assert(err == nil, "an honest query is answered")
		noise(from, d, r, c, p.B, false)
		v, err := cl.ReconstructBytes(ab)
		vp.Assert(err == nil, "an honest answer is accepted")
		vp.Assert(v == uint32(d[pos]), "the stored bit")
		vp.Reach("end")
	}
}

// VPVerify: an answer is accepted exactly when every column is within the
// bound of 0 or of the secret scalar.
func VPVerify() {
	r, c := vp.Cfg("r", 2), vp.Cfg("c", 2)
	p := params(r, c)
	d, db := db32(p, r, c)
	t := &tape{word: 4}
	i, j := vp.Case("row", r), vp.Case("col", c)
	other := (i + 1) % r
	// the same randomness with another row tells the secret scalar
	q2 := client.NewLWE(t, &db.Info, p).Query(other, j)
	t.pos = 0
	cl := client.NewLWE(t, &db.Info, p)
	q := cl.Query(i, j)
	noise(0, d, r, c, p.B, true)
	scalar := q.Get(0, i) - q2.Get(0, i)
	a := server.NewLWE(db).Answer(q)
	all := true
	var in0, in1 bool
	for k := 0; k < c; k++ {
		delta := vp.U32("delta")
		a.Set(0, k, a.Get(0, k)+delta)
		v := delta
		if d[i*c+k] == 1 {
			v += scalar
		}
		near0 := vp.Or(v < p.B, v > -p.B)
		near1 := vp.Or(v-scalar < p.B, v-scalar > -p.B)
		all = vp.And(all, vp.Or(near0, near1))
		if k == j {
			in0, in1 = near0, near1
		}
	}
	v, err := cl.Reconstruct(a)
	ok := err == nil
	vp.Assert(ok == all, "accepted exactly when every column is within the bound")
	vp.Assert(vp.Implies(ok, vp.Or(vp.And(in0, v == 0), vp.And(in1, v == 1))), "the bit of the queried column")
	vp.Reach("end")
}

// VPDigest: databases created from randomness are binary and their digest is
// the product of the public matrix with them.
func VPDigest() {
	r, c := vp.Cfg("r", 1), vp.Cfg("c", 1)
	db := database.CreateRandomBinaryLWE(&tape{}, r, c)
	vp.Assert(db.NumRows == r && db.NumColumns == c && db.Matrix.Len() == r*c, "dimensions")
	for i := 0; i < db.Matrix.Len(); i++ {
		vp.Assert(db.Matrix.Get(i/c, i%c) <= 1, "entries are bits")
	}
	p := utils.ParamsWithDatabaseSize(r, c)
	a := matrix.NewRandom(utils.NewPRG(p.SeedA), p.N, r)
	dg := db.DigestLWE
	vp.Assert(dg != nil && dg.Rows() == p.N && dg.Cols() == c, "digest dimensions")
	eq := true
	for n := 0; n < p.N; n++ {
		for j := 0; j < c; j++ {
			s := uint32(0)
			for i := 0; i < r; i++ {
				s += a.Get(n, i) & -uint32(db.Matrix.Get(i, j))
			}
			eq = vp.And(eq, dg.Get(n, j) == s)
		}
	}
	vp.Assert(eq, "the digest")
	vp.Reach("end")
}

// VPGauss: the noise is a sampled value or its negative modulo q.
func VPGauss() {
	n := vp.Cfg("n", 3)
	m := matrix.NewGauss(1, n)
	vp.Assert(m.Len() == n && len(mrand.Draws) >= n, "dimensions")
	for i := 0; i < n; i++ {
		x := uint32(mrand.Draws[i])
		vp.Assert(vp.Or(m.Get(0, i) == x, m.Get(0, i) == -x), "plus or minus the sample")
	}
	vp.Reach("end")
}
