package c08

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
	mrand "github.com/si-co/vpir-code/vpstub/mrand"
	"lukechampine.com/uint128"
)

// near tells whether v is less than b away from 0 modulo 2^128.
func near(v uint128.Uint128, b uint64) bool {
	return vp.Or(vp.And(v.Hi == 0, v.Lo < b), vp.And(v.Hi == 1<<64-1, v.Lo > -b))
}

func params128(r, c int) *utils.ParamsLWE {
	p := utils.ParamsWithDatabaseSize128(r, c)
	p.N = vp.Cfg("n", 2)
	return p
}

func db128(p *utils.ParamsLWE, r, c int) ([]int, *database.LWE128) {
	d, m := bits(r, c)
	a := matrix.NewRandom128(utils.NewPRG(p.SeedA), p.N, r)
	return d, &database.LWE128{Matrix: m, Info: database.Info{
		NumRows: r, NumColumns: c, BlockSize: 1,
		Auth: &database.Auth{DigestLWE128: matrix.BinaryMul128(a, m)},
	}}
}

// VPCorrect128: an honest answer gives back the stored bit.
func VPCorrect128() {
	r, c := vp.Cfg("r", 2), vp.Cfg("c", 2)
	p := params128(r, c)
	d, db := db128(p, r, c)
	t := &tape{word: 16, far: 2 * uint64(p.B)}
	cl := client.NewLWE128(t, &db.Info, p)
	s := server.NewLWE128(db)
	for q := 0; q < vp.Cfg("queries", 1); q++ {
		from := len(mrand.Draws)
		pos := vp.Case("pos", r*c)
		qb, err := cl.QueryBytes(pos)
		vp.Assert(err == nil, "a query is produced")
		ab, err := s.AnswerBytes(qb)
		vp.Assert(err == nil, "an honest query is answered")
		noise(from, d, r, c, p.B, false)
		v, err := cl.ReconstructBytes(ab)
		vp.Assert(err == nil, "an honest answer is accepted")
		vp.Assert(v == uint32(d[pos]), "the stored bit")
		vp.Reach("end")
	}
}

// VPVerify128: an answer is accepted exactly when every column is within the
// bound of 0 or of the secret scalar.
func VPVerify128() {
	r, c := vp.Cfg("r", 2), vp.Cfg("c", 2)
	p := params128(r, c)
	d, db := db128(p, r, c)
	t := &tape{word: 16}
	i, j := vp.Case("row", r), vp.Case("col", c)
	other := (i + 1) % r
	// the same randomness with another row tells the secret scalar
	q2 := client.NewLWE128(t, &db.Info, p).Query(other, j)
	t.pos = 0
	cl := client.NewLWE128(t, &db.Info, p)
	q := cl.Query(i, j)
	noise(0, d, r, c, p.B, true)
	scalar := q.Get(0, i).SubWrap(q2.Get(0, i))
	a := server.NewLWE128(db).Answer(q)
	all := true
	var in0, in1 bool
	for k := 0; k < c; k++ {
		delta := uint128.New(vp.U64("lo"), vp.U64("hi"))
		a.Set(0, k, a.Get(0, k).AddWrap(delta))
		v := delta
		if d[i*c+k] == 1 {
			v = v.AddWrap(scalar)
		}
		near0 := near(v, uint64(p.B))
		near1 := near(v.SubWrap(scalar), uint64(p.B))
		all = vp.And(all, vp.Or(near0, near1))
		if k == j {
			in0, in1 = near0, near1
		}
	}
	v, err := cl.Reconstruct(a)
	ok := err == nil
	vp.Assert(ok == all, "accepted exactly when every column is within the bound")
	vp.Assert(vp.Implies(ok, vp.Or(vp.And(in0, v == 0), vp.And(in1, v == 1))), "the bit of the queried column")
	vp.Reach("end")
}

// VPDigest128: databases created from randomness are binary and their digest is
// the product of the public matrix with them.
func VPDigest128() {
	r, c := vp.Cfg("r", 1), vp.Cfg("c", 1)
	db := database.CreateRandomBinaryLWE128(&tape{}, r, c)
	vp.Assert(db.NumRows == r && db.NumColumns == c && db.Matrix.Len() == r*c, "dimensions")
	for i := 0; i < db.Matrix.Len(); i++ {
		vp.Assert(db.Matrix.Get(i/c, i%c) <= 1, "entries are bits")
	}
	p := utils.ParamsWithDatabaseSize128(r, c)
	a := matrix.NewRandom128(utils.NewPRG(p.SeedA), p.N, r)
	dg := db.DigestLWE128
	vp.Assert(dg != nil && dg.Rows() == p.N && dg.Cols() == c, "digest dimensions")
	eq := true
	for n := 0; n < p.N; n++ {
		for j := 0; j < c; j++ {
			s := uint128.Zero
			for i := 0; i < r; i++ {
				m := -uint64(db.Matrix.Get(i, j))
				x := a.Get(n, i)
				s = s.AddWrap(uint128.New(x.Lo&m, x.Hi&m))
			}
			eq = vp.And(eq, vp.And(dg.Get(n, j).Lo == s.Lo, dg.Get(n, j).Hi == s.Hi))
		}
	}
	vp.Assert(eq, "the digest")
	vp.Reach("end")
}

// VPGauss128: the noise is a sampled value or its negative modulo q.
func VPGauss128() {
	n := vp.Cfg("n", 3)
	m := matrix.NewGauss128(1, n)
	vp.Assert(m.Rows() == 1 && m.Cols() == n && len(mrand.Draws) >= n, "dimensions")
	for i := 0; i < n; i++ {
		x := uint128.From64(uint64(mrand.Draws[i]))
		y := uint128.Zero.SubWrap(x)
		g := m.Get(0, i)
		vp.Assert(vp.Or(vp.And(g.Lo == x.Lo, g.Hi == x.Hi), vp.And(g.Lo == y.Lo, g.Hi == y.Hi)), "plus or minus the sample")
	}
	vp.Reach("end")
}
