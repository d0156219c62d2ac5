package c08

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
)

// VPMalformed: lattice clients survive any bytes as an answer (property C04).
func VPMalformed() {
	c := vp.Cfg("c", 2)
	p := params(1, c)
	p.N = 1
	info := &database.Info{NumRows: 1, NumColumns: c, BlockSize: 1, Auth: &database.Auth{}}
	lens := []int{0, 1, 3, 4, 7, 8, 9, 11, 12, 13, 16, 8 + 4*c - 1, 8 + 4*c, 8 + 4*c + 1, 8 + 4*c + 4, 8 + 16, 8 + 16*c - 1, 8 + 16*c, 8 + 16*c + 1, 8 + 16*c + 16}
	rec := reconstructor(vp.Cfg("scheme", 0), p, info, c)
	in := vp.Bytes("answer", lens[vp.Case("len", len(lens))])
	var err error
	crashed, _ := vp.Caught(func() { _, err = rec(in) })
	vp.Assert(!crashed, "a lattice client does not crash")
	vp.Reach("end")
	_ = err
}

// VPMalformedAmplify: the amplified client, whose answers are lists.
func VPMalformedAmplify() {
	c, t := vp.Cfg("c", 1), vp.Cfg("t", 1)
	p := params(1, c)
	p.N = 1
	info := &database.Info{NumRows: 1, NumColumns: c, BlockSize: 1, Auth: &database.Auth{}}
	rec := reconstructor(2+t, p, info, c)
	one := 8 + 4*c
	n := 2*t + 1
	lens := []int{0, 1, 3, 4, 5, 4 + one - 1, 4 + one, 4 + one*(n-1), 4 + one*n - 1, 4 + one*n, 4 + one*n + 1, 4 + one*(n+1), 4 + (one+4)*n, 4 + 8*n, 4 + n}
	in := vp.Bytes("answer", lens[vp.Case("len", len(lens))])
	crashed, _ := vp.Caught(func() { rec(in) })
	vp.Assert(!crashed, "the amplified client does not crash")
	vp.Reach("end")
}

func reconstructor(scheme int, p *utils.ParamsLWE, info *database.Info, c int) func([]byte) (uint32, error) {
	switch {
	case scheme == 0:
		info.DigestLWE = matrix.New(p.N, c)
		cl := client.NewLWE(&tape{word: 4}, info, p)
		_, err := cl.QueryBytes(vp.Case("pos", c))
		vp.Assert(err == nil, "a query is produced")
		return cl.ReconstructBytes
	case scheme == 1:
		info.DigestLWE128 = matrix.New128(p.N, c)
		cl := client.NewLWE128(&tape{word: 16}, info, p)
		_, err := cl.QueryBytes(vp.Case("pos", c))
		vp.Assert(err == nil, "a query is produced")
		return cl.ReconstructBytes
	default:
		info.DigestLWE = matrix.New(p.N, c)
		cl := client.NewAmplify(&tape{word: 4}, info, p, scheme-2)
		_, err := cl.QueryBytes(vp.Case("pos", c))
		vp.Assert(err == nil, "a query is produced")
		return cl.ReconstructBytes
	}
}
