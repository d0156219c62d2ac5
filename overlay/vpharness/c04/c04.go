// Package c04: clients survive malformed server answers (multi-server and
// discrete-log clients; the lattice clients are in package c08).
package c04

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/vp"
)

// tape hands out arbitrary randomness.
type tape struct{}

func (tape) Read(p []byte) (int, error) {
	for i := 0; i+4 <= len(p); i += 4 {
		w := vp.U32("rnd")
		vp.Assume(w&0x7fffffff != field.ModP)
		p[i], p[i+1], p[i+2], p[i+3] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
	}
	for i := len(p) &^ 3; i < len(p); i++ {
		p[i] = vp.Byte("rnd")
	}
	return len(p), nil
}

// answers returns one answer per server, of arbitrary lengths up to max.
func answers(servers, max int) [][]byte {
	out := make([][]byte, servers)
	for i := range out {
		n := vp.Case("len", max+1)
		if n > 0 || vp.Case("nil", 2) == 0 {
			out[i] = vp.Bytes("ans", n)
		}
	}
	return out
}

// VPPoint: the classical client.
func VPPoint() {
	rows, cols, bs := vp.Cfg("r", 1), vp.Cfg("c", 2), vp.Cfg("bs", 2)
	servers := vp.Cfg("servers", 2)
	info := &database.Info{NumRows: rows, NumColumns: cols, BlockSize: bs}
	if vp.Case("type", 2) == 1 {
		info.PIRType = "classical"
	}
	c := client.NewPIR(tape{}, info)
	i := vp.Case("index", rows*cols)
	c.Query(i, servers)
	ans := answers(servers, rows*bs+vp.Cfg("more", 2))
	var res interface{}
	var err error
	crashed, _ := vp.Caught(func() { res, err = c.ReconstructBytes(ans) })
	vp.Assert(!crashed, "a point query client does not crash")
	short := false
	for _, a := range ans {
		short = short || len(a) < (i/cols+1)*bs
	}
	if short {
		vp.Assert(err != nil, "an answer without the queried row gives an error")
		vp.Reach("error")
	} else {
		b, ok := res.([]byte)
		vp.Assert(err != nil || ok && len(b) == bs, "a value or an error is returned")
		vp.Reach("value")
	}
}

// VPMerkle: the authenticated client. Proofs have any number of hashes that
// fits in the block.
func VPMerkle() {
	bs, plen := vp.Cfg("bs", 44), vp.Cfg("plen", 40)
	info := &database.Info{NumRows: 1, NumColumns: 2, BlockSize: bs, PIRType: "merkle",
		Merkle: &database.Merkle{Root: vp.Bytes("root", 32), ProofLen: plen}}
	c := client.NewPIR(tape{}, info)
	c.Query(vp.Case("index", 2), 2)
	// the block the answers add up to is arbitrary when one of them is
	ans := [][]byte{make([]byte, bs), nil}
	n := []int{0, 1, bs - 1, bs, bs + 1}[vp.Case("len", 5)]
	ans[1] = vp.Bytes("ans", n)
	if vp.Case("swap", 2) == 1 {
		ans[0], ans[1] = ans[1], ans[0]
	}
	var res interface{}
	var err error
	crashed, _ := vp.Caught(func() { res, err = c.ReconstructBytes(ans) })
	vp.Assert(!crashed, "an authenticated client does not crash")
	b, ok := res.([]byte)
	vp.Assert(err != nil || ok && b != nil, "a value or an error is returned")
	if n < bs {
		vp.Assert(err != nil, "a short answer gives an error")
	}
	vp.Reach("end")
}

// VPProof: decoding a proof.
func VPProof() {
	n := vp.Cfg("n", 40)
	for k := 0; k < 2; k++ {
		in := vp.Bytes("proof", vp.Case("len", n+1))
		crashed, _ := vp.Caught(func() {
			if p := merkle.DecodeProof(in); p != nil {
				merkle.VerifyProof([]byte{1}, p, make([]byte, 32))
			}
		})
		vp.Assert(!crashed, "a proof is decoded and checked without crashing")
		if k == 0 && len(in) > 0 {
			break
		}
	}
	vp.Reach("end")
}

// VPUnpad: removing the padding of an arbitrary block.
func VPUnpad() {
	in := vp.Bytes("block", vp.Case("len", vp.Cfg("n", 6)+1))
	crashed, _ := vp.Caught(func() { database.UnPadBlock(in) })
	vp.Assert(!crashed, "the padding is removed without crashing")
	vp.Reach("end")
}

// VPPredicate: both predicate clients, for counts and averages.
func VPPredicate() {
	// what the keys look like does not matter here (see C05)
	vp.Contract("(fss.Fss).GenerateTreePF", func(_ fss.Fss, a []bool, b []uint32) []fss.FssKeyEq2P {
		return make([]fss.FssKeyEq2P, 2)
	})
	info := &database.Info{NumRows: 1, NumColumns: 3}
	q := &query.ClientFSS{Info: &query.Info{Target: query.UserId, FromStart: 1}, Input: []bool{vp.Bool("in")}}
	q.Avg = vp.Case("avg", 2) == 1
	q.And = q.Avg
	var c interface {
		Query(*query.ClientFSS, int) []*query.FSS
		ReconstructBytes([][]byte) (interface{}, error)
		Reconstruct([][]uint32) (uint32, error)
	}
	n := 1
	if vp.Cfg("auth", 0) == 1 {
		c = client.NewPredicateAPIR(tape{}, info)
		n = 1 + field.ConcurrentExecutions
	} else {
		c = client.NewPredicatePIR(tape{}, info)
	}
	c.Query(q, 2)
	// the lengths that are valid, and those around them
	lens := []int{0, 1, 3, 4, 4*n - 1, 4 * n, 4*n + 1, 4*n + 4, 8*n - 4, 8*n - 1, 8 * n, 8*n + 1, 8*n + 4, 12 * n}
	ans := make([][]byte, 2)
	for i := range ans {
		ans[i] = vp.Bytes("ans", lens[vp.Case("len", len(lens))])
	}
	var err error
	var res interface{}
	crashed, _ := vp.Caught(func() { res, err = c.ReconstructBytes(ans) })
	vp.Assert(!crashed, "a predicate client does not crash")
	_, ok := res.(uint32)
	vp.Assert(vp.Or(err != nil, ok), "a value or an error is returned")
	if len(ans[0])/4 != len(ans[1])/4 {
		vp.Assert(err != nil, "answers of different lengths give an error")
	}
	vp.Reach("end")
}
