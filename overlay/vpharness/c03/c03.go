// Package c03: authenticated retrieval accepts only the record stored at the queried position.
package c03

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/vp"
)

type prg struct{ name string }

func (r prg) Read(p []byte) (int, error) {
	copy(p, vp.Bytes(r.name, len(p)))
	return len(p), nil
}

// VPHonest: every database of fixed-size records made by CreateRandomMerkle is
// accepted and gives back the records.
func VPHonest() {
	rows, cols, bl := vp.Cfg("rows", 1), vp.Cfg("cols", 3), vp.Cfg("len", 2)
	n := vp.Cfg("servers", 3)
	idx := vp.Case("idx", rows*cols)
	db := database.CreateRandomMerkle(prg{"rec"}, rows*cols*bl*8, rows, bl)
	vp.Assert(db.NumRows == rows && db.NumColumns == cols, "dimensions")
	// the contents, in the order of the positions
	want := append([]byte(nil), db.Entries[idx*db.BlockSize:idx*db.BlockSize+bl]...)
	if vp.Cfg("repeat", 0) == 1 {
		other := vp.Case("same", rows*cols)
		vp.Assume(vp.EqBytes(want, db.Entries[other*db.BlockSize:other*db.BlockSize+bl]))
	}
	c := client.NewPIR(prg{"rnd"}, &db.Info)
	queries := c.Query(idx, n)
	var answers [][]byte
	for i := 0; i < n; i++ {
		s := server.NewPIR(db)
		if n == 2 {
			s = server.NewPIRTwo(db)
		}
		answers = append(answers, s.Answer(queries[i]))
	}
	res, err := c.ReconstructBytes(answers)
	vp.Assert(err == nil, "honest answers are accepted")
	vp.Assert(vp.EqBytes(res.([]byte), want), "the stored record is returned")
	vp.Reach("end")
}

// records of lengths chosen up to max
func records(n, max int) [][]byte {
	recs := make([][]byte, n)
	for i := range recs {
		l := max
		if vp.Cfg("varlen", 0) == 1 {
			l = vp.Case("len", max+1)
		}
		recs[i] = vp.Bytes("rec", l)
	}
	return recs
}

// VPForge: a client with the honest root, arbitrary answers.
func VPForge() {
	rows, cols, max := vp.Cfg("rows", 1), vp.Cfg("cols", 3), vp.Cfg("len", 1)
	n := vp.Cfg("servers", 2)
	recs := records(rows*cols, max)
	tree, err := merkle.New(recs)
	vp.Assert(err == nil, "tree")
	bs := max + tree.EncodedProofLength() + 1
	info := &database.Info{
		NumRows: rows, NumColumns: cols, BlockSize: bs, PIRType: "merkle",
		Merkle: &database.Merkle{Root: tree.Root(), ProofLen: tree.EncodedProofLength()},
	}
	c := client.NewPIR(prg{"rnd"}, info)
	idx := vp.Case("idx", rows*cols)
	c.Query(idx, n)
	answers := make([][]byte, n)
	for i := range answers {
		answers[i] = make([]byte, rows*bs)
	}
	// what the answers sum up to in the queried row: arbitrary bytes, the last
	// non-zero one of them at every position
	var last int
	if vp.Cfg("anyend", 0) == 1 {
		last = vp.Case("last", bs+1) - 1
	} else {
		last = bs - 1 - vp.Case("last", max+3)
	}
	row := (idx / cols) * bs
	if last >= 0 {
		copy(answers[0][row:], vp.Bytes("ans", last+1))
		vp.Assume(answers[0][row+last] != 0)
	}
	if rows > 1 {
		other := (rows - 1 - idx/cols) * bs
		copy(answers[0][other:], vp.Bytes("other", bs))
	}
	res, err := c.Reconstruct(answers)
	if err == nil {
		vp.Assert(vp.EqBytes(res, recs[idx]), "only the record at the queried position is accepted")
		vp.Reach("accepted")
	} else {
		vp.Reach("rejected")
	}
}
