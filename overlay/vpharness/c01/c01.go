// Package c01: point retrieval returns exactly the stored record.
package c01

import (
	"encoding/binary"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/vp"
)

type prg struct{}

func (prg) Read(p []byte) (int, error) {
	copy(p, vp.Bytes("rnd", len(p)))
	return len(p), nil
}

// makeDB is a database of arbitrary contents: lens 0 means full records, 1
// arbitrary record lengths, 2 a fixed pattern of lengths starting with an empty record.
func makeDB(rows, cols, bs, lens int) (*database.Bytes, [][]byte) {
	db := database.InitBytes(rows, cols, bs)
	recs := make([][]byte, rows*cols)
	for i := range recs {
		l := bs
		switch lens {
		case 1:
			l = vp.Case("len", bs+1)
		case 2:
			l = i % (bs + 1)
		}
		recs[i] = vp.Bytes("rec", l)
		db.Entries = append(db.Entries, recs[i]...)
		db.BlockLengths[i] = l
	}
	return db, recs
}

func newServer(db *database.Bytes, n int) *server.PIR {
	if n == 2 {
		return server.NewPIRTwo(db)
	}
	return server.NewPIR(db)
}

// VPPoint: every index, content and randomness. bytes=1 uses the byte-encoded entry points.
func VPPoint() {
	rows, cols, bs := vp.Cfg("rows", 1), vp.Cfg("cols", 3), vp.Cfg("bs", 2)
	n := vp.Cfg("servers", 2)
	db, recs := makeDB(rows, cols, bs, vp.Cfg("lens", 0))
	c := client.NewPIR(prg{}, &db.Info)
	var idx int
	if f := vp.Cfg("fixidx", 0); f > 0 {
		idx = []int{0, f, rows*cols - 1}[vp.Case("idx", 3)]
	} else {
		idx = vp.Case("idx", rows*cols)
	}
	for round := 0; round < 1+vp.Cfg("again", 0); round++ {
		if round == 1 {
			idx = vp.Case("idx", rows*cols)
		}
		var queries, answers [][]byte
		var err error
		if vp.Cfg("bytes", 0) == 1 {
			in := make([]byte, 4)
			binary.BigEndian.PutUint32(in, uint32(idx))
			queries, err = c.QueryBytes(in, n)
			vp.Assert(err == nil, "query bytes")
		} else {
			queries = c.Query(idx, n)
		}
		vp.Assert(len(queries) == n, "one query per server")
		for i := 0; i < n; i++ {
			s := newServer(db, n)
			var a []byte
			if vp.Cfg("bytes", 0) == 1 {
				a, err = s.AnswerBytes(queries[i])
				vp.Assert(err == nil, "answer bytes")
			} else {
				a = s.Answer(queries[i])
			}
			answers = append(answers, a)
		}
		var res []byte
		if vp.Cfg("bytes", 0) == 1 {
			r, err := c.ReconstructBytes(answers)
			vp.Assert(err == nil, "honest answers are reconstructed")
			res = r.([]byte)
		} else {
			res, err = c.Reconstruct(answers)
			vp.Assert(err == nil, "honest answers are reconstructed")
		}
		want := make([]byte, bs)
		copy(want, recs[idx])
		vp.Assert(len(res) == bs, "block size")
		vp.Assert(vp.EqBytes(res, want), "the stored record is returned")
	}
	vp.Reach("end")
}

// VPRandomDB: the databases made by CreateRandomBytes store record i at bytes i*bs on.
func VPRandomDB() {
	rows, cols, bs := vp.Cfg("rows", 2), vp.Cfg("cols", 2), vp.Cfg("bs", 2)
	n := vp.Cfg("servers", 2)
	db := database.CreateRandomBytes(prg{}, rows*cols*bs*8, rows, bs)
	vp.Assert(db.NumRows == rows && db.NumColumns == cols && db.BlockSize == bs, "dimensions")
	vp.Assert(len(db.Entries) == rows*cols*bs && len(db.BlockLengths) == rows*cols, "sizes")
	c := client.NewPIR(prg{}, &db.Info)
	idx := vp.Case("idx", rows*cols)
	queries := c.Query(idx, n)
	var answers [][]byte
	for i := 0; i < n; i++ {
		answers = append(answers, newServer(db, n).Answer(queries[i]))
	}
	res, err := c.Reconstruct(answers)
	vp.Assert(err == nil, "honest answers are reconstructed")
	vp.Assert(vp.EqBytes(res, db.Entries[idx*bs:(idx+1)*bs]), "the stored record is returned")
	vp.Reach("end")
}
