// Package c02: the point query shares seen by all but one server are uniform.
package c02

import (
	"encoding/binary"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/vp"
)

// recorder hands out fresh arbitrary bytes and remembers them.
type recorder struct{ drawn []byte }

func (r *recorder) Read(p []byte) (int, error) {
	b := vp.Bytes("rnd", len(p))
	r.drawn = append(r.drawn, b...)
	copy(p, b)
	return len(p), nil
}

func info(rows, cols int) *database.Info {
	return &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1}
}

func query(c *client.PIR, idx, n int) [][]byte {
	if vp.Cfg("bytes", 0) == 1 {
		in := make([]byte, 4)
		binary.BigEndian.PutUint32(in, uint32(idx))
		q, err := c.QueryBytes(in, n)
		vp.Assert(err == nil, "query bytes")
		return q
	}
	return c.Query(idx, n)
}

// VPUniform: for every position and every server left out, the joint view of
// the others (over one or two queries of the same client) is an injective
// function of as many fresh random bits as the view has.
func VPUniform() {
	rows, cols, n := vp.Cfg("rows", 1), vp.Cfg("cols", 3), vp.Cfg("servers", 3)
	rounds := vp.Cfg("rounds", 1)
	out := vp.Case("missing", n)
	var idx [2]int
	for r := 0; r < rounds; r++ {
		idx[r] = vp.Case("idx", rows*cols)
	}
	run := func() (view, drawn []byte) {
		rec := &recorder{}
		c := client.NewPIR(rec, info(rows, cols))
		for r := 0; r < rounds; r++ {
			q := query(c, idx[r], n)
			vp.Assert(len(q) == n, "one share per server")
			for k := range q {
				vp.Assert(len(q[k]) >= (cols+7)/8, "one bit per column")
				if k != out {
					view = append(view, q[k]...)
				}
			}
		}
		return view, rec.drawn
	}
	v0, r0 := run()
	v1, r1 := run()
	vp.Assert(len(r0) == len(v0) && len(r1) == len(v1), "as many random bits as view bits")
	vp.Assert(vp.Implies(vp.EqBytes(v0, v1), vp.EqBytes(r0, r1)), "distinct randomness gives distinct views")
	vp.Reach("end")
}

// VPShape: the length of the shares is the same for every position.
func VPShape() {
	rows, cols, n := vp.Cfg("rows", 2), vp.Cfg("cols", 9), vp.Cfg("servers", 3)
	i := int(vp.U64Max("i", uint64(rows*cols-1)))
	j := int(vp.U64Max("j", uint64(rows*cols-1)))
	rec := &recorder{}
	c := client.NewPIR(rec, info(rows, cols))
	q0 := query(c, int(vp.Conc(uint64(i))), n)
	q1 := query(c, int(vp.Conc(uint64(j))), n)
	for k := range q0 {
		vp.Assert(len(q0[k]) == len(q1[k]), "share lengths do not depend on the position")
	}
	vp.Reach("end")
}

// VPRefuse: a negative position or fewer than two servers produces no query.
func VPRefuse() {
	idx := int(vp.I64("idx"))
	n := int(vp.I64("n"))
	vp.Assume(n <= 4 && idx < 6)
	vp.Assume(vp.Or(idx < 0, n < 2))
	c := client.NewPIR(&recorder{}, info(2, 3))
	var q [][]byte
	refused, val := vp.Caught(func() { q = c.Query(idx, n) })
	vp.Assert(refused && q == nil, "unsafe requests are refused")
	_, exit := val.(vp.Exit)
	vp.Assert(exit, "refused by the program, not by a crash")
	vp.Reach("end")
}
