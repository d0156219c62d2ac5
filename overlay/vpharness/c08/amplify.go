package c08

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/vp"
	mrand "github.com/si-co/vpir-code/vpstub/mrand"
)

// VPAmplify: honest answers of the amplified scheme give back the stored bit.
func VPAmplify() {
	r, c, t := vp.Cfg("r", 1), vp.Cfg("c", 2), vp.Cfg("t", 1)
	p := params(r, c)
	d, db := db32(p, r, c)
	tp := &tape{word: 4, far: 2 * uint64(p.B)}
	cl := client.NewAmplify(tp, &db.Info, p, t)
	s := server.NewAmplify(db)
	for q := 0; q < vp.Cfg("queries", 1); q++ {
		from := len(mrand.Draws)
		pos := vp.Case("pos", r*c)
		qb, err := cl.QueryBytes(pos)
		vp.Assert(err == nil, "a query is produced")
		ab, err := s.AnswerBytes(qb)
		vp.Assert(err == nil, "an honest query is answered")
		for k := 0; k <= 2*t; k++ {
			noise(from+k*r, d, r, c, p.B, false)
		}
		v, err := cl.ReconstructBytes(ab)
		vp.Assert(err == nil, "honest answers are accepted")
		vp.Assert(v == uint32(d[pos]), "the stored bit")
		vp.Reach("end")
	}
}

// VPAmplifyVerify: the majority of the repetitions is returned, and nothing if
// one of them is rejected.
func VPAmplifyVerify() {
	r, c, t := vp.Cfg("r", 2), vp.Cfg("c", 1), vp.Cfg("t", 1)
	n := 2*t + 1
	p := params(r, c)
	d, db := db32(p, r, c)
	tp := &tape{word: 4, far: 2 * uint64(p.B)}
	i, j := vp.Case("row", r), vp.Case("col", c)
	q2 := client.NewAmplify(tp, &db.Info, p, t).Query((i+1)%r, j)
	tp.pos = 0
	cl := client.NewAmplify(tp, &db.Info, p, t)
	q := cl.Query(i, j)
	vp.Assert(len(q) == n && len(q2) == n, "one query per repetition")
	noise(0, d, r, c, p.B, true)
	ans := server.NewAmplify(db).Answer(q)
	vp.Assert(len(ans) == n, "one answer per repetition")
	bad := vp.Case("bad", n+1) // the answer to change, if any
	all := true
	ones := uint32(0)
	for k := 0; k < n; k++ {
		scalar := q[k].Get(0, i) - q2[k].Get(0, i)
		bit := uint32(d[i*c+j])
		for l := 0; l < c; l++ {
			if k != bad && vp.Cfg("allbad", 0) == 0 {
				continue
			}
			delta := vp.U32("delta")
			ans[k].Set(0, l, ans[k].Get(0, l)+delta)
			v := delta
			if d[i*c+l] == 1 {
				v += scalar
			}
			near0 := vp.Or(v < p.B, v > -p.B)
			near1 := vp.Or(v-scalar < p.B, v-scalar > -p.B)
			all = vp.And(all, vp.Or(near0, near1))
			if l == j {
				bit = vp.Ite32(near0, 0, 1)
			}
		}
		ones += bit
	}
	v, err := cl.Reconstruct(ans)
	ok := err == nil
	vp.Assert(ok == all, "rejected exactly when a repetition is")
	vp.Assert(vp.Implies(ok, v == vp.Ite32(ones > uint32(t), 1, 0)), "the majority of the repetitions")
	vp.Reach("end")
}

// VPAmplifyCount: answers to another number of repetitions are rejected.
func VPAmplifyCount() {
	p := params(1, 1)
	d, db := db32(p, 1, 1)
	tp := &tape{word: 4, far: 2 * uint64(p.B)}
	cl := client.NewAmplify(tp, &db.Info, p, 1)
	q := cl.Query(0, 0)
	for k := range q {
		noise(k, d, 1, 1, p.B, false)
	}
	ans := server.NewAmplify(db).Answer(q)
	n := vp.Case("n", 5)
	if n == len(q) {
		return
	}
	some := []*matrix.Matrix{}
	for k := 0; k < n; k++ {
		some = append(some, ans[k%len(ans)])
	}
	_, err := cl.Reconstruct(some)
	vp.Assert(err != nil, "another number of answers is rejected")
	vp.Reach("end")
}
