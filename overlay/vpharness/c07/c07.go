// Package c07: authenticated predicate answers are accepted exactly when every tag matches.
package c07

import (
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/vp"
)

const tags = field.ConcurrentExecutions

// tape is the client's randomness; keys are the field elements it draws.
type tape struct {
	b []byte
}

func (t *tape) Read(p []byte) (int, error) {
	q := vp.Bytes("rnd", len(p))
	// a draw of the modulus would be repeated (see C12)
	for i := 0; i+4 <= len(q); i += 4 {
		vp.Assume(word(q[i:]) != field.ModP)
	}
	copy(p, q)
	t.b = append(t.b, q...)
	return len(p), nil
}

func word(b []byte) uint32 {
	return uint32(b[0]&0x7f)<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// keys returns the secret keys drawn since the tape was last looked at.
func (t *tape) keys() []uint64 {
	var out []uint64
	for len(t.b) >= 4 {
		out = append(out, uint64(word(t.b)))
		t.b = t.b[4:]
	}
	vp.Assert(len(out) == tags && len(t.b) == 0, "one key per tag is drawn for every query")
	return out
}

func element() uint32 { return uint32(vp.U64Max("ans", uint64(field.ModP)-1)) }

func q(avg bool) *query.ClientFSS {
	return &query.ClientFSS{Info: &query.Info{Target: query.UserId, FromStart: 1, And: avg, Avg: avg}, Input: []bool{vp.Bool("in")}}
}

func sum(a, b uint32) uint64 { return (uint64(a) + uint64(b)) % uint64(field.ModP) }

// VPTags: arbitrary field elements as answers.
func VPTags() {
	avg := vp.Cfg("avg", 0) == 1
	t := &tape{}
	c := client.NewPredicateAPIR(t, &database.Info{NumColumns: 3})
	for round := 0; round <= vp.Cfg("again", 0); round++ {
		c.Query(q(avg), 2)
		alphas := t.keys()
		n := 1 + tags
		if avg {
			n *= 2
		}
		ans := [][]uint32{make([]uint32, n), make([]uint32, n)}
		for i := 0; i < n; i++ {
			ans[0][i], ans[1][i] = element(), element()
		}
		want := true
		for at := 0; at < n; at += 1 + tags {
			v := sum(ans[0][at], ans[1][at])
			for i, k := range alphas {
				want = vp.And(want, sum(ans[0][at+1+i], ans[1][at+1+i]) == v*k%uint64(field.ModP))
			}
		}
		count := sum(ans[0][0], ans[1][0])
		value := count
		if avg {
			want = vp.And(want, count != 0)
			if count != 0 {
				value = sum(ans[0][1+tags], ans[1][1+tags]) / count
			}
		}
		var res uint32
		var err error
		if vp.Cfg("bytes", 0) == 1 {
			var x interface{}
			x, err = c.ReconstructBytes([][]byte{utils.Uint32SliceToByteSlice(ans[0]), utils.Uint32SliceToByteSlice(ans[1])})
			res, _ = x.(uint32)
		} else {
			res, err = c.Reconstruct(ans)
		}
		if err == nil {
			vp.Assert(want, "an answer is accepted only if every tag matches")
			vp.Assert(uint64(res) == value, "the reconstructed value is returned")
			vp.Reach("accepted")
		} else {
			vp.Assert(!want, "an answer is rejected only if a tag does not match")
			vp.Reach("rejected")
		}
	}
}

// VPKeys: the shares carry exactly the keys drawn for this query.
func VPKeys() {
	t := &tape{}
	c := client.NewPredicateAPIR(t, &database.Info{NumColumns: 3})
	for round := 0; round < 2; round++ {
		cq := q(false)
		qs := c.Query(cq, 2)
		alphas := t.keys()
		if round == 0 && vp.Cfg("both", 0) == 0 {
			continue
		}
		o0, o1 := make([]uint32, 1+tags), make([]uint32, 1+tags)
		fss.ServerInitialize(1+tags).EvaluatePF(0, qs[0].FssKey, cq.Input, o0)
		fss.ServerInitialize(1+tags).EvaluatePF(1, qs[1].FssKey, cq.Input, o1)
		ok := sum(o0[0], o1[0]) == 1
		for i, k := range alphas {
			ok = vp.And(ok, sum(o0[1+i], o1[1+i]) == k)
		}
		vp.Assert(ok, "the payload is one and the keys drawn for this query")
	}
	vp.Reach("end")
}
