// Package c15: the order in which answers arrive does not matter. (The
// programs' dispatching is checked in vpmirror/grpcclient, manager, simclient.)
package c15

import (
	"io"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/vp"
)

type prg struct{ name string }

func (r prg) Read(p []byte) (int, error) {
	copy(p, vp.Bytes(r.name, len(p)))
	return len(p), nil
}

// fixed gives the same pattern of bytes everywhere (for the secret tag keys,
// whose values do not concern the order).
type fixed struct{}

func (fixed) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(37*i + 11)
	}
	return len(p), nil
}

// permuted returns the answers in a chosen order.
func permuted(a [][]byte) [][]byte {
	rest := append([][]byte{}, a...)
	var out [][]byte
	for len(rest) > 0 {
		k := vp.Case("order", len(rest))
		out = append(out, rest[k])
		rest = append(append([][]byte{}, rest[:k]...), rest[k+1:]...)
	}
	return out
}

// copies: a client may write to the answers it is given.
func copies(a [][]byte) [][]byte {
	out := make([][]byte, len(a))
	for i := range a {
		out[i] = append([]byte{}, a[i]...)
	}
	return out
}

// VPOrder: whatever the servers answer, all orders of the answers give the
// same result.
func VPOrder() {
	n, rows := vp.Cfg("servers", 2), 2
	var c client.Client
	size := 0
	switch vp.Cfg("scheme", 0) {
	case 0:
		info := &database.Info{NumRows: rows, NumColumns: 3, BlockSize: 4, PIRType: "classical", Merkle: &database.Merkle{}}
		p := client.NewPIR(prg{"rnd"}, info)
		p.Query(vp.Case("idx", rows*3), n)
		c, size = p, rows*4
	case 1, 2:
		// predicate schemes, counts and averages
		in := &query.ClientFSS{Info: &query.Info{}, Input: []bool{true}}
		size = 4 * (1 + vp.Cfg("avg", 0))
		if vp.Cfg("scheme", 0) == 1 {
			p := client.NewPredicatePIR(prg{"rnd"}, &database.Info{})
			p.Query(in, n)
			c = p
		} else {
			var rnd io.Reader = fixed{}
			if vp.Cfg("keys", 0) == 1 {
				rnd = prg{"rnd"}
			}
			p := client.NewPredicateAPIR(rnd, &database.Info{})
			p.Query(in, n)
			c, size = p, size*5
		}
	}
	answers := make([][]byte, n)
	for i := range answers {
		answers[i] = vp.Bytes("answer", size)
	}
	r1, err1 := c.ReconstructBytes(copies(answers))
	r2, err2 := c.ReconstructBytes(copies(permuted(answers)))
	vp.Assert((err1 == nil) == (err2 == nil), "an answer is accepted in every order or in none")
	if err1 != nil {
		vp.Reach("rejected")
		return
	}
	switch a := r1.(type) {
	case []byte:
		b, ok := r2.([]byte)
		vp.Assert(ok && len(a) == len(b), "the same kind of result")
		vp.Assert(vp.EqBytes(a, b), "the same result")
	case uint32:
		b, ok := r2.(uint32)
		vp.Assert(ok, "the same kind of result")
		vp.Assert(a == b, "the same result")
	default:
		vp.Assert(false, "a known kind of result")
	}
	vp.Reach("accepted")
}
