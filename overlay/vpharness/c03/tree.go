package c03

import (
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/vp"
)

// VPTree: every proof of the tree verifies for its record and position, also
// after encoding and decoding it.
func VPTree() {
	n := vp.Cfg("records", 3)
	recs := records(n, vp.Cfg("len", 1))
	tree, err := merkle.New(recs)
	vp.Assert(err == nil, "tree")
	i := vp.Case("idx", n)
	p, err := tree.GenerateProofAt(uint32(i))
	vp.Assert(err == nil && int(p.Index) == i, "proof")
	e := merkle.EncodeProof(p)
	vp.Assert(len(e) == tree.EncodedProofLength(), "encoded length")
	d := merkle.DecodeProof(e)
	vp.Assert(d != nil && d.Index == p.Index && len(d.Hashes) == len(p.Hashes), "decoded proof")
	for k := range d.Hashes {
		vp.Assert(vp.EqBytes(d.Hashes[k], p.Hashes[k]), "decoded hashes")
	}
	ok, err := merkle.VerifyProof(recs[i], d, tree.Root())
	vp.Assert(ok && err == nil, "honest proofs verify")
	vp.Reach("end")
}
