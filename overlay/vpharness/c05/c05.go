// Package c05: function shares evaluate to the payload exactly on the hidden input.
package c05

import (
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpstub/aes"
	"github.com/si-co/vpir-code/vpstub/rand"
)

// concrete fixes randomness and cipher to some irregular functions, so that
// long inputs stay within reach; payloads stay arbitrary.
func concrete() {
	n := uint32(vp.Cfg("seed", 1))
	rand.Hook = func(p []byte) {
		for i := range p {
			n = n*1664525 + 1013904223
			p[i] = byte(n >> 24)
		}
	}
	aes.Hook = func(key, src []byte) []byte {
		h := uint64(14695981039346656037)
		for _, b := range key {
			h = (h ^ uint64(b)) * 1099511628211
		}
		for _, b := range src {
			h = (h ^ uint64(b)) * 1099511628211
		}
		out := make([]byte, aes.BlockSize)
		for i := range out {
			h ^= h >> 29
			h *= 0xbf58476d1ce4e5b9
			h ^= h >> 32
			out[i] = byte(h >> 17)
		}
		return out
	}
}


func bits(name string, n int) []bool {
	b := make([]bool, n)
	for i := range b {
		b[i] = vp.Bool(name)
	}
	return b
}

func payload(n int) []uint32 {
	b := make([]uint32, n)
	for i := range b {
		b[i] = uint32(vp.U64Max("b", uint64(field.ModP)-1))
	}
	return b
}

func eqBits(a, b []bool) bool {
	eq := true
	for i := range a {
		eq = vp.And(eq, a[i] == b[i])
	}
	return eq
}

func check(k []fss.FssKeyEq2P, s0, s1 *fss.Fss, a, x []bool, b []uint32) {
	out0 := make([]uint32, len(b))
	out1 := make([]uint32, len(b))
	s0.EvaluatePF(0, k[0], x, out0)
	s1.EvaluatePF(1, k[1], x, out1)
	eq := eqBits(a, x)
	ok := true
	for i := range b {
		sum := uint32((uint64(out0[i]) + uint64(out1[i])) % uint64(field.ModP))
		ok = vp.And(ok, vp.And(sum == vp.Ite32(eq, b[i], 0), (out0[i]+out1[i])%field.ModP == sum))
	}
	vp.Assert(ok, "shares add up to the payload exactly on the hidden input")
}

// VPShares: one key pair, every hidden input, point and payload.
func VPShares() {
	n := vp.Cfg("bits", 2)
	l := vp.Cfg("outs", 1)
	a := bits("a", n)
	b := payload(l)
	c := fss.ClientInitialize(l)
	k := c.GenerateTreePF(a, b)
	vp.Assert(len(k) == 2, "two keys")
	check(k, fss.ServerInitialize(l), fss.ServerInitialize(l), a, bits("x", n), b)
	vp.Reach("end")
}

// VPReuse: the same client and server objects serve two queries of different lengths.
func VPReuse() {
	l := vp.Cfg("outs", 1)
	c := fss.ClientInitialize(l)
	s0, s1 := fss.ServerInitialize(l), fss.ServerInitialize(l)
	for r := 0; r < 2; r++ {
		n := 1 + r*vp.Cfg("more", 1)
		if vp.Cfg("down", 0) == 1 {
			n = 1 + (1-r)*vp.Cfg("more", 1)
		}
		a := bits("a", n)
		b := payload(l)
		k := c.GenerateTreePF(a, b)
		check(k, s0, s1, a, bits("x", n), b)
	}
	vp.Reach("end")
}

// VPLong: long inputs; the hidden input is a fixed pattern whose last bit is
// arbitrary, the evaluation point is the hidden input or differs from it in
// one bit (one of the first, middle and last ones).
func VPLong() {
	n := vp.Cfg("bits", 8)
	l := vp.Cfg("outs", 1)
	concrete()
	a := make([]bool, n)
	for i := range a {
		a[i] = (i/3+i*i)%2 == 0
	}
	a[n-1] = vp.Case("last", 2) == 1
	x := append([]bool{}, a...)
	if f := vp.Case("flip", 6); f > 0 {
		p := []int{0, 1, n / 2, n - 2, n - 1}[f-1]
		x[p] = !x[p]
	}
	b := payload(l)
	c := fss.ClientInitialize(l)
	k := c.GenerateTreePF(a, b)
	check(k, fss.ServerInitialize(l), fss.ServerInitialize(l), a, x, b)
	rand.Hook, aes.Hook = nil, nil
	vp.Reach("end")
}
