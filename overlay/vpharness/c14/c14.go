// Package c14: the keys of a predicate query hide payload and hidden input.
//
// The block cipher is replaced by a table filled in the order of the calls of
// the key generation. For every correction value and each server the check
// looks for a bit of a block that this server cannot compute; the solver then
// decides that flipping this bit changes the correction value for every table,
// payload, hidden input and seed.
package c14

import (
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/vp"
	"github.com/si-co/vpir-code/vpstub/aes"
	"github.com/si-co/vpir-code/vpstub/rand"
)

// world fixes all the randomness of a key generation.
type world struct {
	seeds  []byte   // what crypto/rand hands out
	blocks [][]byte // what the cipher returns, by call
	srcs   [][]byte // what it was called on
	keys   [][]byte
}

// pattern is some fixed, irregular sequence of bytes.
func pattern(n int) byte { return byte((n*n*31+n*7+n/5)%251 + n%3) }

// xor: the tables hold what the code makes of the cipher's results (Matyas,
// Meyer and Oseas add the input), which keeps the terms small. As the results
// are arbitrary, this does not restrict them.
func xor(a, b []byte) []byte {
	out := make([]byte, len(a))
	for i := range out {
		out[i] = a[i] ^ b[i]
	}
	return out
}

// run generates keys in the world w, extending its tables by next.
func (w *world) run(l int, a []bool, b []uint32, next func(n int) []byte) []fss.FssKeyEq2P {
	w.srcs, w.keys = nil, nil
	pos := 0
	rand.Hook = func(p []byte) {
		if pos+len(p) > len(w.seeds) {
			w.seeds = append(w.seeds, next(pos+len(p)-len(w.seeds))...)
		}
		copy(p, w.seeds[pos:])
		pos += len(p)
	}
	aes.Hook = func(key, src []byte) []byte {
		i := len(w.srcs)
		w.srcs = append(w.srcs, append([]byte{}, src...))
		w.keys = append(w.keys, key)
		if i == len(w.blocks) {
			w.blocks = append(w.blocks, next(16))
		}
		return xor(w.blocks[i], src)
	}
	k := fss.ClientInitialize(l).GenerateTreePF(a, append([]uint32{}, b...))
	rand.Hook, aes.Hook = nil, nil
	return k
}

func (w *world) copy() *world {
	c := &world{seeds: append([]byte{}, w.seeds...)}
	for _, b := range w.blocks {
		c.blocks = append(c.blocks, append([]byte{}, b...))
	}
	return c
}

// computable marks the blocks that server p gets from its key on any input.
func (w *world) computable(p int, k fss.FssKeyEq2P, n, l int) []bool {
	known := make([]bool, len(w.blocks))
	for v := 0; v < 1<<uint(n); v++ {
		x := make([]bool, n)
		for i := range x {
			x[i] = v>>uint(i)&1 == 1
		}
		aes.Hook = func(key, src []byte) []byte {
			for i := range w.srcs {
				if string(src) == string(w.srcs[i]) && string(key) == string(w.keys[i]) {
					known[i] = true
					return xor(w.blocks[i], src)
				}
			}
			return make([]byte, 16)
		}
		out := make([]uint32, l)
		fss.ServerInitialize(l).EvaluatePF(byte(p), k, x, out)
		aes.Hook = nil
	}
	return known
}

// components lists the correction values in a key.
func components(k fss.FssKeyEq2P) []uint64 {
	var out []uint64
	for _, f := range k.FinalCW {
		out = append(out, uint64(f%field.ModP))
	}
	for _, cw := range k.CW {
		for _, b := range cw {
			out = append(out, uint64(b))
		}
	}
	return out
}

func element() uint32 { return uint32(vp.U64Max("b", uint64(field.ModP)-1)) }

// VPMasked: every correction value is masked for each of the servers.
func VPMasked() {
	n, l := vp.Cfg("bits", 1), vp.Cfg("outs", 1)
	a := make([]bool, n)
	for i := range a {
		a[i] = vp.Case("a", 2) == 1
	}
	// discovery, with fixed values
	fixed := &world{}
	count := 0
	next := func(k int) []byte {
		out := make([]byte, k)
		for i := range out {
			out[i] = pattern(count)
			count++
		}
		return out
	}
	zero := make([]uint32, l)
	for i := range zero {
		zero[i] = uint32(1000 + i)
	}
	base := fixed.run(l, a, zero, next)
	want := components(base[0])
	same := len(want) == len(components(base[1]))
	for i, v := range components(base[1]) {
		same = same && v == want[i]
	}
	vp.Assert(same, "both keys have the same correction values")
	vp.Assert(len(base[0].FinalCW) == l && len(base[0].CW) == n, "one value per payload element and one correction word per bit")
	// masks[p][c]: block and byte whose lowest bit masks component c from server p
	type place struct {
		block, at int
		delta     uint64 // what the bit adds, up to the sign
	}
	masks := make([][]place, 2)
	for p := range masks {
		known := fixed.computable(p, base[p], n, l)
		masks[p] = make([]place, len(want))
		for c := range masks[p] {
			masks[p][c].block = -1
		}
		for d := len(fixed.blocks) - 1; d >= 0; d-- {
			if known[d] {
				continue
			}
			for j := 15; j >= 0; j-- {
				w := fixed.copy()
				w.blocks[d][j] ^= 1
				got := components(w.run(l, a, zero, next)[p])
				// a mask of an element of the last word is for it alone
				hits := 0
				for c := 0; c < l; c++ {
					if got[c] != want[c] {
						hits++
					}
				}
				for c := range want {
					if got[c] != want[c] && masks[p][c].block < 0 && (c >= l || hits == 1) {
						masks[p][c] = place{d, j, (got[c] + uint64(field.ModP) - want[c]) % uint64(field.ModP)}
					}
				}
			}
		}
		for c := range want {
			vp.Assert(masks[p][c].block >= 0, "every correction value depends on pseudorandom output that the server cannot compute")
		}
		// every payload element has a mask of its own
		for c := 0; c < l; c++ {
			for e := 0; e < c; e++ {
				vp.Assert(masks[p][c] != masks[p][e], "the payload elements are masked independently")
			}
		}
	}

	// decision, for all values
	w := &world{}
	b := make([]uint32, l)
	for i := range b {
		b[i] = element()
	}
	fresh := func(k int) []byte { return vp.Bytes("world", k) }
	last := len(fixed.blocks)
	for p := range masks {
		for c := 0; c < l; c++ {
			if masks[p][c].block < last {
				last = masks[p][c].block
			}
		}
	}
	// the sign of the last word: the lowest bits before it are fixed, but for
	// the first control bit, which selects the sign
	even := func(k int) []byte {
		out := fresh(k)
		switch {
		case len(w.blocks) == 0 && len(w.seeds) == 0:
			sign := byte(vp.Case("sign", 2))
			for i := range out {
				out[i] = out[i]&0xfe | sign
			}
		case len(w.blocks) < last && len(w.srcs) > 0:
			for i := range out {
				out[i] = out[i]&0xfe | pattern(count)&1
				count++
			}
		}
		return out
	}
	if vp.Cfg("levels", 0) == 1 {
		even = fresh
	}
	k := w.run(l, a, b, even)
	for p := range masks {
		have := components(k[p])
		if vp.Cfg("levels", 0) == 0 {
			// the last word: all its masks at once
			clear, set := w.copy(), w.copy()
			for c := 0; c < l; c++ {
				m := masks[p][c]
				r := w.blocks[m.block][m.at] & 0xfe
				// no word of the mask is the modulus, which stands for zero
				vp.Assume(r != 0xfe)
				clear.blocks[m.block][m.at] = r
				set.blocks[m.block][m.at] = r | 1
			}
			v0 := components(clear.run(l, a, b, fresh)[p])
			v1 := components(set.run(l, a, b, fresh)[p])
			for c := 0; c < l; c++ {
				d := (v0[c] + uint64(field.ModP) - v1[c]) % uint64(field.ModP)
				vp.Assert(vp.Or(d == masks[p][c].delta, d == uint64(field.ModP)-masks[p][c].delta), "another mask gives other correction values for the payload")
			}

			continue
		}
		// the words of the levels
		for lv := 0; lv < n; lv++ {
			all := true
			for c := l + 18*lv; c < l+18*lv+18; c++ {
				g := w.copy()
				g.blocks[masks[p][c].block][masks[p][c].at] ^= 1
				all = vp.And(all, components(g.run(l, a, b, fresh)[p])[c] != have[c])
			}
			vp.Assert(all, "another mask gives another correction word")
		}
	}
	vp.Reach("end")
}

// VPSeeds: the two seeds are bytes of entropy, none of them used twice.
func VPSeeds() {
	n, l := vp.Cfg("bits", 2), vp.Cfg("outs", 1)
	a := make([]bool, n)
	for i := range a {
		a[i] = vp.Bool("a")
	}
	b := make([]uint32, l)
	for i := range b {
		b[i] = element()
	}
	w := &world{}
	fresh := func(k int) []byte { return vp.Bytes("world", k) }
	k := w.run(l, a, b, fresh)
	vp.Assert(len(k) == 2 && len(k[0].SInit) == 16 && len(k[1].SInit) == 16, "two seeds of a block each")
	// a world with other entropy gives other seeds: every byte of the seeds is
	// changed by exactly one byte of entropy
	used := make([]int, 32)
	for i := range w.seeds {
		o := w.copy()
		o.seeds[i] ^= 0x80
		k2 := o.run(l, a, b, fresh)
		hits := 0
		for p := 0; p < 2; p++ {
			for j := 0; j < 16; j++ {
				if vp.Decide(k2[p].SInit[j] != k[p].SInit[j]) {
					used[16*p+j]++
					hits++
				}
			}
		}
		vp.Assert(hits <= 1, "no byte of entropy is used twice")
	}
	for _, u := range used {
		vp.Assert(u == 1, "every byte of a seed is a byte of entropy")
	}
	vp.Assert(vp.And(k[0].TInit <= 1, k[1].TInit == 1-k[0].TInit), "the control bits differ")
	vp.Reach("end")
}
