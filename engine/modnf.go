package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// Residues: terms produced by Urem with a constant modulus remember what they
// are the remainder of, and two residues are equal when what they are
// remainders of agree as polynomials modulo that modulus.

var resDbg = os.Getenv("VP_RES") != ""

type residue struct {
	of *Term
	m  *big.Int
}

// narrow drops leading zeros.
func (tm *TM) narrow(t *Term) *Term {
	for t.op == OpConcat && t.args[0].isZero() {
		t = tm.Extract(t, t.w-t.args[0].w-1, 0)
	}
	return t
}

// noteResidue records that r is the remainder of a.
func (tm *TM) noteResidue(r, a *Term, m *big.Int) {
	r = tm.narrow(r)
	if !r.isC() && r != tm.narrow(a) {
		tm.resM[r] = &residue{a, m}
	}
}

// poly maps products of atoms (ids in increasing order, comma separated) to
// coefficients in [0,m).
type poly map[string]*big.Int

const polyLim = 400

func (tm *TM) residueOf(t *Term) (*residue, *Term) {
	t = tm.narrow(t)
	return tm.resM[t], t
}

// sameResidue tells that a and b are the same number: both below a modulus
// and congruent.
func (tm *TM) sameResidue(a, b *Term) bool {
	if a.w < 8 {
		return false
	}
	r, _ := tm.residueOf(a)
	if r == nil {
		if r, _ = tm.residueOf(b); r == nil {
			return false
		}
	}
	if tm.UB(a).Cmp(r.m) >= 0 || tm.UB(b).Cmp(r.m) >= 0 {
		if resDbg {
			fmt.Fprintf(os.Stderr, "residue bound %v %v %v %s\n   %s\n", tm.UB(a), tm.UB(b), r.m, termStr(a, 6), termStr(b, 6))
		}
		return false
	}
	memo := tm.polyMemo(r.m)
	pa := tm.polyOf(a, r.m, memo)
	pb := tm.polyOf(b, r.m, memo)
	if resDbg {
		fmt.Fprintf(os.Stderr, "residues\n   %v\n   %v\n  %s\n  %s\n", pa, pb, termStr(a, 12), termStr(b, 12))
	}
	if pa == nil || pb == nil || len(pa) != len(pb) {
		return false
	}
	for k, v := range pa {
		if w := pb[k]; w == nil || w.Cmp(v) != 0 {
			return false
		}
	}
	return true
}

func (tm *TM) polyMemo(m *big.Int) map[*Term]poly {
	k := m.String()
	if tm.polyM[k] == nil {
		tm.polyM[k] = map[*Term]poly{}
	}
	return tm.polyM[k]
}

func polyConst(c, m *big.Int) poly {
	c = new(big.Int).Mod(c, m)
	if c.Sign() == 0 {
		return poly{}
	}
	return poly{"": c}
}

func polyAdd(p, q poly, k, m *big.Int) {
	for t, c := range q {
		v := new(big.Int).Mul(c, k)
		if o := p[t]; o != nil {
			v.Add(v, o)
		}
		v.Mod(v, m)
		if v.Sign() == 0 {
			delete(p, t)
		} else {
			p[t] = v
		}
	}
}

func polyMul(p, q poly, m *big.Int) poly {
	if len(p)*len(q) > polyLim {
		return nil
	}
	out := poly{}
	for a, x := range p {
		for b, y := range q {
			var ids []string
			if a != "" {
				ids = strings.Split(a, ",")
			}
			if b != "" {
				ids = append(ids, strings.Split(b, ",")...)
			}
			sort.Strings(ids)
			var u []string
			for i, id := range ids {
				// bits are idempotent
				if i > 0 && id == ids[i-1] && id[0] == 'b' {
					continue
				}
				u = append(u, id)
			}
			polyAdd(out, poly{strings.Join(u, ","): x}, y, m)
		}
	}
	return out
}

// polyOf returns a polynomial congruent to the number t modulo m, nil when it
// grows too large.
func (tm *TM) polyOf(t *Term, m *big.Int, memo map[*Term]poly) poly {
	if p, ok := memo[t]; ok {
		return p
	}
	p := tm.polyOf0(t, m, memo)
	if len(p) > polyLim {
		p = nil
	}
	memo[t] = p
	return p
}

func (tm *TM) bitPoly(c *Term, m *big.Int) poly {
	if c.isC() {
		return polyConst(c.bigv(), m)
	}
	n := tm.Not(c)
	if n.id < c.id {
		p := polyConst(bigOne, m)
		polyAdd(p, poly{fmt.Sprintf("b%d", n.id): bigOne}, big.NewInt(-1), m)
		return p
	}
	return poly{fmt.Sprintf("b%d", c.id): bigOne}
}

func (tm *TM) polyOf0(t *Term, m *big.Int, memo map[*Term]poly) poly {
	if r := tm.resM[t]; r != nil && r.m.Cmp(m) == 0 {
		return tm.polyOf(r.of, m, memo)
	}
	atom := poly{fmt.Sprintf("a%d", t.id): bigOne}
	switch t.op {
	case OpConst:
		return polyConst(t.bigv(), m)
	case OpConcat:
		if n := tm.narrow(t); n != t {
			return tm.polyOf(n, m, memo)
		}
		if w := tm.wholeWord(t, m); w != nil {
			return tm.polyOf(w, m, memo)
		}
		if z := t.args[len(t.args)-1]; z.isC() && z.w < t.w {
			// hi*2^k + z
			hi := tm.polyOf(tm.Extract(t, t.w-1, z.w), m, memo)
			if hi == nil {
				return nil
			}
			p := polyConst(z.bigv(), m)
			polyAdd(p, hi, new(big.Int).Lsh(bigOne, uint(z.w)), m)
			return p
		}
	case OpIte:
		a, b := tm.polyOf(t.args[1], m, memo), tm.polyOf(t.args[2], m, memo)
		if a == nil || b == nil {
			return nil
		}
		// b + c*(a-b)
		d := poly{}
		polyAdd(d, a, bigOne, m)
		polyAdd(d, b, big.NewInt(-1), m)
		if len(d) == 0 {
			return b
		}
		d = polyMul(d, tm.bitPoly(t.args[0], m), m)
		if d == nil {
			return nil
		}
		polyAdd(d, b, bigOne, m)
		return d
	case OpSum:
		// exact when it does not wrap around
		mod := new(big.Int).Lsh(bigOne, uint(t.w))
		half := new(big.Int).Rsh(mod, 1)
		try := func(k *big.Int) poly {
			lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
			p := polyConst(k, m)
			for i, a := range t.args {
				c := tm.coef(t, i)
				if c.Cmp(half) >= 0 {
					c = new(big.Int).Sub(c, mod)
				}
				x, y := new(big.Int).Mul(c, tm.LB(a)), new(big.Int).Mul(c, tm.UB(a))
				if x.Cmp(y) > 0 {
					x, y = y, x
				}
				lo.Add(lo, x)
				hi.Add(hi, y)
				q := tm.polyOf(a, m, memo)
				if q == nil {
					return nil
				}
				polyAdd(p, q, c, m)
			}
			if lo.Sign() < 0 || hi.Cmp(mod) >= 0 {
				return atom
			}
			return p
		}
		k := tm.sumK(t)
		p := try(k)
		if _, ok := p[fmt.Sprintf("a%d", t.id)]; ok && k.Cmp(half) >= 0 {
			p = try(new(big.Int).Sub(k, mod))
		}
		return p
	case OpMul:
		u := big.NewInt(1)
		for _, a := range t.args {
			u.Mul(u, tm.UB(a))
		}
		if u.Cmp(bigMask(t.w)) <= 0 {
			p := polyConst(bigOne, m)
			for _, a := range t.args {
				q := tm.polyOf(a, m, memo)
				if q == nil || p == nil {
					return nil
				}
				p = polyMul(p, q, m)
			}
			return p
		}
	}
	if t.w == 1 {
		return tm.bitPoly(t, m)
	}
	if resDbg {
		fmt.Fprintf(os.Stderr, "atom %d %s\n", t.id, termStr(t, 5))
	}
	return atom
}

// wholeWord returns x if t is "0 if x is the modulus, else x" with the choice
// distributed over the parts of x.
func (tm *TM) wholeWord(t *Term, m *big.Int) *Term {
	var c *Term
	for _, a := range t.args {
		if a.op == OpIte && a.args[1].isZero() {
			c = a.args[0]
			break
		}
	}
	if c == nil {
		return nil
	}
	n := tm.Not(c)
	parts := make([]*Term, len(t.args))
	for i, a := range t.args {
		switch {
		case a.op == OpIte && a.args[0] == c && a.args[1].isZero():
			parts[i] = a.args[2]
		case a == n:
			parts[i] = tm.C(1, 1)
		case a.isZero():
			parts[i] = a
		default:
			return nil
		}
	}
	x := tm.Concat(parts...)
	if m.BitLen() > x.w || tm.Eq(x, tm.CB(x.w, m)) != c {
		return nil
	}
	return x
}
