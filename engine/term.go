package main

// Bit-vector terms: hash-consed, simplified on construction.
// Booleans are 1-bit vectors.

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // width 1 only: complement
	OpAnd // width 1: n-ary conjunction; wider: binary bitwise and
	OpOr  // wider than 1 only, binary
	OpXor // n-ary, monomials, constant last
	OpIte // cond, a, b
	OpEq  // a, b -> 1 bit
	OpUlt // a < b
	OpSlt // a < b
	OpSum // n-ary sum with coefficients (ks), constant term in k
	OpMul // n-ary product of non-constant factors
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpShl
	OpLshr
	OpAshr
	OpConcat // msb first
	OpExtract
	OpSext
	OpUF
	OpFloat // float operation: opaque
)

type Term struct {
	op   Op
	w    int
	args []*Term
	ks   []uint64   // coefficients of OpSum (w<=64)
	kb   []*big.Int // coefficients of OpSum (w>64)
	k    uint64     // constant (w<=64), extract lo, sum constant (w<=64)
	big  *big.Int   // constant (w>64), sum constant (w>64)
	name string
	id   int
	hash uint64
	ub   *big.Int // cached upper bound
	lb   *big.Int
	vmax *big.Int // variable bound
	dep  *Term
}

type TM struct {
	varM        map[*Term][]*Term
	tab         map[uint64][]*Term
	n           int
	ite2        map[[3]int]*Term
	xorM        map[[2]int]*Term
	eqM         map[[2]int]*Term
	remM        map[[2]int]*Term
	resM        map[*Term]*residue
	polyM       map[string]map[*Term]poly
	extM        map[[3]int]*Term
	absM        map[*Term]bool
	vars        []*Term
	ufs         map[string]*UFDecl
	opaqueLimit int
}

type UFDecl struct {
	name      string
	argW      []int
	w         int
	apps      []*Term
	injective bool
}

func NewTM() *TM {
	return &TM{tab: map[uint64][]*Term{}, ite2: map[[3]int]*Term{}, xorM: map[[2]int]*Term{}, eqM: map[[2]int]*Term{}, remM: map[[2]int]*Term{}, resM: map[*Term]*residue{}, polyM: map[string]map[*Term]poly{}, extM: map[[3]int]*Term{}, ufs: map[string]*UFDecl{}, absM: map[*Term]bool{}, opaqueLimit: 6}
}

func mask64(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var bigOne = big.NewInt(1)

func bigMask(w int) *big.Int {
	m := new(big.Int).Lsh(bigOne, uint(w))
	return m.Sub(m, bigOne)
}

func hmix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (tm *TM) intern(t *Term) *Term {
	h := hmix(uint64(t.op)*1315423911+uint64(t.w), t.k)
	for _, a := range t.args {
		h = hmix(h, uint64(a.id)+1)
	}
	for _, a := range t.ks {
		h = hmix(h, a+3)
	}
	for _, a := range t.kb {
		h = hmix(h, bigLow(a))
	}
	if t.big != nil {
		h = hmix(h, bigLow(t.big))
	}
	for i := 0; i < len(t.name); i++ {
		h = hmix(h, uint64(t.name[i]))
	}
	t.hash = h
outer:
	for _, o := range tm.tab[h] {
		if o.op != t.op || o.w != t.w || o.k != t.k || len(o.args) != len(t.args) || o.name != t.name || len(o.ks) != len(t.ks) || len(o.kb) != len(t.kb) {
			continue
		}
		for i := range o.args {
			if o.args[i] != t.args[i] {
				continue outer
			}
		}
		for i := range o.ks {
			if o.ks[i] != t.ks[i] {
				continue outer
			}
		}
		for i := range o.kb {
			if o.kb[i].Cmp(t.kb[i]) != 0 {
				continue outer
			}
		}
		if (o.big == nil) != (t.big == nil) || (o.big != nil && o.big.Cmp(t.big) != 0) {
			continue
		}
		return o
	}
	tm.n++
	t.id = tm.n
	tm.tab[h] = append(tm.tab[h], t)
	return t
}

func bigLow(b *big.Int) uint64 {
	w := b.Bits()
	var h uint64 = 7
	for _, x := range w {
		h = hmix(h, uint64(x))
	}
	return h
}

// ---------- constants

func (tm *TM) C(w int, v uint64) *Term {
	if w <= 64 {
		return tm.intern(&Term{op: OpConst, w: w, k: v & mask64(w)})
	}
	return tm.intern(&Term{op: OpConst, w: w, big: new(big.Int).SetUint64(v)})
}

func (tm *TM) CB(w int, v *big.Int) *Term {
	v = new(big.Int).And(v, bigMask(w)) // two's complement And works for negatives
	if w <= 64 {
		return tm.C(w, v.Uint64())
	}
	return tm.intern(&Term{op: OpConst, w: w, big: v})
}

func (tm *TM) True() *Term  { return tm.C(1, 1) }
func (tm *TM) False() *Term { return tm.C(1, 0) }
func (tm *TM) B(b bool) *Term {
	if b {
		return tm.C(1, 1)
	}
	return tm.C(1, 0)
}

func (t *Term) isC() bool { return t.op == OpConst }
func (t *Term) isZero() bool {
	return t.op == OpConst && ((t.w <= 64 && t.k == 0) || (t.w > 64 && t.big.Sign() == 0))
}
func (t *Term) isOnes() bool {
	if t.op != OpConst {
		return false
	}
	if t.w <= 64 {
		return t.k == mask64(t.w)
	}
	return t.big.Cmp(bigMask(t.w)) == 0
}
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 1 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 1 && t.k == 0 }

func (t *Term) bigv() *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(t.k)
	}
	return t.big
}

func (t *Term) signed64() int64 {
	return int64(t.k<<(64-uint(t.w))) >> (64 - uint(t.w))
}

func (t *Term) bigSigned() *big.Int {
	v := t.bigv()
	if v.Bit(t.w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(bigOne, uint(t.w)))
	}
	return v
}

func (tm *TM) Var(name string, w int) *Term {
	n := tm.n
	t := tm.intern(&Term{op: OpVar, w: w, name: name})
	if tm.n > n {
		tm.vars = append(tm.vars, t)
	}
	return t
}

func (tm *TM) UF(name string, w int, args ...*Term) *Term {
	key := name
	d := tm.ufs[key]
	if d == nil {
		d = &UFDecl{name: name, w: w}
		for _, a := range args {
			d.argW = append(d.argW, a.w)
		}
		tm.ufs[key] = d
	}
	if len(d.argW) != len(args) || d.w != w {
		panic("UF arity mismatch " + name)
	}
	for i, a := range args {
		if a.w != d.argW[i] {
			panic(fmt.Sprintf("UF width mismatch %s arg %d: %d vs %d", name, i, a.w, d.argW[i]))
		}
	}
	n := tm.n
	t := tm.intern(&Term{op: OpUF, w: w, name: name, args: append([]*Term{}, args...)})
	if tm.n > n {
		d.apps = append(d.apps, t)
	}
	return t
}

// ---------- bounds (unsigned)

func (tm *TM) UB(t *Term) *big.Int {
	if t.ub == nil {
		t.ub = tm.computeUB(t)
	}
	return t.ub
}

func (tm *TM) LB(t *Term) *big.Int {
	if t.lb == nil {
		t.lb = tm.computeLB(t)
	}
	return t.lb
}

var bigZero = big.NewInt(0)

func (tm *TM) computeUB(t *Term) *big.Int {
	m := bigMask(t.w)
	lim := func(b *big.Int) *big.Int {
		if b.Cmp(m) > 0 || b.Sign() < 0 {
			return m
		}
		return b
	}
	switch t.op {
	case OpConst:
		return t.bigv()
	case OpVar:
		if t.vmax != nil {
			return t.vmax
		}
	case OpIte:
		a, b := tm.UB(t.args[1]), tm.UB(t.args[2])
		if a.Cmp(b) > 0 {
			return a
		}
		return b
	case OpAnd:
		if t.w == 1 {
			return m
		}
		a, b := tm.UB(t.args[0]), tm.UB(t.args[1])
		if a.Cmp(b) < 0 {
			return a
		}
		return b
	case OpOr, OpXor:
		n := 0
		for _, a := range t.args {
			if l := tm.UB(a).BitLen(); l > n {
				n = l
			}
		}
		return lim(bigMask(n))
	case OpConcat:
		s := new(big.Int)
		for _, a := range t.args {
			s.Lsh(s, uint(a.w))
			s.Or(s, tm.UB(a))
		}
		return lim(s)
	case OpExtract:
		if t.k == 0 {
			return lim(tm.UB(t.args[0]))
		}
		u := tm.UB(t.args[0])
		return lim(new(big.Int).Rsh(u, uint(t.k)))
	case OpSum:
		s := new(big.Int)
		if t.w <= 64 {
			s.SetUint64(t.k)
		} else {
			s.Set(t.big)
		}
		for i, a := range t.args {
			c := tm.coef(t, i)
			s.Add(s, new(big.Int).Mul(c, tm.UB(a)))
		}
		if s.Cmp(m) <= 0 {
			return s
		}
		// negative coefficients: x - c style. If lower bound of the positive part covers, bound by positives
		pos := new(big.Int)
		neg := new(big.Int)
		half := new(big.Int).Lsh(bigOne, uint(t.w-1))
		mod := new(big.Int).Lsh(bigOne, uint(t.w))
		posLB := new(big.Int)
		addc := func(c, ub, lb *big.Int) {
			if c.Cmp(half) >= 0 {
				nc := new(big.Int).Sub(mod, c)
				neg.Add(neg, new(big.Int).Mul(nc, ub))
			} else {
				pos.Add(pos, new(big.Int).Mul(c, ub))
				posLB.Add(posLB, new(big.Int).Mul(c, lb))
			}
		}
		kc := new(big.Int)
		if t.w <= 64 {
			kc.SetUint64(t.k)
		} else {
			kc.Set(t.big)
		}
		addc(kc, bigOne, bigOne)
		for i, a := range t.args {
			addc(tm.coef(t, i), tm.UB(a), tm.LB(a))
		}
		if pos.Cmp(m) <= 0 && posLB.Cmp(neg) >= 0 {
			return pos
		}
	case OpMul:
		s := big.NewInt(1)
		for _, a := range t.args {
			s.Mul(s, tm.UB(a))
		}
		return lim(s)
	case OpUrem:
		if t.args[1].isC() && !t.args[1].isZero() {
			r := new(big.Int).Sub(t.args[1].bigv(), bigOne)
			if u := tm.UB(t.args[0]); u.Cmp(r) < 0 {
				return u
			}
			return r
		}
		return tm.UB(t.args[0])
	case OpUdiv:
		if t.args[1].isC() && !t.args[1].isZero() {
			return new(big.Int).Div(tm.UB(t.args[0]), t.args[1].bigv())
		}
	case OpLshr:
		return tm.UB(t.args[0])
	}
	return m
}

func (tm *TM) computeLB(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		return t.bigv()
	case OpIte:
		a, b := tm.LB(t.args[1]), tm.LB(t.args[2])
		if a.Cmp(b) < 0 {
			return a
		}
		return b
	case OpConcat:
		s := new(big.Int)
		for _, a := range t.args {
			s.Lsh(s, uint(a.w))
			s.Or(s, tm.LB(a))
		}
		return s
	case OpSum:
		// if no overflow: sum of lower bounds
		m := bigMask(t.w)
		s := new(big.Int)
		u := new(big.Int)
		if t.w <= 64 {
			s.SetUint64(t.k)
		} else {
			s.Set(t.big)
		}
		u.Set(s)
		for i, a := range t.args {
			c := tm.coef(t, i)
			s.Add(s, new(big.Int).Mul(c, tm.LB(a)))
			u.Add(u, new(big.Int).Mul(c, tm.UB(a)))
		}
		if u.Cmp(m) <= 0 {
			return s
		}
		// handle k - x with k>=x
		half := new(big.Int).Lsh(bigOne, uint(t.w-1))
		mod := new(big.Int).Lsh(bigOne, uint(t.w))
		posUB, posLB, neg := new(big.Int), new(big.Int), new(big.Int)
		addc := func(c, ub, lb *big.Int) {
			if c.Cmp(half) >= 0 {
				nc := new(big.Int).Sub(mod, c)
				neg.Add(neg, new(big.Int).Mul(nc, ub))
			} else {
				posUB.Add(posUB, new(big.Int).Mul(c, ub))
				posLB.Add(posLB, new(big.Int).Mul(c, lb))
			}
		}
		kc := new(big.Int)
		if t.w <= 64 {
			kc.SetUint64(t.k)
		} else {
			kc.Set(t.big)
		}
		addc(kc, bigOne, bigOne)
		for i, a := range t.args {
			addc(tm.coef(t, i), tm.UB(a), tm.LB(a))
		}
		if posUB.Cmp(m) <= 0 && posLB.Cmp(neg) >= 0 {
			return new(big.Int).Sub(posLB, neg)
		}
	}
	return bigZero
}

// ---------- boolean

func (tm *TM) Not(a *Term) *Term {
	if a.w != 1 {
		return tm.Xor(a, tm.CB(a.w, bigMask(a.w)))
	}
	switch a.op {
	case OpConst:
		return tm.C(1, 1-a.k)
	case OpNot:
		return a.args[0]
	case OpXor:
		last := a.args[len(a.args)-1]
		if last.isC() { // constant one
			if len(a.args) == 2 {
				return a.args[0]
			}
			return tm.intern(&Term{op: OpXor, w: 1, args: append([]*Term{}, a.args[:len(a.args)-1]...)})
		}
		return tm.intern(&Term{op: OpXor, w: 1, args: append(append([]*Term{}, a.args...), tm.C(1, 1))})
	}
	return tm.intern(&Term{op: OpNot, w: 1, args: []*Term{a}})
}

func (tm *TM) And(as ...*Term) *Term {
	if len(as) > 0 && as[0].w != 1 {
		r := as[0]
		for _, a := range as[1:] {
			r = tm.bvAnd(r, a)
		}
		return r
	}
	set := map[*Term]bool{}
	var list []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.w != 1 {
			panic("And width")
		}
		if a.isFalse() {
			return false
		}
		if a.isTrue() || set[a] {
			return true
		}
		if a.op == OpAnd {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		set[a] = true
		list = append(list, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tm.False()
		}
	}
	// absorb: complement detection; NOT(AND(..)) whose members are in set reduce
	changed := true
	for iter := 0; changed && iter < 4; iter++ {
		changed = false
		for i, a := range list {
			if a == nil {
				continue
			}
			if a.op == OpXor && set[tm.Not(a)] {
				return tm.False()
			}
			if a.op != OpNot {
				continue
			}
			in := a.args[0]
			if set[in] {
				return tm.False()
			}
			if in.op == OpAnd {
				// NOT(AND(x1..xn)) with xi in set: drop xi; with NOT xi in set: whole true
				var keep []*Term
				drop := false
				for _, x := range in.args {
					if set[x] {
						drop = true
						continue
					}
					if set[tm.Not(x)] {
						keep = nil
						drop = true
						keep = []*Term{}
						goto taut
					}
					keep = append(keep, x)
				}
				if drop {
					delete(set, a)
					list[i] = nil
					changed = true
					n := tm.Not(tm.And(keep...))
					if !add(n) {
						return tm.False()
					}
				}
				continue
			taut:
				delete(set, a)
				list[i] = nil
				changed = true
			}
		}
	}
	var fin []*Term
	for _, a := range list {
		if a != nil && set[a] {
			fin = append(fin, a)
		}
	}
	if len(fin) == 0 {
		return tm.True()
	}
	if len(fin) == 1 {
		return fin[0]
	}
	sort.Slice(fin, func(i, j int) bool { return fin[i].id < fin[j].id })
	// dedupe
	out := fin[:1]
	for _, a := range fin[1:] {
		if a != out[len(out)-1] {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return tm.intern(&Term{op: OpAnd, w: 1, args: out})
}

func (tm *TM) Or(as ...*Term) *Term {
	if len(as) > 0 && as[0].w != 1 {
		r := as[0]
		for _, a := range as[1:] {
			r = tm.bvOr(r, a)
		}
		return r
	}
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = tm.Not(a)
	}
	// common-factor: OR of two ANDs that differ by one complementary literal -> common part
	if len(as) == 2 {
		if r := tm.orResolve(as[0], as[1]); r != nil {
			return r
		}
	}
	return tm.Not(tm.And(ns...))
}

func lits(t *Term) []*Term {
	if t.op == OpAnd && t.w == 1 {
		return t.args
	}
	return []*Term{t}
}

// orResolve: (C & x) | (C & !x) = C;  (C & x) | C = C
func (tm *TM) orResolve(a, b *Term) *Term {
	la, lb := lits(a), lits(b)
	if len(la) > 200 || len(lb) > 200 {
		return nil
	}
	inB := map[*Term]bool{}
	for _, x := range lb {
		inB[x] = true
	}
	inA := map[*Term]bool{}
	var onlyA, onlyB, common []*Term
	for _, x := range la {
		inA[x] = true
		if inB[x] {
			common = append(common, x)
		} else {
			onlyA = append(onlyA, x)
		}
	}
	for _, x := range lb {
		if !inA[x] {
			onlyB = append(onlyB, x)
		}
	}
	if len(onlyA) == 0 || len(onlyB) == 0 {
		return tm.And(common...)
	}
	if len(onlyA) == 1 && len(onlyB) == 1 && tm.Not(onlyA[0]) == onlyB[0] {
		return tm.And(common...)
	}
	if tm.Not(tm.And(onlyA...)) == tm.And(onlyB...) {
		return tm.And(common...)
	}
	if len(common) > 0 {
		return tm.And(append(common, tm.Or(tm.And(onlyA...), tm.And(onlyB...)))...)
	}
	// x | (!x & y) = x | y
	if len(onlyA) == 1 {
		if na := tm.Not(onlyA[0]); inB[na] {
			var rest []*Term
			for _, x := range onlyB {
				if x != na {
					rest = append(rest, x)
				}
			}
			return tm.Or(onlyA[0], tm.And(rest...))
		}
	}
	if len(onlyB) == 1 {
		if nb := tm.Not(onlyB[0]); inA[nb] {
			var rest []*Term
			for _, x := range onlyA {
				if x != nb {
					rest = append(rest, x)
				}
			}
			return tm.Or(onlyB[0], tm.And(rest...))
		}
	}
	return nil
}

func (tm *TM) Implies(a, b *Term) *Term { return tm.Or(tm.Not(a), b) }

// Ite
func (tm *TM) Ite(c, a, b *Term) *Term {
	if c.w != 1 {
		panic("ite cond width")
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	// normalise polarity
	if c.op == OpNot {
		return tm.Ite(c.args[0], b, a)
	}
	if c.op == OpXor && c.args[len(c.args)-1].isC() {
		return tm.Ite(tm.Not(c), b, a)
	}
	key := [3]int{c.id, a.id, b.id}
	if r, ok := tm.ite2[key]; ok {
		return r
	}
	r := tm.ite0(c, a, b)
	tm.ite2[key] = r
	return r
}

func (tm *TM) ite0(c, a, b *Term) *Term {
	w := a.w
	if w == 1 {
		if a.isTrue() {
			return tm.Or(c, b)
		}
		if b.isFalse() {
			return tm.And(c, a)
		}
		if a.isFalse() {
			return tm.And(tm.Not(c), b)
		}
		if b.isTrue() {
			return tm.Or(tm.Not(c), a)
		}
		if a == tm.Not(b) {
			return tm.Xor(c, b)
		}
		if a == c {
			return tm.Or(c, b)
		}
		if b == c {
			return tm.And(c, a)
		}
	}
	if a.op == OpIte && a.args[0] == c {
		return tm.Ite(c, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == c {
		return tm.Ite(c, a, b.args[2])
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OpIte && b.args[1] == a {
		return tm.Ite(tm.Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OpIte && b.args[2] == a {
		return tm.Ite(tm.Or(c, tm.Not(b.args[0])), a, b.args[1])
	}
	if a.op == OpIte && a.args[2] == b {
		return tm.Ite(tm.And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OpIte && a.args[1] == b {
		return tm.Ite(tm.And(c, tm.Not(a.args[0])), a.args[2], b)
	}
	// concat with the same cuts: piecewise when some piece coincides
	if w > 1 {
		if ca, cb, ok := tm.alignConcat(a, b); ok {
			same := false
			for i := range ca {
				if ca[i] == cb[i] {
					same = true
				}
			}
			if same {
				out := make([]*Term, len(ca))
				for i := range ca {
					out[i] = tm.Ite(c, ca[i], cb[i])
				}
				return tm.Concat(out...)
			}
		}
	}
	// sums: y + mask(c, x-y) when the difference is small
	if (a.op == OpSum || b.op == OpSum) && w > 1 {
		na, nb := tm.sumLen(a), tm.sumLen(b)
		if na+nb < 4096 {
			d := tm.Sub(a, b)
			nd := tm.sumLen(d)
			if nd < na || nd < nb {
				if nd <= 2 && (na > nd || nb > nd) {
					return tm.Add(b, tm.rawIte(c, d, tm.C(w, 0)))
				}
			}
		}
	}
	// xor kind
	if isXorKind(a) || isXorKind(b) {
		ma, ok1 := tm.xmonos(a, 64)
		mb, ok2 := tm.xmonos(b, 64)
		if ok1 && ok2 {
			d := tm.xorMerge(ma, mb)
			if cm, ok := tm.condMonos(c); ok && len(cm)*len(d) <= 96 {
				var prod []*Term
				for _, x := range cm {
					for _, y := range d {
						prod = append(prod, tm.maskMono(x, y))
					}
				}
				return tm.fromMonos(w, tm.xorMerge(mb, tm.xorCancel(prod)))
			}
		}
	}
	return tm.rawIte(c, a, b)
}

func (tm *TM) rawIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == OpNot {
		c, a, b = c.args[0], b, a
	} else if c.op == OpXor && c.args[len(c.args)-1].isC() {
		c, a, b = tm.Not(c), b, a
	}
	if a == b {
		return a
	}
	if a.w == 1 {
		if b.isFalse() {
			return tm.And(c, a)
		}
		if a.isFalse() {
			return tm.And(tm.Not(c), b)
		}
		if a.isTrue() {
			return tm.Or(c, b)
		}
		if b.isTrue() {
			return tm.Or(tm.Not(c), a)
		}
	}
	// mask of mask: ite(c, ite(d,e,0), 0) = ite(c&d, e, 0)
	if b.isZero() && a.op == OpIte && a.args[2].isZero() {
		return tm.rawIte(tm.And(c, a.args[0]), a.args[1], b)
	}
	return tm.intern(&Term{op: OpIte, w: a.w, args: []*Term{c, a, b}})
}

func isXorKind(t *Term) bool {
	return t.op == OpXor && !(t.w == 1 && len(t.args) == 2 && t.args[1].isC())
}

// monomial list of t over GF(2) (bitwise); ok=false if too large
func (tm *TM) xmonos(t *Term, lim int) ([]*Term, bool) {
	switch t.op {
	case OpConst:
		if t.isZero() {
			return nil, true
		}
		return []*Term{t}, true
	case OpXor:
		return t.args, true
	case OpNot:
		in, ok := tm.xmonos(t.args[0], lim)
		if !ok {
			return []*Term{t.args[0], tm.C(1, 1)}, true
		}
		return tm.xorMerge(in, []*Term{tm.C(1, 1)}), true
	case OpIte:
		// mask form or general
		c, a, b := t.args[0], t.args[1], t.args[2]
		cm, ok := tm.condMonos(c)
		if !ok {
			return []*Term{t}, true
		}
		ma, ok1 := tm.xmonos(a, lim)
		mb, ok2 := tm.xmonos(b, lim)
		if !ok1 || !ok2 {
			return []*Term{t}, true
		}
		if a.isZero() || b.isZero() || isXorKind(a) || isXorKind(b) {
			d := tm.xorMerge(ma, mb)
			if len(cm)*len(d) > lim {
				return []*Term{t}, true
			}
			var prod []*Term
			for _, x := range cm {
				for _, y := range d {
					prod = append(prod, tm.maskMono(x, y))
				}
			}
			return tm.xorMerge(mb, tm.xorCancel(prod)), true
		}
		return []*Term{t}, true
	case OpAnd:
		if t.w == 1 {
			acc := []*Term{tm.C(1, 1)}
			for _, x := range t.args {
				xm, ok := tm.condMonos(x)
				if !ok || len(acc)*len(xm) > 16 {
					return []*Term{t}, true
				}
				var prod []*Term
				for _, p := range acc {
					for _, q := range xm {
						prod = append(prod, tm.maskMono(p, q))
					}
				}
				acc = tm.xorCancel(prod)
			}
			return acc, true
		}
	}
	return []*Term{t}, true
}

// condition as GF(2) polynomial; a condition with many monomials is an opaque atom (with polarity)
func (tm *TM) condMonos(c *Term) ([]*Term, bool) {
	m, _ := tm.xmonos(c, 16)
	if len(m) > tm.opaqueLimit {
		if m[len(m)-1].isC() {
			base := tm.fromMonos(1, m[:len(m)-1])
			return []*Term{base, tm.C(1, 1)}, true
		}
		return []*Term{tm.fromMonos(1, m)}, true
	}
	return m, true
}

// product of monomial condition x (1 bit) and monomial y (any width)
func (tm *TM) maskMono(x, y *Term) *Term {
	if x.isTrue() {
		return y
	}
	if y.w == 1 {
		return tm.And(x, y)
	}
	if y.op == OpIte && y.args[2].isZero() {
		c := tm.And(x, y.args[0])
		if c.isFalse() {
			return tm.C(y.w, 0)
		}
		return tm.intern(&Term{op: OpIte, w: y.w, args: []*Term{c, y.args[1], tm.C(y.w, 0)}})
	}
	// constants: an all-ones mask etc. stay as they are
	return tm.intern(&Term{op: OpIte, w: y.w, args: []*Term{x, y, tm.C(y.w, 0)}})
}

func xorLess(a, b *Term) bool { // constants last
	if a.isC() != b.isC() {
		return !a.isC()
	}
	return a.id < b.id
}

func (tm *TM) xorCancel(ms []*Term) []*Term {
	sort.Slice(ms, func(i, j int) bool { return xorLess(ms[i], ms[j]) })
	var out []*Term
	var kc *Term
	for i := 0; i < len(ms); i++ {
		if ms[i].isC() {
			if kc == nil {
				kc = ms[i]
			} else {
				kc = tm.cXor(kc, ms[i])
			}
			continue
		}
		if len(out) > 0 && out[len(out)-1] == ms[i] {
			out = out[:len(out)-1]
		} else {
			out = append(out, ms[i])
		}
	}
	if kc != nil && !kc.isZero() {
		out = append(out, kc)
	}
	return out
}

func (tm *TM) cXor(a, b *Term) *Term {
	if a.w <= 64 {
		return tm.C(a.w, a.k^b.k)
	}
	return tm.CB(a.w, new(big.Int).Xor(a.big, b.big))
}

func (tm *TM) xorMerge(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	var kc *Term
	for i < len(a) || j < len(b) {
		var x *Term
		if j >= len(b) || (i < len(a) && xorLess(a[i], b[j])) {
			x = a[i]
			i++
		} else if i >= len(a) || xorLess(b[j], a[i]) {
			x = b[j]
			j++
		} else { // equal
			if a[i].isC() && a[i] != b[j] {
				x = a[i]
				i++
			} else {
				i++
				j++
				continue
			}
		}
		if x.isC() {
			if kc == nil {
				kc = x
			} else {
				kc = tm.cXor(kc, x)
			}
			continue
		}
		out = append(out, x)
	}
	if kc != nil && !kc.isZero() {
		out = append(out, kc)
	}
	return out
}

func (tm *TM) fromMonos(w int, m []*Term) *Term {
	switch len(m) {
	case 0:
		return tm.C(w, 0)
	case 1:
		return m[0]
	}
	if w == 1 && len(m) == 2 && m[1].isC() {
		return tm.Not(m[0])
	}
	return tm.intern(&Term{op: OpXor, w: w, args: m})
}

func (tm *TM) Xor(a, b *Term) *Term {
	if a.w != b.w {
		panic("xor width")
	}
	if a == b {
		return tm.C(a.w, 0)
	}
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	if a.isC() && b.isC() {
		return tm.cXor(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.w == 1 {
		if a.isTrue() {
			return tm.Not(b)
		}
		if b.isTrue() {
			return tm.Not(a)
		}
	}
	key := [2]int{a.id, b.id}
	if r, ok := tm.xorM[key]; ok {
		return r
	}
	r := tm.xor0(a, b)
	tm.xorM[key] = r
	return r
}

func (tm *TM) xor0(a, b *Term) *Term {
	// piecewise over concatenations
	if a.op == OpConcat || b.op == OpConcat {
		if ca, cb, ok := tm.alignConcat(a, b); ok {
			out := make([]*Term, len(ca))
			for i := range ca {
				out[i] = tm.Xor(ca[i], cb[i])
			}
			return tm.Concat(out...)
		}
	}
	ma, _ := tm.xmonos(a, 64)
	mb, _ := tm.xmonos(b, 64)
	return tm.fromMonos(a.w, tm.xorMerge(ma, mb))
}

// alignConcat splits a and b at the union of their cut points. Non-concat operands are sliced by extract
// only if constant or if the other is a zero-extension.
func (tm *TM) alignConcat(a, b *Term) ([]*Term, []*Term, bool) {
	if a.op != OpConcat && b.op != OpConcat {
		return nil, nil, false
	}
	okSplit := func(t *Term) bool {
		return t.op == OpConcat || t.isC()
	}
	if !okSplit(a) || !okSplit(b) {
		// zero-extension against an arbitrary term
		return nil, nil, false
	}
	cuts := map[int]bool{}
	addCuts := func(t *Term) {
		if t.op == OpConcat {
			p := t.w
			for _, x := range t.args {
				p -= x.w
				cuts[p] = true
			}
		}
	}
	addCuts(a)
	addCuts(b)
	var ps []int
	for p := range cuts {
		ps = append(ps, p)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ps)))
	hi := a.w - 1
	var ra, rb []*Term
	for _, p := range ps {
		ra = append(ra, tm.Extract(a, hi, p))
		rb = append(rb, tm.Extract(b, hi, p))
		hi = p - 1
	}
	return ra, rb, true
}

func (tm *TM) bvAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if a.isC() && b.isC() {
		return tm.CB(a.w, new(big.Int).And(a.bigv(), b.bigv()))
	}
	if b.isZero() {
		return b
	}
	if b.isOnes() {
		return a
	}
	if b.isC() {
		// split into runs of equal bits
		v := b.bigv()
		var parts []*Term
		hi := a.w - 1
		nruns := 0
		for p := a.w - 2; p >= -1; p-- {
			if p == -1 || v.Bit(p) != v.Bit(hi) {
				nruns++
				hi = p
			}
		}
		if nruns <= 4 {
			hi = a.w - 1
			for p := a.w - 2; p >= -1; p-- {
				if p == -1 || v.Bit(p) != v.Bit(hi) {
					if v.Bit(hi) == 1 {
						parts = append(parts, tm.Extract(a, hi, p+1))
					} else {
						parts = append(parts, tm.C(hi-p, 0))
					}
					hi = p
				}
			}
			return tm.Concat(parts...)
		}
	}
	// x & -bit  (sext of a bit, or ite(c, ones, 0))
	for i := 0; i < 2; i++ {
		if b.op == OpIte && b.args[1].isOnes() && b.args[2].isZero() {
			return tm.Ite(b.args[0], a, tm.C(a.w, 0))
		}
		if b.op == OpIte && b.args[2].isOnes() && b.args[1].isZero() {
			return tm.Ite(b.args[0], tm.C(a.w, 0), a)
		}
		if b.op == OpSum && len(b.args) == 1 && tm.sumK(b).Sign() == 0 {
			// coefficient -1 times a 0/1 value
			c := tm.coef(b, 0)
			if c.Cmp(bigMask(b.w)) == 0 && tm.UB(b.args[0]).Cmp(bigOne) <= 0 {
				return tm.Ite(tm.Extract(b.args[0], 0, 0), a, tm.C(a.w, 0))
			}
		}
		a, b = b, a
	}
	if a.op == OpConcat || b.op == OpConcat {
		if ca, cb, ok := tm.alignConcat(a, b); ok {
			out := make([]*Term, len(ca))
			for i := range ca {
				if ca[i].w == 1 {
					out[i] = tm.And(ca[i], cb[i])
				} else {
					out[i] = tm.bvAnd(ca[i], cb[i])
				}
			}
			return tm.Concat(out...)
		}
	}
	if a.op == OpIte && a.args[1].isC() && a.args[2].isC() {
		return tm.Ite(a.args[0], tm.bvAnd(a.args[1], b), tm.bvAnd(a.args[2], b))
	}
	if b.op == OpIte && b.args[1].isC() && b.args[2].isC() {
		return tm.Ite(b.args[0], tm.bvAnd(a, b.args[1]), tm.bvAnd(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.intern(&Term{op: OpAnd, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) bvOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if a.isC() && b.isC() {
		return tm.CB(a.w, new(big.Int).Or(a.bigv(), b.bigv()))
	}
	if b.isZero() {
		return a
	}
	if b.isOnes() {
		return b
	}
	if a.isZero() {
		return b
	}
	// disjoint concatenations
	if a.op == OpConcat || b.op == OpConcat {
		if ca, cb, ok := tm.alignConcat(a, b); ok {
			out := make([]*Term, len(ca))
			for i := range ca {
				if ca[i].w == 1 {
					out[i] = tm.Or(ca[i], cb[i])
				} else {
					out[i] = tm.bvOr(ca[i], cb[i])
				}
			}
			return tm.Concat(out...)
		}
	}
	if a.op == OpIte && a.args[1].isC() && a.args[2].isC() && b.isC() {
		return tm.Ite(a.args[0], tm.bvOr(a.args[1], b), tm.bvOr(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.intern(&Term{op: OpOr, w: a.w, args: []*Term{a, b}})
}

// ---------- sums

func (tm *TM) coef(t *Term, i int) *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(t.ks[i])
	}
	return t.kb[i]
}

func (tm *TM) sumK(t *Term) *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(t.k)
	}
	return t.big
}

func (tm *TM) sumLen(t *Term) int {
	if t.op == OpSum {
		return len(t.args)
	}
	if t.isC() {
		return 0
	}
	return 1
}

// linear form: parallel slices sorted by term id
type lin struct {
	ts []*Term
	ks []uint64
	kb []*big.Int
	k  uint64
	b  *big.Int
}

func (tm *TM) toLin(t *Term) lin {
	w := t.w
	switch t.op {
	case OpConst:
		if w <= 64 {
			return lin{k: t.k}
		}
		return lin{b: t.big}
	case OpSum:
		return lin{ts: t.args, ks: t.ks, kb: t.kb, k: t.k, b: t.big}
	case OpIte:
		// ite(c, x, 0) with x a sum distributes; ite(c,0,x) = x - ite(c,x,0)
		c, a, b := t.args[0], t.args[1], t.args[2]
		if b.isZero() && a.op == OpSum && len(a.args) <= 32 {
			return tm.toLin(tm.distMask(c, a))
		}
		if a.isZero() && !b.isC() {
			m := tm.distMask(c, b)
			return tm.linAdd(w, tm.toLin(b), tm.toLin(m), true)
		}
		if a.isC() && b.isC() { // ite(c,k1,k2) = k2 + (k1-k2)*zext(c)
			d := new(big.Int).Sub(a.bigv(), b.bigv())
			d.And(d, bigMask(w))
			zc := tm.Zext(c, w)
			if w <= 64 {
				return lin{ts: []*Term{zc}, ks: []uint64{d.Uint64()}, k: b.k}
			}
			return lin{ts: []*Term{zc}, kb: []*big.Int{d}, b: b.big}
		}
	case OpConcat:
		// zext(not c) = 1 - zext(c)
		if len(t.args) == 2 && t.args[0].isZero() && t.args[1].w == 1 {
			in := t.args[1]
			if in.op == OpNot || (in.op == OpXor && in.args[len(in.args)-1].isC()) {
				z := tm.Zext(tm.Not(in), w)
				if w <= 64 {
					return lin{ts: []*Term{z}, ks: []uint64{mask64(w)}, k: 1}
				}
				return lin{ts: []*Term{z}, kb: []*big.Int{bigMask(w)}, b: bigOne}
			}
		}
	}
	if w <= 64 {
		return lin{ts: []*Term{t}, ks: []uint64{1}}
	}
	return lin{ts: []*Term{t}, kb: []*big.Int{bigOne}, b: bigZero}
}

func (tm *TM) distMask(c, a *Term) *Term {
	if a.op != OpSum {
		return tm.rawIte(c, a, tm.C(a.w, 0))
	}
	acc := tm.scale(tm.Zext(c, a.w), tm.sumK(a))
	for i, x := range a.args {
		acc = tm.Add(acc, tm.scale(tm.maskTerm(c, x), tm.coef(a, i)))
	}
	return acc
}

func (tm *TM) maskTerm(c, x *Term) *Term {
	if x.op == OpConcat && len(x.args) == 2 && x.args[0].isZero() && x.args[1].w == 1 {
		return tm.Zext(tm.And(c, x.args[1]), x.w)
	}
	return tm.rawIte(c, x, tm.C(x.w, 0))
}

func (tm *TM) linAdd(w int, a, b lin, sub bool) lin {
	var r lin
	m := mask64(w)
	if w <= 64 {
		if sub {
			r.k = (a.k - b.k) & m
		} else {
			r.k = (a.k + b.k) & m
		}
	} else {
		x, y := a.b, b.b
		if x == nil {
			x = bigZero
		}
		if y == nil {
			y = bigZero
		}
		if sub {
			r.b = new(big.Int).Sub(x, y)
		} else {
			r.b = new(big.Int).Add(x, y)
		}
		r.b.And(r.b, bigMask(w))
	}
	i, j := 0, 0
	r.ts = make([]*Term, 0, len(a.ts)+len(b.ts))
	if w <= 64 {
		r.ks = make([]uint64, 0, len(a.ts)+len(b.ts))
	} else {
		r.kb = make([]*big.Int, 0, len(a.ts)+len(b.ts))
	}
	bc := func(j int) uint64 {
		if sub {
			return -b.ks[j] & m
		}
		return b.ks[j]
	}
	bb := func(j int) *big.Int {
		if sub {
			n := new(big.Int).Neg(b.kb[j])
			return n.And(n, bigMask(w))
		}
		return b.kb[j]
	}
	for i < len(a.ts) || j < len(b.ts) {
		if j >= len(b.ts) || (i < len(a.ts) && a.ts[i].id < b.ts[j].id) {
			r.ts = append(r.ts, a.ts[i])
			if w <= 64 {
				r.ks = append(r.ks, a.ks[i])
			} else {
				r.kb = append(r.kb, a.kb[i])
			}
			i++
		} else if i >= len(a.ts) || b.ts[j].id < a.ts[i].id {
			r.ts = append(r.ts, b.ts[j])
			if w <= 64 {
				r.ks = append(r.ks, bc(j))
			} else {
				r.kb = append(r.kb, bb(j))
			}
			j++
		} else {
			if w <= 64 {
				c := (a.ks[i] + bc(j)) & m
				if c != 0 {
					r.ts = append(r.ts, a.ts[i])
					r.ks = append(r.ks, c)
				}
			} else {
				c := new(big.Int).Add(a.kb[i], bb(j))
				c.And(c, bigMask(w))
				if c.Sign() != 0 {
					r.ts = append(r.ts, a.ts[i])
					r.kb = append(r.kb, c)
				}
			}
			i++
			j++
		}
	}
	return r
}

func (tm *TM) fromLin(w int, l lin) *Term {
	if len(l.ts) == 0 {
		if w <= 64 {
			return tm.C(w, l.k)
		}
		if l.b == nil {
			return tm.C(w, 0)
		}
		return tm.CB(w, l.b)
	}
	if w <= 64 {
		if len(l.ts) == 1 && l.ks[0] == 1 && l.k == 0 {
			return l.ts[0]
		}
		// 1 - zext(c) = zext(!c)
		if len(l.ts) == 1 && l.k == 1 && l.ks[0] == mask64(w) {
			t := l.ts[0]
			if t.op == OpConcat && len(t.args) == 2 && t.args[0].isZero() && t.args[1].w == 1 {
				return tm.Zext(tm.Not(t.args[1]), w)
			}
		}
		return tm.intern(&Term{op: OpSum, w: w, args: l.ts, ks: l.ks, k: l.k})
	}
	if l.b == nil {
		l.b = bigZero
	}
	if len(l.ts) == 1 && l.kb[0].Cmp(bigOne) == 0 && l.b.Sign() == 0 {
		return l.ts[0]
	}
	return tm.intern(&Term{op: OpSum, w: w, args: l.ts, kb: l.kb, big: l.b})
}

func (tm *TM) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("add width %d %d", a.w, b.w))
	}
	if a.w == 1 {
		return tm.Xor(a, b)
	}
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	return tm.fromLin(a.w, tm.linAdd(a.w, tm.toLin(a), tm.toLin(b), false))
}

func (tm *TM) Sub(a, b *Term) *Term {
	if a.w != b.w {
		panic("sub width")
	}
	if a == b {
		return tm.C(a.w, 0)
	}
	if a.w == 1 {
		return tm.Xor(a, b)
	}
	if b.isZero() {
		return a
	}
	return tm.fromLin(a.w, tm.linAdd(a.w, tm.toLin(a), tm.toLin(b), true))
}

func (tm *TM) Neg(a *Term) *Term { return tm.Sub(tm.C(a.w, 0), a) }

func (tm *TM) scale(a *Term, c *big.Int) *Term {
	w := a.w
	c = new(big.Int).And(c, bigMask(w))
	if c.Sign() == 0 {
		return tm.C(w, 0)
	}
	if c.Cmp(bigOne) == 0 {
		return a
	}
	l := tm.toLin(a)
	var r lin
	if w <= 64 {
		cu := c.Uint64()
		r.k = l.k * cu & mask64(w)
		for i, t := range l.ts {
			k := l.ks[i] * cu & mask64(w)
			if k != 0 {
				r.ts = append(r.ts, t)
				r.ks = append(r.ks, k)
			}
		}
	} else {
		if l.b == nil {
			l.b = bigZero
		}
		r.b = new(big.Int).And(new(big.Int).Mul(l.b, c), bigMask(w))
		for i, t := range l.ts {
			k := new(big.Int).And(new(big.Int).Mul(l.kb[i], c), bigMask(w))
			if k.Sign() != 0 {
				r.ts = append(r.ts, t)
				r.kb = append(r.kb, k)
			}
		}
	}
	return tm.fromLin(w, r)
}

func (tm *TM) Mul(a, b *Term) *Term {
	if a.w != b.w {
		panic("mul width")
	}
	w := a.w
	if w == 1 {
		return tm.And(a, b)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return tm.CB(w, new(big.Int).Mul(a.bigv(), b.bigv()))
		}
		return tm.scale(a, b.bigv())
	}
	// by a bit
	for i := 0; i < 2; i++ {
		if tm.UB(b).Cmp(bigOne) <= 0 {
			c := tm.Extract(b, 0, 0)
			return tm.Ite(c, a, tm.C(w, 0))
		}
		a, b = b, a
	}
	// ite of small constants
	for i := 0; i < 2; i++ {
		if b.op == OpIte && tm.constLeaves(b, 64) {
			x := a
			return tm.lift(b, func(k *Term) *Term { return tm.Mul(x, k) })
		}
		a, b = b, a
	}
	la, lb := tm.toLin(a), tm.toLin(b)
	na, nb := len(la.ts)+1, len(lb.ts)+1
	if na*nb <= 4 || na == 2 && nb <= 5000 && la.k == 0 && (la.b == nil || la.b.Sign() == 0) || nb == 2 && na <= 5000 && lb.k == 0 && (lb.b == nil || lb.b.Sign() == 0) || na*nb <= 64 {
		if !(len(la.ts) == 1 && len(lb.ts) == 1 && tm.linPure(w, la) && tm.linPure(w, lb)) {
			acc := tm.C(w, 0)
			getK := func(l lin, i int) *big.Int {
				if i == len(l.ts) {
					if w <= 64 {
						return new(big.Int).SetUint64(l.k)
					}
					if l.b == nil {
						return bigZero
					}
					return l.b
				}
				if w <= 64 {
					return new(big.Int).SetUint64(l.ks[i])
				}
				return l.kb[i]
			}
			var parts []*Term
			for i := 0; i <= len(la.ts); i++ {
				ki := getK(la, i)
				if ki.Sign() == 0 {
					continue
				}
				for j := 0; j <= len(lb.ts); j++ {
					kj := getK(lb, j)
					if kj.Sign() == 0 {
						continue
					}
					kk := new(big.Int).Mul(ki, kj)
					var m *Term
					switch {
					case i == len(la.ts) && j == len(lb.ts):
						m = tm.C(w, 1)
					case i == len(la.ts):
						m = lb.ts[j]
					case j == len(lb.ts):
						m = la.ts[i]
					default:
						m = tm.mulMono(la.ts[i], lb.ts[j])
					}
					parts = append(parts, tm.scale(m, kk))
				}
			}
			// balanced sum
			for len(parts) > 1 {
				var np []*Term
				for i := 0; i+1 < len(parts); i += 2 {
					np = append(np, tm.Add(parts[i], parts[i+1]))
				}
				if len(parts)%2 == 1 {
					np = append(np, parts[len(parts)-1])
				}
				parts = np
			}
			if len(parts) == 1 {
				acc = parts[0]
			}
			return acc
		}
	}
	return tm.mulMono(a, b)
}

func (tm *TM) linPure(w int, l lin) bool {
	if w <= 64 {
		return l.k == 0 && l.ks[0] == 1
	}
	return (l.b == nil || l.b.Sign() == 0) && l.kb[0].Cmp(bigOne) == 0
}

func isBit(t *Term) bool {
	return t.op == OpConcat && len(t.args) == 2 && t.args[0].isZero() && t.args[1].w == 1
}

// product of two monomials (no constants, no sums at top, unless opaque)
func (tm *TM) mulMono(a, b *Term) *Term {
	w := a.w
	var cond []*Term
	var fs []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.op == OpMul:
			for _, x := range t.args {
				add(x)
			}
		case isBit(t):
			cond = append(cond, t.args[1])
		case t.op == OpIte && t.args[2].isZero():
			cond = append(cond, t.args[0])
			add(t.args[1])
		case t.isC():
			fs = append(fs, t)
		default:
			fs = append(fs, t)
		}
	}
	add(a)
	add(b)
	k := big.NewInt(1)
	var vs []*Term
	for _, f := range fs {
		if f.isC() {
			k.Mul(k, f.bigv())
		} else {
			vs = append(vs, f)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	c := tm.And(append([]*Term{tm.True()}, cond...)...)
	var body *Term
	switch len(vs) {
	case 0:
		body = tm.Zext(c, w)
		return tm.scale(body, k)
	case 1:
		body = vs[0]
	default:
		body = tm.intern(&Term{op: OpMul, w: w, args: vs})
	}
	return tm.scale(tm.rawIte(c, body, tm.C(w, 0)), k)
}

// ---------- lifting over constant-leaf ite trees

func (tm *TM) constLeaves(t *Term, lim int) bool {
	n := 0
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.isC() {
			return true
		}
		if t.op != OpIte {
			return false
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		n++
		if n > lim {
			return false
		}
		return rec(t.args[1]) && rec(t.args[2])
	}
	return rec(t)
}

func (tm *TM) lift(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != OpIte {
			return f(t)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := tm.Ite(t.args[0], rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---------- comparison

func (tm *TM) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a == b {
		return tm.True()
	}
	if a.isC() && b.isC() {
		return tm.False()
	}
	if a.w == 1 {
		return tm.Not(tm.Xor(a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	key := [2]int{a.id, b.id}
	if r, ok := tm.eqM[key]; ok {
		return r
	}
	var r *Term
	if len(tm.resM) > 0 && tm.sameResidue(a, b) {
		r = tm.True()
	} else {
		r = tm.eq0(a, b)
	}
	tm.eqM[key] = r
	return r
}

func (tm *TM) eq0(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.op == OpUF && b.op == OpUF {
		if g := injGroup(a.name); g != "" && g == injGroup(b.name) {
			if a.name != b.name {
				return tm.False()
			}
			cs := []*Term{tm.True()}
			for i := range a.args {
				cs = append(cs, tm.Eq(a.args[i], b.args[i]))
			}
			return tm.And(cs...)
		}
	}
	if tm.UB(a).Cmp(tm.LB(b)) < 0 || tm.UB(b).Cmp(tm.LB(a)) < 0 {
		return tm.False()
	}
	if b.isC() && a.op == OpIte && (tm.constLeaves(a, 2000)) {
		return tm.lift(a, func(k *Term) *Term { return tm.Eq(k, b) })
	}
	if b.isC() && a.op == OpIte {
		if a.args[1].isC() {
			if a.args[1] == b {
				return tm.Or(a.args[0], tm.Eq(a.args[2], b))
			}
			return tm.And(tm.Not(a.args[0]), tm.Eq(a.args[2], b))
		}
		if a.args[2].isC() {
			if a.args[2] == b {
				return tm.Or(tm.Not(a.args[0]), tm.Eq(a.args[1], b))
			}
			return tm.And(a.args[0], tm.Eq(a.args[1], b))
		}
	}
	if ca, cb, ok := tm.alignConcat(a, b); ok {
		var cs []*Term
		for i := range ca {
			e := tm.Eq(ca[i], cb[i])
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return tm.And(cs...)
	}
	// xor: cancel common monomials
	if a.op == OpXor || b.op == OpXor {
		x := tm.Xor(a, b)
		if x.isC() {
			return tm.B(x.isZero())
		}
		if x.op == OpXor && len(x.args) >= 2 {
			last := x.args[len(x.args)-1]
			if last.isC() {
				l := tm.fromMonos(a.w, x.args[:len(x.args)-1])
				return tm.mkEq(l, last)
			}
			l := x.args[0]
			r := tm.fromMonos(a.w, x.args[1:])
			return tm.mkEq(l, r)
		}
		return tm.mkEq(x, tm.C(a.w, 0))
	}
	if a.op == OpSum || b.op == OpSum {
		d := tm.Sub(a, b)
		if d.isC() {
			return tm.B(d.isZero())
		}
		// parity argument is left to the solver
		if d.op == OpSum && len(d.args) == 1 {
			k := tm.sumK(d)
			c := tm.coef(d, 0)
			// c*x + k == 0 ; c odd -> x == -k * c^-1
			if c.Bit(0) == 1 {
				mod := new(big.Int).Lsh(bigOne, uint(d.w))
				inv := new(big.Int).ModInverse(c, mod)
				v := new(big.Int).Mul(new(big.Int).Neg(k), inv)
				v.Mod(v, mod)
				return tm.Eq(d.args[0], tm.CB(d.w, v))
			}
		}
		if tm.sumLen(d) < tm.sumLen(a)+tm.sumLen(b) || a.isC() || b.isC() {
			// canonical: split positive/negative
			pos, neg := tm.splitSigns(d)
			if pos.id > neg.id {
				pos, neg = neg, pos
			}
			return tm.mkEq(pos, neg)
		}
	}
	return tm.mkEq(a, b)
}

// d == 0 as pos == neg
func (tm *TM) splitSigns(d *Term) (*Term, *Term) {
	if d.op != OpSum {
		return d, tm.C(d.w, 0)
	}
	w := d.w
	half := new(big.Int).Lsh(bigOne, uint(w-1))
	mod := new(big.Int).Lsh(bigOne, uint(w))
	var p, n lin
	k := tm.sumK(d)
	if k.Cmp(half) >= 0 {
		nk := new(big.Int).Sub(mod, k)
		nk.And(nk, bigMask(w))
		if w <= 64 {
			n.k = nk.Uint64()
		} else {
			n.b = nk
		}
	} else {
		if w <= 64 {
			p.k = k.Uint64()
		} else {
			p.b = k
		}
	}
	for i, t := range d.args {
		c := tm.coef(d, i)
		if c.Cmp(half) >= 0 {
			n.ts = append(n.ts, t)
			nc := new(big.Int).Sub(mod, c)
			if w <= 64 {
				n.ks = append(n.ks, nc.Uint64())
			} else {
				n.kb = append(n.kb, nc)
			}
		} else {
			p.ts = append(p.ts, t)
			if w <= 64 {
				p.ks = append(p.ks, c.Uint64())
			} else {
				p.kb = append(p.kb, c)
			}
		}
	}
	return tm.fromLin(w, p), tm.fromLin(w, n)
}

func (tm *TM) mkEq(a, b *Term) *Term {
	if a == b {
		return tm.True()
	}
	if a.isC() && b.isC() {
		return tm.False()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.intern(&Term{op: OpEq, w: 1, args: []*Term{a, b}})
}

func (tm *TM) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic("ult width")
	}
	if a == b || b.isZero() {
		return tm.False()
	}
	if a.isC() && b.isC() {
		return tm.B(a.bigv().Cmp(b.bigv()) < 0)
	}
	if tm.UB(a).Cmp(tm.LB(b)) < 0 {
		return tm.True()
	}
	if tm.LB(a).Cmp(tm.UB(b)) >= 0 {
		return tm.False()
	}
	if a.w == 1 {
		return tm.And(tm.Not(a), b)
	}
	if a.isZero() {
		return tm.Not(tm.Eq(b, a))
	}
	if b.isC() && b.bigv().Cmp(bigOne) == 0 {
		return tm.Eq(a, tm.C(a.w, 0))
	}
	if b.isC() && a.op == OpIte && tm.constLeaves(a, 2000) {
		return tm.lift(a, func(k *Term) *Term { return tm.Ult(k, b) })
	}
	if a.isC() && b.op == OpIte && tm.constLeaves(b, 2000) {
		return tm.lift(b, func(k *Term) *Term { return tm.Ult(a, k) })
	}
	// common high part
	if a.op == OpConcat || b.op == OpConcat {
		if ca, cb, ok := tm.alignConcat(a, b); ok && len(ca) >= 2 {
			i := 0
			for i < len(ca) && ca[i] == cb[i] {
				i++
			}
			if i == len(ca) {
				return tm.False()
			}
			if i > 0 {
				return tm.Ult(tm.Concat(ca[i:]...), tm.Concat(cb[i:]...))
			}
		}
	}
	return tm.intern(&Term{op: OpUlt, w: 1, args: []*Term{a, b}})
}

func (tm *TM) Ule(a, b *Term) *Term { return tm.Not(tm.Ult(b, a)) }

func (tm *TM) nonneg(t *Term) bool { return tm.UB(t).Bit(t.w-1) == 0 && tm.UB(t).BitLen() < t.w }

func (tm *TM) Slt(a, b *Term) *Term {
	if a.w != b.w {
		panic("slt width")
	}
	if a == b {
		return tm.False()
	}
	if a.isC() && b.isC() {
		return tm.B(a.bigSigned().Cmp(b.bigSigned()) < 0)
	}
	if tm.nonneg(a) && tm.nonneg(b) {
		return tm.Ult(a, b)
	}
	if b.isC() && a.op == OpIte && tm.constLeaves(a, 2000) {
		return tm.lift(a, func(k *Term) *Term { return tm.Slt(k, b) })
	}
	if a.isC() && b.op == OpIte && tm.constLeaves(b, 2000) {
		return tm.lift(b, func(k *Term) *Term { return tm.Slt(a, k) })
	}
	if b.isZero() {
		return tm.Extract(a, a.w-1, a.w-1)
	}
	return tm.intern(&Term{op: OpSlt, w: 1, args: []*Term{a, b}})
}

func (tm *TM) Sle(a, b *Term) *Term { return tm.Not(tm.Slt(b, a)) }

// ---------- division

func (tm *TM) Udiv(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			return tm.CB(a.w, new(big.Int).Div(a.bigv(), b.bigv()))
		}
		v := b.bigv()
		if v.Cmp(bigOne) == 0 {
			return a
		}
		if n := v.BitLen() - 1; new(big.Int).Lsh(bigOne, uint(n)).Cmp(v) == 0 {
			return tm.Zext(tm.Extract(a, a.w-1, n), a.w)
		}
		if tm.UB(a).Cmp(v) < 0 {
			return tm.C(a.w, 0)
		}
		if a.op == OpIte && tm.constLeaves(a, 500) {
			return tm.lift(a, func(k *Term) *Term { return tm.Udiv(k, b) })
		}
		// few possible quotients
		if q := new(big.Int).Div(tm.UB(a), v); q.Cmp(big.NewInt(8)) <= 0 {
			r := tm.CB(a.w, q)
			for i := q.Int64() - 1; i >= 0; i-- {
				lim := new(big.Int).Mul(v, big.NewInt(i+1))
				r = tm.Ite(tm.Ult(a, tm.CB(a.w, lim)), tm.C(a.w, uint64(i)), r)
			}
			return r
		}
		// narrow
		if n := tm.UB(a).BitLen(); n < a.w && v.BitLen() <= n {
			return tm.Zext(tm.intern(&Term{op: OpUdiv, w: n, args: []*Term{tm.Extract(a, n-1, 0), tm.CB(n, v)}}), a.w)
		}
	}
	if n := tm.divWidth(a, b); n < a.w {
		return tm.Zext(tm.Udiv(tm.Extract(a, n-1, 0), tm.Extract(b, n-1, 0)), a.w)
	}
	return tm.intern(&Term{op: OpUdiv, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) Urem(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			return tm.CB(a.w, new(big.Int).Mod(a.bigv(), b.bigv()))
		}
		v := b.bigv()
		if tm.UB(a).Cmp(v) < 0 {
			return a
		}
		if n := v.BitLen() - 1; new(big.Int).Lsh(bigOne, uint(n)).Cmp(v) == 0 {
			if n == 0 {
				return tm.C(a.w, 0)
			}
			return tm.Zext(tm.Extract(a, n-1, 0), a.w)
		}
		key := [2]int{a.id, b.id}
		if r, ok := tm.remM[key]; ok {
			return r
		}
		if p := tm.polyOf(a, v, tm.polyMemo(v)); p != nil && (len(p) == 0 || len(p) == 1 && p[""] != nil) {
			c := new(big.Int)
			if p[""] != nil {
				c = p[""]
			}
			r := tm.CB(a.w, c)
			tm.remM[key] = r
			return r
		}
		r := tm.urem0(a, b, v)
		tm.noteResidue(r, a, v)
		tm.remM[key] = r
		return r
	}
	if n := tm.divWidth(a, b); !b.isC() && n < a.w {
		return tm.Zext(tm.Urem(tm.Extract(a, n-1, 0), tm.Extract(b, n-1, 0)), a.w)
	}
	return tm.intern(&Term{op: OpUrem, w: a.w, args: []*Term{a, b}})
}

// divWidth is the number of bits that a division of a by b takes. The divisor
// is never zero: programs check it.
func (tm *TM) divWidth(a, b *Term) int {
	n, m := tm.UB(a).BitLen(), tm.UB(b).BitLen()
	if n < m {
		n = m
	}
	if n == 0 {
		n = 1
	}
	return n
}

func (tm *TM) urem0(a, b *Term, v *big.Int) *Term {
	// one width for one value, so that equal remainders are equal terms
	if m := tm.UB(a).BitLen(); m < a.w && v.BitLen() <= m && (a.op == OpSum || a.op == OpConcat) {
		return tm.Zext(tm.Urem(tm.Extract(a, m-1, 0), tm.CB(m, v)), a.w)
	}
	if a.op == OpIte && tm.constLeaves(a, 500) {
		return tm.lift(a, func(k *Term) *Term { return tm.Urem(k, b) })
	}
	// few multiples: conditional subtraction
	if q := new(big.Int).Div(tm.UB(a), v); q.Cmp(big.NewInt(4)) <= 0 {
		n := q.Int64()
		r := tm.Sub(a, tm.CB(a.w, new(big.Int).Mul(v, big.NewInt(n))))
		for i := n - 1; i >= 0; i-- {
			lim := new(big.Int).Mul(v, big.NewInt(i+1))
			r = tm.rawIte(tm.Ult(a, tm.CB(a.w, lim)), tm.Sub(a, tm.CB(a.w, new(big.Int).Mul(v, big.NewInt(i)))), r)
		}
		// record the bound
		if r.ub == nil || r.ub.Cmp(v) >= 0 {
			r.ub = new(big.Int).Sub(v, bigOne)
			r.lb = bigZero
		}
		return r
	}
	// Mersenne 2^n-1: fold
	n := v.BitLen()
	if v.Cmp(bigMask(n)) == 0 && tm.UB(a).BitLen() <= 3*n {
		lo := tm.Extract(a, n-1, 0)
		hi := tm.Extract(a, a.w-1, n)
		s := tm.Add(tm.Zext(lo, a.w), tm.Zext(hi, a.w))
		return tm.Urem(s, b)
	}
	if m := tm.UB(a).BitLen(); m < a.w && v.BitLen() <= m {
		return tm.Zext(tm.intern(&Term{op: OpUrem, w: m, args: []*Term{tm.Extract(a, m-1, 0), tm.CB(m, v)}}), a.w)
	}
	return tm.intern(&Term{op: OpUrem, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) Sdiv(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			return tm.CB(a.w, new(big.Int).Quo(a.bigSigned(), b.bigSigned()))
		}
		if tm.nonneg(a) && tm.nonneg(b) {
			return tm.Udiv(a, b)
		}
		if a.op == OpIte && tm.constLeaves(a, 500) {
			return tm.lift(a, func(k *Term) *Term { return tm.Sdiv(k, b) })
		}
		if tm.nonneg(b) {
			neg := tm.Extract(a, a.w-1, a.w-1)
			return tm.Ite(neg, tm.Neg(tm.Udiv(tm.Neg(a), b)), tm.Udiv(a, b))
		}
	}
	if tm.nonneg(a) && tm.nonneg(b) {
		return tm.Udiv(a, b)
	}
	return tm.intern(&Term{op: OpSdiv, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) Srem(a, b *Term) *Term {
	if b.isC() && !b.isZero() {
		if a.isC() {
			return tm.CB(a.w, new(big.Int).Rem(a.bigSigned(), b.bigSigned()))
		}
		if tm.nonneg(a) && tm.nonneg(b) {
			return tm.Urem(a, b)
		}
		if a.op == OpIte && tm.constLeaves(a, 500) {
			return tm.lift(a, func(k *Term) *Term { return tm.Srem(k, b) })
		}
		if tm.nonneg(b) {
			neg := tm.Extract(a, a.w-1, a.w-1)
			return tm.Ite(neg, tm.Neg(tm.Urem(tm.Neg(a), b)), tm.Urem(a, b))
		}
	}
	if tm.nonneg(a) && tm.nonneg(b) {
		return tm.Urem(a, b)
	}
	return tm.intern(&Term{op: OpSrem, w: a.w, args: []*Term{a, b}})
}

// ---------- shifts (amount has the same width)

func (tm *TM) Shl(a, s *Term) *Term {
	if s.isC() {
		if s.bigv().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return tm.C(a.w, 0)
		}
		n := int(s.bigv().Int64())
		if n == 0 {
			return a
		}
		if a.isC() {
			return tm.CB(a.w, new(big.Int).Lsh(a.bigv(), uint(n)))
		}
		return tm.Concat(tm.Extract(a, a.w-1-n, 0), tm.C(n, 0))
	}
	if tm.constLeaves(s, 200) {
		return tm.lift(s, func(k *Term) *Term { return tm.Shl(a, k) })
	}
	if r := tm.shiftCases(a, s, tm.Shl); r != nil {
		return r
	}
	return tm.intern(&Term{op: OpShl, w: a.w, args: []*Term{a, s}})
}

func (tm *TM) shiftCases(a, s *Term, f func(a, s *Term) *Term) *Term {
	u := tm.UB(s)
	if u.Cmp(big.NewInt(64)) > 0 {
		return nil
	}
	n := u.Int64()
	r := f(a, tm.C(s.w, uint64(n)))
	for i := n - 1; i >= 0; i-- {
		r = tm.Ite(tm.Eq(s, tm.C(s.w, uint64(i))), f(a, tm.C(s.w, uint64(i))), r)
	}
	return r
}

func (tm *TM) Lshr(a, s *Term) *Term {
	if s.isC() {
		if s.bigv().Cmp(big.NewInt(int64(a.w))) >= 0 {
			return tm.C(a.w, 0)
		}
		n := int(s.bigv().Int64())
		if n == 0 {
			return a
		}
		return tm.Zext(tm.Extract(a, a.w-1, n), a.w)
	}
	if tm.constLeaves(s, 200) {
		return tm.lift(s, func(k *Term) *Term { return tm.Lshr(a, k) })
	}
	if r := tm.shiftCases(a, s, tm.Lshr); r != nil {
		return r
	}
	return tm.intern(&Term{op: OpLshr, w: a.w, args: []*Term{a, s}})
}

func (tm *TM) Ashr(a, s *Term) *Term {
	if tm.nonneg(a) {
		return tm.Lshr(a, s)
	}
	if s.isC() {
		n := a.w - 1
		if s.bigv().Cmp(big.NewInt(int64(a.w))) < 0 {
			n = int(s.bigv().Int64())
		}
		if n == 0 {
			return a
		}
		return tm.Sext(tm.Extract(a, a.w-1, n), a.w)
	}
	return tm.intern(&Term{op: OpAshr, w: a.w, args: []*Term{a, s}})
}

// ---------- width changes

func (tm *TM) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	return tm.Concat(tm.C(w-a.w, 0), a)
}

func (tm *TM) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tm.CB(w, a.bigSigned())
	}
	if tm.nonneg(a) {
		return tm.Zext(a, w)
	}
	if a.w == 1 {
		return tm.Ite(a, tm.CB(w, bigMask(w)), tm.C(w, 0))
	}
	if a.op == OpSext {
		return tm.Sext(a.args[0], w)
	}
	if a.op == OpIte && tm.constLeaves(a, 200) {
		return tm.lift(a, func(k *Term) *Term { return tm.Sext(k, w) })
	}
	return tm.intern(&Term{op: OpSext, w: w, args: []*Term{a}})
}

func (tm *TM) Trunc(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	return tm.Extract(a, w-1, 0)
}

func (tm *TM) Concat(as ...*Term) *Term {
	// flatten, merge constants and adjacent extracts
	var fl []*Term
	for _, a := range as {
		if a.op == OpConcat {
			fl = append(fl, a.args...)
		} else if a.w > 0 {
			fl = append(fl, a)
		}
	}
	var out []*Term
	for _, a := range fl {
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.isC() && a.isC() {
				v := new(big.Int).Lsh(p.bigv(), uint(a.w))
				v.Or(v, a.bigv())
				out[len(out)-1] = tm.CB(p.w+a.w, v)
				continue
			}
			if m := tm.joinAdj(p, a); m != nil {
				out[len(out)-1] = m
				// the join may be a concat again, or join what comes before
				for len(out) > 1 && m.op != OpConcat {
					q := tm.joinAdj(out[len(out)-2], m)
					if q == nil {
						break
					}
					out = out[:len(out)-1]
					out[len(out)-1] = q
					m = q
				}
				continue
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0]
	}
	again := false
	for _, a := range out {
		if a.op == OpConcat {
			again = true
		}
	}
	if again {
		return tm.Concat(out...)
	}
	w := 0
	for _, a := range out {
		w += a.w
	}
	return tm.intern(&Term{op: OpConcat, w: w, args: out})
}

// joinAdj: hi:lo pieces of the same base become one extract; also through ite/xor with the same shape
func (tm *TM) joinAdj(p, a *Term) *Term {
	if p.op == OpExtract && a.op == OpExtract && p.args[0] == a.args[0] && int(a.k)+a.w == int(p.k) {
		return tm.Extract(p.args[0], int(p.k)+p.w-1, int(a.k))
	}
	if p.op == OpExtract && int(p.k) >= a.w && (p.args[0].op == OpSum || p.args[0].op == OpMul) && (a.op == OpSum || a.op == OpMul) {
		// the low part of a sum is a sum of low parts
		if x := p.args[0]; tm.Extract(x, int(p.k)-1, int(p.k)-a.w) == a {
			return tm.Extract(x, int(p.k)+p.w-1, int(p.k)-a.w)
		}
	}
	if p.op == OpIte && a.op == OpIte && p.args[0] == a.args[0] {
		l := tm.joinAdjC(p.args[1], a.args[1])
		if l == nil {
			return nil
		}
		r := tm.joinAdjC(p.args[2], a.args[2])
		if r == nil {
			return nil
		}
		return tm.Ite(p.args[0], l, r)
	}
	return nil
}

func (tm *TM) joinAdjC(p, a *Term) *Term {
	if p.isC() && a.isC() {
		v := new(big.Int).Lsh(p.bigv(), uint(a.w))
		v.Or(v, a.bigv())
		return tm.CB(p.w+a.w, v)
	}
	return tm.joinAdj(p, a)
}

func (tm *TM) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= a.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		if a.w <= 64 {
			return tm.C(w, a.k>>uint(lo))
		}
		return tm.CB(w, new(big.Int).Rsh(a.big, uint(lo)))
	case OpExtract:
		return tm.Extract(a.args[0], hi+int(a.k), lo+int(a.k))
	}
	key := [3]int{a.id, hi, lo}
	if r, ok := tm.extM[key]; ok {
		return r
	}
	r := tm.extract0(a, hi, lo)
	if lo == 0 && tm.resM[a] != nil && tm.UB(a).BitLen() <= w {
		tm.noteResidue(r, tm.resM[a].of, tm.resM[a].m)
	}
	tm.extM[key] = r
	return r
}

func (tm *TM) extract0(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	switch a.op {
	case OpConcat:
		var out []*Term
		p := a.w
		for _, x := range a.args {
			top := p - 1
			p -= x.w
			h, l := hi, lo
			if h > top {
				h = top
			}
			if l < p {
				l = p
			}
			if h >= l {
				out = append(out, tm.Extract(x, h-p, l-p))
			}
		}
		return tm.Concat(out...)
	case OpIte:
		if r := tm.resM[a]; r != nil && r.m.BitLen() > 8 && !tm.constLeaves(a, 50) && (lo > 0 || tm.UB(a).BitLen() > w) {
			break // the parts of a remainder are put together again later
		}
		return tm.Ite(a.args[0], tm.Extract(a.args[1], hi, lo), tm.Extract(a.args[2], hi, lo))
	case OpXor:
		r := tm.C(w, 0)
		var ms []*Term
		for _, x := range a.args {
			ms = append(ms, tm.Extract(x, hi, lo))
		}
		for _, x := range ms {
			r = tm.Xor(r, x)
		}
		return r
	case OpAnd, OpOr:
		x, y := tm.Extract(a.args[0], hi, lo), tm.Extract(a.args[1], hi, lo)
		if a.op == OpAnd {
			return tm.And(x, y)
		}
		return tm.Or(x, y)
	case OpSext:
		in := a.args[0]
		if hi < in.w {
			return tm.Extract(in, hi, lo)
		}
		if lo < in.w {
			return tm.Sext(tm.Extract(in, in.w-1, lo), w)
		}
		return tm.Sext(tm.Extract(in, in.w-1, in.w-1), w)
	case OpSum:
		if lo == 0 && len(a.args) <= 64 {
			r := tm.CB(w, tm.sumK(a))
			for i, x := range a.args {
				r = tm.Add(r, tm.scale(tm.Extract(x, hi, 0), tm.coef(a, i)))
			}
			return r
		}
		// high zero bits
		if n := tm.UB(a).BitLen(); lo >= n {
			return tm.C(w, 0)
		} else if hi >= n {
			return tm.Concat(tm.C(hi-n+1, 0), tm.Extract(a, n-1, lo))
		}
	case OpMul:
		if lo == 0 {
			r := tm.Extract(a.args[0], hi, 0)
			for _, x := range a.args[1:] {
				r = tm.Mul(r, tm.Extract(x, hi, 0))
			}
			return r
		}
		if n := tm.UB(a).BitLen(); lo >= n {
			return tm.C(w, 0)
		} else if hi >= n {
			return tm.Concat(tm.C(hi-n+1, 0), tm.Extract(a, n-1, lo))
		}
	case OpUrem, OpUdiv, OpVar:
		if n := tm.UB(a).BitLen(); lo >= n {
			return tm.C(w, 0)
		} else if hi >= n {
			return tm.Concat(tm.C(hi-n+1, 0), tm.Extract(a, n-1, lo))
		}
	}
	return tm.intern(&Term{op: OpExtract, w: w, args: []*Term{a}, k: uint64(lo)})
}

// ---------- substitution / evaluation

// Eval evaluates t under a model (variables by name; UF applications through uf).
func (tm *TM) Eval(t *Term, vars map[string]*big.Int, uf func(name string, w int, args []*big.Int) *big.Int, memo map[*Term]*big.Int) *big.Int {
	if r, ok := memo[t]; ok {
		return r
	}
	ev := func(x *Term) *big.Int { return tm.Eval(x, vars, uf, memo) }
	m := bigMask(t.w)
	sg := func(x *Term) *big.Int {
		v := ev(x)
		if v.Bit(x.w-1) == 1 {
			return new(big.Int).Sub(v, new(big.Int).Lsh(bigOne, uint(x.w)))
		}
		return v
	}
	bl := func(b bool) *big.Int {
		if b {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	var r *big.Int
	switch t.op {
	case OpConst:
		r = t.bigv()
	case OpVar:
		r = vars[t.name]
		if r == nil {
			r = bigZero
		}
	case OpNot:
		r = bl(ev(t.args[0]).Sign() == 0)
	case OpAnd:
		r = ev(t.args[0])
		for _, a := range t.args[1:] {
			r = new(big.Int).And(r, ev(a))
		}
	case OpOr:
		r = new(big.Int).Or(ev(t.args[0]), ev(t.args[1]))
	case OpXor:
		r = new(big.Int)
		for _, a := range t.args {
			r = new(big.Int).Xor(r, ev(a))
		}
	case OpIte:
		if ev(t.args[0]).Sign() != 0 {
			r = ev(t.args[1])
		} else {
			r = ev(t.args[2])
		}
	case OpEq:
		r = bl(ev(t.args[0]).Cmp(ev(t.args[1])) == 0)
	case OpUlt:
		r = bl(ev(t.args[0]).Cmp(ev(t.args[1])) < 0)
	case OpSlt:
		r = bl(sg(t.args[0]).Cmp(sg(t.args[1])) < 0)
	case OpSum:
		r = new(big.Int).Set(tm.sumK(t))
		for i, a := range t.args {
			r.Add(r, new(big.Int).Mul(tm.coef(t, i), ev(a)))
		}
	case OpMul:
		r = big.NewInt(1)
		for _, a := range t.args {
			r = new(big.Int).Mul(r, ev(a))
		}
	case OpUdiv:
		if ev(t.args[1]).Sign() == 0 {
			r = m
		} else {
			r = new(big.Int).Div(ev(t.args[0]), ev(t.args[1]))
		}
	case OpUrem:
		if ev(t.args[1]).Sign() == 0 {
			r = ev(t.args[0])
		} else {
			r = new(big.Int).Mod(ev(t.args[0]), ev(t.args[1]))
		}
	case OpSdiv:
		if ev(t.args[1]).Sign() == 0 {
			r = bigZero
		} else {
			r = new(big.Int).Quo(sg(t.args[0]), sg(t.args[1]))
		}
	case OpSrem:
		if ev(t.args[1]).Sign() == 0 {
			r = ev(t.args[0])
		} else {
			r = new(big.Int).Rem(sg(t.args[0]), sg(t.args[1]))
		}
	case OpShl:
		s := ev(t.args[1])
		if s.Cmp(big.NewInt(int64(t.w))) >= 0 {
			r = bigZero
		} else {
			r = new(big.Int).Lsh(ev(t.args[0]), uint(s.Int64()))
		}
	case OpLshr:
		s := ev(t.args[1])
		if s.Cmp(big.NewInt(int64(t.w))) >= 0 {
			r = bigZero
		} else {
			r = new(big.Int).Rsh(ev(t.args[0]), uint(s.Int64()))
		}
	case OpAshr:
		s := ev(t.args[1])
		n := uint(t.w - 1)
		if s.Cmp(big.NewInt(int64(t.w))) < 0 {
			n = uint(s.Int64())
		}
		r = new(big.Int).Rsh(sg(t.args[0]), n)
	case OpConcat:
		r = new(big.Int)
		for _, a := range t.args {
			r = new(big.Int).Lsh(r, uint(a.w))
			r.Or(r, ev(a))
		}
	case OpExtract:
		r = new(big.Int).Rsh(ev(t.args[0]), uint(t.k))
	case OpSext:
		r = sg(t.args[0])
	case OpUF:
		as := make([]*big.Int, len(t.args))
		for i, a := range t.args {
			as[i] = ev(a)
		}
		r = uf(t.name, t.w, as)
	default:
		panic("eval op")
	}
	r = new(big.Int).And(r, m)
	memo[t] = r
	return r
}

// ---------- printing

func (t *Term) String() string { return termStr(t, 4) }

var opNames = [...]string{"const", "var", "not", "and", "or", "xor", "ite", "=", "u<", "s<", "sum", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "cat", "ext", "sext", "uf", "float"}

func termStr(t *Term, d int) string {
	switch t.op {
	case OpConst:
		return fmt.Sprintf("%s:%d", t.bigv().String(), t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var b strings.Builder
	b.WriteString("(" + opNames[t.op])
	if t.op == OpUF {
		b.WriteString(" " + t.name)
	}
	if t.op == OpExtract {
		fmt.Fprintf(&b, "[%d:%d]", int(t.k)+t.w-1, t.k)
	}
	for i, a := range t.args {
		if i > 12 {
			b.WriteString(" ...")
			break
		}
		b.WriteString(" ")
		if t.op == OpSum {
			fmt.Fprintf(&b, "%s*", (&TM{}).coef(t, i).String())
		}
		b.WriteString(termStr(a, d-1))
	}
	if t.op == OpSum {
		fmt.Fprintf(&b, " +%s", (&TM{}).sumK(t).String())
	}
	b.WriteString(")")
	return b.String()
}

var _ = bits.Len
