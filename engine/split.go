package main

import (
	"fmt"
	"os"
	"time"
)

// rebuild applies a substitution through the simplifying constructors.
func (tm *TM) rebuild(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		memo[t] = t
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = tm.rebuild(a, memo)
		if args[i] != a {
			same = false
		}
	}
	var r *Term
	if same {
		r = t
	} else {
		switch t.op {
		case OpNot:
			r = tm.Not(args[0])
		case OpAnd:
			if t.w == 1 {
				r = tm.And(args...)
			} else {
				r = args[0]
				for _, a := range args[1:] {
					r = tm.bvAnd(r, a)
				}
			}
		case OpOr:
			if t.w == 1 {
				r = tm.Or(args...)
			} else {
				r = args[0]
				for _, a := range args[1:] {
					r = tm.bvOr(r, a)
				}
			}
		case OpXor:
			r = args[0]
			for _, a := range args[1:] {
				r = tm.Xor(r, a)
			}
		case OpIte:
			r = tm.Ite(args[0], args[1], args[2])
		case OpEq:
			r = tm.Eq(args[0], args[1])
		case OpUlt:
			r = tm.Ult(args[0], args[1])
		case OpSlt:
			r = tm.Slt(args[0], args[1])
		case OpSum:
			r = tm.CB(t.w, tm.sumK(t))
			for i, a := range args {
				r = tm.Add(r, tm.scale(a, tm.coef(t, i)))
			}
		case OpMul:
			r = args[0]
			for _, a := range args[1:] {
				r = tm.Mul(r, a)
			}
		case OpUdiv:
			r = tm.Udiv(args[0], args[1])
		case OpUrem:
			r = tm.Urem(args[0], args[1])
		case OpSdiv:
			r = tm.Sdiv(args[0], args[1])
		case OpSrem:
			r = tm.Srem(args[0], args[1])
		case OpShl:
			r = tm.Shl(args[0], args[1])
		case OpLshr:
			r = tm.Lshr(args[0], args[1])
		case OpAshr:
			r = tm.Ashr(args[0], args[1])
		case OpConcat:
			r = tm.Concat(args...)
		case OpExtract:
			r = tm.Extract(args[0], int(t.k)+t.w-1, int(t.k))
		case OpSext:
			r = tm.Sext(args[0], t.w)
		case OpUF:
			r = tm.UF(t.name, t.w, args...)
		default:
			r = t
		}
	}
	memo[t] = r
	return r
}

// splitAtom picks the one-bit leaf that guards most of the formula.
func (tm *TM) splitAtom(t *Term) *Term {
	score := map[*Term]int{}
	seen := map[*Term]bool{}
	cseen := map[*Term]map[*Term]bool{}
	// atoms of a condition
	var atoms func(c *Term, d int, f func(*Term))
	atoms = func(c *Term, d int, f func(*Term)) {
		switch {
		case c.isC():
		case c.op == OpVar || c.op == OpExtract || c.op == OpUF:
			if c.w == 1 && (c.op == OpVar || c.args[0].op == OpVar || c.args[0].op == OpUF) {
				f(c)
			}
		case (c.op == OpAnd || c.op == OpOr || c.op == OpNot || c.op == OpXor || c.op == OpIte) && c.w == 1 && d < 3:
			for _, a := range c.args {
				atoms(a, d+1, f)
			}
		case c.op == OpEq && d < 2:
			for _, a := range c.args {
				if a.op == OpConcat {
					for _, b := range a.args {
						if b.w == 1 {
							atoms(b, d+1, f)
						}
					}
				}
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpIte {
			m := cseen[t.args[0]]
			if m == nil {
				m = map[*Term]bool{}
				atoms(t.args[0], 0, func(a *Term) { m[a] = true })
				cseen[t.args[0]] = m
			}
			for a := range m {
				score[a]++
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	var best *Term
	bs := 0
	for a, n := range score {
		// plain inputs first: their cases simplify the arguments of functions
		if depthOf(a) == 0 {
			n *= 4
		}
		if n > bs || (n == bs && best != nil && a.id < best.id) {
			best, bs = a, n
		}
	}
	return best
}

func depthOf(t *Term) int {
	if t.op == OpUF || (len(t.args) > 0 && t.args[0].op == OpUF) {
		return 1
	}
	return 0
}

// leaves collects the variables of the canonical abstraction of t.
func absVars(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] || t.op == OpConst {
		return
	}
	seen[t] = true
	if t.op == OpVar || t.op == OpUF || (t.op == OpXor && t.w > 1) || (t.op == OpExtract && t.args[0].op != OpVar) {
		f(t)
		return
	}
	for _, a := range t.args {
		absVars(a, seen, f)
	}
}

// absUnsat tries to refute target under the conjuncts that share variables
// with it, after abstraction; verdicts are shared between alike queries.
func (tm *TM) absUnsat(target *Term, rest []*Term, timeout time.Duration) bool {
	if target.isFalse() {
		return true
	}
	vars := map[*Term]bool{}
	absVars(target, map[*Term]bool{}, func(v *Term) { vars[v] = true })
	rv := make([][]*Term, len(rest))
	for i, r := range rest {
		absVars(r, map[*Term]bool{}, func(v *Term) { rv[i] = append(rv[i], v) })
	}
	in := make([]bool, len(rest))
	for ch := true; ch; {
		ch = false
		for i := range rest {
			if in[i] {
				continue
			}
			for _, v := range rv[i] {
				if vars[v] {
					in[i] = true
					break
				}
			}
			if in[i] {
				ch = true
				for _, v := range rv[i] {
					vars[v] = true
				}
			}
		}
	}
	cs := []*Term{target}
	for i, r := range rest {
		if in[i] {
			cs = append(cs, r)
		}
	}
	// canonical names follow the target first
	base := tm.canonAll(cs)
	q := tm.And(base...)
	if q.isFalse() {
		return true
	}
	if r, ok := tm.absM[q]; ok {
		return r
	}
	r, _, _ := tm.Check([]*Term{q}, timeout, false)
	tm.absM[q] = r == Unsat
	return r == Unsat
}

// canonAll renames the variables of cs in order of appearance and replaces the
// maximal bit-mixing subterms (functions, xors) by fresh variables: the result
// is weaker than cs, so its unsatisfiability carries over.
func (tm *TM) canonAll(cs []*Term) []*Term {
	memo := map[*Term]*Term{}
	n := 0
	seen := map[*Term]bool{}
	for _, c := range cs {
		absVars(c, seen, func(o *Term) {
			ub := tm.UB(o)
			name := fmt.Sprintf("c!%d!%d", n, o.w)
			small := ub.Cmp(bigMask(o.w)) < 0
			if small {
				name += "!" + ub.String()
			}
			n++
			v := tm.Var(name, o.w)
			if small {
				v.vmax = ub
			}
			memo[o] = v
		})
	}
	out := make([]*Term, len(cs))
	for i, c := range cs {
		out[i] = tm.rebuild(c, memo)
	}
	return out
}

func termSize(c *Term) int {
	m := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if !m[t] {
			m[t] = true
			for _, a := range t.args {
				f(a)
			}
		}
	}
	f(c)
	return len(m)
}

// disjuncts finds a disjunction among the conjuncts of c.
func (tm *TM) disjuncts(c *Term) (ds, rest []*Term) {
	cs := []*Term{c}
	if c.op == OpAnd && c.w == 1 {
		cs = c.args
	}
	best := -1
	for i, a := range cs {
		if a.op == OpNot && a.args[0].op == OpAnd && a.args[0].w == 1 {
			if best < 0 || len(a.args[0].args) > len(cs[best].args[0].args) {
				best = i
			}
		}
	}
	if best < 0 {
		return nil, cs
	}
	for i, a := range cs {
		if i != best {
			rest = append(rest, a)
		}
	}
	for _, a := range cs[best].args[0].args {
		ds = append(ds, tm.Not(a))
	}
	return
}

// CheckSplit decides the conjunction of conds; when the solvers need long it
// splits on one-bit inputs and simplifies each case (cube and conquer).
func (tm *TM) CheckSplit(conds []*Term, timeout time.Duration) (SatResult, *Model, string) {
	deadline := time.Now().Add(timeout)
	c := tm.And(append([]*Term{tm.True()}, conds...)...)
	dbg := os.Getenv("VP_SPLIT") != ""
	var rec func(c *Term, cube []*Term, depth, last int) (SatResult, *Model, string)
	rec = func(c *Term, cube []*Term, depth, last int) (SatResult, *Model, string) {
		if c.isFalse() {
			return Unsat, nil, "simplifier"
		}
		rem := time.Until(deadline)
		if rem < time.Second {
			return Unknown, nil, ""
		}
		if f := foundAt.Load(); f != 0 && time.Now().UnixNano()-f > int64(grace) {
			return Unknown, nil, ""
		}
		var atom *Term
		if depth < 40 {
			atom = tm.splitAtom(c)
		}
		size := termSize(c)
		if atom == nil {
			// the cases are exhausted: one disjunct at a time, abstracted
			ds, rest := tm.disjuncts(c)
			if len(ds) <= 1 {
				ds, rest = []*Term{c}, nil
			}
			if len(ds) <= 64 {
				all := true
				limit := rem / 2
				if depth == 0 && limit > 5*time.Second {
					limit = 5 * time.Second
				}
				for _, d := range ds {
					t0 := time.Now()
					ok := tm.absUnsat(d, rest, limit)
					if dbg {
						fmt.Fprintf(os.Stderr, "disjunct depth %d %v %.2fs\n", depth, ok, time.Since(t0).Seconds())
					}
					if !ok {
						all = false
						break
					}
				}
				if all {
					return Unsat, nil, "split"
				}
			}
		} else if size > 400 && size*5 > last*3 {
			goto split
		}
		{
			to := rem
			if atom != nil {
				to = 500 * time.Millisecond
				if depth == 0 {
					to = 3 * time.Second
				}
			}
			if to > rem {
				to = rem
			}
			last = size
			t0 := time.Now()
			r, m, name := tm.Check(append([]*Term{c}, cube...), to, true)
			if dbg {
				fmt.Fprintf(os.Stderr, "depth %d %v %s %.2fs size %d\n", depth, r, name, time.Since(t0).Seconds(), size)
			}
			if r != Unknown || atom == nil {
				return r, m, name
			}
		}
	split:
		for _, v := range []uint64{0, 1} {
			lit := atom
			if v == 0 {
				lit = tm.Not(atom)
			}
			nc := tm.rebuild(c, map[*Term]*Term{atom: tm.C(1, v)})
			r, m, name := rec(nc, append(append([]*Term{}, cube...), lit), depth+1, last)
			if r != Unsat {
				return r, m, name
			}
		}
		return Unsat, nil, "split"
	}
	// products first as unknown values
	if m := tm.nonlinear(c); len(m) > 0 {
		if q := tm.rebuild(c, m); q.isFalse() {
			return Unsat, nil, "simplifier"
		} else if r, _, name := tm.Check([]*Term{q}, 5*time.Second, false); r == Unsat {
			return Unsat, nil, name
		}
	}
	return rec(c, nil, 0, 1<<30)
}

// nonlinear maps the products and quotients of non-constants in t to fresh
// variables: the result of the replacement is weaker than t.
func (tm *TM) nonlinear(t *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpMul || t.op == OpUdiv && !t.args[1].isC() || t.op == OpUrem && !t.args[1].isC() {
			ub := tm.UB(t)
			name := fmt.Sprintf("n!%d!%d", t.id, t.w)
			v := tm.Var(name, t.w)
			if ub.Cmp(bigMask(t.w)) < 0 {
				v.vmax = ub
			}
			m[t] = v
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	// the low part of a product stays the low part of what replaces it
	for a, v := range m {
		if a.op != OpMul {
			continue
		}
		for b := range m {
			if b.op == OpMul && b.w < a.w && tm.Extract(a, b.w-1, 0) == b {
				m[b] = tm.Extract(v, b.w-1, 0)
			}
		}
	}
	return m
}
