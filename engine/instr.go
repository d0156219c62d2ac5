package main

import (
	"math/big"
	"time"

	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) jump(s *State, f *Frame, to *ssa.BasicBlock) {
	from := f.blk
	in := f.info
	n := in.first[to.Index]
	if n > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p.Index == from {
				pi = i
				break
			}
		}
		vals := make([]Value, n)
		for k := 0; k < n; k++ {
			vals[k] = x.get(s, f, to.Instrs[k].(*ssa.Phi).Edges[pi])
		}
		for k := 0; k < n; k++ {
			f.regs[in.idx[to.Instrs[k].(*ssa.Phi)]] = vals[k]
		}
	}
	f.prev = from
	f.blk = to.Index
	f.pc = n
}

func (x *Exec) set(f *Frame, v ssa.Value, r Value) {
	f.regs[f.info.idx[v]] = r
	f.pc++
}

func (x *Exec) term(s *State, f *Frame, v ssa.Value) *Term {
	r := x.get(s, f, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	r = x.resolve(s, r)
	t, ok := r.(*Term)
	if !ok {
		panic(unsup("scalar expected, got %T (%s)", r, v.Name()))
	}
	return t
}

// intTerm: operand widened to 64 bits according to its type
func (x *Exec) intTerm(s *State, f *Frame, v ssa.Value) *Term {
	t := x.term(s, f, v)
	if t.w < 64 {
		if isSigned(v.Type()) {
			return x.tm.Sext(t, 64)
		}
		return x.tm.Zext(t, 64)
	}
	return t
}

func (x *Exec) concInt(s *State, f *Frame, v ssa.Value) int {
	return int(int64(x.conc(s, x.intTerm(s, f, v))))
}

func (x *Exec) instr(s *State, f *Frame, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.If:
		c := x.term(s, f, i.Cond)
		if !c.isC() && x.diamond(i.Block()) && s.pc.holds(x.tm, c) < 0 {
			// both arms are short and meet at once: no need to ask the solver
			panic(forkReq{conds: []*Term{c, x.tm.Not(c)}})
		}
		if x.decide(s, c) {
			x.jump(s, f, i.Block().Succs[0])
		} else {
			x.jump(s, f, i.Block().Succs[1])
		}
	case *ssa.Jump:
		x.jump(s, f, i.Block().Succs[0])
	case *ssa.Return:
		var v Value
		switch len(i.Results) {
		case 0:
		case 1:
			v = x.get(s, f, i.Results[0])
		default:
			t := make(Tuple, len(i.Results))
			for k, r := range i.Results {
				t[k] = x.get(s, f, r)
			}
			v = t
		}
		x.doReturn(s, v)
	case *ssa.Panic:
		v := x.get(s, f, i.X)
		panic(rtPanic{msg: "panic: " + x.describe(s, v), val: v})
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		x.set(f, i, x.alloc(s, t, "alloc"))
	case *ssa.Store:
		p := x.ptr(s, f, i.Addr)
		v := x.get(s, f, i.Val)
		x.store(s, p, v, i.Val.Type())
		f.pc++
	case *ssa.UnOp:
		x.unop(s, f, i)
	case *ssa.BinOp:
		x.set(f, i, x.binop(s, f, i))
	case *ssa.Call:
		x.call(s, f, i.Common(), i)
	case *ssa.Go:
		c, args := x.callee(s, f, i.Common())
		f.pc++
		x.spawn(s, c, args)
	case *ssa.Defer:
		c, args := x.callee(s, f, i.Common())
		f.defers = append(f.defers, Defer{c, args})
		f.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.callClosure(s, d.fn, d.args, 1, len(s.gs[s.cur].frames))
	case *ssa.FieldAddr:
		p := x.ptr(s, f, i.X)
		st := i.X.Type().Underlying().(*types.Pointer).Elem()
		if p.obj == 0 {
			x.nilDeref()
		}
		if p.view > 0 {
			p.off += x.byteFieldOff(st, i.Field)
		} else {
			p.off += x.fieldOff(st, i.Field)
		}
		x.set(f, i, p)
	case *ssa.IndexAddr:
		x.indexAddr(s, f, i)
	case *ssa.Field:
		a, ok := x.val(s, f, i.X).(Agg)
		if !ok {
			panic(unsup("field of %T", x.val(s, f, i.X)))
		}
		o := x.fieldOff(i.X.Type(), i.Field)
		if isAggType(i.Type()) {
			n := x.ncells(i.Type())
			x.set(f, i, append(Agg(nil), a[o:o+n]...))
		} else {
			x.set(f, i, a[o])
		}
	case *ssa.Index:
		x.index(s, f, i)
	case *ssa.Extract:
		t := x.get(s, f, i.Tuple)
		if u, ok := t.(*Union); ok {
			t = x.resolve(s, u)
		}
		x.set(f, i, t.(Tuple)[i.Index])
	case *ssa.MakeInterface:
		v := x.get(s, f, i.X)
		t := i.X.Type()
		if u, ok := v.(*Union); ok {
			nu := &Union{}
			for _, a := range u.alts {
				nu.alts = append(nu.alts, Alt{a.g, Iface{t, a.v}})
			}
			x.set(f, i, nu)
			return
		}
		x.set(f, i, Iface{t, v})
	case *ssa.ChangeInterface:
		x.set(f, i, x.get(s, f, i.X))
	case *ssa.ChangeType:
		x.set(f, i, x.get(s, f, i.X))
	case *ssa.Convert:
		x.set(f, i, x.convert(s, f, i.X, i.Type()))
	case *ssa.MultiConvert:
		x.set(f, i, x.convert(s, f, i.X, i.Type()))
	case *ssa.SliceToArrayPointer:
		sl := x.val(s, f, i.X).(Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if n > sl.len {
			panic(rtPanic{msg: "cannot convert slice to array pointer: length too short"})
		}
		if sl.obj == 0 {
			x.set(f, i, Ptr{})
		} else {
			x.set(f, i, Ptr{obj: sl.obj, off: sl.off, view: sl.view})
		}
	case *ssa.MakeSlice:
		n := x.concInt(s, f, i.Len)
		c := x.concInt(s, f, i.Cap)
		if n < 0 || n > 1<<40 {
			panic(rtPanic{msg: "makeslice: len out of range"})
		}
		if c < n {
			panic(rtPanic{msg: "makeslice: cap out of range"})
		}
		x.set(f, i, x.mkSlice(s, i.Type().Underlying().(*types.Slice).Elem(), n, c))
	case *ssa.MakeMap:
		o := x.newObj(s, nil, "map")
		o.m = &MapData{}
		x.set(f, i, Ptr{obj: o.id})
	case *ssa.MakeChan:
		o := x.newObj(s, nil, "chan")
		o.ch = &ChanData{cap: x.concInt(s, f, i.Size)}
		x.set(f, i, Ptr{obj: o.id})
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.free = append(c.free, x.get(s, f, b))
		}
		x.set(f, i, c)
	case *ssa.Slice:
		x.slice(s, f, i)
	case *ssa.TypeAssert:
		x.typeAssert(s, f, i)
	case *ssa.Lookup:
		x.lookup(s, f, i)
	case *ssa.MapUpdate:
		m := x.ptr(s, f, i.Map)
		if m.obj == 0 {
			panic(rtPanic{msg: "assignment to entry in nil map"})
		}
		k := x.val(s, f, i.Key)
		v := x.get(s, f, i.Value)
		x.mapSet(s, m.obj, k, v)
		f.pc++
	case *ssa.Range:
		v := x.val(s, f, i.X)
		it := &IterVal{}
		if st, ok := v.(Str); ok {
			it.str = &st
		} else {
			p := v.(Ptr)
			it.m = p.obj
			if p.obj != 0 {
				for _, e := range x.obj(s, p.obj).m.ents {
					it.keys = append(it.keys, e.k)
				}
			}
		}
		x.set(f, i, it)
	case *ssa.Next:
		x.next(s, f, i)
	case *ssa.Send:
		c := x.ptr(s, f, i.Chan)
		x.send(s, f, c, x.get(s, f, i.X))
	case *ssa.Select:
		x.sel(s, f, i)
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Phi:
		f.pc++
	default:
		panic(unsup("instruction %T", ins))
	}
}

func (x *Exec) byteFieldOff(t types.Type, i int) int {
	u := t.Underlying().(*types.Struct)
	var fs []*types.Var
	for k := 0; k < u.NumFields(); k++ {
		fs = append(fs, u.Field(k))
	}
	return int(types.SizesFor("gc", "amd64").Offsetsof(fs)[i])
}

func (x *Exec) ptr(s *State, f *Frame, v ssa.Value) Ptr {
	r := x.val(s, f, v)
	p, ok := r.(Ptr)
	if !ok {
		panic(unsup("pointer expected, got %T", r))
	}
	return p
}

func (x *Exec) describe(s *State, v Value) string {
	switch a := v.(type) {
	case Iface:
		if a.t == nil {
			return "nil"
		}
		if st, ok := a.v.(Str); ok && st.b == nil {
			return st.s
		}
		if p, ok := a.v.(Ptr); ok && p.obj != 0 {
			if o := x.obj(s, p.obj); len(o.cells) > 0 {
				if st, ok := o.cells[0].(Str); ok && st.b == nil {
					return st.s
				}
			}
		}
		return a.t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) checkIndex(s *State, idx *Term, n int) {
	tm := x.tm
	if idx.isC() {
		if idx.k >= uint64(n) {
			panic(rtPanic{msg: fmt.Sprintf("index out of range [%d] with length %d", int64(idx.k), n)})
		}
		return
	}
	x.must(s, tm.Ult(idx, tm.C(idx.w, uint64(n))), fmt.Sprintf("index out of range with length %d", n))
}

func (x *Exec) indexAddr(s *State, f *Frame, i *ssa.IndexAddr) {
	b := x.val(s, f, i.X)
	idx := x.intTerm(s, f, i.Index)
	var p Ptr
	var n, es int
	switch v := b.(type) {
	case Slice:
		n = v.len
		es = v.esz
		p = Ptr{obj: v.obj, off: v.off, view: v.view}
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n = int(at.Len())
		es = x.ncells(at.Elem())
		if v.view > 0 {
			es = int(types.SizesFor("gc", "amd64").Sizeof(at.Elem()))
		}
		if v.obj == 0 {
			x.nilDeref()
		}
		p = v
	default:
		panic(unsup("indexaddr of %T", b))
	}
	x.checkIndex(s, idx, n)
	if idx.isC() {
		p.off += int(idx.k) * es
	} else if n == 1 {
		// index is 0
	} else if n > 4096 {
		k := x.conc(s, idx)
		p.off += int(k) * es
	} else {
		p.sym = &SymList{idx: idx, str: es, n: n, next: p.sym}
	}
	x.set(f, i, p)
}

func (x *Exec) index(s *State, f *Frame, i *ssa.Index) {
	b := x.val(s, f, i.X)
	idx := x.intTerm(s, f, i.Index)
	tm := x.tm
	switch v := b.(type) {
	case Str:
		x.checkIndex(s, idx, v.Len())
		bs := x.strBytes(v)
		if idx.isC() {
			x.set(f, i, bs[idx.k])
			return
		}
		acc := bs[len(bs)-1]
		for k := len(bs) - 2; k >= 0; k-- {
			acc = tm.Ite(tm.Eq(idx, tm.C(idx.w, uint64(k))), bs[k], acc)
		}
		x.set(f, i, acc)
	case Agg:
		n := int(i.X.Type().Underlying().(*types.Array).Len())
		x.checkIndex(s, idx, n)
		es := x.ncells(i.Type())
		at := func(k int) Value {
			if isAggType(i.Type()) {
				return append(Agg(nil), v[k*es:(k+1)*es]...)
			}
			return v[k]
		}
		if idx.isC() {
			x.set(f, i, at(int(idx.k)))
			return
		}
		acc := at(n - 1)
		for k := n - 2; k >= 0; k-- {
			m, ok := x.mergeVal(tm.Eq(idx, tm.C(idx.w, uint64(k))), at(k), acc)
			if !ok {
				panic(unsup("symbolic array index"))
			}
			acc = m
		}
		x.set(f, i, acc)
	default:
		panic(unsup("index of %T", b))
	}
}

func (x *Exec) slice(s *State, f *Frame, i *ssa.Slice) {
	b := x.val(s, f, i.X)
	lo, hi, mx := 0, -1, -1
	get := func(v ssa.Value, lim int, what string) int {
		t := x.intTerm(s, f, v)
		if !t.isC() {
			x.must(s, x.tm.Ule(t, x.tm.C(64, uint64(lim))), "slice bounds out of range")
		}
		return int(int64(x.conc(s, t)))
	}
	oob := func(a, b int) {
		panic(rtPanic{msg: fmt.Sprintf("slice bounds out of range [%d:%d]", a, b)})
	}
	switch v := b.(type) {
	case Str:
		hi = v.Len()
		if i.High != nil {
			hi = get(i.High, v.Len(), "high")
		}
		if i.Low != nil {
			lo = get(i.Low, v.Len(), "low")
		}
		if lo < 0 || hi < lo || hi > v.Len() {
			oob(lo, hi)
		}
		if v.b != nil {
			x.set(f, i, x.mkStr(v.b[lo:hi:hi]))
		} else {
			x.set(f, i, Str{s: v.s[lo:hi]})
		}
	case Slice:
		hi = v.len
		if i.High != nil {
			hi = get(i.High, v.cap, "high")
		}
		if i.Low != nil {
			lo = get(i.Low, v.cap, "low")
		}
		mx = v.cap
		if i.Max != nil {
			mx = get(i.Max, v.cap, "max")
		}
		if lo < 0 || hi < lo || mx < hi || mx > v.cap {
			oob(lo, hi)
		}
		if v.obj == 0 {
			x.set(f, i, Slice{})
			return
		}
		x.set(f, i, Slice{obj: v.obj, off: v.off + lo*v.esz, len: hi - lo, cap: mx - lo, esz: v.esz, view: v.view})
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		if v.obj == 0 {
			x.nilDeref()
		}
		if v.sym != nil {
			x.concPtr(s, v)
			v = x.fixPtr(s, v)
		}
		es := x.ncells(at.Elem())
		if v.view > 0 {
			es = int(types.SizesFor("gc", "amd64").Sizeof(at.Elem()))
		}
		hi = n
		if i.High != nil {
			hi = get(i.High, n, "high")
		}
		if i.Low != nil {
			lo = get(i.Low, n, "low")
		}
		mx = n
		if i.Max != nil {
			mx = get(i.Max, n, "max")
		}
		if lo < 0 || hi < lo || mx < hi || mx > n {
			oob(lo, hi)
		}
		x.set(f, i, Slice{obj: v.obj, off: v.off + lo*es, len: hi - lo, cap: mx - lo, esz: es, view: v.view})
	default:
		panic(unsup("slice of %T", b))
	}
}

func (x *Exec) concPtr(s *State, p Ptr) {
	for q := p.sym; q != nil; q = q.next {
		x.conc(s, q.idx)
	}
}
func (x *Exec) fixPtr(s *State, p Ptr) Ptr {
	r := Ptr{obj: p.obj, off: p.off, view: p.view}
	for q := p.sym; q != nil; q = q.next {
		r.off += int(x.conc(s, q.idx)) * q.str
	}
	return r
}

// ---------- operators

func (x *Exec) unop(s *State, f *Frame, i *ssa.UnOp) {
	tm := x.tm
	switch i.Op {
	case token.MUL:
		p := x.ptr(s, f, i.X)
		x.set(f, i, x.load(s, p, i.Type()))
	case token.NOT:
		x.set(f, i, tm.Not(x.term(s, f, i.X)))
	case token.SUB:
		t := x.term(s, f, i.X)
		if isFloat(i.Type()) {
			x.set(f, i, tm.lift(t, func(a *Term) *Term { return x.floatC(i.Type(), -floatOf(a)) }))
			return
		}
		x.set(f, i, tm.Neg(t))
	case token.XOR:
		t := x.term(s, f, i.X)
		x.set(f, i, tm.Xor(t, tm.CB(t.w, bigMask(t.w))))
	case token.ARROW:
		c := x.ptr(s, f, i.X)
		et := i.X.Type().Underlying().(*types.Chan).Elem()
		v, ok := x.recv(s, f, c, et)
		if i.CommaOk {
			x.set(f, i, Tuple{v, tm.B(ok)})
		} else {
			x.set(f, i, v)
		}
	default:
		panic(unsup("unop %s", i.Op))
	}
}

func (x *Exec) lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	return x.tm.lift(a, func(a1 *Term) *Term {
		return x.tm.lift(b, func(b1 *Term) *Term { return f(a1, b1) })
	})
}

func (x *Exec) binop(s *State, f *Frame, i *ssa.BinOp) Value {
	tm := x.tm
	t := i.X.Type()
	av, bv := x.get(s, f, i.X), x.get(s, f, i.Y)
	if i.Op == token.EQL || i.Op == token.NEQ {
		if isFloat(t) {
			a, b := av.(*Term), bv.(*Term)
			r := x.lift2(a, b, func(a, b *Term) *Term { return tm.B(floatOf(a) == floatOf(b)) })
			if i.Op == token.NEQ {
				r = tm.Not(r)
			}
			return r
		}
		av, bv = x.unpoison(av), x.unpoison(bv)
		// comparing an interface with a concrete value
		_, ia := av.(Iface)
		_, ib := bv.(Iface)
		if ia && !ib {
			if _, isU := bv.(*Union); !isU {
				bv = Iface{i.Y.Type(), bv}
			}
		} else if ib && !ia {
			if _, isU := av.(*Union); !isU {
				av = Iface{i.X.Type(), av}
			}
		}
		if pa, ok := av.(Ptr); ok {
			if pb, ok := bv.(Ptr); ok && (pa.sym != nil || pb.sym != nil) && pa.obj == pb.obj {
				av, bv = x.fixPtr(s, pa), x.fixPtr(s, pb)
			}
		}
		r := x.eqVal(av, bv)
		if i.Op == token.NEQ {
			r = tm.Not(r)
		}
		return r
	}
	if isStringT(t) {
		a, ok1 := x.resolve(s, av).(Str)
		b, ok2 := x.resolve(s, bv).(Str)
		if !ok1 || !ok2 {
			panic(unsup("string operand"))
		}
		switch i.Op {
		case token.ADD:
			if a.b == nil && b.b == nil {
				return Str{s: a.s + b.s}
			}
			return x.mkStr(append(append([]*Term(nil), x.strBytes(a)...), x.strBytes(b)...))
		case token.LSS:
			return x.strLess(a, b)
		case token.GTR:
			return x.strLess(b, a)
		case token.LEQ:
			return tm.Not(x.strLess(b, a))
		case token.GEQ:
			return tm.Not(x.strLess(a, b))
		}
	}
	a, b := x.term(s, f, i.X), x.term(s, f, i.Y)
	if isFloat(t) {
		return x.lift2(a, b, func(a, b *Term) *Term { return x.floatOp(i.Op, t, a, b) })
	}
	return x.intOp(s, i.Op, a, b, isSigned(t), isSigned(i.Y.Type()))
}

func (x *Exec) unpoison(v Value) Value {
	if p, ok := v.(Poison); ok {
		panic(unsup("use of undefined value: %s", p.why))
	}
	return v
}

func (x *Exec) strLess(a, b Str) *Term {
	tm := x.tm
	if a.b == nil && b.b == nil {
		return tm.B(a.s < b.s)
	}
	p, q := x.strBytes(a), x.strBytes(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	r := tm.B(len(p) < len(q))
	for k := n - 1; k >= 0; k-- {
		r = tm.Or(tm.Ult(p[k], q[k]), tm.And(tm.Eq(p[k], q[k]), r))
	}
	return r
}

func (x *Exec) floatOp(op token.Token, t types.Type, a, b *Term) *Term {
	if !a.isC() || !b.isC() {
		panic(unsup("symbolic floating point"))
	}
	p, q := floatOf(a), floatOf(b)
	switch op {
	case token.ADD:
		return x.floatC(t, p+q)
	case token.SUB:
		return x.floatC(t, p-q)
	case token.MUL:
		return x.floatC(t, p*q)
	case token.QUO:
		return x.floatC(t, p/q)
	case token.LSS:
		return x.tm.B(p < q)
	case token.LEQ:
		return x.tm.B(p <= q)
	case token.GTR:
		return x.tm.B(p > q)
	case token.GEQ:
		return x.tm.B(p >= q)
	}
	panic(unsup("float op %s", op))
}

func (x *Exec) intOp(s *State, op token.Token, a, b *Term, signed, ysigned bool) *Term {
	tm := x.tm
	if x.cfg["pin"] == 1 && (op == token.MUL || op == token.QUO || op == token.REM) && a.w >= 32 {
		b = x.pinned(s, b)
		if op == token.MUL {
			a = x.pinned(s, a)
		}
	}
	switch op {
	case token.ADD:
		return tm.Add(a, b)
	case token.SUB:
		return tm.Sub(a, b)
	case token.MUL:
		return tm.Mul(a, b)
	case token.QUO, token.REM:
		x.must(s, tm.Not(tm.Eq(b, tm.C(b.w, 0))), "integer divide by zero")
		if op == token.QUO {
			if signed {
				return tm.Sdiv(a, b)
			}
			return tm.Udiv(a, b)
		}
		if signed {
			return tm.Srem(a, b)
		}
		return tm.Urem(a, b)
	case token.AND:
		if a.w == 1 {
			return tm.And(a, b)
		}
		return tm.bvAnd(a, b)
	case token.OR:
		if a.w == 1 {
			return tm.Or(a, b)
		}
		return tm.bvOr(a, b)
	case token.XOR:
		return tm.Xor(a, b)
	case token.AND_NOT:
		return tm.bvAnd(a, tm.Xor(b, tm.CB(b.w, bigMask(b.w))))
	case token.SHL, token.SHR:
		if ysigned {
			x.must(s, tm.Not(tm.Slt(b, tm.C(b.w, 0))), "negative shift amount")
		}
		return x.shift(op == token.SHL, a, b, signed)
	case token.LSS:
		if signed {
			return tm.Slt(a, b)
		}
		return tm.Ult(a, b)
	case token.LEQ:
		if signed {
			return tm.Sle(a, b)
		}
		return tm.Ule(a, b)
	case token.GTR:
		if signed {
			return tm.Slt(b, a)
		}
		return tm.Ult(b, a)
	case token.GEQ:
		if signed {
			return tm.Sle(b, a)
		}
		return tm.Ule(b, a)
	}
	panic(unsup("int op %s", op))
}

func (x *Exec) shift(left bool, a, b *Term, signed bool) *Term {
	tm := x.tm
	var big *Term // count >= width
	cnt := b
	if b.w > a.w {
		big = tm.Not(tm.Ult(b, tm.C(b.w, uint64(a.w))))
		cnt = tm.Trunc(b, a.w)
	} else if b.w < a.w {
		cnt = tm.Zext(b, a.w)
	}
	var r, over *Term
	switch {
	case left:
		r, over = tm.Shl(a, cnt), tm.C(a.w, 0)
	case signed:
		r, over = tm.Ashr(a, cnt), tm.Sext(tm.Extract(a, a.w-1, a.w-1), a.w)
	default:
		r, over = tm.Lshr(a, cnt), tm.C(a.w, 0)
	}
	if big != nil {
		return tm.Ite(big, over, r)
	}
	return r
}

// ---------- conversions

func (x *Exec) convert(s *State, f *Frame, xv ssa.Value, to types.Type) Value {
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	tm := x.tm
	// unsafe pointers
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		v := x.val(s, f, xv)
		if p, ok := v.(Ptr); ok {
			return p
		}
		if t, ok := v.(*Term); ok && t.isZero() {
			return Ptr{}
		}
		panic(unsup("integer to unsafe.Pointer"))
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		v := x.val(s, f, xv)
		p, isP := v.(Ptr)
		if !isP {
			panic(unsup("unsafe.Pointer holding %T", v))
		}
		if pt, ok := tu.(*types.Pointer); ok {
			return x.unsafeCast(s, p, pt.Elem())
		}
		return p // uintptr
	}
	v := x.val(s, f, xv)
	if isStringT(to) {
		if st, ok := fu.(*types.Slice); ok {
			sl := v.(Slice)
			if bvWidth(st.Elem()) == 8 {
				return x.mkStr(x.bytesOf(s, sl))
			}
			var rs []rune
			for k := 0; k < sl.len; k++ {
				t := x.sliceGet(s, sl, k, st.Elem()).(*Term)
				rs = append(rs, rune(int32(x.conc(s, t))))
			}
			return Str{s: string(rs)}
		}
		if isInteger(from) {
			return Str{s: string(rune(int64(x.conc(s, v.(*Term)))))}
		}
		if _, ok := v.(Str); ok {
			return v
		}
	}
	if isStringT(from) {
		if st, ok := tu.(*types.Slice); ok {
			str := v.(Str)
			if bvWidth(st.Elem()) == 8 {
				bs := x.strBytes(str)
				return x.mkBytes(s, bs)
			}
			if str.b != nil {
				// ASCII only
				var cs []Value
				for _, b := range str.b {
					if !x.decide(s, tm.Ult(b, tm.C(8, 0x80))) {
						panic(unsup("symbolic non-ASCII text"))
					}
					cs = append(cs, tm.Zext(b, 32))
				}
				o := x.newObj(s, cs, "[]rune")
				return Slice{obj: o.id, len: len(cs), cap: len(cs), esz: 1}
			}
			var cs []Value
			for _, r := range []rune(str.s) {
				cs = append(cs, tm.C(32, uint64(uint32(r))))
			}
			o := x.newObj(s, cs, "[]rune")
			return Slice{obj: o.id, len: len(cs), cap: len(cs), esz: 1}
		}
	}
	t, ok := v.(*Term)
	if !ok {
		if p, isP := v.(Ptr); isP {
			return p // uintptr conversions
		}
		if _, isS := tu.(*types.Slice); isS {
			return v
		}
		panic(unsup("conversion of %T to %s", v, to))
	}
	switch {
	case isFloat(from) && isFloat(to):
		return tm.lift(t, func(a *Term) *Term {
			if !a.isC() {
				panic(unsup("symbolic floating point"))
			}
			return x.floatC(to, floatOf(a))
		})
	case isFloat(from):
		w := bvWidth(to)
		return tm.lift(t, func(a *Term) *Term {
			if !a.isC() {
				panic(unsup("symbolic floating point"))
			}
			fv := floatOf(a)
			if isSigned(to) {
				return tm.C(w, uint64(int64(fv))&mask64(w))
			}
			if fv < 0 {
				return tm.C(w, uint64(int64(fv))&mask64(w))
			}
			return tm.C(w, uint64(fv)&mask64(w))
		})
	case isFloat(to):
		return tm.lift(t, func(a *Term) *Term {
			if !a.isC() {
				if lv := x.leaves(a); lv == nil {
					// enumerate
					k := x.conc(s, a)
					a = tm.C(a.w, k)
				} else {
					panic(unsup("symbolic floating point"))
				}
			}
			if isSigned(from) {
				return x.floatC(to, float64(a.signed64()))
			}
			return x.floatC(to, float64(a.k))
		})
	}
	return x.resize(t, bvWidth(to), isSigned(from))
}

func (x *Exec) resize(t *Term, w int, signed bool) *Term {
	switch {
	case w == 0:
		panic(unsup("conversion to a type without width"))
	case w == t.w:
		return t
	case w < t.w:
		return x.tm.Trunc(t, w)
	case signed:
		return x.tm.Sext(t, w)
	}
	return x.tm.Zext(t, w)
}

// unsafeCast: unsafe.Pointer -> *T
func (x *Exec) unsafeCast(s *State, p Ptr, t types.Type) Value {
	if p.obj == 0 {
		return p
	}
	o := x.obj(s, p.obj)
	// slice header reinterpretation
	if st, ok := t.Underlying().(*types.Slice); ok && p.off < len(o.cells) && p.view == 0 {
		if sl, ok := o.cells[p.off].(Slice); ok && sl.obj != 0 {
			es := int(types.SizesFor("gc", "amd64").Sizeof(st.Elem()))
			so := x.obj(s, sl.obj)
			cb := sl.view
			off := sl.off
			if cb == 0 {
				cb = x.cellBytes(so, sl.off)
				off = sl.off * cb
			}
			if cb == 0 {
				return p
			}
			if sl.view == 0 && es == cb*sl.esz && x.ncells(st.Elem()) == sl.esz {
				return p
			}
			n := Slice{obj: sl.obj, off: off, len: sl.len, cap: sl.cap, esz: es, view: cb}
			no := x.newObj(s, []Value{n}, "slice header view")
			return Ptr{obj: no.id}
		}
		if sl, ok := o.cells[p.off].(Slice); ok && sl.obj == 0 {
			return p
		}
	}
	// scalar/array of a different width: byte view
	if p.view == 0 {
		w := elemWidth(t)
		if p.off < len(o.cells) {
			if c, ok := o.cells[p.off].(*Term); ok && w >= 8 && c.w != w {
				cb := x.cellBytes(o, p.off)
				if p.sym != nil {
					panic(unsup("unsafe cast of a symbolic pointer"))
				}
				return Ptr{obj: p.obj, off: p.off * cb, view: cb}
			}
			if st, ok := o.cells[p.off].(Str); ok {
				_ = st
			}
		}
	}
	return p
}

func elemWidth(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return elemWidth(u.Elem())
	case *types.Struct:
		if u.NumFields() > 0 {
			return elemWidth(u.Field(0).Type())
		}
	}
	return bvWidth(t)
}

// ---------- type assertions

func (x *Exec) typeAssert(s *State, f *Frame, i *ssa.TypeAssert) {
	v := x.val(s, f, i.X)
	iv, ok := v.(Iface)
	if !ok {
		panic(unsup("type assertion on %T", v))
	}
	good := false
	var r Value
	if iv.t != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(iv.t, it) || implementsByMethodSet(x.prog, iv.t, it)
			r = iv
		} else {
			good = types.Identical(iv.t, i.AssertedType)
			r = iv.v
		}
	}
	if !good {
		if !i.CommaOk {
			dyn := "nil"
			if iv.t != nil {
				dyn = iv.t.String()
			}
			panic(rtPanic{msg: fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, i.AssertedType)})
		}
		r = x.zero(i.AssertedType)
	}
	if i.CommaOk {
		x.set(f, i, Tuple{r, x.tm.B(good)})
	} else {
		x.set(f, i, r)
	}
}

func implementsByMethodSet(prog *ssa.Program, t types.Type, it *types.Interface) bool {
	ms := prog.MethodSets.MethodSet(t)
	for k := 0; k < it.NumMethods(); k++ {
		m := it.Method(k)
		if ms.Lookup(m.Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}

// ---------- maps

// mapFind returns the index of the entry whose key equals k on this path, -1 if none
func (x *Exec) mapFind(s *State, m *MapData, k Value) int {
	tm := x.tm
	var conds []*Term
	var idx []int
	for j, e := range m.ents {
		c := x.eqVal(e.k, k)
		if c.isTrue() {
			return j
		}
		if c.isFalse() {
			continue
		}
		switch s.pc.holds(tm, c) {
		case 1:
			return j
		case 0:
			continue
		}
		conds = append(conds, c)
		idx = append(idx, j)
	}
	for j, c := range conds {
		if x.decide(s, c) {
			return idx[j]
		}
	}
	return -1
}

func (x *Exec) mapSet(s *State, id int, k, v Value) {
	j := x.mapFind(s, x.obj(s, id).m, k)
	o := x.wobj(s, id)
	x.access(s, o, 0, 1, true)
	if j >= 0 {
		o.m.ents[j].v = v
		return
	}
	o.m.ents = append(o.m.ents, MapEntry{k, v})
}

func (x *Exec) mapDelete(s *State, id int, k Value) {
	j := x.mapFind(s, x.obj(s, id).m, k)
	if j < 0 {
		return
	}
	o := x.wobj(s, id)
	x.access(s, o, 0, 1, true)
	o.m.ents = append(append([]MapEntry(nil), o.m.ents[:j]...), o.m.ents[j+1:]...)
}

func (x *Exec) lookup(s *State, f *Frame, i *ssa.Lookup) {
	v := x.val(s, f, i.X)
	if st, ok := v.(Str); ok {
		idx := x.intTerm(s, f, i.Index)
		x.checkIndex(s, idx, st.Len())
		bs := x.strBytes(st)
		if idx.isC() {
			x.set(f, i, bs[idx.k])
			return
		}
		acc := bs[len(bs)-1]
		for k := len(bs) - 2; k >= 0; k-- {
			acc = x.tm.Ite(x.tm.Eq(idx, x.tm.C(idx.w, uint64(k))), bs[k], acc)
		}
		x.set(f, i, acc)
		return
	}
	p := v.(Ptr)
	vt := i.X.Type().Underlying().(*types.Map).Elem()
	key := x.val(s, f, i.Index)
	j := -1
	var r Value
	if p.obj != 0 {
		o := x.obj(s, p.obj)
		x.access(s, o, 0, 1, false)
		j = x.mapFind(s, o.m, key)
		if j >= 0 {
			r = o.m.ents[j].v
		}
	}
	if j < 0 {
		r = x.zero(vt)
	}
	if i.CommaOk {
		x.set(f, i, Tuple{r, x.tm.B(j >= 0)})
	} else {
		x.set(f, i, r)
	}
}

func (x *Exec) next(s *State, f *Frame, i *ssa.Next) {
	it, ok := x.get(s, f, i.Iter).(*IterVal)
	if !ok {
		panic(unsup("iterator %T", x.get(s, f, i.Iter)))
	}
	tm := x.tm
	tt := i.Type().(*types.Tuple)
	ir := f.info.idx[i.Iter]
	n := *it
	zeroOf := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Poison{"blank"}
		}
		return x.zero(t)
	}
	if it.str != nil {
		st := *it.str
		if it.pos >= st.Len() {
			x.set(f, i, Tuple{tm.False(), zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())})
			return
		}
		var r *Term
		sz := 1
		if st.b != nil {
			b := st.b[it.pos]
			if !x.decide(s, tm.Ult(b, tm.C(8, 0x80))) {
				panic(unsup("symbolic non-ASCII text"))
			}
			r = tm.Zext(b, 32)
		} else {
			var rn rune
			rn, sz = utf8.DecodeRuneInString(st.s[it.pos:])
			r = tm.C(32, uint64(uint32(rn)))
		}
		n.pos += sz
		f.regs[ir] = &n
		x.set(f, i, Tuple{tm.True(), tm.C(64, uint64(it.pos)), r})
		return
	}
	// map: remaining keys still present
	var m *MapData
	if it.m != 0 {
		o := x.obj(s, it.m)
		x.access(s, o, 0, 1, false)
		m = o.m
	}
	var rem []Value
	for _, k := range it.keys {
		if m != nil && x.mapHas(m, k) {
			rem = append(rem, k)
		}
	}
	if len(rem) == 0 {
		x.set(f, i, Tuple{tm.False(), zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())})
		return
	}
	pick := 0
	if s.mapord && len(rem) > 1 {
		name := fmt.Sprintf("maporder#%d", s.names["maporder"])
		v := tm.Var(name, 8)
		pick = int(x.chooseOf(s, v, len(rem)))
		s.names["maporder"]++
	}
	key := rem[pick]
	n.keys = append(append([]Value(nil), rem[:pick]...), rem[pick+1:]...)
	f.regs[ir] = &n
	var val Value
	for _, e := range m.ents {
		if sameVal(e.k, key) {
			val = e.v
		}
	}
	x.set(f, i, Tuple{tm.True(), key, val})
}

func (x *Exec) mapHas(m *MapData, k Value) bool {
	for _, e := range m.ents {
		if sameVal(e.k, k) {
			return true
		}
	}
	return false
}

// chooseOf: symbolic choice among n alternatives (forks)
func (x *Exec) chooseOf(s *State, v *Term, n int) uint64 {
	tm := x.tm
	for q := s.pc; q != nil; q = q.parent {
		if q.ft == v {
			return q.fv
		}
	}
	var conds []*Term
	var vals []uint64
	for k := 0; k < n; k++ {
		c := tm.Eq(v, tm.C(v.w, uint64(k)))
		if s.pc.holds(tm, c) == 1 {
			return uint64(k)
		}
		if x.feasible(s, c) {
			conds = append(conds, c)
			vals = append(vals, uint64(k))
		}
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible"})
	}
	if len(vals) == 1 {
		s.pc = s.pc.add(tm, conds[0])
		return vals[0]
	}
	panic(forkReq{conds: conds, t: v, vals: vals})
}

// ---------- calls

func (x *Exec) callee(s *State, f *Frame, c *ssa.CallCommon) (*Closure, []Value) {
	var args []Value
	if c.IsInvoke() {
		r := x.val(s, f, c.Value)
		iv, ok := r.(Iface)
		if !ok {
			panic(unsup("method call on %T", r))
		}
		if iv.t == nil {
			x.nilDeref()
		}
		fn := x.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsup("method %s of %s", c.Method.Name(), iv.t))
		}
		args = append(args, iv.v)
		for _, a := range c.Args {
			args = append(args, x.get(s, f, a))
		}
		return &Closure{fn: fn}, args
	}
	for _, a := range c.Args {
		args = append(args, x.get(s, f, a))
	}
	v := x.val(s, f, c.Value)
	cl, ok := v.(*Closure)
	if !ok {
		panic(unsup("call of %T", v))
	}
	return cl, args
}

func (x *Exec) call(s *State, f *Frame, c *ssa.CallCommon, i *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range c.Args {
			args = append(args, x.get(s, f, a))
		}
		v := x.builtin(s, b, args, c.Args)
		x.set(f, i, v)
		return
	}
	cl, args := x.callee(s, f, c)
	if x.tolerant && cl != nil && cl.fn != nil && cl.fn.Name() == "init" && cl.fn.Pkg != nil && cl.fn.Pkg != f.fn.Pkg && cl.fn.Signature.Recv() == nil && len(args) == 0 {
		// other packages are initialised when first used
		f.pc++
		return
	}
	x.callClosure(s, cl, args, 0, 0)
}

func (x *Exec) builtin(s *State, b *ssa.Builtin, args []Value, avs []ssa.Value) Value {
	tm := x.tm
	res := func(k int) Value { return x.resolve(s, args[k]) }
	sig, _ := b.Type().(*types.Signature)
	switch b.Name() {
	case "len", "cap":
		if u, ok := args[0].(*Union); ok {
			// keep lengths symbolic
			var acc *Term
			for k := len(u.alts) - 1; k >= 0; k-- {
				l := tm.C(64, uint64(x.lenOf(s, u.alts[k].v, b.Name() == "cap")))
				if acc == nil {
					acc = l
				} else {
					acc = tm.Ite(u.alts[k].g, l, acc)
				}
			}
			return acc
		}
		return tm.C(64, uint64(x.lenOf(s, x.unpoison(args[0]), b.Name() == "cap")))
	case "append":
		a := res(0).(Slice)
		elem := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		switch src := res(1).(type) {
		case Str:
			return x.appendVals(s, a, elem, Slice{}, &src)
		case Slice:
			return x.appendVals(s, a, elem, src, nil)
		}
		panic(unsup("append of %T", args[1]))
	case "copy":
		d := res(0).(Slice)
		elem := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		switch src := res(1).(type) {
		case Str:
			bs := x.strBytes(src)
			n := len(bs)
			if d.len < n {
				n = d.len
			}
			for k := 0; k < n; k++ {
				x.store(s, x.sliceElemPtr(d, k), bs[k], elem)
			}
			return tm.C(64, uint64(n))
		case Slice:
			n := src.len
			if d.len < n {
				n = d.len
			}
			x.copyCells(s, d, 0, src, n, elem)
			return tm.C(64, uint64(n))
		}
	case "delete":
		m := res(0).(Ptr)
		if m.obj != 0 {
			x.mapDelete(s, m.obj, res(1))
		}
		return Tuple{}
	case "close":
		c := res(0).(Ptr)
		if c.obj == 0 {
			panic(rtPanic{msg: "close of nil channel"})
		}
		o := x.wobj(s, c.obj)
		if o.ch.closed {
			panic(rtPanic{msg: "close of closed channel"})
		}
		o.ch.closed = true
		x.hbRelease(s, o)
		return Tuple{}
	case "panic":
		panic(rtPanic{msg: "panic: " + x.describe(s, args[0]), val: args[0]})
	case "recover":
		g := s.gs[s.cur]
		f := g.frames[len(g.frames)-1]
		if f.deferOf > 0 && f.deferOf <= len(g.frames) {
			p := g.frames[f.deferOf-1]
			if p.panicking && !p.recovered {
				w := s.wframe(g, f.deferOf-1)
				w.recovered = true
				return w.panicVal
			}
		}
		return Iface{}
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		p := res(0)
		if q, ok := p.(Ptr); ok && q.obj == 0 {
			x.nilDeref()
		}
		return p
	case "min", "max":
		acc := res(0)
		for k := 1; k < len(args); k++ {
			v := res(k)
			a, ok1 := acc.(*Term)
			c, ok2 := v.(*Term)
			if !ok1 || !ok2 {
				panic(unsup("min/max of %T", v))
			}
			t := sig.Params().At(0).Type()
			if isFloat(t) {
				acc = x.lift2(a, c, func(a, c *Term) *Term {
					if b.Name() == "min" {
						return x.floatC(t, math.Min(floatOf(a), floatOf(c)))
					}
					return x.floatC(t, math.Max(floatOf(a), floatOf(c)))
				})
				continue
			}
			lt := tm.Ult(a, c)
			if isSigned(t) {
				lt = tm.Slt(a, c)
			}
			if b.Name() == "min" {
				acc = tm.Ite(lt, a, c)
			} else {
				acc = tm.Ite(lt, c, a)
			}
		}
		return acc
	case "clear":
		switch v := res(0).(type) {
		case Ptr:
			if v.obj != 0 {
				x.wobj(s, v.obj).m.ents = nil
			}
		case Slice:
			elem := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for k := 0; k < v.len; k++ {
				x.store(s, x.sliceElemPtr(v, k), x.zero(elem), elem)
			}
		}
		return Tuple{}
	case "String": // unsafe.String(ptr, len)
		p := res(0).(Ptr)
		n := int(x.conc(s, res(1).(*Term)))
		if n == 0 {
			return Str{}
		}
		var bs []*Term
		for k := 0; k < n; k++ {
			bs = append(bs, x.load(s, Ptr{obj: p.obj, off: p.off + k, view: p.view}, types.Typ[types.Uint8]).(*Term))
		}
		return x.mkStr(bs)
	case "StringData":
		st := res(0).(Str)
		sl := x.mkBytes(s, x.strBytes(st))
		return Ptr{obj: sl.obj}
	case "SliceData":
		sl := res(0).(Slice)
		return Ptr{obj: sl.obj, off: sl.off, view: sl.view}
	case "Slice":
		p := res(0).(Ptr)
		n := int(int64(x.conc(s, res(1).(*Term))))
		if n < 0 {
			panic(rtPanic{msg: "unsafe.Slice: len out of range"})
		}
		if p.obj == 0 {
			return Slice{}
		}
		et := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		es := x.ncells(et)
		if p.view > 0 {
			es = int(types.SizesFor("gc", "amd64").Sizeof(et))
		}
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, esz: es, view: p.view}
	case "Add":
		p := res(0).(Ptr)
		n := int(int64(x.conc(s, res(1).(*Term))))
		if n == 0 {
			return p
		}
		if p.view == 0 && p.obj != 0 {
			cb := x.cellBytes(x.obj(s, p.obj), p.off)
			if cb == 0 || n%cb != 0 {
				panic(unsup("unsafe.Add"))
			}
			p.off += n / cb
			return p
		}
		p.off += n
		return p
	}
	panic(unsup("builtin %s", b.Name()))
}

func (x *Exec) lenOf(s *State, v Value, cp bool) int {
	switch a := v.(type) {
	case Slice:
		if cp {
			return a.cap
		}
		return a.len
	case Str:
		return a.Len()
	case Ptr:
		if a.obj == 0 {
			return 0
		}
		o := x.obj(s, a.obj)
		if o.m != nil {
			return len(o.m.ents)
		}
		if o.ch != nil {
			if cp {
				return o.ch.cap
			}
			return len(o.ch.buf)
		}
		if o.typ != nil {
			if at, ok := o.typ.Underlying().(*types.Array); ok {
				return int(at.Len())
			}
		}
	}
	panic(unsup("len of %T", v))
}

// ---------- goroutines and channels

func (x *Exec) spawn(s *State, c *Closure, args []Value) {
	g := &Gor{id: len(s.gs)}
	if s.races {
		p := s.gs[s.cur]
		g.vc = append([]int(nil), p.vc...)
		for len(g.vc) <= g.id {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.id] = 1
		for len(p.vc) <= p.id {
			p.vc = append(p.vc, 0)
		}
		p.vc[p.id]++
	}
	s.gs = append(s.gs, g)
	old := s.cur
	s.cur = len(s.gs) - 1
	x.callClosure(s, c, args, 2, 0)
	s.cur = old
	s.gs[len(s.gs)-1].wait = "start"
	x.yieldPoint(s)
}

// yieldPoint: in scheduling mode, any runnable goroutine may run next
func (x *Exec) yieldPoint(s *State) {}

func (x *Exec) schedPoint(s *State) {
	if !s.sched {
		return
	}
	// handled before synchronisation operations: see sync.go
}

func (x *Exec) send(s *State, f *Frame, c Ptr, v Value) {
	if c.obj == 0 {
		panic(switchG{"send on nil channel"})
	}
	gid := s.gs[s.cur].id
	o := x.obj(s, c.obj)
	if o.ch.cap == 0 {
		// offered before
		if s.gs[s.cur].wait == "sent" {
			s.gs[s.cur].wait = ""
			f.pc++
			return
		}
		for _, sd := range o.ch.sends {
			if sd.g == gid {
				if o.ch.closed {
					panic(rtPanic{msg: "send on closed channel"})
				}
				panic(switchG{"chan send"})
			}
		}
	}
	x.preemptPoint(s)
	o = x.obj(s, c.obj)
	if o.ch.closed {
		panic(rtPanic{msg: "send on closed channel"})
	}
	if o.ch.cap > 0 {
		if len(o.ch.buf) < o.ch.cap {
			o = x.wobj(s, c.obj)
			o.ch.buf = append(o.ch.buf, v)
			x.hbRelease(s, o)
			f.pc++
			return
		}
		panic(switchG{"chan send"})
	}
	// unbuffered: offer, then wait until taken
	o = x.wobj(s, c.obj)
	o.ch.sends = append(o.ch.sends, chanSend{gid, v})
	x.hbRelease(s, o)
	s.stall = 0 // those waiting for it may go on
	panic(switchG{"chan send"})
}

// recvReady: 0 blocked, 1 value, 2 closed
func (x *Exec) recvReady(s *State, c Ptr) int {
	if c.obj == 0 {
		return 0
	}
	ch := x.obj(s, c.obj).ch
	if len(ch.buf) > 0 || len(ch.sends) > 0 {
		return 1
	}
	if ch.closed {
		return 2
	}
	return 0
}

func (x *Exec) recvNow(s *State, c Ptr, et types.Type) (Value, bool) {
	o := x.wobj(s, c.obj)
	x.hbAcquire(s, o)
	ch := o.ch
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		x.hbRelease(s, o)
		return v, true
	}
	if len(ch.sends) > 0 {
		sd := ch.sends[0]
		ch.sends = append([]chanSend(nil), ch.sends[1:]...)
		for _, g := range s.gs {
			if g.id == sd.g {
				g.wait = "sent"
			}
		}
		return sd.v, true
	}
	return x.zero(et), false
}

func (x *Exec) recv(s *State, f *Frame, c Ptr, et types.Type) (Value, bool) {
	if c.obj == 0 {
		panic(switchG{"receive from nil channel"})
	}
	x.preemptPoint(s)
	if x.recvReady(s, c) == 0 {
		panic(switchG{"chan receive"})
	}
	return x.recvNow(s, c, et)
}

func (x *Exec) sel(s *State, f *Frame, i *ssa.Select) {
	tm := x.tm
	x.preemptPoint(s)
	var ready []int
	for k, st := range i.States {
		c := x.ptr(s, f, st.Chan)
		if c.obj == 0 {
			continue
		}
		if st.Dir == types.RecvOnly {
			if x.recvReady(s, c) != 0 {
				ready = append(ready, k)
			}
		} else {
			ch := x.obj(s, c.obj).ch
			if ch.closed || len(ch.buf) < ch.cap {
				ready = append(ready, k)
			} else if ch.cap == 0 {
				panic(unsup("select with a send on an unbuffered channel"))
			}
		}
	}
	mk := func(idx int, ok bool, recvIdx int, rv Value) {
		t := Tuple{tm.C(64, uint64(int64(idx))), tm.B(ok)}
		for k, st := range i.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			if k == recvIdx {
				t = append(t, rv)
			} else {
				t = append(t, x.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		x.set(f, i, t)
	}
	if len(ready) == 0 {
		if !i.Blocking {
			mk(-1, false, -1, nil)
			return
		}
		panic(switchG{"select"})
	}
	pick := 0
	if len(ready) > 1 {
		v := tm.Var(fmt.Sprintf("select#%d", s.names["select"]), 8)
		pick = int(x.chooseOf(s, v, len(ready)))
		s.names["select"]++
	}
	k := ready[pick]
	st := i.States[k]
	c := x.ptr(s, f, st.Chan)
	if st.Dir == types.RecvOnly {
		v, ok := x.recvNow(s, c, st.Chan.Type().Underlying().(*types.Chan).Elem())
		mk(k, ok, k, v)
		return
	}
	o := x.wobj(s, c.obj)
	if o.ch.closed {
		panic(rtPanic{msg: "send on closed channel"})
	}
	o.ch.buf = append(o.ch.buf, x.get(s, f, st.Send))
	x.hbRelease(s, o)
	mk(k, false, -1, nil)
}

// pinned returns the constant that the path condition implies t to be, or t:
// multiplications and divisions by constants are easier to reason about.
func (x *Exec) pinned(s *State, t *Term) *Term {
	tm := x.tm
	b := t
	for b.op == OpConcat && len(b.args) == 2 && b.args[0].isZero() {
		b = b.args[1]
	}
	if b.isC() || b.op != OpIte && b.op != OpSum && b.op != OpUrem {
		return t
	}
	pc := tm.relevant(s.pc.list(nil), t)
	r, m, _ := tm.Check(append(pc, tm.Eq(t, t)), 10*time.Second, true)
	if r != Sat {
		return t
	}
	v := tm.CB(t.w, tm.Eval(t, m.Vars, ufLookup(m), map[*Term]*big.Int{}))
	if r, _, _ := tm.CheckSplit(append(pc, tm.Not(tm.Eq(t, v))), 60*time.Second); r == Unsat {
		return v
	}
	return t
}

// varsOf returns the inputs in t.
func (tm *TM) varsOf(t *Term) []*Term {
	if r, ok := tm.varM[t]; ok {
		return r
	}
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OpConst {
			return
		}
		seen[t] = true
		if t.op == OpVar || t.op == OpUF {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	if tm.varM == nil {
		tm.varM = map[*Term][]*Term{}
	}
	tm.varM[t] = out
	return out
}

// relevant returns the conjuncts that share inputs with t, transitively.
func (tm *TM) relevant(cs []*Term, t *Term) []*Term {
	vars := map[*Term]bool{}
	for _, v := range tm.varsOf(t) {
		vars[v] = true
	}
	var out []*Term
	in := make([]bool, len(cs))
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if in[i] {
				continue
			}
			for _, v := range tm.varsOf(c) {
				if vars[v] {
					in[i], ch = true, true
					for _, w := range tm.varsOf(c) {
						vars[w] = true
					}
					out = append(out, c)
					break
				}
			}
		}
	}
	return out
}

// diamond tells whether the arms of the branch that ends b are short, free of
// calls and checks, and meet right after.
func (x *Exec) diamond(b *ssa.BasicBlock) bool {
	if r, ok := x.diaM[b]; ok {
		return r
	}
	if x.diaM == nil {
		x.diaM = map[*ssa.BasicBlock]bool{}
	}
	// only data may differ after the merge: not sizes, positions or pointers
	data := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		switch b.Kind() {
		case types.Bool, types.UntypedBool, types.Uint8, types.Uint16, types.Uint32:
			return true
		}
		return false
	}
	end := func(a *ssa.BasicBlock) *ssa.BasicBlock {
		if len(a.Preds) != 1 || len(a.Succs) != 1 || len(a.Instrs) > 8 {
			return nil
		}
		for _, i := range a.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if !data(i.Val.Type()) {
					return nil
				}
			case *ssa.Jump, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return nil
				}
			case *ssa.BinOp:
				if i.Op == token.QUO || i.Op == token.REM {
					return nil
				}
			default:
				return nil
			}
		}
		return a.Succs[0]
	}
	l, r := b.Succs[0], b.Succs[1]
	el, er := end(l), end(r)
	res := el != nil && (el == r || el == er) || er != nil && er == l
	if res {
		join := el
		if el == nil {
			join = er
		}
		for _, i := range join.Instrs {
			if p, ok := i.(*ssa.Phi); ok && !data(p.Type()) {
				res = false
			}
		}
	}
	x.diaM[b] = res
	return res
}
