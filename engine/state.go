package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- path condition: persistent list

type PCNode struct {
	c      *Term
	parent *PCNode
	n      int
	alias  bool // implied by the other nodes; lookup only
	ft     *Term
	fv     uint64
}

func (p *PCNode) add(tm *TM, c *Term) *PCNode {
	if c.isTrue() {
		return p
	}
	n := 0
	if p != nil {
		n = p.n
	}
	if c.op == OpAnd && c.w == 1 {
		q := p
		for _, a := range c.args {
			q = q.add(tm, a)
		}
		return &PCNode{c: c, parent: q, n: q.n + 1, alias: true}
	}
	return &PCNode{c: c, parent: p, n: n + 1}
}

// holds: 1 when c syntactically follows, 0 when its negation does, -1 otherwise
func (p *PCNode) holds(tm *TM, c *Term) int {
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return 0
	}
	nc := tm.Not(c)
	for q := p; q != nil; q = q.parent {
		if q.c == c {
			return 1
		}
		if q.c == nc {
			return 0
		}
	}
	return -1
}

func (p *PCNode) list(stop *PCNode) []*Term {
	var out []*Term
	for q := p; q != nil && q != stop; q = q.parent {
		if !q.alias {
			out = append(out, q.c)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------- frames

type Defer struct {
	fn   *Closure
	args []Value
}

type Frame struct {
	owner int
	fn    *ssa.Function
	info  *FnInfo
	blk   int
	pc    int
	prev  int
	regs  []Value
	free  []Value

	defers    []Defer
	running   bool // executing deferred calls (RunDefers or panic)
	panicking bool
	panicVal  Value
	recovered bool
	panicMsg  string
	deferOf   int // 1+index of the frame whose deferred call this is
	onRet     int // special continuation: 0 normal; 1 discard result
	id        int

	// C frame
	cf    *CFunc
	cprev int
}

type Gor struct {
	id     int
	frames []*Frame
	done   bool
	vc     []int
	wait   string
}

type State struct {
	owner   int
	heap    Heap
	gs      []*Gor
	cur     int
	pc      *PCNode
	names   map[string]int
	stall   int
	dead    bool
	why     string
	sched   bool
	mapord  bool
	races   bool
	nsched  int
	trace   []string
	preempt int
	rs      *raceState
}

func (x *Exec) newOwner() int { x.nextOwner++; return x.nextOwner }

func (x *Exec) fork(s *State) *State {
	n := *s
	n.owner = x.newOwner()
	s.owner = x.newOwner()
	n.gs = make([]*Gor, len(s.gs))
	for i, g := range s.gs {
		h := *g
		h.frames = append([]*Frame(nil), g.frames...)
		h.vc = append([]int(nil), g.vc...)
		n.gs[i] = &h
	}
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	if s.rs != nil {
		r := &raceState{sh: make(map[[2]int]*shadow, len(s.rs.sh)), hb: make(map[int][]int, len(s.rs.hb))}
		for k, v := range s.rs.sh {
			r.sh[k] = v
		}
		for k, v := range s.rs.hb {
			r.hb[k] = v
		}
		n.rs = r
	}
	return &n
}

// top returns the current frame, writable
func (s *State) top() *Frame {
	g := s.gs[s.cur]
	return s.wframe(g, len(g.frames)-1)
}

func (s *State) wframe(g *Gor, i int) *Frame {
	f := g.frames[i]
	if f.owner != s.owner {
		n := *f
		n.owner = s.owner
		n.regs = append([]Value(nil), f.regs...)
		n.defers = append([]Defer(nil), f.defers...)
		g.frames[i] = &n
		f = &n
	}
	return f
}

// ---------- heap access

func (x *Exec) obj(s *State, id int) *Obj {
	if o := s.heap.get(id); o != nil {
		return o
	}
	o := x.base.get(id)
	if o == nil {
		panic(unsup("dangling object #%d", id))
	}
	return o
}

func (x *Exec) wobj(s *State, id int) *Obj {
	o := x.obj(s, id)
	if o.owner != s.owner {
		o = o.clone(s.owner)
		s.heap.set(id, o, s.owner)
	}
	return o
}

func (x *Exec) newObj(s *State, cells []Value, kind string) *Obj {
	x.nextObj++
	o := &Obj{id: x.nextObj, owner: s.owner, cells: cells, kind: kind}
	s.heap.set(o.id, o, s.owner)
	return o
}

func (x *Exec) alloc(s *State, t types.Type, kind string) Ptr {
	cells := x.appendZero(make(Agg, 0, x.ncells(t)), t)
	o := x.newObj(s, cells, kind)
	o.typ = t
	return Ptr{obj: o.id}
}

// ---------- positions and merging

func (s *State) posKey() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%v%v|", s.cur, s.stall, s.sched, s.mapord)
	for _, g := range s.gs {
		fmt.Fprintf(&b, "g%d:%v:", g.id, g.done)
		for _, f := range g.frames {
			fmt.Fprintf(&b, "%d.%d.%d.%v%v%v.%d.%d;", f.id, f.blk, f.pc, f.running, f.panicking, f.recovered, len(f.defers), f.deferOf)
		}
	}
	return b.String()
}

type arrival struct {
	s *State
	g *Term // guard relative to the fork base
}

// mergeTwo merges b into a copy of a: result = gb ? b : a. ok=false when not mergeable.
func (x *Exec) mergeTwo(a, b arrival, base *PCNode) (arrival, bool) {
	tm := x.tm
	sa, sb := a.s, b.s
	for k, v := range sa.names {
		if sb.names[k] != v {
			return arrival{}, false
		}
	}
	if len(sa.names) != len(sb.names) || len(sa.gs) != len(sb.gs) {
		return arrival{}, false
	}
	if sa.preempt != sb.preempt {
		return arrival{}, false
	}
	if sa.rs != nil && !sameRaces(sa.rs, sb.rs) {
		return arrival{}, false
	}
	g := b.g // choose b when g
	n := x.fork(sa)
	// frames
	for i, ga := range sa.gs {
		gb := sb.gs[i]
		if len(ga.frames) != len(gb.frames) {
			return arrival{}, false
		}
		for j := range ga.frames {
			fa, fb := ga.frames[j], gb.frames[j]
			if fa == fb {
				continue
			}
			if fa.fn != fb.fn || fa.cf != fb.cf || len(fa.regs) != len(fb.regs) {
				return arrival{}, false
			}
			nf := n.wframe(n.gs[i], j)
			var live []bool
			if fa.fn != nil {
				top := j == len(ga.frames)-1
				live = x.liveAt(fa.info, fa.blk, fa.pc, !top || ga.wait == "call")
			}
			for r := range fa.regs {
				if live != nil && !live[r] {
					nf.regs[r] = nil
					continue
				}
				v, ok := x.mergeVal(g, fb.regs[r], fa.regs[r])
				if !ok {
					return arrival{}, false
				}
				nf.regs[r] = v
			}
			for r := range fa.free {
				v, ok := x.mergeVal(g, fb.free[r], fa.free[r])
				if !ok {
					return arrival{}, false
				}
				if !sameVal(v, fa.free[r]) {
					nf.free = append([]Value(nil), nf.free...)
					nf.free[r] = v
				}
			}
			for d := range fa.defers {
				da, db := fa.defers[d], fb.defers[d]
				if !sameVal(da.fn, db.fn) || len(da.args) != len(db.args) {
					return arrival{}, false
				}
				na := make([]Value, len(da.args))
				for k := range na {
					v, ok := x.mergeVal(g, db.args[k], da.args[k])
					if !ok {
						return arrival{}, false
					}
					na[k] = v
				}
				nf.defers[d] = Defer{da.fn, na}
			}
			if fa.panicking {
				v, ok := x.mergeVal(g, fb.panicVal, fa.panicVal)
				if !ok {
					return arrival{}, false
				}
				nf.panicVal = v
				if fa.panicMsg != fb.panicMsg {
					return arrival{}, false
				}
			}
			if fa.prev != fb.prev {
				nf.prev = -1
			}
		}
	}
	// heap
	okAll := true
	heapDiff(&sa.heap, &sb.heap, func(id int, oa, ob *Obj) {
		if !okAll {
			return
		}
		if oa == nil {
			oa = x.base.get(id)
		}
		if ob == nil {
			ob = x.base.get(id)
		}
		if oa == ob {
			return
		}
		if oa == nil {
			n.heap.set(id, ob, n.owner)
			return
		}
		if ob == nil {
			return
		}
		if len(oa.cells) != len(ob.cells) {
			okAll = false
			return
		}
		var no *Obj
		w := func() *Obj {
			if no == nil {
				no = oa.clone(n.owner)
			}
			return no
		}
		for i := range oa.cells {
			ca, cb := oa.cells[i], ob.cells[i]
			if sameVal(ca, cb) {
				continue
			}
			v, ok := x.mergeVal(g, cb, ca)
			if !ok {
				okAll = false
				return
			}
			w().cells[i] = v
		}
		if oa.m != nil && ob.m != nil {
			if len(oa.m.ents) != len(ob.m.ents) {
				okAll = false
				return
			}
			for i := range oa.m.ents {
				ea, eb := oa.m.ents[i], ob.m.ents[i]
				k, ok1 := x.mergeVal(g, eb.k, ea.k)
				v, ok2 := x.mergeVal(g, eb.v, ea.v)
				if !ok1 || !ok2 {
					okAll = false
					return
				}
				if _, isU := k.(*Union); isU {
					okAll = false
					return
				}
				w().m.ents[i] = MapEntry{k, v}
			}
		}
		if oa.ch != nil && ob.ch != nil {
			if oa.ch.closed != ob.ch.closed || len(oa.ch.buf) != len(ob.ch.buf) || len(oa.ch.sends) != len(ob.ch.sends) || oa.ch.recvq != ob.ch.recvq {
				okAll = false
				return
			}
			for i := range oa.ch.buf {
				v, ok := x.mergeVal(g, ob.ch.buf[i], oa.ch.buf[i])
				if !ok {
					okAll = false
					return
				}
				w().ch.buf[i] = v
			}
			for i := range oa.ch.sends {
				v, ok := x.mergeVal(g, ob.ch.sends[i].v, oa.ch.sends[i].v)
				if !ok || oa.ch.sends[i].g != ob.ch.sends[i].g {
					okAll = false
					return
				}
				w().ch.sends[i].v = v
			}
		}
		if no != nil {
			n.heap.set(id, no, n.owner)
		}
	})
	if !okAll {
		return arrival{}, false
	}
	// path condition
	da := tm.And(append(sa.pc.list(base), tm.True())...)
	db := tm.And(append(sb.pc.list(base), tm.True())...)
	n.pc = base.add(tm, tm.Or(da, db))
	for i := range n.gs {
		for k := range n.gs[i].vc {
			if k < len(sb.gs[i].vc) && sb.gs[i].vc[k] != n.gs[i].vc[k] {
				return arrival{}, false
			}
		}
	}
	return arrival{n, tm.Or(a.g, b.g)}, true
}

func (x *Exec) mergeAll(arms [][]*State, conds []*Term, base *PCNode) []*State {
	groups := map[string][]arrival{}
	var order []string
	for i, as := range arms {
		cnt := map[string]int{}
		keys := make([]string, len(as))
		for j, s := range as {
			keys[j] = s.posKey()
			cnt[keys[j]]++
		}
		for j, s := range as {
			g := conds[i]
			if cnt[keys[j]] > 1 {
				g = x.tm.And(append(s.pc.list(base), x.tm.True())...)
			}
			if _, ok := groups[keys[j]]; !ok {
				order = append(order, keys[j])
			}
			groups[keys[j]] = append(groups[keys[j]], arrival{s, g})
		}
	}
	var out []*State
	for _, k := range order {
		var done []arrival
		for _, a := range groups[k] {
			merged := false
			for i := range done {
				if m, ok := x.mergeTwo(done[i], a, base); ok {
					done[i] = m
					merged = true
					x.stats.Merges++
					break
				}
			}
			if !merged {
				done = append(done, a)
			}
		}
		for _, d := range done {
			out = append(out, d.s)
		}
	}
	return out
}

// ---------- function info

type FnInfo struct {
	fn      *ssa.Function
	idx     map[ssa.Value]int
	n       int
	ipdom   []int // -1: exit
	liveIn  [][]bool
	first   []int // first non-phi
	liveMem map[[3]int][]bool
}

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if i, ok := x.fnInfo[fn]; ok {
		return i
	}
	in := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, liveMem: map[[3]int][]bool{}}
	for _, p := range fn.Params {
		in.idx[p] = in.n
		in.n++
	}
	for _, b := range fn.Blocks {
		f := 0
		for k, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				in.idx[v] = in.n
				in.n++
			}
			if _, ok := ins.(*ssa.Phi); ok {
				f = k + 1
			}
		}
		in.first = append(in.first, f)
	}
	nb := len(fn.Blocks)
	succ := make([][]int, nb)
	isExit := make([]bool, nb)
	ignore := make([]bool, nb)
	for i, b := range fn.Blocks {
		for _, t := range b.Succs {
			succ[i] = append(succ[i], t.Index)
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				isExit[i] = true
			} else {
				ignore[i] = true
			}
		}
	}
	in.ipdom = postdom(succ, isExit, ignore)
	x.liveness(in)
	x.fnInfo[fn] = in
	return in
}

// postdom computes immediate postdominators; -1 stands for the exit.
func postdom(succ [][]int, isExit, ignore []bool) []int {
	n := len(succ)
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	// drop blocks from which only ignored blocks are reachable
	for changed := true; changed; {
		changed = false
		for i := 0; i < n; i++ {
			if ignore[i] || isExit[i] || len(succ[i]) == 0 {
				continue
			}
			all := true
			for _, t := range succ[i] {
				if !ignore[t] {
					all = false
				}
			}
			if all {
				ignore[i] = true
				changed = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if ignore[i] {
				continue
			}
			cur := append([]uint64(nil), full...)
			if isExit[i] {
				for k := range cur {
					cur[k] = 0
				}
				cur[n/64] |= 1 << uint(n%64)
			} else {
				for _, t := range succ[i] {
					if ignore[t] {
						continue
					}
					for k := range cur {
						cur[k] &= pd[t][k]
					}
				}
			}
			cur[i/64] |= 1 << uint(i%64)
			for k := range cur {
				if cur[k] != pd[i][k] {
					pd[i] = cur
					changed = true
					break
				}
			}
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]>>uint(j%64)&1 == 1 }
	cnt := func(i int) int {
		c := 0
		for j := 0; j < n; j++ {
			if has(i, j) {
				c++
			}
		}
		return c
	}
	out := make([]int, n)
	for i := 0; i < n; i++ {
		out[i] = -1
		if ignore[i] {
			continue
		}
		if !has(i, n) && cnt(i) == n {
			continue
		}
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && has(i, j) && !ignore[j] {
				if c := cnt(j); c > bc {
					best, bc = j, c
				}
			}
		}
		out[i] = best
	}
	return out
}

func (x *Exec) liveness(in *FnInfo) {
	fn := in.fn
	nb := len(fn.Blocks)
	in.liveIn = make([][]bool, nb) // live at first non-phi
	for i := range in.liveIn {
		in.liveIn[i] = make([]bool, in.n)
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			l := in.computeLive(i, in.first[i])
			for k := range l {
				if l[k] != in.liveIn[i][k] {
					in.liveIn[i] = l
					changed = true
					break
				}
			}
		}
	}
}

func (in *FnInfo) computeLive(bi, pc int) []bool {
	b := in.fn.Blocks[bi]
	live := make([]bool, in.n)
	for _, t := range b.Succs {
		for k, v := range in.liveIn[t.Index] {
			if v {
				live[k] = true
			}
		}
		// phis of t defined there; uses on this edge
		for k := 0; k < in.first[t.Index]; k++ {
			ph := t.Instrs[k].(*ssa.Phi)
			live[in.idx[ph]] = false
		}
		for k := 0; k < in.first[t.Index]; k++ {
			ph := t.Instrs[k].(*ssa.Phi)
			for e, p := range t.Preds {
				if p == b {
					if r, ok := in.idx[ph.Edges[e]]; ok {
						live[r] = true
					}
				}
			}
		}
	}
	var ops [16]*ssa.Value
	for k := len(b.Instrs) - 1; k >= pc; k-- {
		ins := b.Instrs[k]
		if v, ok := ins.(ssa.Value); ok {
			live[in.idx[v]] = false
			// iterators are updated in place
		}
		for _, op := range ins.Operands(ops[:0]) {
			if *op == nil {
				continue
			}
			if r, ok := in.idx[*op]; ok {
				live[r] = true
			}
		}
	}
	if rb := in.fn.Recover; rb != nil && rb.Index != bi && in.liveIn[rb.Index] != nil {
		for k, v := range in.liveIn[rb.Index] {
			if v {
				live[k] = true
			}
		}
	}
	return live
}

// liveAt: live registers before instruction pc of block b; after=true: the
// frame is suspended in a call at pc, whose result is still to be written.
func (x *Exec) liveAt(in *FnInfo, b, pc int, after bool) []bool {
	a := 0
	if after {
		a = 1
	}
	k := [3]int{b, pc, a}
	if l, ok := in.liveMem[k]; ok {
		return l
	}
	p := pc
	if after {
		p++
	}
	var l []bool
	if p <= len(in.fn.Blocks[b].Instrs) {
		l = in.computeLive(b, p)
	} else {
		l = make([]bool, in.n)
	}
	in.liveMem[k] = l
	return l
}

func sameRaces(a, b *raceState) bool {
	if b == nil || len(a.sh) != len(b.sh) || len(a.hb) != len(b.hb) {
		return false
	}
	for k, v := range a.sh {
		w := b.sh[k]
		if w == nil {
			return false
		}
		if w == v {
			continue
		}
		if w.wg != v.wg || w.wc != v.wc || len(w.reads) != len(v.reads) {
			return false
		}
		for r, c := range v.reads {
			if w.reads[r] != c {
				return false
			}
		}
	}
	for k, v := range a.hb {
		w := b.hb[k]
		if len(w) != len(v) {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}
