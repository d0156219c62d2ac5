package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	tm                   *TM
	prog                 *ssa.Program
	ld                   *Loaded
	cellMemo             map[types.Type]int
	fnInfo               map[*ssa.Function]*FnInfo
	consts               map[*ssa.Const]Value
	base                 Heap
	nextObj              int
	nextOwner, nextFrame int
	globals              map[*ssa.Global]int
	globRev              map[int]*ssa.Global
	inited               map[*ssa.Package]int // 1 running, 2 done
	inc                  *IncSolver
	cfns                 map[string]*CFunc
	cfg                  map[string]int
	depthAt              map[string]int
	maxUnwind            int
	cut                  int
	supMemo              map[*Term]int8
	initName             string
	deadline             time.Time
	isKnown              func(msg string) bool
	res                  *RunResult
	stats                RunStats
	tolerant             bool
	opaque               int
	assertTO             time.Duration
	funcs                map[string]bool
	intrMemo             map[*ssa.Function]intrFn
	diaM                 map[*ssa.BasicBlock]bool
	contracts            map[string]*ssa.Function // functions replaced by what another check shows of them
	ending               func(*State)
	curPos               string
	curInstr             string
}

type RunStats struct {
	Steps, Forks, Merges, Paths, Asserts int64
}

type Violation struct {
	Msg   string
	Pos   string
	Model *Model
	Kind  string
}

type RunResult struct {
	Violations   []*Violation
	Inconclusive []string
	Reached      map[string]bool
	reachCond    map[string]bool
	Completed    int // feasible complete paths
	cuts         int
}

func (r *RunResult) inconclusive(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, o := range r.Inconclusive {
		if o == m {
			return
		}
	}
	if len(r.Inconclusive) < 50 {
		r.Inconclusive = append(r.Inconclusive, m)
	}
}

type Stop struct {
	g, depth, blk, pc int
}

type forkReq struct {
	conds []*Term
	t     *Term // when set: conds[i] is t == vals[i]
	vals  []uint64
}
type pathEnd struct{ why string }
type switchG struct{ why string }
type timeUp struct{ enough bool }

type rtPanic struct {
	msg string
	val Value // nil: runtime error
}

// ---------- run

func (x *Exec) at(s *State, st *Stop) bool {
	if st == nil {
		return false
	}
	g := s.gs[st.g]
	if len(g.frames) < st.depth {
		return true
	}
	if s.cur != st.g || len(g.frames) != st.depth || st.blk < 0 {
		return false
	}
	f := g.frames[len(g.frames)-1]
	return f.blk == st.blk && f.pc == st.pc && !f.panicking
}

func (x *Exec) run(s *State, stop *Stop) []*State {
	work := []*State{s}
	var arrived []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		ev := x.steps(s, stop)
		switch e := ev.(type) {
		case nil: // arrived
			arrived = append(arrived, s)
		case pathEnd:
			s.dead = true
			s.why = e.why
			x.stats.Paths++
			if e.why == "done" && x.ending != nil {
				x.ending(s)
			}
		case forkReq:
			js := x.joinStop(s)
			key := joinKey(s.gs[s.cur].frames[js.depth-1])
			x.depthAt[key]++
			if x.depthAt[key] > x.cut && x.randomOnly(e.conds) {
				// rejection sampling: only the arms that leave the loop are followed
				if k := x.leavesLoop(s, &js); k >= 0 && k < len(e.conds) {
					x.res.cuts++
					x.depthAt[key]--
					s.pc = s.pc.add(x.tm, e.conds[k])
					work = append(work, s)
					continue
				}
			}
			if x.depthAt[key] > x.maxUnwind {
				x.res.inconclusive("unwinding limit %d at %s", x.maxUnwind, x.posOf(s))
				x.depthAt[key]--
				continue
			}
			x.stats.Forks++
			base := s.pc
			arms := make([][]*State, len(e.conds))
			for i, c := range e.conds {
				var n *State
				if i == len(e.conds)-1 {
					n = s
					n.owner = x.newOwner()
				} else {
					n = x.fork(s)
				}
				n.pc = base.add(x.tm, c)
				if e.t != nil {
					pn := 0
					if n.pc != nil {
						pn = n.pc.n
					}
					n.pc = &PCNode{c: c, parent: n.pc, n: pn + 1, alias: true, ft: e.t, fv: e.vals[i]}
				}
				arms[i] = x.run(n, &js)
			}
			x.depthAt[key]--
			m := x.mergeAll(arms, e.conds, base)
			for i := len(m) - 1; i >= 0; i-- {
				work = append(work, m[i])
			}
		}
	}
	return arrived
}

func (x *Exec) joinStop(s *State) Stop {
	g := s.gs[s.cur]
	f := g.frames[len(g.frames)-1]
	st := Stop{g: s.cur, depth: len(g.frames)}
	if f.cf != nil {
		return x.cJoin(f, st)
	}
	ins := f.fn.Blocks[f.blk].Instrs[f.pc]
	if _, ok := ins.(*ssa.If); ok {
		p := f.info.ipdom[f.blk]
		st.blk = p
		if p >= 0 {
			st.pc = f.info.first[p]
		}
		return st
	}
	st.blk = f.blk
	st.pc = f.pc + 1
	return st
}

func (x *Exec) posOf(s *State) string {
	if s.cur >= len(s.gs) || len(s.gs[s.cur].frames) == 0 {
		return "?"
	}
	var out []string
	fr := s.gs[s.cur].frames
	for i := len(fr) - 1; i >= 0 && len(out) < 6; i-- {
		f := fr[i]
		if f.cf != nil {
			out = append(out, "C:"+f.cf.name)
			continue
		}
		if f.blk < len(f.fn.Blocks) && f.pc < len(f.fn.Blocks[f.blk].Instrs) {
			ins := f.fn.Blocks[f.blk].Instrs[f.pc]
			p := x.prog.Fset.Position(insPos(f, ins))
			fn := p.Filename
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			out = append(out, fmt.Sprintf("%s (%s:%d)", f.fn.RelString(nil), fn, p.Line))
		}
	}
	return strings.Join(out, " < ")
}

func insPos(f *Frame, ins ssa.Instruction) token.Pos {
	if p := ins.Pos(); p.IsValid() {
		return p
	}
	b := f.fn.Blocks[f.blk]
	for i := f.pc; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	for i := f.pc; i < len(b.Instrs); i++ {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return f.fn.Pos()
}

// steps executes until an event: nil (arrived at stop), pathEnd or forkReq.
func (x *Exec) steps(s *State, stop *Stop) (ev interface{}) {
	for {
		ev, again := x.stepLoop(s, stop)
		if !again {
			return ev
		}
	}
}

func (x *Exec) stepLoop(s *State, stop *Stop) (ev interface{}, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case forkReq:
				ev, again = e, false
			case pathEnd:
				ev, again = e, false
			case rtPanic:
				x.startPanic(s, e)
				ev, again = nil, true
			case Unsupported:
				if x.tolerant {
					if x.tolerate(s, e) {
						ev, again = nil, true
						return
					}
				}
				x.res.inconclusive("%s at %s", e.Error(), x.posOf(s))
				if os.Getenv("VP_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "UNSUP %s at %s\n", e.Error(), x.posOf(s))
				}
				ev, again = pathEnd{"unsupported"}, false
			case switchG:
				ev, again = x.doSwitch(s, e)
			case reschedule:
				ev, again = nil, true
			case timeUp:
				panic(e)
			default:
				fmt.Fprintf(os.Stderr, "engine crash at %s: %v\n", x.posOf(s), r)
				panic(r)
			}
		}
	}()
	for n := 0; ; n++ {
		if x.at(s, stop) {
			return nil, false
		}
		if n&1023 == 1023 {
			x.checkTime()
		}
		x.stats.Steps++
		g := s.gs[s.cur]
		if len(g.frames) == 0 {
			// goroutine finished
			g.done = true
			if s.cur == 0 {
				return pathEnd{"done"}, false
			}
			panic(switchG{"exit"})
		}
		f := s.top()
		if f.panicking {
			x.unwind(s, f)
			continue
		}
		if f.cf != nil {
			x.cstep(s, f)
			s.stall = 0
			continue
		}
		ins := f.fn.Blocks[f.blk].Instrs[f.pc]
		x.instr(s, f, ins)
		s.stall = 0
	}
}

func (x *Exec) doSwitch(s *State, e switchG) (interface{}, bool) {
	s.gs[s.cur].wait = e.why
	if e.why != "exit" && e.why != "yield" {
		s.stall++
	}
	if e.why == "yielded" {
		s.stall = 0
	}
	live := 0
	for _, g := range s.gs {
		if !g.done {
			live++
		}
	}
	if s.stall >= live {
		// nobody can make progress
		if s.cur == 0 || !s.gs[0].done {
			var w []string
			for _, g := range s.gs {
				if !g.done {
					w = append(w, fmt.Sprintf("goroutine %d: %s", g.id, g.wait))
				}
			}
			x.violation(s, "deadlock", "deadlock: all goroutines are blocked ("+strings.Join(w, "; ")+")", nil)
		}
		return pathEnd{"deadlock"}, false
	}
	n := len(s.gs)
	for k := 1; k <= n; k++ {
		i := (s.cur + k) % n
		if !s.gs[i].done {
			s.cur = i
			break
		}
	}
	return nil, true
}

// ---------- panics

func (x *Exec) startPanic(s *State, e rtPanic) {
	g := s.gs[s.cur]
	for len(g.frames) > 0 && g.frames[len(g.frames)-1].cf != nil {
		g.frames = g.frames[:len(g.frames)-1]
	}
	f := s.top()
	f.panicking = true
	f.recovered = false
	f.panicMsg = e.msg + " at " + x.posOf(s)
	if e.val != nil {
		f.panicVal = e.val
	} else {
		f.panicVal = x.runtimeError(s, e.msg)
	}
}

func (x *Exec) runtimeError(s *State, msg string) Value {
	// a runtime.Error-like value: errors.errorString pointer is enough
	return x.mkError(s, "runtime error: "+msg)
}

func (x *Exec) mkError(s *State, msg string) Value {
	p := x.prog.ImportedPackage("errors")
	if p == nil {
		return Iface{types.Typ[types.String], Str{s: msg}}
	}
	t := p.Type("errorString").Type()
	o := x.newObj(s, []Value{Str{s: msg}}, "error")
	return Iface{types.NewPointer(t), Ptr{obj: o.id}}
}

// unwind runs one step of panic propagation in frame f
func (x *Exec) unwind(s *State, f *Frame) {
	g := s.gs[s.cur]
	if f.recovered {
		// finish remaining defers, then return from the function
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.callClosure(s, d.fn, d.args, 1, len(g.frames))
			return
		}
		f.panicking = false
		f.recovered = false
		f.running = false
		if f.fn.Recover != nil {
			f.prev = -1
			f.blk = f.fn.Recover.Index
			f.pc = 0
			return
		}
		x.doReturn(s, x.zeroResults(f.fn))
		return
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.callClosure(s, d.fn, d.args, 1, len(g.frames))
		return
	}
	// propagate
	pv, msg := f.panicVal, f.panicMsg
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		x.violation(s, "panic", "uncaught panic: "+msg, nil)
		panic(pathEnd{"panic"})
	}
	if f.deferOf > 0 && f.deferOf == len(g.frames) {
		// panic in a deferred call replaces the current one
		p := s.top()
		p.panicking = true
		p.recovered = false
		p.panicVal, p.panicMsg = pv, msg
		return
	}
	for len(g.frames) > 0 && g.frames[len(g.frames)-1].cf != nil {
		g.frames = g.frames[:len(g.frames)-1]
	}
	p := s.top()
	p.panicking = true
	p.recovered = false
	p.panicVal, p.panicMsg = pv, msg
}

func (x *Exec) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

// ---------- calls

func (x *Exec) pushFrame(s *State, fn *ssa.Function, args []Value, free []Value, onRet, deferOf int) {
	if fn.Blocks == nil {
		panic(unsup("call of external function %s", fn.String()))
	}
	if len(s.gs[s.cur].frames) > 400 {
		panic(unsup("call depth"))
	}
	in := x.info(fn)
	x.nextFrame++
	f := &Frame{owner: s.owner, fn: fn, info: in, regs: make([]Value, in.n), free: free, onRet: onRet, deferOf: deferOf, id: x.nextFrame, prev: -1}
	copy(f.regs, args)
	if len(args) != len(fn.Params) {
		panic(unsup("arity of %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	s.gs[s.cur].frames = append(s.gs[s.cur].frames, f)
	x.noteFunc(fn)
}

func (x *Exec) noteFunc(fn *ssa.Function) {
	o := fn
	if o.Origin() != nil {
		o = o.Origin()
	}
	if o.Pkg != nil {
		p := o.Pkg.Pkg.Path()
		if strings.HasPrefix(p, modPath) && !strings.HasPrefix(p, modPath+"/vp") {
			x.funcs[o.RelString(nil)] = true
		} else if isDepOfInterest(p) {
			x.funcs[o.RelString(nil)] = true
		}
	}
}

// callClosure: onRet 0: store the result in the calling instruction's
// register and advance; 1: discard (deferred call)
func (x *Exec) callClosure(s *State, c *Closure, args []Value, onRet, deferOf int) {
	if c == nil {
		panic(rtPanic{msg: "invalid memory address or nil pointer dereference (nil func)"})
	}
	if c.bi != nil {
		v := x.builtin(s, c.bi, args, nil)
		x.finishCall(s, v, onRet)
		return
	}
	fn := c.fn
	if in := x.intrinsic(fn); in != nil {
		v, pushed := in(x, s, fn, args)
		if !pushed {
			x.finishCall(s, v, onRet)
		} else if onRet != 0 || deferOf != 0 {
			t := s.top()
			t.onRet, t.deferOf = onRet, deferOf
		}
		return
	}
	if strings.HasPrefix(fn.Name(), "_Cfunc_") {
		x.pushC(s, strings.TrimPrefix(fn.Name(), "_Cfunc_"), args, onRet, deferOf)
		return
	}
	x.pushFrame(s, fn, args, c.free, onRet, deferOf)
}

func (x *Exec) finishCall(s *State, v Value, onRet int) {
	g := s.gs[s.cur]
	if len(g.frames) == 0 {
		return
	}
	f := s.top()
	if onRet == 1 {
		// deferred call done: RunDefers re-executes, unwinding continues
		return
	}
	if onRet == 2 { // goroutine entry: nothing
		return
	}
	ins := f.fn.Blocks[f.blk].Instrs[f.pc]
	if val, ok := ins.(ssa.Value); ok {
		f.regs[f.info.idx[val]] = v
	}
	f.pc++
}

func (x *Exec) doReturn(s *State, v Value) {
	g := s.gs[s.cur]
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	x.finishCall(s, v, f.onRet)
}

// ---------- operands

func (x *Exec) get(s *State, f *Frame, v ssa.Value) Value {
	if i, ok := f.info.idx[v]; ok {
		r := f.regs[i]
		if r == nil {
			if _, isT := v.Type().(*types.Tuple); isT {
				return Tuple{}
			}
			panic(unsup("undefined register %s in %s", v.Name(), f.fn))
		}
		return r
	}
	switch a := v.(type) {
	case *ssa.Const:
		return x.constVal(a)
	case *ssa.Global:
		return Ptr{obj: x.globalObj(a)}
	case *ssa.Function:
		return &Closure{fn: a}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == a {
				return f.free[i]
			}
		}
	case *ssa.Builtin:
		return &Closure{bi: a}
	}
	panic(unsup("operand %T", v))
}

// val: operand with unions resolved
func (x *Exec) val(s *State, f *Frame, v ssa.Value) Value {
	return x.resolve(s, x.get(s, f, v))
}

func (x *Exec) resolve(s *State, v Value) Value {
	switch u := v.(type) {
	case *Union:
		var conds []*Term
		var pick []Value
		for _, a := range u.alts {
			switch s.pc.holds(x.tm, a.g) {
			case 1:
				return a.v
			case 0:
				continue
			}
			conds = append(conds, a.g)
			pick = append(pick, a.v)
		}
		if len(conds) == 1 {
			return pick[0]
		}
		// check feasibility
		var fc []*Term
		var fv []Value
		for i, c := range conds {
			if x.feasible(s, c) {
				fc = append(fc, c)
				fv = append(fv, pick[i])
			}
		}
		if len(fc) == 0 {
			panic(pathEnd{"infeasible"})
		}
		if len(fc) == 1 {
			s.pc = s.pc.add(x.tm, fc[0])
			return fv[0]
		}
		panic(forkReq{conds: fc})
	case Poison:
		panic(unsup("use of undefined value: %s", u.why))
	}
	return v
}

func (x *Exec) feasible(s *State, c *Term) bool {
	switch s.pc.holds(x.tm, c) {
	case 1:
		return true
	case 0:
		return false
	}
	full := x.tm.And(append(x.tm.relevant(s.pc.list(nil), c), c, x.tm.True())...)
	t0 := time.Now()
	ms := 0
	if js := x.joinStop(s); true {
		fr := s.gs[s.cur].frames[js.depth-1]
		if x.depthAt[joinKey(fr)] < 3 {
			ms = 400 // a branch that is taken anyway: both arms are explored when the answer takes long
		}
	}
	if m := x.cfg["branchms"]; m > 0 && ms > 0 {
		ms = m
	}
	r := x.inc.Check(full, ms)
	if d := time.Since(t0); d > 150*time.Millisecond && os.Getenv("VP_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "slow branch %v %v %s ms=%d %s\n", d, r, x.posOf(s), ms, cut(c.String(), 300))
	}
	x.checkTime()
	return r != Unsat
}

// decide returns the truth of c on this path, forking when both are possible.
func (x *Exec) decide(s *State, c *Term) bool {
	switch s.pc.holds(x.tm, c) {
	case 1:
		return true
	case 0:
		return false
	}
	nc := x.tm.Not(c)
	ft := x.feasible(s, c)
	if !ft {
		s.pc = s.pc.add(x.tm, nc)
		return false
	}
	if !x.feasible(s, nc) {
		s.pc = s.pc.add(x.tm, c)
		return true
	}
	panic(forkReq{conds: []*Term{c, nc}})
}

// must: panics with msg on paths where c does not hold
func (x *Exec) must(s *State, c *Term, msg string) {
	if c.isTrue() {
		return
	}
	if !x.decide(s, c) {
		panic(rtPanic{msg: msg})
	}
}

const enumLimit = 300

// conc returns the value of t on this path, forking over its possible values.
func (x *Exec) conc(s *State, t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	tm := x.tm
	for q := s.pc; q != nil; q = q.parent {
		if q.ft == t {
			return q.fv
		}
	}
	if t.w == 1 {
		if x.decide(s, t) {
			return 1
		}
		return 0
	}
	// pinned by an assumption
	b := t
	for b.op == OpConcat && len(b.args) == 2 && b.args[0].isZero() {
		b = b.args[1]
	}
	if b.w == 1 {
		switch s.pc.holds(tm, b) {
		case 1:
			return 1
		case 0:
			return 0
		}
	} else if b.w <= 64 {
		for q := s.pc; q != nil; q = q.parent {
			if q.c.op == OpEq && (q.c.args[0] == b && q.c.args[1].isC() || q.c.args[1] == b && q.c.args[0].isC()) {
				if q.c.args[0].isC() {
					return q.c.args[0].k
				}
				return q.c.args[1].k
			}
		}
	}
	var vals []uint64
	var conds []*Term
	if lv := x.leaves(t); lv != nil {
		for _, v := range lv {
			c := tm.Eq(t, tm.C(t.w, v))
			if s.pc.holds(tm, c) == 1 {
				return v
			}
			if x.feasible(s, c) {
				vals = append(vals, v)
				conds = append(conds, c)
			}
		}
	} else {
		excl := s.pc.list(nil)
		for {
			t0 := time.Now()
			r, m, _ := tm.Check(excl, 60*time.Second, true)
			if os.Getenv("VP_DEBUG") != "" && time.Since(t0) > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow enum %v %v %s %s\n", time.Since(t0), r, x.posOf(s), cut(t.String(), 600))
			}
			if r == Unsat {
				break
			}
			if r == Unknown {
				panic(unsup("enumeration of a symbolic value: solver gave no answer"))
			}
			memo := map[*Term]*big.Int{}
			v := tm.Eval(t, m.Vars, ufLookup(m), memo)
			c := tm.Eq(t, tm.CB(t.w, v))
			vals = append(vals, v.Uint64())
			conds = append(conds, c)
			excl = append(excl, tm.Not(c))
			if len(vals) > enumLimit {
				panic(unsup("too many values for a length or index: %s", t))
			}
		}
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible"})
	}
	if len(vals) == 1 {
		s.pc = s.pc.add(tm, conds[0])
		return vals[0]
	}
	panic(forkReq{conds: conds, t: t, vals: vals})
}

func ufLookup(m *Model) func(name string, w int, args []*big.Int) *big.Int {
	return func(name string, w int, args []*big.Int) *big.Int {
	next:
		for _, e := range m.UF[name] {
			if len(e.Args) != len(args) {
				continue
			}
			for i := range args {
				if e.Args[i].Cmp(args[i]) != 0 {
					continue next
				}
			}
			return e.Val
		}
		return bigZero
	}
}

// leaves: constant leaves of an ite tree, nil when some leaf is symbolic
func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (x *Exec) leaves(t *Term) []uint64 {
	memo := map[*Term][]*big.Int{}
	var rec func(t *Term) []*big.Int // nil: not known to be few
	rec = func(t *Term) []*big.Int {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = nil
		vals := map[string]*big.Int{}
		switch {
		case t.isC():
			v := x.tm.Eval(t, nil, nil, map[*Term]*big.Int{})
			vals[v.String()] = v
		case t.w == 1:
			vals["0"], vals["1"] = big.NewInt(0), big.NewInt(1)
		case t.op == OpVar || t.op == OpUF || t.op == OpFloat:
			return nil
		case t.op == OpIte:
			for _, a := range t.args[1:] {
				r := rec(a)
				if r == nil {
					return nil
				}
				for _, v := range r {
					vals[v.String()] = v
				}
			}
		default:
			n := 1
			sets := make([][]*big.Int, len(t.args))
			for i, a := range t.args {
				sets[i] = rec(a)
				n *= len(sets[i])
				if n == 0 || n > 4*enumLimit {
					return nil
				}
			}
			for k := 0; k < n; k++ {
				m := map[*Term]*big.Int{}
				for i, q := 0, k; i < len(sets); i++ {
					m[t.args[i]] = sets[i][q%len(sets[i])]
					q /= len(sets[i])
				}
				v := x.tm.Eval(t, nil, nil, m)
				vals[v.String()] = v
			}
		}
		if len(vals) > enumLimit {
			return nil
		}
		out := make([]*big.Int, 0, len(vals))
		for _, k := range sortedKeys(vals) {
			out = append(out, vals[k])
		}
		memo[t] = out
		return out
	}
	lv := rec(t)
	if lv == nil {
		return nil
	}
	var out []uint64
	for _, v := range lv {
		out = append(out, v.Uint64())
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if v, ok := x.consts[c]; ok {
		return v
	}
	var v Value
	t := c.Type()
	if c.Value == nil {
		v = x.zero(t)
	} else {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				v = Str{s: constant.StringVal(constant.ToInt(c.Value))}
				if c.Value.Kind() == constant.String {
					v = Str{s: constant.StringVal(c.Value)}
				}
			case u.Info()&types.IsBoolean != 0:
				v = x.tm.B(constant.BoolVal(c.Value))
			case u.Info()&types.IsInteger != 0:
				w := bvWidth(t)
				iv := constant.ToInt(c.Value)
				if n, ok := constant.Uint64Val(iv); ok {
					v = x.tm.C(w, n&mask64(w))
				} else if n, ok := constant.Int64Val(iv); ok {
					v = x.tm.C(w, uint64(n)&mask64(w))
				} else {
					panic(unsup("constant %s", c))
				}
			case u.Info()&types.IsFloat != 0:
				fv, _ := constant.Float64Val(constant.ToFloat(c.Value))
				v = x.floatC(t, fv)
			default:
				v = Poison{"constant " + c.String()}
			}
		case *types.TypeParam:
			panic(unsup("type parameter constant"))
		default:
			panic(unsup("constant of type %s", t))
		}
	}
	x.consts[c] = v
	return v
}

func (x *Exec) floatC(t types.Type, f float64) *Term {
	if bvWidth(t) == 32 {
		return x.tm.C(32, uint64(math.Float32bits(float32(f))))
	}
	return x.tm.C(64, math.Float64bits(f))
}

func floatOf(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}

// ---------- globals and package initialisation

func (x *Exec) globalObj(g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		x.initPkg(g.Pkg)
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	cells := x.appendZero(make(Agg, 0, x.ncells(t)), t)
	x.nextObj++
	o := &Obj{id: x.nextObj, owner: -1, cells: cells, kind: "global " + g.String(), typ: t}
	x.base.set(o.id, o, -1)
	x.globals[g] = o.id
	x.globRev[o.id] = g
	x.initPkg(g.Pkg)
	return o.id
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "internal/godebug": true, "unsafe": true, "reflect": true, "internal/poll": true, "time": false}

func (x *Exec) initPkg(p *ssa.Package) {
	if x.inited[p] != 0 {
		return
	}
	x.inited[p] = 1
	defer func() { x.inited[p] = 2 }()
	if noInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	// all globals of the package exist before its initialiser runs
	st := &State{owner: x.newOwner(), names: map[string]int{}}
	st.gs = []*Gor{{id: 0}}
	st.cur = 0
	oldInit := x.initName
	x.initName = "init:" + p.Pkg.Path() + ":"
	old := x.tolerant
	oldEnd := x.ending
	oldRes := x.res
	oldDl := x.deadline
	x.res = &RunResult{Reached: map[string]bool{}}
	x.tolerant = true
	x.ending = func(s *State) { st = s }
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(timeUp); ok {
					return
				}
				fmt.Fprintf(os.Stderr, "init of %s: %v\n", p.Pkg.Path(), r)
			}
		}()
		x.pushFrame(st, fn, nil, nil, 2, 0)
		x.run(st, nil)
	}()
	if len(x.res.Violations) > 0 && os.Getenv("VP_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "init of %s: %s\n", p.Pkg.Path(), x.res.Violations[0].Msg)
	}
	x.tolerant, x.ending, x.res, x.deadline = old, oldEnd, oldRes, oldDl
	x.initName = oldInit
	heapDiff(&Heap{}, &st.heap, func(id int, a, b *Obj) {
		if b != nil {
			c := *b
			c.owner = -1
			x.base.set(id, &c, -1)
		}
	})
}

// tolerate: during package initialisation an unsupported instruction yields
// an undefined value and execution continues in the initialiser.
func (x *Exec) tolerate(s *State, e Unsupported) bool {
	if os.Getenv("VP_DEBUG") == "2" {
		fmt.Fprintf(os.Stderr, "tolerated in init: %s at %s\n", e.msg, x.posOf(s))
	}
	g := s.gs[s.cur]
	if len(g.frames) == 0 {
		return false
	}
	// unwind to the outermost init frame
	for len(g.frames) > 1 {
		f := g.frames[len(g.frames)-1]
		g.frames = g.frames[:len(g.frames)-1]
		_ = f
	}
	f := s.top()
	ins := f.fn.Blocks[f.blk].Instrs[f.pc]
	switch i := ins.(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
		return false
	case *ssa.Store:
		func() {
			defer func() { recover() }()
			if p, ok := x.get(s, f, i.Addr).(Ptr); ok && p.obj != 0 {
				o := x.wobj(s, p.obj)
				n := x.ncells(i.Val.Type())
				for k := 0; k < n; k++ {
					o.cells[p.off+k] = Poison{e.msg}
				}
			}
		}()
	case ssa.Value:
		if t, ok := i.Type().(*types.Tuple); ok {
			tp := make(Tuple, t.Len())
			for k := range tp {
				tp[k] = Poison{e.msg}
			}
			f.regs[f.info.idx[i]] = tp
		} else {
			f.regs[f.info.idx[i]] = Poison{e.msg}
		}
	}
	f.pc++
	return true
}

// ---------- violations

// foundAt is when the first unlisted violation of this run turned up: the
// other harnesses get a grace period and stop.
var foundAt atomic.Int64

const grace = 20 * time.Second

func (x *Exec) checkTime() {
	if x.deadline.IsZero() {
		return
	}
	now := time.Now()
	if now.After(x.deadline) {
		panic(timeUp{})
	}
	if f := foundAt.Load(); f != 0 && now.UnixNano()-f > int64(grace) {
		panic(timeUp{enough: true})
	}
}

func (x *Exec) addViolation(v *Violation) {
	x.res.Violations = append(x.res.Violations, v)
	n := 0
	for _, o := range x.res.Violations {
		if x.isKnown == nil || !x.isKnown(o.Msg) {
			n++
		}
	}
	if n > 0 && !x.deadline.IsZero() {
		foundAt.CompareAndSwap(0, time.Now().UnixNano())
	}
	if n >= 2 && !x.deadline.IsZero() {
		panic(timeUp{enough: true})
	}
}

func (x *Exec) violation(s *State, kind, msg string, cond *Term) {
	if x.tolerant {
		x.res.Violations = append(x.res.Violations, &Violation{Msg: msg, Kind: kind})
		return
	}
	conds := s.pc.list(nil)
	if cond != nil {
		conds = append(conds, cond)
	}
	x.stats.Asserts++
	r, m, _ := x.tm.CheckSplit(conds, x.assertLimit())
	switch r {
	case Sat:
		x.addViolation(&Violation{Msg: msg, Pos: x.posOf(s), Model: m, Kind: kind})
	case Unknown:
		x.res.inconclusive("solver gave no answer for %s: %s", kind, msg)
	}
}

func (x *Exec) init() {
	x.cellMemo = map[types.Type]int{}
	x.supMemo = map[*Term]int8{}
}

// randomOnly: the conditions depend on randomness alone (stub draws "rnd..."
// and outputs of uninterpreted functions), not on the harness' inputs
func (x *Exec) randomOnly(cs []*Term) bool {
	for _, c := range cs {
		if x.support(c) != 2 {
			return false
		}
	}
	return len(cs) > 0
}

// support: 1 constant, 2 randomness only, 3 other
func (x *Exec) support(t *Term) int8 {
	if v := x.supMemo[t]; v != 0 {
		return v
	}
	var r int8 = 1
	switch t.op {
	case OpConst:
	case OpVar:
		r = 3
		if strings.HasPrefix(t.name, "rnd") || strings.Contains(t.name, ":rnd") {
			r = 2
		}
	case OpUF:
		r = 2
	default:
		for _, a := range t.args {
			if k := x.support(a); k > r {
				r = k
			}
		}
	}
	x.supMemo[t] = r
	return r
}

// leavesLoop: the pending instruction is an If inside a loop; returns the
// arm (0 or 1) from which this block cannot be reached again, -1 if none
func (x *Exec) leavesLoop(s *State, js *Stop) int {
	f := s.top()
	if f.cf != nil {
		return -1
	}
	if _, ok := f.fn.Blocks[f.blk].Instrs[f.pc].(*ssa.If); !ok {
		return -1
	}
	reach := func(from *ssa.BasicBlock) bool {
		seen := map[int]bool{}
		var rec func(b *ssa.BasicBlock) bool
		rec = func(b *ssa.BasicBlock) bool {
			if b.Index == f.blk {
				return true
			}
			if seen[b.Index] {
				return false
			}
			seen[b.Index] = true
			for _, n := range b.Succs {
				if rec(n) {
					return true
				}
			}
			return false
		}
		return rec(from)
	}
	b := f.fn.Blocks[f.blk]
	a0, a1 := reach(b.Succs[0]), reach(b.Succs[1])
	if a0 && !a1 {
		return 1
	}
	if a1 && !a0 {
		return 0
	}
	return -1
}

func joinKey(f *Frame) string { return fmt.Sprintf("%p/%d/%d", f.info, f.blk, f.pc) }

// assertLimit: an assertion may use the time that is left for the harness
func (x *Exec) assertLimit() time.Duration {
	if x.deadline.IsZero() {
		return x.assertTO
	}
	d := time.Until(x.deadline)
	if d < time.Second {
		d = time.Second
	}
	return d
}
