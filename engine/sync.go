package main

import (
	"fmt"
	"strings"
)

// ---------- synchronisation, scheduling and happens-before races

// preemptPoint: in scheduling mode, before a synchronisation operation the
// scheduler may switch to any other goroutine (a symbolic choice), at most
// cfg["preempt"] times per path.
func (x *Exec) preemptPoint(s *State) {
	if !s.sched {
		return
	}
	g := s.gs[s.cur]
	if g.wait == "resumed" {
		g.wait = ""
		return
	}
	// the environment's own operations and the harness's are not scheduling points
	for i := len(g.frames) - 1; i >= 0; i-- {
		if fn := g.frames[i].fn; fn != nil {
			if fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/vpstub/") {
				return
			}
			r := fn
			for r.Parent() != nil {
				r = r.Parent()
			}
			if strings.HasPrefix(r.Name(), "VP") || strings.HasPrefix(r.Name(), "vp") {
				return
			}
			break
		}
	}
	limit := x.cfg["preempt"]
	if limit == 0 {
		limit = 2
	}
	if s.preempt >= limit {
		return
	}
	var others []int
	for i, o := range s.gs {
		if i != s.cur && !o.done {
			others = append(others, i)
		}
	}
	if len(others) == 0 {
		return
	}
	v := x.tm.Var(fmt.Sprintf("sched#%d", s.names["sched"]), 8)
	k := x.chooseOf(s, v, len(others)+1)
	s.names["sched"]++
	if k == 0 {
		return
	}
	s.preempt++
	s.stall = 0
	g.wait = "resumed"
	s.cur = others[k-1]
	panic(reschedule{})
}

type reschedule struct{}

type shadow struct {
	wg, wc int // last write: goroutine, clock
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

type raceState struct {
	sh map[[2]int]*shadow
	hb map[int][]int
}

func (x *Exec) clock(s *State) (int, []int) {
	g := s.gs[s.cur]
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.id, g.vc
}

func vcAt(vc []int, i int) int {
	if i < len(vc) {
		return vc[i]
	}
	return 0
}

func (x *Exec) raceAccess(s *State, o *Obj, off, n int, write bool) {
	if len(s.gs) < 2 && len(s.rs.sh) == 0 {
		// single goroutine so far: accesses happen before any later spawn
		return
	}
	id, vc := x.clock(s)
	for k := 0; k < n; k++ {
		key := [2]int{o.id, off + k}
		sh := s.rs.sh[key]
		ns := &shadow{wg: -1}
		if sh != nil {
			*ns = *sh
		}
		pos := ""
		bad := ""
		if ns.wg >= 0 && ns.wg != id && vcAt(vc, ns.wg) < ns.wc {
			bad = fmt.Sprintf("write by goroutine %d [%s]", ns.wg, ns.wpos)
		}
		if write && bad == "" {
			for r, c := range ns.reads {
				if r != id && vcAt(vc, r) < c {
					bad = fmt.Sprintf("read by goroutine %d [%s]", r, ns.rpos[r])
				}
			}
		}
		if bad != "" {
			kind := "read"
			if write {
				kind = "write"
			}
			x.violation(s, "race", fmt.Sprintf("data race: %s by goroutine %d [%s] is concurrent with %s", kind, id, x.posOf(s), bad), nil)
			panic(pathEnd{"race"})
		}
		pos = x.posOf(s)
		if write {
			ns.wg, ns.wc, ns.wpos = id, vcAt(vc, id), pos
			ns.reads, ns.rpos = nil, nil
		} else {
			nr := map[int]int{}
			np := map[int]string{}
			for a, b := range ns.reads {
				nr[a] = b
				np[a] = ns.rpos[a]
			}
			nr[id] = vcAt(vc, id)
			np[id] = pos
			ns.reads, ns.rpos = nr, np
		}
		s.rs.sh[key] = ns
	}
}

func (x *Exec) hbRelease(s *State, o *Obj) { x.hbRel(s, o.id, 0) }
func (x *Exec) hbAcquire(s *State, o *Obj) { x.hbAcq(s, o.id, 0) }

func (x *Exec) hbRel(s *State, obj, off int) {
	if !s.races {
		return
	}
	id, vc := x.clock(s)
	key := obj*4096 + off
	m := append([]int(nil), s.rs.hb[key]...)
	for i, c := range vc {
		for len(m) <= i {
			m = append(m, 0)
		}
		if c > m[i] {
			m[i] = c
		}
	}
	s.rs.hb[key] = m
	vc[id]++
}

func (x *Exec) hbAcq(s *State, obj, off int) {
	if !s.races {
		return
	}
	g := s.gs[s.cur]
	x.clock(s)
	for i, c := range s.rs.hb[obj*4096+off] {
		for len(g.vc) <= i {
			g.vc = append(g.vc, 0)
		}
		if c > g.vc[i] {
			g.vc[i] = c
		}
	}
}

func (x *Exec) lockWord(s *State, p Ptr, k int) int {
	t, ok := x.obj(s, p.obj).cells[p.off+k].(*Term)
	if !ok || !t.isC() {
		panic(unsup("symbolic lock state"))
	}
	return int(int32(t.k))
}

func (x *Exec) setLockWord(s *State, p Ptr, k, v int) {
	o := x.wobj(s, p.obj)
	w := o.cells[p.off+k].(*Term).w
	o.cells[p.off+k] = x.tm.C(w, uint64(v)&mask64(w))
}

func init() {
	lockArg := func(x *Exec, s *State, args []Value) Ptr {
		p := x.resolve(s, args[0]).(Ptr)
		if p.obj == 0 {
			x.nilDeref()
		}
		return p
	}
	reg("(*sync.Mutex).Lock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		x.preemptPoint(s)
		if x.lockWord(s, p, 0) != 0 {
			panic(switchG{"mutex lock"})
		}
		x.setLockWord(s, p, 0, 1)
		x.hbAcq(s, p.obj, p.off)
		return Tuple{}
	})
	reg("(*sync.Mutex).TryLock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		if x.lockWord(s, p, 0) != 0 {
			return x.tm.False()
		}
		x.setLockWord(s, p, 0, 1)
		x.hbAcq(s, p.obj, p.off)
		return x.tm.True()
	})
	reg("(*sync.Mutex).Unlock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		if x.lockWord(s, p, 0) == 0 {
			panic(rtPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
		}
		x.hbRel(s, p.obj, p.off)
		x.setLockWord(s, p, 0, 0)
		return Tuple{}
	})
	reg("(*sync.RWMutex).Lock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		x.preemptPoint(s)
		if x.lockWord(s, p, 0) != 0 || x.lockWord(s, p, 1) != 0 {
			panic(switchG{"rwmutex lock"})
		}
		x.setLockWord(s, p, 0, 1)
		x.hbAcq(s, p.obj, p.off)
		x.hbAcq(s, p.obj, p.off+1)
		return Tuple{}
	})
	reg("(*sync.RWMutex).Unlock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		if x.lockWord(s, p, 0) == 0 {
			panic(rtPanic{msg: "fatal error: sync: Unlock of unlocked RWMutex"})
		}
		x.hbRel(s, p.obj, p.off)
		x.setLockWord(s, p, 0, 0)
		return Tuple{}
	})
	reg("(*sync.RWMutex).RLock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		x.preemptPoint(s)
		if x.lockWord(s, p, 0) != 0 {
			panic(switchG{"rwmutex rlock"})
		}
		x.setLockWord(s, p, 1, x.lockWord(s, p, 1)+1)
		x.hbAcq(s, p.obj, p.off)
		return Tuple{}
	})
	reg("(*sync.RWMutex).RUnlock", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		if x.lockWord(s, p, 1) == 0 {
			panic(rtPanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		x.hbRel(s, p.obj, p.off+1)
		x.setLockWord(s, p, 1, x.lockWord(s, p, 1)-1)
		return Tuple{}
	})
	wgAdd := func(x *Exec, s *State, p Ptr, d int) {
		n := x.lockWord(s, p, 0) + d
		if n < 0 {
			panic(rtPanic{msg: "sync: negative WaitGroup counter"})
		}
		x.hbRel(s, p.obj, p.off)
		x.setLockWord(s, p, 0, n)
	}
	reg("(*sync.WaitGroup).Add", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		d := int(int64(x.conc(s, x.resolve(s, args[1]).(*Term))))
		wgAdd(x, s, p, d)
		return Tuple{}
	})
	reg("(*sync.WaitGroup).Done", func(x *Exec, s *State, args []Value) Value {
		wgAdd(x, s, lockArg(x, s, args), -1)
		return Tuple{}
	})
	reg("(*sync.WaitGroup).Wait", func(x *Exec, s *State, args []Value) Value {
		p := lockArg(x, s, args)
		x.preemptPoint(s)
		if x.lockWord(s, p, 0) != 0 {
			panic(switchG{"WaitGroup.Wait"})
		}
		x.hbAcq(s, p.obj, p.off)
		return Tuple{}
	})
	// atomics: sequentially consistent, with acquire and release
	atom := func(name string, w bool, f func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term)) {
		reg(name, func(x *Exec, s *State, args []Value) Value {
			p := lockArg(x, s, args)
			x.preemptPoint(s)
			o := x.wobj(s, p.obj)
			x.hbAcq(s, p.obj, p.off)
			old, ok := o.cells[p.off].(*Term)
			if !ok {
				r := x.resolve(s, o.cells[p.off])
				_ = r
				panic(unsup("atomic operation on a non-scalar"))
			}
			r, nv := f(x, s, p, old, args)
			if nv != nil {
				o.cells[p.off] = nv
			}
			x.hbRel(s, p.obj, p.off)
			return r
		})
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ld := func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) { return old, nil }
		st := func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) {
			return Tuple{}, x.resolve(s, a[1]).(*Term)
		}
		add := func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) {
			n := x.tm.Add(old, x.resolve(s, a[1]).(*Term))
			return n, n
		}
		cas := func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) {
			c := x.tm.Eq(old, x.resolve(s, a[1]).(*Term))
			return c, x.tm.Ite(c, x.resolve(s, a[2]).(*Term), old)
		}
		swp := func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) {
			return old, x.resolve(s, a[1]).(*Term)
		}
		for n, f := range map[string]func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term){"Load": ld, "Store": st, "Add": add, "CompareAndSwap": cas, "Swap": swp} {
			atom("sync/atomic."+n+ty, true, f)
			atom("(*sync/atomic."+ty+")."+n, true, f)
			atom("(*internal/runtime/atomic."+ty+")."+n, true, f)
		}
	}
	atom("(*sync/atomic.Bool).Load", false, func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) {
		return x.tm.Not(x.tm.Eq(old, x.tm.C(old.w, 0))), nil
	})
	atom("(*sync/atomic.Bool).Store", true, func(x *Exec, s *State, p Ptr, old *Term, a []Value) (Value, *Term) {
		return Tuple{}, x.tm.Zext(x.resolve(s, a[1]).(*Term), old.w)
	})
}
