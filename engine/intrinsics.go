package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(x *Exec, s *State, fn *ssa.Function, args []Value) (v Value, pushed bool)

var intrTab = map[string]intrFn{}

func reg(name string, f func(x *Exec, s *State, args []Value) Value) {
	intrTab[name] = func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		return f(x, s, args), false
	}
}

func regp(name string, f intrFn) { intrTab[name] = f }

func (x *Exec) intrinsic(fn *ssa.Function) intrFn {
	if f, ok := x.intrMemo[fn]; ok {
		return f
	}
	name := fn.String()
	f := intrTab[name]
	if c := x.contracts[strings.Replace(name, "(*", "(", 1)]; c != nil {
		f = func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
			x.pushFrame(s, c, args, nil, 0, 0)
			return nil, true
		}
	}
	if f == nil && fn.Pkg != nil {
		// packages whose functions only log or print
		switch fn.Pkg.Pkg.Path() {
		case "log":
			f = nopResult
		case "runtime", "runtime/debug", "runtime/pprof":
			f = nopResult
		}
		if fn.Pkg.Pkg.Path() == "fmt" && (strings.HasPrefix(fn.Name(), "Print") || strings.HasPrefix(fn.Name(), "Fprint")) {
			f = nopResult
		}
	}
	x.intrMemo[fn] = f
	return f
}

func nopResult(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
	v := x.zeroResults(fn)
	if v == nil {
		v = Tuple{}
	}
	return v, false
}

func (x *Exec) cstr(s *State, v Value) string {
	st, ok := x.resolve(s, v).(Str)
	if !ok || st.b != nil {
		panic(unsup("concrete string expected"))
	}
	return st.s
}

func (x *Exec) vpFunc(name string) *ssa.Function {
	p := x.prog.ImportedPackage(vpPath)
	if p == nil {
		panic(unsup("package vp not loaded"))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsup("vp.%s", name))
	}
	return f
}

func (x *Exec) fresh(s *State, name string, w int) *Term {
	name = x.initName + name
	n := s.names[name]
	s.names[name] = n + 1
	return x.tm.Var(fmt.Sprintf("%s#%d", name, n), w)
}

const modPath = "github.com/si-co/vpir-code"
const vpPath = modPath + "/vp"
const stubPath = modPath + "/vpstub"

func isDepOfInterest(p string) bool {
	return strings.HasPrefix(p, stubPath+"/dpf") || p == "lukechampine.com/uint128" || strings.HasPrefix(p, "github.com/nikirill/")
}

// format: best effort, exact when all arguments are concrete
func (x *Exec) format(s *State, f string, args Value) string {
	sl, ok := x.resolve(s, args).(Slice)
	if !ok {
		return f
	}
	var as []interface{}
	et := types.NewInterfaceType(nil, nil)
	for i := 0; i < sl.len; i++ {
		v := x.sliceGet(s, sl, i, et)
		as = append(as, x.fmtArg(s, v))
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), as...)
}

func (x *Exec) fmtArg(s *State, v Value) interface{} {
	iv, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if iv.t == nil {
		return nil
	}
	switch a := iv.v.(type) {
	case Str:
		if a.b == nil {
			return a.s
		}
	case *Term:
		if a.isC() && a.w <= 64 {
			if a.w == 1 {
				return a.k == 1
			}
			if isFloat(iv.t) {
				return floatOf(a)
			}
			if isSigned(iv.t) {
				return a.signed64()
			}
			if a.w == 8 {
				return byte(a.k)
			}
			return a.k
		}
	case Ptr:
		if a.obj != 0 {
			if o := x.obj(s, a.obj); len(o.cells) > 0 {
				if st, ok := o.cells[0].(Str); ok && st.b == nil {
					return st.s
				}
			}
		}
	}
	return "<?>"
}

func (x *Exec) anyConcrete(s *State, args Value) bool {
	sl, ok := x.resolve(s, args).(Slice)
	if !ok {
		return true
	}
	et := types.NewInterfaceType(nil, nil)
	for i := 0; i < sl.len; i++ {
		if r := x.fmtArg(s, x.sliceGet(s, sl, i, et)); r == "<?>" || r == "?" {
			return false
		}
	}
	return true
}

func (x *Exec) ufApply(name string, nOut int, args [][]*Term) []*Term {
	tm := x.tm
	nm := name + "/"
	var all []*Term
	for i, a := range args {
		if i > 0 {
			nm += ","
		}
		nm += strconv.Itoa(len(a))
		all = append(all, a...)
	}
	nm += "/" + strconv.Itoa(nOut)
	if len(all) == 0 {
		all = []*Term{tm.C(8, 0)}
	}
	var r *Term
	arg := all[0]
	if len(all) > 1 {
		arg = tm.Concat(all...)
	}
	r = tm.UF(nm, nOut*8, arg)
	out := make([]*Term, nOut)
	for i := range out {
		hi := (nOut-i)*8 - 1
		out[i] = tm.Extract(r, hi, hi-7)
	}
	return out
}

func (x *Exec) assertT(s *State, c *Term, msg string) {
	x.stats.Asserts++
	tm := x.tm
	if s.pc.holds(tm, c) == 1 {
		return
	}
	if os.Getenv("VP_TERMS") != "" {
		fmt.Fprintf(os.Stderr, "ASSERT %s\n  pc:", msg)
		for _, q := range s.pc.list(nil) {
			fmt.Fprintf(os.Stderr, "    %s\n", termStr(q, 12))
		}
		fmt.Fprintf(os.Stderr, "  cond: %s\n", termStr(c, 40))
	}
	pc := s.pc.list(nil)
	if os.Getenv("VP_DEBUG") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow assert %v %s (pc %d, relevant %d)\n", d, msg, len(pc), len(tm.relevant(pc, c)))
			}
		}()
	}
	if rel := tm.relevant(pc, c); len(rel) < len(pc) {
		// without what does not concern c first
		if r, _, _ := tm.CheckSplit(append(rel, tm.Not(c)), x.assertLimit()/2); r == Unsat {
			return
		}
	}
	r, m, _ := tm.CheckSplit(append(pc, tm.Not(c)), x.assertLimit())
	switch r {
	case Unsat:
		return
	case Sat:
		x.addViolation(&Violation{Msg: msg, Pos: x.posOf(s), Model: m, Kind: "assert"})
	default:
		x.res.inconclusive("solver gave no answer for assertion %q at %s", msg, x.posOf(s))
	}
	if !x.feasible(s, c) {
		panic(pathEnd{"violated"})
	}
	s.pc = s.pc.add(tm, c)
}

func init() {
	vp := func(n string, f func(x *Exec, s *State, args []Value) Value) { reg(vpPath+"."+n, f) }
	tv := func(x *Exec, s *State, v Value) *Term {
		t, ok := x.resolve(s, v).(*Term)
		if !ok {
			panic(unsup("scalar expected, got %T", v))
		}
		return t
	}
	for n, w := range map[string]int{"Byte": 8, "U16": 16, "U32": 32, "U64": 64, "Bool": 1, "I64": 64} {
		w := w
		vp(n, func(x *Exec, s *State, args []Value) Value { return x.fresh(s, x.cstr(s, args[0]), w) })
	}
	// U64Max(name, max): 0 <= v <= max
	vp("U64Max", func(x *Exec, s *State, args []Value) Value {
		mx := x.conc(s, tv(x, s, args[1]))
		w := bits.Len64(mx)
		if w == 0 {
			return x.tm.C(64, 0)
		}
		v := x.tm.Zext(x.fresh(s, x.cstr(s, args[0]), w), 64)
		if mx != mask64(w) {
			s.pc = s.pc.add(x.tm, x.tm.Ule(v, x.tm.C(64, mx)))
		}
		return v
	})
	vp("Bytes", func(x *Exec, s *State, args []Value) Value {
		n := int(x.conc(s, tv(x, s, args[1])))
		name := x.initName + x.cstr(s, args[0])
		k := s.names[name]
		s.names[name] = k + 1
		b := make([]*Term, n)
		for i := range b {
			b[i] = x.tm.Var(fmt.Sprintf("%s#%d.%d", name, k, i), 8)
		}
		return x.mkBytes(s, b)
	})
	vp("Choose", func(x *Exec, s *State, args []Value) Value {
		name := x.cstr(s, args[0])
		n := int(x.conc(s, tv(x, s, args[1])))
		v := x.tm.Var(fmt.Sprintf("%s#%d", name, s.names[name]), 16)
		k := x.chooseOf(s, v, n)
		s.names[name]++
		return x.tm.C(64, k)
	})
	// Case is Choose whose paths are never merged again
	vp("Contract", func(x *Exec, s *State, args []Value) Value {
		c, ok := x.resolve(s, args[1]).(Iface)
		if !ok {
			panic(unsup("vp.Contract"))
		}
		cl, ok := c.v.(*Closure)
		if !ok || cl.fn == nil {
			panic(unsup("vp.Contract"))
		}
		if x.contracts == nil {
			x.contracts = map[string]*ssa.Function{}
		}
		x.contracts[x.cstr(s, args[0])] = cl.fn
		x.intrMemo = map[*ssa.Function]intrFn{}
		return Tuple{}
	})
	vp("Case", func(x *Exec, s *State, args []Value) Value {
		name := x.cstr(s, args[0])
		n := int(x.conc(s, tv(x, s, args[1])))
		v := x.tm.Var(fmt.Sprintf("%s#%d", name, s.names[name]), 16)
		k := x.chooseOf(s, v, n)
		s.names[fmt.Sprintf("case:%s#%d=%d", name, s.names[name], k)]++
		s.names[name]++
		return x.tm.C(64, k)
	})
	vp("Assume", func(x *Exec, s *State, args []Value) Value {
		c := tv(x, s, args[0])
		if !x.feasible(s, c) {
			panic(pathEnd{"assume"})
		}
		s.pc = s.pc.add(x.tm, c)
		return Tuple{}
	})
	vp("Assert", func(x *Exec, s *State, args []Value) Value {
		x.assertT(s, tv(x, s, args[0]), x.cstr(s, args[1]))
		return Tuple{}
	})
	vp("Reach", func(x *Exec, s *State, args []Value) Value {
		tag := x.cstr(s, args[0])
		if !x.res.Reached[tag] {
			if r, _, _ := x.tm.Check(s.pc.list(nil), x.assertTO, false); r == Sat {
				x.res.Reached[tag] = true
			}
		}
		return Tuple{}
	})
	vp("Cfg", func(x *Exec, s *State, args []Value) Value {
		if v, ok := x.cfg[x.cstr(s, args[0])]; ok {
			return x.tm.C(64, uint64(int64(v)))
		}
		return args[1]
	})
	vp("Symbolic", func(x *Exec, s *State, args []Value) Value { return x.tm.True() })
	vp("And", func(x *Exec, s *State, args []Value) Value { return x.tm.And(tv(x, s, args[0]), tv(x, s, args[1])) })
	vp("Or", func(x *Exec, s *State, args []Value) Value { return x.tm.Or(tv(x, s, args[0]), tv(x, s, args[1])) })
	vp("Implies", func(x *Exec, s *State, args []Value) Value {
		return x.tm.Implies(tv(x, s, args[0]), tv(x, s, args[1]))
	})
	ite := func(x *Exec, s *State, args []Value) Value {
		return x.tm.Ite(tv(x, s, args[0]), tv(x, s, args[1]), tv(x, s, args[2]))
	}
	vp("Ite64", ite)
	vp("Ite32", ite)
	vp("IteInt", ite)
	vp("EqBytes", func(x *Exec, s *State, args []Value) Value {
		a, b := x.resolve(s, args[0]).(Slice), x.resolve(s, args[1]).(Slice)
		return x.eqBytesT(s, a, b)
	})
	vp("Decide", func(x *Exec, s *State, args []Value) Value {
		if os.Getenv("VP_DEBUG") != "" {
			t0 := time.Now()
			defer func() { fmt.Fprintf(os.Stderr, "Decide %v\n", time.Since(t0)) }()
		}
		c := tv(x, s, args[0])
		switch s.pc.holds(x.tm, c) {
		case 1:
			return x.tm.True()
		case 0:
			return x.tm.False()
		}
		nc := x.tm.Not(c)
		pc := x.tm.relevant(s.pc.list(nil), c)
		if r, _, _ := x.tm.CheckSplit(append(pc, c), 30*time.Second); r == Unsat {
			s.pc = s.pc.add(x.tm, nc)
			return x.tm.False()
		}
		if r, _, _ := x.tm.CheckSplit(append(pc, nc), 30*time.Second); r == Unsat {
			s.pc = s.pc.add(x.tm, c)
			return x.tm.True()
		}
		panic(forkReq{conds: []*Term{c, nc}})
	})
	vp("Conc", func(x *Exec, s *State, args []Value) Value {
		return x.tm.C(64, x.conc(s, tv(x, s, args[0])))
	})
	vp("UF", func(x *Exec, s *State, args []Value) Value {
		name := x.cstr(s, args[0])
		n := int(x.conc(s, tv(x, s, args[1])))
		sl := x.resolve(s, args[2]).(Slice)
		var as [][]*Term
		bt := types.NewSlice(types.Typ[types.Uint8])
		for i := 0; i < sl.len; i++ {
			e := x.resolve(s, x.sliceGet(s, sl, i, bt)).(Slice)
			as = append(as, x.bytesOf(s, e))
		}
		return x.mkBytes(s, x.ufApply(name, n, as))
	})
	vp("MapOrder", func(x *Exec, s *State, args []Value) Value {
		s.mapord = tv(x, s, args[0]).isTrue()
		return Tuple{}
	})
	vp("Sched", func(x *Exec, s *State, args []Value) Value {
		s.sched = tv(x, s, args[0]).isTrue()
		return Tuple{}
	})
	vp("Races", func(x *Exec, s *State, args []Value) Value {
		if s.rs == nil {
			s.rs = &raceState{sh: map[[2]int]*shadow{}, hb: map[int][]int{}}
		}
		s.races = tv(x, s, args[0]).isTrue()
		return Tuple{}
	})
	vp("Yield", func(x *Exec, s *State, args []Value) Value {
		g := s.gs[s.cur]
		if g.wait == "yielded" {
			g.wait = ""
			return Tuple{}
		}
		panic(switchG{"yielded"})
	})
	vp("Log", func(x *Exec, s *State, args []Value) Value { return Tuple{} })
	// helpers for the sort stub
	vp("lenAny", func(x *Exec, s *State, args []Value) Value {
		iv := x.resolve(s, args[0]).(Iface)
		return x.tm.C(64, uint64(x.resolve(s, iv.v).(Slice).len))
	})
	vp("swapAny", func(x *Exec, s *State, args []Value) Value {
		iv := x.resolve(s, args[0]).(Iface)
		sl := x.resolve(s, iv.v).(Slice)
		et := iv.t.Underlying().(*types.Slice).Elem()
		i := int(x.conc(s, tv(x, s, args[1])))
		j := int(x.conc(s, tv(x, s, args[2])))
		a, b := x.sliceGet(s, sl, i, et), x.sliceGet(s, sl, j, et)
		x.store(s, x.sliceElemPtr(sl, i), b, et)
		x.store(s, x.sliceElemPtr(sl, j), a, et)
		return Tuple{}
	})
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		regp(n, func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
			x.pushFrame(s, x.vpFunc("SortSlice"), args, nil, 0, 0)
			return nil, true
		})
	}
	regp("bytes.TrimRightFunc", func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		x.pushFrame(s, x.vpFunc("trimRightFunc"), args, nil, 0, 0)
		return nil, true
	})
	vp("never", func(x *Exec, s *State, args []Value) Value {
		return x.tm.B(!x.feasible(s, tv(x, s, args[0])))
	})

	// ---- math
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(x *Exec, s *State, args []Value) Value {
			return x.tm.lift(tv(x, s, args[0]), func(a *Term) *Term {
				if !a.isC() {
					panic(unsup("symbolic floating point"))
				}
				return x.floatC(types.Typ[types.Float64], f(floatOf(a)))
			})
		})
	}
	f1("Sqrt", math.Sqrt)
	f1("sqrt", math.Sqrt)
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	f1("Exp", math.Exp)
	f1("Abs", math.Abs)
	f1("Round", math.Round)
	reg("math.Pow", func(x *Exec, s *State, args []Value) Value {
		return x.lift2(tv(x, s, args[0]), tv(x, s, args[1]), func(a, b *Term) *Term {
			if !a.isC() || !b.isC() {
				panic(unsup("symbolic floating point"))
			}
			return x.floatC(types.Typ[types.Float64], math.Pow(floatOf(a), floatOf(b)))
		})
	})
	id := func(x *Exec, s *State, args []Value) Value { return args[0] }
	reg("math.Float64bits", id)
	reg("math.Float64frombits", id)
	reg("math.Float32bits", id)
	reg("math.Float32frombits", id)
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	reg("internal/stringslite.Clone", id)
	reg("strings.Clone", id)

	// ---- math/bits: multiplications and additions with carry
	reg("math/bits.Mul64", func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		p := tm.Mul(tm.Zext(tv(x, s, args[0]), 128), tm.Zext(tv(x, s, args[1]), 128))
		return Tuple{tm.Extract(p, 127, 64), tm.Extract(p, 63, 0)}
	})
	reg("math/bits.Mul32", func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		p := tm.Mul(tm.Zext(tv(x, s, args[0]), 64), tm.Zext(tv(x, s, args[1]), 64))
		return Tuple{tm.Extract(p, 63, 32), tm.Extract(p, 31, 0)}
	})
	reg("math/bits.Add64", func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		p := tm.Add(tm.Add(tm.Zext(tv(x, s, args[0]), 65), tm.Zext(tv(x, s, args[1]), 65)), tm.Zext(tv(x, s, args[2]), 65))
		return Tuple{tm.Extract(p, 63, 0), tm.Zext(tm.Extract(p, 64, 64), 64)}
	})
	// 128-bit additions (lukechampine.com/uint128): one addition instead of two with
	// carry. The equality of the two is itself checked by 'engine selftest'.
	u128 := func(n string, f func(tm *TM, a, b *Term) *Term) {
		reg("(lukechampine.com/uint128.Uint128)."+n, func(x *Exec, s *State, args []Value) Value {
			tm := x.tm
			g := func(v Value) *Term {
				a, ok := x.resolve(s, v).(Agg)
				if !ok {
					panic(unsup("uint128 operand %T", v))
				}
				return tm.Concat(a[1].(*Term), a[0].(*Term))
			}
			b := args[1]
			var bt *Term
			if t, ok := b.(*Term); ok {
				bt = tm.Zext(t, 128)
			} else {
				bt = g(b)
			}
			r := f(tm, g(args[0]), bt)
			return Agg{tm.Extract(r, 63, 0), tm.Extract(r, 127, 64)}
		})
	}
	u128("AddWrap", func(tm *TM, a, b *Term) *Term { return tm.Add(a, b) })
	u128("SubWrap", func(tm *TM, a, b *Term) *Term { return tm.Sub(a, b) })
	u128("MulWrap", func(tm *TM, a, b *Term) *Term { return tm.Mul(a, b) })
	u128("AddWrap64", func(tm *TM, a, b *Term) *Term { return tm.Add(a, b) })
	u128("SubWrap64", func(tm *TM, a, b *Term) *Term { return tm.Sub(a, b) })

	// ---- runtime and friends
	nop := func(names ...string) {
		for _, n := range names {
			regp(n, nopResult)
		}
	}
	nop("runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.ReadMemStats",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"os.Setenv", "time.Sleep", "(*sync.Pool).Put", "os.Remove",
		"internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value",
		"internal/bisect.New")
	reg("runtime.NumCPU", func(x *Exec, s *State, args []Value) Value {
		if v, ok := x.cfg["numcpu"]; ok {
			return x.tm.C(64, uint64(v))
		}
		return x.tm.C(64, 4)
	})
	reg("runtime.GOMAXPROCS", func(x *Exec, s *State, args []Value) Value { return x.tm.C(64, 4) })
	reg("runtime.NumGoroutine", func(x *Exec, s *State, args []Value) Value { return x.tm.C(64, 1) })
	reg("os.Exit", func(x *Exec, s *State, args []Value) Value {
		panic(rtPanic{msg: "os.Exit", val: Iface{types.Typ[types.String], Str{s: "os.Exit"}}})
	})
	regp("(*sync.Pool).Get", func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		p := x.resolve(s, args[0]).(Ptr)
		// New is the last field
		t := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				c, _ := x.obj(s, p.obj).cells[p.off+x.fieldOff(t, i)].(*Closure)
				if c == nil {
					return Iface{}, false
				}
				x.callClosure(s, c, nil, 0, 0)
				return nil, true
			}
		}
		return Iface{}, false
	})
	reg("time.now", func(x *Exec, s *State, args []Value) Value {
		return Tuple{x.tm.C(64, 1700000000), x.tm.C(32, 0), x.tm.C(64, 1)}
	})
	reg("time.Now", func(x *Exec, s *State, args []Value) Value {
		// wall: hasMonotonic unset, ext: seconds since year 1
		return Agg{x.tm.C(64, 0), x.tm.C(64, uint64(1700000000+62135596800)), Ptr{}}
	})
	reg("time.Since", func(x *Exec, s *State, args []Value) Value { return x.tm.C(64, 0) })
	reg("time.runtimeNano", func(x *Exec, s *State, args []Value) Value { return x.tm.C(64, 1) })
	reg("(*time.Location).get", func(x *Exec, s *State, args []Value) Value {
		// nil means UTC; the local zone is whatever the harness stored in it
		p := x.resolve(s, args[0]).(Ptr)
		if p.obj == 0 {
			pk := x.prog.ImportedPackage("time")
			return Ptr{obj: x.globalObj(pk.Var("utcLoc"))}
		}
		return p
	})

	// ---- errors and formatting
	mkerr := func(x *Exec, s *State, args []Value) Value {
		return x.mkError(s, x.format(s, x.fmtStr(s, args[0]), args[1]))
	}
	reg("golang.org/x/xerrors.Errorf", mkerr)
	reg("fmt.Errorf", mkerr)
	reg("golang.org/x/xerrors.New", func(x *Exec, s *State, args []Value) Value { return x.mkError(s, x.fmtStr(s, args[0])) })
	reg("errors.New", func(x *Exec, s *State, args []Value) Value { return x.mkError(s, x.fmtStr(s, args[0])) })
	reg("fmt.Sprintf", func(x *Exec, s *State, args []Value) Value {
		if !x.anyConcrete(s, args[1]) {
			x.opaque++
			panic(unsup("fmt.Sprintf of symbolic values"))
		}
		return Str{s: x.format(s, x.cstr(s, args[0]), args[1])}
	})
	reg("fmt.Sprint", func(x *Exec, s *State, args []Value) Value {
		sl := x.resolve(s, args[0]).(Slice)
		et := types.NewInterfaceType(nil, nil)
		var as []interface{}
		for i := 0; i < sl.len; i++ {
			as = append(as, x.fmtArg(s, x.sliceGet(s, sl, i, et)))
		}
		return Str{s: fmt.Sprint(as...)}
	})

	// ---- bytealg
	reg("bytes.Equal", func(x *Exec, s *State, args []Value) Value {
		return x.eqBytesT(s, x.resolve(s, args[0]).(Slice), x.resolve(s, args[1]).(Slice))
	})
	reg("internal/bytealg.Equal", func(x *Exec, s *State, args []Value) Value {
		return x.eqBytesT(s, x.resolve(s, args[0]).(Slice), x.resolve(s, args[1]).(Slice))
	})
	reg("crypto/subtle.ConstantTimeCompare", func(x *Exec, s *State, args []Value) Value {
		return x.tm.Zext(x.eqBytesT(s, x.resolve(s, args[0]).(Slice), x.resolve(s, args[1]).(Slice)), 64)
	})
	seq := func(x *Exec, s *State, v Value) []*Term {
		switch a := x.resolve(s, v).(type) {
		case Slice:
			return x.bytesOf(s, a)
		case Str:
			return x.strBytes(a)
		}
		panic(unsup("byte sequence"))
	}
	idxByte := func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		b := seq(x, s, args[0])
		c := tv(x, s, args[1])
		r := tm.C(64, ^uint64(0))
		for i := len(b) - 1; i >= 0; i-- {
			r = tm.Ite(tm.Eq(b[i], c), tm.C(64, uint64(i)), r)
		}
		return r
	}
	lastIdxByte := func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		b := seq(x, s, args[0])
		c := tv(x, s, args[1])
		r := tm.C(64, ^uint64(0))
		for i := 0; i < len(b); i++ {
			r = tm.Ite(tm.Eq(b[i], c), tm.C(64, uint64(i)), r)
		}
		return r
	}
	for _, n := range []string{"IndexByte", "IndexByteString"} {
		reg("internal/bytealg."+n, idxByte)
	}
	reg("bytes.IndexByte", idxByte)
	reg("strings.IndexByte", idxByte)
	reg("internal/stringslite.IndexByte", idxByte)
	for _, n := range []string{"LastIndexByte", "LastIndexByteString"} {
		reg("internal/bytealg."+n, lastIdxByte)
	}
	idx := func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		a, b := seq(x, s, args[0]), seq(x, s, args[1])
		r := tm.C(64, ^uint64(0))
		for i := len(a) - len(b); i >= 0; i-- {
			c := tm.True()
			for j := range b {
				c = tm.And(c, tm.Eq(a[i+j], b[j]))
			}
			r = tm.Ite(c, tm.C(64, uint64(i)), r)
		}
		return r
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, idx)
	}
	cnt := func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		b := seq(x, s, args[0])
		c := tv(x, s, args[1])
		r := tm.C(64, 0)
		for i := range b {
			r = tm.Add(r, tm.Zext(tm.Eq(b[i], c), 64))
		}
		return r
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	cmp := func(x *Exec, s *State, args []Value) Value {
		tm := x.tm
		a, b := x.mkStr(seq(x, s, args[0])), x.mkStr(seq(x, s, args[1]))
		return tm.Ite(x.strLess(a, b), tm.C(64, ^uint64(0)), tm.Ite(x.strLess(b, a), tm.C(64, 1), tm.C(64, 0)))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "cmp.Compare[string]"} {
		reg(n, cmp)
	}
	reg("internal/bytealg.MakeNoZero", func(x *Exec, s *State, args []Value) Value {
		return x.mkSlice(s, types.Typ[types.Uint8], int(x.conc(s, tv(x, s, args[0]))), int(x.conc(s, tv(x, s, args[0]))))
	})

	// ---- cgo
	for _, n := range []string{"_cgoCheckPointer", "_cgoCheckResult", "_Cgo_use", "_Cgo_keepalive"} {
		intrTab["cgo:"+n] = nopResult
	}

	// ---- gob: an in-memory, type-faithful transport (exported fields only)
	regp("encoding/gob.NewEncoder", func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		o := x.newObj(s, []Value{args[0]}, "gob.Encoder")
		return Ptr{obj: o.id}, false
	})
	regp("encoding/gob.NewDecoder", func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		o := x.newObj(s, []Value{args[0]}, "gob.Decoder")
		return Ptr{obj: o.id}, false
	})
	regp("encoding/gob.Register", nopResult)
	regp("(*encoding/gob.Encoder).Encode", func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		p := x.resolve(s, args[0]).(Ptr)
		x.pushFrame(s, x.vpFunc("GobEncode"), []Value{x.obj(s, p.obj).cells[0], args[1]}, nil, 0, 0)
		return nil, true
	})
	regp("(*encoding/gob.Decoder).Decode", func(x *Exec, s *State, fn *ssa.Function, args []Value) (Value, bool) {
		p := x.resolve(s, args[0]).(Ptr)
		x.pushFrame(s, x.vpFunc("GobDecode"), []Value{x.obj(s, p.obj).cells[0], args[1]}, nil, 0, 0)
		return nil, true
	})
	// gobPut(v) []byte : snapshot of v, identified by a handle
	vp("gobPut", func(x *Exec, s *State, args []Value) Value {
		iv := x.resolve(s, args[0]).(Iface)
		if iv.t == nil {
			panic(unsup("gob of nil"))
		}
		t, v := iv.t, x.resolve(s, iv.v)
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			v = x.load(s, v.(Ptr), pt.Elem())
			t = pt.Elem()
		}
		snap := x.gobCopy(s, v, t, 0)
		o := x.newObj(s, []Value{Iface{t, snap}}, "gob value")
		h := fmt.Sprintf("GOB!%012d", o.id)
		bs := make([]*Term, 16)
		for i := range bs {
			bs[i] = x.tm.C(8, uint64(h[i]))
		}
		return x.mkBytes(s, bs)
	})
	// gobGet(h []byte, dst interface{}) bool
	vp("gobGet", func(x *Exec, s *State, args []Value) Value {
		h := x.bytesOf(s, x.resolve(s, args[0]).(Slice))
		var sb strings.Builder
		for _, b := range h {
			if !b.isC() {
				panic(unsup("gob decoding of symbolic bytes"))
			}
			sb.WriteByte(byte(b.k))
		}
		hs := sb.String()
		if len(hs) != 16 || !strings.HasPrefix(hs, "GOB!") {
			return x.tm.False()
		}
		id, err := strconv.Atoi(hs[4:])
		if err != nil {
			return x.tm.False()
		}
		src := x.obj(s, id).cells[0].(Iface)
		dst := x.resolve(s, args[1]).(Iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			return x.tm.False()
		}
		p := x.resolve(s, dst.v).(Ptr)
		et := pt.Elem()
		for {
			ip, isP := et.Underlying().(*types.Pointer)
			if !isP {
				break
			}
			q := x.load(s, p, et).(Ptr)
			if q.obj == 0 {
				q = x.alloc(s, ip.Elem(), "gob")
				x.store(s, p, q, et)
			}
			p, et = q, ip.Elem()
		}
		cur := x.load(s, p, et)
		nv, ok := x.gobInto(s, cur, et, src.v, src.t, 0)
		if !ok {
			return x.tm.False()
		}
		x.store(s, p, nv, et)
		return x.tm.True()
	})
}

func (x *Exec) fmtStr(s *State, v Value) string {
	st, ok := x.resolve(s, v).(Str)
	if !ok || st.b != nil {
		return "<symbolic>"
	}
	return st.s
}

func (x *Exec) eqBytesT(s *State, a, b Slice) *Term {
	if a.len != b.len {
		return x.tm.False()
	}
	p, q := x.bytesOf(s, a), x.bytesOf(s, b)
	return x.tm.eqRuns(p, q)
}

// eqRuns compares byte strings. Runs of adjacent bytes of one term against
// adjacent bytes of another are compared as a whole.
func (tm *TM) eqRuns(p, q []*Term) *Term {
	cs := []*Term{tm.True()}
	next := func(a, b *Term) bool {
		return a.op == OpExtract && b.op == OpExtract && a.args[0] == b.args[0] && a.k == b.k+uint64(b.w)
	}
	for i := 0; i < len(p); {
		j := i + 1
		for j < len(p) && next(p[j-1], p[j]) && next(q[j-1], q[j]) {
			j++
		}
		if j-i > 1 {
			cs = append(cs, tm.Eq(tm.Concat(p[i:j]...), tm.Concat(q[i:j]...)))
		} else {
			cs = append(cs, tm.Eq(p[i], q[i]))
		}
		i = j
	}
	return tm.And(cs...)
}

// gobCopy: deep copy of the transmitted part of v
func (x *Exec) gobCopy(s *State, v Value, t types.Type, d int) Value {
	if d > 20 {
		panic(unsup("gob depth"))
	}
	v = x.resolve(s, v)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sl := v.(Slice)
		if sl.len == 0 {
			return Slice{}
		}
		n := x.mkSlice(s, u.Elem(), sl.len, sl.len)
		for i := 0; i < sl.len; i++ {
			x.store(s, x.sliceElemPtr(n, i), x.gobCopy(s, x.sliceGet(s, sl, i, u.Elem()), u.Elem(), d+1), u.Elem())
		}
		return n
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return p
		}
		n := x.alloc(s, u.Elem(), "gob")
		x.store(s, n, x.gobCopy(s, x.load(s, p, u.Elem()), u.Elem(), d+1), u.Elem())
		return n
	case *types.Struct:
		a := v.(Agg)
		out := append(Agg(nil), x.zero(t).(Agg)...)
		any := false
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			any = true
			o, n := x.fieldOff(t, i), x.ncells(f.Type())
			x.putField(out, o, n, f.Type(), x.gobCopy(s, x.getField(a, o, n, f.Type()), f.Type(), d+1))
		}
		if !any && u.NumFields() > 0 {
			if hasGobMethods(x, t) {
				return v
			}
			panic(unsup("gob: type %s has no exported fields", t))
		}
		return out
	case *types.Array:
		a := v.(Agg)
		out := append(Agg(nil), a...)
		n := x.ncells(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			x.putField(out, i*n, n, u.Elem(), x.gobCopy(s, x.getField(a, i*n, n, u.Elem()), u.Elem(), d+1))
		}
		return out
	case *types.Map:
		p := v.(Ptr)
		if p.obj == 0 {
			return p
		}
		o := x.newObj(s, nil, "map")
		o.m = &MapData{}
		for _, e := range x.obj(s, p.obj).m.ents {
			o.m.ents = append(o.m.ents, MapEntry{x.gobCopy(s, e.k, u.Key(), d+1), x.gobCopy(s, e.v, u.Elem(), d+1)})
		}
		return Ptr{obj: o.id}
	case *types.Basic:
		return v
	case *types.Interface:
		panic(unsup("gob of interface values"))
	}
	panic(unsup("gob of %s", t))
}

func hasGobMethods(x *Exec, t types.Type) bool {
	ms := x.prog.MethodSets.MethodSet(types.NewPointer(t))
	for _, n := range []string{"GobEncode", "MarshalBinary"} {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}

func (x *Exec) getField(a Agg, o, n int, t types.Type) Value {
	if isAggType(t) {
		return append(Agg(nil), a[o:o+n]...)
	}
	return a[o]
}
func (x *Exec) putField(a Agg, o, n int, t types.Type, v Value) {
	if isAggType(t) {
		copy(a[o:o+n], v.(Agg))
		return
	}
	a[o] = v
}

// gobInto: fields are matched by name; zero values are not transmitted
func (x *Exec) gobInto(s *State, cur Value, ct types.Type, v Value, t types.Type, d int) (Value, bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if hasGobMethods(x, t) {
			return v, types.Identical(ct, t)
		}
		cu, ok := ct.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		a := v.(Agg)
		out := append(Agg(nil), cur.(Agg)...)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			for j := 0; j < cu.NumFields(); j++ {
				if cu.Field(j).Name() != f.Name() {
					continue
				}
				so, sn := x.fieldOff(t, i), x.ncells(f.Type())
				do, dn := x.fieldOff(ct, j), x.ncells(cu.Field(j).Type())
				nv, ok := x.gobInto(s, x.getField(out, do, dn, cu.Field(j).Type()), cu.Field(j).Type(), x.getField(a, so, sn, f.Type()), f.Type(), d+1)
				if !ok {
					return nil, false
				}
				x.putField(out, do, dn, cu.Field(j).Type(), nv)
			}
		}
		return out, true
	case *types.Slice:
		if !types.Identical(ct.Underlying(), t.Underlying()) {
			return nil, false
		}
		if v.(Slice).len == 0 && d > 0 {
			return cur, true
		}
		return x.gobCopy(s, v, t, d), true
	case *types.Basic:
		if !types.Identical(ct.Underlying(), t.Underlying()) {
			return nil, false
		}
		if tv, ok := v.(*Term); ok && d > 0 {
			if ctm, ok := cur.(*Term); ok {
				return x.tm.Ite(x.tm.Eq(tv, x.tm.C(tv.w, 0)), ctm, tv), true
			}
		}
		return v, true
	}
	if !types.Identical(ct, t) {
		return nil, false
	}
	return x.gobCopy(s, v, t, d), true
}
