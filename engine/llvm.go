package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// ---------- C code: clang -O0 LLVM IR, executed symbolically

type CInstr struct {
	res  int
	op   string
	ty   string
	toks []string
	line string
}

type CFunc struct {
	name   string
	params []int
	ptys   []string
	ret    string
	regs   map[string]int
	blocks [][]CInstr
	labels map[string]int
	bname  []string
	ipdom  []int
}

var reDefine = regexp.MustCompile(`^define .*?([a-z0-9]+) @([A-Za-z0-9_.]+)\((.*?)\)`)
var reLabel = regexp.MustCompile(`^([A-Za-z0-9_.$-]+):`)

// LoadC compiles every C file of dir and returns its functions.
func LoadC(dir string) (map[string]*CFunc, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	out := map[string]*CFunc{}
	for _, f := range files {
		cmd := exec.Command("clang", "-O0", "-std=c99", "-w", "-S", "-emit-llvm", "-fno-discard-value-names", "-I"+dir, f, "-o", "-")
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		if err := cmd.Run(); err != nil {
			return nil, fmt.Errorf("clang %s: %v %s", f, err, eb.String())
		}
		if err := parseIR(ob.String(), out); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func cTokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == ',' || c == '\t':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '[' || c == '<' || c == '{':
			d := 0
			j := i
			for j < len(s) {
				if s[j] == '[' || s[j] == '<' || s[j] == '{' {
					d++
				}
				if s[j] == ']' || s[j] == '>' || s[j] == '}' {
					d--
					if d == 0 {
						j++
						break
					}
				}
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" ,\t()[", rune(s[j])) {
				j++
			}
			if j == i {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseIR(ir string, out map[string]*CFunc) error {
	var f *CFunc
	reg := func(n string) int {
		if k, ok := f.regs[n]; ok {
			return k
		}
		k := len(f.regs)
		f.regs[n] = k
		return k
	}
	for _, l := range strings.Split(ir, "\n") {
		if strings.HasPrefix(l, "define ") {
			m := reDefine.FindStringSubmatch(l)
			if m == nil {
				return fmt.Errorf("cannot parse %q", l)
			}
			f = &CFunc{name: m[2], ret: m[1], regs: map[string]int{}, labels: map[string]int{}}
			np := 0
			for _, p := range strings.Split(m[3], ",") {
				p = strings.TrimSpace(p)
				if p == "" {
					continue
				}
				fs := strings.Fields(p)
				f.ptys = append(f.ptys, fs[0])
				f.params = append(f.params, reg(fs[len(fs)-1]))
				np++
			}
			f.blocks = append(f.blocks, nil)
			f.labels["%"+strconv.Itoa(np)] = 0
			f.labels["%entry"] = 0
			f.bname = append(f.bname, "%"+strconv.Itoa(np))
			continue
		}
		if f == nil {
			continue
		}
		if l == "}" {
			out[f.name] = f
			f.finish()
			f = nil
			continue
		}
		if m := reLabel.FindStringSubmatch(l); m != nil {
			if len(f.blocks) == 1 && len(f.blocks[0]) == 0 {
				f.labels["%"+m[1]] = 0
				f.bname[0] = "%" + m[1]
				continue
			}
			f.labels["%"+m[1]] = len(f.blocks)
			f.blocks = append(f.blocks, nil)
			f.bname = append(f.bname, "%"+m[1])
			continue
		}
		t := strings.TrimSpace(l)
		if t == "" || t[0] == ';' {
			continue
		}
		if k := strings.Index(t, ", !"); k >= 0 {
			t = t[:k]
		}
		if k := strings.Index(t, " #"); k >= 0 {
			t = t[:k]
		}
		in := CInstr{res: -1, line: t}
		if k := strings.Index(t, " = "); k > 0 && t[0] == '%' {
			in.res = reg(t[:k])
			t = t[k+3:]
		}
		toks := cTokens(t)
		// drop flags
		var ts []string
		for i, k := range toks {
			switch k {
			case "nsw", "nuw", "exact", "inbounds", "noundef", "signext", "zeroext", "tail", "volatile", "noalias", "nonnull", "disjoint", "nneg", "immarg", "writeonly", "readonly", "nocapture", "returned", "dso_local":
				continue
			case "align":
				if i > 0 {
					continue
				}
			}
			if i > 0 && toks[i-1] == "align" {
				continue
			}
			ts = append(ts, k)
		}
		in.op = ts[0]
		in.toks = ts[1:]
		b := len(f.blocks) - 1
		f.blocks[b] = append(f.blocks[b], in)
	}
	return nil
}

func (f *CFunc) finish() {
	n := len(f.blocks)
	succ := make([][]int, n)
	exit := make([]bool, n)
	ign := make([]bool, n)
	for i, b := range f.blocks {
		last := b[len(b)-1]
		switch last.op {
		case "ret":
			exit[i] = true
		case "br":
			for k, t := range last.toks {
				if t == "label" {
					succ[i] = append(succ[i], f.labels[last.toks[k+1]])
				}
			}
		default:
			ign[i] = true
		}
	}
	f.ipdom = postdom(succ, exit, ign)
}

func cWidth(t string) int {
	if len(t) > 1 && t[0] == 'i' {
		if n, err := strconv.Atoi(t[1:]); err == nil {
			return n
		}
	}
	return 0
}

// cSize in bytes, and the size of the scalar elements
func cSize(t string) (int, int) {
	if t == "ptr" {
		return 8, 8
	}
	if w := cWidth(t); w > 0 {
		return (w + 7) / 8, (w + 7) / 8
	}
	if strings.HasPrefix(t, "[") {
		in := strings.TrimSuffix(t[1:], "]")
		k := strings.Index(in, " x ")
		n, _ := strconv.Atoi(strings.TrimSpace(in[:k]))
		e, s := cSize(strings.TrimSpace(in[k+3:]))
		return n * e, s
	}
	panic(unsup("C type %s", t))
}

func cElem(t string) string {
	in := strings.TrimSuffix(t[1:], "]")
	k := strings.Index(in, " x ")
	return strings.TrimSpace(in[k+3:])
}

func (x *Exec) pushC(s *State, name string, args []Value, onRet, deferOf int) {
	if x.cfns == nil {
		m, err := LoadC(filepath.Join(repoDir, "lib/matrix"))
		if err != nil {
			panic(unsup("C code: %v", err))
		}
		x.cfns = m
	}
	cf := x.cfns[name]
	if cf == nil {
		panic(unsup("C function %s", name))
	}
	x.funcs["C:"+name] = true
	x.nextFrame++
	f := &Frame{owner: s.owner, cf: cf, regs: make([]Value, len(cf.regs)), onRet: onRet, deferOf: deferOf, id: x.nextFrame, cprev: -1}
	if len(args) != len(cf.params) {
		panic(unsup("arity of C function %s", name))
	}
	for i, a := range args {
		v := x.resolve(s, a)
		if p, ok := v.(Ptr); ok && p.obj != 0 && p.view == 0 {
			if p.sym != nil {
				panic(unsup("symbolic pointer passed to C"))
			}
			cb := x.cellBytes(x.obj(s, p.obj), p.off)
			if cb == 0 {
				panic(unsup("pointer to non-scalar data passed to C"))
			}
			v = Ptr{obj: p.obj, off: p.off * cb, view: cb}
		}
		f.regs[cf.params[i]] = v
	}
	s.gs[s.cur].frames = append(s.gs[s.cur].frames, f)
}

func (x *Exec) cJoin(f *Frame, st Stop) Stop {
	in := f.cf.blocks[f.blk][f.pc]
	if in.op == "br" {
		st.blk = f.cf.ipdom[f.blk]
		return st
	}
	st.blk = f.blk
	st.pc = f.pc + 1
	return st
}

func (x *Exec) cval(f *Frame, ty, tok string) Value {
	if tok[0] == '%' {
		v := f.regs[f.cf.regs[tok]]
		if v == nil {
			panic(unsup("undefined C register %s", tok))
		}
		return v
	}
	if tok == "null" {
		return Ptr{}
	}
	if tok == "true" {
		return x.tm.True()
	}
	if tok == "false" {
		return x.tm.False()
	}
	w := cWidth(ty)
	if n, err := strconv.ParseInt(tok, 10, 64); err == nil && w > 0 {
		if w <= 64 {
			return x.tm.C(w, uint64(n)&mask64(w))
		}
		return x.tm.Sext(x.tm.C(64, uint64(n)), w)
	}
	panic(unsup("C operand %s %s", ty, tok))
}

func (x *Exec) cterm(s *State, f *Frame, ty, tok string) *Term {
	t, ok := x.resolve(s, x.cval(f, ty, tok)).(*Term)
	if !ok {
		panic(unsup("C scalar operand %s", tok))
	}
	return t
}

func (x *Exec) cbr(f *Frame, label string) {
	f.cprev = f.blk
	f.blk = f.cf.labels[label]
	f.pc = 0
}

func (x *Exec) cstep(s *State, f *Frame) {
	tm := x.tm
	in := f.cf.blocks[f.blk][f.pc]
	set := func(v Value) {
		f.regs[in.res] = v
		f.pc++
	}
	t := in.toks
	switch in.op {
	case "alloca":
		sz, es := cSize(t[0])
		cells := make([]Value, sz/es)
		for i := range cells {
			cells[i] = tm.C(es*8, 0)
			if t[0] == "ptr" {
				cells[i] = Ptr{}
			}
		}
		o := x.newObj(s, cells, "C local")
		set(Ptr{obj: o.id, view: es})
	case "store":
		v := x.resolve(s, x.cval(f, t[0], t[1]))
		p, ok := x.resolve(s, x.cval(f, "ptr", t[3])).(Ptr)
		if !ok {
			panic(unsup("C store through %s", t[3]))
		}
		if p.obj == 0 {
			x.nilDeref()
		}
		o := x.wobj(s, p.obj)
		if tv, ok := v.(*Term); ok {
			x.raceBytes(s, o, p, tv.w/8, true)
			x.storeBytes(s, o, p.off, tv, p.view)
		} else {
			if p.off%p.view != 0 || p.off/p.view >= len(o.cells) {
				panic(rtPanic{msg: "C memory access out of bounds"})
			}
			o.cells[p.off/p.view] = v
		}
		f.pc++
	case "load":
		p, ok := x.resolve(s, x.cval(f, "ptr", t[2])).(Ptr)
		if !ok {
			panic(unsup("C load through %s", t[2]))
		}
		if p.obj == 0 {
			x.nilDeref()
		}
		o := x.obj(s, p.obj)
		if t[0] == "ptr" {
			if p.off%p.view != 0 || p.off/p.view >= len(o.cells) {
				panic(rtPanic{msg: "C memory access out of bounds"})
			}
			set(o.cells[p.off/p.view])
			return
		}
		n := (cWidth(t[0]) + 7) / 8
		if n == 0 {
			panic(unsup("C load of %s", t[0]))
		}
		x.raceBytes(s, o, p, n, false)
		v := x.loadBytes(o, p.off, n, p.view)
		if cWidth(t[0]) < v.w {
			v = tm.Trunc(v, cWidth(t[0]))
		}
		set(v)
	case "getelementptr":
		// ty, ptr %p, iN idx [, iN idx]
		base, ok := x.resolve(s, x.cval(f, "ptr", t[2])).(Ptr)
		if !ok {
			panic(unsup("C pointer arithmetic"))
		}
		ty := t[0]
		off := 0
		for k := 3; k+1 < len(t); k += 2 {
			sz, _ := cSize(ty)
			idx := x.cterm(s, f, t[k], t[k+1])
			iv := x.conc(s, idx)
			off += int(tm.C(idx.w, iv).signed64()) * sz
			if strings.HasPrefix(ty, "[") {
				ty = cElem(ty)
			}
		}
		base.off += off
		set(base)
	case "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem":
		a, b := x.cterm(s, f, t[0], t[1]), x.cterm(s, f, t[0], t[2])
		switch in.op {
		case "add":
			set(tm.Add(a, b))
		case "sub":
			set(tm.Sub(a, b))
		case "mul":
			set(tm.Mul(a, b))
		case "and":
			set(tm.bvAnd(a, b))
		case "or":
			set(tm.bvOr(a, b))
		case "xor":
			set(tm.Xor(a, b))
		case "shl", "lshr", "ashr":
			set(x.shift(in.op == "shl", a, b, in.op == "ashr"))
		default:
			x.must(s, tm.Not(tm.Eq(b, tm.C(b.w, 0))), "C division by zero")
			switch in.op {
			case "udiv":
				set(tm.Udiv(a, b))
			case "sdiv":
				set(tm.Sdiv(a, b))
			case "urem":
				set(tm.Urem(a, b))
			default:
				set(tm.Srem(a, b))
			}
		}
	case "icmp":
		if t[1] == "ptr" {
			a, b := x.resolve(s, x.cval(f, t[1], t[2])), x.resolve(s, x.cval(f, t[1], t[3]))
			c := x.eqVal(a, b)
			if t[0] == "ne" {
				c = tm.Not(c)
			}
			set(c)
			return
		}
		a, b := x.cterm(s, f, t[1], t[2]), x.cterm(s, f, t[1], t[3])
		var c *Term
		switch t[0] {
		case "eq":
			c = tm.Eq(a, b)
		case "ne":
			c = tm.Not(tm.Eq(a, b))
		case "ult":
			c = tm.Ult(a, b)
		case "ule":
			c = tm.Ule(a, b)
		case "ugt":
			c = tm.Ult(b, a)
		case "uge":
			c = tm.Ule(b, a)
		case "slt":
			c = tm.Slt(a, b)
		case "sle":
			c = tm.Sle(a, b)
		case "sgt":
			c = tm.Slt(b, a)
		case "sge":
			c = tm.Sle(b, a)
		}
		set(c)
	case "sext", "zext", "trunc":
		// ty v to ty2
		a := x.cterm(s, f, t[0], t[1])
		w := cWidth(t[3])
		switch in.op {
		case "sext":
			set(tm.Sext(a, w))
		case "zext":
			set(tm.Zext(a, w))
		default:
			set(tm.Trunc(a, w))
		}
	case "select":
		c := x.cterm(s, f, "i1", t[1])
		a, b := x.cval(f, t[2], t[3]), x.cval(f, t[4], t[5])
		v, ok := x.mergeVal(c, a, b)
		if !ok {
			panic(unsup("C select"))
		}
		set(v)
	case "br":
		if t[0] == "label" {
			x.cbr(f, t[1])
			return
		}
		if x.decide(s, x.cterm(s, f, "i1", t[1])) {
			x.cbr(f, t[3])
		} else {
			x.cbr(f, t[5])
		}
	case "phi":
		// ty [ v, %b ] ...
		for _, a := range t[1:] {
			in := strings.Trim(a, "[] ")
			k := strings.LastIndex(in, ",")
			if f.cprev >= 0 && f.cf.labels[strings.TrimSpace(in[k+1:])] == f.cprev {
				set(x.cval(f, t[0], strings.TrimSpace(in[:k])))
				return
			}
		}
		panic(unsup("C phi"))
	case "ret":
		var v Value = Tuple{}
		if t[0] != "void" {
			v = x.cval(f, t[0], t[1])
		}
		g := s.gs[s.cur]
		on := f.onRet
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) > 0 && g.frames[len(g.frames)-1].cf != nil {
			p := s.top()
			ci := p.cf.blocks[p.blk][p.pc]
			if ci.res >= 0 {
				p.regs[ci.res] = v
			}
			p.pc++
			return
		}
		x.finishCall(s, v, on)
	case "call":
		// [ret-ty] @fn ( ty v, ... )
		k := 0
		for k < len(t) && !strings.HasPrefix(t[k], "@") {
			k++
		}
		if k == len(t) {
			panic(unsup("C indirect call"))
		}
		fn := t[k][1:]
		var args []Value
		var tys []string
		for j := k + 2; j+1 < len(t) && t[j] != ")"; j += 2 {
			args = append(args, x.cval(f, t[j], t[j+1]))
			tys = append(tys, t[j])
		}
		switch {
		case strings.HasPrefix(fn, "llvm.memset"):
			p := x.resolve(s, args[0]).(Ptr)
			n := int(x.conc(s, x.resolve(s, args[2]).(*Term)))
			b := x.resolve(s, args[1]).(*Term)
			o := x.wobj(s, p.obj)
			for i := 0; i < n; i++ {
				x.storeBytes(s, o, p.off+i, b, p.view)
			}
			f.pc++
		case strings.HasPrefix(fn, "llvm.memcpy"), strings.HasPrefix(fn, "llvm.memmove"):
			d, sr := x.resolve(s, args[0]).(Ptr), x.resolve(s, args[1]).(Ptr)
			n := int(x.conc(s, x.resolve(s, args[2]).(*Term)))
			so := x.obj(s, sr.obj)
			tmp := make([]*Term, n)
			for i := range tmp {
				tmp[i] = x.loadBytes(so, sr.off+i, 1, sr.view)
			}
			o := x.wobj(s, d.obj)
			for i := range tmp {
				x.storeBytes(s, o, d.off+i, tmp[i], d.view)
			}
			f.pc++
		case strings.HasPrefix(fn, "llvm."):
			f.pc++
		default:
			x.pushC(s, fn, args, 0, 0)
		}
	case "unreachable":
		panic(rtPanic{msg: "C unreachable"})
	default:
		panic(unsup("C instruction %s", in.line))
	}
}

func (x *Exec) raceBytes(s *State, o *Obj, p Ptr, n int, write bool) {
	if !s.races || p.view == 0 {
		return
	}
	lo, hi := p.off/p.view, (p.off+n-1)/p.view
	if lo >= 0 && hi < len(o.cells) {
		x.raceAccess(s, o, lo, hi-lo+1, write)
	}
}
