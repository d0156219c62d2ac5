package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term, Ptr, Slice, Str, Iface, *Closure, Agg, Tuple, *Union, Poison, *IterVal
type Value interface{}

// SymIdx: address contribution idx*stride, 0<=idx<n
type SymIdx struct {
	idx    *Term
	stride int
	n      int
}

type Ptr struct {
	obj  int // 0: nil
	off  int // cell offset; byte offset when view>0
	view int // >0: byte-granular pointer over cells of `view` bytes each
	sym  *SymList
}

type SymList struct {
	idx  *Term
	str  int
	n    int
	next *SymList
}

type Slice struct {
	obj  int
	off  int // cells; bytes when view>0
	len  int
	cap  int
	esz  int // cells (bytes when view>0) per element
	view int
}

type Str struct {
	s string
	b []*Term // when non-nil: symbolic content, s ignored
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	intr string // bound intrinsic
}

type Agg []Value
type Tuple []Value

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

type Poison struct{ why string }

type IterVal struct {
	m    int // map object
	str  *Str
	keys []Value // snapshot of keys (map)
	pos  int
	id   int
}

type MapEntry struct{ k, v Value }
type MapData struct{ ents []MapEntry }

type ChanData struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	// unbuffered rendezvous: values offered by blocked senders
	sends []chanSend
}
type chanSend struct {
	g int
	v Value
}

type Obj struct {
	id    int
	owner int
	cells []Value
	m     *MapData
	ch    *ChanData
	typ   types.Type
	kind  string
	// race checking
	shared bool
}

func (o *Obj) clone(owner int) *Obj {
	n := *o
	n.owner = owner
	n.cells = append([]Value(nil), o.cells...)
	if o.m != nil {
		n.m = &MapData{append([]MapEntry(nil), o.m.ents...)}
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), c.buf...)
		c.sends = append([]chanSend(nil), c.sends...)
		n.ch = &c
	}
	return &n
}

// ---------- persistent heap: radix trie, 32-way

const trieBits = 5
const trieFan = 1 << trieBits

type tnode struct {
	owner int
	kids  [trieFan]*tnode
	objs  [trieFan]*Obj // leaves only
}

type Heap struct {
	root  *tnode
	depth int // levels above leaf
}

func (h *Heap) get(id int) *Obj {
	if id>>(uint(h.depth+1)*trieBits) != 0 {
		return nil
	}
	n := h.root
	for d := h.depth; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(uint(d)*trieBits))&(trieFan-1)]
	}
	if n == nil {
		return nil
	}
	return n.objs[id&(trieFan-1)]
}

func (h *Heap) set(id int, o *Obj, owner int) {
	for id>>(uint(h.depth+1)*trieBits) != 0 {
		r := &tnode{owner: owner}
		r.kids[0] = h.root
		h.root = r
		h.depth++
	}
	h.root = h.setRec(h.root, h.depth, id, o, owner)
}

func (h *Heap) setRec(n *tnode, d, id int, o *Obj, owner int) *tnode {
	if n == nil {
		n = &tnode{owner: owner}
	} else if n.owner != owner {
		c := *n
		c.owner = owner
		n = &c
	}
	if d == 0 {
		n.objs[id&(trieFan-1)] = o
	} else {
		i := (id >> (uint(d) * trieBits)) & (trieFan - 1)
		n.kids[i] = h.setRec(n.kids[i], d-1, id, o, owner)
	}
	return n
}

// diff visits ids whose object pointers differ between a and b.
func heapDiff(a, b *Heap, f func(id int, x, y *Obj)) {
	ra, rb := a.root, b.root
	da, db := a.depth, b.depth
	for da < db {
		r := &tnode{}
		r.kids[0] = ra
		ra = r
		da++
	}
	for db < da {
		r := &tnode{}
		r.kids[0] = rb
		rb = r
		db++
	}
	var rec func(x, y *tnode, d, base int)
	rec = func(x, y *tnode, d, base int) {
		if x == y {
			return
		}
		for i := 0; i < trieFan; i++ {
			id := base | i<<(uint(d)*trieBits)
			if d == 0 {
				var ox, oy *Obj
				if x != nil {
					ox = x.objs[i]
				}
				if y != nil {
					oy = y.objs[i]
				}
				if ox != oy {
					f(id, ox, oy)
				}
			} else {
				var kx, ky *tnode
				if x != nil {
					kx = x.kids[i]
				}
				if y != nil {
					ky = y.kids[i]
				}
				rec(kx, ky, d-1, id)
			}
		}
	}
	rec(ra, rb, da, 0)
}

// ---------- types

func (x *Exec) ncells(t types.Type) int {
	if n, ok := x.cellMemo[t]; ok {
		return n
	}
	var n int
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += x.ncells(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * x.ncells(u.Elem())
	default:
		n = 1
	}
	x.cellMemo[t] = n
	return n
}

func (x *Exec) fieldOff(t types.Type, i int) int {
	u := t.Underlying().(*types.Struct)
	n := 0
	for j := 0; j < i; j++ {
		n += x.ncells(u.Field(j).Type())
	}
	return n
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func bvWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w := bvWidth(t); w > 0 {
			return x.tm.C(w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer, *types.Map, *types.Chan:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct, *types.Array:
		a := make(Agg, 0, x.ncells(t))
		return x.appendZero(a, t)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = x.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsup("zero value of %s", t))
}

func (x *Exec) appendZero(a Agg, t types.Type) Agg {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a = x.appendZero(a, u.Field(i).Type())
		}
		return a
	case *types.Array:
		if u.Len() == 0 {
			return a
		}
		if !isAggType(u.Elem()) {
			z := x.zero(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				a = append(a, z)
			}
			return a
		}
		for i := int64(0); i < u.Len(); i++ {
			a = x.appendZero(a, u.Elem())
		}
		return a
	}
	return append(a, x.zero(t))
}

// ---------- strings

func (x *Exec) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = x.tm.C(8, uint64(s.s[i]))
	}
	return out
}

func (x *Exec) mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if !t.isC() {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		for _, t := range b {
			sb.WriteByte(byte(t.k))
		}
		return Str{s: sb.String()}
	}
	return Str{b: b}
}

// ---------- equality

func (x *Exec) eqVal(a, b Value) *Term {
	tm := x.tm
	if ua, ok := a.(*Union); ok {
		var ds []*Term
		for _, al := range ua.alts {
			ds = append(ds, tm.And(al.g, x.eqVal(al.v, b)))
		}
		return tm.Or(ds...)
	}
	if _, ok := b.(*Union); ok {
		return x.eqVal(b, a)
	}
	switch va := a.(type) {
	case *Term:
		vb, ok := b.(*Term)
		if !ok {
			return tm.False()
		}
		return tm.Eq(va, vb)
	case Ptr:
		vb, ok := b.(Ptr)
		if !ok {
			return tm.False()
		}
		if va.obj != vb.obj {
			return tm.False()
		}
		if va.sym == nil && vb.sym == nil {
			return tm.B(va.off == vb.off)
		}
		if va == vb {
			return tm.True()
		}
		if va.sym != nil && vb.sym != nil && va.sym.next == nil && vb.sym.next == nil && va.sym.str == vb.sym.str && va.off == vb.off {
			return tm.Eq(va.sym.idx, vb.sym.idx)
		}
		panic(unsup("comparison of symbolic pointers"))
	case Str:
		vb := b.(Str)
		if va.Len() != vb.Len() {
			return tm.False()
		}
		if va.b == nil && vb.b == nil {
			return tm.B(va.s == vb.s)
		}
		x1, x2 := x.strBytes(va), x.strBytes(vb)
		var cs []*Term
		for i := range x1 {
			cs = append(cs, tm.Eq(x1[i], x2[i]))
		}
		return tm.And(append(cs, tm.True())...)
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			return tm.False()
		}
		if va.t == nil || vb.t == nil {
			return tm.B(va.t == nil && vb.t == nil)
		}
		if !types.Identical(va.t, vb.t) {
			return tm.False()
		}
		return x.eqVal(va.v, vb.v)
	case Slice: // only against nil
		vb, ok := b.(Slice)
		if ok && vb.obj == 0 && vb.cap == 0 {
			return tm.B(va.obj == 0)
		}
		if ok && va.obj == 0 {
			return tm.B(vb.obj == 0)
		}
		if ok && va == vb {
			return tm.True()
		}
		panic(unsup("slice comparison"))
	case *Closure:
		vb, ok := b.(*Closure)
		if ok && (va == nil || vb == nil) {
			return tm.B(va == nil && vb == nil)
		}
		if ok && va == vb {
			return tm.True()
		}
		panic(unsup("func comparison"))
	case Agg:
		vb, ok := b.(Agg)
		if !ok {
			panic(unsup("agg comparison %T", b))
		}
		var cs []*Term
		for i := range va {
			cs = append(cs, x.eqVal(va[i], vb[i]))
		}
		return tm.And(append(cs, tm.True())...)
	case Poison:
		panic(unsup("use of undefined value: %s", va.why))
	}
	panic(unsup("comparison of %T", a))
}

// sameVal: cheap identity
func sameVal(a, b Value) bool {
	switch va := a.(type) {
	case *Term:
		vb, ok := b.(*Term)
		return ok && va == vb
	case Ptr:
		vb, ok := b.(Ptr)
		return ok && va == vb
	case Slice:
		vb, ok := b.(Slice)
		return ok && va == vb
	case Str:
		vb, ok := b.(Str)
		if !ok || va.Len() != vb.Len() {
			return false
		}
		if va.b == nil && vb.b == nil {
			return va.s == vb.s
		}
		if va.b == nil || vb.b == nil {
			return false
		}
		for i := range va.b {
			if va.b[i] != vb.b[i] {
				return false
			}
		}
		return true
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			return false
		}
		if va.t == nil || vb.t == nil {
			return va.t == nil && vb.t == nil
		}
		return types.Identical(va.t, vb.t) && sameVal(va.v, vb.v)
	case *Closure:
		vb, ok := b.(*Closure)
		if !ok {
			return false
		}
		if va == vb {
			return true
		}
		if va == nil || vb == nil || va.fn != vb.fn || va.bi != vb.bi || len(va.free) != len(vb.free) {
			return false
		}
		for i := range va.free {
			if !sameVal(va.free[i], vb.free[i]) {
				return false
			}
		}
		return true
	case Agg:
		vb, ok := b.(Agg)
		if !ok || len(va) != len(vb) {
			return false
		}
		if len(va) > 0 && &va[0] == &vb[0] {
			return true
		}
		for i := range va {
			if !sameVal(va[i], vb[i]) {
				return false
			}
		}
		return true
	case Tuple:
		vb, ok := b.(Tuple)
		if !ok || len(va) != len(vb) {
			return false
		}
		for i := range va {
			if !sameVal(va[i], vb[i]) {
				return false
			}
		}
		return true
	case *Union:
		vb, ok := b.(*Union)
		return ok && va == vb
	case Poison:
		_, ok := b.(Poison)
		return ok
	case *IterVal:
		vb, ok := b.(*IterVal)
		return ok && va == vb
	case nil:
		return b == nil
	}
	return false
}

// mergeVal: g ? a : b
func (x *Exec) mergeVal(g *Term, a, b Value) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	tm := x.tm
	if a == nil {
		return b, true
	}
	if b == nil {
		return a, true
	}
	if pa, ok := a.(Poison); ok {
		return pa, true
	}
	if pb, ok := b.(Poison); ok {
		return pb, true
	}
	switch va := a.(type) {
	case *Term:
		if vb, ok := b.(*Term); ok {
			if va.w != vb.w {
				return nil, false
			}
			return tm.Ite(g, va, vb), true
		}
		return nil, false
	case Agg:
		vb, ok := b.(Agg)
		if !ok || len(va) != len(vb) {
			return nil, false
		}
		out := make(Agg, len(va))
		for i := range va {
			v, ok := x.mergeVal(g, va[i], vb[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Tuple:
		vb, ok := b.(Tuple)
		if !ok || len(va) != len(vb) {
			return nil, false
		}
		out := make(Tuple, len(va))
		for i := range va {
			v, ok := x.mergeVal(g, va[i], vb[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Str:
		if vb, ok := b.(Str); ok && va.Len() == vb.Len() {
			x1, x2 := x.strBytes(va), x.strBytes(vb)
			out := make([]*Term, len(x1))
			for i := range x1 {
				out[i] = tm.Ite(g, x1[i], x2[i])
			}
			return x.mkStr(out), true
		}
	case Iface:
		if vb, ok := b.(Iface); ok && va.t != nil && vb.t != nil && types.Identical(va.t, vb.t) {
			switch va.v.(type) {
			case *Term, Str, Agg:
				if v, ok := x.mergeVal(g, va.v, vb.v); ok {
					if _, isU := v.(*Union); !isU {
						return Iface{va.t, v}, true
					}
				}
			}
		}
	case *IterVal:
		return nil, false
	}
	// union
	var alts []Alt
	add := func(gd *Term, v Value) {
		if gd.isFalse() {
			return
		}
		for i := range alts {
			if sameVal(alts[i].v, v) {
				alts[i].g = tm.Or(alts[i].g, gd)
				return
			}
		}
		alts = append(alts, Alt{gd, v})
	}
	put := func(gd *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, al := range u.alts {
				add(tm.And(gd, al.g), al.v)
			}
			return
		}
		add(gd, v)
	}
	put(g, a)
	put(tm.Not(g), b)
	if len(alts) == 1 {
		return alts[0].v, true
	}
	if len(alts) > 64 {
		return nil, false
	}
	return &Union{alts}, true
}

// ---------- errors of the engine

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) Unsupported { return Unsupported{fmt.Sprintf(f, a...)} }
func (u Unsupported) Error() string                { return "unsupported: " + u.msg }

func valStr(v Value) string {
	switch a := v.(type) {
	case *Term:
		return a.String()
	case Str:
		if a.b == nil {
			return fmt.Sprintf("%q", a.s)
		}
		return fmt.Sprintf("str[%d]", len(a.b))
	case Iface:
		if a.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", a.t, valStr(a.v))
	case Slice:
		return fmt.Sprintf("slice{#%d+%d len %d}", a.obj, a.off, a.len)
	case Ptr:
		return fmt.Sprintf("&#%d+%d", a.obj, a.off)
	case *Union:
		return fmt.Sprintf("union(%d)", len(a.alts))
	}
	return fmt.Sprintf("%T", v)
}
