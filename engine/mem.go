package main

import (
	"go/types"
)

// ---------- memory

// cellBytes: width in bytes of the scalar cells of an object around off
func (x *Exec) cellBytes(o *Obj, off int) int {
	if off >= 0 && off < len(o.cells) {
		switch c := o.cells[off].(type) {
		case *Term:
			if c.w >= 8 {
				return c.w / 8
			}
			return 1
		case Str, Slice, Iface:
			return 0
		}
	}
	if len(o.cells) > 0 && off != 0 {
		return x.cellBytes(o, 0)
	}
	return 0
}

func (x *Exec) nilDeref() { panic(rtPanic{msg: "invalid memory address or nil pointer dereference"}) }

func (x *Exec) load(s *State, p Ptr, t types.Type) Value {
	if p.obj == 0 {
		x.nilDeref()
	}
	o := x.obj(s, p.obj)
	n := x.ncells(t)
	if p.sym != nil {
		return x.loadSym(s, o, p, t, n)
	}
	return x.loadAt(s, o, p.off, p.view, t, n)
}

func (x *Exec) loadSym(s *State, o *Obj, p Ptr, t types.Type, n int) Value {
	si := p.sym
	var acc Value
	for i := si.n - 1; i >= 0; i-- {
		q := Ptr{obj: p.obj, off: p.off + i*si.str, view: p.view, sym: si.next}
		var v Value
		if q.sym != nil {
			v = x.loadSym(s, o, q, t, n)
		} else {
			v = x.loadAt(s, o, q.off, q.view, t, n)
		}
		if acc == nil {
			acc = v
			continue
		}
		m, ok := x.mergeVal(x.tm.Eq(si.idx, x.tm.C(si.idx.w, uint64(i))), v, acc)
		if !ok {
			panic(unsup("load through a symbolic index of unmergeable values"))
		}
		acc = m
	}
	if acc == nil {
		panic(unsup("load from empty symbolic range"))
	}
	return acc
}

func (x *Exec) loadAt(s *State, o *Obj, off, view int, t types.Type, n int) Value {
	if view > 0 {
		return x.loadBytesT(o, off, view, t)
	}
	if off < 0 || off+n > len(o.cells) {
		if n == 0 {
			return x.zero(t)
		}
		panic(rtPanic{msg: "memory access out of bounds of the object (unsafe)"})
	}
	x.access(s, o, off, n, false)
	if isAggType(t) {
		a := make(Agg, n)
		copy(a, o.cells[off:off+n])
		return a
	}
	v := o.cells[off]
	if tv, ok := v.(*Term); ok {
		if w := bvWidth(t); w > 0 && w != tv.w {
			if cb := x.cellBytes(o, off); cb > 0 {
				return x.loadBytesT(o, off*cb, cb, t)
			}
		}
	}
	return v
}

// loadBytesT reads a scalar of type t at byte offset off of an object whose
// cells have cb bytes each (little endian).
func (x *Exec) loadBytesT(o *Obj, off, cb int, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		es := int(types.SizesFor("gc", "amd64").Sizeof(u.Elem()))
		var a Agg
		for i := 0; i < int(u.Len()); i++ {
			v := x.loadBytesT(o, off+i*es, cb, u.Elem())
			if ag, ok := v.(Agg); ok {
				a = append(a, ag...)
			} else {
				a = append(a, v)
			}
		}
		return a
	case *types.Struct:
		var a Agg
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := types.SizesFor("gc", "amd64").Offsetsof(fs)
		for i, f := range fs {
			v := x.loadBytesT(o, off+int(offs[i]), cb, f.Type())
			if ag, ok := v.(Agg); ok {
				a = append(a, ag...)
			} else {
				a = append(a, v)
			}
		}
		return a
	}
	w := bvWidth(t)
	if w == 0 {
		if off%cb == 0 && off/cb < len(o.cells) {
			return o.cells[off/cb]
		}
		panic(unsup("byte-granular load of %s", t))
	}
	if w == 1 {
		return x.tm.Extract(x.loadBytes(o, off, 1, cb), 0, 0)
	}
	return x.loadBytes(o, off, w/8, cb)
}

func (x *Exec) loadBytes(o *Obj, off, n, cb int) *Term {
	tm := x.tm
	if off < 0 || off+n > len(o.cells)*cb {
		panic(rtPanic{msg: "memory access out of bounds of the object (unsafe)"})
	}
	var parts []*Term // lsb first
	for k := 0; k < n; {
		ci := (off + k) / cb
		lo := (off + k) % cb
		m := cb - lo
		if m > n-k {
			m = n - k
		}
		c, ok := o.cells[ci].(*Term)
		if !ok {
			if p, isP := o.cells[ci].(Poison); isP {
				panic(unsup("use of undefined value: %s", p.why))
			}
			panic(unsup("byte access to a non-scalar cell"))
		}
		if c.w < 8 {
			c = tm.Zext(c, 8)
		}
		if c.w != cb*8 {
			panic(unsup("byte access with mixed cell widths"))
		}
		parts = append(parts, tm.Extract(c, (lo+m)*8-1, lo*8))
		k += m
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return tm.Concat(parts...)
}

func (x *Exec) storeBytes(s *State, o *Obj, off int, v *Term, cb int) {
	tm := x.tm
	if v.w < 8 {
		v = tm.Zext(v, 8)
	}
	n := v.w / 8
	if off < 0 || off+n > len(o.cells)*cb {
		panic(rtPanic{msg: "memory access out of bounds of the object (unsafe)"})
	}
	for k := 0; k < n; {
		ci := (off + k) / cb
		lo := (off + k) % cb
		m := cb - lo
		if m > n-k {
			m = n - k
		}
		part := tm.Extract(v, (k+m)*8-1, k*8)
		if m == cb {
			o.cells[ci] = part
		} else {
			c, ok := o.cells[ci].(*Term)
			if !ok || c.w != cb*8 {
				panic(unsup("byte store to a non-scalar cell"))
			}
			var ps []*Term
			if lo+m < cb {
				ps = append(ps, tm.Extract(c, cb*8-1, (lo+m)*8))
			}
			ps = append(ps, part)
			if lo > 0 {
				ps = append(ps, tm.Extract(c, lo*8-1, 0))
			}
			o.cells[ci] = tm.Concat(ps...)
		}
		k += m
	}
}

func (x *Exec) store(s *State, p Ptr, v Value, t types.Type) {
	if p.obj == 0 {
		x.nilDeref()
	}
	o := x.wobj(s, p.obj)
	if p.sym != nil {
		x.storeSym(s, o, p, v, t, nil)
		return
	}
	x.storeAt(s, o, p.off, p.view, v, t)
}

func (x *Exec) storeAt(s *State, o *Obj, off, view int, v Value, t types.Type) {
	if view > 0 {
		if tv, ok := v.(*Term); ok {
			x.storeBytes(s, o, off, tv, view)
			return
		}
		if off%view == 0 && off/view < len(o.cells) && x.ncells(t) == 1 {
			o.cells[off/view] = v
			return
		}
		if ag, ok := v.(Agg); ok {
			if at, ok := t.Underlying().(*types.Array); ok && bvWidth(at.Elem()) >= 8 {
				for i, c := range ag {
					x.storeBytes(s, o, off+i*bvWidth(at.Elem())/8, c.(*Term), view)
				}
				return
			}
		}
		panic(unsup("byte-granular store of %s", t))
	}
	if ag, ok := v.(Agg); ok {
		if off < 0 || off+len(ag) > len(o.cells) {
			if len(ag) == 0 {
				return
			}
			panic(rtPanic{msg: "memory access out of bounds of the object (unsafe)"})
		}
		x.access(s, o, off, len(ag), true)
		copy(o.cells[off:], ag)
		return
	}
	if off < 0 || off >= len(o.cells) {
		panic(rtPanic{msg: "memory access out of bounds of the object (unsafe)"})
	}
	if tv, ok := v.(*Term); ok {
		if c, ok := o.cells[off].(*Term); ok && c.w != tv.w {
			cb := x.cellBytes(o, off)
			x.storeBytes(s, o, off*cb, tv, cb)
			return
		}
	}
	x.access(s, o, off, 1, true)
	o.cells[off] = v
}

func (x *Exec) storeSym(s *State, o *Obj, p Ptr, v Value, t types.Type, guard *Term) {
	si := p.sym
	tm := x.tm
	n := x.ncells(t)
	for i := 0; i < si.n; i++ {
		g := tm.Eq(si.idx, tm.C(si.idx.w, uint64(i)))
		if guard != nil {
			g = tm.And(guard, g)
		}
		if g.isFalse() {
			continue
		}
		q := Ptr{obj: p.obj, off: p.off + i*si.str, view: p.view, sym: si.next}
		if q.sym != nil {
			x.storeSym(s, o, q, v, t, g)
			continue
		}
		old := x.loadAt(s, o, q.off, q.view, t, n)
		m, ok := x.mergeVal(g, v, old)
		if !ok {
			panic(unsup("store through a symbolic index"))
		}
		x.storeAt(s, o, q.off, q.view, m, t)
	}
}

// ---------- slices

func (x *Exec) sliceElemPtr(sl Slice, i int) Ptr {
	return Ptr{obj: sl.obj, off: sl.off + i*sl.esz, view: sl.view}
}

func (x *Exec) sliceGet(s *State, sl Slice, i int, et types.Type) Value {
	return x.load(s, x.sliceElemPtr(sl, i), et)
}

// bytesOf returns the byte terms of a []byte
func (x *Exec) bytesOf(s *State, sl Slice) []*Term {
	out := make([]*Term, sl.len)
	for i := range out {
		v := x.sliceGet(s, sl, i, types.Typ[types.Uint8])
		t, ok := v.(*Term)
		if !ok {
			if p, isP := v.(Poison); isP {
				panic(unsup("use of undefined value: %s", p.why))
			}
			panic(unsup("bytes of %T", v))
		}
		out[i] = t
	}
	return out
}

func (x *Exec) mkBytes(s *State, b []*Term) Slice {
	cells := make([]Value, len(b))
	for i := range b {
		cells[i] = b[i]
	}
	o := x.newObj(s, cells, "[]byte")
	return Slice{obj: o.id, len: len(b), cap: len(b), esz: 1}
}

func (x *Exec) mkSlice(s *State, elem types.Type, n, c int) Slice {
	es := x.ncells(elem)
	if n < 0 || c < n {
		panic(rtPanic{msg: "makeslice: len out of range"})
	}
	if es*c > 1<<22 {
		panic(unsup("allocation of %d cells", es*c))
	}
	z := x.zero(elem)
	cells := make([]Value, 0, es*c)
	if a, ok := z.(Agg); ok {
		for i := 0; i < c; i++ {
			cells = append(cells, a...)
		}
	} else {
		for i := 0; i < c; i++ {
			cells = append(cells, z)
		}
	}
	o := x.newObj(s, cells, "slice")
	o.typ = elem
	return Slice{obj: o.id, len: n, cap: c, esz: es}
}

func (x *Exec) appendVals(s *State, a Slice, elem types.Type, src Slice, srcStr *Str) Slice {
	n := src.len
	var sb []*Term
	if srcStr != nil {
		sb = x.strBytes(*srcStr)
		n = len(sb)
	}
	if n == 0 {
		return a
	}
	dst := a
	if a.len+n > a.cap || a.obj == 0 {
		nc := growCap(elem, a.len+n, a.cap)
		dst = x.mkSlice(s, elem, a.len+n, nc)
		x.copyCells(s, dst, 0, a, a.len, elem)
	}
	dst.len = a.len + n
	if srcStr != nil {
		for i, b := range sb {
			x.store(s, x.sliceElemPtr(dst, a.len+i), b, elem)
		}
	} else {
		x.copyCells(s, dst, a.len, src, n, elem)
	}
	return dst
}

// copyCells copies n elements of src to dst starting at element at (memmove)
func (x *Exec) copyCells(s *State, dst Slice, at int, src Slice, n int, elem types.Type) {
	if n == 0 {
		return
	}
	if dst.view == 0 && src.view == 0 && dst.esz == src.esz {
		so := x.obj(s, src.obj)
		k := n * dst.esz
		if src.off+k > len(so.cells) {
			panic(rtPanic{msg: "memory access out of bounds of the object (unsafe)"})
		}
		x.access(s, so, src.off, k, false)
		tmp := append([]Value(nil), so.cells[src.off:src.off+k]...)
		do := x.wobj(s, dst.obj)
		x.access(s, do, dst.off+at*dst.esz, k, true)
		copy(do.cells[dst.off+at*dst.esz:], tmp)
		return
	}
	tmp := make([]Value, n)
	for i := range tmp {
		tmp[i] = x.sliceGet(s, src, i, elem)
	}
	for i := range tmp {
		x.store(s, x.sliceElemPtr(dst, at+i), tmp[i], elem)
	}
}

func (x *Exec) access(s *State, o *Obj, off, n int, write bool) {
	if s.races {
		x.raceAccess(s, o, off, n, write)
	}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap: the capacity runtime.growslice chooses
func growCap(elem types.Type, newLen, oldCap int) int {
	nc := oldCap
	switch {
	case newLen > 2*oldCap:
		nc = newLen
	case oldCap < 256:
		nc = 2 * oldCap
	default:
		for nc < newLen {
			nc += (nc + 768) >> 2
		}
	}
	es := int(types.SizesFor("gc", "amd64").Sizeof(elem))
	if es == 0 {
		return newLen
	}
	sz := nc * es
	hdr := 0
	if sz > 512 && hasPtr(elem) && sz <= 32768-8 {
		hdr = 8
	}
	if sz+hdr <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= sz+hdr {
				sz = c - hdr
				break
			}
		}
	} else {
		sz = (sz + 8191) &^ 8191
	}
	if sz/es < newLen {
		return newLen
	}
	return sz / es
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}
