// Package vp is the vocabulary of the verification harnesses. Under the
// symbolic executor (/verif/engine) its primitives are intercepted and produce
// symbolic values; compiled natively they replay a solver model read from
// $VP_MODEL against the real code.
package vp

import (
	"errors"
	"io"
	"unicode/utf8"
	"unsafe"
)

// Exit is panicked by the stubbed log.Fatal family.
type Exit struct{ Msg string }

var errGob = errors.New("gob: cannot decode")

func Byte(name string) byte  { return byte(nextVar(name)) }
func U16(name string) uint16 { return uint16(nextVar(name)) }
func U32(name string) uint32 { return uint32(nextVar(name)) }
func U64(name string) uint64 { return nextVar(name) }
func I64(name string) int64  { return int64(nextVar(name)) }
func Bool(name string) bool  { return nextVar(name)&1 == 1 }

// U64Max returns a symbolic value in [0, max].
func U64Max(name string, max uint64) uint64 {
	if max == 0 {
		return 0
	}
	v := nextVar(name)
	if v > max {
		v = max
	}
	return v
}

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte { return nextBytes(name, n) }

// Choose returns every value in [0, n), each on its own path.
func Choose(name string, n int) int {
	v := int(nextVar(name))
	if v >= n {
		v = 0
	}
	return v
}

// Case is Choose whose paths are explored separately to the end.
func Case(name string, n int) int { return Choose(name, n) }

// Contract makes the symbolic executor call f in place of the named function
// (written as in a stack trace, without pointers): f states what another check
// decides about it. Native replays run the function itself.
func Contract(name string, f interface{}) {}

func Assume(c bool) {
	if !c {
		panic("VP-ASSUME-FAILED")
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic("VP-ASSERT-FAILED: " + msg)
	}
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(tag string) {}

func Cfg(name string, def int) int { return cfgValue(name, def) }

func Symbolic() bool          { return false }
func And(a, b bool) bool      { return a && b }
func Or(a, b bool) bool       { return a || b }
func Implies(a, b bool) bool  { return !a || b }
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Ite32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Conc forks over the values of v.
func Conc(v uint64) uint64 { return v }

// Decide forks over the values of b unless the path implies one of them.
func Decide(b bool) bool { return b }

// UF is an uninterpreted function with n output bytes. Names starting with
// "inj:" are injective (over all argument lengths of the group).
func UF(name string, n int, args ...[]byte) []byte { return ufValue(name, n, args) }

// MapOrder makes the iteration order of maps symbolic.
func MapOrder(on bool) {}

// Sched makes goroutine scheduling symbolic (context bounded).
func Sched(on bool) {}

// Races turns the data race detector on.
func Races(on bool) {}

// Yield lets another goroutine run.
func Yield() { yield() }

func Log(a ...interface{}) { logNative(a...) }

// ByteView returns the n bytes at p.
func ByteView(p unsafe.Pointer, n int) []byte {
	return unsafe.Slice((*byte)(p), n)
}

func lenAny(x interface{}) int         { panic("vp: native lenAny") }
func swapAny(x interface{}, i, j int)  { panic("vp: native swapAny") }
func gobPut(v interface{}) []byte      { panic("vp: native gobPut") }
func gobGet(h []byte, v interface{}) bool { panic("vp: native gobGet") }

func never(b bool) bool { panic("vp: native never") }

// trimRightFunc stands for bytes.TrimRightFunc. Bytes from 0x80 on are part of
// a rune of at least that value: they are decoded only when f can hold for one.
func trimRightFunc(s []byte, f func(r rune) bool) []byte {
	for len(s) > 0 {
		c := s[len(s)-1]
		if c < utf8.RuneSelf {
			if !f(rune(c)) {
				return s
			}
			s = s[:len(s)-1]
			continue
		}
		if never(f(rune(utf8.RuneSelf + U64Max("rune", utf8.MaxRune-utf8.RuneSelf)))) {
			return s
		}
		r, n := utf8.DecodeLastRune(s)
		if !f(r) {
			return s
		}
		s = s[:len(s)-n]
	}
	return s
}

// SortSlice is the insertion sort sort.Slice uses for short slices.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

// GobEncode stands for (*gob.Encoder).Encode.
func GobEncode(w io.Writer, v interface{}) error {
	_, err := w.Write(gobPut(v))
	return err
}

// GobDecode stands for (*gob.Decoder).Decode.
func GobDecode(r io.Reader, v interface{}) error {
	buf := make([]byte, 16)
	k := 0
	for k < len(buf) {
		n, err := r.Read(buf[k:])
		k += n
		if err != nil && k < len(buf) {
			if k == 0 {
				return io.EOF
			}
			return io.ErrUnexpectedEOF
		}
	}
	if !gobGet(buf, v) {
		return errGob
	}
	return nil
}

// Caught runs f and reports whether it panicked, and with what.
func Caught(f func()) (panicked bool, val interface{}) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
			if s, ok := val.(string); ok && len(s) > 3 && s[:3] == "VP-" {
				panic(val)
			}
		}
	}()
	f()
	panicked = false
	return
}
