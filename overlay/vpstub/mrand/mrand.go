// Package rand stands for math/rand: every draw is an arbitrary value of its
// range. Float64 returns 0, which accepts every rejection-sampled candidate:
// the set of accepted candidates is over-approximated by their whole range.
package rand

import "github.com/si-co/vpir-code/vp"

type Source interface {
	Int63() int64
	Seed(seed int64)
}
type Source64 interface {
	Source
	Uint64() uint64
}
type Rand struct{ src Source }

type src0 struct{}

func (src0) Int63() int64   { return int64(vp.U64Max("rnd.i63", 1<<63-1)) }
func (src0) Seed(int64)     {}
func (src0) Uint64() uint64 { return vp.U64("rnd.u64") }

func NewSource(seed int64) Source { return src0{} }
func New(s Source) *Rand          { return &Rand{s} }

// Draws lists the results of Intn, for harnesses that state assumptions about
// them.
var Draws []int

func intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	d := int(vp.U64Max("rnd.intn", uint64(n-1)))
	Draws = append(Draws, d)
	return d
}
func perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, intn(i+1))
	}
}

func (r *Rand) Intn(n int) int                     { return intn(n) }
func (r *Rand) Int() int                           { return int(vp.U64Max("rnd.i63", 1<<63-1)) }
func (r *Rand) Int31() int32                       { return int32(vp.U64Max("rnd.i31", 1<<31-1)) }
func (r *Rand) Int31n(n int32) int32               { return int32(intn(int(n))) }
func (r *Rand) Int63() int64                       { return int64(vp.U64Max("rnd.i63", 1<<63-1)) }
func (r *Rand) Int63n(n int64) int64               { return int64(intn(int(n))) }
func (r *Rand) Uint32() uint32                     { return vp.U32("rnd.u32") }
func (r *Rand) Uint64() uint64                     { return vp.U64("rnd.u64") }
func (r *Rand) Float64() float64                   { return 0 }
func (r *Rand) Float32() float32                   { return 0 }
func (r *Rand) Seed(seed int64)                    {}
func (r *Rand) Perm(n int) []int                   { return perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { shuffle(n, swap) }
func (r *Rand) Read(p []byte) (int, error) {
	if len(p) > 0 {
		copy(p, vp.Bytes("rnd", len(p)))
	}
	return len(p), nil
}

var global = &Rand{src0{}}

func Intn(n int) int                     { return intn(n) }
func Int() int                           { return global.Int() }
func Int31() int32                       { return global.Int31() }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Int63() int64                       { return global.Int63() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Uint32() uint32                     { return vp.U32("rnd.u32") }
func Uint64() uint64                     { return vp.U64("rnd.u64") }
func Float64() float64                   { return 0 }
func Float32() float32                   { return 0 }
func Seed(seed int64)                    {}
func Perm(n int) []int                   { return perm(n) }
func Shuffle(n int, swap func(i, j int)) { shuffle(n, swap) }
func Read(p []byte) (int, error)         { return global.Read(p) }
