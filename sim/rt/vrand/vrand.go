// Package vrand stands in for math/rand and math/rand/v2 at package level.
package vrand

import "verifsim/rt"

func src() int64 {
	if rt.W == nil {
		return 0
	}
	return int64(rt.S_("rand").N(1<<30))<<31 | int64(rt.S_("rand").N(1<<30))
}

func Seed(int64)           {}
func Int63() int64         { return src() & (1<<63 - 1) }
func Int() int             { return int(Int63()) }
func Int64() int64         { return Int63() }
func Uint32() uint32       { return uint32(src()) }
func Uint64() uint64       { return uint64(src()) }
func Int31() int32         { return int32(src() & (1<<31 - 1)) }
func Intn(n int) int       { return rt.S_("rand").N(n) }
func IntN(n int) int       { return rt.S_("rand").N(n) }
func Int31n(n int32) int32 { return int32(rt.S_("rand").N(int(n))) }
func Int63n(n int64) int64 { return Int63() % n }
func Float64() float64     { return float64(rt.S_("rand").N(1<<30)) / (1 << 30) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, rt.S_("rand").N(i+1))
	}
}

type Source interface{ Int63() int64 }
type Rand struct{}
type s struct{}

func (s) Int63() int64             { return Int63() }
func NewSource(int64) Source       { return s{} }
func New(Source) *Rand             { return &Rand{} }
func (*Rand) Intn(n int) int       { return Intn(n) }
func (*Rand) Int63n(n int64) int64 { return Int63n(n) }
func (*Rand) Int() int             { return Int() }
func (*Rand) Float64() float64     { return Float64() }
func (*Rand) Perm(n int) []int     { return Perm(n) }
