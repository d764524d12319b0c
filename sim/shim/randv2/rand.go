// Package rand replaces math/rand/v2: the global source is seeded per run.
package rand

import (
	r "math/rand/v2"

	"verifsim/simrt"
)

type (
	Rand    = r.Rand
	Source  = r.Source
	PCG     = r.PCG
	ChaCha8 = r.ChaCha8
)

var (
	New        = r.New
	NewPCG     = r.NewPCG
	NewChaCha8 = r.NewChaCha8
)

var g *r.Rand
var ge uint64

func global() *r.Rand {
	simrt.Yield()
	if g == nil || ge != simrt.Epoch() {
		ge = simrt.Epoch()
		g = r.New(r.NewPCG(4, 2))
	}
	return g
}

func Int() int                        { return global().Int() }
func IntN(n int) int                  { return global().IntN(n) }
func Int32() int32                    { return global().Int32() }
func Int32N(n int32) int32            { return global().Int32N(n) }
func Int64() int64                    { return global().Int64() }
func Int64N(n int64) int64            { return global().Int64N(n) }
func Uint32() uint32                  { return global().Uint32() }
func Uint32N(n uint32) uint32         { return global().Uint32N(n) }
func Uint64() uint64                  { return global().Uint64() }
func Uint64N(n uint64) uint64         { return global().Uint64N(n) }
func Float32() float32                { return global().Float32() }
func Float64() float64                { return global().Float64() }
func NormFloat64() float64            { return global().NormFloat64() }
func ExpFloat64() float64             { return global().ExpFloat64() }
func Perm(n int) []int                { return global().Perm(n) }
func Shuffle(n int, f func(i, j int)) { global().Shuffle(n, f) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(global().Uint64N(uint64(n)))
}
