// Package rand replaces math/rand: the global source is seeded per run.
package rand

import (
	r "math/rand"

	"verifsim/simrt"
)

type (
	Rand     = r.Rand
	Source   = r.Source
	Source64 = r.Source64
	Zipf     = r.Zipf
)

var (
	New       = r.New
	NewSource = r.NewSource
	NewZipf   = r.NewZipf
)

var g *r.Rand
var ge uint64

func global() *r.Rand {
	simrt.Yield()
	if g == nil || ge != simrt.Epoch() {
		ge = simrt.Epoch()
		g = r.New(r.NewSource(42))
	}
	return g
}

func Seed(int64)                       {}
func Int() int                         { return global().Int() }
func Intn(n int) int                   { return global().Intn(n) }
func Int31() int32                     { return global().Int31() }
func Int31n(n int32) int32             { return global().Int31n(n) }
func Int63() int64                     { return global().Int63() }
func Int63n(n int64) int64             { return global().Int63n(n) }
func Uint32() uint32                   { return global().Uint32() }
func Uint64() uint64                   { return global().Uint64() }
func Float32() float32                 { return global().Float32() }
func Float64() float64                 { return global().Float64() }
func NormFloat64() float64             { return global().NormFloat64() }
func ExpFloat64() float64              { return global().ExpFloat64() }
func Perm(n int) []int                 { return global().Perm(n) }
func Shuffle(n int, f func(i, j int))  { global().Shuffle(n, f) }
func Read(p []byte) (n int, err error) { return global().Read(p) }
