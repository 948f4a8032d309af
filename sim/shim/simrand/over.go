// Package simrand replaces the package-level functions of math/rand.
package simrand

import (
	"math/rand"

	"verifsim/rt"
)

// every simulated process starts from a generator of its own
var r *rand.Rand

func init() { rt.OnReset(func() { r = nil }) }

func gen() *rand.Rand {
	if r == nil {
		r = rand.New(rand.NewSource(1 + rt.RandSeed()))
	}
	return r
}

func Seed(s int64)                       { gen().Seed(s) }
func Int() int                           { return gen().Int() }
func Intn(n int) int                     { return gen().Intn(n) }
func Int31() int32                       { return gen().Int31() }
func Int31n(n int32) int32               { return gen().Int31n(n) }
func Int63() int64                       { return gen().Int63() }
func Int63n(n int64) int64               { return gen().Int63n(n) }
func Uint32() uint32                     { return gen().Uint32() }
func Uint64() uint64                     { return gen().Uint64() }
func Float32() float32                   { return gen().Float32() }
func Float64() float64                   { return gen().Float64() }
func NormFloat64() float64               { return gen().NormFloat64() }
func ExpFloat64() float64                { return gen().ExpFloat64() }
func Perm(n int) []int                   { return gen().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { gen().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return gen().Read(p) }
