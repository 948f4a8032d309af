// Package simrand2 replaces the package-level functions of math/rand/v2.
package simrand2

import (
	"math/rand/v2"

	"verifsim/rt"
)

var r *rand.Rand

func init() { rt.OnReset(func() { r = nil }) }

func gen() *rand.Rand {
	if r == nil {
		r = rand.New(rand.NewPCG(1, uint64(rt.RandSeed())))
	}
	return r
}

func Int() int                           { return gen().Int() }
func IntN(n int) int                     { return gen().IntN(n) }
func Int32() int32                       { return gen().Int32() }
func Int32N(n int32) int32               { return gen().Int32N(n) }
func Int64() int64                       { return gen().Int64() }
func Int64N(n int64) int64               { return gen().Int64N(n) }
func Uint32() uint32                     { return gen().Uint32() }
func Uint32N(n uint32) uint32            { return gen().Uint32N(n) }
func Uint64() uint64                     { return gen().Uint64() }
func Uint64N(n uint64) uint64            { return gen().Uint64N(n) }
func Float32() float32                   { return gen().Float32() }
func Float64() float64                   { return gen().Float64() }
func NormFloat64() float64               { return gen().NormFloat64() }
func ExpFloat64() float64                { return gen().ExpFloat64() }
func Perm(n int) []int                   { return gen().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { gen().Shuffle(n, swap) }

func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I) I {
	return I(gen().Uint64N(uint64(n)))
}
