// Package simrandv2 replaces math/rand/v2 in simulated code: numbers come from the plan.
package simrandv2

import (
	"math/rand/v2"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

type source struct{}

func (source) Uint64() uint64 { return rt.Rand() }

var r = rand.New(source{})

func Int64() int64                       { return r.Int64() }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Int32() int32                       { return r.Int32() }
func Int() int                           { return r.Int() }
func Int64N(n int64) int64               { return r.Int64N(n) }
func Int32N(n int32) int32               { return r.Int32N(n) }
func Uint64N(n uint64) uint64            { return r.Uint64N(n) }
func Uint32N(n uint32) uint32            { return r.Uint32N(n) }
func IntN(n int) int                     { return r.IntN(n) }
func UintN(n uint) uint                  { return r.UintN(n) }
func Float64() float64                   { return r.Float64() }
func Float32() float32                   { return r.Float32() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func NormFloat64() float64               { return r.NormFloat64() }
func ExpFloat64() float64                { return r.ExpFloat64() }

func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(r.Uint64N(uint64(n)))
}
