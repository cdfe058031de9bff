// Package simrand replaces math/rand in simulated code: numbers come from the plan.
package simrand

import (
	"math/rand"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

type source struct{}

func (source) Int63() int64   { return int64(rt.Rand() >> 1) }
func (source) Uint64() uint64 { return rt.Rand() }
func (source) Seed(int64)     {}

var r = rand.New(source{})

func Seed(int64)                         {}
func Int63() int64                       { return r.Int63() }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Int31() int32                       { return r.Int31() }
func Int() int                           { return r.Int() }
func Int63n(n int64) int64               { return r.Int63n(n) }
func Int31n(n int32) int32               { return r.Int31n(n) }
func Intn(n int) int                     { return r.Intn(n) }
func Float64() float64                   { return r.Float64() }
func Float32() float32                   { return r.Float32() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func NormFloat64() float64               { return r.NormFloat64() }
func ExpFloat64() float64                { return r.ExpFloat64() }
