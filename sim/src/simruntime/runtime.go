// Package simruntime replaces runtime in simulated code: how many processors
// there are is part of the plan.
package simruntime

import "sigs.k8s.io/controller-tools/verifsim/rt"

func GOMAXPROCS(int) int { return rt.CPUs() }
func NumCPU() int        { return rt.CPUs() }
func Gosched()           { rt.Y(0) }
