// Package simtime replaces time in simulated code: the clock is the simulator's.
package simtime

import (
	"time"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

func Now() time.Time                  { return time.Unix(0, rt.Now()).UTC() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { rt.Sleep(0, int64(d)) }

// After fires on the simulated clock.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	t := rt.Spawn(0)
	go func() {
		defer rt.TaskEnd(t)
		rt.TaskStart(t)
		rt.Sleep(0, int64(d))
		rt.SendTo(0, (chan<- time.Time)(c))(Now())
	}()
	return c
}

// AfterFunc runs f on the simulated clock; the returned timer cannot be reset.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := rt.Spawn(0)
	go func() {
		defer rt.TaskEnd(t)
		rt.TaskStart(t)
		rt.Sleep(0, int64(d))
		f()
	}()
	return time.NewTimer(time.Hour)
}
