//go:build race

package rt

import "runtime"

const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceErrors is the number of data races the detector has reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
