//go:build !race

package rt

const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

// RaceErrors is the number of data races the detector has reported so far.
func RaceErrors() int { return 0 }
