//go:build !race

package simrt

// RaceOn says that the race detector of the Go toolchain watches this build.
const RaceOn = false

func raceOff()  {}
func raceBack() {}

// Release and Acquire order what precedes the one before what follows the other.
func Release[T any](p *T) {}

// Acquire is the other half of Release.
func Acquire[T any](p *T) {}

// RaceErrors is the number of races the detector has reported.
func RaceErrors() int { return 0 }
