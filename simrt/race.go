//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceOn says that the race detector of the Go toolchain watches this build.
// The scheduler's own hand-overs are hidden from it, and the synchronisation
// the program performs is told to it, so it judges the happens-before order of
// the simulated execution.
const RaceOn = true

func raceOff()  { runtime.RaceDisable() }
func raceBack() { runtime.RaceEnable() }

// Release and Acquire order what precedes the one before what follows the other.
func Release[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// Acquire is the other half of Release.
func Acquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// RaceErrors is the number of races the detector has reported.
func RaceErrors() int { return runtime.RaceErrors() }
