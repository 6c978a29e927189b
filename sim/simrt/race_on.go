//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells that the race detector is built in.
const RaceEnabled = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceAcquire and friends give the race detector the happens-before
// edges of the simulated synchronization primitives.
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }
func RaceOff()                          { runtime.RaceDisable() }
