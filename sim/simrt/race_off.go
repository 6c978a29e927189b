//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells that the race detector is built in.
const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

// RaceAcquire and friends do nothing without the race detector.
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
func RaceOff()                          {}
