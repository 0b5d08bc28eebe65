//go:build !race

package rt

import "unsafe"

// RaceEnabled tells whether the race detector is compiled in.
const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }

// Acquire and Release make happens-before edges visible to the detector.
func Acquire(unsafe.Pointer) {}
func Release(unsafe.Pointer) {}

// HideBegin and HideEnd bracket harness bookkeeping whose locking must not order user accesses.
func HideBegin() {}
func HideEnd()   {}

// TouchRead and TouchWrite record user buffer accesses.
func TouchRead([]byte)  {}
func TouchWrite([]byte) {}
