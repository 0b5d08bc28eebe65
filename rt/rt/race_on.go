//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the race detector is compiled in.
const RaceEnabled = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// Acquire and Release make happens-before edges visible to the detector.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// HideBegin and HideEnd bracket harness bookkeeping whose locking must not order user accesses.
func HideBegin() { runtime.RaceDisable() }
func HideEnd()   { runtime.RaceEnable() }

// TouchRead and TouchWrite record user buffer accesses.
func TouchRead(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}

func TouchWrite(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}
