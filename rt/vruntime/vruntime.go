// Package vruntime replaces the parts of runtime that observe or drive the process.
package vruntime

import (
	"runtime"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// HeapScript is the environment's answer to successive memory readings: the bytes in use.
var HeapScript func(reading int) uint64

var readings int

// Reset forgets the readings.
//
//go:norace
func Reset(f func(int) uint64) { readings = 0; HeapScript = f }

// GC does nothing.
func GC() {}

// Gosched yields.
func Gosched() {
	if rt.On() {
		rt.Point(nil, 0, rt.KYield, nil)
	} else {
		runtime.Gosched()
	}
}

// ReadMemStats reports what the harness decided.
//
//go:norace
func ReadMemStats(m *runtime.MemStats) {
	*m = runtime.MemStats{}

	if HeapScript != nil {
		n := HeapScript(readings)
		m.HeapInuse, m.HeapAlloc, m.Sys = n, n, n
	}

	readings++
}

// Goexit leaves the goroutine.
func Goexit() { runtime.Goexit() }
