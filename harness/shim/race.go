//go:build race

package shim

import (
	"runtime"
	"unsafe"
)

// In race builds the scheduler's own hand-over is hidden from the race detector and the modelled operations announce
// the ordering they guarantee: the detector then finds the data races of the explored schedule.

// RaceMode says whether the race detector is active.
const RaceMode = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func acquire(p *uint64) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *uint64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
