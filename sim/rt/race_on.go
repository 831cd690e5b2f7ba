//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const Race = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// Acquire and Release tell the race detector about synchronisation by the shim.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
