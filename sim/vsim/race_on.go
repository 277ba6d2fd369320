//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

// With the race detector compiled in, handing the processor from one task to
// the next must not look like synchronisation between them.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceRelease(t *task) { runtime.RaceReleaseMerge(unsafe.Pointer(t)) }
func raceAcquire(t *task) { runtime.RaceAcquire(unsafe.Pointer(t)) }
