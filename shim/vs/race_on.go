//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceErrors() int              { return runtime.RaceErrors() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

func RaceRead(p unsafe.Pointer)  { runtime.RaceRead(p) }
func RaceWrite(p unsafe.Pointer) { runtime.RaceWrite(p) }
