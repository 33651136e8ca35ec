//go:build !race

package vs

import "unsafe"

const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func RaceErrors() int              { return 0 }
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}

func RaceRead(p unsafe.Pointer)  {}
func RaceWrite(p unsafe.Pointer) {}
