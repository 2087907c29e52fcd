//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func hide()                         { runtime.RaceDisable() }
func unhide()                       { runtime.RaceEnable() }
func RaceErrors() int               { return runtime.RaceErrors() }
func readRange(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceReadRange(p, n)
	}
}
func writeRange(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceWriteRange(p, n)
	}
}

const RaceOn = true
