//go:build !race

package rt

import "unsafe"

func Acquire(p unsafe.Pointer)           {}
func Release(p unsafe.Pointer)           {}
func ReleaseMerge(p unsafe.Pointer)      {}
func hide()                              {}
func unhide()                            {}
func RaceErrors() int                    { return 0 }
func readRange(p unsafe.Pointer, n int)  {}
func writeRange(p unsafe.Pointer, n int) {}

const RaceOn = false
