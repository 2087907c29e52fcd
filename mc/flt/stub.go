//go:build !verifsys

package flt

import "syscall"

const Available = false

const (
	Count = iota
	Once
	Stay
	Short
	Crash
)

func Inject(kind, at, cut int, errno syscall.Errno, reads bool, f func()) (bool, int) {
	panic("built without fault injection")
}
func On(kind, at, cut int, errno syscall.Errno, reads bool) { panic("built without fault injection") }
func OnFile(func(op, name string))                          {}
func Off()                                                  {}
func Hit() bool                                             { return false }
func Dead() bool                                            { return false }
func What() string                                          { return "" }
