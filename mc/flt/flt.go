//go:build verifsys

// Package flt injects faults and crashes at the system calls of the code under test. It needs
// the syscall package as patched by tools/sysov.py through a build overlay.
package flt

import (
	"os"
	"syscall"
)

const Available = true

// Kinds of fault at step At.
const (
	Count = iota // nothing happens; steps are counted
	Once         // the step fails
	Stay         // the step and every later one that changes something fails
	Short        // a write is cut short after Cut bytes, as the system may do
	Crash        // the process ends there: the step (after Cut bytes) and all later ones have no effect
)

// Inject runs f with a fault at step at (1, 2, ...) and tells whether the step was reached
// and how many steps were made.
func Inject(kind, at, cut int, errno syscall.Errno, reads bool, f func()) (hit bool, steps int) {
	On(kind, at, cut, errno, reads)
	defer Off()
	f()
	return syscall.VerifHit, syscall.VerifSteps
}

func On(kind, at, cut int, errno syscall.Errno, reads bool) {
	syscall.VerifReset()
	syscall.VerifKind, syscall.VerifAt, syscall.VerifCut = kind, at, cut
	syscall.VerifErrno, syscall.VerifReads = errno, reads
	syscall.VerifOn = true
}

// OnFile makes f be called before every operation that changes a file.
func OnFile(f func(op, name string)) { os.VerifPoint = f }

func Off() { syscall.VerifOn = false }

// Hit tells whether the fault has happened.
func Hit() bool { return syscall.VerifHit }

// Dead tells whether the process has ended.
func Dead() bool { return syscall.VerifOn && syscall.VerifKind == Crash && syscall.VerifHit }

// What names the system call the fault hit.
func What() string {
	switch syscall.VerifTrap {
	case syscall.SYS_OPENAT:
		return "open"
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		return "write"
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		return "read"
	case syscall.SYS_RENAMEAT, syscall.SYS_RENAME:
		return "rename"
	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		return "unlink"
	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		return "mkdir"
	case syscall.SYS_GETDENTS64:
		return "getdents"
	case syscall.SYS_NEWFSTATAT, syscall.SYS_FSTAT:
		return "stat"
	case 326:
		return "copy_file_range"
	}
	return "call"
}
