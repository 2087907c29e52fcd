#!/usr/bin/env python3
"""Writes a copy of the standard library's syscall_linux.go with a fault injection point in
Syscall and Syscall6, and of two files of os in which the operations that change something call
VerifPoint first (a scheduling point for the controlled scheduler). Returns the overlay entries
for them. GOROOT itself is not touched."""
import os, subprocess, sys

HELPER = '''
// ---- fault injection, added for verification ----

var (
	VerifOn    bool
	VerifReads bool
	VerifHit   bool
	VerifKind  int
	VerifAt    int
	VerifCut   int
	VerifSteps int
	VerifErrno Errno
	VerifTrap  uintptr
	verifFds   [4096]bool
)

func VerifReset() {
	VerifOn, VerifHit, VerifSteps, VerifTrap = false, false, 0, 0
	verifFds = [4096]bool{}
}

//go:nosplit
//go:norace
func verifFd(fd uintptr) bool { return fd < 4096 && verifFds[fd] }

// verifBefore decides what happens to a system call: cut (if not ^0) limits a write.
//
//go:nosplit
//go:norace
func verifBefore(trap, a1, a2, a3, a4 uintptr) (cut uintptr, err Errno) {
	cut = ^uintptr(0)
	if !VerifOn {
		return
	}
	change, write := false, false
	switch trap {
	case SYS_OPENAT:
		change = a3&(O_CREAT|O_TRUNC|O_WRONLY|O_RDWR|O_APPEND) != 0
		if !change && !VerifReads {
			return
		}
	case SYS_WRITE, SYS_PWRITE64, SYS_WRITEV, SYS_FTRUNCATE, SYS_FALLOCATE, SYS_FCHMOD, SYS_FSYNC, SYS_FDATASYNC:
		if !verifFd(a1) {
			return
		}
		change = true
		write = trap == SYS_WRITE || trap == SYS_PWRITE64
	case 326: // copy_file_range
		if !verifFd(a3) {
			return
		}
		change, write = true, true
	case SYS_SENDFILE:
		if !verifFd(a1) {
			return
		}
		change, write = true, true
	case SYS_SPLICE:
		if !verifFd(a3) {
			return
		}
		change = true
	case SYS_RENAMEAT, 316, SYS_RENAME, SYS_UNLINKAT, SYS_UNLINK, SYS_RMDIR, SYS_MKDIRAT, SYS_MKDIR, SYS_TRUNCATE,
		SYS_LINKAT, SYS_LINK, SYS_SYMLINKAT, SYS_SYMLINK, SYS_FCHMODAT, SYS_CHMOD, SYS_UTIMENSAT:
		change = true
	case SYS_READ, SYS_PREAD64, SYS_GETDENTS64, SYS_FSTAT:
		if !VerifReads || !verifFd(a1) {
			return
		}
	case SYS_NEWFSTATAT, 332:
		if !VerifReads {
			return
		}
	default:
		return
	}
	if VerifHit && (VerifKind == 2 || VerifKind == 4) {
		if change {
			return cut, VerifErrno
		}
		return
	}
	VerifSteps++
	if VerifSteps != VerifAt || VerifKind == 0 {
		return
	}
	VerifHit = true
	VerifTrap = trap
	if VerifKind == 3 {
		if write && VerifCut >= 0 {
			cut = uintptr(VerifCut)
		}
		return
	}
	if VerifKind == 4 && write && VerifCut > 0 {
		return uintptr(VerifCut), 0
	}
	return cut, VerifErrno
}

//go:nosplit
//go:norace
func verifAfter(trap, a1, r1 uintptr, err Errno) {
	if !VerifOn {
		return
	}
	switch trap {
	case SYS_OPENAT:
		if err == 0 && r1 < 4096 {
			verifFds[r1] = true
		}
	case SYS_CLOSE:
		if a1 < 4096 {
			verifFds[a1] = false
		}
	}
}
'''

def patch(src):
    a = '''func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()'''
    b = '''func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	cut, fault := verifBefore(trap, a1, a2, a3, 0)
	if fault != 0 {
		return ^uintptr(0), 0, fault
	}
	if cut < a3 {
		a3 = cut
	}
	runtime_entersyscall()'''
    c = '''	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
	runtime_exitsyscall()
	return
}'''
    d = '''	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
	runtime_exitsyscall()
	verifAfter(trap, a1, r1, err)
	return
}'''
    e = '''func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	runtime_exitsyscall()
	return
}'''
    f = '''func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	cut, fault := verifBefore(trap, a1, a2, a3, a4)
	if fault != 0 {
		return ^uintptr(0), 0, fault
	}
	switch trap {
	case SYS_PWRITE64:
		if cut < a3 {
			a3 = cut
		}
	case SYS_SENDFILE:
		if cut < a4 {
			a4 = cut
		}
	case 326:
		if cut < a5 {
			a5 = cut
		}
	}
	runtime_entersyscall()
	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	runtime_exitsyscall()
	verifAfter(trap, a1, r1, err)
	return
}'''
    for x, y in ((a, b), (c, d), (e, f)):
        if src.count(x) != 1:
            raise SystemExit("the standard library's syscall package is not as expected")
        src = src.replace(x, y)
    return src + HELPER

POINTS = {
    "file.go": [
        ("func (f *File) ReadFrom(r io.Reader) (n int64, err error) {", "f.verifName()"),
        ("func (f *File) Write(b []byte) (n int, err error) {", "f.verifName()"),
        ("func (f *File) WriteAt(b []byte, off int64) (n int, err error) {", "f.verifName()"),
        ("func Mkdir(name string, perm FileMode) error {", "name"),
        ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {", "name"),
        ("func Rename(oldpath, newpath string) error {", "newpath"),
    ],
    "file_unix.go": [
        ("func Remove(name string) error {", "name"),
    ],
}
OSHELP = '''
// VerifPoint, if set, is called with the name before an operation that changes a file.
var VerifPoint func(op, name string)

func (f *File) verifName() string {
	if f == nil || f.file == nil {
		return ""
	}
	return f.name
}
'''

def patchos(name, src):
    for head, arg in POINTS[name]:
        if src.count(head) != 1:
            raise SystemExit("the standard library's os package is not as expected")
        op = head.split("(")[0].split()[-1] if not head.startswith("func (") else head.split(") ")[1].split("(")[0]
        src = src.replace(head, head + '''
	if VerifPoint != nil {
		VerifPoint("%s", %s)
	}''' % (op, arg))
    return src + (OSHELP if name == "file.go" else "")

def write(out, env=None):
    root = subprocess.check_output(["go", "env", "GOROOT"], env=env, text=True).strip()
    ov = {}
    for pkg, name, f in (("syscall", "syscall_linux.go", patch), ("os", "file.go", None), ("os", "file_unix.go", None)):
        orig = os.path.join(root, "src", pkg, name)
        dst = os.path.join(out, pkg + "_" + name)
        src = open(orig).read()
        with open(dst, "w") as g:
            g.write(f(src) if f else patchos(name, src))
        ov[orig] = dst
    return ov

if __name__ == "__main__":
    import json
    out = sys.argv[1]
    ov = {"Replace": write(out)}
    json.dump(ov, open(os.path.join(out, "sys.json"), "w"))
