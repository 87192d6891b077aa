package rt

import (
	"syscall"
	"unsafe"
)

// Sys is shared with the assembly shim that stands in for SYSCALL
// instructions of the instrumented assembly (which uses the indices).
//
//	0 calls that could be made to fail, in this operation
//	1 number of the call to fail (0: none)
//	2 errno
//	3 calls made to fail, in this operation
//	4 1 while the world is stopped
//	5 protection changes to writable made by assembly
//	6 of those, made with the world running
//	7 1: all calls from number [1] on fail
//	8 calls made by assembly
//	9 of those made to fail
var Sys [16]uint64

var (
	// Live maps the addresses of mappings obtained by the library to their lengths.
	Live = map[uintptr]int{}
	// BadUnmap counts releases of something that is not a live mapping.
	BadUnmap int
	// SysLog, when on, names the calls that could fail, in order.
	SysLog []string
	mmap   = syscall.Mmap
)

// ArmFault makes the nth candidate call from now fail with errno.
func ArmFault(nth int, errno syscall.Errno, sticky bool) {
	Sys[0], Sys[1], Sys[2], Sys[3] = 0, uint64(nth), uint64(errno), 0
	Sys[7] = 0
	if sticky {
		Sys[7] = 1
	}
	SysLog = SysLog[:0]
}

// Disarm stops failing calls and tells how many candidates there were and how many failed.
func Disarm() (seen, fired int) {
	seen, fired = int(Sys[0]), int(Sys[3])
	Sys[0], Sys[1], Sys[3], Sys[7] = 0, 0, 0, 0
	return
}

// Fired is the number of calls made to fail since ArmFault.
func Fired() int { return int(Sys[3]) }

func candidate(name string) (syscall.Errno, bool) {
	if !active {
		return 0, false
	}
	Sys[0]++
	SysLog = append(SysLog, name)
	if Sys[1] != 0 && (Sys[0] == Sys[1] || Sys[7] == 1 && Sys[0] >= Sys[1]) {
		Sys[3]++
		return syscall.Errno(Sys[2]), true
	}
	return 0, false
}

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	Y(-6)
	St.Mmap++
	if e, bad := candidate("mmap"); bad {
		St.FaultMmap++
		return nil, e
	}
	b, err := mmap(fd, offset, length, prot, flags)
	if err == nil {
		Live[uintptr(unsafe.Pointer(&b[0]))] = len(b)
	}
	Y(-6)
	return b, err
}

func Munmap(b []byte) error {
	Y(-6)
	St.Munmap++
	if e, bad := candidate("munmap"); bad {
		St.FaultMunmap++
		return e
	}
	var a uintptr
	if len(b) > 0 {
		a = uintptr(unsafe.Pointer(&b[0]))
	}
	err := syscall.Munmap(b)
	if err == nil {
		if _, ok := Live[a]; !ok {
			BadUnmap++
		}
		delete(Live, a)
	} else {
		BadUnmap++
	}
	Y(-6)
	return err
}

func Mprotect(b []byte, prot int) error {
	Y(-6)
	St.Mprotect++
	if e, bad := candidate("mprotect"); bad {
		St.FaultMprotect++
		return e
	}
	if prot&syscall.PROT_WRITE != 0 && len(b) > 0 {
		if _, ok := Live[uintptr(unsafe.Pointer(&b[0]))]; !ok {
			Sys[5]++
			if Sys[4] == 0 {
				Sys[6]++
			}
		}
	}
	err := syscall.Mprotect(b, prot)
	Y(-6)
	return err
}

func rawSys(trap, a1, a2, a3 uintptr) (syscall.Errno, bool) {
	switch trap {
	case syscall.SYS_MMAP:
		return candidate("mmap")
	case syscall.SYS_MUNMAP:
		return candidate("munmap")
	case syscall.SYS_MPROTECT:
		if a3&syscall.PROT_WRITE != 0 {
			Sys[5]++
			if Sys[4] == 0 {
				Sys[6]++
			}
			return candidate("write")
		}
	}
	return 0, false
}

func track(trap, a1, a2, r1 uintptr, e syscall.Errno) {
	if e != 0 {
		return
	}
	switch trap {
	case syscall.SYS_MMAP:
		Live[r1] = int(a2)
	case syscall.SYS_MUNMAP:
		if _, ok := Live[a1]; !ok {
			BadUnmap++
		}
		delete(Live, a1)
	}
}

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if e, bad := rawSys(trap, a1, a2, a3); bad {
		return ^uintptr(0), 0, e
	}
	r1, r2, err = syscall.Syscall(trap, a1, a2, a3)
	track(trap, a1, a2, r1, err)
	return
}

func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if e, bad := rawSys(trap, a1, a2, a3); bad {
		return ^uintptr(0), 0, e
	}
	r1, r2, err = syscall.RawSyscall(trap, a1, a2, a3)
	track(trap, a1, a2, r1, err)
	return
}

func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if e, bad := rawSys(trap, a1, a2, a3); bad {
		return ^uintptr(0), 0, e
	}
	r1, r2, err = syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
	track(trap, a1, a2, r1, err)
	return
}

func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if e, bad := rawSys(trap, a1, a2, a3); bad {
		return ^uintptr(0), 0, e
	}
	r1, r2, err = syscall.RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	track(trap, a1, a2, r1, err)
	return
}
