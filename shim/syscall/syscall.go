// Package syscall stands in for the standard syscall package under simulation.
package syscall

import (
	"fmt"
	real "syscall"
	"unsafe"

	"github.com/jcorbin/anansi/zz/sim"
)

func call(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if sim.S == nil {
		return 0, 0, real.EBADF
	}
	k := sim.S.K
	fail := ^uintptr(0)
	res := func(n int, e Errno) (uintptr, uintptr, Errno) {
		if e != 0 {
			return fail, 0, e
		}
		return uintptr(n), 0, 0
	}
	switch trap {
	case real.SYS_FCNTL:
		return res(k.Fcntl(int(a1), int(a2), int(a3)))
	case real.SYS_IOCTL:
		return res(0, k.Ioctl(int(a1), a2, *(*unsafe.Pointer)(unsafe.Pointer(&a3))))
	case real.SYS_KILL:
		return res(0, k.Kill(int(a1), Signal(a2)))
	case real.SYS_GETPID:
		return uintptr(k.CurProc().Pid), 0, 0
	case real.SYS_READ:
		return res(k.Read(int(a1), unsafe.Slice(*(**byte)(unsafe.Pointer(&a2)), int(a3))))
	case real.SYS_WRITE:
		return res(k.Write(int(a1), unsafe.Slice(*(**byte)(unsafe.Pointer(&a2)), int(a3))))
	case real.SYS_CLOSE:
		return res(0, k.CloseFd(int(a1)))
	case real.SYS_FSYNC, real.SYS_FDATASYNC:
		return res(0, k.Sync(int(a1)))
	}
	sim.S.Trouble = fmt.Sprintf("unsupported system call %d", trap)
	return fail, 0, real.ENOSYS
}

// Syscall performs a simulated system call.
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) { return call(trap, a1, a2, a3) }

// Syscall6 performs a simulated system call.
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	return call(trap, a1, a2, a3)
}

// RawSyscall performs a simulated system call.
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) { return call(trap, a1, a2, a3) }

// RawSyscall6 performs a simulated system call.
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	return call(trap, a1, a2, a3)
}

func wrap(e Errno) error {
	if e != 0 {
		return e
	}
	return nil
}

// Kill sends a signal.
func Kill(pid int, sig Signal) error { return wrap(sim.S.K.Kill(pid, sig)) }

// Getpid returns the process id.
func Getpid() int { return sim.S.K.CurProc().Pid }

// Getpgrp returns the process group.
func Getpgrp() int { return sim.S.K.CurProc().Pgid }

// Getpgid returns the process group.
func Getpgid(pid int) (int, error) {
	if pid == 0 {
		return Getpgrp(), nil
	}
	for _, p := range sim.S.K.Procs {
		if p.Pid == pid && !p.Dead {
			return p.Pgid, nil
		}
	}
	return 0, ESRCH
}

// Getppid is 1.
func Getppid() int { return 1 }

// Read reads from a descriptor.
func Read(fd int, p []byte) (int, error) {
	n, e := sim.S.K.Read(fd, p)
	if e != 0 {
		return -1, e
	}
	return n, nil
}

// Write writes to a descriptor.
func Write(fd int, p []byte) (int, error) {
	n, e := sim.S.K.Write(fd, p)
	if e != 0 {
		return -1, e
	}
	return n, nil
}

// Close closes a descriptor.
func Close(fd int) error { return wrap(sim.S.K.CloseFd(fd)) }

// SetNonblock changes O_NONBLOCK.
func SetNonblock(fd int, nonblocking bool) error {
	f, e := sim.S.K.Fcntl(fd, real.F_GETFL, 0)
	if e != 0 {
		return e
	}
	g := f &^ real.O_NONBLOCK
	if nonblocking {
		g |= real.O_NONBLOCK
	}
	if f == g {
		return nil
	}
	_, e = sim.S.K.Fcntl(fd, real.F_SETFL, g)
	return wrap(e)
}

// Getrusage reads resource usage.
func Getrusage(who int, ru *Rusage) error {
	e := sim.S.K.Getrusage()
	if e != 0 {
		return e
	}
	*ru = Rusage{}
	us := sim.S.K.CPUTime
	ru.Utime.Sec, ru.Utime.Usec = us/2/1e6, us/2%1e6
	ru.Stime.Sec, ru.Stime.Usec = us/10/1e6, us/10%1e6
	ru.Maxrss = 10000
	return nil
}

// Exit ends the process.
func Exit(code int) { sim.S.K.Exit(code) }

// Gettimeofday reads the clock.
func Gettimeofday(tv *Timeval) error {
	n := sim.S.Now()
	tv.Sec, tv.Usec = n/1e9, n%1e9/1000
	return nil
}

// Getuid is the user.
func Getuid() int { return 1000 }

// Geteuid is the effective user.
func Geteuid() int { return 1000 }

// Getgid is the group.
func Getgid() int { return 1000 }

// Getpagesize is a page.
func Getpagesize() int { return 4096 }

// Gettid is the process.
func Gettid() int { return Getpid() }

// Getenv reads the environment.
func Getenv(key string) (string, bool) { v, ok := sim.S.K.Env[key]; return v, ok }
