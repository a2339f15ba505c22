// Package xsyscall replaces the system calls of package syscall.
package xsyscall

import (
	"os"
	"syscall"
	"unsafe"

	"verifsim/simrt"
)

const (
	tcgets     = 0x5401
	tcsets     = 0x5402
	tcsetsw    = 0x5403
	tcsetsf    = 0x5404
	tiocgwinsz = 0x5413
)

func ioctl(fd, req, arg uintptr) syscall.Errno {
	p := simrt.CurProc()
	if fd > 2 {
		return syscall.EBADF
	}
	if p.TTY == nil || p.TTY.File[fd] {
		return syscall.ENOTTY
	}
	switch req {
	case tcgets:
		t, e := p.TTY.GetTermios()
		if e != 0 {
			return e
		}
		*(*syscall.Termios)(ptr(arg)) = t
		return 0
	case tcsets, tcsetsw, tcsetsf:
		return p.TTY.SetTermios(*(*syscall.Termios)(ptr(arg)))
	case tiocgwinsz:
		h, w, e := p.TTY.Size()
		if e != 0 {
			return e
		}
		ws := (*[4]uint16)(ptr(arg))
		ws[0], ws[1], ws[2], ws[3] = uint16(h), uint16(w), 0, 0
		return 0
	}
	return syscall.EINVAL
}

func ptr(a uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&a)) }

//go:uintptrescapes
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return Syscall(trap, a1, a2, a3)
}

//go:uintptrescapes
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return Syscall(trap, a1, a2, a3)
}

//go:uintptrescapes
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if trap == syscall.SYS_IOCTL {
		return 0, 0, ioctl(a1, a2, a3)
	}
	simrt.HarnessError("system call %d is not simulated", trap)
	return
}

func std(fd int) *simrt.File { return &simrt.File{Std: fd + 1} }

func Read(fd int, b []byte) (int, error) {
	n, err := std(fd).Read(b)
	if err != nil && n == 0 && err.Error() == "EOF" {
		return 0, nil
	}
	return n, err
}
func Write(fd int, b []byte) (int, error) { return std(fd).Write(b) }
func Getpid() int                         { return 1000 + simrt.CurProc().ID }
func Getppid() int                        { return 500 }

func Kill(pid int, sig syscall.Signal) error {
	s := simrt.Enter()
	s.SyncPoint("kill")
	p := simrt.CurProc()
	if pid == 0 || pid == 1000+p.ID {
		p.Signal(s, os.Signal(sig))
	}
	return nil
}
