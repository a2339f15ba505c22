// Package xos replaces the parts of package os the library touches.
package xos

import (
	"io"
	"os"
	"syscall"

	"verifsim/simrt"
)

// File is a simulated file.
type File = simrt.File

// Standard streams, resolved per simulated process.
var (
	Stdin  = &simrt.File{Std: 1}
	Stdout = &simrt.File{Std: 2}
	Stderr = &simrt.File{Std: 3}
)

func fs() *simrt.FS { return simrt.CurProc().FS }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	return fs().OpenFile(name, flag, perm)
}
func Open(name string) (*File, error) { return fs().OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return fs().OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Rename(a, b string) error               { return fs().Rename(a, b) }
func Remove(a string) error                  { return fs().Remove(a) }
func Truncate(a string, n int64) error       { return fs().Truncate(a, n) }
func Mkdir(a string, p os.FileMode) error    { return fs().Mkdir(a, p) }
func MkdirAll(a string, p os.FileMode) error { fs().Mkdir(a, p); return nil }
func Stat(a string) (os.FileInfo, error)     { return fs().Stat(a) }
func Lstat(a string) (os.FileInfo, error)    { return fs().Stat(a) }
func Chmod(a string, m os.FileMode) error    { _, err := fs().Stat(a); return err }
func ReadFile(a string) ([]byte, error) {
	f, err := Open(a)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(a string, b []byte, p os.FileMode) error {
	f, err := OpenFile(a, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, p)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for i := 0; ; i++ {
		name := dir + "/" + replaceStar(pattern, i)
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func replaceStar(p string, n int) string {
	d := ""
	for {
		d = string(rune('0'+n%10)) + d
		n /= 10
		if n == 0 {
			break
		}
	}
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '*' {
			return p[:i] + d + p[i+1:]
		}
	}
	return p + d
}

func Getpid() int                     { return 1000 + simrt.CurProc().ID }
func Getppid() int                    { return 500 }
func TempDir() string                 { return "/tmp" }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func UserHomeDir() (string, error)    { return "/home", nil }

// Process is a handle.
type Process struct {
	Pid int
	p   *simrt.Proc
}

// FindProcess never fails, as on Unix.
func FindProcess(pid int) (*Process, error) {
	p := simrt.CurProc()
	if pid == 1000+p.ID {
		return &Process{pid, p}, nil
	}
	return &Process{pid, nil}, nil
}

// Signal sends a signal; the parent process (a shell) ignores it.
func (p *Process) Signal(sig os.Signal) error {
	s := simrt.Enter()
	s.SyncPoint("kill")
	if p.p == nil {
		s.Note("signal %v to parent", sig)
		return nil
	}
	p.p.Signal(s, sig)
	return nil
}

// Kill kills.
func (p *Process) Kill() error { return p.Signal(syscall.SIGKILL) }

// Release does nothing.
func (p *Process) Release() error { return nil }

// Exit ends the process.
func Exit(code int) {
	s := simrt.Enter()
	s.Note("exit %d", code)
	s.KillProc(simrt.CurProc())
}
