package simrt

import (
	"io"
	"os"
	"path"
	"sort"
	"syscall"
	"time"
)

// FS is the simulated file system. Completed writes survive the death of the
// process (they are in the kernel); a crash can tear the write in progress.
type FS struct {
	S     *Sim
	Nodes map[string]*Inode
	Ops   int64
	// CrashAt>0 kills the process at the CrashAt-th mutating operation:
	// before it, in the middle of it, or right after it.
	CrashAt   int64
	CrashMode int // 0 before, 1 torn, 2 after
	CrashFrac int
	OnCrash   func(op string)
	Crashed   bool
	Limit     int    // bytes the disk holds; 0 = unlimited
	Deny      string // this file cannot be opened
	mutOps    int64
	Log       []string
	ino       uint64
}

// Inode is a file.
type Inode struct {
	Data  []byte
	Dir   bool
	Mode  os.FileMode
	Ino   uint64
	Mtime time.Duration
}

// NewFS makes an empty file system with /, /tmp and /home.
func NewFS(s *Sim) *FS {
	f := &FS{S: s, Nodes: map[string]*Inode{}}
	for _, d := range []string{"/", "/tmp", "/home"} {
		f.ino++
		f.Nodes[d] = &Inode{Dir: true, Mode: 0755 | os.ModeDir, Ino: f.ino}
	}
	return f
}

// Bytes returns the content of a file (nil, false if absent).
func (f *FS) Bytes(p string) ([]byte, bool) {
	n := f.Nodes[f.clean(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return append([]byte{}, n.Data...), true
}

// Put stores a file directly (initial state).
func (f *FS) Put(p string, b []byte) {
	f.ino++
	f.Nodes[f.clean(p)] = &Inode{Data: append([]byte{}, b...), Mode: 0644, Ino: f.ino}
}

// Append adds to a file as another program does.
func (f *FS) Append(p string, b []byte) {
	if n := f.Nodes[f.clean(p)]; n != nil {
		n.Data = append(n.Data, b...)
		return
	}
	f.Put(p, b)
}

// List names every file.
func (f *FS) List() []string {
	var out []string
	for k, n := range f.Nodes {
		if !n.Dir {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (f *FS) clean(p string) string {
	if len(p) == 0 || p[0] != '/' {
		p = "/home/" + p
	}
	return path.Clean(p)
}

func (f *FS) used() int {
	n := 0
	for _, i := range f.Nodes {
		n += len(i.Data)
	}
	return n
}

// mut announces a mutating operation and applies the crash plan; it returns
// how much of an n-byte write must be applied before dying (-1: no crash).
func (f *FS) mut(op string, n int) (torn int, dieAfter bool) {
	f.mutOps++
	f.Log = append(f.Log, op)
	f.S.Note("fs %s", op)
	if f.CrashAt > 0 && f.mutOps == f.CrashAt && !f.Crashed {
		f.Crashed = true
		f.S.Fired["crash"]++
		switch f.CrashMode {
		case 0:
			f.die(op + " (before)")
		case 1:
			if n > 1 {
				return 1 + f.CrashFrac%(n-1), true
			}
			f.die(op + " (before)")
		case 2:
			return n, true
		}
	}
	return -1, false
}

// MutOps is the number of mutating operations so far.
func (f *FS) MutOps() int64 { return f.mutOps }

func (f *FS) die(op string) {
	f.S.Note("crash at %s", op)
	if f.OnCrash != nil {
		f.OnCrash(op)
	}
	f.S.KillProc(f.S.cur.Proc)
}

func perr(op, p string, e syscall.Errno) error { return &os.PathError{Op: op, Path: p, Err: e} }

// File is an open file, or one of the three standard streams.
type File struct {
	fs     *FS
	proc   *Proc
	path   string
	node   *Inode
	off    int
	flags  int
	closed bool
	Std    int // 1+fd for standard streams
	fd     uintptr
}

// IsClosed reports whether Close was called.
func (f *File) IsClosed() bool { return f.closed }

// Path is the name the file was opened with.
func (f *File) Path() string { return f.path }

// OpenFile opens a file of the running process.
func (f *FS) OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	s := f.S
	s.SyncPoint("open")
	f.Ops++
	p := f.clean(name)
	if s.Fault("open-err") || p == f.Deny && p != "" {
		return nil, perr("open", name, []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EIO}[s.Choose("errno", 3, 0.6)])
	}
	n := f.Nodes[p]
	dir := f.Nodes[path.Dir(p)]
	if dir == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !dir.Dir {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		_, after := f.mut("create "+p, 0)
		f.ino++
		n = &Inode{Mode: perm, Ino: f.ino}
		f.Nodes[p] = n
		if after {
			f.die("create " + p + " (after)")
		}
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && acc != os.O_RDONLY {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && acc != os.O_RDONLY && len(n.Data) > 0 {
			_, after := f.mut("truncate "+p, 0)
			n.Data = nil
			if after {
				f.die("truncate " + p + " (after)")
			}
		}
	}
	s.fdn++
	fl := &File{fs: f, proc: s.cur.Proc, path: p, node: n, flags: flag, fd: uintptr(2 + s.fdn)}
	if s.cur.Proc != nil {
		s.cur.Proc.Files = append(s.cur.Proc.Files, fl)
	}
	return fl, nil
}

// Read reads from the current offset.
func (f *File) Read(p []byte) (int, error) {
	s := enter()
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.Std > 0 {
		return s.cur.Proc.stdRead(f.Std-1, p)
	}
	s.SyncPoint("fread")
	if f.closed {
		return 0, &os.PathError{Op: "read", Path: f.path, Err: os.ErrClosed}
	}
	f.fs.Ops++
	if f.flags&(os.O_WRONLY|os.O_RDWR) == os.O_WRONLY {
		return 0, perr("read", f.path, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.Fault("fread-err") {
		return 0, perr("read", f.path, syscall.EIO)
	}
	if f.off >= len(f.node.Data) {
		return 0, io.EOF
	}
	n := len(f.node.Data) - f.off
	if n > len(p) {
		n = len(p)
	}
	if n > 1 {
		s.Offered["fread-short"]++
		if k := s.Choose("fread-short", n, s.FaultP["fread-short"]); k > 0 {
			s.Fired["fread-short"]++
			n = k
		}
	}
	copy(p, f.node.Data[f.off:f.off+n])
	f.off += n
	return n, nil
}

// Write appends or writes at the current offset, as os.File.Write does: an
// error is returned whenever fewer bytes than asked were written.
func (f *File) Write(b []byte) (int, error) {
	s := enter()
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.Std > 0 {
		return s.cur.Proc.stdWrite(f.Std-1, b)
	}
	s.SyncPoint("fwrite")
	if f.closed {
		return 0, &os.PathError{Op: "write", Path: f.path, Err: os.ErrClosed}
	}
	f.fs.Ops++
	if f.flags&(os.O_WRONLY|os.O_RDWR) == os.O_RDONLY {
		return 0, perr("write", f.path, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	var err error
	if s.Fault("fwrite-eio") {
		return 0, perr("write", f.path, syscall.EIO)
	}
	if s.Fault("fwrite-enospc") {
		// the disk fills up in the middle of this write
		n = s.Choose("enospc-len", len(b), 0.7)
		err = perr("write", f.path, syscall.ENOSPC)
		if n == 0 {
			return 0, err
		}
	}
	torn, after := f.fs.mut("write "+f.path, n)
	if torn >= 0 {
		n = torn
	}
	off := f.off
	if f.flags&os.O_APPEND != 0 {
		off = len(f.node.Data)
	}
	if need := off + n; need > len(f.node.Data) {
		f.node.Data = append(f.node.Data, make([]byte, need-len(f.node.Data))...)
	}
	copy(f.node.Data[off:], b[:n])
	f.off = off + n
	f.node.Mtime = s.Now
	if after {
		f.fs.die("write " + f.path + " (torn/after)")
	}
	return n, err
}

// WriteString writes a string.
func (f *File) WriteString(b string) (int, error) { return f.Write([]byte(b)) }

// ReadAt reads at an offset.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	s := enter()
	s.SyncPoint("fread")
	if f.closed {
		return 0, &os.PathError{Op: "read", Path: f.path, Err: os.ErrClosed}
	}
	if int(off) >= len(f.node.Data) {
		return 0, io.EOF
	}
	n := copy(p, f.node.Data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	s := enter()
	s.SyncPoint("fwrite")
	if f.closed {
		return 0, &os.PathError{Op: "write", Path: f.path, Err: os.ErrClosed}
	}
	torn, after := f.fs.mut("write "+f.path, len(b))
	n := len(b)
	if torn >= 0 {
		n = torn
	}
	if need := int(off) + n; need > len(f.node.Data) {
		f.node.Data = append(f.node.Data, make([]byte, need-len(f.node.Data))...)
	}
	copy(f.node.Data[off:], b[:n])
	if after {
		f.fs.die("write " + f.path)
	}
	return n, nil
}

// Seek moves the offset.
func (f *File) Seek(offset int64, whence int) (int64, error) {
	s := enter()
	if f == nil {
		return 0, os.ErrInvalid
	}
	s.SyncPoint("fseek")
	if f.closed {
		return 0, &os.PathError{Op: "seek", Path: f.path, Err: os.ErrClosed}
	}
	switch whence {
	case io.SeekStart:
		f.off = int(offset)
	case io.SeekCurrent:
		f.off += int(offset)
	case io.SeekEnd:
		f.off = len(f.node.Data) + int(offset)
	}
	return int64(f.off), nil
}

// Truncate cuts the file.
func (f *File) Truncate(size int64) error {
	s := enter()
	s.SyncPoint("ftruncate")
	if f.closed {
		return &os.PathError{Op: "truncate", Path: f.path, Err: os.ErrClosed}
	}
	if s.Fault("fwrite-eio") {
		return perr("truncate", f.path, syscall.EIO)
	}
	_, after := f.fs.mut("truncate "+f.path, 0)
	f.node.truncate(int(size))
	if after {
		f.fs.die("truncate " + f.path)
	}
	return nil
}

func (n *Inode) truncate(size int) {
	if size <= len(n.Data) {
		n.Data = n.Data[:size:size]
	} else {
		n.Data = append(n.Data, make([]byte, size-len(n.Data))...)
	}
}

// Chmod does nothing.
func (f *File) Chmod(os.FileMode) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: "chmod", Path: f.path, Err: os.ErrClosed}
	}
	return nil
}

// SetDeadline is not supported.
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }

// SetReadDeadline is not supported.
func (f *File) SetReadDeadline(time.Time) error { return os.ErrNoDeadline }

// SetWriteDeadline is not supported.
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

// Sync flushes (a no-op here: completed writes survive a process crash).
func (f *File) Sync() error {
	s := enter()
	if f == nil {
		return os.ErrInvalid
	}
	s.SyncPoint("fsync")
	if f.closed {
		return &os.PathError{Op: "sync", Path: f.path, Err: os.ErrClosed}
	}
	if s.Fault("fsync-err") {
		return perr("sync", f.path, syscall.EIO)
	}
	return nil
}

// Close closes the file.
func (f *File) Close() error {
	s := enter()
	if f == nil {
		return os.ErrInvalid
	}
	if f.Std > 0 {
		return nil
	}
	s.SyncPoint("fclose")
	if f.closed {
		return &os.PathError{Op: "close", Path: f.path, Err: os.ErrClosed}
	}
	f.closed = true
	if s.Fault("fclose-err") {
		return perr("close", f.path, syscall.EIO)
	}
	return nil
}

// Fd is the descriptor number, ^0 when closed or nil.
func (f *File) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	if f.Std > 0 {
		return uintptr(f.Std - 1)
	}
	return f.fd
}

// Name is the file name.
func (f *File) Name() string { return f.path }

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) {
	enter()
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f.Std > 0 {
		return fileInfo{name: "std", n: &Inode{Mode: os.ModeCharDevice | os.ModeDevice}}, nil
	}
	if f.closed {
		return nil, &os.PathError{Op: "stat", Path: f.path, Err: os.ErrClosed}
	}
	return fileInfo{name: path.Base(f.path), n: f.node}, nil
}

type fileInfo struct {
	name string
	n    *Inode
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return int64(len(i.n.Data)) }
func (i fileInfo) Mode() os.FileMode  { return i.n.Mode }
func (i fileInfo) ModTime() time.Time { return time.Unix(1700000000, 0).Add(i.n.Mtime) }
func (i fileInfo) IsDir() bool        { return i.n.Dir }
func (i fileInfo) Sys() interface{}   { return i.n }

// Rename moves a file over another one atomically.
func (f *FS) Rename(a, b string) error {
	s := f.S
	s.SyncPoint("rename")
	f.Ops++
	ca, cb := f.clean(a), f.clean(b)
	if s.Fault("rename-err") {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EACCES}
	}
	n := f.Nodes[ca]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if t := f.Nodes[cb]; t != nil && t.Dir != n.Dir {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EISDIR}
	}
	_, after := f.mut("rename "+ca+" "+cb, 0)
	delete(f.Nodes, ca)
	f.Nodes[cb] = n
	if after {
		f.die("rename (after)")
	}
	return nil
}

// Remove deletes a file.
func (f *FS) Remove(a string) error {
	s := f.S
	s.SyncPoint("remove")
	ca := f.clean(a)
	if f.Nodes[ca] == nil {
		return perr("remove", a, syscall.ENOENT)
	}
	if s.Fault("remove-err") {
		return perr("remove", a, syscall.EACCES)
	}
	_, after := f.mut("remove "+ca, 0)
	delete(f.Nodes, ca)
	if after {
		f.die("remove (after)")
	}
	return nil
}

// Mkdir makes a directory.
func (f *FS) Mkdir(a string, perm os.FileMode) error {
	f.S.SyncPoint("mkdir")
	ca := f.clean(a)
	if f.Nodes[ca] != nil {
		return perr("mkdir", a, syscall.EEXIST)
	}
	f.ino++
	f.Nodes[ca] = &Inode{Dir: true, Mode: perm | os.ModeDir, Ino: f.ino}
	return nil
}

// Stat describes a path.
func (f *FS) Stat(a string) (os.FileInfo, error) {
	f.S.SyncPoint("stat")
	ca := f.clean(a)
	n := f.Nodes[ca]
	if n == nil {
		return nil, perr("stat", a, syscall.ENOENT)
	}
	return fileInfo{name: path.Base(ca), n: n}, nil
}

// Truncate cuts a path.
func (f *FS) Truncate(a string, size int64) error {
	f.S.SyncPoint("truncate")
	n := f.Nodes[f.clean(a)]
	if n == nil {
		return perr("truncate", a, syscall.ENOENT)
	}
	_, after := f.mut("truncate "+a, 0)
	n.truncate(int(size))
	if after {
		f.die("truncate")
	}
	return nil
}
