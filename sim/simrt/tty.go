package simrt

import (
	"io"
	"os"
	"syscall"
)

// OutRec is one write the program made to its terminal.
type OutRec struct {
	Step int64
	G    int
	B    []byte
}

// TTY is the simulated terminal of a process: keyboard, screen, modes, size.
type TTY struct {
	S       *Sim
	In      []byte
	pos     int64 // bytes handed out so far
	bound   []bool
	Eof     bool
	Err     error
	readers []*G
	T       syscall.Termios
	T0      syscall.Termios
	W, H    int
	VT      *VT
	Log     []OutRec
	IsTTY   bool
	Reads   int64
	Sets    int64
	SetLog  []bool // raw after each successful mode change
	ReadRaw []bool
	// Echoed collects what the terminal itself echoed (typed while in cooked mode).
	Echoed []byte
	OnMode func(raw bool)
	ZeroW  bool // the size is reported as 0 columns, as serial lines do
	// Canon makes the line discipline of canonical mode work: a read returns
	// (part of) a finished line, erase and kill act before.
	Canon bool
	line  []byte
	lines [][]byte
	Taken []byte // what was read of them
	Mid   bool   // the rest of a line was not read
	// EintrN has reads fail with EINTR after they took some bytes
	EintrN bool
	// File tells which of the standard descriptors are not this terminal
	File [3]bool
	Cuts []int // where in Taken an end of input, typed after text, showed
}

// NewTTY makes a terminal in cooked mode.
func NewTTY(s *Sim, w, h int) *TTY {
	t := &TTY{S: s, W: w, H: h, IsTTY: true, VT: NewVT(w, h)}
	t.T.Iflag = syscall.ICRNL | syscall.IXON | syscall.BRKINT
	t.T.Oflag = syscall.OPOST | syscall.ONLCR
	t.T.Cflag = syscall.CS8 | syscall.CREAD | syscall.PARENB
	t.T.Lflag = syscall.ECHO | syscall.ICANON | syscall.ISIG | syscall.IEXTEN | syscall.ECHOE | syscall.ECHOK
	t.T.Cc[syscall.VMIN] = 7
	t.T.Cc[syscall.VTIME] = 3
	t.T0 = t.T
	return t
}

// Raw tells whether the terminal passes keys through unprocessed and silent.
func (t *TTY) Raw() bool {
	return t.T.Lflag&(syscall.ECHO|syscall.ICANON|syscall.ISIG) == 0
}

// Restored tells whether every mode bit is what it was at the start.
func (t *TTY) Restored() bool { return t.T == t.T0 }

// Type puts bytes on the keyboard.
func (t *TTY) Type(b []byte) {
	if t.Canon && t.T.Lflag&syscall.ICANON != 0 {
		t.typeCanon(b)
		return
	}
	t.In = append(t.In, b...)
	if t.T.Lflag&syscall.ECHO != 0 {
		t.Echoed = append(t.Echoed, b...)
	}
	t.wakeReaders()
}

func (t *TTY) typeCanon(b []byte) {
	for _, c := range b {
		if c == '\r' && t.T.Iflag&syscall.ICRNL != 0 {
			c = '\n'
		}
		if t.T.Lflag&syscall.ECHO != 0 {
			t.Echoed = append(t.Echoed, c)
		}
		switch c {
		case 0x7f:
			if n := len(t.line); n > 0 {
				t.line = t.line[:n-1]
			}
		case 0x15:
			t.line = nil
		case 4:
			t.lines = append(t.lines, t.line)
			t.line = nil
		case '\n':
			t.lines = append(t.lines, append(t.line, c))
			t.line = nil
		default:
			t.line = append(t.line, c)
		}
	}
	t.wakeReaders()
}

// readCanon takes from the finished lines.
func (t *TTY) readCanon(p []byte) (int, bool) {
	if len(t.lines) == 0 {
		return 0, false
	}
	n := copy(p, t.lines[0])
	t.Taken = append(t.Taken, p[:n]...)
	t.lines[0] = t.lines[0][n:]
	if t.Mid = len(t.lines[0]) > 0; !t.Mid {
		t.lines = t.lines[1:]
		if n > 0 && n < len(p) && p[n-1] != '\n' {
			t.Cuts = append(t.Cuts, len(t.Taken))
		}
	}
	t.S.Note("tty-read line %q", p[:n])
	return n, true
}

// EOF ends the keyboard stream (err nil) or breaks it.
func (t *TTY) EOF(err error) {
	t.Eof = true
	t.Err = err
	t.wakeReaders()
}

func (t *TTY) wakeReaders() {
	for _, g := range t.readers {
		t.S.Ready(g)
	}
	t.readers = nil
}

// Reading tells whether a read waits for keys.
func (t *TTY) Reading() bool { return len(t.readers) > 0 }

// Pending is the number of bytes typed but not read.
func (t *TTY) Pending() int { return len(t.In) }

// Read is the keyboard read system call.
func (t *TTY) Read(p []byte) (int, error) {
	s := enter()
	s.SyncPoint("tty-read")
	t.Reads++
	for {
		if len(p) == 0 {
			return 0, nil
		}
		if s.Fault("eintr") {
			n := 0
			if t.EintrN && !t.Canon && len(t.In) > 0 && s.Choose("eintr-bytes", 3, 0.5) > 0 {
				n = 1 + s.Choose("eintr-len", len(t.In), 0.3)
				if n > len(p) {
					n = len(p)
				}
				copy(p, t.In[:n])
				t.In = t.In[n:]
				t.pos += int64(n)
				s.Note("tty-read %q, EINTR", p[:n])
				s.Fired["eintr-bytes"]++
			}
			return n, &os.PathError{Op: "read", Path: "/dev/stdin", Err: syscall.EINTR}
		}
		if t.Canon && t.T.Lflag&syscall.ICANON != 0 {
			if n, ok := t.readCanon(p); ok {
				return n, nil
			}
		}
		if len(t.In) > 0 {
			n := len(t.In)
			if n > len(p) {
				n = len(p)
			}
			if n > 1 {
				s.Offered["short-read"]++
				if k := s.Choose("short-read", n, s.FaultP["short-read"]); k > 0 {
					s.Fired["short-read"]++
					n = k
				}
			}
			copy(p, t.In[:n])
			t.In = t.In[n:]
			t.pos += int64(n)
			s.Note("tty-read %q", p[:n])
			return n, nil
		}
		if t.Eof {
			if t.Err != nil {
				return 0, t.Err
			}
			return 0, io.EOF
		}
		t.readers = append(t.readers, s.Cur())
		s.Block("tty read")
	}
}

// Write is the terminal write system call.
func (t *TTY) Write(b []byte) (int, error) {
	s := enter()
	s.SyncPoint("tty-write")
	if s.Fault("out-err") {
		return 0, &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EIO}
	}
	n := len(b)
	var err error
	if n > 1 && s.Fault("out-short") {
		n = 1 + s.Choose("out-short-len", n-1, 1)
		err = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EAGAIN}
	}
	c := append([]byte{}, b[:n]...)
	t.Log = append(t.Log, OutRec{s.Steps, s.Cur().ID, c})
	s.Note("tty-write %q", c)
	if t.VT != nil {
		t.VT.Feed(c, t.T.Oflag&syscall.OPOST != 0 && t.T.Oflag&syscall.ONLCR != 0)
	}
	return n, err
}

// Output is everything written so far.
func (t *TTY) Output() []byte {
	var b []byte
	for _, r := range t.Log {
		b = append(b, r.B...)
	}
	return b
}

// Ioctl implements the terminal ioctls.
func (t *TTY) GetTermios() (syscall.Termios, syscall.Errno) {
	s := enter()
	s.SyncPoint("tcgets")
	if !t.IsTTY {
		return syscall.Termios{}, syscall.ENOTTY
	}
	if s.Fault("ioctl-err") {
		return syscall.Termios{}, syscall.EIO
	}
	return t.T, 0
}

// SetTermios changes the modes.
func (t *TTY) SetTermios(n syscall.Termios) syscall.Errno {
	s := enter()
	s.SyncPoint("tcsets")
	if !t.IsTTY {
		return syscall.ENOTTY
	}
	if s.Fault("ioctl-set-err") {
		return syscall.EIO
	}
	t.T = n
	t.Sets++
	t.SetLog = append(t.SetLog, t.Raw())
	s.Note("tcsets raw=%v restored=%v", t.Raw(), t.Restored())
	if t.OnMode != nil {
		t.OnMode(t.Raw())
	}
	return 0
}

// Size returns rows, columns.
func (t *TTY) Size() (int, int, syscall.Errno) {
	s := enter()
	s.SyncPoint("winsz")
	if !t.IsTTY {
		return 0, 0, syscall.ENOTTY
	}
	if t.ZeroW {
		return 0, 0, 0
	}
	return t.H, t.W, 0
}

// Resize changes the window and notifies the process.
func (t *TTY) Resize(w int) {
	t.W = w
	if t.VT != nil && w > 0 {
		t.VT.Resize(w)
	}
	t.S.Note("resize %d", w)
}
