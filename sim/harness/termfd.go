package main

import (
	"fmt"
	"io"
	"math/rand"
	"strings"
	"syscall"

	"verifsim/readline"
)

func init() {
	register(&Property{
		ID:   "C27",
		Rule: "The functions that work on a terminal's file descriptor (IsTerminal, GetState, MakeRaw, Restore, GetSize, ReadPassword) are called in any order on terminals of any initial mode while a user types lines, erases, ends the input or the line fails, and mode changes fail; modes, results and what the terminal echoes are compared with a reference.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C27")
			if chance(r, 0.1) {
				sc.P["notty"] = 1
			}
			if chance(r, 0.3) {
				sc.P["files"] = r.Intn(4) // the output or the error output is a file
			}
			sc.P["modes"] = 0
			if chance(r, 0.6) {
				sc.P["modes"] = r.Intn(1 << 16)
			}
			if chance(r, 0.2) {
				sc.Faults["ioctl-err"] = 0.1
			}
			if chance(r, 0.2) {
				sc.Faults["ioctl-set-err"] = 0.1
			}
			for n := 1 + r.Intn(8); n > 0; n-- {
				sc.add("app", Op{K: pick(r, "pw", "pw", "pw", "raw", "state", "restore", "restore", "isterm", "size", "default"), N: r.Intn(3)})
			}
			for n := r.Intn(8); n > 0; n-- {
				s := randText(r, []int{3, 15, 16, 17, 31, 32, 33, 48, 64, 100, 200, 300}[r.Intn(12)])
				s = strings.Map(func(c rune) rune {
					if c < 32 || c == 127 {
						return 'x'
					}
					return c
				}, s)
				if chance(r, 0.5) { // exact lengths in bytes
					s = strings.Repeat("p", []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48}[r.Intn(10)])
				}
				switch r.Intn(8) {
				case 0:
					s += "\x04"
					if chance(r, 0.5) {
						s = "\x04"
					}
				case 1:
					s += "\x7f\x7f" + "y\r"
				case 2:
					s += "\x15z\n"
				case 3: // unfinished
				default:
					s += pick(r, "\r", "\n")
				}
				switch r.Intn(3) {
				case 0:
					sc.add("user", Op{K: "idle"})
				case 1:
					sc.add("user", Op{K: "steps", N: 1 + r.Intn(100)})
				}
				sc.add("user", Op{K: "t", S: s})
			}
			if chance(r, 0.2) {
				sc.P["eoferr"] = 1
			}
			return sc
		},
		Run: runTermFd,
	})
}

func runTermFd(e *Env) {
	e.world1()
	t := e.tty
	t.Canon = true
	t.File[1], t.File[2] = e.p("files")&1 != 0, e.p("files")&2 != 0
	if m := uint32(e.p("modes")); m != 0 {
		// any terminal, but one on which lines can be typed
		t.T.Iflag = m & (syscall.IGNBRK | syscall.BRKINT | syscall.PARMRK | syscall.ISTRIP | syscall.INLCR | syscall.IGNCR | syscall.ICRNL | syscall.IXON)
		// the bits the terminal acts on follow m, the others are anything
		x := rand.New(rand.NewSource(int64(m)))
		t.T.Iflag |= x.Uint32() & (syscall.IGNPAR | syscall.INPCK | syscall.IXOFF | syscall.IXANY | syscall.IMAXBEL | syscall.IUTF8)
		t.T.Oflag = m>>3&(syscall.OPOST|syscall.ONLCR) | x.Uint32()&(syscall.OFILL|syscall.OFDEL|0x3d00)
		t.T.Cflag = syscall.CREAD | m>>1&(syscall.CSIZE|syscall.PARENB) | x.Uint32()&(syscall.CSTOPB|syscall.PARODD|syscall.HUPCL|syscall.CLOCAL|syscall.B38400)
		t.T.Lflag = m>>2&(syscall.ECHO|syscall.ECHONL|syscall.IEXTEN|syscall.ISIG) | syscall.ICANON |
			x.Uint32()&(syscall.ECHOE|syscall.ECHOK|syscall.NOFLSH|syscall.TOSTOP|syscall.ECHOCTL|syscall.ECHOPRT|syscall.ECHOKE)
		for i := range t.T.Cc {
			t.T.Cc[i] = uint8(x.Uint32())
		}
		t.T.Cc[syscall.VMIN] = uint8(m >> 8)
		t.T.Cc[syscall.VTIME] = uint8(m >> 4)
		t.T0 = t.T
	}
	inCall := false
	type saved struct {
		st *readline.State
		t  syscall.Termios
	}
	var stack []saved
	app := e.s.GoIn(e.proc, "app", func() {
		for i, o := range e.sc.A["app"] {
			before := t.T
			sets, gets := e.s.Fired["ioctl-set-err"], e.s.Fired["ioctl-err"]
			failed := func() bool { return e.s.Fired["ioctl-set-err"] > sets || e.s.Fired["ioctl-err"] > gets }
			wantErr := func(err error) bool {
				// nothing but a fault or a missing terminal may fail
				if err != nil && !failed() && t.IsTTY {
					e.Violate("fd-error", "call %d (%s) failed with %v", i, o.K, err)
				}
				if err == nil && (failed() || !t.IsTTY) {
					e.Violate("fd-no-error", "call %d (%s) reports no error", i, o.K)
				}
				return err != nil
			}
			same := func(want syscall.Termios) {
				e.cases++
				if t.T != want {
					e.Violate("fd-mode", "after call %d (%s) the modes of the terminal are %v, expected %v", i, o.K, modes(t.T), modes(want))
				}
			}
			switch o.K {
			case "isterm":
				if got := readline.IsTerminal(o.N); got != (t.IsTTY && !t.File[o.N] && !failed()) {
					e.Violate("fd-isterm", "IsTerminal(%d) returned %v", o.N, got)
				}
				same(before)
			case "size":
				w, h, err := readline.GetSize(o.N)
				if t.File[o.N] {
					if err == nil {
						e.Violate("fd-no-error", "call %d (GetSize of a file) reports no error", i)
					}
				} else if !wantErr(err) && (w != t.W || h != t.H) {
					e.Violate("fd-size", "GetSize returned %d, %d", w, h)
				}
				same(before)
			case "default":
				is, w := readline.DefaultIsTerminal(), readline.GetScreenWidth()
				if failed() {
					break
				}
				if some := t.IsTTY && !(t.File[1] && t.File[2]); is != some {
					e.Violate("fd-isterm", "DefaultIsTerminal returned %v; files: %v", is, t.File)
				} else if some && w != t.W || !some && w >= 0 {
					e.Violate("fd-size", "GetScreenWidth returned %d; files: %v", w, t.File)
				}
				same(before)
			case "state":
				st, err := readline.GetState(0)
				if !wantErr(err) {
					stack = append(stack, saved{st, before})
				}
				same(before)
			case "raw":
				st, err := readline.MakeRaw(0)
				if wantErr(err) {
					same(before)
					break
				}
				stack = append(stack, saved{st, before})
				same(rawOf(before))
			case "restore":
				if len(stack) == 0 {
					break
				}
				s := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				err := readline.Restore(0, s.st)
				if wantErr(err) {
					same(before)
					break
				}
				same(s.t)
			case "pw":
				inCall = true
				n := len(t.Taken)
				b, err := readline.ReadPassword(0)
				inCall = false
				line := string(t.Taken[n:])
				e.s.Note("ReadPassword %q %v", b, err)
				if !failed() || t.T == before {
					same(before)
				}
				if !t.IsTTY {
					wantErr(err)
					break
				}
				if failed() {
					break
				}
				e.cases++
				switch {
				case line == "" && t.Err == nil:
					if err != io.EOF || len(b) > 0 {
						e.Violate("fd-password", "ReadPassword returned %q, %v, the input ended", b, err)
					}
				case t.Err != nil && (err != nil || t.Eof && !strings.HasSuffix(line, "\n")):
					// the line failed; what had been typed may be lost
					if err != nil && len(b) > 0 {
						e.Violate("fd-password", "ReadPassword returned %q together with %v", b, err)
					}
				default:
					if want := strings.TrimSuffix(line, "\n"); err != nil || string(b) != want {
						e.Violate("fd-password", "ReadPassword returned %q, %v, expected %q", b, err, want)
					}
					if strings.Contains(strings.TrimSuffix(line, "\n"), "\n") {
						e.Violate("fd-password", "ReadPassword took more than a line: %q", line)
					}
					if t.Mid {
						e.Violate("fd-password", "ReadPassword returned %q and left the rest of the line unread", b)
					}
					for _, c := range t.Cuts {
						if c > n && c < n+len(line) {
							e.Violate("fd-password", "ReadPassword took %q, the input was ended after %q", line, line[:c-n])
						}
					}
				}
			}
			if len(e.viols) > 0 {
				return
			}
		}
	})
	e.user(e.sc.A["user"], func(o Op) bool {
		if o.K != "t" {
			return false
		}
		waits := inCall && t.Reading()
		if t.T.Lflag&syscall.ICANON == 0 {
			if waits {
				e.Violate("fd-enter", "the terminal does not pass on whole lines while ReadPassword waits for one")
			}
			return true // nobody types lines now
		}
		if waits && t.T.Iflag&(syscall.ICRNL|syscall.IGNCR) == 0 {
			e.Violate("fd-enter", "the Enter key does not end a line while ReadPassword waits for one")
		}
		if waits && t.T.Lflag&syscall.ISIG == 0 {
			e.Violate("fd-signal", "Ctrl-C does nothing while ReadPassword waits")
		}
		if inCall && t.Reading() && t.T.Lflag&syscall.ECHO != 0 {
			e.Violate("fd-echo", "the terminal echoes what is typed while ReadPassword waits for a password")
		}
		t.Type([]byte(o.S))
		return true
	})
	e.s.WaitIdle()
	if e.p("eoferr") == 1 {
		t.EOF(syscall.EIO)
	} else {
		t.EOF(nil)
	}
	if !e.await(5e9, app) {
		e.Violate("hang", "the application did not finish; tasks: %s", e.stuck())
	}
}

// rawOf is what raw mode makes of the modes of a terminal.
func rawOf(t syscall.Termios) syscall.Termios {
	t.Iflag &^= syscall.IGNBRK | syscall.BRKINT | syscall.PARMRK | syscall.ISTRIP | syscall.INLCR | syscall.IGNCR | syscall.ICRNL | syscall.IXON
	t.Lflag &^= syscall.ECHO | syscall.ECHONL | syscall.ICANON | syscall.ISIG | syscall.IEXTEN
	t.Cflag = t.Cflag&^(syscall.CSIZE|syscall.PARENB) | syscall.CS8
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
	return t
}

func modes(t syscall.Termios) string {
	return fmt.Sprintf("i=%#x o=%#x c=%#x l=%#x min=%d time=%d", t.Iflag, t.Oflag, t.Cflag, t.Lflag, t.Cc[syscall.VMIN], t.Cc[syscall.VTIME])
}
