package simrt

import (
	"io"
	"os"
	"syscall"
	"time"
)

// NewProc makes a process with its own terminal; file system and network are
// shared with whoever else was given them.
func (s *Sim) NewProc(name string, tty *TTY, fs *FS, n *Net) *Proc {
	p := &Proc{ID: len(s.Procs) + 1, Name: name, TTY: tty, FS: fs, Net: n, ResumeIn: 3 * time.Second}
	s.Procs = append(s.Procs, p)
	return p
}

// CurProc is the process of the running task.
func CurProc() *Proc {
	s := enter()
	if s == nil {
		return nil
	}
	if s.cur.Proc == nil {
		HarnessError("operating system call outside a simulated process by task %s", s.cur.Name)
	}
	return s.cur.Proc
}

func (p *Proc) stdRead(fd int, b []byte) (int, error) {
	if fd != 0 || p.TTY == nil {
		return 0, io.EOF
	}
	return p.TTY.Read(b)
}

func (p *Proc) stdWrite(fd int, b []byte) (int, error) {
	if p.TTY == nil || fd < 3 && p.TTY.File[fd] {
		return len(b), nil
	}
	return p.TTY.Write(b)
}

type sigReg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
	all  bool
}

// Notify registers a channel for signals.
func (p *Proc) Notify(ch chan<- os.Signal, sigs ...os.Signal) {
	p.sigs = append(p.sigs, sigReg{ch, sigs, len(sigs) == 0})
}

// StopNotify removes a channel.
func (p *Proc) StopNotify(ch chan<- os.Signal) {
	for i := 0; i < len(p.sigs); {
		if p.sigs[i].ch == ch {
			p.sigs = append(p.sigs[:i], p.sigs[i+1:]...)
			continue
		}
		i++
	}
}

// Signal delivers sig to the process. It reports whether a handler took it.
func (p *Proc) Signal(s *Sim, sig os.Signal) bool {
	s.Note("signal %v", sig)
	got := false
	for _, r := range p.sigs {
		m := r.all
		for _, x := range r.sigs {
			if x == sig {
				m = true
			}
		}
		if m {
			got = true
			if !TrySendNB(s, r.ch, sig) {
				s.Probe("signal-dropped")
			}
		}
	}
	if !got && sig == syscall.SIGTSTP {
		if p.NoStop {
			// no job control: the default action is to ignore it
			s.Probe("stop-ignored")
			return false
		}
		if n := s.Choose("stop-late", 60, s.FaultP["stop-late"]); n > 0 {
			// other threads go on for a moment
			s.Fired["stop-late"]++
			s.GoIn(nil, "kernel-stop", func() {
				s.WaitSteps(int64(n))
				p.suspend(s)
			})
			return true
		}
		p.suspend(s)
		return true
	}
	return got
}

// suspend stops the whole process until it is resumed: nothing in it runs, its
// clock keeps going.
func (p *Proc) suspend(s *Sim) {
	p.Suspended++
	s.Note("process suspended")
	if p.OnSuspend != nil {
		p.OnSuspend()
	}
	d := p.ResumeIn
	// Every task of the process is frozen: only this one knows the code that
	// stopped it, so advancing the clock here and re-queueing all timers that
	// fell due models SIGSTOP/SIGCONT exactly.
	s.Now += d
	p.StopTime += d
	s.Note("process resumed after %v", d)
	p.Signal(s, syscall.SIGCONT)
}
