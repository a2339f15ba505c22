// Package xio replaces io.Pipe.
package xio

import (
	"io"

	"verifsim/simrt"
	"verifsim/xsync"
)

type pipe struct {
	wrMu xsync.Mutex
	s    *simrt.Sim
	buf  []byte
	has  bool
	rd   []*simrt.G
	wr   []*simrt.G
	done bool
	rerr error
	werr error
}

func (p *pipe) wake(q *[]*simrt.G) {
	for _, g := range *q {
		p.s.Ready(g)
	}
	*q = nil
}

// PipeReader is io.PipeReader.
type PipeReader struct{ p *pipe }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe: synchronous, a Write returns once its bytes were read.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{s: simrt.Enter()}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	s := simrt.Enter()
	s.SyncPoint("pipe-read")
	for {
		if p.done {
			if p.rerr != nil {
				return 0, io.ErrClosedPipe
			}
			return 0, p.werr
		}
		if p.has {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.has = false
				p.wake(&p.wr)
			}
			s.SyncPoint("pipe-read-done")
			return n, nil
		}
		p.rd = append(p.rd, s.Cur())
		s.Block("pipe read")
	}
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	s := simrt.Enter()
	s.SyncPoint("pipe-write")
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	if p.done {
		return 0, p.wrErr()
	}
	p.buf = b
	p.has = true
	p.wake(&p.rd)
	for p.has {
		if p.done {
			n := len(b) - len(p.buf)
			p.has = false
			return n, p.wrErr()
		}
		p.wr = append(p.wr, s.Cur())
		s.Block("pipe write")
	}
	return len(b), nil
}

func (p *pipe) wrErr() error {
	if p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (p *pipe) finish() {
	p.done = true
	p.wake(&p.rd)
	p.wake(&p.wr)
	p.s.SyncPoint("pipe-close")
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	simrt.Enter()
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.finish()
	return nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	simrt.Enter()
	if err == nil {
		err = io.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.finish()
	return nil
}
