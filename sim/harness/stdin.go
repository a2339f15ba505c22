package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// source is the reader below the readers under test: a blocking stream of
// chunks and errors.
type source struct {
	e      *Env
	ch     chan srcItem
	rest   []byte
	eof    bool
	closed bool
	inside int
	log    []srcRead
}

type srcItem struct {
	b   []byte
	err error // returned together with the last byte, or alone
	eof bool
}

type srcRead struct {
	b   []byte
	err error
	hit bool // a caller was given it
}

func newSource(e *Env) *source { return &source{e: e, ch: make(chan srcItem, 1000)} }

func (s *source) feed(it srcItem) { simrt.SendTo(s.ch)(it) }

func (s *source) Read(p []byte) (int, error) {
	s.inside++
	if s.inside > 1 {
		s.e.Violate("source-concurrent", "the source was read by %d tasks at once", s.inside)
	}
	defer func() { s.inside-- }()
	var err error
	if len(s.rest) == 0 {
		if s.eof {
			return 0, io.EOF
		}
		it := simrt.Recv(s.ch)
		s.rest, err = it.b, it.err
		if it.eof {
			s.eof = true
			s.log = append(s.log, srcRead{nil, io.EOF, true})
			return 0, io.EOF
		}
	}
	n := len(p)
	if n > len(s.rest) {
		n = len(s.rest)
	}
	if n > 1 && s.e.s.Fault("short-read") {
		n = 1 + s.e.s.Choose("short-n", n-1, 1)
	}
	copy(p, s.rest[:n])
	s.log = append(s.log, srcRead{append([]byte(nil), s.rest[:n]...), err, false})
	s.rest = s.rest[n:]
	return n, err
}

// srcClose is a source that can be closed.
type srcClose struct{ *source }

func (s srcClose) Close() error {
	s.closed = true
	return nil
}

func genStdin(r *rand.Rand) *Scn {
	sc := newScn("C21")
	sc.P["kind"] = r.Intn(3)
	sc.P["noclose"] = r.Intn(2)
	if chance(r, 0.4) {
		sc.Faults["short-read"] = []float64{0.2, 0.8}[r.Intn(2)]
	}
	style := 1 + r.Intn(3)
	n := 0
	for k := r.Intn(8); k > 0; k-- {
		sc.add("src", pace(r, style)...)
		if chance(r, 0.2) {
			sc.add("src", Op{K: "err"})
			continue
		}
		l := 1 + r.Intn(9)
		if n+l > 70 {
			break
		}
		n += l
		sc.add("src", Op{K: "b", N: l, M: r.Intn(5)}) // M 0: with an error at its end
	}
	sc.add("src", pace(r, style)...)
	readers := 1
	if sc.P["kind"] == 0 {
		readers = 1 + r.Intn(3)
	}
	sc.P["readers"] = readers
	sc.P["buf"] = []int{0, 1, 2, 7, 99, 500}[r.Intn(6)]
	if sc.P["kind"] > 0 {
		for w := 0; w < 1+r.Intn(2); w++ {
			a := fmt.Sprintf("fill%d", w)
			for k, m := r.Intn(5), 0; k > 0; k-- {
				sc.add(a, pace(r, style)...)
				l := r.Intn(12)
				if chance(r, 0.1) {
					l = []int{40, 80, 255, 256, 300, 600}[r.Intn(6)]
				}
				if m += l; m > 1000 {
					break
				}
				sc.add(a, Op{K: "w", N: l})
			}
		}
	}
	if chance(r, 0.7) {
		for c := 1 + r.Intn(3); c > 0; c-- {
			a := fmt.Sprintf("close%d", c)
			sc.add(a, pace(r, 1+r.Intn(3))...)
			for k := 1 + r.Intn(2); k > 0; k-- {
				if chance(r, 0.5) {
					sc.add(a, Op{K: "ms", N: r.Intn(20)})
				}
				sc.add(a, Op{K: "close"})
			}
		}
		if sc.P["readers"] > 0 && chance(r, 0.5) {
			sc.P["blocked"] = 1 // the source never gives anything more
		}
	}
	return sc
}

type stdinWorld struct {
	e       *Env
	src     *source
	rd      io.ReadCloser
	fill    io.Writer
	closing bool // some Close began
	shut    bool // some Close returned
	// fillable
	put   [2]int // bytes offered by each fill writer
	done  [2]int // of which Write returned
	got   [2]int
	gotS  int
	total int
	bufs  []keptBuf
}

// keptBuf is a buffer given to a Read and what was in it when Read returned.
type keptBuf struct{ buf, was []byte }

func (w *stdinWorld) ops(ops []Op, f func(Op)) {
	e := w.e
	for _, o := range ops {
		switch o.K {
		case "idle":
			e.s.WaitIdle()
		case "ms":
			e.s.Sleep(time.Duration(o.N) * time.Millisecond)
		case "steps":
			e.s.WaitSteps(int64(o.N))
		default:
			f(o)
		}
	}
}

func runStdin(e *Env) {
	e.world(80, 24)
	kind := e.p("kind")
	w := &stdinWorld{e: e, src: newSource(e)}
	closers := 0
	for c := 1; c <= 3; c++ {
		if len(e.sc.A[fmt.Sprintf("close%d", c)]) > 0 {
			closers++
		}
	}
	var gs []*simrt.G
	mk := e.s.GoIn(e.proc, "make", func() {
		switch kind {
		case 0:
			w.rd = readline.NewCancelableStdin(w.src)
		case 1:
			if e.p("noclose") == 1 {
				w.rd, w.fill = readline.NewFillableStdin(w.src)
			} else {
				w.rd, w.fill = readline.NewFillableStdin(srcClose{w.src})
			}
		default:
			w.rd, w.fill = readline.NewFillableStdin(readline.NewCancelableStdin(w.src))
		}
	})
	if !e.await(time.Second, mk) {
		e.Violate("hang", "the constructor did not return: %s", e.stuck())
		return
	}
	val := byte(0)
	feeder := e.s.GoIn(nil, "feeder", func() {
		w.ops(e.sc.A["src"], func(o Op) {
			switch o.K {
			case "b":
				b := make([]byte, o.N)
				for i := range b {
					b[i] = val
					val++
				}
				it := srcItem{b: b}
				if o.M == 0 {
					it.err = fmt.Errorf("source error with %d", val-1)
				}
				w.src.feed(it)
			case "err":
				val++
				w.src.feed(srcItem{err: fmt.Errorf("source error %d", val)})
			}
		})
		if e.p("blocked") == 0 || closers == 0 || kind == 1 {
			w.src.feed(srcItem{eof: true})
		}
	})
	gs = append(gs, feeder)
	var fillers []*simrt.G
	for i := 0; i < 2 && kind > 0; i++ {
		i := i
		g := e.s.GoIn(e.proc, fmt.Sprintf("fill%d", i), func() {
			next := 0
			w.ops(e.sc.A[fmt.Sprintf("fill%d", i)], func(o Op) {
				b := make([]byte, o.N)
				for j := range b {
					b[j] = byte(80 + 80*i + next%80)
					next++
				}
				if w.closing {
					return
				}
				w.put[i] += len(b)
				n, err := w.fill.Write(b)
				if w.closing {
					return
				}
				if n != len(b) || err != nil {
					e.Violate("fill-result", "Write of %d bytes to the writer of a FillableStdin returned %d, %v", len(b), n, err)
				}
				w.done[i] += len(b)
				for j := range b {
					b[j] = 255 // the writer's buffer is its own again
				}
			})
		})
		fillers = append(fillers, g)
	}
	gs = append(gs, fillers...)
	for c := 1; c <= 3; c++ {
		ops := e.sc.A[fmt.Sprintf("close%d", c)]
		if len(ops) == 0 {
			continue
		}
		gs = append(gs, e.s.GoIn(e.proc, fmt.Sprintf("close%d", c), func() {
			w.ops(ops, func(o Op) {
				w.closing = true
				e.s.Fired["close"]++
				if err := w.rd.Close(); err != nil {
					e.Violate("close-result", "Close returned %v", err)
				}
				w.shut = true
				e.cases++
			})
		}))
	}
	var readers []*simrt.G
	for i := 0; i < e.p("readers"); i++ {
		i := i
		readers = append(readers, e.s.GoIn(e.proc, fmt.Sprintf("reader%d", i), func() {
			last := -1
			after := 0
			for calls := 0; calls < 400+w.put[0]+w.put[1]; calls++ {
				n := 1 + (calls*7+i*3)%(1+e.p("buf"))
				buf := make([]byte, n)
				wasShut, wasClosing := w.shut, w.closing
				before := w.done
				k, err := w.rd.Read(buf)
				e.cases++
				if k < 0 || k > n {
					e.Violate("read-result", "Read into %d bytes returned %d", n, k)
					return
				}
				b := append([]byte(nil), buf[:k]...)
				_ = wasClosing
				if w.closing {
					w.bufs = append(w.bufs, keptBuf{buf, append([]byte(nil), buf...)})
				}
				if kind == 0 {
					if wasShut {
						if k != 0 || err != io.EOF {
							e.Violate("read-after-close", "Read begun after Close had returned gave %q, %v", b, err)
							return
						}
						if after++; after > 3 {
							return
						}
						continue
					}
					if k == 0 && err == io.EOF && (w.closing || w.src.eof) {
						if !w.closing {
							return
						}
						// of Close; the source's own end looks the same
						if !w.shut {
							e.s.Sleep(time.Millisecond)
						}
						if after++; after > 3 {
							return
						}
						continue
					}
					j := w.match(b, err, last)
					if j < 0 {
						e.Violate("read-result", "Read returned %v, %v, which the source did not give after %d; it gave %s", b, err, last, w.gave())
						return
					}
					last = j
					continue
				}
				if !w.checkFill(b, before) {
					return
				}
				if err == io.EOF || errors.Is(err, io.ErrClosedPipe) {
					if !w.src.eof && !w.closing {
						e.Violate("read-result", "Read returned %v before the source ended", err)
						return
					}
					if w.closing {
						return
					}
					all := true
					for _, g := range fillers {
						all = all && g.Done()
					}
					if all && w.got == w.put {
						return
					}
					if !all {
						e.s.Sleep(time.Millisecond)
					} else if after++; after > 50 {
						e.Violate("fill-lost", "%v bytes were written to a FillableStdin, only %v were read", w.put, w.got)
						return
					}
				} else if err != nil && w.match(nil, err, -1) < 0 && w.match(b, err, -1) < 0 {
					e.Violate("read-result", "Read returned error %v, which the source did not give", err)
					return
				}
			}
		}))
	}
	gs = append(gs, readers...)
	if !e.await(10*time.Second, gs...) {
		what := "hang"
		e.Violate(what, "not all tasks finished (closed %v, source ended %v): %s", w.shut, w.src.eof, e.stuck())
		return
	}
	if len(e.viols) > 0 {
		return
	}
	if closers == 0 {
		for i, l := range w.src.log {
			if kind == 0 && !l.hit {
				e.Violate("lost", "what the source gave in read %d (%v, %v) was returned by no Read", i, l.b, l.err)
				return
			}
		}
		n := 0
		for _, l := range w.src.log {
			n += len(l.b)
		}
		if kind > 0 && w.gotS != n {
			e.Violate("lost", "the source gave %d bytes, %d were returned", n, w.gotS)
		}
		if kind > 0 && w.got != w.put {
			e.Violate("fill-lost", "%v bytes were written to a FillableStdin, only %v were read", w.put, w.got)
		}
		return
	}
	if kind == 1 && e.p("noclose") == 0 && !w.src.closed {
		e.Violate("not-closed", "Close of a FillableStdin did not close its source")
		return
	}
	if kind != 1 {
		// nothing may be left behind once the source lets go
		w.src.feed(srcItem{b: []byte{254, 254, 254}})
		w.src.feed(srcItem{eof: true})
		e.idle()
		e.cases++
		for _, k := range w.bufs {
			if !bytes.Equal(k.buf, k.was) {
				e.Violate("buffer-written", "a Read ended by Close returned with %v in its buffer, later there was %v", k.was, k.buf)
				return
			}
		}
		if l := e.s.Live(e.proc); len(l) > 0 {
			e.Violate("left-behind", "after Close and the end of the source a task is left: %s", e.stuck())
		}
	}
}

func (w *stdinWorld) gave() string {
	s := ""
	for _, l := range w.src.log {
		s += fmt.Sprintf("(%v, %v) ", l.b, l.err)
	}
	return s
}

// match finds what the source gave that a Read returned.
func (w *stdinWorld) match(b []byte, err error, last int) int {
	for j := last + 1; j < len(w.src.log); j++ {
		l := &w.src.log[j]
		if !l.hit && l.err == err && bytes.Equal(l.b, b) {
			l.hit = true
			return j
		}
	}
	return -1
}

// checkFill judges the bytes of one Read of a FillableStdin; done is how many
// bytes each writer had written before the Read began.
func (w *stdinWorld) checkFill(b []byte, done [2]int) bool {
	e := w.e
	for _, c := range b {
		switch {
		case c < 80:
			if int(c) != w.gotS && !w.srcNext(c) {
				e.Violate("order", "Read returned byte %d of the source, expected byte %d", c, w.gotS)
				return false
			}
			for i := range done {
				if w.got[i] < done[i] {
					e.Violate("fill-late", "Read returned source byte %d before byte %d of writer %d, which had been written before the Read began", c, w.got[i], i)
					return false
				}
			}
			w.gotS++
		default:
			i := int(c-80) / 80
			if i > 1 || int(c-80)%80 != w.got[i]%80 || w.got[i] >= w.put[i] {
				e.Violate("fill-order", "Read returned byte %d, expected the next byte of a writer (%v of %v got) or of the source", c, w.got, w.put)
				return false
			}
			w.got[i]++
		}
	}
	return true
}

// srcNext tells whether c is the next byte the source gave (values skip where
// it gave an error).
func (w *stdinWorld) srcNext(c byte) bool {
	n := 0
	for _, l := range w.src.log {
		for _, x := range l.b {
			if n == w.gotS {
				return x == c
			}
			n++
		}
	}
	return false
}

func init() {
	register(&Property{
		ID:   "C21",
		Rule: "Sources that give bytes and errors in random pieces at random instants are read through CancelableStdin and FillableStdin by one or more tasks with random buffer sizes, while others write fill text and call Close; every result is compared with what the source gave and the writers wrote.",
		Gen:  genStdin,
		Run:  runStdin,
	})
}
