package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"verifsim/simrt"
)

// wrote is one Write of the application.
type wrote struct {
	who  int
	text string
	n    int
	err  error
	g    *simrt.G
	done bool
	late bool // the connection may be gone
	sink bool // it went to another stream than the terminal
}

// sink is a stream of the application that is not the terminal.
type sink struct {
	e *Env
	bytes.Buffer
}

func (s *sink) Write(b []byte) (int, error) {
	s.e.s.SyncPoint("sink-write")
	return s.Buffer.Write(b)
}

// target is one of the ways an application writes to the terminal.
func (ed *editor) target(n int) io.Writer {
	switch n % 3 {
	case 0:
		return ed.rl.Stdout()
	case 1:
		return ed.rl.Stderr()
	}
	return ed.rl
}

// ordinary keys only change the line.
func ordinary(k string) bool {
	switch k {
	case "enter", "ctrl-j", "intr", "del", "search-back", "search-fwd", "tab", "cancel", "suspend", "clear", "esc":
		return false
	}
	return true
}

// write makes the application write; "out" waits for the program to rest
// before and after, "async" does not.
func (sc *Screen) write(ed *editor, o Op) {
	e := sc.e
	if o.K == "out" || sc.m.search || sc.m.complete || len(sc.pending) == 0 {
		sc.sync(ed)
	}
	if ed.rl == nil || ed.app.Done() {
		return
	}
	w := &wrote{who: 1000 + len(sc.all), text: o.S, sink: sc.sink(o.N)}
	sc.pending = append(sc.pending, w)
	sc.all = append(sc.all, w)
	w.g = e.s.GoIn(e.proc, "writer", func() {
		if o.K == "async" && o.M > 0 {
			e.s.WaitSteps(int64(o.M))
		}
		w.n, w.err = ed.target(o.N).Write([]byte(w.text))
		w.done = true
		w.late = ed.closing && e.cli != nil
	})
	if o.K == "out" || sc.m.search || sc.m.complete {
		sc.sync(ed)
	}
}

func (sc *Screen) settle(ed *editor) { sc.e.idle() }

// sync waits until everything is at rest and tells the reference about the
// output, in the order it reached the terminal.
func (sc *Screen) sync(ed *editor) {
	e := sc.e
	e.idle()
	for len(sc.pending) > 0 {
		best, at := -1, 0
		out := e.tty.Output()
		for i, w := range sc.pending {
			if !w.done {
				if !e.await(time.Second, w.g) {
					e.Violate("write-hang", "a Write of %q does not return; tasks: %s", clipText(w.text), e.stuck())
					return
				}
				out = e.tty.Output()
			}
			if w.sink {
				continue
			}
			if k := bytes.Index(out, []byte(w.text)); k >= 0 && (best < 0 || k < at) {
				best, at = i, k
			}
		}
		if best < 0 {
			break
		}
		sc.output(sc.pending[best].text)
		sc.pending = append(sc.pending[:best], sc.pending[best+1:]...)
	}
	sc.pending = nil
	e.idle()
}

// checkWrites looks for every Write in what reached the terminal.
func (e *Env) checkWrites(ws []*wrote) {
	if len(e.viols) > 0 {
		return
	}
	tout := e.tty.Output()
	lastAt := map[int]int{}
	lastText := map[int]string{}
	for _, w := range ws {
		e.cases++
		out := tout
		if w.sink {
			out = e.errSink.Bytes()
			if bytes.Contains(tout, []byte(w.text)) {
				e.Violate("write-elsewhere", "what was written to Stderr() reached the terminal and not the stream configured for it: %q", clipText(w.text))
				return
			}
		}
		switch {
		case !w.done:
			e.Violate("write-hang", "a Write of %q did not return; tasks: %s", clipText(w.text), e.stuck())
			return
		case w.late:
			continue
		case w.err != nil || w.n != len(w.text):
			if e.s.Fired["out-err"]+e.s.Fired["out-short"] == 0 {
				e.Violate("write-result", "Write(%q) returned %d, %v although the terminal took everything", clipText(w.text), w.n, w.err)
				return
			}
			if w.n < 0 || w.n > len(w.text) || w.n < len(w.text) && w.err == nil {
				e.Violate("write-result", "Write(%q) returned %d, %v", clipText(w.text), w.n, w.err)
				return
			}
			if w.n > 4 && bytes.Count(out, []byte(w.text[:w.n])) == 0 {
				e.Violate("write-lost", "Write(%q) returned %d, %v but these bytes did not reach the terminal", clipText(w.text), w.n, w.err)
				return
			}
			continue
		}
		switch bytes.Count(out, []byte(w.text)) {
		case 0:
			e.Violate("write-lost", "Write(%q) succeeded but the bytes did not reach the terminal in one piece", clipText(w.text))
			return
		case 1:
		default:
			e.Violate("write-twice", "Write(%q) reached the terminal %d times", clipText(w.text), bytes.Count(out, []byte(w.text)))
			return
		}
		at := bytes.Index(out, []byte(w.text))
		who := w.who // the order of what two streams get does not show
		if w.sink {
			who += 1 << 20
		}
		if l, ok := lastAt[who]; ok && l > at {
			e.Violate("write-order", "Write(%q) reached the terminal before the earlier Write(%q) of the same task", clipText(w.text), clipText(lastText[who]))
			return
		}
		lastAt[who], lastText[who] = at, w.text
	}
}

// bigText is a text of about n KiB that starts and ends with s.
func bigText(s string, n int) string {
	var b strings.Builder
	b.WriteString(s)
	for i := 0; b.Len() < n*1024; i++ {
		fmt.Fprintf(&b, "%d %s line %d of a long listing\n", i, s[:4], i*i)
	}
	b.WriteString(s)
	return b.String()
}

// clipText shortens a text for a message.
func clipText(s string) string {
	if len(s) > 300 {
		return s[:140] + "..." + s[len(s)-140:] + fmt.Sprintf(" (%d bytes)", len(s))
	}
	return s
}

func outText(r *rand.Rand, id int) string {
	s := fmt.Sprintf("<%d:", id)
	switch r.Intn(5) {
	case 0:
		s += randText(r, r.Intn(6))
	case 1:
		s += randText(r, r.Intn(120))
	case 2:
		s += randText(r, r.Intn(12)) + "\n" + randText(r, r.Intn(12))
	case 3:
		s += "\x1b[32m" + randText(r, r.Intn(12)) + "\x1b[0m"
	default:
		s += randText(r, r.Intn(30))
	}
	return s + fmt.Sprintf(":%d>", id)
}

func init() {
	register(&Property{
		ID:   "C13",
		Rule: "Several tasks write through Stdout(), Stderr() and Write at arbitrary times while lines are edited, searched, completed and finished; every write must reach the terminal once, whole and in order, the returned lines must be those of a session without output, and at rest the screen must show output, prompt, line and cursor.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C13")
			genScreen(r, sc, edOpts{})
			alpha := []string{"ab ", "aé日本 .x", "日本"}[r.Intn(3)]
			if chance(r, 0.15) {
				sc.P["errsink"] = 1
			}
			if chance(r, 0.3) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(6), alpha)
			}
			if chance(r, 0.4) {
				genWords(r, sc)
				sc.P["fixedh"] = 300
			}
			if chance(r, 0.2) {
				genCalls(r, sc, r.Intn(4), "line", "pass", "default")
			}
			keys := append([]string{"up", "down"}, editKeys...)
			if chance(r, 0.5) {
				keys = append(keys, "search-back", "search-back", "search-fwd", "tab", "tab", "tab")
				delete(sc.P, "painter")
			}
			mixKeys(r, sc, r.Intn(4), 3+r.Intn(40), []float64{0.3, 0.6, 0.8}[r.Intn(3)], textFrom(r, alpha), keys)
			if chance(r, 0.6) {
				// the screen is compared as well
				sc.P["screen"] = 1
				id := 100
				var out []Op
				p := []float64{0.1, 0.3}[r.Intn(2)]
				race := chance(r, 0.5)
				for _, o := range sc.A["user"] {
					out = append(out, o)
					for chance(r, p) {
						id++
						if race && chance(r, 0.3) {
							out = append(out, Op{K: "race", S: outText(r, id) + "\n", N: r.Intn(3), M: r.Intn(2) * r.Intn(700)})
							continue
						}
						out = append(out, Op{K: pick(r, "out", "async", "async"), S: outText(r, id) + "\n", N: r.Intn(3), M: r.Intn(2) * r.Intn(400)})
					}
				}
				if chance(r, 0.3) {
					sc.S["bye"] = outText(r, 99) + "\n"
				}
				sc.A["user"] = out
				addChecks(r, sc, []float64{0.05, 0.2, 1}[r.Intn(3)], nil)
				return sc
			}
			if chance(r, 0.2) {
				sc.P["notty"] = 1
			}
			if chance(r, 0.2) {
				sc.Faults["out-err"] = 0.02
			}
			if chance(r, 0.2) {
				sc.Faults["out-short"] = 0.02
			}
			n := 1 + r.Intn(3)
			id := 100
			big := chance(r, 0.12)
			for i := 0; i < n; i++ {
				a := fmt.Sprintf("w%d", i)
				for k := 1 + r.Intn(6); k > 0; k-- {
					sc.add(a, pace(r, 3)...)
					id++
					s := outText(r, id)
					if chance(r, 0.6) {
						s += "\n"
					}
					o := Op{K: "w", S: s, N: r.Intn(3)}
					if big && chance(r, 0.4) {
						o.M = 1 + r.Intn(90)
					}
					sc.add(a, o)
				}
			}
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			ed := &editor{}
			cfg := e.baseConfig()
			if e.p("errsink") == 1 {
				e.errSink = &sink{e: e}
				cfg.Stderr = e.errSink
			}
			if e.p("screen") == 1 || len(e.actors("w")) == 0 {
				if t := e.str("bye"); t != "" {
					// the application writes after the last call
					ed.bye = func() { ed.rl.Stdout().Write([]byte(t)) }
				}
				sc := e.runScreen(ed, cfg, func(m *Model) { e.completer(cfg, m) })
				e.checkWrites(sc.all)
				return
			}
			m := e.modelFor()
			e.completer(cfg, m)
			var all []*wrote
			ed.onReady = func() {
				for a, ops := range e.actors("w") {
					a, ops := a, ops
					ed.extra = append(ed.extra, e.s.GoIn(e.proc, "writer", func() {
						for _, o := range ops {
							if o.K != "w" {
								e.user([]Op{o}, nil)
								continue
							}
							w := &wrote{who: a, text: o.S, sink: e.p("errsink") == 1 && o.N%3 == 1}
							if o.M > 0 {
								w.text = bigText(o.S, o.M)
							}
							all = append(all, w)
							w.n, w.err = ed.target(o.N).Write([]byte(w.text))
							w.done = true
							w.late = ed.closing && e.cli != nil
						}
					}))
				}
			}
			e.runEditorWith(ed, cfg, m)
			e.checkWrites(all)
		},
	})
}

// actors are the scripts of the actors prefix0, prefix1, ...
func (e *Env) actors(prefix string) [][]Op {
	var out [][]Op
	for i := 0; i < 9; i++ {
		ops, ok := e.sc.A[fmt.Sprint(prefix, i)]
		if ok {
			out = append(out, ops)
		}
	}
	return out
}
