package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// words is a completer over a list of words: it offers the rest of every word
// the text before the cursor begins.
type words struct {
	e     *Env
	list  []string
	tail  string
	off   int // added to the reported length
	calls []event
	given [][]rune // what was handed out, to see whether it is changed
	saved [][]rune
}

func wordCands(list []string, tail string, off int, line []rune, pos int) ([][]rune, int) {
	i := pos
	for i > 0 && line[i-1] != ' ' {
		i--
	}
	pre := string(line[i:pos])
	var out [][]rune
	for _, w := range list {
		if strings.HasPrefix(w, pre) {
			out = append(out, []rune(w[len(pre):]+tail))
		}
	}
	return out, pos - i + off
}

// Do implements readline.AutoCompleter.
func (w *words) Do(line []rune, pos int) ([][]rune, int) {
	w.calls = append(w.calls, event{string(line), pos, 0, 0})
	c, n := wordCands(w.list, w.tail, w.off, line, pos)
	for i, x := range c {
		// spare capacity shows whether somebody appends in place
		y := make([]rune, len(x), len(x)+8)
		copy(y, x)
		for j := len(x); j < cap(y); j++ {
			y[:cap(y)][j] = '#'
		}
		c[i] = y
		w.given = append(w.given, y)
		w.saved = append(w.saved, cp(y[:cap(y)]))
	}
	return c, n
}

func (w *words) unchanged() bool {
	for i, g := range w.given {
		if string(g[:cap(g)]) != string(w.saved[i]) {
			return false
		}
	}
	return true
}

// completer installs the scenario's completer in cfg and the model.
func (e *Env) completer(cfg *readline.Config, m *Model) *words {
	if e.str("words") == "" {
		return nil
	}
	w := &words{e: e, list: strings.Split(e.str("words"), ","), tail: e.str("tail"), off: e.p("compoff")}
	cfg.AutoComplete = w
	m.TabInsert = false
	m.Comp = func(line []rune, pos int) ([][]rune, int) { return wordCands(w.list, w.tail, w.off, line, pos) }
	return w
}

func genWords(r *rand.Rand, sc *Scn) {
	n := 1 + r.Intn(12)
	alpha := []string{"ab", "abc", "aé日", "abcdefgh"}[r.Intn(4)]
	var ws []string
	for i := 0; i < n; i++ {
		var b strings.Builder
		a := []rune(alpha)
		for j := 1 + r.Intn(7); j > 0; j-- {
			b.WriteRune(a[r.Intn(len(a))])
		}
		ws = append(ws, b.String())
	}
	if chance(r, 0.12) {
		// many words with a common start, but for a few
		a := []rune(alpha)
		stem := []rune(ws[0])
		ws = nil
		for i := 9 + r.Intn(8); i > 0; i-- {
			w := string(stem)
			if chance(r, 0.07) {
				w = string(stem[:r.Intn(len(stem))]) + string(a[r.Intn(len(a))])
			}
			for j := r.Intn(3); j > 0; j-- {
				w += string(a[r.Intn(len(a))])
			}
			ws = append(ws, w)
		}
	}
	if chance(r, 0.03) {
		// very many
		stem := ws[0]
		for i := 20 + r.Intn(120); i > 0; i-- {
			ws = append(ws, stem+strconv.Itoa(i))
		}
		sc.P["high"] = 1 // they must fit in the window
	} else if chance(r, 0.05) {
		sc.P["high"] = 1
		// a long common start
		stem := longText(r, 8+r.Intn(60), alpha)
		for i := range ws {
			ws[i] = stem + ws[i]
		}
	}
	sc.S["words"] = strings.Join(ws, ",")
	if chance(r, 0.3) {
		sc.S["tail"] = " "
	}
}

// checkHistFile compares the history file with the model.
func (ed *editor) checkHistFile(m *Model) {
	e := ed.e
	f := e.str("histfile")
	if f == "" || m.Limit < 0 || len(e.viols) > 0 {
		return
	}
	e.cases++
	b, _ := e.fs.Bytes(f)
	if d := histDiff(e.str("hist"), m.Limit, m.Appended, string(b)); d != "" {
		e.Violate("histfile-differs", "%s; file %q, at start %q, keys %q", d, b, e.str("hist"), typed(e.sc.A["user"]))
	}
}

func entriesOf(text string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

// histDiff tells how file is not what the history file must hold after a
// session that found start and recorded the lines of added ("" if it is).
func histDiff(start string, limit int, added []string, file string) string {
	tail := ""
	for _, l := range added {
		tail += l + "\n"
	}
	if !strings.HasSuffix(file, tail) {
		return fmt.Sprintf("the history file does not end with the recorded lines %q", added)
	}
	head := file[:len(file)-len(tail)]
	if tail != "" && head != "" && !strings.HasSuffix(head, "\n") {
		return "the first recorded line was glued to the line before it"
	}
	got, want := entriesOf(head), entriesOf(start)
	if len(want) > limit {
		want = want[len(want)-limit:]
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("the history file holds %q of the earlier entries, expected %q", got, want)
	}
	return ""
}

func tornHist(r *rand.Rand, s string) string {
	if chance(r, 0.2) {
		return strings.TrimSuffix(s, "\n")
	}
	return s
}

var callKinds = []string{"line", "line", "slice", "linefn", "runes"}

// genCalls draws the kinds of calls an application makes.
func genCalls(r *rand.Rand, sc *Scn, n int, kinds ...string) {
	for i := 0; i < n; i++ {
		o := Op{K: kinds[r.Intn(len(kinds))]}
		if o.K == "pass" {
			o.S = "pw: "
		}
		if o.K == "save" || o.K == "default" || o.K == "prefill" {
			o.S = randText(r, 1+r.Intn(12))
		}
		sc.add("app", o)
	}
}

func init() {
	register(&Property{
		ID:   "C03",
		Rule: "Typing with Ctrl-D in every state and the end or failure of the input at every point, under every way of calling; compared with a reference editor, with further calls after the end.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C03")
			genBase(r, sc, edOpts{writers: true})
			if chance(r, 0.4) {
				sc.P["listen"] = 1
			}
			if chance(r, 0.3) {
				sc.P["eoferr"] = 1
			}
			if chance(r, 0.2) {
				sc.P["vim"] = 1
			}
			if chance(r, 0.3) {
				genWords(r, sc)
			}
			if chance(r, 0.4) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = tornHist(r, histText(r, r.Intn(5), "ab "))
			}
			genCalls(r, sc, r.Intn(5), append([]string{"pass", "default"}, callKinds...)...)
			n := r.Intn(25)
			keys := []string{"del", "del", "del", "del", "enter", "ctrl-j", "intr", "left", "home", "backspace127", "kill-front", "search-back", "tab", "up", "cancel"}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc", "esc")
			}
			mixKeys(r, sc, r.Intn(4), n, []float64{0.2, 0.5, 0.8}[r.Intn(3)], textFrom(r, "ab "), keys)
			if sc.P["vim"] == 0 && chance(r, 0.1) {
				sc.add("user", Op{K: "t", S: pickKey(r, "cut")})
			}
			for i := 2 + r.Intn(3); i > 0; i-- {
				o := Op{K: "line"}
				if chance(r, 0.2) {
					o = Op{K: "default", S: randText(r, 1+r.Intn(5))}
				}
				sc.add("app", o)
			}
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			m := e.modelFor()
			cfg := e.baseConfig()
			e.completer(cfg, m)
			ed := &editor{}
			if e.runEditorWith(ed, cfg, m) {
				ed.checkHistFile(m)
			}
		},
	})

	register(&Property{
		ID:   "C04",
		Rule: "Ctrl-C at every point of typing, searching, completing and recalling, followed by further lines; results, what can be recalled and the history file are compared with a reference editor.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C04")
			genBase(r, sc, edOpts{writers: true})
			if chance(r, 0.5) {
				sc.P["listen"] = 1
			}
			if chance(r, 0.4) {
				genWords(r, sc)
			}
			if chance(r, 0.15) {
				sc.P["vim"] = 1
			}
			sc.P["limit"] = []int{0, 0, 3}[r.Intn(3)]
			if chance(r, 0.7) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = tornHist(r, histText(r, r.Intn(6), "ab "))
			}
			genCalls(r, sc, r.Intn(4), callKinds...)
			keys := []string{"intr", "intr", "intr", "intr", "enter", "enter", "up", "up", "down", "left", "home", "backspace127", "search-back", "search-fwd", "tab", "tab", "yank", "kill-front", "cancel"}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc", "esc")
			}
			mixKeys(r, sc, r.Intn(4), 3+r.Intn(45), []float64{0.3, 0.5, 0.7}[r.Intn(3)], textFrom(r, "ab "), keys)
			if chance(r, 0.5) {
				sc.typeKeys(r, "user", 0, pickKey(r, "intr"), "o", "k", "\r")
			}
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			m := e.modelFor()
			cfg := e.baseConfig()
			e.completer(cfg, m)
			ed := &editor{}
			if e.runEditorWith(ed, cfg, m) {
				ed.checkHistFile(m)
			}
		},
	})

	register(&Property{
		ID:   "C06",
		Rule: "Sessions of lines, passwords, interrupts, ends of input, stops and failing mode switches; the mode is checked at every key and after every call.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C06")
			genBase(r, sc, edOpts{writers: true})
			delete(sc.P, "notty")
			if chance(r, 0.05) {
				sc.P["notty"] = 1
			}
			if chance(r, 0.2) {
				sc.P["vim"] = 1
			}
			sc.P["resume"] = []int{1, 50, 150, 3000, 100000}[r.Intn(5)]
			if chance(r, 0.1) {
				sc.P["nostop"] = 1
			}
			if chance(r, 0.2) {
				sc.Faults["stop-late"] = 0.5
			}
			if chance(r, 0.3) {
				sc.Faults["ioctl-set-err"] = []float64{0.05, 0.3}[r.Intn(2)]
				sc.P["modefault"] = 1 + r.Intn(5)
			}
			if chance(r, 0.2) {
				sc.Faults["ioctl-err"] = []float64{0.05, 0.3}[r.Intn(2)]
				sc.P["modefault"] = 1 + r.Intn(5)
			}
			genCalls(r, sc, 1+r.Intn(7), "line", "pass", "slice", "default")
			keys := []string{"enter", "enter", "ctrl-j", "intr", "del", "suspend", "suspend", "left", "search-back", "tab", "kill-front"}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc")
			}
			mixKeys(r, sc, r.Intn(4), 2+r.Intn(30), []float64{0.3, 0.6}[r.Intn(2)], textFrom(r, "ab "), keys)
			if chance(r, 0.25) {
				genCloseAt(r, sc)
			}
			return sc
		},
		Run: func(e *Env) {
			if e.p("closers") == 1 {
				runClose(e)
				return
			}
			e.world1()
			e.proc.ResumeIn = time.Duration(e.p("resume")) * time.Millisecond
			e.proc.NoStop = e.p("nostop") == 1
			m := e.modelFor()
			cfg := e.baseConfig()
			ed := &editor{}
			faulty := e.p("modefault") > 0
			e.proc.OnSuspend = func() {
				e.cases++
				if !faulty && !e.tty.Restored() {
					e.Violate("stopped-raw", "the process was stopped with the terminal not in its original mode")
				}
			}
			ed.watch = func(k rune) {
				e.cases++
				if !faulty && e.tty.IsTTY && !e.tty.Raw() {
					e.Violate("key-not-raw", "key %d was processed while the terminal was not in raw mode", k)
				}
			}
			nres := 0
			ed.after = func(o Op, r Res) {
				e.cases++
				nres++
				if faulty && (nres == e.p("modefault") || nres == ed.maxRes) {
					// faults stop: the next call or Close must put everything right
					e.s.StopFaults()
					return
				}
				if faulty && (nres < e.p("modefault") || r.Err == "EOF") {
					return // a call after the end of input does nothing
				}
				if !e.tty.Restored() {
					e.Violate("mode-after-call", "after %v the terminal is not in the mode it had before the first call", r)
				}
			}
			if e.runEditorWith(ed, cfg, m) {
				if e.p("notty") == 1 && e.tty.Sets > 0 {
					e.Violate("mode-notty", "modes were set on something that is not a terminal")
				}
				if !e.tty.Restored() {
					e.Violate("mode-end", "terminal modes are not restored at the end")
				}
			}
		},
	})

	register(&Property{
		ID:   "C07",
		Rule: "Ctrl-Z at every point and in quick succession, with stops of any length, late or not happening; number of stops, mode at the stop, line, cursor and history position are compared with a reference editor.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C07")
			genBase(r, sc, edOpts{writers: true})
			delete(sc.P, "notty")
			if chance(r, 0.7) {
				sc.P["listen"] = 1
			}
			if chance(r, 0.2) {
				sc.P["vim"] = 1
			}
			sc.P["resume"] = []int{0, 1, 30, 90, 110, 1000, 100000}[r.Intn(7)]
			if chance(r, 0.1) {
				sc.P["nostop"] = 1
			}
			if chance(r, 0.3) {
				sc.Faults["stop-late"] = 0.5
			}
			if chance(r, 0.5) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(6), "ab ")
			}
			genCalls(r, sc, r.Intn(4), "line", "pass", "slice", "default")
			keys := []string{"suspend", "suspend", "suspend", "enter", "up", "down", "left", "home", "right", "kill-front", "yank", "intr", "search-back"}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc")
			}
			mixKeys(r, sc, r.Intn(4), 2+r.Intn(40), []float64{0.3, 0.6}[r.Intn(2)], textFrom(r, "ab "), keys)
			if chance(r, 0.25) {
				// what is on the screen after a stop, during which the shell
				// used the terminal
				sc.P["shell"] = 1
				delete(sc.A, "writer")
				delete(sc.P, "nostop")
				if sc.P["fixedw"] < 24 {
					sc.P["fixedh"] = 300
				}
				if sc.P["fixedw"] < 2 {
					sc.P["fixedw"] = 2
				}
				addChecks(r, sc, []float64{0.1, 0.5}[r.Intn(2)], nil)
				return sc
			}
			if chance(r, 0.2) {
				genCloseAt(r, sc)
			}
			return sc
		},
		Run: func(e *Env) {
			if e.p("closers") == 1 {
				runClose(e)
				return
			}
			e.world1()
			e.proc.ResumeIn = time.Duration(e.p("resume")) * time.Millisecond
			e.proc.NoStop = e.p("nostop") == 1
			m := e.modelFor()
			cfg := e.baseConfig()
			ed := &editor{}
			e.proc.OnSuspend = func() {
				e.cases++
				if !e.tty.Restored() {
					e.Violate("stopped-raw", "the process was stopped with the terminal not in its original mode")
				}
			}
			ed.watch = func(k rune) {
				if !e.tty.Raw() {
					e.Violate("key-not-raw", "key %d was processed while the terminal was not in raw mode", k)
				}
			}
			if e.p("shell") == 1 {
				const text = "[1]+  Stopped\n$ fg\n"
				stopped := e.proc.OnSuspend
				e.proc.OnSuspend = func() {
					stopped()
					e.tty.VT.Feed([]byte(text), true)
				}
				e.shell = text
				e.runScreen(ed, cfg, nil)
				if m := e.lastModel; ed.ok && e.proc.Suspended != m.Stops {
					e.Violate("stop-count", "the process was stopped %d times for %d Ctrl-Z; keys %q", e.proc.Suspended, m.Stops, typed(e.sc.A["user"]))
				}
				return
			}
			if e.runEditorWith(ed, cfg, m) && e.p("nostop") == 0 && e.proc.Suspended != m.Stops {
				e.Violate("stop-count", "the process was stopped %d times for %d Ctrl-Z; keys %q", e.proc.Suspended, m.Stops, typed(e.sc.A["user"]))
			}
		},
	})

	register(&Property{
		ID:   "C05",
		Rule: "One to three tasks call Close, or signals end a process that called CaptureExitSignal, at random moments while the application reads lines and passwords and the user types, searches, completes and stops the process; bounded return, results, modes and input use are checked.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C05")
			genBase(r, sc, edOpts{writers: true})
			if chance(r, 0.15) {
				sc.P["vim"] = 1
			}
			if chance(r, 0.3) {
				genWords(r, sc)
			}
			if chance(r, 0.5) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(5), "ab ")
			}
			sc.P["resume"] = []int{1, 90, 3000}[r.Intn(3)]
			if chance(r, 0.2) {
				sc.P["nostop"] = 1
			}
			if chance(r, 0.1) {
				sc.P["close-self"] = 1 + r.Intn(3) // the application itself closes before that call
			}
			if chance(r, 0.2) {
				sc.P["pipe"] = 1 // Config.Stdin is the application's own stream
			}
			if chance(r, 0.25) {
				sc.P["again"] = 1
			}
			genCalls(r, sc, r.Intn(5), "line", "pass", "slice", "default")
			keys := []string{"enter", "enter", "intr", "del", "suspend", "search-back", "tab", "tab", "up", "left", "kill-front"}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc")
			}
			if chance(r, 0.5) {
				keys = append(keys, editKeys...)
			}
			style := r.Intn(4)
			mixKeys(r, sc, style, r.Intn(20), []float64{0.3, 0.6, 0.9}[r.Intn(3)], textFrom(r, "ab "), keys)
			if chance(r, 0.2) {
				sc.add("user", Op{K: "eof"})
			}
			genClosers(r, sc)
			if chance(r, 0.1) {
				genSwap(r, sc)
			}
			return sc
		},
		Run: runClose,
	})
}

// genClosers draws the tasks that close the instance or end the process.
func genClosers(r *rand.Rand, sc *Scn) {
	if chance(r, 0.25) {
		sc.P["capture"] = 1 // the application has called CaptureExitSignal
	}
	for c, n := 0, 1+r.Intn(3); c < n; c++ {
		a := fmt.Sprintf("closer%d", c)
		for i := r.Intn(4); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				sc.add(a, Op{K: "idle"})
			case 1:
				sc.add(a, Op{K: "ms", N: r.Intn(40)})
			default:
				sc.add(a, Op{K: "steps", N: 1 + r.Intn(1500)})
			}
		}
		if sc.P["capture"] == 1 && chance(r, 0.6) {
			sc.add(a, Op{K: "term", N: r.Intn(2)})
			continue
		}
		sc.add(a, Op{K: "close"})
	}
}

// genSwap makes a scenario in which the line is given up by Close, and replaced
// by the text of the next call, while a key is still being handled.
func genSwap(r *rand.Rand, sc *Scn) {
	for a := range sc.A {
		delete(sc.A, a)
	}
	for _, p := range []string{"capture", "close-self", "vim", "pipe"} {
		delete(sc.P, p)
	}
	genWords(r, sc)
	sc.add("app", Op{K: "default", S: randText(r, r.Intn(3))})
	for i := 1 + r.Intn(2); i > 0; i-- {
		sc.add("app", Op{K: "default", S: randText(r, r.Intn(30))})
	}
	if chance(r, 0.7) {
		sc.add("user", Op{K: "idle"})
		sc.add("closer0", Op{K: "idle"})
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		sc.add("user", Op{K: "t", S: pick(r, "\t", "\t", "x", "\x01")})
	}
	sc.add("closer0", Op{K: "steps", N: 1 + r.Intn(400)})
	sc.add("closer0", Op{K: "close"})
	sc.Strat = simrt.Strategy{Kind: "walk", PSync: []float64{0.01, 0.1}[r.Intn(2)], PStmt: []float64{0.01, 0.03, 0.1}[r.Intn(3)], PBlock: 0.5}
}

// genCloseAt turns a scenario into one in which the instance is closed at a
// random moment.
func genCloseAt(r *rand.Rand, sc *Scn) {
	sc.P["closers"] = 1
	delete(sc.P, "modefault")
	delete(sc.P, "limit")
	delete(sc.P, "listen")
	delete(sc.Faults, "ioctl-err")
	delete(sc.Faults, "ioctl-set-err")
	genClosers(r, sc)
	if len(sc.A["user"]) > 12 {
		sc.A["user"] = sc.A["user"][:12]
	}
	for c := 0; c < 3; c++ {
		a := fmt.Sprintf("closer%d", c)
		if ops := sc.A[a]; len(ops) > 0 && chance(r, 0.5) {
			sc.A[a] = append([]Op{{K: "ms", N: r.Intn(2 * (sc.P["resume"]%4000 + 50))}}, ops...)
		}
	}
}

// ownStdin is an input stream of the application's own.
type ownStdin struct {
	e      *Env
	closed bool
	wait   []*simrt.G
	buf    []byte
	eof    bool
}

func (o *ownStdin) wake() {
	for _, g := range o.wait {
		o.e.s.Ready(g)
	}
	o.wait = nil
}

func (o *ownStdin) Read(p []byte) (int, error) {
	o.e.s.SyncPoint("own-read")
	for {
		if len(p) == 0 {
			return 0, nil
		}
		if o.closed {
			return 0, fmt.Errorf("read on closed stream")
		}
		if len(o.buf) > 0 {
			n := copy(p, o.buf)
			o.buf = o.buf[n:]
			return n, nil
		}
		if o.eof {
			return 0, fmt.Errorf("EOF")
		}
		o.wait = append(o.wait, o.e.s.Cur())
		o.e.s.Block("own stdin read")
	}
}

func (o *ownStdin) Close() error {
	o.e.s.SyncPoint("own-close")
	o.closed = true
	o.wake()
	return nil
}

func runClose(e *Env) {
	e.world1()
	e.proc.ResumeIn = time.Duration(e.p("resume")) * time.Millisecond
	e.proc.NoStop = e.p("nostop") == 1
	m := e.modelFor()
	cfg := e.baseConfig()
	e.completer(cfg, m)
	if f := e.str("histfile"); f != "" {
		e.fs.Put(f, []byte(e.str("hist")))
		m.Load([]byte(e.str("hist")))
	}
	var own *ownStdin
	if e.p("pipe") == 1 {
		own = &ownStdin{e: e}
		cfg.Stdin = own
	}
	m.Calls = e.sc.A["app"]
	eof := false
	for _, o := range e.sc.A["user"] {
		if o.K == "t" && !eof {
			m.Key(logical(o.S))
		}
		if o.K == "eof" {
			eof = true
		}
	}
	if eof {
		m.End()
	}
	ed := &editor{e: e, maxRes: len(m.Results) + 4}
	e.proc.OnSuspend = func() {
		e.cases++
		if !e.tty.Restored() {
			e.Violate("stopped-raw", "the process was stopped with the terminal not in its original mode")
		}
	}
	ready := false
	closing := false
	ed.app = e.s.GoIn(e.proc, "app", func() {
		rl, err := readline.NewEx(cfg)
		if err != nil {
			e.Violate("newex", "NewEx failed: %v", err)
			return
		}
		ed.rl = rl
		if e.p("capture") == 1 {
			rl.CaptureExitSignal()
			readline.CaptureExitSignal(func() { ed.signals++ })
		}
		ready = true
		for i := 0; len(ed.results) < ed.maxRes; i++ {
			if e.p("close-self") == i+1 {
				closing = true
				rl.Close()
			}
			o := Op{K: "line"}
			if i < len(m.Calls) {
				o = m.Calls[i]
			}
			if o.K == "prefill" && closing {
				o.K = "line" // writing to a closed instance may fail
			}
			if o.K == "prefill" {
				rl.WriteStdin([]byte(o.S))
				line, err := rl.Readline()
				ed.results = append(ed.results, Res{"prefill", line, errStr(err)})
				continue
			}
			ed.call(o)
		}
	})
	gs := []*simrt.G{ed.app}
	for _, a := range []string{"closer0", "closer1", "closer2"} {
		ops := e.sc.A[a]
		if len(ops) == 0 {
			continue
		}
		gs = append(gs, e.s.GoIn(e.proc, a, func() {
			e.until(func() bool { return ready })
			e.user(ops, func(o Op) bool {
				if o.K == "term" && e.p("capture") == 1 {
					closing = true
					sig := []os.Signal{syscall.SIGTERM, os.Interrupt}[o.N]
					if !e.proc.Signal(e.s, sig) {
						e.Violate("signal-unhandled", "%v is not handled although CaptureExitSignal was called", sig)
					}
					e.s.Fired["signal"]++
					return true
				}
				if o.K == "close" || o.K == "term" {
					closing = true
					e.s.Note("Close called")
					if err := ed.rl.Close(); err != nil {
						e.Violate("close-error", "Close returned %v", err)
					}
					e.s.Note("Close returned")
					return true
				}
				return false
			})
		}))
	}
	if len(e.sc.A["writer"]) > 0 {
		gs = append(gs, e.s.GoIn(e.proc, "writer", func() {
			e.until(func() bool { return ready })
			e.playWriter(ed, nil)
		}))
	}
	e.user(e.sc.A["user"], func(o Op) bool {
		if own == nil {
			return false
		}
		switch o.K {
		case "t":
			own.buf = append(own.buf, o.S...)
			own.wake()
			return true
		case "eof":
			own.eof = true
			own.wake()
			return true
		case "resize":
			return true
		}
		return false
	})
	closed := false
	for a := range e.sc.A {
		if strings.HasPrefix(a, "closer") {
			for _, o := range e.sc.A[a] {
				closed = closed || o.K == "close" || o.K == "term"
			}
		}
	}
	if !closed { // a minimised scenario
		return
	}
	if !e.await(120*time.Second, gs...) {
		e.Violate("hang", "not everything returned within 120 s after Close; results so far: %s; tasks: %s", joinRes(ed.results), e.stuck())
		return
	}
	e.idle()
	// results: some calls as if nothing had been closed, then io.EOF
	k := 0
	for k < len(ed.results) && k < len(m.Results) && same(ed.results[k], m.Results[k]) {
		k++
	}
	e.cases += int64(len(ed.results))
	for i := k; i < len(ed.results); i++ {
		if ed.results[i].Err != "EOF" || ed.results[i].Line != "" {
			e.Violate("close-result", "call %d returned %s; expected first of %s, then EOF for ever; got %s; keys %q", i, ed.results[i], joinRes(m.Results), joinRes(ed.results), typed(e.sc.A["user"]))
			break
		}
	}
	if !e.tty.Restored() {
		e.Violate("close-mode", "after Close and the end of all calls the terminal is not in its original mode")
	}
	if own == nil && !e.tty.Eof {
		before := e.tty.Pending()
		e.tty.Type([]byte("x"))
		e.idle()
		if e.tty.Pending() <= before { // somebody had been reading
			e.tty.Type([]byte("y"))
			e.idle()
			if e.tty.Pending() == 0 {
				e.Violate("close-reads", "after Close keys are still being read again and again")
			}
		}
	}
	if own != nil && !own.closed {
		e.Violate("close-stdin", "Close did not close the input it was given")
	}
	if e.p("capture") == 1 && ed.rl != nil && len(e.viols) == 0 {
		// each signal counts, not only the first one
		for i := 0; i < 3; i++ {
			sig := []os.Signal{syscall.SIGTERM, os.Interrupt}[i%2]
			n := ed.signals
			e.proc.Signal(e.s, sig)
			e.idle()
			e.cases++
			if ed.signals != n+1 {
				e.Violate("signal-unhandled", "%v called the function given to CaptureExitSignal %d times", sig, ed.signals-n)
				return
			}
		}
	}
	if e.p("again") == 1 && e.p("capture") == 0 && len(e.viols) == 0 {
		e.checkLeft()
	}
}

// checkLeft opens and closes another instance: that must not leave more tasks
// than the first one did.
func (e *Env) checkLeft() {
	settle := func() int {
		e.idle()
		e.s.Sleep(5 * time.Second)
		e.idle()
		return len(e.s.Live(e.proc))
	}
	e.tty.EOF(nil) // what waits for a key gets it
	before := settle()
	first := e.s.Live(e.proc)
	started := len(e.s.Tasks())
	g := e.s.GoIn(e.proc, "again", func() {
		rl, err := readline.NewEx(&readline.Config{})
		if err != nil {
			e.Violate("newex", "NewEx failed: %v", err)
			return
		}
		rl.Readline()
		rl.Close()
	})
	if !e.await(20*time.Second, g) {
		e.Violate("hang", "a second instance does not end; tasks: %s", e.stuck())
		return
	}
	e.cases++
	after := settle()
	// a task of a kind that the second instance started and ended must not be
	// left by the first one
	ended := map[string]bool{}
	for i, g := range e.s.Tasks() {
		if i >= started && g.Proc == e.proc {
			ended[g.Name] = true
		}
	}
	for _, g := range e.s.Live(e.proc) {
		if g.ID >= started {
			ended[g.Name] = false
		}
	}
	for _, g := range first {
		if !g.Done() && ended[g.Name] {
			e.Violate("left-behind", "a closed instance left the task %s (%s), which another one ends; tasks: %s", g.Name, g.Why(), e.stuck())
			return
		}
	}
	if after > before {
		e.Violate("left-behind", "%d tasks were left by a closed instance, %d after another one was opened and closed: %s", before, after, e.stuck())
	}
}

func same(a, b Res) bool { return a.Line == b.Line && a.Err == b.Err }
