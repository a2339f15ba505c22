package main

import (
	"math/rand"
	"strings"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// Screen is the reference of what the terminal must show: the text of
// finished lines and of other output, followed by the prompt and the line
// being edited. It is the terminal emulator fed with nothing but that text.
type Screen struct {
	e         *Env
	m         *Model // goes through the keys as they are typed
	committed string
	base      int // lines before this one are not compared
	unique    bool
	paint     func(string) string
	checks    int
	pending   []*wrote // writes of the application the reference does not have yet
	all       []*wrote // all of them
	tall      bool     // the line was higher than the window at some time
	hidden    bool     // the application took the line off the screen
	asked     []*asked // questions for the place of the cursor
	answers   []string // what the terminal said to them
}

// newScreen attaches a reference screen to an editor; m is a model of its own.
func (e *Env) newScreen(ed *editor, m *Model, paint func(string) string) *Screen {
	sc := &Screen{e: e, m: m, unique: e.p("unique") == 1, paint: paint}
	m.Prompt = e.str("prompt")
	m.Calls = e.sc.A["app"]
	m.Stopped = func() {
		// the shell used the terminal meanwhile
		sc.committed += e.shell
	}
	m.Done = func(how, shown string) {
		sc.commit(how, shown)
	}
	ed.onUser = func(o Op) bool {
		switch o.K {
		case "out", "async":
			sc.write(ed, o)
			return true
		case "t":
			quiet := len(sc.pending) > 0 && !ordinary(logical(o.S))
			if quiet {
				sc.sync(ed)
				defer sc.settle(ed)
			}
			n := m.Hits["clear"]
			m.Key(logical(o.S))
			if m.Hits["clear"] != n {
				sc.committed = ""
			}
			if h := (e.tty.W - 1) * (e.tty.H - 4); 2*(len(m.Buf)+len(m.Prompt)) > h && simW(sc.line(m.visible())) > h {
				sc.tall = true
			}
			if quiet {
				e.s.Note("user types %q", o.S)
				e.tty.Type([]byte(o.S))
				return true
			}
			return false
		case "race":
			sc.race(ed, o)
			return true
		case "check":
			sc.sync(ed)
			if ed.app.Done() {
				return true
			}
			sc.check(ed)
			return true
		case "reprompt":
			// the application shows another prompt while a line is edited
			sc.sync(ed)
			m.begin()
			if ed.reading && !ed.app.Done() && !m.search && !m.complete {
				g := e.s.GoIn(e.proc, "reprompt", func() {
					ed.rl.SetPrompt(o.S)
					ed.rl.Refresh()
				})
				if !e.await(time.Second, g) {
					e.Violate("hang", "SetPrompt and Refresh do not return; tasks: %s", e.stuck())
					return true
				}
				m.Prompt = o.S
				e.s.Probe("reprompt")
				e.idle()
				sc.check(ed)
			}
			return true
		case "setbuf":
			// the application replaces the line
			sc.sync(ed)
			if m.SetBuffer(o.S) && ed.rl != nil {
				g := e.s.GoIn(e.proc, "setter", func() { ed.rl.Operation.SetBuffer(o.S) })
				if !e.await(time.Second, g) {
					e.Violate("hang", "SetBuffer does not return; tasks: %s", e.stuck())
					return true
				}
				e.s.Probe("line-set-from-outside")
				sc.sync(ed)
				sc.check(ed)
			}
			return true
		case "clean":
			sc.sync(ed)
			m.begin()
			if ed.reading && !ed.app.Done() && !m.search && !m.complete {
				sc.clean(ed, o)
			}
			return true
		case "offset":
			sc.ask(ed, o)
			return true
		case "early":
			// the window changes while the program starts
			e.s.WaitSteps(int64(o.M))
			w := o.N
			m.begin()
			if sc.oneRow(e.tty.W) && sc.oneRow(w) {
				e.resize(w)
				e.idle()
				sc.base = e.tty.VT.CursorAbs()
				m.Width, e.lastModel.Width = w, w
				if m.pw != nil {
					m.pw.Width = w
				}
				e.s.Probe("early-resize")
				e.cases++
			}
			return true
		case "rebase":
			// the window changes while the line takes one row
			e.idle()
			sc.sync(ed)
			m.begin()
			w := o.N
			if !ed.app.Done() && sc.oneRow(e.tty.W) && sc.oneRow(w) && !m.search && !m.complete {
				sc.check(ed)
				e.resize(w)
				e.idle()
				sc.base = e.tty.VT.CursorAbs()
				sc.committed = ""
				m.Width = w
				if m.pw != nil {
					m.pw.Width = w
				}
				e.cases++
			}
			return true
		}
		return false
	}
	return sc
}

// race types keys that end calls while another task writes: what it writes
// must be before or after each of the lines, never within one.
func (sc *Screen) race(ed *editor, o Op) {
	e, m := sc.e, sc.m
	sc.sync(ed)
	m.begin()
	if ed.rl == nil || ed.app.Done() || m.search || m.complete || m.pw != nil || len(e.viols) > 0 {
		for _, k := range raceKeys(o) {
			m.Key(logical(k))
			e.s.Note("user types %q", k)
			e.tty.Type([]byte(k))
		}
		return
	}
	w := &wrote{who: 1000 + len(sc.all), text: o.S, sink: sc.sink(o.N)}
	sc.all = append(sc.all, w)
	w.g = e.s.GoIn(e.proc, "writer", func() {
		e.s.WaitSteps(int64(1 + o.M))
		w.n, w.err = ed.target(o.N).Write([]byte(w.text))
		w.done = true
	})
	at := []int{len(sc.committed)}
	for _, k := range raceKeys(o) {
		m.Key(logical(k))
		e.s.Note("user types %q", k)
		e.tty.Type([]byte(k))
		at = append(at, len(sc.committed))
	}
	if !e.await(time.Second, w.g) {
		e.Violate("write-hang", "a Write of %q does not return; tasks: %s", clipText(w.text), e.stuck())
		return
	}
	e.idle()
	e.s.Probe("write-races-with-enter")
	if w.sink {
		sc.check(ed)
		return
	}
	all := sc.committed
	for _, p := range at {
		sc.committed = all[:p] + w.text + all[p:]
		if wl, gl := sc.lines(ed); strings.Join(wl, "\n") == strings.Join(gl, "\n") {
			break
		}
	}
	sc.check(ed)
}

// clean has the application take the line off the screen and put it back with
// Refresh or with output.
func (sc *Screen) clean(ed *editor, o Op) {
	e := sc.e
	do := func(f func()) {
		if g := e.s.GoIn(e.proc, "cleaner", f); !e.await(time.Second, g) {
			e.Violate("hang", "Clean, or what redraws the line after it, does not return; tasks: %s", e.stuck())
		}
		e.idle()
		sc.check(ed)
	}
	e.s.Probe("line-cleaned")
	sc.hidden = true
	do(ed.rl.Clean)
	if o.N%3 == 2 {
		do(ed.rl.Clean)
	}
	sc.hidden = false
	if o.N%2 == 1 {
		sc.output(o.S)
		do(func() { ed.rl.Stdout().Write([]byte(o.S)) })
	} else {
		do(ed.rl.Refresh)
	}
}

// home notices that the screen was cleared.
func (sc *Screen) home() {
	e := sc.e
	if e.tty.VT.Home >= 0 {
		sc.base = e.tty.VT.Home
		e.tty.VT.Home = -1
		e.s.Probe("screen-cleared")
	}
}

// lines are the rows that should be there and those that are.
func (sc *Screen) lines(ed *editor) (wl, gl []string) {
	sc.m.begin()
	sc.home()
	full := sc.line(sc.m.visible())
	if !ed.inCall || sc.hidden {
		full = ""
	}
	wl, gl = sc.ref(full).Lines(), sc.e.tty.VT.Lines()
	if sc.base > len(gl) {
		return wl, nil
	}
	return wl, gl[sc.base:]
}

// sink tells whether a target is not the terminal.
func (sc *Screen) sink(n int) bool { return n%3 == 1 && sc.e.p("errsink") == 1 }

func (sc *Screen) line(shown string) string {
	s := shown
	if sc.paint != nil && sc.m.pw == nil {
		s = sc.paint(s)
	}
	return sc.m.Prompt + strings.ReplaceAll(s, "\t", "    ")
}

func (sc *Screen) oneRow(w int) bool {
	return simW(sc.line(sc.m.visible())) < w-2
}

// simW is the number of columns of a text without control sequences.
func simW(s string) int {
	vt := simrt.NewVT(5000, 50)
	vt.Feed([]byte(s), true)
	return vt.R*5000 + vt.C
}

func (sc *Screen) commit(how, shown string) {
	pass := sc.m.pw != nil
	switch how {
	case "enter":
		if !sc.unique || pass {
			sc.committed += sc.line(shown) + "\n"
		}
	case "intr":
		if !sc.unique || pass {
			if pass {
				// the end of the line is masked as well
				sc.committed += sc.line(shown) + "\n"
			} else {
				sc.committed += sc.m.Prompt + strings.ReplaceAll(sc.painted(shown+"^C"), "\t", "    ") + "\n"
			}
		}
	case "eof":
		if !sc.unique || pass {
			if pass {
				sc.committed += sc.line(shown) + "\n"
			} else {
				sc.committed += sc.m.Prompt + sc.painted("^D") + "\n"
			}
		}
	}
}

func (sc *Screen) painted(s string) string {
	if sc.paint != nil {
		return sc.paint(s)
	}
	return s
}

// output tells the reference about text the application wrote.
func (sc *Screen) output(s string) { sc.committed += s }

// ref is the reference terminal with the given line.
func (sc *Screen) ref(line string) *simrt.VT {
	vt := simrt.NewVT(sc.e.tty.W, sc.e.tty.H)
	vt.Feed([]byte(sc.committed), true)
	vt.Feed([]byte(line), true)
	return vt
}

func cursorOf(vt *simrt.VT) (int, int) {
	if vt.Pending {
		return vt.CursorAbs() + 1, 0
	}
	return vt.CursorAbs(), vt.C
}

// check compares the screen with the reference; everything is at rest.
func (sc *Screen) check(ed *editor) {
	e, m := sc.e, sc.m
	if len(e.viols) > 0 || sc.tall {
		return
	}
	m.begin()
	if v := m.visible(); m.search && sc.paint != nil && sc.painted(string(v)) != string(v) {
		return // the match is underlined as it is, not as it is painted
	}
	e.cases++
	sc.checks++
	sc.home()
	shown := []rune(m.visible())
	full := sc.line(string(shown))
	off := !ed.inCall || sc.hidden
	if off {
		full = ""
		shown = nil
	}
	want := sc.ref(full)
	got := e.tty.VT
	wl := want.Lines()
	gl := got.Lines()
	if sc.base < len(gl) {
		gl = gl[sc.base:]
	} else {
		gl = nil
	}
	mode := m.search || m.complete
	if mode {
		e.s.Probe("screen-in-mode")
		// the menu or the search line is below the line
		r := want.CursorAbs()
		n := r + 1
		if len(gl) > n {
			gl = gl[:n]
		}
		for len(gl) > 0 && gl[len(gl)-1] == "" {
			gl = gl[:len(gl)-1]
		}
	}
	e.s.Note("screen check: %q", wl)
	if ed.reading && !e.tty.Raw() {
		e.Violate("not-raw", "the terminal is not in raw mode while a line is read")
		return
	}
	if !ed.reading && !e.tty.Restored() {
		e.Violate("raw", "the terminal is still in raw mode although no line is read")
		return
	}
	// the cursor
	pos := m.Pos
	if off {
		pos = 0
	}
	var at string
	if !off {
		at = sc.lineUpTo(shown, pos)
	}
	cv := sc.ref(at)
	wr, wc := cursorOf(cv)
	gr, gc := cursorOf(got)
	gr -= sc.base
	curOK := wr == gr && wc == gc
	if !curOK && pos < len(shown) {
		// a wide character that does not fit in the rest of the row
		w := simrt.RuneWidth(shown[pos])
		if w == 2 && cv.C == e.tty.W-1 && !cv.Pending && gr == cv.CursorAbs()+1 && gc == 0 {
			curOK = true
		}
	}
	if strings.Join(wl, "\n") != strings.Join(gl, "\n") {
		d := 0
		for d < len(wl) && d < len(gl) && wl[d] == gl[d] {
			d++
		}
		e.Violate("screen", "width %d: the screen shows %q, expected %q (first difference in row %d; prompt %q, line %q, cursor %d, search %v, menu %v)", e.tty.W, tail(gl, d), tail(wl, d), d, m.Prompt, string(shown), pos, m.search, m.complete)
		return
	}
	if !curOK {
		e.Violate("cursor", "width %d: the cursor is in row %d column %d, expected row %d column %d (prompt %q, line %q, cursor %d, search %v, menu %v)", e.tty.W, gr, gc, wr, wc, m.Prompt, string(shown), pos, m.search, m.complete)
	}
	// a vi command redraws the line alone
	if m.complete && curOK && !m.Vim {
		row, _ := cursorOf(want)
		sc.checkMenu(row)
	}
	if m.search && curOK && !m.Vim {
		sc.checkSearch(want)
	}
	sc.checkAnswers(ed)
	if len(got.Unknown) > 0 {
		e.Violate("unknown-sequence", "control sequences no terminal understands were written: %q", got.Unknown)
	}
}

// checkSearch looks for what is searched below the line.
func (sc *Screen) checkSearch(want *simrt.VT) {
	e := sc.e
	row, _ := cursorOf(want)
	lines := e.tty.VT.Lines()
	below := ""
	for r := sc.base + row + 1; r < len(lines); r++ {
		below += lines[r]
	}
	sq := func(s string) string {
		return strings.Map(func(c rune) rune {
			if c == ' ' || simrt.RuneWidth(c) == 0 {
				return -1
			}
			return c
		}, s)
	}
	e.cases++
	dir := "bck"
	if sc.m.sdir == 1 {
		dir = "fwd"
	}
	want1 := dir + "-i-search:" + sq(string(sc.m.sdata))
	if fail := strings.HasSuffix(sq(below), "failing"+want1); !strings.HasSuffix(sq(below), want1) || fail != sc.m.sfail {
		e.Violate("search-line", "width %d: below the line is %q, expected the search for %q (%s), which fails: %v", e.tty.W, below, string(sc.m.sdata), dir, sc.m.sfail)
	}
}

func (sc *Screen) lineUpTo(shown []rune, pos int) string {
	s := string(shown)
	if sc.paint != nil && sc.m.pw == nil {
		s = sc.paint(s)
	}
	// painting keeps the visible characters one to one
	if pos < len(shown) {
		s = string([]rune(plain(s))[:pos])
	}
	return sc.m.Prompt + strings.ReplaceAll(s, "\t", "    ")
}

// plain removes colour sequences.
func plain(s string) string {
	var b strings.Builder
	in := false
	for _, c := range s {
		switch {
		case c == 27:
			in = true
		case in:
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				in = false
			}
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func tail(l []string, d int) []string {
	if d > 2 {
		l = l[d-2:]
	}
	if len(l) > 12 {
		l = l[:12]
	}
	return l
}

// painters an application may install.
type painter func(string) string

func (p painter) Paint(line []rune, pos int) []rune { return []rune(p(string(line))) }

var painters = map[int]func(string) string{
	1: func(s string) string {
		return strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' {
				return r - 32
			}
			return r
		}, s)
	},
	2: func(s string) string { return strings.ReplaceAll(s, "a", "\x1b[31ma\x1b[0m") },
}

var multiPrompts = []string{"two\nrows> ", "\n> "}

// genScreen draws the configuration of a screen scenario.
func genScreen(r *rand.Rand, sc *Scn, o edOpts) {
	genBase(r, sc, o)
	delete(sc.P, "notty")
	delete(sc.A, "writer")
	sc.P["fixedw"] = []int{80, 80, 40, 20, 10, 5, 3, 2}[r.Intn(8)]
	if chance(r, 0.3) {
		sc.P["fixedw"] = 2 + r.Intn(30)
	}
	sc.P["fixedh"] = 24
	if sc.P["fixedw"] < 24 {
		sc.P["fixedh"] = 300
	}
	if chance(r, 0.1) {
		sc.S["prompt"] = multiPrompts[r.Intn(len(multiPrompts))]
	}
	if chance(r, 0.15) {
		sc.P["painter"] = 1 + r.Intn(2)
	}
}

// addChecks puts checks of the screen into the user's script.
func addChecks(r *rand.Rand, sc *Scn, p float64, allowed func(i int) bool) {
	var out []Op
	for i, o := range sc.A["user"] {
		out = append(out, o)
		if o.K == "t" && chance(r, p) && (allowed == nil || allowed(i)) {
			out = append(out, Op{K: "check"})
		}
	}
	sc.A["user"] = append(out, Op{K: "check"})
}

// runScreen plays an editor scenario with a reference screen.
func (e *Env) runScreen(ed *editor, cfg *readline.Config, both func(*Model)) *Screen {
	m := e.modelFor()
	m2 := e.modelFor()
	for _, x := range []*Model{m, m2} {
		if both != nil {
			both(x)
		}
	}
	if e.str("histfile") != "" {
		m2.Load([]byte(e.str("hist")))
	}
	if p := painters[e.p("painter")]; p != nil {
		cfg.SetPainter(painter(p))
	}
	sc := e.newScreen(ed, m2, painters[e.p("painter")])
	e.lastModel = m
	ed.ok = e.runEditorWith(ed, cfg, m)
	sc.atEnd(ed)
	return sc
}

// atEnd looks at the screen after the end of the input and what the application
// wrote then.
func (sc *Screen) atEnd(ed *editor) {
	e, m := sc.e, sc.m
	if !ed.ok || !ed.closed || len(e.viols) > 0 || len(sc.pending) > 0 || m.Broken {
		return
	}
	m.End()
	if ed.bye != nil {
		sc.output(e.str("bye"))
	}
	ed.inCall, ed.reading = false, false
	m.search, m.complete = false, false
	sc.check(ed)
	e.s.Probe("screen-at-the-end")
}

func init() {
	register(&Property{
		ID:   "C14",
		Rule: "Random editing, recall, search, completion, password and vi sessions at every window width, with prompts and lines wider than the window; whenever the program is at rest the terminal emulator's screen and cursor are compared with those of an emulator fed with nothing but the finished lines, the prompt and the line.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C14")
			genScreen(r, sc, edOpts{})
			if chance(r, 0.15) {
				sc.P["vim"] = 1
			}
			alpha := []string{"ab ", "ab -", "aé日本 .x", "日本", "a🍷́ "}[r.Intn(5)]
			if chance(r, 0.5) {
				sc.S["histfile"] = "/home/.hist"
				n := r.Intn(6)
				var b strings.Builder
				for i := 0; i < n; i++ {
					a := []rune(alpha)
					for j := r.Intn([]int{6, 40, 100}[r.Intn(3)]); j >= 0; j-- {
						b.WriteRune(a[r.Intn(len(a))])
					}
					b.WriteByte('\n')
				}
				sc.S["hist"] = b.String()
			}
			if chance(r, 0.4) {
				genWords(r, sc)
				sc.P["fixedh"] = 300
			}
			for i := r.Intn(5); i > 0; i-- {
				if chance(r, 0.15) {
					sc.add("app", Op{K: "refresh"})
				}
				switch r.Intn(6) {
				case 0:
					sc.add("app", Op{K: "prompt", S: append(prompts, multiPrompts...)[r.Intn(len(prompts)+len(multiPrompts))]})
					sc.add("app", Op{K: "line"})
				case 1:
					sc.add("app", Op{K: "pass", S: "pw: "})
				case 2:
					sc.add("app", Op{K: "passmask", S: "pw: ", N: []int{'*', '#', '日'}[r.Intn(3)]})
				case 3:
					sc.add("app", Op{K: "default", S: randText(r, r.Intn(30))})
				default:
					sc.add("app", Op{K: "line"})
				}
			}
			keys := append([]string{}, editKeys...)
			switch r.Intn(4) {
			case 0:
				keys = append(keys, "up", "up", "up", "down", "search-back", "search-back", "search-fwd")
			case 1:
				keys = append(keys, "tab", "tab", "tab", "tab", "down", "up")
			case 2:
				keys = append(keys, "up", "tab", "search-back", "search-fwd", "suspend")
			}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc", "esc", "esc")
			}
			for _, k := range keys {
				if strings.HasPrefix(k, "search") {
					// what was found is marked in its own characters
					delete(sc.P, "painter")
				}
			}
			mixKeys(r, sc, r.Intn(4), 3+r.Intn(60), []float64{0.3, 0.5, 0.7, 0.9}[r.Intn(4)], textFrom(r, alpha), keys)
			addChecks(r, sc, []float64{0.05, 0.2, 1}[r.Intn(3)], nil)
			if chance(r, 0.1) {
				sc.A["user"] = append([]Op{{K: "early", N: 2 + r.Intn(90), M: r.Intn(300)}}, sc.A["user"]...)
			} else if chance(r, 0.2) {
				u := sc.A["user"]
				i := r.Intn(len(u))
				op := Op{K: "rebase", N: 2 + r.Intn(90)}
				switch r.Intn(3) {
				case 0:
					op = Op{K: "clean", N: r.Intn(6), S: outText(r, 98) + "\n"}
				case 1:
					op = Op{K: "reprompt", S: append(prompts, multiPrompts...)[r.Intn(len(prompts)+len(multiPrompts))]}
				}
				sc.A["user"] = append(append(append([]Op{}, u[:i]...), op), u[i:]...)
			}
			if sc.P["vim"] == 0 && chance(r, 0.15) {
				// the application replaces the line while it is edited
				text := textFrom(r, alpha)
				for k := 1 + r.Intn(3); k > 0; k-- {
					s := ""
					for n := r.Intn([]int{4, 40}[r.Intn(2)]); n > 0; n-- {
						s += text()
					}
					u := sc.A["user"]
					i := r.Intn(len(u) + 1)
					sc.A["user"] = append(append(append([]Op{}, u[:i]...), Op{K: "setbuf", S: s}), u[i:]...)
				}
			}
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			ed := &editor{}
			cfg := e.baseConfig()
			e.runScreen(ed, cfg, func(m *Model) { e.completer(cfg, m) })
		},
	})
}
