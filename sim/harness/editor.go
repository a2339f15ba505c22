package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"
	"unicode"

	"verifsim/readline"
	"verifsim/simrt"
)

// modelWidth is the documented width rule of the editor: tab 4, control,
// format and combining characters 0, Han, Hangul and kana 2, the rest 1.
func modelWidth(r rune) int {
	if r == '\t' {
		return 4
	}
	return simrt.RuneWidth(r)
}

var prompts = []string{"> ", "", "$ ", "\x1b[31m>>\x1b[0m ", "日本> ", "very long prompt for a narrow window: ", "\x1b[1;32muser@host\x1b[0m:~ ",
	"\x1b[38;5;208m❯\x1b[0m ", "\x1b[1;38;2;100;200;255mname\x1b[0m "}

// edOpts selects what an editor scenario may contain.
type edOpts struct {
	style   int  // pacing style, -1 random
	resize  bool // window size changes
	writers bool // concurrent output
	hist    bool // initial history file
}

// genBase draws the configuration every editor scenario has.
func genBase(r *rand.Rand, sc *Scn, o edOpts) {
	sc.P["fixedw"] = []int{80, 80, 80, 40, 20, 120, 10, 5, 3}[r.Intn(9)]
	if chance(r, 0.1) {
		sc.P["fixedw"] = 1 + r.Intn(130)
	}
	if chance(r, 0.05) {
		sc.P["fixedw"] = 100 + r.Intn(300)
	}
	sc.P["fixedh"] = 24
	sc.S["prompt"] = prompts[r.Intn(len(prompts))]
	if chance(r, 0.5) {
		sc.S["prompt"] = "> "
	}
	if chance(r, 0.03) {
		sc.S["prompt"] = ""
		for i := r.Intn(5); i >= 0; i-- {
			sc.S["prompt"] += pick(r, "\x1b[7m", "\x1b[0m", "\x1b[48;2;255;255;255m", "") + randText(r, r.Intn(40)) + pick(r, "", "\x1b[m", " ")
		}
	}
	if chance(r, 0.1) {
		sc.P["notty"] = 1
	}
	if chance(r, 0.05) {
		sc.P["prior"] = 1
	}
	if chance(r, 0.04) {
		sc.P["outfile"] = 1
	}
	if chance(r, 0.1) {
		sc.P["unique"] = 1
	}
	if chance(r, 0.5) {
		sc.Faults["short-read"] = []float64{0.1, 0.5, 0.9}[r.Intn(3)]
	}
	if chance(r, 0.3) {
		sc.Faults["eintr"] = []float64{0.05, 0.2}[r.Intn(2)]
		sc.P["eintrn"] = r.Intn(2)
	}
	if o.writers && chance(r, 0.4) {
		for i := 1 + r.Intn(5); i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				sc.add("writer", Op{K: "idle"})
			case 1:
				sc.add("writer", Op{K: "steps", N: 1 + r.Intn(2000)})
			case 2:
				sc.add("writer", Op{K: "ms", N: r.Intn(20)})
			}
			sc.add("writer", Op{K: "w", S: randText(r, 1+r.Intn(30)) + "\n"})
		}
	}
}

// world1 builds the terminal, file system and process of an editor scenario.
func (e *Env) world1() {
	w, h := e.p("fixedw"), e.p("fixedh")
	if w == 0 {
		w = 80
	}
	if h == 0 {
		h = 24
	}
	if e.p("high") == 1 {
		h = 1500
	}
	if e.fs == nil {
		e.world(w, h)
	} else {
		// a new process on the same machine
		if e.proc != nil && !e.proc.Dead {
			e.s.KillProc(e.proc)
		}
		for _, f := range simrt.Resets {
			f()
		}
		e.tty = simrt.NewTTY(e.s, w, h)
		e.proc = e.s.NewProc("app", e.tty, e.fs, e.net)
	}
	if e.p("notty") == 1 {
		e.tty.IsTTY = false
	}
	if e.outfile() {
		e.tty.File[1] = true
	}
	e.tty.EintrN = e.p("eintrn") == 1
	if e.p("remote") == 1 {
		e.remoteWorld()
	}
}

// outfile tells whether the standard output of the application is a file, so
// that it uses its standard error to talk to the user.
func (e *Env) outfile() bool {
	return e.p("outfile") == 1 && e.p("remote") == 0 && e.p("errsink") == 0 && e.sc.Prop != "C24" && e.sc.Prop != "C20"
}

// baseConfig is the library configuration of an editor scenario.
func (e *Env) baseConfig() *readline.Config {
	cfg := &readline.Config{
		Prompt:                 e.str("prompt"),
		UniqueEditLine:         e.p("unique") == 1,
		VimMode:                e.p("vim") == 1,
		HistorySearchFold:      e.p("fold") == 1,
		DisableAutoSaveHistory: e.p("noautosave") == 1,
		HistoryLimit:           e.p("limit"),
		ForceUseInteractive:    e.p("force") == 1,
	}
	if e.str("histfile") != "" {
		cfg.HistoryFile = e.str("histfile")
	}
	if e.outfile() {
		cfg.Stdout = readline.Stderr
	}
	return cfg
}

// modelFor is the reference editor of an editor scenario.
func (e *Env) modelFor() *Model {
	m := newModel()
	m.Fold = e.p("fold") == 1
	m.Vim = e.p("vim") == 1
	m.NoSave = e.p("noautosave") == 1
	m.AppSaves = e.p("saveall") == 1
	m.Width = e.tty.W
	if !e.tty.IsTTY {
		m.Width = -1 // not known
	}
	if l := e.p("limit"); l != 0 {
		m.Limit = l
	}
	return m
}

// playWriter plays the concurrent output script.
func (e *Env) playWriter(ed *editor, wrote *[]string) {
	out := ed.rl.Stdout()
	for _, o := range e.sc.A["writer"] {
		switch o.K {
		case "w":
			n, err := out.Write([]byte(o.S))
			if ed.closing && e.cli != nil {
				return // the connection may be gone
			}
			if wrote != nil {
				*wrote = append(*wrote, o.S)
			}
			if n != len(o.S) || err != nil {
				if e.sc.Faults["out-err"] == 0 && e.sc.Faults["out-short"] == 0 {
					e.Violate("write-result", "Stdout().Write(%q) returned %d, %v", o.S, n, err)
				}
			}
		case "idle":
			e.s.WaitIdle()
		case "steps":
			e.s.WaitSteps(int64(o.N))
		case "ms":
			e.s.Sleep(time.Duration(o.N) * time.Millisecond)
		}
	}
}

// editor is one editor session: an application calling Readline until the end
// of input.
type editor struct {
	e          *Env
	rl         *readline.Instance
	app, wr    *simrt.G
	results    []Res
	closed     bool
	closing    bool // Close was called
	closeEr    error
	events     []event
	maxRes     int
	starts     int           // reads the Listener was told of
	onReady    func()        // called when the instance exists
	beforeEnd  func()        // called before the input ends
	extra      []*simrt.G    // further tasks that must finish
	mayDie     bool          // the process may be killed
	after      func(Op, Res) // called when a call returned
	watch      func(rune)    // called for every key before the editor acts on it
	inCall     bool          // a call is in progress
	reading    bool          // it is one that reads
	ok         bool
	onUser     func(Op) bool // plays additional operations of the user script
	bye        func()        // called after the last call, before Close
	passCfg    *readline.Config
	held       []held        // results the application keeps
	passEvents []event       // what the Listener of a password call saw
	custom     func(Op) bool // makes further calls of the application
	global     bool          // it uses the package-level functions
	signals    int           // that asked it to exit
}

// held is a result in a form that could change later.
type held struct {
	runes []rune
	bytes []byte
	was   string
}

type event struct {
	line string
	pos  int
	key  rune
	cfg  int // the configuration whose callback it was
}

func (v event) String() string {
	s := fmt.Sprintf("%q@%d/%d", v.line, v.pos, v.key)
	if v.cfg != 0 {
		s += fmt.Sprintf("(configuration %d)", v.cfg)
	}
	return s
}

// startEditorIn runs the application of an editor scenario.
func (e *Env) startEditorIn(ed *editor, cfg *readline.Config) {
	ed.e = e
	if ed.maxRes == 0 {
		ed.maxRes = 10000
	}
	ready := false
	ed.app = e.s.GoIn(e.proc, "app", func() {
		if !ed.global {
			rl, err := e.open(cfg)
			if err != nil {
				e.Violate("newex", "NewEx failed: %v", err)
				return
			}
			ed.rl = rl
		}
		ready = true
		if ed.onReady != nil {
			ed.onReady()
		}
		calls := e.sc.A["app"]
		for i := 0; len(ed.results) < ed.maxRes; i++ {
			o := Op{K: "line"}
			if i < len(calls) {
				o = calls[i]
			}
			ed.call(o)
		}
		if ed.bye != nil {
			ed.bye()
		}
		if ed.rl != nil {
			ed.closing = true
			ed.closeEr = ed.rl.Close()
		}
		ed.closed = true
		if e.svrConn != nil {
			e.svrConn.Close()
		}
	})
	e.startClient(ed)
	if len(e.sc.A["writer"]) > 0 {
		ed.wr = e.s.GoIn(e.proc, "writer", func() {
			e.until(func() bool { return ready })
			e.playWriter(ed, nil)
		})
	}
}

// call makes one call of the application.
func (ed *editor) call(o Op) {
	e, rl := ed.e, ed.rl
	var line string
	var err error
	if ed.custom != nil && ed.custom(o) {
		return
	}
	ed.inCall = true
	switch o.K {
	case "line", "slice", "linefn", "runes", "default", "pass", "passex", "passmask", "passre":
		ed.reading = true
	}
	defer func() { ed.inCall, ed.reading = false, false }()
	switch o.K {
	case "line":
		line, err = rl.Readline()
	case "slice":
		var b []byte
		b, err = rl.ReadSlice()
		line = string(b)
		ed.held = append(ed.held, held{bytes: b, was: line})
	case "linefn":
		r := rl.Line()
		line, err = r.Line, r.Error
		if r.CanContinue() != (line != "" && err == readline.ErrInterrupt) || r.CanBreak() != (err != nil && !r.CanContinue()) {
			e.Violate("result-flags", "Line() = %q, %v has CanContinue %v and CanBreak %v", line, err, r.CanContinue(), r.CanBreak())
		}
	case "runes":
		var r []rune
		r, err = rl.Operation.Runes()
		line = string(r)
		ed.held = append(ed.held, held{runes: r, was: line})
	case "default":
		line, err = rl.ReadlineWithDefault(o.S)
	case "prefill":
		b := []byte(o.S)
		if n, werr := rl.WriteStdin(b); n != len(o.S) || werr != nil {
			e.Violate("prefill-result", "WriteStdin(%q) returned %d, %v", o.S, n, werr)
		}
		scribble(b)
		line, err = rl.Readline()
	case "pass":
		var b []byte
		b, err = rl.ReadPassword(o.S)
		line = string(b)
	case "passex":
		var b []byte
		b, err = rl.ReadPasswordEx(o.S, readline.FuncListener(func(l []rune, pos int, key rune) ([]rune, int, bool) {
			if l == nil && pos == 0 && key == 0 {
				return nil, 0, false
			}
			ed.passEvents = append(ed.passEvents, event{string(l), pos, key, 0})
			return nil, 0, false
		}))
		line = string(b)
	case "passmask", "passre":
		var b []byte
		c := rl.GenPasswordConfig()
		if o.K == "passre" {
			// one configuration for all of them
			if ed.passCfg == nil {
				ed.passCfg = c
			}
			c = ed.passCfg
		}
		c.Prompt, c.MaskRune = o.S, rune(o.N)
		b, err = rl.ReadPasswordWithConfig(c)
		line = string(b)
	case "fill":
		for b := []byte(o.S); len(b) > 0; {
			k := len(b)
			if o.N > 0 && o.N < k && len(b) < 200 {
				k = o.N
			}
			if n, werr := rl.WriteStdin(b[:k]); n != k || werr != nil {
				e.Violate("prefill-result", "WriteStdin(%q) returned %d, %v", b[:k], n, werr)
			}
			scribble(b[:k])
			b = b[k:]
		}
		return
	case "save":
		rl.SaveHistory(o.S)
		return
	case "path":
		rl.SetHistoryPath(o.S)
		return
	case "reset":
		rl.ResetHistory()
		return
	case "ext":
		e.s.Note("another process writes %q", o.S)
		e.fs.Append(hf, []byte(o.S+"\n"))
		return
	case "hoff":
		rl.HistoryDisable()
		return
	case "hon":
		rl.HistoryEnable()
		return
	case "prompt":
		rl.SetPrompt(o.S)
		return
	case "refresh":
		// no line is read, so there is nothing to draw
		n := len(e.tty.Output())
		rl.Refresh()
		// from a remote server more may be on its way
		if b := e.tty.Output(); strings.ReplaceAll(string(b[n:]), "\x1b[6n", "") != "" && e.p("remote") == 0 {
			e.Violate("drawn", "Refresh while no line is read wrote %q", b[n:])
		}
		return
	case "allow":
		e.fs.Deny = ""
		e.s.Probe("history-opened-late")
		return
	case "newcfg":
		rl.SetConfig(e.baseConfig())
		return
	case "idle":
		e.s.WaitIdle()
		return
	case "ms":
		e.s.Sleep(time.Duration(o.N) * time.Millisecond)
		return
	case "steps":
		e.s.WaitSteps(int64(o.N))
		return
	default:
		simrt.HarnessError("unknown call %q", o.K)
	}
	r := Res{o.K, line, errStr(err)}
	ed.results = append(ed.results, r)
	e.s.Note("call %v", r)
	if e.p("noautosave") == 1 && e.p("saveall") == 1 && err == nil && !strings.HasPrefix(o.K, "pass") {
		rl.SaveHistory(line)
	}
	if ed.after != nil {
		ed.after(o, r)
	}
}

// scribble reuses a buffer the library was given.
func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// finish ends the input, waits for the application and reports a hang.
func (ed *editor) finish() bool {
	e := ed.e
	e.s.Note("user: end of input")
	if e.p("eoferr") == 1 {
		e.tty.EOF(&os.PathError{Op: "read", Path: "/dev/stdin", Err: syscall.EIO})
	} else {
		e.tty.EOF(nil)
	}
	gs := append([]*simrt.G{ed.app}, ed.extra...)
	if ed.wr != nil {
		gs = append(gs, ed.wr)
	}
	if !e.await(20*time.Second, gs...) {
		e.Violate("hang", "the application did not finish within 20 s of simulated time after the end of input; results so far: %s; tasks: %s", joinRes(ed.results), e.stuck())
		return false
	}
	e.idle()
	for _, h := range ed.held {
		if s := string(h.runes) + string(h.bytes); s != h.was {
			e.Violate("result-changed", "a call returned %q, which later became %q", h.was, s)
			break
		}
	}
	return true
}

// typed is the list of keys typed in a script.
func typed(ops []Op) []string {
	var out []string
	for _, o := range ops {
		if o.K == "t" {
			out = append(out, o.S)
		}
		if o.K == "race" {
			out = append(out, raceKeys(o)...)
		}
	}
	return out
}

// raceKeys are the keys a "race" operation types.
func raceKeys(o Op) []string {
	var out []string
	for i := 0; i <= o.M%3; i++ {
		k := "\r"
		if o.M%7 == i {
			k = "\x03"
		}
		out = append(out, k)
	}
	return out
}

// compareResults compares the results of the calls with the model.
func (ed *editor) compareResults(m *Model) {
	e := ed.e
	e.cases += int64(len(m.Results))
	for i := 0; i < len(m.Results) || i < len(ed.results); i++ {
		switch {
		case i >= len(ed.results):
			e.Violate("result-missing", "call %d should return %s but never happened; got %s; keys %q", i, m.Results[i], joinRes(ed.results), typed(e.sc.A["user"]))
			return
		case i >= len(m.Results):
			e.Violate("result-extra", "call %d returned %s, expected no further result after %s; keys %q", i, ed.results[i], joinRes(m.Results), typed(e.sc.A["user"]))
			return
		case m.Results[i] != ed.results[i]:
			e.Violate("result-differs", "call %d returned %s, expected %s (all expected: %s; all got: %s); keys %q", i, ed.results[i], m.Results[i], joinRes(m.Results), joinRes(ed.results), typed(e.sc.A["user"]))
			return
		}
	}
}

// compareEvents compares what the Listener saw with the model.
func (ed *editor) compareEvents(m *Model) {
	e := ed.e
	e.cases += int64(len(m.Events))
	for i := 0; i < len(m.Events) || i < len(ed.events); i++ {
		if i >= len(ed.events) || i >= len(m.Events) || m.Events[i] != ed.events[i] {
			get := func(x []event) string {
				if i < len(x) {
					return x[i].String()
				}
				return "nothing"
			}
			e.Violate("listener-differs", "key %d: the Listener saw line@cursor/key %s, expected %s; keys %q", i, get(ed.events), get(m.Events), typed(e.sc.A["user"]))
			return
		}
	}
}

// runEditor plays an editor scenario and compares results with the model.
func (e *Env) runEditor(cfg *readline.Config, m *Model) *editor {
	ed := &editor{}
	e.runEditorWith(ed, cfg, m)
	return ed
}

func (e *Env) runEditorWith(ed *editor, cfg *readline.Config, m *Model) bool {
	if f := e.str("histfile"); f != "" && m.Disk == nil {
		e.fs.Put(f, []byte(e.str("hist")))
		if e.p("openfail") == 1 {
			e.fs.Deny, m.LateFile = f, []byte(e.str("hist"))
		} else {
			m.Load([]byte(e.str("hist")))
		}
	}
	m.Calls = e.sc.A["app"]
	for _, o := range e.sc.A["user"] {
		if o.K == "setbuf" {
			m.SetBuffer(o.S)
			continue
		}
		for _, k := range typed([]Op{o}) {
			m.Key(logical(k))
		}
	}
	m.End()
	if m.Broken {
		return false
	}
	// more calls than there are results: they must return io.EOF too
	for n := len(m.Calls) - m.ci; n >= 0; n-- {
		m.result(Res{Err: "EOF"})
	}
	ed.e = e
	ed.maxRes = len(m.Results)
	if e.p("listen") == 1 {
		cfg.SetListener(func(line []rune, pos int, key rune) ([]rune, int, bool) {
			if line == nil && pos == 0 && key == 0 {
				ed.starts++
				return nil, 0, false
			}
			ed.events = append(ed.events, event{string(line), pos, key, 0})
			if l, ok := m.LSave[len(ed.events)]; ok {
				ed.rl.SaveHistory(l)
			}
			return nil, 0, false
		})
	}
	if ed.watch != nil {
		cfg.FuncFilterInputRune = func(r rune) (rune, bool) {
			ed.watch(r)
			return r, true
		}
	}
	e.startEditorIn(ed, cfg)
	e.user(e.sc.A["user"], ed.onUser)
	if e.p("asks") == 1 {
		e.askTerminal(ed)
	}
	if ed.beforeEnd != nil {
		ed.beforeEnd()
	}
	ok := ed.finish()
	if ok && !(ed.mayDie && e.proc.Dead) {
		ed.compareResults(m)
		if e.p("listen") == 1 && len(e.viols) == 0 {
			ed.compareEvents(m)
		}
	}
	for k, n := range m.Hits {
		if n > 0 {
			e.s.Probe("model-" + k)
		}
	}
	return ok && len(e.viols) == 0
}

// printable draws any printable character a keyboard can produce.
func printable(r *rand.Rand) string {
	for {
		var c rune
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			c = rune(0x20 + r.Intn(0x5f))
		case 4, 5:
			c = rune(0xa1 + r.Intn(0x500))
		case 6:
			c = rune(0x3040 + r.Intn(0x7000))
		case 7:
			c = rune(0x1f300 + r.Intn(0x300))
		case 8:
			c = rune(0x300 + r.Intn(0x40))
		default:
			c = rune(0x20 + r.Intn(0x10ffff-0x20))
		}
		if c == 0x7f || c >= 0xd800 && c <= 0xdfff || unicode.IsControl(c) {
			continue
		}
		return string(c)
	}
}

// wild draws an alphabet of a few characters from anywhere.
func wild(r *rand.Rand) string {
	s := pick(r, "a", "a ", "", "aZ _")
	for i := 1 + r.Intn(5); i > 0; i-- {
		s += printable(r)
	}
	return s
}

func genLine(r *rand.Rand, max int) []string {
	n := r.Intn(max + 1)
	var ks []string
	if chance(r, 0.5) {
		return keysOf(randText(r, n))
	}
	for i := 0; i < n; i++ {
		ks = append(ks, printable(r))
	}
	return ks
}

func pickKey(r *rand.Rand, logical string) string {
	v := keyBytes[logical]
	return v[r.Intn(len(v))]
}

// mixKeys appends a random key sequence: text with probability pt, otherwise
// one of the logical keys.
func mixKeys(r *rand.Rand, sc *Scn, style, n int, pt float64, text func() string, logicals []string) {
	burst := -1
	if chance(r, 0.006) && sc.Prop != "C24" {
		burst = r.Intn(n + 1) // somebody pastes a long line
	}
	for i := 0; i < n; i++ {
		if i == burst {
			k := 64 << uint(r.Intn(4))
			k += r.Intn(k)
			switch w := sc.P["fixedw"]; sc.Prop {
			case "C07", "C12", "C13", "C14", "C16", "C22":
				if w == 0 {
					w = 80
				}
				// the line must fit in the window
				if w >= 24 && k > 5*w {
					k = 5 * w
				} else if w > 0 && w < 24 && k > 50*w {
					k = 50 * w
				}
			}
			for ; k > 0; k-- {
				sc.add("user", Op{K: "t", S: text()})
			}
		}
		if chance(r, pt) {
			sc.typeKeys(r, "user", style, text())
			continue
		}
		k := logicals[r.Intn(len(logicals))]
		enc := pickKey(r, k)
		if sc.P["vim"] == 1 {
			// in vi mode Esc is a key of its own, so only single bytes are keys
			if enc = keyBytes[k][0]; len(enc) > 1 {
				continue
			}
		}
		rep := 1
		if (k == "left" || k == "right" || k == "up" || k == "down" || k == "word-back" || k == "backspace127" || k == "ignored") && chance(r, 0.3) {
			rep = 1 + r.Intn(4)
		}
		for ; rep > 0; rep-- {
			sc.typeKeys(r, "user", style, enc)
		}
	}
}

func textFrom(r *rand.Rand, alpha string) func() string {
	a := []rune(alpha)
	return func() string { return string(a[r.Intn(len(a))]) }
}

// longText is a line of n characters without a blank at its ends.
func longText(r *rand.Rand, n int, alpha string) string {
	a := []rune(alpha)
	out := []rune{}
	for len(out) < n {
		out = append(out, a[r.Intn(len(a))])
	}
	return "a" + string(out) + "a"
}

func histText(r *rand.Rand, n int, alpha string) string {
	var b strings.Builder
	a := []rune(alpha)
	for i := 0; i < n; i++ {
		for j := r.Intn(6); j >= 0; j-- {
			b.WriteRune(a[r.Intn(len(a))])
		}
		b.WriteByte('\n')
		if chance(r, 0.03) {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func (e *Env) runModelled() {
	e.world1()
	m := e.modelFor()
	e.runEditor(e.baseConfig(), m)
}
func init() {
	register(&Property{
		ID:   "C01",
		Rule: "Lines of arbitrary characters are typed in arbitrary pieces against an application that calls Readline until end of input, with concurrent output, resizes, short reads and interrupted reads.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C01")
			genBase(r, sc, edOpts{writers: true})
			style := r.Intn(4)
			n := 1 + r.Intn(5)
			if chance(r, 0.3) {
				genCalls(r, sc, 1+r.Intn(5), callKinds...)
			}
			max := []int{4, 12, 30, 90}[r.Intn(4)]
			if chance(r, 0.006) {
				n, max, style = 1+r.Intn(2), 300<<uint(r.Intn(4)), 0
			}
			for i := 0; i < n; i++ {
				ks := genLine(r, max)
				if chance(r, 0.15) {
					// several keys arrive as one chunk
					ks = []string{strings.Join(ks, "")}
					if ks[0] == "" {
						ks = nil
					}
				}
				for _, k := range ks {
					if len([]rune(k)) > 1 {
						for _, c := range k {
							sc.add("user", Op{K: "t", S: string(c)})
						}
						continue
					}
					sc.typeKeys(r, "user", style, k)
					if chance(r, 0.02) {
						sc.add("user", Op{K: "resize", N: 2 + r.Intn(100)})
					}
				}
				if i < n-1 || chance(r, 0.6) {
					sc.typeKeys(r, "user", style, pick(r, "\r", "\r", "\n"))
				}
			}
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			m := e.modelFor()
			ed := e.runEditor(e.baseConfig(), m)
			if ed.closed && ed.closeEr != nil {
				e.Violate("close-error", "Close returned %v", ed.closeEr)
			}
			if !e.tty.Restored() {
				e.Violate("mode", "terminal modes are not restored at the end")
			}
		},
	})
}

var editKeys = []string{"left", "left", "right", "home", "end", "backspace127", "backspace8", "del", "kill", "kill-front", "word-rub", "meta-rub", "yank", "yank",
	"word-back", "word-back", "word-fwd", "word-del", "transpose", "clear", "cancel", "ignored", "enter", "ctrl-j", "intr"}

func init() {
	register(&Property{
		ID:   "C02",
		Rule: "Random texts and editing keys in every encoding are typed; the Listener and the returned lines are compared with a reference editor.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C02")
			genBase(r, sc, edOpts{writers: true})
			if chance(r, 0.8) {
				sc.P["listen"] = 1
			}
			alpha := []string{"ab", "ab -", "aZ09 ._-/", "aé日本 .x", "a🍷́ ", "`az{@AZ[/09: ", "a\u00a0\u3000 _é١", wild(r)}[r.Intn(8)]
			if chance(r, 0.3) {
				genCalls(r, sc, 1+r.Intn(6), append([]string{"default"}, callKinds...)...)
			}
			mixKeys(r, sc, r.Intn(4), 3+r.Intn(60), []float64{0.3, 0.5, 0.7, 0.9}[r.Intn(4)], textFrom(r, alpha), editKeys)
			return sc
		},
		Run: func(e *Env) { e.runModelled() },
	})

	register(&Property{
		ID:   "C10",
		Rule: "Random typing, recall, editing, submitting and interrupting over histories of random size and limit; compared with a reference history.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C10")
			genBase(r, sc, edOpts{})
			sc.P["limit"] = []int{0, 0, 1, 2, 3, 5, -1}[r.Intn(7)]
			if sc.P["limit"] >= 0 && chance(r, 0.6) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(9), "abc ")
			}
			if chance(r, 0.2) {
				sc.P["noautosave"] = 1
				sc.P["saveall"] = 1
			}
			if chance(r, 0.7) {
				sc.P["listen"] = 1
			}
			keys := []string{"up", "up", "up", "down", "down", "enter", "enter", "ctrl-j", "intr", "left", "backspace127", "kill-front", "home", "yank", "word-rub"}
			alpha := "ab"
			if chance(r, 0.15) {
				sc.P["vim"] = 1
				keys = append(keys, "esc", "esc")
				alpha = "abjkjkjkx"
			}
			if chance(r, 0.35) {
				kinds := []string{"line", "line", "runes", "default", "slice"}
				if sc.P["saveall"] == 0 {
					kinds = append(kinds, "save", "save", "reset", "hoff", "hon")
				}
				genCalls(r, sc, 1+r.Intn(8), kinds...)
				for i, o := range sc.A["app"] {
					if o.K == "save" || o.K == "default" {
						sc.A["app"][i].S = pick(r, "a", "b", "ab", "a b", "A", "日")
					}
				}
			}
			if sc.S["histfile"] != "" && chance(r, 0.08) {
				// the file can be opened only after a while
				sc.P["openfail"] = 1
				delete(sc.P, "noautosave")
				delete(sc.P, "saveall")
				sc.A["app"] = nil
				genCalls(r, sc, r.Intn(4), "line", "save", "pass", "default")
				sc.add("app", Op{K: "allow"})
				genCalls(r, sc, r.Intn(3), "line", "save")
				sc.add("app", Op{K: "pass", S: "pw: "})
				genCalls(r, sc, r.Intn(4), "line", "save", "pass", "default")
			}
			if sc.P["vim"] == 0 && chance(r, 0.01) {
				// more entries than the default limit
				sc.P["limit"] = 0
				delete(sc.P, "noautosave")
				delete(sc.P, "saveall")
				delete(sc.S, "histfile")
				sc.A["app"] = nil
				for i := 490 + r.Intn(20); i > 0; i-- {
					sc.add("app", Op{K: "save", S: fmt.Sprint(i)})
				}
				for i := 480 + r.Intn(40); i > 0; i-- {
					sc.add("user", Op{K: "t", S: "\x10"})
				}
			}
			mixKeys(r, sc, r.Intn(4), 5+r.Intn(70), []float64{0.2, 0.4, 0.6}[r.Intn(3)], textFrom(r, pick(r, alpha, alpha, alpha, "a日 ", "aA", "a"+wild(r))), keys)
			return sc
		},
		Run: func(e *Env) { e.runModelled() },
	})

	register(&Property{
		ID:   "C11",
		Rule: "Random histories, search patterns, search keys and continuations; compared with a reference search.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C11")
			genBase(r, sc, edOpts{})
			sc.P["fold"] = r.Intn(2)
			k := r.Intn(4)
			any := "aA" + wild(r)
			hist := []string{"abAB ", "`aAzZ{@[", "a日A本 ", any}[k]
			text := []string{"abA ", "aAzZ@`[{", "日aA", any}[k]
			sc.P["limit"] = []int{0, 0, 2, 5}[r.Intn(4)]
			if chance(r, 0.8) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(9), hist)
			}
			if chance(r, 0.7) {
				sc.P["listen"] = 1
			}
			keys := []string{"search-back", "search-back", "search-back", "search-fwd", "search-fwd", "backspace127", "cancel", "intr", "enter", "up", "down", "left", "right", "home", "end", "kill", "word-rub", "transpose", "del", "yank"}
			if sc.S["hist"] != "" && chance(r, 0.05) {
				// a long pattern that occurs, or nearly
				l := []rune(longText(r, 10+r.Intn(150), hist))
				at := r.Intn(len(l))
				pat := l[at : at+r.Intn(len(l)-at)]
				sc.S["hist"] = string(l) + "\n" + sc.S["hist"]
				style := r.Intn(4)
				sc.typeKeys(r, "user", style, pickKey(r, pick(r, "search-back", "search-fwd", "search-back")))
				for i, c := range pat {
					if chance(r, 0.003) {
						c = l[r.Intn(len(l))]
					}
					if chance(r, 0.003) && i > 0 {
						sc.typeKeys(r, "user", style, pickKey(r, "search-back"))
					}
					sc.typeKeys(r, "user", style, string(c))
				}
				for k := r.Intn(4); k > 0; k-- {
					sc.typeKeys(r, "user", style, pickKey(r, pick(r, "backspace127", "search-back", "search-fwd")))
				}
			}
			if chance(r, 0.25) {
				genCalls(r, sc, 1+r.Intn(6), "line", "line", "default", "runes", "pass", "save")
				for i, o := range sc.A["app"] {
					if o.K == "save" || o.K == "default" {
						sc.A["app"][i].S = textFrom(r, text)() + textFrom(r, text)()
					}
				}
			}
			mixKeys(r, sc, r.Intn(4), 5+r.Intn(60), []float64{0.3, 0.5, 0.6}[r.Intn(3)], textFrom(r, text), keys)
			return sc
		},
		Run: func(e *Env) { e.runModelled() },
	})

	register(&Property{
		ID:   "C23",
		Rule: "Random vi command sequences with operands in both modes; compared with a reference vi editor, then Enter must still submit.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C23")
			genBase(r, sc, edOpts{writers: true})
			sc.P["vim"] = 1
			sc.P["limit"] = []int{0, 0, 2}[r.Intn(3)]
			if chance(r, 0.4) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(5), pick(r, "ab .", "Zz09_ ", "a日é "))
			}
			style := r.Intn(4)
			alpha := pick(r, "ab .x", "ab .x", "aZz09_ ", "a日é ", wild(r))
			cmds := []string{"h", "j", "k", "l", "0", "^", "$", "x", "r", "d", "c", "f", "F", "t", "T", "p", "b", "B", "w", "W", "e", "E", "i", "I", "a", "A", "s", "S", "z", "Q", "5", "%"}
			opers := []string{"d", "w", "h", "l", "c", "a", "b", " ", "\x1b", "z", "日", textFrom(r, alpha)()}
			special := []string{"\r", "\n", "\x03", "\x04", "\t", "\x12", "\x7f", "\x15", "\x0b", "\x19"}
			for n := 3 + r.Intn(50); n > 0; n-- {
				switch r.Intn(12) {
				case 0, 1, 2, 3:
					sc.typeKeys(r, "user", style, textFrom(r, alpha)())
				case 4, 5:
					sc.typeKeys(r, "user", style, "\x1b")
				case 6, 7, 8:
					sc.typeKeys(r, "user", style, cmds[r.Intn(len(cmds))])
				case 9:
					sc.typeKeys(r, "user", style, pick(r, "d", "c", "r", "f", "F", "t", "T"), opers[r.Intn(len(opers))])
				case 10:
					sc.typeKeys(r, "user", style, "\r")
				default:
					sc.typeKeys(r, "user", style, special[r.Intn(len(special))])
				}
			}
			return sc
		},
		Run: func(e *Env) { e.runModelled() },
	})
}
