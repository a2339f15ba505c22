package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"
	"unicode"

	"verifsim/readline"
	"verifsim/simrt"
)

// cfgSpec is one of the configurations an application switches between.
type cfgSpec struct {
	Prompt string `json:"prompt"`
	Words  string `json:"words,omitempty"`
	Tail   string `json:"tail,omitempty"`
	Listen int    `json:"listen,omitempty"`
	Filter []rune `json:"filter,omitempty"` // pairs: key code, what it becomes (0: nothing)
	Vim    bool   `json:"vim,omitempty"`
	Unique bool   `json:"unique,omitempty"`
	Fold   bool   `json:"fold,omitempty"`
	NoSave bool   `json:"nosave,omitempty"`
	Limit  int    `json:"limit,omitempty"`
	File   string `json:"file,omitempty"`
	Hist   string `json:"hist,omitempty"`
	Paint  int    `json:"paint,omitempty"`
	Fresh  bool   `json:"fresh,omitempty"` // not made with Clone
}

// answers of a Listener
const (
	lNone = iota
	lWatch
	lUpper
	lDigits
	lTemplate
	lSame
	lClear
	lKinds
)

var template = append([]rune("help me"), []rune("########")...)

// answer is what a Listener of some kind returns.
func answer(kind int, line []rune, pos int, key rune) ([]rune, int, bool) {
	switch key {
	case 0, 13, 10, 3, 4:
		return nil, 0, false
	}
	switch kind {
	case lUpper:
		out := cp(line)
		same := true
		for i, c := range out {
			out[i] = unicode.ToUpper(c)
			same = same && out[i] == c
		}
		return out, pos, !same
	case lDigits:
		var out []rune
		n := pos
		for i, c := range line {
			if c >= '0' && c <= '9' {
				if i < pos {
					n--
				}
				continue
			}
			out = append(out, c)
		}
		return out, n, len(out) != len(line)
	case lTemplate:
		if key == '?' {
			return []rune("help me"), 4, true
		}
	case lSame:
		return line, pos, true
	case lClear:
		if key == '!' {
			return nil, 0, true
		}
	}
	return nil, 0, false
}

// filter is the input filter of a specification.
func (c *cfgSpec) filter(r rune) (rune, bool) {
	for i := 0; i+1 < len(c.Filter); i += 2 {
		if c.Filter[i] == r {
			return c.Filter[i+1], c.Filter[i+1] != 0
		}
	}
	return r, true
}

// specs are the configurations of a scenario.
func (sc *Scn) specs() []*cfgSpec {
	var out []*cfgSpec
	for i := 0; ; i++ {
		s, ok := sc.S[fmt.Sprint("cfg", i)]
		if !ok {
			return out
		}
		c := new(cfgSpec)
		if err := json.Unmarshal([]byte(s), c); err != nil {
			simrt.HarnessError("configuration %q: %v", s, err)
		}
		out = append(out, c)
	}
}

// cfgState is what the reference keeps for a configuration not in use.
type cfgState struct {
	used     bool
	hist     []string
	edited   map[int][]rune
	cur      int
	off      bool
	vim      bool
	appended []string
}

// configs makes the reference switch between the configurations.
func (m *Model) configs(specs []*cfgSpec) []*cfgState {
	var st []*cfgState
	for _, c := range specs {
		s := &cfgState{edited: map[int][]rune{}, vim: c.Vim}
		st = append(st, s)
	}
	m.StartEvents = true
	save := func() {
		s := st[m.Config]
		s.hist, s.edited, s.cur, s.off, s.vim, s.appended = m.Hist, m.edited, m.Cur, m.Off, m.Vim, m.Appended
	}
	use := func(i int) {
		c, s := specs[i], st[i]
		m.Config = i
		m.Prompt = c.Prompt
		m.Limit = 500
		if c.Limit != 0 {
			m.Limit = c.Limit
		}
		m.Hist, m.edited, m.Cur, m.Off, m.Vim, m.Appended = s.hist, s.edited, s.cur, s.off, s.vim, s.appended
		if !s.used {
			s.used = true
			m.Hist = nil
			m.Load([]byte(c.Hist))
		}
		m.normal, m.pendOp = false, 0
		m.Fold, m.NoSave = c.Fold, c.NoSave
		m.TabInsert, m.Comp = true, nil
		if c.Words != "" {
			list := strings.Split(c.Words, ",")
			m.TabInsert = false
			m.Comp = func(line []rune, pos int) ([][]rune, int) { return wordCands(list, c.Tail, 0, line, pos) }
		}
		m.Listens = c.Listen != lNone
		m.Answer = func(line []rune, pos int, key rune) ([]rune, int, bool) {
			return answer(c.Listen, line, pos, key)
		}
		m.Filter = nil
		if c.Filter != nil {
			m.Filter = c.filter
		}
	}
	use(0)
	m.Custom = func(o Op) bool {
		switch o.K {
		case "setcfg":
			if o.N < len(specs) && o.N != m.Config {
				m.Hits["setcfg"]++
				save()
				use(o.N)
			}
		case "setvim":
			m.Vim, m.normal, m.pendOp = o.N == 1, false, 0
		case "mask", "refresh":
		default:
			return false
		}
		return true
	}
	m.final = save
	return st
}

// cfgPainter changes what is displayed, one kind in place.
type cfgPainter struct{ kind int }

func (p cfgPainter) Paint(line []rune, pos int) []rune {
	switch p.kind {
	case 1:
		for i, c := range line {
			line[i] = unicode.ToUpper(c)
		}
	case 2:
		out := []rune("\x1b[31m")
		return append(append(out, line...), []rune("\x1b[0m")...)
	}
	return line
}

// cbs collects what the callbacks of a session saw.
type cbs struct {
	e         *Env
	events    []event
	filters   []event
	templates [][]rune
	onEvent   func(n int)
}

// build makes the library's configuration of a specification.
func (b *cbs) build(cfg *readline.Config, c *cfgSpec, i int) {
	e := b.e
	cfg.Prompt = c.Prompt
	cfg.UniqueEditLine = c.Unique
	cfg.VimMode = c.Vim
	cfg.HistorySearchFold = c.Fold
	cfg.DisableAutoSaveHistory = c.NoSave
	cfg.HistoryLimit = c.Limit
	clone := i > 0 && !c.Fresh
	if c.Limit == 0 && clone {
		cfg.HistoryLimit = 500 // a clone has the one of the original
	}
	cfg.HistoryFile = c.File
	cfg.AutoComplete = nil
	if c.Words != "" {
		cfg.AutoComplete = &words{e: e, list: strings.Split(c.Words, ","), tail: c.Tail}
	} else if clone {
		cfg.AutoComplete = &readline.TabCompleter{}
	}
	cfg.Listener = nil
	if c.Listen != lNone {
		tmpl := cp(template)
		b.templates = append(b.templates, tmpl)
		cfg.SetListener(func(line []rune, pos int, key rune) ([]rune, int, bool) {
			if line == nil && pos == 0 && key == 0 {
				b.events = append(b.events, event{"<start>", 0, 0, i})
				return nil, 0, false
			}
			b.events = append(b.events, event{string(line), pos, key, i})
			if b.onEvent != nil {
				b.onEvent(len(b.events))
			}
			if c.Listen == lTemplate && key == '?' {
				return tmpl[:7], 4, true
			}
			return answer(c.Listen, line, pos, key)
		})
	}
	cfg.FuncFilterInputRune = nil
	if c.Filter != nil {
		cfg.FuncFilterInputRune = func(r rune) (rune, bool) {
			b.filters = append(b.filters, event{"", 0, r, i})
			return c.filter(r)
		}
	}
	if c.Paint != 0 {
		cfg.Painter = cfgPainter{c.Paint}
	} else if clone {
		cfg.Painter = cfgPainter{}
	}
}

var filterCodes = []rune{'a', 'b', '1', '?', 26, 20, 21, 2, 6, 1, 5, 8, 127, 23, 25, 11, -1, -2, -3, 16, 14, 9, 18, 12, 7}

func genCfg(r *rand.Rand, sc *Scn, i int, async bool) *cfgSpec {
	c := &cfgSpec{Prompt: fmt.Sprintf("%d> ", i)}
	if chance(r, 0.3) {
		c.Prompt = prompts[r.Intn(len(prompts))]
	} else if chance(r, 0.3) {
		c.Prompt = "> "
	}
	if chance(r, 0.7) {
		c.Listen = r.Intn(lKinds)
	}
	c.Unique = chance(r, 0.1)
	c.Limit = []int{0, 0, 3, 500}[r.Intn(4)]
	c.NoSave = chance(r, 0.1)
	c.Fold = chance(r, 0.3)
	c.Paint = []int{0, 0, 0, 1, 2}[r.Intn(5)]
	c.Fresh = i > 0 && chance(r, 0.3)
	if chance(r, 0.4) {
		c.File = fmt.Sprintf("/home/.hist%d", i)
		c.Hist = histText(r, r.Intn(5), "ab ")
	}
	if async {
		if c.Listen > lWatch {
			c.Listen = lWatch
		}
		c.Vim = chance(r, 0.2)
		return c
	}
	if chance(r, 0.3) {
		genWords(r, sc)
		c.Words, c.Tail = sc.S["words"], sc.S["tail"]
		delete(sc.S, "words")
		delete(sc.S, "tail")
	}
	c.Vim = chance(r, 0.25)
	if chance(r, 0.5) {
		c.Filter = []rune{}
		seen := map[rune]bool{}
		for n := r.Intn(6); n > 0; n-- {
			from := filterCodes[r.Intn(len(filterCodes))]
			if seen[from] {
				continue
			}
			seen[from] = true
			to := filterCodes[r.Intn(len(filterCodes))]
			if chance(r, 0.4) {
				to = 0
			}
			if chance(r, 0.1) {
				// a key that may end a call; others cannot be made such keys
				// because the terminal reads on after them
				from = []rune{13, 10, 3, 4}[r.Intn(4)]
				if seen[from] {
					continue
				}
				seen[from] = true
				if chance(r, 0.3) {
					to = []rune{13, 10, 3, 4}[r.Intn(4)]
				}
			}
			c.Filter = append(c.Filter, from, to)
		}
	}
	return c
}

func init() {
	register(&Property{
		ID:   "C22",
		Rule: "Listeners with all kinds of answers, input filters that drop and translate keys, painters, and an application that switches between configurations (cloned and new), vi mode, prompts and masks, between calls and while keys are typed; callbacks, results, what can be recalled and history files are compared with a reference.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C22")
			genBase(r, sc, edOpts{})
			delete(sc.P, "unique")
			async := chance(r, 0.35)
			menus := !async && chance(r, 0.15)
			n := 1 + r.Intn(4)
			var specs []*cfgSpec
			for i := 0; i < n; i++ {
				c := genCfg(r, sc, i, async)
				if menus {
					// a menu for a line that the Listener changes
					c.Listen = []int{lUpper, lDigits, lTemplate, lSame, lClear}[r.Intn(5)]
					c.Filter, c.Paint, c.Vim = nil, 0, false
					genWords(r, sc)
					c.Words, c.Tail = sc.S["words"], sc.S["tail"]
					delete(sc.S, "words")
					delete(sc.S, "tail")
				}
				b, _ := json.Marshal(c)
				sc.S[fmt.Sprint("cfg", i)] = string(b)
				specs = append(specs, c)
			}
			if async {
				genReconf(r, sc, n)
				return sc
			}
			for i := r.Intn(10); i > 0; i-- {
				switch r.Intn(8) {
				case 0, 1, 2:
					sc.add("app", Op{K: "setcfg", N: r.Intn(n)})
				case 3:
					sc.add("app", Op{K: "setvim", N: r.Intn(2)})
				case 4:
					sc.add("app", Op{K: "prompt", S: prompts[r.Intn(len(prompts))]})
				case 5:
					sc.add("app", Op{K: pick(r, "mask", "refresh"), N: '*'})
				case 6:
					sc.add("app", Op{K: pick(r, "hoff", "hon", "save", "reset", "idle"), S: "saved"})
				default:
					genCalls(r, sc, 1, append([]string{"pass", "default"}, callKinds...)...)
				}
			}
			// keys have to mean something in the mode they are typed in
			m := newModel()
			m.Calls = sc.A["app"]
			m.configs(specs)
			style := r.Intn(4)
			keys := append([]string{"enter", "enter", "up", "up", "down", "tab", "search-back", "suspend", "ignored"}, editKeys...)
			if chance(r, 0.3) {
				keys = append(keys, "intr", "del", "tab", "tab")
			}
			text := textFrom(r, "ab 1?!A")
			if menus {
				keys = []string{"tab", "tab", "tab", "tab", "down", "left", "right", "backspace127", "enter", "ignored", "home", "kill-front"}
			}
			pt := []float64{0.3, 0.5, 0.7}[r.Intn(3)]
			for k := 3 + r.Intn(50); k > 0; k-- {
				var b string
				m.begin()
				switch {
				case chance(r, pt):
					b = text()
				case m.Vim && m.pw == nil && chance(r, 0.3):
					b = pick(r, "\x1b", "\x1b", "h", "l", "r", "f", "x", "i", "a", "d", "w", "0", "$", "k", "j", "p")
				default:
					l := keys[r.Intn(len(keys))]
					b = pickKey(r, l)
					if m.Vim {
						if b = keyBytes[l][0]; len(b) > 1 {
							continue
						}
					}
				}
				sc.typeKeys(r, "user", style, b)
				m.Key(logical(b))
			}
			sc.P["resume"] = 10
			if chance(r, 0.4) || menus {
				sc.P["screen"] = 1
				delete(sc.P, "notty")
				delete(sc.A, "writer")
				var app []Op
				for _, o := range sc.A["app"] {
					if o.K != "idle" {
						app = append(app, o)
					}
				}
				sc.A["app"] = app
				sc.P["fixedw"], sc.P["fixedh"] = []int{8, 20, 80}[r.Intn(3)], 300
				addChecks(r, sc, []float64{0.1, 0.4, 1}[r.Intn(3)], nil)
			}
			return sc
		},
		Run: runConfig,
	})
}

// genReconf is the variant where another task or a Listener changes the
// configuration while keys are typed.
func genReconf(r *rand.Rand, sc *Scn, n int) {
	sc.P["async"] = 1
	keys := []string{"left", "right", "home", "end", "backspace127", "kill", "kill-front", "word-rub", "yank", "transpose", "enter"}
	style := r.Intn(4)
	text := textFrom(r, []string{"ab ", "aé日", "日本 x"}[r.Intn(3)])
	for k := 3 + r.Intn(50); k > 0; k-- {
		if chance(r, 0.6) {
			sc.typeKeys(r, "user", style, text())
		} else {
			sc.typeKeys(r, "user", style, keyBytes[keys[r.Intn(len(keys))]][0])
		}
	}
	a := "reconf"
	if chance(r, 0.4) {
		a = "inlistener"
	}
	for k := 1 + r.Intn(8); k > 0; k-- {
		if a == "reconf" {
			sc.add(a, pace(r, r.Intn(4))...)
		}
		switch r.Intn(6) {
		case 0, 1:
			sc.add(a, Op{K: "prompt", S: prompts[r.Intn(len(prompts))], M: r.Intn(20)})
		case 2:
			sc.add(a, Op{K: "refresh", M: r.Intn(20)})
		case 3:
			sc.add(a, Op{K: "mask", N: '*', M: r.Intn(20)})
		case 4:
			sc.add(a, Op{K: "setvim", N: r.Intn(2), M: r.Intn(20)})
		default:
			sc.add(a, Op{K: "setcfg", N: r.Intn(n), M: r.Intn(20)})
		}
	}
}

func runConfig(e *Env) {
	e.world1()
	e.proc.ResumeIn = time.Duration(e.p("resume")) * time.Millisecond
	specs := e.sc.specs()
	if len(specs) == 0 {
		return
	}
	for _, c := range specs {
		if c.File != "" {
			e.fs.Put(c.File, []byte(c.Hist))
		}
	}
	m := e.modelFor()
	st := m.configs(specs)
	async := e.p("async") == 1
	if async {
		m.StartEvents, m.Listens = false, false
	}
	b := &cbs{e: e}
	cfg := e.baseConfig()
	b.build(cfg, specs[0], 0)
	cfgs := []*readline.Config{cfg}
	ed := &editor{}
	cur := 0
	change := func(o Op) bool {
		switch o.K {
		case "setcfg":
			if o.N >= len(cfgs) {
				return true
			}
			old := ed.rl.SetConfig(cfgs[o.N])
			e.cases++
			if old != cfgs[cur] {
				k := -1
				for i, c := range cfgs {
					if c == old {
						k = i
					}
				}
				e.Violate("setconfig-result", "SetConfig(configuration %d) returned configuration %d, the one before was %d", o.N, k, cur)
			}
			cur = o.N
		case "setvim":
			ed.rl.SetVimMode(o.N == 1)
			if ed.rl.IsVimMode() != (o.N == 1) {
				e.Violate("vimmode", "after SetVimMode(%v) IsVimMode is %v", o.N == 1, o.N != 1)
			}
		case "mask":
			ed.rl.SetMaskRune(rune(o.N))
		case "refresh":
			ed.rl.Refresh()
		default:
			return false
		}
		return true
	}
	ed.custom = change
	ed.onReady = func() {
		for i, c := range specs[1:] {
			n := cfg.Clone()
			if c.Fresh {
				n = &readline.Config{Stdin: cfg.Stdin, Stdout: cfg.Stdout, Stderr: cfg.Stderr,
					FuncGetWidth: cfg.FuncGetWidth, FuncIsTerminal: cfg.FuncIsTerminal,
					FuncOnWidthChanged: cfg.FuncOnWidthChanged, ForceUseInteractive: cfg.ForceUseInteractive}
			}
			b.build(n, c, i+1)
			cfgs = append(cfgs, n)
		}
		if ops := e.sc.A["reconf"]; len(ops) > 0 {
			ed.extra = append(ed.extra, e.s.GoIn(e.proc, "reconf", func() {
				e.user(ops, func(o Op) bool {
					if ed.closed || ed.app.Done() {
						return true
					}
					if o.K == "prompt" {
						ed.rl.SetPrompt(o.S)
						return true
					}
					return change(o)
				})
			}))
		}
	}
	if ops := e.sc.A["inlistener"]; len(ops) > 0 {
		b.onEvent = func(n int) {
			for _, o := range ops {
				if o.M != n {
					continue
				}
				if o.K == "prompt" {
					ed.rl.SetPrompt(o.S)
				} else {
					change(o)
				}
			}
		}
	}
	var screen *Screen
	if e.p("screen") == 1 && !async {
		m2 := e.modelFor()
		screen = e.newScreen(ed, m2, nil)
		m2.configs(specs)
		screen.paint = func(s string) string {
			return string(cfgPainter{specs[m2.Config].Paint}.Paint([]rune(s), 0))
		}
		custom := m2.Custom
		m2.Custom = func(o Op) bool {
			ok := custom(o)
			screen.unique = specs[m2.Config].Unique
			return ok
		}
		screen.unique = specs[0].Unique
	}
	ed.ok = e.runEditorWith(ed, cfg, m)
	ok := ed.ok
	if screen != nil {
		screen.atEnd(ed)
	}
	if ed.closed && len(e.viols) == 0 && !e.tty.Restored() {
		e.Violate("raw", "after the end of all calls the terminal is not in its original mode")
		return
	}
	if !ok || async {
		return
	}
	m.final()
	e.cases += int64(len(m.Events) + len(m.FilterCalls))
	compare := func(what string, got, want []event) bool {
		for i := 0; i < len(want) || i < len(got); i++ {
			if i >= len(got) || i >= len(want) || want[i] != got[i] {
				get := func(x []event) string {
					if i < len(x) {
						return x[i].String()
					}
					return "nothing"
				}
				e.Violate(what+"-differs", "call %d of the %s: line@cursor/key %s, expected %s; keys %q", i, what, get(got), get(want), typed(e.sc.A["user"]))
				return false
			}
		}
		return true
	}
	if n := len(m.Events); len(b.events) == n+1 && b.events[n].line == "<start>" {
		// the call after the one that flushed the rest of the input
		b.events = b.events[:n]
	}
	if !compare("listener", b.events, m.Events) || !compare("filter", b.filters, m.FilterCalls) {
		return
	}
	for _, t := range b.templates {
		if string(t) != string(template) {
			e.Violate("answer-changed", "the slice a Listener returned was changed from %q to %q", string(template), string(t))
			return
		}
	}
	for i, c := range specs {
		limit := 500
		if c.Limit != 0 {
			limit = c.Limit
		}
		if c.File == "" || !st[i].used {
			continue
		}
		e.cases++
		f, _ := e.fs.Bytes(c.File)
		if d := histDiff(c.Hist, limit, st[i].appended, string(f)); d != "" {
			e.Violate("histfile-differs", "configuration %d: %s; file %q, at start %q, keys %q", i, d, f, c.Hist, typed(e.sc.A["user"]))
			return
		}
	}
}
