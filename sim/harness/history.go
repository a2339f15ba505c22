package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
	"verifsim/readline"

	"verifsim/simrt"
)

// sessionScn is the i-th session of a scenario.
func sessionScn(sc *Scn, i int) *Scn {
	sub := *sc
	sub.P, sub.S, sub.A = map[string]int{}, map[string]string{}, map[string][]Op{}
	for k, v := range sc.P {
		sub.P[k] = v
	}
	for k, v := range sc.S {
		sub.S[k] = v
	}
	suf := fmt.Sprint(i)
	for k, v := range sc.P {
		if strings.HasSuffix(k, suf) && len(k) > 1 {
			sub.P[strings.TrimSuffix(k, suf)] = v
		}
	}
	for k, v := range sc.A {
		if strings.HasSuffix(k, suf) {
			sub.A[strings.TrimSuffix(k, suf)] = v
		}
	}
	return &sub
}

func rawLines(text string) []string {
	if text == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
}

func newest(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string([]rune(a[i])) != string([]rune(b[i])) {
			return false
		}
	}
	return true
}

// histModel prepares the model of a session on the files of the disk.
func (e *Env) histModel(files ...string) *Model {
	m := e.modelFor()
	m.Disk, m.Raw = map[string][]string{}, map[string]string{}
	for _, f := range files {
		b, _ := e.fs.Bytes(f)
		m.Disk[f] = entriesOf(string(b))
	}
	m.OpenHist(files[0])
	return m
}

// snapDiff tells how the file is not what s says.
func (e *Env) snapDiff(s Snap) string {
	if s.File == "" {
		return ""
	}
	b, ok := e.fs.Bytes(s.File)
	file := string(b)
	if !ok {
		return "the history file " + s.File + " does not exist"
	}
	if !strings.HasSuffix(file, s.Raw) {
		return fmt.Sprintf("%s holds %q, which does not end with %q", s.File, file, s.Raw)
	}
	if head := file[:len(file)-len(s.Raw)]; s.Raw != "" && head != "" && !strings.HasSuffix(head, "\n") {
		return fmt.Sprintf("%s holds %q: the first new line is glued to the one before it", s.File, file)
	}
	if got := entriesOf(file); !sameLines(got, s.Entries) {
		return fmt.Sprintf("%s holds the entries %q, expected %q", s.File, got, s.Entries)
	}
	return ""
}

// genHistFile draws the content of a history file.
func genHistFile(r *rand.Rand, alpha string) string {
	if chance(r, 0.15) {
		return ""
	}
	s := tornHist(r, histText(r, r.Intn(12), alpha))
	if chance(r, 0.1) {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if chance(r, 0.1) {
		s = " \n\n" + s
	}
	if chance(r, 0.1) {
		// lines which were not typed, or with text from anywhere
		s = pick(r, "a\tb", "\x00a\x00", "a \tb  c", "a\x1b[31mb", "\x7f\x08", "a\rb", wild(r), "x"+wild(r)) + "\n" + s
	}
	if chance(r, 0.03) {
		s = strings.Repeat("long ", 1000+r.Intn(300)) + "\n" + s
	}
	if chance(r, 0.01) {
		// about as many lines as the default limit
		var b strings.Builder
		for i := 480 + r.Intn(50); i > 0; i-- {
			fmt.Fprintf(&b, "%d\n", i)
		}
		s = b.String() + s
	}
	if chance(r, 0.003) {
		s = strings.Repeat("huge", 15000+r.Intn(8000)) + "\n" + s
	}
	return s
}

// noRecall drops the keys that recall entries if one is too long to be drawn.
func noRecall(sc *Scn) {
	if len(sc.S["hist"]) < 60000 && len(sc.S["hist2"]) < 60000 {
		return
	}
	for a, ops := range sc.A {
		if !strings.HasPrefix(a, "user") {
			continue
		}
		var keep []Op
		for _, o := range ops {
			if k := logical(o.S); o.K != "t" || k != "up" && k != "down" {
				keep = append(keep, o)
			}
		}
		sc.A[a] = keep
	}
}

const hf, hf2 = "/home/.hist", "/home/.hist2"

func init() {
	register(&Property{
		ID:   "C08",
		Rule: "Several sessions on the same history files with lines, recalls, interrupts, passwords, saves by the application, by a Listener and by another task, disabling, resetting and switching of files; the file is compared with a reference after every call and recall in the next session with the file.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C08")
			genBase(r, sc, edOpts{})
			sc.S["histfile"] = hf
			sc.S["hist"] = genHistFile(r, "abc ")
			sc.S["hist2"] = genHistFile(r, "xyz")
			n := 1 + r.Intn(3)
			sc.P["sess"] = n
			lim := []int{0, 0, 1, 2, 3, 5, 8}[r.Intn(7)]
			if chance(r, 0.15) {
				sc.P["noautosave"], sc.P["saveall"] = 1, 1
			}
			for i := 0; i < n; i++ {
				suf := fmt.Sprint(i)
				if chance(r, 0.2) {
					lim = []int{0, 1, 2, 3, 5, 8}[r.Intn(6)]
				}
				sc.P["limit"+suf] = lim
				tmp := newScn("C08")
				// one task saves while another one edits
				saver := sc.P["saveall"] == 0 && chance(r, 0.2)
				if !saver {
					kinds := []string{"line", "line", "line", "pass", "slice", "save", "save"}
					if sc.P["saveall"] == 1 {
						kinds = []string{"line", "pass", "slice"}
					} else if chance(r, 0.4) {
						kinds = append(kinds, "hoff", "hon", "reset")
					}
					genCalls(r, tmp, r.Intn(7), kinds...)
					if chance(r, 0.15) {
						// another process adds a line to the file
						at := r.Intn(len(tmp.A["app"]) + 1)
						o := Op{K: "ext", S: pick(r, "other", "a", " b ", "日", randText(r, 20))}
						tmp.A["app"] = append(tmp.A["app"][:at], append([]Op{o}, tmp.A["app"][at:]...)...)
					}
					off := false
					for _, o := range tmp.A["app"] {
						off = off || o.K == "hoff"
					}
					if !off && chance(r, 0.3) {
						at := r.Intn(len(tmp.A["app"]) + 1)
						o := Op{K: "path", S: pick(r, hf2, hf2, hf)}
						tmp.A["app"] = append(tmp.A["app"][:at], append([]Op{o}, tmp.A["app"][at:]...)...)
					}
					for k, o := range tmp.A["app"] {
						if o.K == "save" {
							tmp.A["app"][k].S = pick(r, "", " ", "a", "b", " ab", "c  ", "日本", randText(r, 8), randText(r, 8), "a\tb", wild(r))
						}
					}
					if sc.P["saveall"] == 0 && chance(r, 0.2) {
						sc.P["lsave"+suf] = 1 + r.Intn(12)
					}
				} else {
					for k := 1 + r.Intn(5); k > 0; k-- {
						switch r.Intn(3) {
						case 0:
							tmp.add("saver", Op{K: "ms", N: r.Intn(30)})
						case 1:
							tmp.add("saver", Op{K: "steps", N: 1 + r.Intn(1500)})
						}
						tmp.add("saver", Op{K: "save", S: fmt.Sprintf("S%d-%d", i, k)})
					}
				}
				keys := []string{"enter", "enter", "enter", "ctrl-j", "intr", "up", "up", "up", "down", "left", "backspace127", "kill-front", "yank", "home"}
				if saver {
					keys = []string{"enter", "enter", "enter", "ctrl-j", "intr", "left", "backspace127", "kill-front", "home"}
					if chance(r, 0.5) {
						// recalled meanwhile, so that it is open which lines are submitted
						sc.P["roam"+suf] = 1
						keys = append(keys, "up", "up", "up", "down", "down", "search-back", "search-fwd", "cancel", "end")
					}
				}
				tmp.P["vim"] = 0
				mixKeys(r, tmp, r.Intn(4), 3+r.Intn(40), []float64{0.3, 0.5, 0.7}[r.Intn(3)], textFrom(r, pick(r, "ab 日", "ab 日", "aAb")), keys)
				if i > 0 && !saver && chance(r, 0.7) {
					var us []Op
					for k := r.Intn(14); k > 0; k-- {
						us = append(us, Op{K: "t", S: pick(r, "\x10", "\x10", "\x1b[A", "\x0e")})
					}
					us = append(us, Op{K: "t", S: "\r"})
					tmp.A["user"] = append(us, tmp.A["user"]...)
				}
				for a, ops := range tmp.A {
					sc.A[a+suf] = ops
				}
			}
			noRecall(sc)
			for i := 0; i < n; i++ {
				for _, o := range sc.A[fmt.Sprint("app", i)] {
					if s := sc.S["hist"]; o.K == "ext" && s != "" && !strings.HasSuffix(s, "\n") {
						sc.S["hist"] += "\n"
					}
				}
			}
			return sc
		},
		Run: func(e *Env) {
			all := e.sc
			for i := 0; i < all.P["sess"] && len(e.viols) == 0; i++ {
				e.sc = sessionScn(all, i)
				e.world1()
				if i == 0 {
					if all.S["hist"] != "" {
						e.fs.Put(hf, []byte(all.S["hist"]))
					}
					if all.S["hist2"] != "" {
						e.fs.Put(hf2, []byte(all.S["hist2"]))
					}
				}
				if !e.histSession(i) {
					return
				}
			}
		},
	})
}

// histSession plays one session of C08.
func (e *Env) histSession(i int) bool {
	start, _ := e.fs.Bytes(hf)
	m := e.histModel(hf, hf2)
	if n := e.p("lsave"); n > 0 {
		m.LSave = map[int]string{n: fmt.Sprintf("listener %d", i), n + 3: "ab"}
		e.sc.P["listen"] = 1
	}
	ed := &editor{}
	if ops := e.sc.A["saver"]; len(ops) > 0 {
		return e.saverSession(ed, m, string(start))
	}
	ed.after = func(o Op, r Res) {
		e.cases++
		if n := len(ed.results); n <= len(m.Snaps) && len(e.viols) == 0 && n <= len(m.Results) && m.Results[n-1] == r {
			if d := e.snapDiff(m.Snaps[n-1]); d != "" {
				e.Violate("histfile-differs", "when call %d of session %d had returned %v: %s; calls %v, keys %q", n-1, i, r, d, e.sc.A["app"], typed(e.sc.A["user"]))
			}
		}
	}
	if !e.runEditorWith(ed, e.baseConfig(), m) {
		return false
	}
	last := Snap{File: m.File, Raw: m.Raw[m.File], Entries: m.Disk[m.File]}
	if d := e.snapDiff(last); d != "" {
		e.Violate("histfile-differs", "at the end of session %d: %s; calls %v, keys %q", i, d, e.sc.A["app"], typed(e.sc.A["user"]))
		return false
	}
	return true
}

// saverSession is a session in which another task saves lines.
func (e *Env) saverSession(ed *editor, m *Model, start string) bool {
	want := []string{}
	fail := false
	ready := false
	ed.e = e
	cfg := e.baseConfig()
	ed.onReady = func() { ready = true }
	g := e.s.GoIn(e.proc, "saver", func() {
		e.until(func() bool { return ready })
		e.user(e.sc.A["saver"], func(o Op) bool {
			if o.K != "save" {
				return false
			}
			if err := ed.rl.SaveHistory(o.S); err != nil {
				e.Violate("save-error", "SaveHistory(%q) returned %v", o.S, err)
			}
			want = append(want, o.S)
			b, _ := e.fs.Bytes(hf)
			if !fail && !strings.Contains("\n"+string(b), "\n"+o.S+"\n") {
				fail = true
				e.Violate("save-missing", "SaveHistory(%q) has returned but the file holds %q", o.S, b)
			}
			return true
		})
	})
	if e.p("roam") == 1 {
		return e.roam(ed, cfg, g, m.Limit, start, &want)
	}
	ed.beforeEnd = func() { e.await(20*time.Second, g) }
	if !e.runEditorWith(ed, cfg, m) {
		return false
	}
	b, _ := e.fs.Bytes(hf)
	lines := rawLines(string(b))
	base := entriesOf(start)
	lim := m.Limit
	// the start of the file: as it was, or cut
	n := 0
	for ; n < len(lines) && !strings.HasPrefix(lines[n], "S"); n++ {
	}
	var mine, saved []string
	head := rawLines(start)
	k := len(head)
	if len(head) > lim {
		head = newest(base, lim)
		k = len(head)
	}
	if len(lines) < k {
		e.Violate("histfile-differs", "the file holds %q, it started with %q", lines, start)
		return false
	}
	for j, l := range lines {
		switch {
		case j < k:
			if strings.TrimSpace(l) != strings.TrimSpace(head[j]) {
				e.Violate("histfile-differs", "the file holds %q, it started with %q", lines, start)
				return false
			}
		case strings.HasPrefix(l, "S"):
			saved = append(saved, l)
		default:
			if len(mine) == 0 || mine[len(mine)-1] != l {
				mine = append(mine, l)
			}
		}
	}
	wl := rawLines(m.Raw[hf])
	var exp []string
	for _, l := range wl {
		if len(exp) == 0 || exp[len(exp)-1] != l {
			exp = append(exp, l)
		}
	}
	// a first line equal to the last entry of the file is recorded only if a
	// saved line came between
	if len(mine) == len(exp)+1 && len(base) > 0 && mine[0] == base[len(base)-1] {
		mine = mine[1:]
	}
	if !sameLines(saved, want) || !sameLines(mine, exp) {
		e.Violate("histfile-differs", "the file holds the saved lines %q and the submitted lines %q, expected %q and %q", saved, mine, want, exp)
		return false
	}
	return true
}

// roam plays a session in which entries are recalled and searched while
// another task saves lines; what is submitted is open, but the file and what
// can be recalled must hold exactly what was submitted and saved.
func (e *Env) roam(ed *editor, cfg *readline.Config, saver *simrt.G, limit int, start string, saved *[]string) bool {
	var shown string
	cfg.SetListener(func(line []rune, pos int, key rune) ([]rune, int, bool) {
		shown = string(line)
		return nil, 0, false
	})
	ed.maxRes = len(e.sc.A["user"]) + 3
	e.startEditorIn(ed, cfg)
	e.user(e.sc.A["user"], nil)
	if !e.await(20*time.Second, saver) {
		e.Violate("hang", "SaveHistory does not return; tasks: %s", e.stuck())
		return false
	}
	e.idle()
	e.tty.Type([]byte("\r"))
	e.idle()
	b, _ := e.fs.Bytes(hf)
	lines := rawLines(string(b))
	head := rawLines(start)
	entries := entriesOf(start)
	if len(head) > limit {
		entries = newest(entries, limit)
		head = entries
	}
	if len(lines) < len(head) {
		e.Violate("histfile-differs", "the file holds %q, it started with %q", lines, start)
		return false
	}
	own := lines[len(head):]
	var typed []string
	for _, r := range ed.results {
		if r.Err == "" && r.Line != "" {
			typed = append(typed, r.Line)
		}
	}
	last := ""
	if len(entries) > 0 {
		last = entries[len(entries)-1]
	}
	e.cases++
	if !shuffled(own, typed, *saved, last) {
		e.Violate("histfile-differs", "the file holds %q after what it started with, submitted were %q, saved %q", own, typed, *saved)
		return false
	}
	entries = newest(append(append([]string{}, entries...), own...), limit)
	for i := len(entries) - 1; i >= 0; i-- {
		e.tty.Type([]byte("\x10"))
		e.idle()
		e.cases++
		if shown != entries[i] {
			e.Violate("recall-differs", "Up number %d shows %q, expected %q; the file holds %q, submitted were %q, saved %q", len(entries)-i, shown, entries[i], lines, typed, *saved)
			return false
		}
	}
	e.tty.Type([]byte("\x10"))
	e.idle()
	if len(entries) > 0 && shown != entries[0] {
		e.Violate("recall-differs", "Up at the oldest entry shows %q, expected %q", shown, entries[0])
		return false
	}
	return ed.finish()
}

// shuffled tells whether own is made of a and b, each in its order, where a line
// equal to the one before it (last before the first) is left out.
func shuffled(own, a, b []string, last string) bool {
	type state struct{ f, i, j int }
	seen := map[state]bool{}
	var try func(s state) bool
	try = func(s state) bool {
		if s.f == len(own) && s.i == len(a) && s.j == len(b) {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		prev := last
		if s.f > 0 {
			prev = own[s.f-1]
		}
		step := func(l string, i, j int) bool {
			if l == prev && l != "" {
				return try(state{s.f, i, j})
			}
			return s.f < len(own) && own[s.f] == l && try(state{s.f + 1, i, j})
		}
		return s.i < len(a) && step(a[s.i], s.i+1, s.j) || s.j < len(b) && step(b[s.j], s.i, s.j+1)
	}
	return try(state{})
}

// ---------------------------------------------------------------- C09

var fsFaults = []string{"open-err", "fwrite-eio", "fwrite-enospc", "rename-err", "remove-err", "fclose-err", "fread-err", "fsync-err"}

func (e *Env) fsFired() int64 {
	var n int64
	for _, f := range fsFaults {
		n += e.s.Fired[f]
	}
	return n
}

func init() {
	register(&Property{
		ID:   "C09",
		Rule: "Sessions on one history file which are killed before, in the middle of or after any file operation or at any other instant, or meet disk errors and a full disk; the file found by the next session is compared with what had been acknowledged, and a last session reads and extends it.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C09")
			genBase(r, sc, edOpts{})
			delete(sc.Faults, "eintr")
			sc.S["histfile"] = hf
			sc.S["hist"] = genHistFile(r, "abc ")
			n := 2 + r.Intn(3)
			sc.P["sess"] = n
			lim := []int{0, 0, 1, 2, 3, 5, 8}[r.Intn(7)]
			if chance(r, 0.6) {
				for i := 1 + r.Intn(3); i > 0; i-- {
					sc.Faults[fsFaults[r.Intn(len(fsFaults))]] = []float64{0.02, 0.1, 0.3, 0.6}[r.Intn(4)]
				}
				if chance(r, 0.3) {
					sc.Faults["fread-short"] = 0.5
				}
			}
			for i := 0; i < n; i++ {
				suf := fmt.Sprint(i)
				if chance(r, 0.3) {
					lim = []int{0, 1, 2, 3, 5, 8}[r.Intn(6)]
				}
				sc.P["limit"+suf] = lim
				tmp := newScn("C09")
				genCalls(r, tmp, r.Intn(5), "line", "line", "slice", "pass", "save")
				keys := []string{"enter", "enter", "enter", "ctrl-j", "intr", "left", "kill-front", "home", "yank"}
				if sc.Faults["open-err"] == 0 && sc.Faults["fread-err"] == 0 || i == n-1 {
					keys = append(keys, "up", "up", "up", "down")
				}
				mixKeys(r, tmp, r.Intn(4), 3+r.Intn(30), []float64{0.4, 0.6, 0.8}[r.Intn(3)], textFrom(r, "ab 日"), keys)
				if i == n-1 {
					var us []Op
					for k := r.Intn(14); k > 0; k-- {
						us = append(us, Op{K: "t", S: pick(r, "\x10", "\x10", "\x10", "\x0e")})
					}
					us = append(us, Op{K: "t", S: "\r"})
					tmp.A["user"] = append(us, tmp.A["user"]...)
				} else if chance(r, 0.6) {
					if chance(r, 0.7) {
						sc.P["crashat"+suf] = 1 + r.Intn(10)
						sc.P["crashmode"+suf] = r.Intn(3)
						sc.P["crashfrac"+suf] = r.Intn(50)
					} else {
						at := r.Intn(len(tmp.A["user"]) + 1)
						ops := append([]Op{}, tmp.A["user"][:at]...)
						ops = append(ops, Op{K: "steps", N: r.Intn(400)}, Op{K: "kill"})
						tmp.A["user"] = append(ops, tmp.A["user"][at:]...)
					}
				}
				for a, ops := range tmp.A {
					sc.A[a+suf] = ops
				}
			}
			noRecall(sc)
			return sc
		},
		Run: func(e *Env) {
			all := e.sc
			for i := 0; i < all.P["sess"] && len(e.viols) == 0; i++ {
				e.sc = sessionScn(all, i)
				if i == all.P["sess"]-1 {
					e.s.StopFaults()
				}
				e.world1()
				if i == 0 && all.S["hist"] != "" {
					e.fs.Put(hf, []byte(all.S["hist"]))
				}
				if !e.crashSession(i) {
					return
				}
			}
		},
	})
}

func (e *Env) crashSession(i int) bool {
	startB, _ := e.fs.Bytes(hf)
	start := string(startB)
	m := e.histModel(hf)
	ed := &editor{}
	e.fs.Crashed = false
	e.fs.CrashAt = 0
	if n := e.p("crashat"); n > 0 {
		e.fs.CrashAt = e.fs.MutOps() + int64(n)
		e.fs.CrashMode, e.fs.CrashFrac = e.p("crashmode"), e.p("crashfrac")
	}
	fired := []int64{e.fsFired()}
	openFired, readFired := e.s.Fired["open-err"], e.s.Fired["fread-err"]
	ed.after = func(o Op, r Res) { fired = append(fired, e.fsFired()) }
	ed.mayDie = true
	proc := e.proc
	ok := e.runEditorWith(ed, e.baseConfig(), m)
	if !ok {
		return false
	}
	e.fs.CrashAt = 0
	dead := proc.Dead
	// results of the calls that returned
	for k, r := range ed.results {
		if k >= len(m.Results) || m.Results[k] != r {
			e.Violate("result-differs", "call %d of session %d returned %s, expected one of %s; keys %q", k, i, r, joinRes(m.Results), typed(e.sc.A["user"]))
			return false
		}
	}
	noFile := e.s.Fired["open-err"] > openFired
	// which of the lines had been acknowledged, and which met a disk error
	lines := m.Appended
	acked := 0
	faulted := make([]bool, len(lines))
	prev := 0
	for k := range ed.results {
		n := m.Snaps[k].Appended
		for j := prev; j < n && j < len(lines); j++ {
			faulted[j] = fired[k+1] > fired[k] || noFile
		}
		prev = n
		acked = n
	}
	if !dead {
		acked = len(lines)
	}
	for j := prev; j < len(lines); j++ {
		faulted[j] = true
	}
	b, _ := e.fs.Bytes(hf)
	file := rawLines(string(b))
	base := rawLines(start)
	cut := newest(entriesOf(start), m.Limit)
	e.cases++
	if holdsLines(file, base, lines, acked, faulted) {
		return true
	}
	if len(base) > m.Limit && holdsLines(file, cut, lines, acked, faulted) {
		return true
	}
	if e.s.Fired["fread-err"] > readFired && m.First != "" {
		// it is not known what the session saw as the last entry
		if len(lines) > 0 {
			faulted[0] = true
		}
		l2, f2 := append([]string{m.First}, lines...), append([]bool{true}, faulted...)
		if holdsLines(file, base, l2, acked+1, f2) {
			return true
		}
	}
	e.Violate("history-lost", "session %d (killed: %v) started with the file %q; its calls returned %s, %d of its lines %q were acknowledged (disk error at: %v); now the file holds %q, limit %d", i, dead, start, joinRes(ed.results), acked, lines, faulted, b, m.Limit)
	return false
}

// holdsLines tells whether file is base followed by lines: the first acked of
// them whole unless a disk error hit them, then possibly some more, the last of
// which may be torn.
func holdsLines(file, base, lines []string, acked int, faulted []bool) bool {
	if len(file) < len(base) {
		return false
	}
	for i, l := range base {
		if !sameLines([]string{strings.TrimSpace(file[i])}, []string{strings.TrimSpace(l)}) {
			return false
		}
	}
	file = file[len(base):]
	var match func(p, i int) bool
	match = func(p, i int) bool {
		for p < len(file) && file[p] == "" {
			p++
		}
		if i == len(lines) {
			return p == len(file)
		}
		if p < len(file) && file[p] == lines[i] && match(p+1, i+1) {
			return true
		}
		if i >= acked && p == len(file) {
			return true
		}
		if i >= acked && p == len(file)-1 && strings.HasPrefix(lines[i], file[p]) {
			return true
		}
		if faulted[i] {
			if match(p, i+1) {
				return true
			}
			if p < len(file) && strings.HasPrefix(lines[i], file[p]) && match(p+1, i+1) {
				return true
			}
		}
		return false
	}
	return match(0, 0)
}

var _ = simrt.HarnessError
