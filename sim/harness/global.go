package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verifsim/readline"
)

func init() {
	register(&Property{
		ID:   "C24",
		Rule: "Applications of one or two processes call Line, Password, AddHistory, SetHistoryPath and SetAutoComplete in any order, some with a second task that adds to the history, while lines are edited, recalled, searched and completed; results, history files, screen and terminal modes are compared with the reference of one shared instance.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C24")
			genScreen(r, sc, edOpts{})
			delete(sc.P, "painter")
			delete(sc.P, "unique")
			delete(sc.S, "prompt")
			for i := 0; i < 3; i++ {
				if chance(r, 0.7) {
					sc.S[fmt.Sprint("file", i)] = tornHist(r, histText(r, r.Intn(12), "abc "))
				}
			}
			if chance(r, 0.6) {
				genWords(r, sc)
				sc.P["fixedh"] = 300
			}
			sess := 1 + r.Intn(2)
			sc.P["sess"] = sess
			for i := 0; i < sess; i++ {
				tmp := newScn("C24")
				racer := chance(r, 0.25)
				if racer && chance(r, 0.7) {
					tmp.add("app", Op{K: "path", S: hist3(r)})
				}
				for k := r.Intn(12); k > 0; k-- {
					switch r.Intn(8) {
					case 0:
						if !racer {
							tmp.add("app", Op{K: "path", S: hist3(r)})
						}
					case 1:
						if !racer {
							tmp.add("app", Op{K: "comp", N: r.Intn(2)})
						}
					case 2, 3:
						if !racer {
							tmp.add("app", Op{K: "save", S: pick(r, "", " ", "a", "ab", " b", "日本", randText(r, 8))})
						}
					case 4:
						if racer {
							// what is added during a password call belongs to it
							break
						}
						tmp.add("app", Op{K: "pass", S: pick(r, "pw: ", "", "日本: ")})
					default:
						tmp.add("app", Op{K: "line", S: pick(r, "> ", "> ", "", "\x1b[1m$\x1b[0m ", "日> ")})
					}
				}
				keys := []string{"enter", "enter", "enter", "ctrl-j", "intr", "left", "backspace127", "kill-front", "yank", "home", "del"}
				if racer {
					for k := 1 + r.Intn(5); k > 0; k-- {
						switch r.Intn(3) {
						case 0:
							tmp.add("racer", Op{K: "ms", N: r.Intn(30)})
						case 1:
							tmp.add("racer", Op{K: "steps", N: 1 + r.Intn(1500)})
						}
						tmp.add("racer", Op{K: "save", S: fmt.Sprintf("R%d-%d", i, k)})
					}
				} else {
					keys = append(keys, "up", "up", "up", "down", "search-back", "tab", "tab", "suspend")
				}
				mixKeys(r, tmp, r.Intn(4), 3+r.Intn(40), []float64{0.3, 0.5, 0.7}[r.Intn(3)], textFrom(r, "ab 日"), keys)
				if !racer {
					addChecks(r, tmp, []float64{0.05, 0.3}[r.Intn(2)], nil)
				}
				for a, ops := range tmp.A {
					sc.A[a+fmt.Sprint(i)] = ops
				}
			}
			return sc
		},
		Run: func(e *Env) {
			all := e.sc
			for i := 0; i < all.P["sess"] && len(e.viols) == 0; i++ {
				e.sc = sessionScn(all, i)
				e.world1()
				e.proc.ResumeIn = 10 * time.Millisecond
				if i == 0 {
					for k := 0; k < 3; k++ {
						if s, ok := all.S[fmt.Sprint("file", k)]; ok {
							e.fs.Put(fmt.Sprint("/home/.h", k), []byte(s))
						}
					}
				}
				if !e.globalSession(i) {
					return
				}
			}
		},
	})
}

func hist3(r *rand.Rand) string {
	return pick(r, "/home/.h0", "/home/.h0", "/home/.h1", "/home/.h2", "")
}

// globalSession is a process that uses the package-level functions.
func (e *Env) globalSession(i int) bool {
	e.sc.P["noautosave"] = 1
	prep := func(m *Model) {
		m.Disk, m.Raw = map[string][]string{}, map[string]string{}
		for k := 0; k < 3; k++ {
			f := fmt.Sprint("/home/.h", k)
			b, _ := e.fs.Bytes(f)
			m.Disk[f] = entriesOf(string(b))
		}
		m.Custom = func(o Op) bool {
			switch o.K {
			case "line":
				m.Prompt = o.S
			case "comp":
				m.TabInsert, m.Comp = true, nil
				if l := e.list(o.N); l != nil {
					m.TabInsert = false
					m.Comp = func(line []rune, pos int) ([][]rune, int) { return wordCands(l, e.str("tail"), 0, line, pos) }
				}
				return true
			}
			return false
		}
	}
	ed := &editor{e: e, global: true}
	var ms []*Model
	file := ""
	ed.custom = func(o Op) bool {
		r := Res{Op: o.K}
		var err error
		switch o.K {
		case "line":
			ed.inCall, ed.reading = true, true
			r.Line, err = readline.Line(o.S)
		case "pass":
			ed.inCall, ed.reading = true, true
			var b []byte
			b, err = readline.Password(o.S)
			r.Line = string(b)
		case "save":
			if err := readline.AddHistory(o.S); err != nil {
				e.Violate("add-error", "AddHistory(%q) returned %v", o.S, err)
			}
			return true
		case "path":
			if file != "" && len(e.sc.A["racer"]) > 0 {
				return true
			}
			file = o.S
			readline.SetHistoryPath(o.S)
			return true
		case "comp":
			if l := e.list(o.N); l != nil {
				readline.SetAutoComplete(&words{e: e, list: l, tail: e.str("tail")})
			} else {
				readline.SetAutoComplete(&readline.TabCompleter{})
			}
			return true
		default:
			return false
		}
		ed.inCall, ed.reading = false, false
		r.Err = errStr(err)
		ed.results = append(ed.results, r)
		e.s.Note("call %v", r)
		if !e.tty.Restored() {
			e.Violate("mode-after-call", "after %v the terminal is not in the mode it had before the first call", r)
		}
		m := ms[0]
		if n := len(ed.results); len(e.sc.A["racer"]) == 0 && n <= len(m.Snaps) && len(e.viols) == 0 && n <= len(m.Results) && m.Results[n-1] == r {
			e.cases++
			if d := e.snapDiff(m.Snaps[n-1]); d != "" {
				e.Violate("histfile-differs", "when call %d of session %d had returned %v: %s; calls %v, keys %q", n-1, i, r, d, e.sc.A["app"], typed(e.sc.A["user"]))
			}
		}
		return true
	}
	var added []string
	if ops := e.sc.A["racer"]; len(ops) > 0 {
		ed.onReady = func() {
			// the first call of the application sets the file
			if app := e.sc.A["app"]; len(app) > 0 && app[0].K == "path" {
				ed.call(app[0])
			}
			ed.extra = append(ed.extra, e.s.GoIn(e.proc, "racer", func() {
				e.user(ops, func(o Op) bool {
					if o.K != "save" {
						return false
					}
					if err := readline.AddHistory(o.S); err != nil {
						e.Violate("add-error", "AddHistory(%q) returned %v", o.S, err)
					}
					added = append(added, o.S)
					return true
				})
			}))
		}
	}
	cfg := &readline.Config{}
	racer := len(e.sc.A["racer"]) > 0
	starts := map[string]string{}
	for k := 0; k < 3; k++ {
		f := fmt.Sprint("/home/.h", k)
		b, _ := e.fs.Bytes(f)
		starts[f] = string(b)
	}
	if racer {
		// what the other task adds can appear anywhere, so nothing is recalled
		m := e.modelFor()
		ms = append(ms, m)
		prep(m)
		if !e.runEditorWith(ed, cfg, m) {
			return false
		}
		if file == "" {
			return true
		}
		e.cases++
		b, _ := e.fs.Bytes(file)
		if d := histDiff(starts[file], 500, added, string(b)); d != "" {
			e.Violate("histfile-differs", "session %d: %s; file %q", i, d, b)
			return false
		}
		return true
	}
	e.runScreen(ed, cfg, func(m *Model) {
		ms = append(ms, m)
		prep(m)
	})
	if len(e.viols) > 0 || !ed.ok {
		return false
	}
	m := ms[0]
	for f, es := range m.Disk {
		if f == "" || starts[f] == "" && len(es) == 0 {
			continue
		}
		s := Snap{File: f, Raw: m.Raw[f], Entries: es}
		if d := e.snapDiff(s); d != "" {
			e.Violate("histfile-differs", "at the end of session %d: %s; calls %v, keys %q", i, d, e.sc.A["app"], typed(e.sc.A["user"]))
			return false
		}
	}
	return true
}

// list is the n-th word list of a scenario.
func (e *Env) list(n int) []string {
	if e.str("words") == "" || n == 0 {
		return nil
	}
	return strings.Split(e.str("words"), ",")
}
