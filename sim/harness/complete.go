package main

import (
	"fmt"
	"math/rand"
	"strings"

	"verifsim/readline"
	"verifsim/simrt"
)

// tree is a completion tree: the names that may follow each other.
type tree struct {
	Name    string
	Kids    []*tree
	Dynamic bool // the names come from a callback
}

func genTree(r *rand.Rand, depth int) []*tree {
	n := r.Intn(5)
	if depth == 0 {
		n = 1 + r.Intn(6)
	}
	var out []*tree
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		a := []rune(pick(r, "ab", "ab", "aé日"))
		s := ""
		for j := 1 + r.Intn(4); j > 0; j-- {
			s += string(a[r.Intn(len(a))])
		}
		if seen[s] {
			continue
		}
		seen[s] = true
		t := &tree{Name: s, Dynamic: chance(r, 0.2)}
		if depth < 2 {
			t.Kids = genTree(r, depth+1)
		}
		out = append(out, t)
	}
	return out
}

func (t *tree) enc() string {
	s := t.Name
	if t.Dynamic {
		s += "!"
	}
	if len(t.Kids) > 0 {
		s += "("
		for _, k := range t.Kids {
			s += k.enc() + ","
		}
		s += ")"
	}
	return s
}

func decTree(s []rune) ([]*tree, []rune) {
	var out []*tree
	for len(s) > 0 && s[0] != ')' {
		t := &tree{}
		for len(s) > 0 && !strings.ContainsRune("(),!", s[0]) {
			t.Name += string(s[0])
			s = s[1:]
		}
		if len(s) > 0 && s[0] == '!' {
			t.Dynamic = true
			s = s[1:]
		}
		if len(s) > 0 && s[0] == '(' {
			t.Kids, s = decTree(s[1:])
			if len(s) > 0 {
				s = s[1:]
			}
		}
		if len(s) > 0 && s[0] == ',' {
			s = s[1:]
		}
		if t.Name != "" {
			out = append(out, t)
		}
	}
	return out, s
}

// items builds the library's completer from the tree; lines collects what the
// dynamic callbacks were given.
func items(ts []*tree, lines *[]string) []readline.PrefixCompleterInterface {
	var out []readline.PrefixCompleterInterface
	for _, t := range ts {
		t := t
		if t.Dynamic {
			out = append(out, readline.PcItemDynamic(func(l string) []string {
				*lines = append(*lines, l)
				return []string{t.Name}
			}, items(t.Kids, lines)...))
		} else {
			out = append(out, readline.PcItem(t.Name, items(t.Kids, lines)...))
		}
	}
	return out
}

// treeCands is the reference: complete words walk down the tree, the names
// below that begin with the unfinished word are offered.
func treeCands(ts []*tree, line []rune, pos int) ([][]rune, int) {
	text := strings.TrimLeft(string(line[:pos]), " ")
	for {
		i := strings.Index(text, " ")
		if i < 0 {
			break
		}
		word := text[:i]
		var next *tree
		for _, t := range ts {
			if t.Name == word {
				next = t
			}
		}
		if next == nil {
			return nil, 0
		}
		ts = next.Kids
		text = strings.TrimLeft(text[i:], " ")
	}
	var out [][]rune
	for _, t := range ts {
		if strings.HasPrefix(t.Name, text) {
			out = append(out, []rune(t.Name[len(text):]+" "))
		}
	}
	return out, len([]rune(text))
}

// segCands is the reference of a segment completer offering the words of list
// in every place.
func segCands(list []string, line []rune, pos int) ([][]rune, int) {
	segs := strings.Split(string(line[:pos]), " ")
	last := segs[len(segs)-1]
	var out [][]rune
	for _, w := range list {
		if strings.HasPrefix(w, last) {
			out = append(out, []rune(w[len(last):]+" "))
		}
	}
	return out, len([]rune(last))
}

// spy records what a completer is asked.
type spy struct {
	in    readline.AutoCompleter
	calls []event
}

func (s *spy) Do(line []rune, pos int) ([][]rune, int) {
	s.calls = append(s.calls, event{string(line), pos, 0, 0})
	keep := string(line)
	c, n := s.in.Do(line, pos)
	_ = keep
	return c, n
}

// menuWalk goes around in menus of several rows.
func menuWalk(r *rand.Rand, sc *Scn) {
	long := 1
	for _, w := range strings.Split(sc.S["words"], ",") {
		if n := strW([]rune(w)) + 2; n > long {
			long = n
		}
	}
	if chance(r, 0.8) {
		sc.P["fixedw"] = long*(1+r.Intn(5)) + r.Intn(3)
		sc.P["fixedh"] = 300
	}
	style := r.Intn(4)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if chance(r, 0.3) {
			sc.typeKeys(r, "user", style, keysOf(pick(r, "a", "b", " ", "a "))...)
		}
		for k := 2 + r.Intn(2); k > 0; k-- {
			sc.typeKeys(r, "user", style, "\t")
		}
		ks := []string{"left", "right", "up", "down", "home", "end", "tab"}
		if chance(r, 0.5) {
			ks = [][]string{{"down", "down", "down", "right"}, {"up", "up", "up", "right", "left"}, {"left", "down"}, {"up", "down", "right"}}[r.Intn(4)]
		}
		for k := r.Intn(30); k > 0; k-- {
			sc.typeKeys(r, "user", style, pickKey(r, pick(r, ks...)))
		}
		sc.typeKeys(r, "user", style, pickKey(r, pick(r, "enter", "enter", "cancel", "backspace127")))
	}
}

func init() {
	register(&Property{
		ID:   "C16",
		Rule: "Random completers (word lists, the library's prefix trees with static and dynamic names, segment completers), lines, cursor positions, widths and key sequences in and out of the menu; questions to the completer, results, Listener events and the screen with its menu are compared with a reference.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C16")
			genScreen(r, sc, edOpts{})
			sc.P["fixedh"] = 300
			delete(sc.P, "painter")
			alpha := "ab "
			switch r.Intn(4) {
			case 0:
				s := ""
				for _, t := range genTree(r, 0) {
					s += t.enc() + ","
				}
				sc.S["tree"] = s
			case 1:
				genWords(r, sc)
				sc.S["segments"] = sc.S["words"]
				delete(sc.S, "words")
				delete(sc.S, "tail")
			default:
				genWords(r, sc)
				if chance(r, 0.05) {
					sc.P["compoff"] = r.Intn(4) - 1
				}
			}
			if chance(r, 0.3) {
				alpha = "aé日 b"
			}
			if chance(r, 0.5) {
				sc.P["listen"] = 1
			}
			if chance(r, 0.3) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(4), "ab ")
			}
			keys := []string{"tab", "tab", "tab", "tab", "tab", "tab", "enter", "ctrl-j", "intr", "cancel", "left", "right", "up", "down", "home", "end", "backspace127", "backspace8", "kill", "kill-front", "del", "word-rub", "yank"}
			if chance(r, 0.3) {
				keys = append(keys, "search-back", "clear", "transpose", "word-back", "meta-rub")
			}
			if sc.S["words"] != "" && chance(r, 0.3) {
				menuWalk(r, sc)
			} else {
				mixKeys(r, sc, r.Intn(4), 3+r.Intn(60), []float64{0.1, 0.3, 0.5}[r.Intn(3)], textFrom(r, alpha), keys)
			}
			addChecks(r, sc, []float64{0.05, 0.2, 1}[r.Intn(3)], nil)
			if chance(r, 0.2) {
				id := 100
				var out []Op
				for _, o := range sc.A["user"] {
					out = append(out, o)
					if chance(r, 0.1) {
						id++
						out = append(out, Op{K: "out", S: outText(r, id) + "\n", N: r.Intn(3)})
					}
				}
				sc.A["user"] = out
			}
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			ed := &editor{}
			cfg := e.baseConfig()
			var ms []*Model
			var ws []*words
			var dyn []string
			sp := &spy{}
			var segGiven, segSaved [][]rune
			sc := e.runScreen(ed, cfg, func(m *Model) {
				ms = append(ms, m)
				switch {
				case e.str("tree") != "":
					ts, _ := decTree([]rune(e.str("tree")))
					sp.in = readline.NewPrefixCompleter(items(ts, &dyn)...)
					m.Comp = func(line []rune, pos int) ([][]rune, int) { return treeCands(ts, line, pos) }
				case e.str("segments") != "":
					list := strings.Split(e.str("segments"), ",")
					sp.in = readline.SegmentFunc(func(segs [][]rune, n int) [][]rune {
						var out [][]rune
						for _, w := range list {
							y := append([]rune(w), []rune("########")...)
							segSaved = append(segSaved, cp(y))
							segGiven = append(segGiven, y)
							out = append(out, y[:len([]rune(w))])
						}
						return out
					})
					m.Comp = func(line []rune, pos int) ([][]rune, int) { return segCands(list, line, pos) }
				default:
					w := e.completer(cfg, m)
					if w == nil {
						return
					}
					ws = append(ws, w)
					sp.in = w
				}
				m.TabInsert = false
				cfg.AutoComplete = sp
			})
			if len(e.viols) > 0 || !ed.ok {
				return
			}
			e.checkWrites(sc.all)
			m := ms[0]
			for i := 0; i < len(m.CompCalls) || i < len(sp.calls); i++ {
				e.cases++
				if i >= len(m.CompCalls) || i >= len(sp.calls) || m.CompCalls[i] != sp.calls[i] {
					e.Violate("completer-asked", "the completer was asked %v, expected %v", sp.calls, m.CompCalls)
					return
				}
			}
			for _, w := range ws {
				if !w.unchanged() {
					e.Violate("candidate-changed", "candidates of the completer were changed: %q", w.given)
				}
			}
			for i, g := range segGiven {
				if string(g) != string(segSaved[i]) {
					e.Violate("candidate-changed", "a candidate of the segment completer was changed from %q to %q", string(segSaved[i]), string(g))
					return
				}
			}
		},
	})
}

// checkMenu compares the menu below the line with the candidates.
func (sc *Screen) checkMenu(row int) {
	e, m := sc.e, sc.m
	if !m.complete || len(m.cand) == 0 || m.candOff < 0 || m.candOff > m.Pos {
		return
	}
	same := string(m.Buf[m.Pos-m.candOff : m.Pos])
	var want []string
	cw := 0
	for _, c := range m.cand {
		w := strings.TrimRight(same+string(c), " ")
		if w == "" || strings.ContainsAny(w, " \t") {
			return
		}
		if n := strW([]rune(w)); n > cw {
			cw = n
		}
		want = append(want, w)
	}
	if cw >= e.tty.W {
		return // they are wrapped
	}
	got := e.tty.VT
	rows := append(append([][]simrt.Cell{}, got.Back...), got.Rows...)
	i := 0
	hi := ""
	for r := sc.base + row + 1; r < len(rows); r++ {
		f := strings.Fields(simrt.RowText(rows[r]))
		for _, c := range rows[r] {
			if c.Hi && c.R > 0 {
				hi += string(c.R)
			}
		}
		for _, x := range f {
			if i >= len(want) || want[i] != x {
				e.Violate("menu", "width %d: the menu shows %q as candidate %d, expected the candidates %q", e.tty.W, x, i, want)
				return
			}
			i++
		}
		if len(f) > m.colNum || len(f) < m.colNum && i < len(want) {
			e.Violate("menu", "width %d: a row of the menu has %d candidates, expected %d (%q)", e.tty.W, len(f), m.colNum, want)
			return
		}
	}
	if i < len(want) {
		e.Violate("menu", "width %d: the menu shows %d of the candidates %q", e.tty.W, i, want)
		return
	}
	e.cases++
	e.s.Probe("menu-checked")
	hi = strings.TrimSpace(hi)
	exp := ""
	if m.sel && m.choice >= 0 {
		exp = want[m.choice]
		e.s.Probe("menu-selected")
	}
	if hi != exp {
		e.Violate("menu-choice", "width %d: the menu marks %q, expected %q of %q", e.tty.W, hi, exp, want)
	}
}

var _ = fmt.Sprint
