package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// hostileBytes draws a piece of input no keyboard would send.
func hostileBytes(r *rand.Rand) []byte {
	var b []byte
	switch r.Intn(9) {
	case 0: // any bytes
		for n := 1 + r.Intn(12); n > 0; n-- {
			b = append(b, byte(r.Intn(256)))
		}
	case 1: // control characters
		for n := 1 + r.Intn(6); n > 0; n-- {
			b = append(b, byte(r.Intn(32)))
		}
	case 2: // escape sequences, also absurd ones
		b = append(b, '\x1b')
		b = append(b, pick(r, "[", "O", "[", "", "\x1b", "\x1b[", "]", "[<", "[?")...)
		for n := r.Intn(5); n > 0; n-- {
			b = append(b, "0123456789;;~"[r.Intn(13)])
		}
		if chance(r, 0.1) {
			for n := 60 + r.Intn(200); n > 0; n-- {
				b = append(b, "0123456789;"[r.Intn(11)])
			}
		}
		if chance(r, 0.1) {
			// reports of the cursor nobody asked for
			b = nil
			for n := 1 + r.Intn(8); n > 0; n-- {
				b = append(b, fmt.Sprintf("\x1b[%d;%dR", 1+r.Intn(200), 1+r.Intn(200))...)
			}
			break
		}
		if chance(r, 0.8) {
			b = append(b, "ABCDHFR~PZ\x1b\r\x00\xff"[r.Intn(14)])
		}
	case 3: // broken UTF-8
		b = append(b, pick(r, "\xe6", "\xe6\x97", "\xf0\x9f", "\xff\xfe", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\x80\x80", "a\xe6")...)
	case 4: // odd characters
		b = append(b, pick(r, "\ufeff", "\u200b", "\u0301", "\u202e", "\U0010ffff", "\x7f", "\u0085", "\t", "\ufffd", "\u0600")...)
	case 5, 6: // text
		for n := 1 + r.Intn(10); n > 0; n-- {
			b = append(b, printable(r)...)
		}
	case 7: // real keys
		for n := 1 + r.Intn(6); n > 0; n-- {
			k := []string{"left", "right", "home", "end", "backspace127", "del", "kill", "kill-front", "yank", "word-back", "word-fwd", "word-del", "transpose", "clear",
				"up", "down", "search-back", "search-fwd", "cancel", "intr", "enter", "meta-rub"}[r.Intn(22)]
			b = append(b, pickKey(r, k)...)
		}
	default: // modes
		b = append(b, pick(r, "\t\t", "\t\t\x02\x06\x0e\x10\x01\x05", "\x12\x12a\x13b\x7f\x7f", "\t", "\x12", "\x13", "\x1a", "\x04", "\x1bd", "\t\t\r", "\x12\t\t", "\x1bt")...)
	}
	return b
}

// shortMenu opens menus of short candidates.
func shortMenu(r *rand.Rand) []byte {
	b := []byte(pick(r, "", "", "a"))
	b = append(b, "\t\t"...)
	for n := r.Intn(5); n > 0; n-- {
		b = append(b, "\t\x02\x06\x0e\x0e\x10\x01\x05"[r.Intn(8)])
	}
	return append(b, pick(r, "\r", "\r", "", "\x07")...)
}

type hostileApp struct {
	short bool // completions are short
	ed    *editor
	r     *rand.Rand
	on    bool
}

// Do implements readline.AutoCompleter with absurd answers.
func (h *hostileApp) Do(line []rune, pos int) ([][]rune, int) {
	if !h.on {
		return nil, 0
	}
	r := h.r
	var out [][]rune
	n := []int{0, 1, 2, 3, 10, 40}[r.Intn(6)]
	if h.short {
		a := []rune("ab日\u0301")[r.Intn(4)]
		for i := 0; i < n; i++ {
			c := []rune{a + rune(i%2)}
			if chance(r, 0.1) {
				c = nil
			}
			out = append(out, c)
		}
		return out, 0
	}
	for i := 0; i < n; i++ {
		var c []rune
		for j := []int{0, 1, 2, 5, 30, 200}[r.Intn(6)]; j > 0; j-- {
			c = append(c, []rune("ab é日\t\u0301\x1b\n\U0010ffff\x00")[r.Intn(11)])
		}
		out = append(out, c)
	}
	return out, []int{0, 0, 1, pos, pos + 1, -1, -3, 1000, 1 << 30, -1 << 30}[r.Intn(10)]
}

// OnChange implements readline.Listener with answers of its own.
func (h *hostileApp) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
	if !h.on || !chance(h.r, 0.2) {
		return nil, 0, false
	}
	l := []rune(randText(h.r, h.r.Intn(20)))
	return l, h.r.Intn(len(l) + 1), true
}

// Paint implements readline.Painter.
func (h *hostileApp) Paint(line []rune, pos int) []rune {
	if !h.on {
		return line
	}
	var out []rune
	for _, c := range line {
		switch h.r.Intn(4) {
		case 0:
			out = append(out, []rune("\x1b[31m")...)
			out = append(out, c)
		case 1:
			out = append(out, '日', c)
		case 2:
		default:
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register(&Property{
		ID: "C17",
		Rule: "Arbitrary byte streams, prompts, masks, window widths and resizes, completers, listeners, painters and filters with arbitrary answers, concurrent output, failing and short terminal writes and failing mode switches; then modes are cancelled and Enter pressed: " +
			"the call has to end, the next line typed has to be returned, and the end of input has to end everything.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C17")
			genBase(r, sc, edOpts{writers: true})
			if chance(r, 0.5) {
				sc.P["fixedw"] = 1 + r.Intn(12)
			}
			sc.P["fixedh"] = []int{24, 24, 3, 1}[r.Intn(4)]
			if chance(r, 0.05) {
				sc.P["zerow"] = 1
			}
			sc.P["cbseed"] = r.Intn(1 << 30)
			sc.P["vim"] = r.Intn(2) * r.Intn(2)
			sc.P["fold"] = r.Intn(2)
			sc.P["limit"] = []int{0, 0, 1, -1, 3}[r.Intn(5)]
			for _, k := range []string{"hcomp", "hlisten", "hpaint", "hfilter", "mask"} {
				if chance(r, 0.35) {
					sc.P[k] = 1
				}
			}
			if chance(r, 0.1) {
				sc.P["hcomp"] = 2
			}
			if chance(r, 0.1) {
				sc.P["notty"], sc.P["force"] = 1, 1
			}
			if chance(r, 0.3) {
				sc.P["mask"] = []int{'*', '日', 0x301, '\n', 0x10ffff, ' '}[r.Intn(6)]
			}
			if sc.P["limit"] >= 0 && chance(r, 0.4) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["histx"] = hex.EncodeToString(append(hostileBytes(r), histText(r, r.Intn(5), "ab日 ")...))
			}
			if chance(r, 0.4) {
				var p []byte
				for n := r.Intn(5); n > 0; n-- {
					p = append(p, hostileBytes(r)...)
				}
				sc.S["promptx"] = hex.EncodeToString(p)
			}
			if chance(r, 0.3) {
				sc.Faults["out-err"] = []float64{0.05, 0.5}[r.Intn(2)]
			}
			if chance(r, 0.3) {
				sc.Faults["out-short"] = []float64{0.05, 0.5}[r.Intn(2)]
			}
			if chance(r, 0.1) {
				sc.Faults["ioctl-err"], sc.Faults["ioctl-set-err"] = 0.3, 0.3
			}
			for n := r.Intn(6); n > 0; n-- {
				sc.add("app", Op{K: pick(r, "line", "line", "slice", "linefn", "runes", "default", "pass", "passex", "passmask"), S: randText(r, r.Intn(6)), N: []int{'*', '日', 0x301}[r.Intn(3)]})
			}
			style := r.Intn(4)
			for n := 1 + r.Intn(25); n > 0; n-- {
				b := hostileBytes(r)
				if sc.P["hcomp"] == 2 && chance(r, 0.5) {
					b = shortMenu(r)
				}
				sc.add("user", Op{K: "raw", S: hex.EncodeToString(b)})
				sc.add("user", pace(r, style)...)
				if chance(r, 0.08) {
					sc.add("user", Op{K: "resize", N: []int{1, 2, 3, 7, 80, 300}[r.Intn(6)]})
				}
			}
			if chance(r, 0.15) {
				// another task replaces the line
				for n := 1 + r.Intn(12); n > 0; n-- {
					sc.add("setter", pace(r, 2+r.Intn(2))...)
					sc.add("setter", Op{K: "setbuf", S: textFrom(r, "ab 日")() + randText(r, r.Intn(8)*r.Intn(2))})
				}
				if chance(r, 0.6) {
					// while keys that look at it are handled
					sc.Strat = simrt.Strategy{Kind: "walk", PSync: 0.05, PStmt: []float64{0.01, 0.03, 0.1}[r.Intn(3)], PBlock: 0.5}
					for i, o := range sc.A["user"] {
						if o.K == "raw" && chance(r, 0.7) {
							b := pick(r, "ab cd ef\x01\x1bd", "\x01\x1bd", "ab ab \x1bb\x1bd", "\x1bd", "\x19", "\x17", "\x1bb", "\x1bf", "\x14", "\x0b", "\x15", "\t", "\x12a", "\x02", "\x1bdw", "p", "dw")
							sc.A["user"][i].S = hex.EncodeToString([]byte(b))
						}
					}
				}
			}
			if chance(r, 0.3) {
				// the end of the input comes in the middle of something
				sc.S["tailx"] = hex.EncodeToString([]byte(pick(r, "", "ab") + pick(r, "\x1b", "\x1b[", "\x1b[1", "\x1b[1;", "\x1b[[", "\x1bO", "\x1bO1", "\xe6\x97", "\xf0", "\x1b[3", "\x1b[2;3", "\t\t", "\x12a", "\x1b[\xe6", "r")))
			}
			return sc
		},
		Run: func(e *Env) { e.runHostile() },
	})
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		simrt.HarnessError("bad hex %q", s)
	}
	return b
}

func (e *Env) runHostile() {
	e.world1()
	e.tty.ZeroW = e.p("zerow") == 1
	cfg := e.baseConfig()
	if x, ok := e.sc.S["promptx"]; ok {
		cfg.Prompt = string(unhex(x))
	}
	if f := e.str("histfile"); f != "" {
		e.fs.Put(f, unhex(e.str("histx")))
	}
	ed := &editor{}
	h := &hostileApp{ed: ed, short: e.p("hcomp") == 2, r: rand.New(rand.NewSource(int64(e.p("cbseed")))), on: true}
	if e.p("hcomp") > 0 {
		cfg.AutoComplete = h
	}
	if e.p("hlisten") == 1 {
		cfg.Listener = h
	}
	if e.p("hpaint") == 1 {
		cfg.Painter = h
	}
	if e.p("mask") != 0 {
		cfg.EnableMask = true
		cfg.MaskRune = rune(e.p("mask"))
	}
	if e.p("hfilter") == 1 {
		cfg.FuncFilterInputRune = func(c rune) (rune, bool) {
			if h.on && c >= 'a' && chance(h.r, 0.3) {
				return 'x', chance(h.r, 0.5)
			}
			return c, true
		}
	}
	total := 0
	for _, o := range e.sc.A["user"] {
		total += len(o.S)/2 + 1
	}
	last := false
	ed.e = e
	ed.app = e.s.GoIn(e.proc, "app", func() {
		rl, err := readline.NewEx(cfg)
		if err != nil {
			e.Violate("newex", "NewEx failed: %v", err)
			return
		}
		ed.rl = rl
		calls := e.sc.A["app"]
		for i := 0; ; i++ {
			o := Op{K: "line"}
			if i < len(calls) && h.on {
				o = calls[i]
			}
			ed.call(o)
			if n := len(ed.results); last && ed.results[n-1].Err != "" {
				break
			}
			if len(ed.results) > total+50 {
				e.Violate("too-many-results", "%d calls returned for %d bytes of input; the last: %s", len(ed.results), total, ed.results[len(ed.results)-1])
				break
			}
		}
		ed.closeEr = rl.Close()
		ed.closed = true
	})
	if len(e.sc.A["writer"]) > 0 {
		ed.wr = e.s.GoIn(e.proc, "writer", func() {
			e.until(func() bool { return ed.rl != nil })
			e.playWriter(ed, nil)
		})
	}
	if len(e.sc.A["setter"]) > 0 {
		ed.extra = append(ed.extra, e.s.GoIn(e.proc, "setter", func() {
			e.until(func() bool { return ed.rl != nil })
			e.user(e.sc.A["setter"], func(o Op) bool {
				if o.K == "setbuf" && h.on {
					e.s.Probe("line-set-from-outside")
					e.s.Note("SetBuffer(%q)", o.S)
					ed.rl.Operation.SetBuffer(o.S)
				}
				return o.K == "setbuf"
			})
		}))
	}
	e.user(e.sc.A["user"], func(o Op) bool {
		if o.K != "raw" {
			return false
		}
		b := unhex(o.S)
		e.s.Note("user types %q", b)
		e.tty.Type(b)
		return true
	})
	e.idle()
	e.s.Sleep(time.Second)
	// the disturbances stop
	h.on = false
	e.s.FaultP = map[string]float64{"short-read": e.sc.Faults["short-read"], "eintr": e.sc.Faults["eintr"]}
	key := func(k string) {
		e.s.Note("user types %q", k)
		e.tty.Type([]byte(k))
		e.idle()
		e.s.Sleep(10 * time.Millisecond)
		e.idle()
	}
	key("~") // ends what was begun: an escape sequence, a character, a vi operand
	key("\a")
	key("\a")
	ended := false
	for i := 0; i < 3 && !ended; i++ {
		n := len(ed.results)
		key("\r")
		ended = len(ed.results) > n
	}
	e.cases++
	if !ended {
		e.Violate("stuck", "after the input %q Ctrl-G and Enter do not end the call; results so far %s; tasks: %s", e.typedRaw(), joinRes(ed.results), e.stuck())
		return
	}
	n := len(ed.results)
	key("o")
	key("k")
	key("\r")
	e.cases++
	if len(ed.results) != n+1 || ed.results[n].Line != "ok" || ed.results[n].Err != "" {
		e.Violate("unusable", "after the input %q and an Enter, typing ok and Enter gave %s, expected the line \"ok\"", e.typedRaw(), joinRes(ed.results[n:]))
		return
	}
	last = true
	if x, ok := e.sc.S["tailx"]; ok {
		e.s.Note("user types %q", unhex(x))
		e.tty.Type(unhex(x))
		if len(x)%4 == 0 {
			e.idle()
		}
	}
	if !ed.finish() {
		return
	}
	e.cases++
	if ed.closed && e.sc.Faults["ioctl-err"] == 0 && !e.tty.Restored() {
		e.Violate("mode", "terminal modes are not restored at the end")
	}
}

func (e *Env) typedRaw() []byte {
	var b []byte
	for _, o := range e.sc.A["user"] {
		if o.K == "raw" {
			b = append(b, unhex(o.S)...)
		}
	}
	return b
}
