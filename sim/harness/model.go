package main

import (
	"fmt"
	"strings"
)

// Model is the reference editor: a small sequential specification of what the
// documented keys do to the line, the history and the completion menu, and of
// what each Readline call returns. It shares no code with the library.
type Model struct {
	Buf  []rune
	Pos  int
	Kill []rune

	Hist     []string // committed entries, oldest first
	LateFile []byte   // the history file, if it can only be opened later
	late     bool
	Limit    int // 0: unlimited, <0: none
	edited   map[int][]rune
	Cur      int // index into Hist, len(Hist) = the new line
	Fold     bool
	NoSave   bool // history is not saved automatically
	AppSaves bool // but by the application

	Appended []string // what must reach the history file, in order

	// history files, when more than one session or file matters
	Disk  map[string][]string // entries of each file
	Raw   map[string]string   // what was added to each file since it was opened
	File  string              // the file in use
	Off   bool                // the history is disabled
	First string              // the first line given to the history
	Snaps []Snap              // state of the file when each call returned
	LSave map[int]string      // what the Listener saves at its n-th event

	// search
	search  bool
	sdir    int  // 0 back, 1 forward
	sfail   bool // nothing was found
	sdata   []rune
	ssource int

	// completion
	Comp      func(line []rune, pos int) ([][]rune, int)
	CompCalls []event // what the completer must have been asked
	complete  bool
	sel       bool
	cand      [][]rune
	candOff   int
	candSrc   []rune
	candSet   bool
	choice    int
	colNum    int
	Width     int
	TabInsert bool // no completer configured: Tab inserts a tab

	// vim
	Vim     bool
	normal  bool
	pendOp  rune
	Results []Res
	Masked  bool    // no search
	Events  []event // what a Listener must see

	// calls the application makes; more are plain Readline calls
	Calls   []Op
	ci      int
	inCall  bool
	ended   bool   // the end of the input was read
	kind    string // of the call in progress
	fill    string // text for the next call
	pw      *Model // state put aside during a password call
	Prompt  string
	Mask    rune                    // shown instead of every character of a password
	Done    func(how, shown string) // called when a call ends, before the line is forgotten
	Starts  int                     // times a Listener is told that a read begins
	Stops   int                     // times the process is to be suspended
	Stopped func()                  // called when it is suspended

	PassEvents []event           // what the Listener of a password call must see
	Secret     func(string) bool // recognises characters only typed at password prompts
	Leaked     bool              // one was typed elsewhere

	// callbacks and further configurations
	Filter      func(rune) (rune, bool)
	FilterCalls []event
	Answer      func(line []rune, pos int, key rune) ([]rune, int, bool)
	Config      int           // the one in use
	StartEvents bool          // the Listener's calls when a read starts are events too
	Listens     bool          // false: the configuration in use has no Listener
	Custom      func(Op) bool // handles further calls of the application
	final       func()        // at the end, before states are looked at
	Broken      bool          // the keys have no defined meaning (a shrunk scenario)

	// probes of what a run exercised
	Hits map[string]int
}

func newModel() *Model {
	return &Model{edited: map[int][]rune{}, TabInsert: true, Hits: map[string]int{}, Limit: 500, choice: -1, candOff: -1, Width: 80, Listens: true}
}

func cp(r []rune) []rune { return append([]rune{}, r...) }

func wordChar(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9'
}

func (m *Model) insert(s []rune) {
	b := append([]rune{}, m.Buf[:m.Pos]...)
	b = append(b, s...)
	b = append(b, m.Buf[m.Pos:]...)
	m.Buf = b
	m.Pos += len(s)
}

func (m *Model) cut(a, b int) []rune {
	x := cp(m.Buf[a:b])
	m.Buf = append(cp(m.Buf[:a]), m.Buf[b:]...)
	return x
}

// SetBuffer is the application replacing the line; it tells whether it may.
func (m *Model) SetBuffer(s string) bool {
	m.begin()
	if m.search || m.complete || m.pw != nil || m.Vim || m.ended {
		return false
	}
	m.set([]rune(s))
	return true
}

func (m *Model) set(r []rune) { m.Buf = cp(r); m.Pos = len(m.Buf) }

// wordStartBefore is the start of the word before the cursor.
func (m *Model) wordStartBefore() int {
	for i := m.Pos - 1; i > 0; i-- {
		if wordChar(m.Buf[i]) && !wordChar(m.Buf[i-1]) {
			return i
		}
	}
	return 0
}

func (m *Model) wordStartAfter() int {
	for i := m.Pos + 1; i < len(m.Buf); i++ {
		if wordChar(m.Buf[i]) && !wordChar(m.Buf[i-1]) {
			return i
		}
	}
	return len(m.Buf)
}

func (m *Model) deleteWord() {
	if m.Pos == len(m.Buf) {
		return
	}
	i := m.Pos
	for i < len(m.Buf) && !wordChar(m.Buf[i]) {
		i++
	}
	for i++; i < len(m.Buf); i++ {
		if wordChar(m.Buf[i]) && !wordChar(m.Buf[i-1]) {
			m.Kill = m.cut(m.Pos, i-1)
			return
		}
	}
	m.Kill = m.cut(m.Pos, len(m.Buf))
}

func (m *Model) shown(i int) []rune {
	if e, ok := m.edited[i]; ok {
		return e
	}
	if i < len(m.Hist) {
		return []rune(m.Hist[i])
	}
	return nil
}

// Load is what a new session recalls from a history file.
func (m *Model) Load(file []byte) {
	for _, l := range strings.Split(string(file), "\n") {
		l = strings.TrimSpace(l)
		if l != "" {
			m.Hist = append(m.Hist, l)
		}
	}
	if m.Limit > 0 && len(m.Hist) > m.Limit {
		m.Hist = m.Hist[len(m.Hist)-m.Limit:]
	}
	m.Cur = len(m.Hist)
}

// Snap is what a history file must hold at some moment.
type Snap struct {
	File     string
	Raw      string
	Entries  []string
	Appended int
}

// OpenHist switches to a history file.
func (m *Model) OpenHist(path string) {
	m.File = path
	m.Hist = nil
	for _, l := range m.Disk[path] {
		m.Hist = append(m.Hist, string([]rune(l)))
	}
	if len(m.Hist) > m.Limit {
		m.Hist = m.Hist[len(m.Hist)-m.Limit:]
	}
	m.Disk[path] = append([]string{}, m.Hist...)
	m.Raw[path] = ""
	m.endLine()
}

// Commit adds an entry as submitting a line does.
func (m *Model) Commit(line string) {
	m.endLine()
	if m.Off {
		return
	}
	if m.First == "" {
		m.First = line
	}
	if n := len(m.Hist); n > 0 && m.Hist[n-1] == line {
		return
	}
	if line == "" {
		return
	}
	m.Hist = append(m.Hist, line)
	m.Appended = append(m.Appended, line)
	if m.Disk != nil && m.File != "" {
		m.Raw[m.File] += line + "\n"
		if t := strings.TrimSpace(line); t != "" {
			m.Disk[m.File] = append(m.Disk[m.File], t)
		}
	}
	if m.Limit < 0 {
		m.Hist = nil
	} else if m.Limit > 0 && len(m.Hist) > m.Limit {
		m.Hist = m.Hist[len(m.Hist)-m.Limit:]
	}
	m.Cur = len(m.Hist)
}

func (m *Model) endLine() {
	m.edited = map[int][]rune{}
	m.Cur = len(m.Hist)
}

// keepEdit remembers the line before another entry replaces it.
func (m *Model) keepEdit() {
	if !m.search {
		m.edited[m.Cur] = cp(m.Buf)
	}
}

func (m *Model) result(r Res) {
	m.begin()
	r.Op = m.kind
	m.Results = append(m.Results, r)
	m.Buf, m.Pos = nil, 0
	m.inCall = false
	if m.pw != nil {
		q := *m.pw
		q.Results, q.ci, q.kind, q.Stops, q.Hits = m.Results, m.ci, m.kind, m.Stops, m.Hits
		q.CompCalls, q.ended, q.PassEvents, q.Leaked, q.fill = m.CompCalls, m.ended, m.PassEvents, m.Leaked, m.fill
		*m = q
		m.inCall = false
		if m.late {
			// the history file can be opened now
			m.late = false
			session := m.Hist
			m.Hist = nil
			m.Load(m.LateFile)
			m.LateFile = nil
			m.Hist = append(m.Hist, session...)
			if m.Limit > 0 && len(m.Hist) > m.Limit {
				m.Hist = m.Hist[len(m.Hist)-m.Limit:]
			}
			m.endLine()
		}
	}
	if m.Disk != nil {
		m.Snaps = append(m.Snaps, m.snap())
	}
}

func (m *Model) snap() Snap {
	return Snap{m.File, m.Raw[m.File], append([]string{}, m.Disk[m.File]...), len(m.Appended)}
}

func (m *Model) done(how string) {
	if m.Done != nil {
		m.Done(how, m.visible())
	}
}

// visible is what stands for the line on the screen.
func (m *Model) visible() string {
	if m.pw == nil {
		return string(m.Buf)
	}
	return strings.Repeat(string(m.Mask), len(m.Buf))
}

// begin starts the next call of the application unless one is in progress.
func (m *Model) begin() {
	for !m.inCall {
		o := Op{K: "line"}
		if m.ci < len(m.Calls) {
			o = m.Calls[m.ci]
		}
		m.ci++
		if m.Custom != nil && m.Custom(o) {
			continue
		}
		switch o.K {
		case "save":
			m.Commit(o.S)
			continue
		case "path":
			m.OpenHist(o.S)
			continue
		case "reset":
			m.Hist = nil
			m.endLine()
			continue
		case "ext":
			m.Raw[hf] += o.S + "\n"
			if t := strings.TrimSpace(o.S); t != "" {
				m.Disk[hf] = append(m.Disk[hf], t)
			}
			continue
		case "allow":
			m.late = m.LateFile != nil
			continue
		case "hoff", "hon":
			m.Off = o.K == "hoff"
			continue
		case "prompt":
			m.Prompt = o.S
			continue
		case "idle", "ms", "steps", "refresh", "newcfg":
			continue
		case "fill":
			m.fill += o.S
			continue
		case "line", "slice", "linefn", "runes", "default", "prefill":
			m.Starts++
			if m.StartEvents && m.Listens && !m.ended {
				m.Events = append(m.Events, event{"<start>", 0, 0, m.Config})
			}
		case "pass", "passex", "passmask", "passre":
			q := *m
			m.pw = &q
			m.Prompt, m.Mask = o.S, 0
			if o.K == "passmask" || o.K == "passre" {
				m.Mask = rune(o.N)
			}
			m.Kill, m.Hist, m.edited, m.Cur, m.Limit, m.TabInsert = nil, nil, map[int][]rune{}, 0, -1, true
			m.NoSave, m.AppSaves, m.Appended, m.Masked, m.File = false, false, nil, true, ""
		default:
			panic("model: unknown call " + o.K)
		}
		m.inCall = true
		m.kind = o.K
		if o.K == "default" {
			m.set([]rune(o.S))
		}
		if o.K == "prefill" {
			m.fill += o.S
		}
		if f := m.fill; f != "" && !m.ended {
			m.fill = ""
			m.Hits["prefill"]++
			for _, c := range f {
				m.Key(logical(string(c)))
			}
		}
	}
}

func indexLast(item, sub []rune, fold bool) int {
	for i := len(item) - len(sub); i >= 0; i-- {
		if matchAt(item, sub, i, fold) {
			return i
		}
	}
	return -1
}

func indexFirst(item, sub []rune, fold bool) int {
	for i := 0; i < len(item) && i+len(sub) <= len(item); i++ {
		if matchAt(item, sub, i, fold) {
			return i
		}
	}
	return -1
}

func lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

func matchAt(item, sub []rune, i int, fold bool) bool {
	for j := range sub {
		a, b := item[i+j], sub[j]
		if fold {
			a, b = lower(a), lower(b)
		}
		if a != b {
			return false
		}
	}
	return true
}

func (m *Model) doSearch(fresh bool) {
	m.sfail = false
	if len(m.sdata) == 0 {
		return
	}
	if m.sdir == 0 {
		for i := m.Cur; i >= 0; i-- {
			item := m.shown(i)
			if i == m.Cur {
				lim := m.Pos
				if fresh {
					lim += len(m.sdata)
				}
				if len(item) >= lim {
					item = item[:lim]
				}
			}
			if at := indexLast(item, m.sdata, m.Fold); at >= 0 {
				m.found(i, at, at)
				return
			}
		}
	} else {
		for i := m.Cur; i <= len(m.Hist); i++ {
			item := m.shown(i)
			off := 0
			if i == m.Cur {
				off = m.Pos
				if fresh {
					off -= len(m.sdata)
					if off < 0 {
						off = 0
					}
				}
				if off >= len(item) {
					continue
				}
				item = item[off:]
			}
			if at := indexFirst(item, m.sdata, m.Fold); at >= 0 {
				m.found(i, at+off, at+off+len(m.sdata))
				return
			}
		}
	}
	m.sfail = true
	m.Hits["search-failing"]++
}

func (m *Model) found(i, at, pos int) {
	m.Hits["search-found"]++
	if i != m.Cur {
		m.Hits["search-other-entry"]++
	}
	m.Cur = i
	m.Buf = cp(m.shown(i))
	m.Pos = pos
}

func (m *Model) exitSearch(revert bool) {
	if revert {
		m.Cur = m.ssource
		m.set(m.shown(m.Cur))
	}
	m.search, m.sfail = false, false
	m.sdata = nil
}

func (m *Model) exitSelect() {
	m.sel = false
	m.cand = nil
	m.choice = -1
	m.candOff = -1
	m.candSrc = nil
	m.candSet = false
}

func (m *Model) exitComplete() {
	m.complete = false
	m.exitSelect()
}

func strW(r []rune) int {
	n := 0
	for _, c := range r {
		n += cellWidth(c)
	}
	return n
}

// sharedText is what the candidates share with the line: the text before the
// cursor, or (a completer may say so) after it.
func (m *Model) sharedText() []rune {
	if n := -m.candOff; n > 0 {
		if n > len(m.Buf)-m.Pos {
			n = len(m.Buf) - m.Pos
		}
		return m.Buf[m.Pos : m.Pos+n]
	}
	n := m.candOff
	if n > m.Pos {
		n = m.Pos
	}
	return m.Buf[m.Pos-n : m.Pos]
}

func (m *Model) menu() {
	cw := 0
	for _, c := range m.cand {
		if w := strW(c); w > cw {
			cw = w
		}
	}
	cw += strW(m.sharedText()) + 1
	m.colNum = (m.Width - 1) / cw
	if m.colNum < 1 {
		m.colNum = 1
	}
}

func (m *Model) move(i int) {
	n := len(m.cand)
	m.choice = ((m.choice+i)%n + n) % n
}

func (m *Model) doSelect() {
	if len(m.cand) == 1 {
		m.insert(m.cand[0])
		m.exitComplete()
		return
	}
	m.move(1)
}

func (m *Model) onComplete() {
	if m.sel {
		m.doSelect()
		return
	}
	if m.complete && m.candSet && string(m.Buf) == string(m.candSrc) {
		m.Hits["complete-select"]++
		m.sel = true
		m.choice = -1
		m.doSelect()
		return
	}
	m.exitSelect()
	m.candSrc, m.candSet = cp(m.Buf), true
	var c [][]rune
	off := 0
	if m.TabInsert {
		c = [][]rune{[]rune("\t")}
	} else {
		m.CompCalls = append(m.CompCalls, event{string(m.Buf), m.Pos, 0, 0})
		c, off = m.Comp(cp(m.Buf), m.Pos)
	}
	if len(c) == 0 {
		m.exitComplete()
		return
	}
	if !m.complete {
		if len(c) == 1 {
			m.Hits["complete-one"]++
			m.insert(c[0])
			m.exitComplete()
			return
		}
		k := 0
	agg:
		for ; k < len(c[0]); k++ {
			for _, x := range c[1:] {
				if k >= len(x) || x[k] != c[0][k] {
					break agg
				}
			}
		}
		if k > 0 {
			m.Hits["complete-common"]++
			m.insert(c[0][:k])
			m.exitComplete()
			return
		}
	}
	m.Hits["complete-menu"]++
	m.complete = true
	m.cand = c
	m.candOff = off
	m.menu()
}

// selectKey handles a key in the selection menu: kept=true means it is done.
func (m *Model) selectKey(k string) (kept bool) {
	n, cols := len(m.cand), m.colNum
	size := (n + cols - 1) / cols * cols
	switch k {
	case "enter", "ctrl-j":
		m.insert(m.cand[m.choice])
		m.exitComplete()
		return false
	case "home":
		m.move(-(m.choice % cols))
	case "end":
		m.choice += cols - m.choice%cols - 1
		if m.choice >= n {
			m.choice = n - 1
		}
	case "backspace127":
		m.exitSelect()
		return false
	case "tab", "right":
		m.doSelect()
	case "cancel", "intr":
		m.exitComplete()
		return false
	case "down":
		t := m.choice + cols
		if t >= size {
			t -= size
		} else if t >= n {
			t += cols
			t -= size
		}
		m.choice = t
	case "up":
		t := m.choice - cols
		if t < 0 {
			t += size
			if t >= n {
				t -= cols
			}
		}
		m.choice = t
	case "left":
		m.move(-1)
	default:
		m.exitSelect()
		return false
	}
	return true
}

// Key processes one logical key (a name from keyBytes) or a literal character.
func (m *Model) Key(k string) {
	m.begin()
	pw, kind := m.pw != nil, m.kind
	m.Hits["key"]++
	if k == "ignored" || k == "cut" { // an escape sequence that means nothing to the terminal
		return
	}
	if m.Filter != nil && !pw && !m.ended {
		r := keyRune(k)
		m.FilterCalls = append(m.FilterCalls, event{"", 0, r, m.Config})
		r, ok := m.Filter(r)
		if !ok {
			m.Hits["filter-dropped"]++
			return
		}
		if n := runeKey(r); n != k {
			m.Hits["filter-translated"]++
			k = n
		}
	}
	if k == "esc" && !m.Vim {
		m.Broken = true
		return
	}
	if !pw && m.Secret != nil && m.Secret(k) {
		m.Leaked = true
	}
	keepSearch, keepComplete, update := false, false, true
	if m.sel {
		if m.selectKey(k) {
			return
		}
		switch k {
		case "enter", "ctrl-j":
			m.edited[m.Cur] = cp(m.Buf)
			return
		case "intr", "cancel":
			return
		}
	}
	if m.Vim {
		var done bool
		k, done = m.vimKey(k)
		if done {
			return
		}
	}
	switch k {
	case "cancel":
		if m.search {
			m.exitSearch(true)
		}
		if m.complete {
			m.exitComplete()
		}
	case "tab":
		m.onComplete()
		keepComplete = true
	case "search-back", "search-fwd":
		m.sdir = 0
		if k == "search-fwd" {
			m.sdir = 1
		}
		if m.Masked {
			break
		}
		if m.search {
			m.doSearch(false)
		} else {
			m.keepEdit()
			m.search = true
			m.ssource = m.Cur
		}
		keepSearch = true
	case "kill-front":
		if m.Pos > 0 {
			m.Kill = m.cut(0, m.Pos)
			m.Pos = 0
		}
	case "kill":
		m.Kill = m.cut(m.Pos, len(m.Buf))
		keepComplete = true
	case "word-fwd":
		m.Pos = m.wordStartAfter()
	case "word-back":
		if m.Pos > 0 {
			m.Pos = m.wordStartBefore()
		}
	case "word-del":
		m.deleteWord()
	case "transpose":
		n := len(m.Buf)
		if n == 1 {
			m.Pos = 1
		}
		if n >= 2 {
			if m.Pos == 0 {
				m.Pos = 1
			} else if m.Pos >= n {
				m.Pos = n - 1
			}
			m.Buf = cp(m.Buf)
			m.Buf[m.Pos], m.Buf[m.Pos-1] = m.Buf[m.Pos-1], m.Buf[m.Pos]
			m.Pos++
		}
	case "home":
		m.Pos = 0
	case "end":
		m.Pos = len(m.Buf)
	case "backspace127", "backspace8":
		if m.search {
			if len(m.sdata) > 0 {
				m.sdata = m.sdata[:len(m.sdata)-1]
				m.doSearch(true)
			}
			keepSearch = true
			break
		}
		if len(m.Buf) == 0 {
			break
		}
		if m.Pos > 0 {
			m.Pos--
			m.cut(m.Pos, m.Pos+1)
		}
		if m.complete {
			m.onComplete()
		}
	case "word-rub", "meta-rub":
		if m.Pos > 0 {
			s := m.wordStartBefore()
			m.Kill = m.cut(s, m.Pos)
			m.Pos = s
		}
	case "yank":
		m.insert(m.Kill)
	case "enter", "ctrl-j":
		if m.search {
			m.exitSearch(false)
		}
		line := string(m.Buf)
		if m.NoSave {
			m.endLine()
			if m.AppSaves {
				m.Commit(line)
			}
		} else {
			m.Commit(line)
		}
		m.done("enter")
		m.result(Res{Op: "line", Line: line})
	case "left":
		if m.Pos > 0 {
			m.Pos--
		}
	case "right":
		if m.Pos < len(m.Buf) {
			m.Pos++
		}
	case "up":
		m.keepEdit()
		if m.Cur > 0 {
			m.Hits["recall"]++
			m.Cur--
			m.set(m.shown(m.Cur))
		}
	case "down":
		m.keepEdit()
		if m.Cur < len(m.Hist) {
			m.Hits["recall"]++
			m.Cur++
			m.set(m.shown(m.Cur))
		}
	case "del":
		if len(m.Buf) > 0 || m.search || m.complete {
			if m.Pos < len(m.Buf) {
				m.Kill = m.cut(m.Pos, m.Pos+1)
			}
			break
		}
		m.endLine()
		m.done("eof")
		m.result(Res{Op: "line", Err: "EOF"})
		update = false
	case "intr":
		if m.search {
			m.exitSearch(true)
			break
		}
		if m.complete {
			m.exitComplete()
			break
		}
		m.endLine()
		m.done("intr")
		m.result(Res{Op: "line", Line: string(m.Buf), Err: "interrupt"})
		update = false
	case "clear":
		m.Hits["clear"]++
	case "suspend":
		m.Stops++
		if m.Stopped != nil {
			m.Stopped()
		}
	default:
		r := []rune(k)
		if len(r) != 1 {
			panic(fmt.Sprintf("model: unknown key %q", k))
		}
		if m.search {
			m.sdata = append(cp(m.sdata), r[0])
			m.doSearch(true)
			keepSearch = true
			break
		}
		m.insert(r)
		if m.complete {
			m.onComplete()
			keepComplete = true
		}
	}
	if pw && kind == "passex" {
		m.PassEvents = append(m.PassEvents, event{string(m.Buf), m.Pos, keyRune(k), 0})
	}
	if !pw && m.Listens {
		m.Events = append(m.Events, event{string(m.Buf), m.Pos, keyRune(k), m.Config})
		if m.Answer != nil {
			if l, pos, ok := m.Answer(cp(m.Buf), m.Pos, keyRune(k)); ok {
				m.Hits["listener-answer"]++
				m.Buf, m.Pos = cp(l), pos
			}
		}
		if l, ok := m.LSave[len(m.Events)]; ok {
			m.Commit(l)
			if m.Disk != nil && !m.inCall {
				// before the call returns
				m.Snaps[len(m.Snaps)-1] = m.snap()
			}
		}
	}
	if pw && m.pw == nil {
		return // the password call is over
	}
	if !keepSearch && m.search {
		m.exitSearch(false)
	} else if m.complete && !keepComplete {
		m.exitComplete()
	}
	if update && !m.search {
		m.edited[m.Cur] = cp(m.Buf)
	}
}

// End processes the end of the input stream.
func (m *Model) End() {
	m.begin()
	m.ended = true
	for n := len(m.Results); len(m.Buf) > 0 && len(m.Results) == n; {
		m.Key("enter")
	}
	if m.inCall || m.pw != nil {
		m.done("end")
	}
	m.result(Res{Op: "line", Err: "EOF"})
}

// ---------------------------------------------------------------- vim

func (m *Model) eraseAll() {
	m.Kill = cp(m.Buf)
	m.Buf, m.Pos = nil, 0
}

func (m *Model) vimOperand(op rune, k string) {
	r := []rune(k)
	c := rune(-1)
	if len(r) == 1 {
		c = r[0]
	}
	if k == "tab" && op != 'r' {
		c = '\t'
	}
	del := func() {
		if m.Pos < len(m.Buf) {
			m.Kill = m.cut(m.Pos, m.Pos+1)
		}
	}
	switch op {
	case 'r':
		if c >= 0 && m.Pos < len(m.Buf) {
			m.Buf = cp(m.Buf)
			m.Buf[m.Pos] = c
		}
	case 'd', 'c':
		switch c {
		case op:
			m.eraseAll()
		case 'w':
			m.deleteWord()
		case 'h':
			if m.Pos > 0 {
				m.Pos--
				m.cut(m.Pos, m.Pos+1)
			}
		case 'l':
			del()
		}
		if op == 'c' {
			m.normal = false
		}
	case 'f', 't':
		for i := m.Pos + 1; c >= 0 && i < len(m.Buf); i++ {
			if m.Buf[i] == c {
				m.Pos = i
				if op == 't' {
					m.Pos--
				}
				break
			}
		}
	case 'F', 'T':
		for i := m.Pos - 1; c >= 0 && i >= 0; i-- {
			if m.Buf[i] == c {
				m.Pos = i
				if op == 'T' {
					m.Pos++
				}
				break
			}
		}
	}
}

// vimKey translates a key in vi mode; done means it needs nothing further.
func (m *Model) vimKey(k string) (string, bool) {
	if m.pendOp != 0 {
		op := m.pendOp
		m.pendOp = 0
		if k == "enter" || k == "ctrl-j" || k == "intr" {
			m.normal = false
			return k, false
		}
		m.vimOperand(op, k)
		return "", true
	}
	if !m.normal {
		if k == "esc" {
			m.normal = true
			return "", true
		}
		return k, false
	}
	m.Hits["vim-normal"]++
	switch k {
	case "enter", "ctrl-j", "intr":
		m.normal = false
		return k, false
	case "h":
		return "left", false
	case "l":
		return "right", false
	case "j":
		return "down", false
	case "k":
		return "up", false
	case "0", "^":
		m.Pos = 0
	case "$":
		m.Pos = len(m.Buf)
	case "x":
		if m.Pos < len(m.Buf) {
			m.Kill = m.cut(m.Pos, m.Pos+1)
		}
		if m.Pos == len(m.Buf) && m.Pos > 0 {
			m.Pos--
		}
	case "r", "d", "c", "f", "F", "t", "T":
		m.pendOp = []rune(k)[0]
	case "p":
		m.insert(m.Kill)
	case "b", "B":
		if m.Pos > 0 {
			m.Pos = m.wordStartBefore()
		}
	case "w", "W":
		m.Pos = m.wordStartAfter()
	case "e", "E":
		m.wordEnd()
	case "i":
		m.normal = false
	case "I":
		m.Pos = 0
		m.normal = false
	case "a":
		if m.Pos < len(m.Buf) {
			m.Pos++
		}
		m.normal = false
	case "A":
		m.Pos = len(m.Buf)
		m.normal = false
	case "s":
		if m.Pos < len(m.Buf) {
			m.Kill = m.cut(m.Pos, m.Pos+1)
		}
		m.normal = false
	case "S":
		m.eraseAll()
		m.normal = false
	}
	return "", true
}

func (m *Model) wordEnd() {
	n := len(m.Buf)
	if m.Pos == n {
		return
	}
	i := m.Pos
	if wordChar(m.Buf[i]) && i+1 < n && !wordChar(m.Buf[i+1]) {
		i++
	}
	for i++; i < n; i++ {
		if !wordChar(m.Buf[i]) && wordChar(m.Buf[i-1]) {
			m.Pos = i - 1
			return
		}
	}
	m.Pos = n
}

// ---------------------------------------------------------------- keys

// keyBytes gives the byte sequences of each logical key.
var keyBytes = map[string][]string{
	"enter": {"\r"}, "ctrl-j": {"\n"}, "intr": {"\x03"}, "del": {"\x04", "\x1b[3~"},
	"left": {"\x02", "\x1b[D", "\x1bOD", "\x1b[1;5D"}, "right": {"\x06", "\x1b[C", "\x1bOC", "\x1b[2C"},
	"up": {"\x10", "\x1b[A", "\x1bOA"}, "down": {"\x0e", "\x1b[B", "\x1bOB"},
	"home": {"\x01", "\x1b[H", "\x1bOH"}, "end": {"\x05", "\x1b[F", "\x1bOF"},
	"backspace127": {"\x7f"}, "backspace8": {"\x08"}, "kill": {"\x0b"}, "kill-front": {"\x15"},
	"word-rub": {"\x17"}, "meta-rub": {"\x1b\x7f"}, "yank": {"\x19"}, "word-back": {"\x1bb"}, "word-fwd": {"\x1bf"},
	"word-del": {"\x1bd"}, "transpose": {"\x14"}, "tab": {"\t"}, "search-back": {"\x12"}, "search-fwd": {"\x13"},
	"cancel": {"\x07"}, "clear": {"\x0c"}, "esc": {"\x1b"}, "suspend": {"\x1a"},
	"ignored": {"\x1b[5~", "\x1b[1;5P", "\x1bOP", "\x1b[15~", "\x1b[12;40R", "\x1b[R", "\x1b[3R", "\x1b[200~", "\x1b[201~", "\x1b[I", "\x1b[Z", "\x1bO2Q", "\x1b[1;10;100;1000;10000~", "\x1b[38;5;196m"},
	// sequences which the end of the input cuts
	"cut": {"\x1b[", "\x1b[1", "\x1b[3", "\x1b[1;", "\x1b[12;40", "\x1bO"},
}

// keyRunes are the key codes the library documents for its callbacks.
var keyRunes = map[string]rune{
	"enter": 13, "ctrl-j": 10, "intr": 3, "del": 4, "left": 2, "right": 6, "up": 16, "down": 14, "home": 1, "end": 5,
	"backspace127": 127, "backspace8": 8, "kill": 11, "kill-front": 21, "word-rub": 23, "yank": 25, "word-back": -1,
	"word-fwd": -2, "meta-rub": -4, "word-del": -3, "transpose": 20, "tab": 9, "search-back": 18, "search-fwd": 19, "cancel": 7, "clear": 12,
	"esc": 27, "suspend": 26,
}

func keyRune(k string) rune {
	if r, ok := keyRunes[k]; ok {
		return r
	}
	return []rune(k)[0]
}

var codeKey = func() map[rune]string {
	m := map[rune]string{}
	for k, r := range keyRunes {
		m[r] = k
	}
	return m
}()

// runeKey is the logical key of a key code.
func runeKey(r rune) string {
	if k, ok := codeKey[r]; ok {
		return k
	}
	return string(r)
}

var bytesKey = func() map[string]string {
	m := map[string]string{}
	for k, v := range keyBytes {
		for _, b := range v {
			m[b] = k
		}
	}
	return m
}()

// logical maps typed bytes back to a logical key.
func logical(b string) string {
	if k, ok := bytesKey[b]; ok {
		return k
	}
	return b
}

func cellWidth(r rune) int { return modelWidth(r) }

func joinRes(rs []Res) string {
	var out []string
	for _, r := range rs {
		out = append(out, r.String())
	}
	return strings.Join(out, " | ")
}
