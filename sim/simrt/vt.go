package simrt

import (
	"fmt"
	"strings"
	"unicode"
)

// VT is a small terminal emulator (xterm behaviour for the sequences line
// editors use): a grid, a cursor, deferred wrapping, scrollback.
type VT struct {
	W, H    int
	Rows    [][]Cell // visible rows
	Back    [][]Cell // scrolled off
	R, C    int
	Pending bool // deferred wrap
	Bells   int
	Unknown []string
	esc     int // 0 none, 1 after ESC, 2 in CSI, 3 in OSC-like
	par     []byte
	utf     []byte
	Reports int
	OnQuery func()
	Hi      bool // what is written now is highlighted
	Home    int  // lines above the screen when the cursor was last put to its corner, -1 if never
}

// Cell is one screen cell: R==0 is blank, R==-1 the right half of a wide rune.
type Cell struct {
	R  rune
	Hi bool // highlighted
}

// NewVT makes an empty terminal.
func NewVT(w, h int) *VT {
	v := &VT{W: w, H: h, Home: -1}
	for i := 0; i < h; i++ {
		v.Rows = append(v.Rows, make([]Cell, w))
	}
	return v
}

// Resize changes the width as terminals without reflow do: rows are cut or
// padded on the right.
func (v *VT) Resize(w int) {
	for i, r := range v.Rows {
		n := make([]Cell, w)
		copy(n, r)
		v.Rows[i] = n
	}
	v.W = w
	if v.C >= w {
		v.C = w - 1
	}
	v.Pending = false
}

func (v *VT) lineFeed() {
	if v.R < v.H-1 {
		v.R++
		return
	}
	v.Back = append(v.Back, v.Rows[0])
	copy(v.Rows, v.Rows[1:])
	v.Rows[v.H-1] = make([]Cell, v.W)
}

// RuneWidth is the number of columns a terminal gives to r.
func RuneWidth(r rune) int {
	if unicode.In(r, unicode.Mn, unicode.Me, unicode.Cc, unicode.Cf) {
		return 0
	}
	if unicode.In(r, unicode.Han, unicode.Hangul, unicode.Hiragana, unicode.Katakana) {
		return 2
	}
	return 1
}

func (v *VT) put(r rune) {
	w := RuneWidth(r)
	if w == 0 {
		return
	}
	if v.Pending || v.C+w > v.W {
		v.Pending = false
		v.C = 0
		v.lineFeed()
	}
	if v.W < w {
		return
	}
	v.Rows[v.R][v.C] = Cell{r, v.Hi}
	if w == 2 {
		v.Rows[v.R][v.C+1] = Cell{-1, v.Hi}
	}
	v.C += w
	if v.C >= v.W {
		v.C = v.W - 1
		v.Pending = true
	}
}

// Feed interprets output bytes; onlcr maps \n to \r\n.
func (v *VT) Feed(b []byte, onlcr bool) {
	for _, c := range b {
		v.feed1(c, onlcr)
	}
}

func (v *VT) feed1(c byte, onlcr bool) {
	if v.esc == 0 && (c >= 0x80 || len(v.utf) > 0) {
		v.utf = append(v.utf, c)
		r, n := decodeRune(v.utf)
		if n == 0 {
			return
		}
		v.utf = v.utf[:0]
		v.put(r)
		return
	}
	switch v.esc {
	case 1:
		switch c {
		case '[':
			v.esc = 2
			v.par = v.par[:0]
		default:
			v.Unknown = append(v.Unknown, fmt.Sprintf("ESC %q", c))
			v.esc = 0
		}
		return
	case 2:
		if c >= 0x40 && c <= 0x7e {
			v.csi(c)
			v.esc = 0
			return
		}
		v.par = append(v.par, c)
		return
	}
	switch c {
	case 27:
		v.esc = 1
	case '\r':
		v.C = 0
		v.Pending = false
	case '\n':
		v.Pending = false
		if onlcr {
			v.C = 0
		}
		v.lineFeed()
	case '\b':
		if v.C > 0 {
			v.C--
		}
		v.Pending = false
	case 7:
		v.Bells++
	case '\t':
		v.C = (v.C/8 + 1) * 8
		if v.C >= v.W {
			v.C = v.W - 1
		}
	default:
		if c < 32 || c == 127 {
			return
		}
		v.put(rune(c))
	}
}

func decodeRune(b []byte) (rune, int) {
	need := 1
	switch {
	case b[0] >= 0xf0:
		need = 4
	case b[0] >= 0xe0:
		need = 3
	case b[0] >= 0xc0:
		need = 2
	}
	if len(b) < need {
		return 0, 0
	}
	r := []rune(string(b))
	return r[0], len(b)
}

func (v *VT) num(def int) int {
	n, got := 0, false
	for _, c := range v.par {
		if c < '0' || c > '9' {
			break
		}
		got = true
		n = n*10 + int(c-'0')
		if n > 100000 {
			n = 100000
		}
	}
	if !got || n == 0 {
		return def
	}
	return n
}

func (v *VT) csi(c byte) {
	switch c {
	case 'A':
		v.R -= v.num(1)
		if v.R < 0 {
			v.R = 0
		}
		v.Pending = false
	case 'B':
		v.R += v.num(1)
		if v.R >= v.H {
			v.R = v.H - 1
		}
		v.Pending = false
	case 'C':
		v.C += v.num(1)
		if v.C >= v.W {
			v.C = v.W - 1
		}
		v.Pending = false
	case 'D':
		v.C -= v.num(1)
		if v.C < 0 {
			v.C = 0
		}
		v.Pending = false
	case 'H':
		v.R, v.C, v.Pending = 0, 0, false
		v.Home = len(v.Back)
	case 'J':
		switch v.num(0) {
		case 0:
			v.eraseRow(v.R, v.C, v.W)
			for r := v.R + 1; r < v.H; r++ {
				v.eraseRow(r, 0, v.W)
			}
		case 2:
			for r := 0; r < v.H; r++ {
				v.eraseRow(r, 0, v.W)
			}
		}
	case 'K':
		switch v.num(0) {
		case 0:
			v.eraseRow(v.R, v.C, v.W)
		case 1:
			v.eraseRow(v.R, 0, v.C+1)
		case 2:
			v.eraseRow(v.R, 0, v.W)
		}
	case 'm':
		v.Hi = strings.Contains(";"+string(v.par)+";", ";47;")
	case 'n':
		v.Reports++
		if v.OnQuery != nil {
			v.OnQuery()
		}
	default:
		v.Unknown = append(v.Unknown, fmt.Sprintf("CSI %s%c", v.par, c))
	}
}

func (v *VT) eraseRow(r, from, to int) {
	for i := from; i < to && i < v.W; i++ {
		v.Rows[r][i] = Cell{}
	}
}

// RowText renders one row without trailing blanks.
func RowText(row []Cell) string {
	var b strings.Builder
	for _, c := range row {
		switch {
		case c.R == -1:
		case c.R == 0:
			b.WriteByte(' ')
		default:
			b.WriteRune(c.R)
		}
	}
	return strings.TrimRight(b.String(), " ")
}

// Lines returns scrollback and screen as text, trailing blank rows removed.
func (v *VT) Lines() []string {
	var out []string
	for _, r := range v.Back {
		out = append(out, RowText(r))
	}
	for _, r := range v.Rows {
		out = append(out, RowText(r))
	}
	for len(out) > 0 && out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return out
}

// CursorAbs is the cursor row counted from the first scrollback line.
func (v *VT) CursorAbs() int { return len(v.Back) + v.R }
