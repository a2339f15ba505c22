package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// asked is a question for the place of the cursor.
type asked struct {
	got []string // what the function was called with
}

// ask has the application ask the terminal where the cursor is.
func (sc *Screen) ask(ed *editor, o Op) {
	e := sc.e
	if o.N == 1 {
		sc.sync(ed)
	}
	if ed.rl == nil || !ed.reading || !e.tty.Raw() || ed.app.Done() {
		return
	}
	if o.N == 1 {
		// some key looks like an answer, or one comes very late
		e.tty.Type([]byte([]string{"\x1b[1;99R", "\x1b[R", "\x1b[7R", "\x1b[1;2;3R"}[o.M]))
		e.idle()
		e.s.Probe("answer-to-nobody")
		return
	}
	e.s.Probe("cursor-asked")
	e.tty.VT.OnQuery = func() {
		// terminals put the answer between whole keys
		a := fmt.Sprintf("%d;%d", 1+len(sc.answers), e.tty.VT.C+1)
		sc.answers = append(sc.answers, a)
		e.s.Note("terminal answers %q", a)
		e.tty.Type([]byte("\x1b[" + a + "R"))
	}
	q := &asked{}
	sc.asked = append(sc.asked, q)
	e.s.GoIn(e.proc, "asker", func() {
		ed.rl.Terminal.GetOffset(func(s string) { q.got = append(q.got, s) })
	})
}

// checkAnswers looks whether everybody who asked got an answer of the terminal;
// everything is at rest.
func (sc *Screen) checkAnswers(ed *editor) {
	e := sc.e
	if len(sc.asked) == 0 || !ed.reading || len(e.viols) > 0 {
		return
	}
	e.cases++
	var got []string
	for i, q := range sc.asked {
		if len(q.got) != 1 {
			e.Violate("offset", "question %d of %d for the place of the cursor: the function was called with %q; the terminal answered %q", i, len(sc.asked), q.got, sc.answers)
			return
		}
		got = append(got, q.got[0])
	}
	want := append([]string{}, sc.answers...)
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		e.Violate("offset", "the functions were called with %q, the terminal answered %q", got, want)
	}
}

func init() {
	register(&Property{
		ID:   "C28",
		Rule: "The application asks where the cursor is, from any task and several times over, while lines are edited, searched and completed; the terminal's answer arrives in pieces among the keys. Each question is answered once with what the terminal said, and the results, the Listener's events and the screen are those of a session without questions.",
		Gen: func(r *rand.Rand) *Scn {
			sc := registry["C14"].Gen(r)
			for sc.P["vim"] == 1 { // a lone Escape and an answer are no two keys
				sc = registry["C14"].Gen(r)
			}
			sc.Prop = "C28"
			sc.P["listen"] = r.Intn(2)
			p := []float64{0.05, 0.2, 0.5}[r.Intn(3)]
			var out []Op
			for _, o := range sc.A["user"] {
				if strings.HasPrefix(o.S, "\x1b[") && strings.HasSuffix(o.S, "R") {
					continue // the answer to a question nobody asked
				}
				out = append(out, o)
				for n := 0; n < 4 && chance(r, p); n++ {
					out = append(out, Op{K: "offset", N: r.Intn(5), M: r.Intn(4)})
				}
			}
			sc.A["user"] = out
			if chance(r, 0.3) {
				sc.P["remote"] = 1
				for i, o := range out {
					if o.K == "t" && strings.Contains(o.S, "\x1a") {
						out[i] = Op{K: "check"}
					}
				}
				delete(sc.Faults, "eintr")
				netFaults(r, sc)
			}
			return sc
		},
		Run: func(e *Env) { registry["C14"].Run(e) },
	})
}
