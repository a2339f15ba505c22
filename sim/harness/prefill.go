package main

import (
	"math/rand"
	"time"
)

// stops tells whether a key may end a call.
func stops(k string) bool { return k == "enter" || k == "ctrl-j" || k == "intr" || k == "del" }

func init() {
	register(&Property{
		ID:   "C15",
		Rule: "Texts of every length and kind are given to WriteStdin (in one or several pieces) or ReadlineWithDefault before calls, while the user types before, during and after; the returned lines and what the Listener sees are compared with a reference editor.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C15")
			genBase(r, sc, edOpts{writers: true})
			if chance(r, 0.5) {
				sc.P["listen"] = 1
			}
			if chance(r, 0.3) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(4), "ab ")
			}
			text := func() string {
				n := r.Intn(12)
				switch r.Intn(25) {
				case 0:
					n = []int{4090, 4096, 4097, 5000}[r.Intn(4)]
				case 1, 2:
					n = 200 + r.Intn(100)
				}
				if n > 1000 {
					// drawing it for every character would take too long
					sc.P["notty"] = 1
				}
				if n > 100 {
					sc.P["fixedw"] = 200
					delete(sc.P, "listen")
				}
				return randText(r, n)
			}
			for n := 1 + r.Intn(5); n > 0; n-- {
				if chance(r, 0.4) {
					sc.add("app", Op{K: "ms", N: 1 + r.Intn(20)})
				}
				switch r.Intn(7) {
				case 0, 1:
					sc.add("app", Op{K: "prefill", S: text()})
				case 2:
					// in pieces that cut characters in two
					for k := 1 + r.Intn(3); k > 0; k-- {
						sc.add("app", Op{K: "fill", S: text(), N: 1 + r.Intn(7)})
						if chance(r, 0.2) {
							sc.add("app", Op{K: "ms", N: 1 + r.Intn(5)})
						}
					}
					sc.add("app", Op{K: pick(r, "line", "slice", "pass", "runes")})
				case 3, 4:
					sc.add("app", Op{K: "default", S: text()})
				case 5:
					sc.add("app", Op{K: "fill", S: text()})
					sc.add("app", Op{K: "default", S: text()})
				default:
					sc.add("app", Op{K: pick(r, "line", "slice")})
				}
			}
			keys := append([]string{"up", "down", "enter", "enter", "enter"}, editKeys...)
			if chance(r, 0.12) {
				// another configuration, with a history of its own
				delete(sc.S, "histfile")
				delete(sc.S, "hist")
				delete(sc.P, "listen")
				keys = keys[2:]
				app := sc.A["app"]
				i := r.Intn(len(app))
				sc.A["app"] = append(append(append([]Op{}, app[:i]...), Op{K: "newcfg"}), app[i:]...)
			}
			mixKeys(r, sc, r.Intn(4), 3+r.Intn(40), []float64{0.3, 0.6, 0.8}[r.Intn(3)], textFrom(r, "xy "), keys)
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			ed := &editor{}
			ed.onUser = func(o Op) bool {
				if o.K != "t" || !stops(logical(o.S)) {
					return false
				}
				// what is typed after a key that may end the call was not read
				// together with it
				e.s.Note("user types %q", o.S)
				e.tty.Type([]byte(o.S))
				e.idle()
				for i := 0; e.tty.Pending() > 0 && i < 1000; i++ {
					e.s.Sleep(time.Millisecond)
					e.idle()
				}
				return true
			}
			e.runEditorWith(ed, e.baseConfig(), e.modelFor())
		},
	})
}
