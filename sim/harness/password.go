package main

import (
	"bytes"
	"math/rand"
	"strings"
)

// Characters that are only typed at password prompts.
const secrets = "ЖЩЮЯѲѪ鬱"

func isSecret(k string) bool { return strings.ContainsAny(k, secrets) }

func init() {
	register(&Property{
		ID:   "C12",
		Rule: "Sessions mixing line and password calls (plain, masked, with a Listener) that end in every way, with editing, recall, search and completion keys, output and type-ahead; what is typed at password prompts must not occur in any byte written to the terminal or the history file, and results, screen, recall and completion are compared with the reference.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C12")
			genScreen(r, sc, edOpts{})
			if chance(r, 0.5) {
				sc.S["histfile"] = "/home/.hist"
				sc.S["hist"] = histText(r, r.Intn(6), "ab ")
			}
			if chance(r, 0.4) {
				genWords(r, sc)
				sc.P["fixedh"] = 300
			}
			if chance(r, 0.5) {
				sc.P["listen"] = 1
			}
			if chance(r, 0.1) {
				sc.P["vim"] = 1
			}
			style := r.Intn(4)
			id := 100
			keys := []string{"left", "left", "right", "home", "end", "backspace127", "backspace8", "del", "kill", "kill-front", "word-rub", "yank", "yank",
				"word-back", "word-fwd", "word-del", "transpose", "clear", "cancel", "up", "down", "search-back", "search-fwd", "tab", "ignored"}
			if chance(r, 0.3) {
				keys = []string{"left", "backspace127", "yank", "kill-front"}
			}
			if sc.P["vim"] == 1 {
				keys = append(keys, "esc")
			}
			key := func(k string) string {
				if sc.P["vim"] == 1 {
					return keyBytes[k][0]
				}
				return pickKey(r, k)
			}
			for n := 2 + r.Intn(5); n > 0; n-- {
				kind := pick(r, "line", "line", "pass", "pass", "passex", "passmask", "passre")
				o := Op{K: kind}
				alpha := "ab "
				if kind != "line" {
					alpha = secrets
					o.S = pick(r, "pw: ", "", "password for the machine at home: ", "\x1b[31mpw\x1b[0m> ")
				}
				if kind == "passmask" || kind == "passre" {
					o.N = []int{'*', '#', '日', 0}[r.Intn(4)]
				}
				if kind == "line" && chance(r, 0.1) {
					sc.add("app", Op{K: "prompt", S: prompts[r.Intn(len(prompts))]})
				}
				sc.add("app", o)
				ks := newScn("")
				ks.P, ks.Prop = sc.P, sc.Prop
				mixKeys(r, ks, style, r.Intn(14), []float64{0.5, 0.8}[r.Intn(2)], textFrom(r, alpha), keys)
				for _, u := range ks.A["user"] {
					sc.add("user", u)
					if u.K == "t" && chance(r, 0.1) {
						sc.add("user", Op{K: "check"})
					}
					if u.K == "t" && chance(r, 0.05) {
						id++
						sc.add("user", Op{K: pick(r, "out", "async"), S: outText(r, id) + "\n", N: r.Intn(3)})
					}
				}
				switch r.Intn(6) {
				case 0:
					// twice: the first one may only leave a mode
					sc.typeKeys(r, "user", style, key("cancel"), key("intr"))
				case 1:
					sc.typeKeys(r, "user", style, key("cancel"), key("end"), key("kill-front"), key("del"))
				default:
					sc.typeKeys(r, "user", style, key("enter"))
				}
				if chance(r, 0.3) {
					sc.add("user", Op{K: "check"})
				}
			}
			for _, o := range sc.A["user"] {
				if strings.HasPrefix(o.S, keyBytes["search-back"][0]) {
					delete(sc.P, "painter")
				}
			}
			delete(sc.P, "painter")
			return sc
		},
		Run: func(e *Env) {
			e.world1()
			ed := &editor{}
			cfg := e.baseConfig()
			var ms []*Model
			sc := e.runScreen(ed, cfg, func(m *Model) {
				e.completer(cfg, m)
				m.Secret = isSecret
				ms = append(ms, m)
			})
			m := ms[0]
			if len(e.viols) > 0 {
				return
			}
			e.checkWrites(sc.all)
			// what the Listener of a password call saw
			for i := 0; i < len(m.PassEvents) || i < len(ed.passEvents); i++ {
				e.cases++
				if i >= len(m.PassEvents) || i >= len(ed.passEvents) || m.PassEvents[i] != ed.passEvents[i] {
					e.Violate("password-listener", "the Listener of the password call saw %v, expected %v", ed.passEvents, m.PassEvents)
					return
				}
			}
			if m.Leaked {
				return // the user typed it somewhere else as well
			}
			e.s.Probe("password-secret")
			e.cases++
			out := e.tty.Output()
			for _, c := range secrets {
				if i := bytes.Index(out, []byte(string(c))); i >= 0 {
					e.Violate("password-shown", "%q, which was only typed at a password prompt, was written to the terminal: ...%q", c, clip(out, i))
					return
				}
			}
			if f := e.str("histfile"); f != "" {
				e.cases++
				b, _ := e.fs.Bytes(f)
				if bytes.ContainsAny(b, secrets) {
					e.Violate("password-stored", "the history file holds what was only typed at a password prompt: %q", b)
				}
				ed.checkHistFile(m)
			}
			for _, v := range ed.events {
				if isSecret(v.line) {
					e.Violate("password-seen", "the Listener of the instance saw what was only typed at a password prompt: %v", v)
					return
				}
			}
		},
	})
}

func clip(b []byte, i int) []byte {
	if i > 20 {
		b = b[i-20:]
	}
	if len(b) > 60 {
		b = b[:60]
	}
	return b
}
