package main

import (
	"encoding/binary"
	"math/rand"
	"net"
	"strings"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// remoteAddr is where the servers of the simulation listen.
const remoteAddr = "home:1"

// dataIn is the payload of the complete data messages in a byte stream.
func dataIn(b []byte) string {
	var out []byte
	for len(b) >= 6 {
		n := int(int32(binary.BigEndian.Uint32(b)))
		if n < 2 || len(b) < 4+n {
			break
		}
		t := binary.BigEndian.Uint16(b[4:])
		if t == uint16(readline.T_EOF) {
			break
		}
		if t == uint16(readline.T_DATA) {
			out = append(out, b[6:4+n]...)
		}
		b = b[4+n:]
	}
	return string(out)
}

// session is one session of a server.
type session struct {
	ed    *editor
	width int
	done  bool
	wn    int
	werr  error
	wrote bool
}

// serveOne is what the server does with a session: calls until the input
// ends, further calls, output, and Close.
func (e *Env) serveOne(s *session, rl *readline.Instance, calls []Op, max int) {
	ed := s.ed
	ed.rl = rl
	eofs := 0
	for i := 0; eofs < 3 && len(ed.results) < max; i++ {
		o := Op{K: "line"}
		if i < len(calls) {
			o = calls[i]
		}
		ed.call(o)
		if n := len(ed.results); n > 0 && ed.results[n-1].Err != "" && ed.results[n-1].Err != "interrupt" {
			eofs++
		}
	}
	s.wn, s.werr = rl.Stdout().Write([]byte("goodbye\n"))
	s.wrote = true
	ed.closeEr = rl.Close()
	rl.Close()
	ed.closed = true
	s.done = true
}

func init() {
	register(&Property{
		ID:   "C19",
		Rule: "A client and a server process are connected; at an arbitrary instant the client ends its input, dies, closes, the connection breaks, or the server closes, with keys, output and calls under way. Everything has to return within bounded time with the results of what arrived, then end of input; a second session of the same server must not notice.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C19")
			genBase(r, sc, edOpts{writers: true})
			delete(sc.P, "notty")
			delete(sc.Faults, "eintr")
			sc.P["remote"] = 1
			netFaults(r, sc)
			sc.P["second"] = r.Intn(2)
			sc.P["mute"] = r.Intn(3)
			for n := r.Intn(5); n > 0; n-- {
				sc.add("app", Op{K: pick(r, "line", "line", "slice", "pass", "default"), S: randWord(r)})
			}
			style := r.Intn(4)
			key := func() {
				sc.typeKeys(r, "user", style, pick(r, "a", "b", "c", "\r", "\r", "\x7f", "\x02", "\x01", "\x03", "\x10", "\x15"))
			}
			for n := r.Intn(25); n > 0; n-- {
				key()
				// clients of one simulation share the package's resize hook
				if sc.P["second"] == 0 && chance(r, 0.05) {
					sc.add("user", Op{K: "resize", N: 2 + r.Intn(100)})
				}
			}
			sc.add("user", Op{K: "cut", S: pick(r, "eof", "kill", "close", "reset", "svrclose", "svrconn")})
			for n := r.Intn(6); n > 0; n-- {
				key()
			}
			return sc
		},
		Run: func(e *Env) { e.runDisconnect() },
	})
}

func (e *Env) runDisconnect() {
	e.world1()
	e.cliConn, e.svrConn = nil, nil
	e.net.Conns = nil
	cfg := e.baseConfig()
	nkeys := 0
	cut := ""
	for _, o := range e.sc.A["user"] {
		if o.K == "t" {
			nkeys++
		}
		if o.K == "cut" {
			cut = o.S
		}
	}
	one := &session{ed: &editor{e: e}}
	two := &session{ed: &editor{e: e}}
	sessions := 0
	var ln net.Listener
	listener := e.s.GoIn(e.proc, "listener", func() {
		err := readline.ListenRemote("sim", remoteAddr, cfg, func(rl *readline.Instance) {
			sessions++
			s, calls, max := one, e.sc.A["app"], nkeys+20
			if rl.Config.FuncGetWidth() == 1777 {
				s, calls, max = two, nil, 20
			}
			e.serveOne(s, rl, calls, max)
		}, func(l net.Listener) error {
			ln = l
			return nil
		})
		if err != nil {
			e.Violate("listen", "ListenRemote returned %v", err)
		}
	})
	for i := 0; i < 100 && ln == nil; i++ {
		e.s.Sleep(time.Millisecond)
	}
	if ln == nil {
		e.Violate("listen", "the server does not listen")
		return
	}
	if e.p("mute") == 1 {
		// somebody connects and says nothing, or half a word
		c, _ := e.net.Dial(remoteAddr)
		if len(e.sc.A["user"])%2 == 0 {
			c.Write([]byte{0, 0, 0, 4, 0, 3})
		}
	}
	first := len(e.net.Conns)
	e.client = e.s.GoIn(e.cli, "client", func() { e.cliErr = readline.DialRemote("sim", remoteAddr) })
	for i := 0; i < 100 && len(e.net.Conns) == first; i++ {
		e.s.WaitSteps(1)
	}
	if len(e.net.Conns) == first {
		e.s.WaitIdle()
	}
	if len(e.net.Conns) == first {
		e.Violate("dial", "the client does not connect")
		return
	}
	e.cliConn, e.svrConn = e.net.Conns[first], e.net.Conns[first+1]
	gs := []*simrt.G{}
	var tty2 *simrt.TTY
	var client2 *simrt.G
	if e.p("second") == 1 {
		tty2 = simrt.NewTTY(e.s, 1777, 24)
		p2 := e.s.NewProc("client2", tty2, e.fs, e.net)
		client2 = e.s.GoIn(p2, "client2", func() { readline.DialRemote("sim", remoteAddr) })
		tty2.Type([]byte("two\r"))
	}
	if len(e.sc.A["writer"]) > 0 {
		gs = append(gs, e.s.GoIn(e.proc, "writer", func() {
			for i := 0; one.ed.rl == nil; i++ {
				if i > 50 {
					return
				}
				e.s.Sleep(20 * time.Millisecond)
			}
			for _, o := range e.sc.A["writer"] {
				if o.K != "w" {
					e.user([]Op{o}, nil)
					continue
				}
				if n, err := one.ed.rl.Stdout().Write([]byte(o.S)); n < 0 || n > len(o.S) || n < len(o.S) && err == nil {
					e.Violate("write-result", "Write(%q) returned %d, %v", o.S, n, err)
				}
			}
		}))
	}
	e.user(e.sc.A["user"], func(o Op) bool {
		if o.K != "cut" {
			return false
		}
		e.s.Note("cut: %s", o.S)
		e.s.Fired["cut-"+o.S]++
		switch o.S {
		case "eof":
			e.tty.EOF(nil)
		case "kill":
			e.s.KillProc(e.cli)
			e.cliConn.Kill()
		case "close":
			e.cliConn.Close()
		case "reset":
			e.cliConn.Reset()
		case "svrclose":
			gs = append(gs, e.s.GoIn(e.proc, "closer", func() {
				for i := 0; one.ed.rl == nil && i < 100; i++ {
					e.s.Sleep(20 * time.Millisecond)
				}
				if one.ed.rl != nil {
					one.ed.rl.Close()
				}
			}))
		case "svrconn":
			e.svrConn.Close()
		}
		return true
	})
	if cut == "" { // a minimised scenario
		return
	}
	if cut != "kill" {
		gs = append(gs, e.client)
	}
	if !e.await(30*time.Second, gs...) {
		e.Violate("hang", "30 s after %q not everything returned; results so far: %s; tasks: %s", cut, joinRes(one.ed.results), e.stuck())
		return
	}
	e.settleTime()
	if one.ed.rl != nil && !one.done {
		e.Violate("hang", "30 s after %q the server still works on the session; results so far: %s; tasks: %s", cut, joinRes(one.ed.results), e.stuck())
		return
	}
	e.cases++
	if !e.svrConn.Closed() {
		e.Violate("connection-open", "the session is over (%q) but its connection is still open", cut)
	}
	if cut != "kill" && !e.tty.Restored() {
		e.Violate("client-mode", "after %q the client returned but its terminal is not restored", cut)
	}
	if one.ed.rl != nil {
		e.checkSession(one, cut)
		if cut != "svrclose" {
			var n int
			var err error
			g := e.s.GoIn(e.proc, "late-writer", func() { n, err = one.ed.rl.Stdout().Write([]byte("late")) })
			if !e.await(5*time.Second, g) {
				e.Violate("write-hang", "a Write after the end of the session does not return; tasks: %s", e.stuck())
				return
			}
			if err == nil {
				e.Violate("write-late", "a Write after the end of the session returned %d, nil", n)
			}
		}
	}
	if tty2 != nil {
		tty2.Type([]byte("again\r"))
		e.settleTime()
		tty2.EOF(nil)
		if !e.await(20*time.Second, client2) || !two.done {
			e.Violate("other-session", "after %q of one client the session of another does not end; its results %s; tasks: %s", cut, joinRes(two.ed.results), e.stuck())
			return
		}
		e.cases++
		r := two.ed.results
		if len(r) < 3 || r[0].Line != "two" || r[1].Line != "again" || r[2].Err != "EOF" {
			e.Violate("other-session", "after %q of one client the session of another returned %s", cut, joinRes(r))
		}
		if !tty2.Restored() {
			e.Violate("other-session", "the other client's terminal is not restored")
		}
	}
	if len(e.viols) > 0 {
		return
	}
	e.s.GoIn(e.proc, "unlisten", func() { ln.Close() })
	if !e.await(5*time.Second, listener) {
		e.Violate("listener-hang", "ListenRemote does not return although its listener is closed; tasks: %s", e.stuck())
		return
	}
	if e.p("mute") == 0 {
		e.settleTime()
		e.cases++
		if l := e.s.Live(e.proc); len(l) > 0 {
			e.Violate("left-behind", "all sessions and the listener have ended (%q), but tasks of the server are left: %s", cut, e.stuck())
		}
	}
}

// settleTime lets whatever is on its way arrive.
func (e *Env) settleTime() {
	for i := 0; i < 6; i++ {
		e.idle()
		e.s.Sleep(e.net.MaxDelay + 10*time.Millisecond)
	}
	e.idle()
}

// checkSession compares the results of a session with what reached the server.
func (e *Env) checkSession(s *session, cut string) {
	got := dataIn(e.svrConn.Got)
	if typedAll := strings.Join(typed(e.sc.A["user"]), ""); !strings.HasPrefix(typedAll, got) {
		e.Violate("wire", "the server received %q for the keys %q", got, typedAll)
		return
	}
	m := e.modelFor()
	m.Calls = e.sc.A["app"]
	for i := range got {
		m.Key(logical(got[i : i+1]))
	}
	m.End()
	for len(m.Results) < len(s.ed.results) {
		m.result(Res{Err: "EOF"})
	}
	e.cases += int64(len(s.ed.results))
	eof := 0
	for i, r := range s.ed.results {
		if r.Err == "EOF" && r.Line == "" {
			eof++
			if cut == "svrclose" {
				continue // what had arrived need not be read any more
			}
		}
		if !same(r, m.Results[i]) {
			e.Violate("session-result", "after %q call %d returned %s, expected %s (all expected: %s; all got: %s); keys that arrived %q", cut, i, r, m.Results[i], joinRes(m.Results), joinRes(s.ed.results), got)
			return
		}
	}
	if eof < 3 {
		e.Violate("session-result", "after %q the calls returned %s", cut, joinRes(s.ed.results))
		return
	}
	if cut == "eof" {
		if s.werr != nil {
			e.Violate("write-after-eof", "the client only ended its input, but a Write returned %v", s.werr)
		} else if !strings.Contains(string(e.tty.Output()), "goodbye") {
			e.Violate("write-after-eof", "the last output did not reach the client")
		}
	}
}
