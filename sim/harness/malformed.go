package main

import (
	"encoding/binary"
	"encoding/hex"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

func message(t int, data string) []byte { return rawMessage(len(data)+2, t, data) }

func rawMessage(length, t int, data string) []byte {
	b := make([]byte, 6, 6+len(data))
	binary.BigEndian.PutUint32(b, uint32(int32(length)))
	binary.BigEndian.PutUint16(b[4:], uint16(int16(t)))
	return append(b, data...)
}

func shortWord(n int) string { return string([]byte{byte(n >> 8), byte(n)}) }

// peerView is what a byte stream means to the receiver by the protocol: the
// messages up to the first malformed or incomplete one.
type peerView struct {
	types []int
	data  []string
	bad   bool
}

func parsePeer(b []byte) peerView {
	var v peerView
	for len(b) >= 6 {
		n := int(int32(binary.BigEndian.Uint32(b)))
		if n < 2 {
			v.bad = true
			return v
		}
		if len(b) < 4+n {
			break
		}
		v.types = append(v.types, int(int16(binary.BigEndian.Uint16(b[4:]))))
		v.data = append(v.data, string(b[6:4+n]))
		b = b[4+n:]
	}
	return v
}

var damage = []int{-1, -2, -1 << 31, 0, 1, 1<<31 - 1, 1<<31 - 3, 1 << 28, 70000, 3}

func init() {
	register(&Property{
		ID:   "C20",
		Rule: "A peer that sends arbitrary messages - wrong first messages, negative, tiny, huge and wrong lengths, unknown types, short payloads, absurd widths, noise - plays the client of a real server, or the server of a real client, while a well-behaved second session goes on; what was well-formed before the damage has to be delivered, then the session has to end, memory must stay bounded and the other session unaffected.",
		Gen: func(r *rand.Rand) *Scn {
			sc := newScn("C20")
			genBase(r, sc, edOpts{writers: true})
			delete(sc.P, "notty")
			delete(sc.Faults, "eintr")
			netFaults(r, sc)
			delete(sc.P, "netcap")
			send := func(b []byte) {
				sc.add("peer", Op{K: "raw", S: hex.EncodeToString(b)})
				sc.add("peer", pace(r, 3)...)
			}
			if chance(r, 0.3) {
				sc.P["badsvr"] = 1
				for n := r.Intn(12); n > 0; n-- {
					switch r.Intn(8) {
					case 0, 1, 2:
						send(message(int(readline.T_DATA), randText(r, r.Intn(40))))
					case 3:
						send(message(int(readline.T_RAW), pick(r, "", "x")))
					case 4:
						send(message(int(readline.T_ERAW), pick(r, "", "x")))
					case 5:
						send(message(r.Intn(1<<16)-1<<15, randText(r, r.Intn(10))))
					case 6:
						send(rawMessage(damage[r.Intn(len(damage))], r.Intn(8), randText(r, r.Intn(5))))
					default:
						send(hostileBytes(r))
					}
				}
				for n := r.Intn(10); n > 0; n-- {
					sc.typeKeys(r, "user", 3, printable(r))
				}
			} else {
				sc.P["second"] = r.Intn(2)
				switch r.Intn(6) {
				case 0:
					send(hostileBytes(r))
				case 1:
					send(message(r.Intn(9)-1, pick(r, "", "\x00", "\x00\x01", "\x00\x50\x00")))
					send(message(r.Intn(9)-1, pick(r, "", "\x00", "\x00\x01", "\x00\x50\x00")))
				case 2:
					send(rawMessage(damage[r.Intn(len(damage))], int(readline.T_ISTTY_REPORT), pick(r, "", "\x00\x01")))
				default:
					send(message(int(readline.T_ISTTY_REPORT), pick(r, "\x00\x01", "\x00\x01", "\x00\x00", "\x00\x01x")))
					send(message(int(readline.T_WIDTH_REPORT), pick(r, "\x00\x50", "\x00\x50", "\x00\x00", "\x00\x01", "\xff\xff")))
				}
				for n := r.Intn(16); n > 0; n-- {
					switch r.Intn(9) {
					case 0, 1, 2, 3:
						send(message(int(readline.T_DATA), pick(r, "a", "b", "abc", "\r", "ab\rc\r", "\x7f", "", "\x01", "\x03")))
					case 4:
						send(message(int(readline.T_WIDTH_REPORT), pick(r, "", "\x00", "\x00\x00", "\x00\x01", "\x00\x50", "\xff\xff", "\x00\x50xx")))
					case 5:
						send(message(int(readline.T_ISTTY_REPORT), pick(r, "", "\x00", "\x00\x00", "\x00\x01", "\x00\x01x")))
					case 6:
						send(message([]int{1, 4, 5, 7, 8, 99, -1, -1 << 15}[r.Intn(8)], randText(r, r.Intn(10))))
					case 7:
						if chance(r, 0.4) {
							send(message(int(readline.T_EOF), pick(r, "", "x")))
							n = 1
						}
					default:
						if chance(r, 0.3) {
							send(rawMessage(damage[r.Intn(len(damage))], r.Intn(8), randText(r, r.Intn(5))))
						}
						if chance(r, 0.2) {
							send(hostileBytes(r))
						}
					}
				}
			}
			sc.S["end"] = pick(r, "close", "close", "reset", "stay")
			return sc
		},
		Run: func(e *Env) {
			var before, after runtime.MemStats
			runtime.ReadMemStats(&before)
			if e.p("badsvr") == 1 {
				e.runBadServer()
			} else {
				e.runBadClient()
			}
			runtime.ReadMemStats(&after)
			if d := after.TotalAlloc - before.TotalAlloc; d > 200<<20 {
				e.Violate("memory", "the session allocated %d MB for a stream of %d bytes", d>>20, len(e.peerBytes()))
			}
		},
	})
}

func (e *Env) peerBytes() []byte {
	var b []byte
	for _, o := range e.sc.A["peer"] {
		if o.K == "raw" {
			b = append(b, unhex(o.S)...)
		}
	}
	return b
}

// playPeer sends the script of the peer over c and ends the connection.
func (e *Env) playPeer(c *simrt.Conn) {
	e.user(e.sc.A["peer"], func(o Op) bool {
		if o.K != "raw" {
			return false
		}
		b := unhex(o.S)
		e.s.Note("peer sends %q", b)
		c.Write(b)
		return true
	})
	switch e.str("end") {
	case "close":
		c.Close()
	case "reset":
		e.settleTime() // what was sent arrives
		c.Reset()
	}
}

func (e *Env) runBadClient() {
	e.world1()
	e.net.MaxDelay = time.Duration(e.p("delay")) * time.Millisecond
	stream := e.peerBytes()
	v := parsePeer(stream)
	cfg := e.baseConfig()
	one := &session{ed: &editor{e: e}}
	two := &session{ed: &editor{e: e}}
	var ln net.Listener
	listener := e.s.GoIn(e.proc, "listener", func() {
		readline.ListenRemote("sim", remoteAddr, cfg, func(rl *readline.Instance) {
			s := one
			if rl.Config.FuncGetWidth() == 21777 {
				s = two
			}
			e.serveOne(s, rl, nil, len(stream)+20)
		}, func(l net.Listener) error {
			ln = l
			return nil
		})
	})
	for i := 0; i < 100 && ln == nil; i++ {
		e.s.Sleep(time.Millisecond)
	}
	if ln == nil {
		e.Violate("listen", "the server does not listen")
		return
	}
	dial := func() (*simrt.Conn, *simrt.Conn) {
		n := len(e.net.Conns)
		e.net.Dial(remoteAddr)
		return e.net.Conns[n], e.net.Conns[n+1]
	}
	// the connection is drained by a reader of the peer
	drain := func(c *simrt.Conn, into *[]byte) {
		e.s.GoIn(nil, "peer-reader", func() {
			b := make([]byte, 4096)
			for {
				n, err := c.Read(b)
				if err != nil {
					return
				}
				*into = append(*into, b[:n]...)
			}
		})
	}
	var out1, out2 []byte
	c1, s1 := dial()
	drain(c1, &out1)
	var c2 *simrt.Conn
	if e.p("second") == 1 {
		c2, _ = dial()
		drain(c2, &out2)
		c2.Write(message(int(readline.T_ISTTY_REPORT), "\x00\x01"))
		c2.Write(message(int(readline.T_WIDTH_REPORT), shortWord(21777)))
		c2.Write(message(int(readline.T_DATA), "two\r"))
	}
	e.playPeer(c1)
	e.settleTime()
	// what the protocol says
	okInit := len(v.types) >= 2 && v.types[0] == int(readline.T_ISTTY_REPORT) && len(v.data[0]) >= 2 && v.types[1] == int(readline.T_WIDTH_REPORT) && len(v.data[1]) >= 2
	badInit := len(v.types) >= 1 && (v.types[0] != int(readline.T_ISTTY_REPORT) || len(v.data[0]) < 2) ||
		len(v.types) >= 2 && (v.types[1] != int(readline.T_WIDTH_REPORT) || len(v.data[1]) < 2) || v.bad && len(v.types) < 2
	eof := false
	keys := ""
	odd := false
	if okInit {
		for i := 2; i < len(v.types); i++ {
			switch v.types[i] {
			case int(readline.T_DATA):
				if eof {
					odd = true // data after the end
				}
				keys += v.data[i]
			case int(readline.T_EOF):
				eof = true
			}
		}
	}
	ended := v.bad || eof || e.str("end") != "stay"
	e.cases++
	if badInit || !okInit && e.str("end") != "stay" {
		if one.ed.rl != nil {
			e.Violate("bad-init", "a session was started for a peer that began with %q", stream)
			return
		}
		if !s1.Closed() {
			e.Violate("bad-init", "the connection of a peer that began with %q is still open", stream)
			return
		}
	} else if okInit {
		m := e.modelFor()
		for _, c := range keys {
			if c < 32 || c == 127 {
				if k := logical(string(c)); k == "suspend" || k == "del" || k == "tab" {
					odd = true
				}
			}
			if c > 127 || c == 27 || c == 0 {
				odd = true // noise that happens to be data
			}
			if !odd {
				m.Key(logical(string(c)))
			}
		}
		if one.ed.rl == nil {
			e.Violate("no-session", "no session was started for a peer that sent %q", stream)
			return
		}
		if ended {
			m.End()
			for i := 0; i < 3; i++ {
				m.result(Res{Err: "EOF"})
			}
			for i := 0; i < 20 && !one.done; i++ {
				e.s.Sleep(time.Second)
				e.idle()
			}
			if !one.done {
				e.Violate("no-end", "the session of a peer that sent %q and ended (%s) does not end; results %s; tasks: %s", stream, e.str("end"), joinRes(one.ed.results), e.stuck())
				return
			}
		}
		if !odd {
			for i, r := range one.ed.results {
				e.cases++
				if i < len(m.Results) && !same(r, m.Results[i]) {
					e.Violate("bad-result", "call %d returned %s, expected %s (all expected: %s; all got: %s) for the stream %q", i, r, m.Results[i], joinRes(m.Results), joinRes(one.ed.results), stream)
					return
				}
			}
			if len(one.ed.results) < len(m.Results)-1 {
				e.Violate("bad-result", "the calls returned %s, expected %s for the stream %q", joinRes(one.ed.results), joinRes(m.Results), stream)
				return
			}
		}
	}
	if c2 != nil {
		c2.Write(message(int(readline.T_DATA), "again\r"))
		e.settleTime()
		c2.Write(message(int(readline.T_EOF), ""))
		for i := 0; i < 20 && !two.done; i++ {
			e.settleTime()
			e.s.Sleep(100 * time.Millisecond)
		}
		r := two.ed.results
		e.cases++
		if len(r) < 3 || r[0].Line != "two" || r[1].Line != "again" || r[2].Err != "EOF" {
			e.Violate("other-session", "beside a peer that sent %q another session returned %s", stream, joinRes(r))
			return
		}
		if o := dataIn(out2); !strings.Contains(o, "goodbye") {
			e.Violate("other-session", "beside a peer that sent %q another session did not get its output, only %q", stream, o)
		}
	}
	e.s.GoIn(e.proc, "unlisten", func() { ln.Close() })
	if !e.await(5*time.Second, listener) {
		e.Violate("listener-hang", "ListenRemote does not return although its listener is closed; tasks: %s", e.stuck())
	}
}

func (e *Env) runBadServer() {
	e.world1()
	e.net.MaxDelay = time.Duration(e.p("delay")) * time.Millisecond
	stream := e.peerBytes()
	v := parsePeer(stream)
	cli, svr := e.net.Pipe("cli", "svr")
	done := false
	var serr error
	g := e.s.GoIn(e.proc, "client", func() {
		c, err := readline.NewRemoteCli(cli)
		if err != nil {
			e.Violate("client", "NewRemoteCli returned %v", err)
			return
		}
		serr = c.Serve()
		cli.Close()
		done = true
	})
	e.s.GoIn(nil, "peer-reader", func() {
		b := make([]byte, 4096)
		for {
			if _, err := svr.Read(b); err != nil {
				return
			}
		}
	})
	typist := e.s.GoIn(nil, "typist", func() { e.user(e.sc.A["user"], nil) })
	e.playPeer(svr)
	e.settleTime()
	want := ""
	raw := false
	for i, t := range v.types {
		switch t {
		case int(readline.T_DATA):
			want += v.data[i]
		case int(readline.T_RAW):
			raw = true
		case int(readline.T_ERAW):
			raw = false
		}
	}
	ended := v.bad || e.str("end") != "stay"
	if ended && !e.await(10*time.Second, g, typist) {
		e.Violate("client-hang", "Serve does not return although the server sent %q and ended (%s); tasks: %s", stream, e.str("end"), e.stuck())
		return
	}
	e.cases++
	if out := string(e.tty.Output()); out != want && serr == nil { // it could introduce itself
		e.Violate("client-output", "the client's terminal shows %q, expected %q for the stream %q", out, want, stream)
	}
	if ended && !e.tty.Restored() {
		e.Violate("client-mode", "Serve returned but the terminal is not restored; stream %q", stream)
	}
	if !ended && !done && raw != e.tty.Raw() {
		e.Violate("client-mode", "the terminal is raw: %v, expected %v after the stream %q", e.tty.Raw(), raw, stream)
	}
}
