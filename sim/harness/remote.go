package main

import (
	"math/rand"
	"strings"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// remoteWorld turns the world into a client with the terminal and a server
// with the file system, connected by a network.
func (e *Env) remoteWorld() {
	e.cli = e.proc
	e.cli.Name = "client"
	e.svrTTY = simrt.NewTTY(e.s, 133, 24)
	e.proc = e.s.NewProc("server", e.svrTTY, e.fs, e.net)
	e.net.MaxDelay = time.Duration(e.p("delay")) * time.Millisecond
	if n := e.p("netcap"); n > 0 {
		e.net.Cap = n
	}
	e.cliConn, e.svrConn = e.net.Pipe("cli", "svr")
}

// open makes the instance of an application.
func (e *Env) open(cfg *readline.Config) (*readline.Instance, error) {
	if e.svrConn != nil {
		return readline.HandleConn(*cfg, e.svrConn)
	}
	if e.p("prior") == 1 {
		// an instance which was used for nothing
		old, err := readline.NewEx(&readline.Config{Prompt: "old> "})
		if err != nil {
			return nil, err
		}
		old.Close()
		e.s.Probe("instance-before")
	}
	return readline.NewEx(cfg)
}

// startClient starts the user's side of a remote session.
func (e *Env) startClient(ed *editor) {
	if e.cli == nil {
		return
	}
	e.client = e.s.GoIn(e.cli, "client", func() {
		c, err := readline.NewRemoteCli(e.cliConn)
		if err != nil {
			e.cliErr = err
			return
		}
		e.cliErr = c.Serve()
		e.cliConn.Close()
	})
	ed.extra = append(ed.extra, e.client)
}

// remoteKinds are the local sessions that are played over a connection.
var remoteKinds = []string{"C01", "C02", "C04", "C10", "C11", "C12", "C13", "C14", "C14", "C16", "C23"}

// askTerminal asks the server for what it knows of the client's terminal.
func (e *Env) askTerminal(ed *editor) {
	e.idle()
	if ed.rl == nil || ed.closing || ed.closed || ed.app.Done() {
		return
	}
	e.cases++
	e.s.Probe("terminal-asked")
	want := e.tty.W
	if !e.tty.IsTTY {
		want = -1
	}
	if w := ed.rl.Config.FuncGetWidth(); w != want {
		e.Violate("remote-width", "the client's terminal is %d columns wide (-1: not known), the server was told %d", want, w)
	}
	if t := ed.rl.Config.FuncIsTerminal(); t != e.tty.IsTTY {
		e.Violate("remote-terminal", "the client has a terminal: %v, the server was told %v", e.tty.IsTTY, t)
	}
}

func netFaults(r *rand.Rand, sc *Scn) {
	if chance(r, 0.6) {
		sc.Faults["net-short-read"] = []float64{0.1, 0.9}[r.Intn(2)]
	}
	if chance(r, 0.6) {
		sc.Faults["net-split"] = []float64{0.1, 0.9}[r.Intn(2)]
	}
	if chance(r, 0.5) {
		sc.P["delay"] = []int{1, 5, 40, 300}[r.Intn(4)]
	}
	if len(sc.A["user"]) > 300 {
		// a long line is drawn again with every key
		delete(sc.P, "delay")
		return
	}
	if sc.P["delay"] <= 1 && chance(r, 0.15) {
		sc.P["netcap"] = []int{16, 64, 300}[r.Intn(3)]
	}
}

func init() {
	register(&Property{
		ID:   "C18",
		Rule: "The sessions of the local checks (editing, history, search, completion, passwords, default text, vi, concurrent output, resizes) are played by a client process over a simulated connection with delays, fragmentation and small buffers against a server process; results, Listener events, written output, screen and terminal modes are held to the same references.",
		Gen: func(r *rand.Rand) *Scn {
			kind := remoteKinds[r.Intn(len(remoteKinds))]
			sc := registry[kind].Gen(r)
			sc.S["sub"] = kind
			sc.P["remote"] = 1
			delete(sc.P, "errsink")
			// os.File retries interrupted reads itself
			delete(sc.Faults, "eintr")
			delete(sc.Faults, "out-err")
			delete(sc.Faults, "out-short")
			for a, ops := range sc.A {
				var out []Op
				for _, o := range ops {
					// Ctrl-Z stops the server, which is not the user's
					if o.K == "t" && strings.Contains(o.S, "\x1a") {
						continue
					}
					out = append(out, o)
				}
				sc.A[a] = out
			}
			netFaults(r, sc)
			if chance(r, 0.3) {
				sc.P["asks"] = 1
			}
			return sc
		},
		Run: func(e *Env) {
			registry[e.str("sub")].Run(e)
			if len(e.viols) > 0 {
				return
			}
			e.cases++
			if !e.client.Done() {
				e.Violate("client-hang", "the server closed the connection but Serve does not return; tasks: %s", e.stuck())
				return
			}
			if e.cliErr != nil {
				e.Violate("client-error", "Serve returned %v", e.cliErr)
			}
			if !e.tty.Restored() {
				e.Violate("client-mode", "the client's terminal is not restored after the session")
			}
			if n := len(e.svrTTY.Log); n > 0 || e.svrTTY.Sets > 0 || e.svrTTY.Reads > 0 {
				e.Violate("server-terminal", "a remote session used the server's own terminal: %d writes, %d mode changes, %d reads", n, e.svrTTY.Sets, e.svrTTY.Reads)
			}
		},
	})
}
