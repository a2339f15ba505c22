package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verifsim/readline"
	"verifsim/simrt"
)

// Op is one step of an actor's script.
type Op struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
	M int    `json:"m,omitempty"`
}

// Scn is one scenario: everything of a run that is not scheduling.
type Scn struct {
	Prop   string             `json:"prop"`
	Strat  simrt.Strategy     `json:"strat"`
	Faults map[string]float64 `json:"faults,omitempty"`
	P      map[string]int     `json:"p,omitempty"`
	S      map[string]string  `json:"s,omitempty"`
	A      map[string][]Op    `json:"a,omitempty"`
}

func newScn(prop string) *Scn {
	return &Scn{Prop: prop, Faults: map[string]float64{}, P: map[string]int{}, S: map[string]string{}, A: map[string][]Op{}}
}

func (sc *Scn) clone() *Scn {
	b, _ := json.Marshal(sc)
	n := newScn(sc.Prop)
	json.Unmarshal(b, n)
	return n
}

func (sc *Scn) add(actor string, ops ...Op) { sc.A[actor] = append(sc.A[actor], ops...) }

func (sc *Scn) size() int {
	n := len(sc.Faults)
	for _, a := range sc.A {
		n += len(a)
		for _, o := range a {
			n += len(o.S)
		}
	}
	for _, v := range sc.P {
		if v != 0 {
			n++
		}
	}
	return n
}

// Property is one checked property.
type Property struct {
	ID       string
	Gen      func(r *rand.Rand) *Scn
	Run      func(e *Env)
	MaxSteps int64
	// Real and Stub describe what ran.
	Real, Stub []string
	Rule       string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// Viol is a violation found in a run.
type Viol struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// Env is the world of one run.
type Env struct {
	s     *simrt.Sim
	sc    *Scn
	viols []Viol

	tty  *simrt.TTY
	fs   *simrt.FS
	net  *simrt.Net
	proc *simrt.Proc

	// of a remote session
	cli     *simrt.Proc // has the terminal, proc is the server
	svrTTY  *simrt.TTY  // the server's own terminal
	svrConn *simrt.Conn
	cliConn *simrt.Conn
	client  *simrt.G
	cliErr  error

	shell     string // what the shell writes while the process is stopped
	lastModel *Model
	errSink   *sink // Config.Stderr, if it is not the terminal

	cases int64 // oracle evaluations
	notes []string
}

// Violate records a violation; key classifies it, detail explains it.
func (e *Env) Violate(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	e.s.Note("VIOLATION %s: %s", key, d)
	e.viols = append(e.viols, Viol{key, d})
}

func (e *Env) p(k string) int      { return e.sc.P[k] }
func (e *Env) str(k string) string { return e.sc.S[k] }

// RunResult is what one simulated run gave.
type RunResult struct {
	Viols  []Viol
	Hash   uint64
	IL     uint64
	Steps  int64
	SimNow time.Duration
	Fired  map[string]int64
	Offer  map[string]int64
	Probes map[string]int64
	Sw     int64
	Cases  int64
	Devs   []simrt.Deviation
	Trace  []string
	Fail   *simrt.Failure
}

func failKey(f *simrt.Failure) string {
	switch f.Kind {
	case "panic":
		m := f.Msg
		if i := strings.IndexAny(m, "[0123456789"); i > 0 {
			m = m[:i]
		}
		return "panic@" + f.Where + ":" + strings.TrimSpace(m)
	case "steps":
		w := f.Where
		if i := strings.LastIndex(w, " "); i >= 0 {
			w = w[i+1:]
		}
		return "livelock@" + w
	}
	return f.Kind
}

// bytes is how much text a scenario handles.
func (sc *Scn) bytes() int {
	n := 0
	for _, v := range sc.S {
		n += len(v)
	}
	for _, ops := range sc.A {
		for _, o := range ops {
			n += len(o.S)
		}
	}
	return n
}

// execute performs one run.
func execute(p *Property, sc *Scn, seed int64, replay bool, devs []simrt.Deviation, trace bool) *RunResult {
	ms := p.MaxSteps
	if ms == 0 {
		// drawing a long line key by key is quadratic
		n := int64(sc.bytes())
		ms = 12000000 + 30*n*n
	}
	e := &Env{sc: sc}
	completed := false
	s := simrt.Run(simrt.Options{Seed: seed, Strategy: sc.Strat, FaultP: sc.Faults, MaxSteps: ms, Replay: replay, Devs: devs, Trace: trace}, func(s *simrt.Sim) {
		e.s = s
		p.Run(e)
		completed = true
	})
	r := &RunResult{Viols: e.viols, Hash: s.Hash(), IL: s.InterleavingHash(), Steps: s.Steps, SimNow: s.Now, Fired: s.Fired, Offer: s.Offered,
		Probes: s.Probes, Sw: s.Switches, Devs: s.Devs(), Trace: s.TraceLines(), Fail: s.Fail, Cases: e.cases}
	if s.Fail != nil {
		d := fmt.Sprintf("%s: %s (in %s)", s.Fail.Kind, s.Fail.Msg, s.Fail.Where)
		if s.Fail.Kind == "panic" && s.Fail.Where == "harness" {
			simrt.HarnessError("panic in the harness: %s\n%s\nscenario %s seed %d", s.Fail.Msg, s.Fail.Stack, sc.json(), seed)
		}
		if s.Fail.Kind == "steps" {
			d += "\n" + trimStack(s.Fail.Stack)
		}
		if s.Fail.Kind == "panic" {
			d += "\n" + trimStack(s.Fail.Stack)
		}
		r.Viols = append(r.Viols, Viol{failKey(s.Fail), d})
	} else if !completed && len(r.Viols) == 0 {
		simrt.HarnessError("run ended without completing: scenario %s seed %d", sc.json(), seed)
	}
	return r
}

func trimStack(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i := 0; i < len(lines); i++ {
		if strings.HasPrefix(lines[i], "verifsim/readline.") {
			l := lines[i]
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			out = append(out, "    at "+strings.TrimPrefix(l, "verifsim/"))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (sc *Scn) json() string {
	b, _ := json.Marshal(sc)
	return string(b)
}

func subSeed(seed int64, parts ...interface{}) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	return int64(h.Sum64() >> 1)
}

// randStrategy draws a scheduling strategy.
func randStrategy(r *rand.Rand) simrt.Strategy {
	switch r.Intn(10) {
	case 0:
		return simrt.Strategy{Kind: "fifo"}
	case 1, 2:
		return simrt.Strategy{Kind: "pct", Depth: 1 + r.Intn(6), Span: []int{300, 1000, 3000, 10000}[r.Intn(4)]}
	case 3, 4, 5:
		return simrt.Strategy{Kind: "walk", PSync: []float64{0.02, 0.1, 0.3}[r.Intn(3)], PStmt: 0, PBlock: 0.3}
	case 6, 7:
		return simrt.Strategy{Kind: "walk", PSync: 0.05, PStmt: []float64{0.002, 0.01, 0.05}[r.Intn(3)], PBlock: 0.3}
	case 8:
		return simrt.Strategy{Kind: "walk", PSync: 0.3, PStmt: 0.1, PBlock: 0.5}
	}
	return simrt.Strategy{Kind: "walk", PSync: 0.01, PStmt: 0.001, PBlock: 0.1}
}

// ---------------------------------------------------------------- world

// world sets the terminal, file system and process up.
func (e *Env) world(w, h int) {
	e.tty = simrt.NewTTY(e.s, w, h)
	e.fs = simrt.NewFS(e.s)
	e.net = simrt.NewNet(e.s)
	e.proc = e.s.NewProc("app", e.tty, e.fs, e.net)
}

// Res is the outcome of one API call.
type Res struct {
	Op   string
	Line string
	Err  string
}

func (r Res) String() string { return fmt.Sprintf("%s=%q,%s", r.Op, r.Line, r.Err) }

func errStr(err error) string {
	if err == nil {
		return ""
	}
	if err == readline.ErrInterrupt {
		return "interrupt"
	}
	return err.Error()
}

// await lets the simulation go on until every task in gs has finished or the
// given simulated time passed; it tells whether all finished.
func (e *Env) await(limit time.Duration, gs ...*simrt.G) bool {
	start := e.s.Now - e.stopTime()
	step := 2 * time.Millisecond
	for {
		e.s.WaitIdle()
		done := true
		for _, g := range gs {
			if !g.Done() {
				done = false
			}
		}
		if done {
			return true
		}
		if e.s.Now-e.stopTime() >= start+limit {
			return false
		}
		e.s.Sleep(step)
		if step < 500*time.Millisecond {
			step *= 2
		}
	}
}

// until waits for a condition, which may hold before anything is at rest.
func (e *Env) until(ok func() bool) {
	for i := 0; !ok(); i++ {
		if i < 150 {
			e.s.WaitSteps(10)
		} else {
			e.s.Sleep(time.Millisecond)
		}
	}
}

// stopTime is the time processes spent stopped; no deadline counts it.
func (e *Env) stopTime() time.Duration {
	var d time.Duration
	for _, p := range e.s.Procs {
		d += p.StopTime
	}
	return d
}

// idle lets everything run that can run without time passing.
func (e *Env) idle() {
	e.s.WaitIdle()
	for e.net != nil && e.net.Busy() {
		e.s.Sleep(e.net.MaxDelay/4 + time.Millisecond)
		e.s.WaitIdle()
	}
}

// stuck describes the blocked tasks.
func (e *Env) stuck() string { return e.s.BlockedDesc() }

// user plays a keyboard script: t=type, idle, ms=sleep, steps=let run n
// decisions, resize, eof, err.
func (e *Env) user(ops []Op, extra func(o Op) bool) {
	for _, o := range ops {
		if extra != nil && extra(o) {
			continue
		}
		switch o.K {
		case "t":
			e.s.Note("user types %q", o.S)
			e.tty.Type([]byte(o.S))
		case "idle":
			e.idle()
		case "ms":
			e.s.Sleep(time.Duration(o.N) * time.Millisecond)
		case "steps":
			e.s.WaitSteps(int64(o.N))
		case "kill":
			if !e.proc.Dead {
				e.s.Note("the process is killed")
				e.s.Fired["kill"]++
				e.s.KillProc(e.proc)
			}
		case "eof":
			e.s.Note("user: end of input")
			e.tty.EOF(nil)
		case "resize":
			e.resize(o.N)
		case "check", "async", "out", "race", "reprompt", "rebase", "early", "setbuf", "clean", "offset":
			// only if the screen is looked at
		default:
			simrt.HarnessError("unknown user op %q", o.K)
		}
	}
}

func (e *Env) sigwinch() {
	if e.cli != nil {
		e.cli.Signal(e.s, sigwinch)
		return
	}
	e.proc.Signal(e.s, sigwinch)
}

func (e *Env) resize(w int) {
	e.tty.Resize(w)
	e.sigwinch()
}

// pace appends a random delay to a script.
func pace(r *rand.Rand, style int) []Op {
	switch style {
	case 0: // everything at once
		return nil
	case 1: // wait for the program to settle
		return []Op{{K: "idle"}}
	case 2:
		return []Op{{K: "steps", N: 1 + r.Intn(120)}}
	default:
		switch r.Intn(5) {
		case 0:
			return []Op{{K: "idle"}}
		case 1:
			return []Op{{K: "steps", N: 1 + r.Intn(300)}}
		case 2:
			return []Op{{K: "ms", N: 1 + r.Intn(30)}}
		}
		return nil
	}
}

// typeKeys appends keys with the given pacing.
func (sc *Scn) typeKeys(r *rand.Rand, actor string, style int, keys ...string) {
	for _, k := range keys {
		sc.add(actor, Op{K: "t", S: k})
		sc.add(actor, pace(r, style)...)
	}
}

// ---------------------------------------------------------------- text

var alphabets = []string{
	"abcdefghijklmnopqrstuvwxyz0123456789",
	"abc de-f_g.h/i,j;k(l)m\"n'o",
	"aé日本ñ語ü한글 xあア",
}

func randText(r *rand.Rand, n int) string {
	a := []rune(alphabets[r.Intn(len(alphabets))])
	var b []rune
	for i := 0; i < n; i++ {
		b = append(b, a[r.Intn(len(a))])
	}
	return string(b)
}

func randWord(r *rand.Rand) string {
	const a = "abcdefgh"
	n := 1 + r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

func keysOf(text string) []string {
	var out []string
	for _, c := range text {
		out = append(out, string(c))
	}
	return out
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func sortedKeys(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
