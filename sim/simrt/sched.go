// Package simrt is the deterministic simulator the rewritten readline package
// runs on: one goroutine at a time, every scheduling choice, clock reading,
// fault and delay decided here from one seed (or from a replay file).
package simrt

import (
	"container/heap"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Deviation is one recorded non-default decision: at decision number D the
// value V was taken instead of the default 0.
type Deviation struct {
	D int64  `json:"d"`
	V int    `json:"v"`
	K string `json:"k"`
}

// Strategy is how a run draws its schedule.
type Strategy struct {
	Kind   string  `json:"kind"` // "walk", "pct", "fifo"
	PSync  float64 `json:"psync"`
	PStmt  float64 `json:"pstmt"`
	PBlock float64 `json:"pblock"` // probability of a non-FIFO pick when the running task blocks
	Depth  int     `json:"depth"`  // pct: number of priority change points
	Span   int     `json:"span"`   // pct: change points fall in [0,Span)
}

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDone
)

// G is a simulated task.
type G struct {
	ID      int
	Name    string
	Proc    *Proc
	wake    chan struct{}
	exited  chan struct{}
	state   gstate
	why     string
	killed  bool
	suicide bool
	prio    int
	// select/chan hand-over
	selDone bool
	selIdx  int
	selVal  interface{}
	selOk   bool
	stepAt  int64
	held    []Held
}

// Held is a lock a task may hold.
type Held interface{ OwnerDied(*Sim, *G) }

// Hold notes that g holds h.
func (g *G) Hold(h Held) { g.held = append(g.held, h) }

// Drop notes that g, which may be nil, no longer holds h.
func (g *G) Drop(h Held) {
	if g == nil {
		return
	}
	for i := len(g.held) - 1; i >= 0; i-- {
		if g.held[i] == h {
			g.held = append(g.held[:i], g.held[i+1:]...)
			return
		}
	}
}

// Proc is a simulated OS process: tasks spawned inside it belong to it.
type Proc struct {
	ID    int
	Name  string
	TTY   *TTY
	FS    *FS
	Net   *Net
	Dead  bool
	fds   map[int]bool
	sigs  []sigReg
	Files []*File
	// Suspended counts how often the process stopped itself.
	Suspended int
	OnSuspend func()
	ResumeIn  time.Duration
	NoStop    bool          // SIGTSTP is ignored (no job control)
	StopTime  time.Duration // total time spent stopped
}

// Abort reasons.
type Failure struct {
	Kind  string // panic, deadlock, steps, fatal
	Msg   string
	Where string
	Stack string
}

type timerEv struct {
	at  time.Duration
	seq int64
	fn  func()
	off bool
	idx int
}

type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { *h = append(*h, x.(*timerEv)) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Sim is one simulated execution.
type Sim struct {
	Steps    int64 // decision counter: every yield point and every choice
	MaxSteps int64
	Now      time.Duration
	Epoch    time.Time

	cur    *G
	gs     []*G
	runq   []*G
	idle   []*G
	stepw  []*G
	timers timerHeap
	tseq   int64
	fdn    int
	next   int64

	rng       *rand.Rand
	strat     Strategy
	replay    bool
	devs      []Deviation // recorded (random mode) or to be replayed
	devi      int
	changePts map[int64]bool
	lowPrio   int

	FaultP   map[string]float64
	Fired    map[string]int64
	Offered  map[string]int64
	Probes   map[string]int64
	chans    map[uintptr]*chanState
	Switches int64
	hash     uint64
	ilHash   uint64
	trace    []string
	Trace    bool
	Fail     *Failure
	done     chan struct{}
	finished bool
	Procs    []*Proc
	faultsOn bool
	LastP    int32
	killing  *G
}

// S is the simulation the process is currently running.
var S *Sim

// Options of a run.
type Options struct {
	Seed     int64
	Strategy Strategy
	FaultP   map[string]float64
	MaxSteps int64
	Replay   bool
	Devs     []Deviation
	Trace    bool
}

// SiteTable names the yield points of the rewritten package (file:line func).
var SiteTable []string

// Resets are called before every run to re-initialise package state.
var Resets []func()

// Run executes main as task 0 of a fresh simulation and returns it.
func Run(o Options, main func(s *Sim)) *Sim {
	s := &Sim{
		MaxSteps: o.MaxSteps,
		Epoch:    time.Unix(1700000000, 0).UTC(),
		rng:      rand.New(rand.NewSource(o.Seed)),
		strat:    o.Strategy,
		replay:   o.Replay,
		FaultP:   o.FaultP,
		Fired:    map[string]int64{},
		Offered:  map[string]int64{},
		Probes:   map[string]int64{},
		chans:    map[uintptr]*chanState{},
		done:     make(chan struct{}, 1),
		Trace:    o.Trace,
		faultsOn: true,
		hash:     14695981039346656037,
		ilHash:   14695981039346656037,
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 400000
	}
	if o.Replay {
		s.devs = append([]Deviation{}, o.Devs...)
	}
	if s.strat.Kind == "pct" {
		s.changePts = map[int64]bool{}
		span := s.strat.Span
		if span <= 0 {
			span = 5000
		}
		for i := 0; i < s.strat.Depth; i++ {
			s.changePts[int64(s.rng.Intn(span))] = true
		}
	}
	S = s
	for _, f := range Resets {
		f()
	}
	s.computeNext()
	g := s.newG("driver", func() { main(s) })
	g.Proc = nil
	g.state = gRunning
	s.runq = s.runq[:0]
	s.cur = g
	g.wake <- struct{}{}
	<-s.done
	s.finished = true
	// tear every remaining task down
	for i := 0; i < len(s.gs); i++ {
		s.killG(s.gs[i])
	}
	S = nil
	return s
}

func (s *Sim) newG(name string, f func()) *G {
	g := &G{ID: len(s.gs), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if s.cur != nil {
		g.Proc = s.cur.Proc
	}
	if s.strat.Kind == "pct" && !s.replay {
		g.prio = 1000 + s.rng.Intn(1000000)
	}
	s.gs = append(s.gs, g)
	s.runq = append(s.runq, g)
	go func() {
		defer close(g.exited)
		<-g.wake
		defer func() {
			r := recover()
			if g.suicide {
				s.killing = nil
				g.state = gDone
				s.handOff(g)
				return
			}
			if g.killed {
				return
			}
			if r != nil {
				s.fail("panic", fmt.Sprint(r), panicSite(), string(debug.Stack()))
				return
			}
			// normal completion or Goexit by the task itself
			g.state = gDone
			if g.ID == 0 {
				s.finish()
				return
			}
			s.handOff(g)
		}()
		if g.killed {
			return
		}
		f()
	}()
	return g
}

// handOff gives control to the next task when g is finished.
func (s *Sim) handOff(g *G) {
	n := s.pickNext(g)
	if n == nil {
		return
	}
	s.switchTo(n)
}

func (s *Sim) finish() {
	select {
	case s.done <- struct{}{}:
	default:
	}
}

func (s *Sim) fail(kind, msg, where, stack string) {
	if s.Fail == nil {
		s.Fail = &Failure{Kind: kind, Msg: msg, Where: where, Stack: stack}
	}
	s.finish()
}

// Abort ends the run from inside a task with a failure.
func (s *Sim) Abort(kind, msg string) {
	s.fail(kind, msg, callerSite(), "")
	s.park(s.cur)
}

func (s *Sim) park(g *G) {
	<-g.wake
	if g.killed {
		runtime.Goexit()
	}
}

func (s *Sim) killG(g *G) {
	if g.state == gDone {
		<-g.exited
		return
	}
	g.killed = true
	prev := s.killing
	s.killing = g
	select {
	case g.wake <- struct{}{}:
	default:
	}
	<-g.exited
	s.killing = prev
	g.state = gDone
}

// KillProc ends every task of p at once, as SIGKILL does.
func (s *Sim) KillProc(p *Proc) {
	p.Dead = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if g.Proc != p || g.state == gDone || g == s.cur {
			continue
		}
		s.removeRunq(g)
		for j, x := range s.idle {
			if x == g {
				s.idle = append(s.idle[:j], s.idle[j+1:]...)
				break
			}
		}
		for j, x := range s.stepw {
			if x == g {
				s.stepw = append(s.stepw[:j], s.stepw[j+1:]...)
				break
			}
		}
		held := append([]Held(nil), g.held...)
		s.killG(g)
		for _, h := range held {
			h.OwnerDied(s, g)
		}
	}
	for _, f := range p.Files {
		f.closed = true
	}
	if s.cur.Proc == p {
		// the running task dies too: unwind it, its outermost deferred
		// function hands control on
		s.cur.suicide = true
		s.killing = s.cur
		runtime.Goexit()
	}
}

func (s *Sim) removeRunq(g *G) {
	for i, x := range s.runq {
		if x == g {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

// Enter is the common entry of every simulated operation. It returns nil when
// no simulation is running (package initialisation), and unwinds tasks that are
// being torn down (deferred functions of killed tasks end here).
func Enter() *Sim { return enter() }

func enter() *Sim {
	s := S
	if s == nil {
		return nil
	}
	if s.finished || s.killing != nil {
		runtime.Goexit()
	}
	return s
}

func (s *Sim) mix(a, b uint64) {
	s.hash = (s.hash ^ a) * 1099511628211
	s.hash = (s.hash ^ b) * 1099511628211
}

// Hash is the fingerprint of everything that happened so far.
func (s *Sim) Hash() uint64 { return s.hash }

// InterleavingHash fingerprints the sequence of context switches and the
// points in the code at which they happened.
func (s *Sim) InterleavingHash() uint64 { return s.ilHash }

// Note mixes an observable event into the fingerprint and the trace.
func (s *Sim) Note(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	for i := 0; i < len(m); i++ {
		s.hash = (s.hash ^ uint64(m[i])) * 1099511628211
	}
	if s.Trace {
		name := "-"
		if s.cur != nil {
			name = fmt.Sprintf("g%d(%s)", s.cur.ID, s.cur.Name)
		}
		s.trace = append(s.trace, fmt.Sprintf("step=%d t=%v %s %s", s.Steps, s.Now, name, m))
	}
}

// TraceLines returns the recorded trace.
func (s *Sim) TraceLines() []string { return s.trace }

// Probe counts that a rare condition was reached.
func (s *Sim) Probe(name string) { s.Probes[name]++ }

func (s *Sim) computeNext() {
	if s.replay {
		if s.devi < len(s.devs) {
			s.next = s.devs[s.devi].D
		} else {
			s.next = s.MaxSteps
		}
		if s.next > s.MaxSteps {
			s.next = s.MaxSteps
		}
		return
	}
	s.next = s.MaxSteps
	if s.strat.Kind == "walk" && s.strat.PStmt > 0 {
		gap := int64(s.rng.ExpFloat64()/s.strat.PStmt) + 1
		if s.Steps+gap < s.next {
			s.next = s.Steps + gap
		}
	}
	if s.strat.Kind == "pct" {
		for c := range s.changePts {
			if c > s.Steps && c < s.next {
				s.next = c
			}
		}
	}
}

func (s *Sim) record(v int, k string) {
	if !s.replay {
		s.devs = append(s.devs, Deviation{s.Steps, v, k})
	}
}

// Devs returns the recorded deviations.
func (s *Sim) Devs() []Deviation { return s.devs }

// replayed returns the deviation recorded for the current decision, if any.
func (s *Sim) replayed() (int, bool) {
	for s.devi < len(s.devs) && s.devs[s.devi].D < s.Steps {
		s.devi++
	}
	if s.devi < len(s.devs) && s.devs[s.devi].D == s.Steps {
		v := s.devs[s.devi].V
		s.devi++
		s.computeNext()
		return v, true
	}
	return 0, false
}

// Choose draws a value in [0,n): 0 is the default, any other value is taken
// with total probability p.
func (s *Sim) Choose(kind string, n int, p float64) int {
	s.Steps++
	if s.replay {
		v, ok := s.replayed()
		if ok && v < n {
			s.mix(uint64(s.Steps), uint64(v))
			return v
		}
		return 0
	}
	if n <= 1 || s.rng.Float64() >= p {
		return 0
	}
	v := 1 + s.rng.Intn(n-1)
	s.record(v, kind)
	s.mix(uint64(s.Steps), uint64(v))
	return v
}

// Fault decides whether the fault of the given kind fires here.
func (s *Sim) Fault(kind string) bool {
	p := s.FaultP[kind]
	if !s.faultsOn {
		p = 0
	}
	s.Offered[kind]++
	if s.replay {
		if s.Choose("fault:"+kind, 2, 0) == 1 {
			s.Fired[kind]++
			s.Note("fault %s", kind)
			return true
		}
		return false
	}
	if s.Choose("fault:"+kind, 2, p) == 1 {
		s.Fired[kind]++
		s.Note("fault %s", kind)
		return true
	}
	return false
}

// StopFaults ends fault injection for the rest of the run.
func (s *Sim) StopFaults() { s.faultsOn = false }

// P is the yield point the rewriter puts before every statement.
func P(site int32) {
	s := S
	if s == nil {
		return
	}
	s.LastP = site
	s.Steps++
	if s.Steps < s.next {
		return
	}
	s.slowP(site)
}

func (s *Sim) slowP(site int32) {
	enter()
	if s.Steps >= s.MaxSteps {
		s.fail("steps", fmt.Sprintf("no quiescence within %d steps", s.MaxSteps), SiteName(site), string(debug.Stack()))
		s.park(s.cur)
		return
	}
	if s.replay {
		v, ok := s.replayed()
		s.computeNext()
		if ok && v > 0 {
			s.preemptTo(v-1, uint64(site))
		}
		return
	}
	switch s.strat.Kind {
	case "walk":
		s.computeNext()
		s.preemptRandom("p", uint64(site))
	case "pct":
		s.lowPrio++
		s.cur.prio = 1000 - s.lowPrio
		delete(s.changePts, s.Steps)
		s.computeNext()
		s.pctSwitch(uint64(site))
	default:
		s.computeNext()
	}
}

// SiteName names a yield point.
func SiteName(site int32) string {
	if int(site) < len(SiteTable) {
		return SiteTable[site]
	}
	return "?"
}

// preemptTo switches to task id if it is runnable.
func (s *Sim) preemptTo(id int, site uint64) {
	for _, g := range s.runq {
		if g.ID == id {
			s.yieldTo(g, site)
			return
		}
	}
}

func (s *Sim) preemptRandom(k string, site uint64) {
	if len(s.runq) == 0 {
		return
	}
	g := s.runq[s.rng.Intn(len(s.runq))]
	s.record(g.ID+1, k)
	s.yieldTo(g, site)
}

func (s *Sim) pctSwitch(site uint64) {
	var best *G
	for _, g := range s.runq {
		if best == nil || g.prio > best.prio {
			best = g
		}
	}
	if best != nil && best.prio > s.cur.prio {
		s.record(best.ID+1, "pct")
		s.yieldTo(best, site)
	}
}

func (s *Sim) yieldTo(n *G, site uint64) {
	g := s.cur
	g.state = gRunnable
	s.runq = append(s.runq, g)
	s.removeRunq(n)
	s.ilHash = (s.ilHash ^ (site<<8 | uint64(n.ID))) * 1099511628211
	s.switchTo(n)
	s.park(g)
}

func (s *Sim) switchTo(n *G) {
	s.Switches++
	s.mix(uint64(s.Steps), uint64(n.ID))
	if s.Trace {
		s.trace = append(s.trace, fmt.Sprintf("step=%d t=%v -> g%d(%s) [last %s]", s.Steps, s.Now, n.ID, n.Name, SiteName(s.LastP)))
	}
	n.state = gRunning
	s.cur = n
	n.wake <- struct{}{}
}

// SyncPoint is a yield point at a synchronisation or I/O operation.
func (s *Sim) SyncPoint(k string) {
	s.Steps++
	if s.Steps >= s.MaxSteps {
		s.fail("steps", fmt.Sprintf("no quiescence within %d steps", s.MaxSteps), SiteName(s.LastP), string(debug.Stack()))
		s.park(s.cur)
		return
	}
	s.wakeStepWaiters()
	if s.replay {
		v, ok := s.replayed()
		if ok && v > 0 {
			s.preemptTo(v-1, siteHash(k))
		}
		return
	}
	switch s.strat.Kind {
	case "walk":
		if s.Steps >= s.next {
			s.computeNext()
		}
		if s.strat.PSync > 0 && s.rng.Float64() < s.strat.PSync {
			s.preemptRandom("s", siteHash(k))
		}
	case "pct":
		s.pctSwitch(siteHash(k))
	}
}

func siteHash(k string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(k); i++ {
		h = (h ^ uint64(k[i])) * 1099511628211
	}
	return h >> 16
}

func (s *Sim) wakeStepWaiters() {
	for i := 0; i < len(s.stepw); {
		g := s.stepw[i]
		if g.stepAt <= s.Steps {
			s.stepw = append(s.stepw[:i], s.stepw[i+1:]...)
			g.state = gRunnable
			s.runq = append(s.runq, g)
			continue
		}
		i++
	}
}

// Ready makes a blocked task runnable.
func (s *Sim) Ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	s.runq = append(s.runq, g)
}

// Block parks the running task until Ready is called on it.
func (s *Sim) Block(why string) {
	g := s.cur
	g.state = gBlocked
	g.why = why
	n := s.pickNext(g)
	if n == g {
		g.state = gRunning
		s.cur = g
		return
	}
	if n != nil {
		s.switchTo(n)
	}
	s.park(g)
}

// pickNext chooses the task to run when the running one cannot continue.
func (s *Sim) pickNext(from *G) *G {
	for {
		s.Steps++
		if s.Steps >= s.MaxSteps {
			s.fail("steps", fmt.Sprintf("no quiescence within %d steps", s.MaxSteps), SiteName(s.LastP), "")
			return nil
		}
		s.wakeStepWaiters()
		if len(s.runq) > 0 {
			return s.takeNext()
		}
		if len(s.stepw) > 0 {
			best := 0
			for i, g := range s.stepw {
				if g.stepAt < s.stepw[best].stepAt {
					best = i
				}
			}
			g := s.stepw[best]
			s.stepw = append(s.stepw[:best], s.stepw[best+1:]...)
			g.state = gRunnable
			s.runq = append(s.runq, g)
			continue
		}
		if len(s.idle) > 0 {
			g := s.idle[0]
			s.idle = s.idle[1:]
			g.state = gRunnable
			s.runq = append(s.runq, g)
			continue
		}
		if len(s.timers) > 0 {
			s.fireNextTimer()
			continue
		}
		s.fail("deadlock", "every task is blocked: "+s.BlockedDesc(), "", "")
		return nil
	}
}

func (s *Sim) takeNext() *G {
	i := 0
	if s.replay {
		if v, ok := s.replayed(); ok && v > 0 {
			for j, g := range s.runq {
				if g.ID == v-1 {
					i = j
				}
			}
		}
	} else if len(s.runq) > 1 {
		switch s.strat.Kind {
		case "walk":
			if s.rng.Float64() < s.strat.PBlock {
				i = s.rng.Intn(len(s.runq))
			}
		case "pct":
			for j, g := range s.runq {
				if g.prio > s.runq[i].prio {
					i = j
				}
			}
		}
		if i != 0 {
			s.record(s.runq[i].ID+1, "b")
		}
	}
	g := s.runq[i]
	s.runq = append(s.runq[:i], s.runq[i+1:]...)
	s.ilHash = (s.ilHash ^ uint64(g.ID)) * 1099511628211
	return g
}

func (s *Sim) fireNextTimer() {
	t := heap.Pop(&s.timers).(*timerEv)
	if t.off {
		return
	}
	if t.at > s.Now {
		s.Now = t.at
	}
	t.fn()
}

// AddTimer schedules fn (which must not block) at now+d.
func (s *Sim) AddTimer(d time.Duration, fn func()) *TimerRef {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timerEv{at: s.Now + d, seq: s.tseq, fn: fn}
	heap.Push(&s.timers, t)
	return &TimerRef{t}
}

// TimerRef cancels a timer.
type TimerRef struct{ t *timerEv }

// Stop cancels the timer.
func (r *TimerRef) Stop() bool {
	if r == nil || r.t.off {
		return false
	}
	r.t.off = true
	return true
}

// BlockedDesc describes what every live task waits for.
func (s *Sim) BlockedDesc() string {
	var out []string
	for _, g := range s.gs {
		if g.state == gBlocked {
			out = append(out, fmt.Sprintf("g%d(%s): %s", g.ID, g.Name, g.why))
		}
	}
	return strings.Join(out, "; ")
}

// Cur is the running task.
func (s *Sim) Cur() *G { return s.cur }

// Go starts a task (the rewriter's replacement of the go statement).
func Go(f func()) {
	s := enter()
	if s == nil {
		go f()
		return
	}
	s.newG(callerFunc(2), f)
	s.SyncPoint("go")
}

// GoIn starts a named task inside process p.
func (s *Sim) GoIn(p *Proc, name string, f func()) *G {
	g := s.newG(name, f)
	g.Proc = p
	return g
}

// WaitIdle blocks until nothing else can run without time passing.
func (s *Sim) WaitIdle() {
	enter()
	g := s.cur
	s.idle = append(s.idle, g)
	s.Block("idle")
}

// WaitSteps blocks for k further decisions (or until nothing else can run).
func (s *Sim) WaitSteps(k int64) {
	enter()
	if k <= 0 {
		s.SyncPoint("steps")
		return
	}
	g := s.cur
	g.stepAt = s.Steps + k
	s.stepw = append(s.stepw, g)
	s.Block("steps")
}

// Sleep blocks for simulated time.
func (s *Sim) Sleep(d time.Duration) {
	enter()
	g := s.cur
	s.AddTimer(d, func() { s.Ready(g) })
	s.Block("sleep")
}

// Done tells whether task g has finished.
func (g *G) Done() bool { return g.state == gDone }

// Why tells what a blocked task waits for.
func (g *G) Why() string { return g.why }

// Blocked tells whether task g is blocked.
func (g *G) Blocked() bool { return g.state == gBlocked }

// Tasks lists all tasks there ever were, by their ID.
func (s *Sim) Tasks() []*G { return s.gs }

// Live lists tasks of p that have not finished.
func (s *Sim) Live(p *Proc) []*G {
	var out []*G
	for _, g := range s.gs {
		if g.Proc == p && g.state != gDone {
			out = append(out, g)
		}
	}
	return out
}

func callerFunc(skip int) string {
	pc, _, _, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	n := runtime.FuncForPC(pc).Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func callerSite() string {
	pcs := make([]uintptr, 30)
	n := runtime.Callers(2, pcs)
	return firstSUT(runtime.CallersFrames(pcs[:n]))
}

// panicSite names the innermost function of the code under test on the stack.
func panicSite() string {
	pcs := make([]uintptr, 60)
	n := runtime.Callers(2, pcs)
	return firstSUT(runtime.CallersFrames(pcs[:n]))
}

func firstSUT(fr *runtime.Frames) string {
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "verifsim/readline.") {
			fn := strings.TrimPrefix(f.Function, "verifsim/readline.")
			return fn
		}
		if !more {
			return "harness"
		}
	}
}

// Harness errors end the process with a distinct status: they are never
// reported as violations.
func HarnessError(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "SIMULATOR ERROR: "+format+"\n", a...)
	os.Exit(3)
}

// AddSites registers the yield points of one rewritten package.
func AddSites(base int, names []string) {
	for len(SiteTable) < base+len(names) {
		SiteTable = append(SiteTable, "?")
	}
	copy(SiteTable[base:], names)
}
