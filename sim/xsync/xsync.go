// Package xsync replaces package sync inside the simulator.
package xsync

import (
	"sync"

	"verifsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type waitq struct{ q []*simrt.G }

func (w *waitq) wait(s *simrt.Sim, why string) {
	w.q = append(w.q, s.Cur())
	s.Block(why)
}

func (w *waitq) wakeAll(s *simrt.Sim) {
	q := w.q
	w.q = nil
	for _, g := range q {
		s.Ready(g)
	}
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	owner  *simrt.G
	q      waitq
}

// OwnerDied is called when a task is killed that held m: a real process takes
// the locks of its package variables with it.
func (m *Mutex) OwnerDied(s *simrt.Sim, g *simrt.G) {
	if m.owner == g || m.owner == nil {
		m.locked, m.owner = false, nil
	}
	m.q.wakeAll(s)
}

func (m *Mutex) take(s *simrt.Sim) {
	m.locked = true
	m.owner = s.Cur()
	m.owner.Hold(m)
}

// Lock locks m.
func (m *Mutex) Lock() {
	s := simrt.Enter()
	if s == nil {
		m.locked = true
		return
	}
	s.SyncPoint("lock")
	for m.locked {
		m.q.wait(s, "mutex")
	}
	m.take(s)
}

// TryLock tries.
func (m *Mutex) TryLock() bool {
	s := simrt.Enter()
	if s != nil {
		s.SyncPoint("trylock")
	}
	if m.locked {
		return false
	}
	if s == nil {
		m.locked = true
	} else {
		m.take(s)
	}
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	s := simrt.Enter()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if s == nil {
		return
	}
	m.owner.Drop(m)
	m.owner = nil
	m.q.wakeAll(s)
	s.SyncPoint("unlock")
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w     bool
	r     int
	wait  int
	owner *simrt.G
	q     waitq
}

// OwnerDied is called when a task is killed that held m for writing.
func (m *RWMutex) OwnerDied(s *simrt.Sim, g *simrt.G) {
	if m.owner == g || m.owner == nil {
		m.w, m.owner = false, nil
	}
	m.q.wakeAll(s)
}

func (m *RWMutex) take(s *simrt.Sim) {
	m.w = true
	m.owner = s.Cur()
	m.owner.Hold(m)
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	s := simrt.Enter()
	if s == nil {
		m.w = true
		return
	}
	s.SyncPoint("lock")
	m.wait++
	for m.w || m.r > 0 {
		m.q.wait(s, "rwmutex")
	}
	m.wait--
	m.take(s)
}

// TryLock tries.
func (m *RWMutex) TryLock() bool {
	s := simrt.Enter()
	if s != nil {
		s.SyncPoint("trylock")
	}
	if m.w || m.r > 0 {
		return false
	}
	if s == nil {
		m.w = true
	} else {
		m.take(s)
	}
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	s := simrt.Enter()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if s != nil {
		m.owner.Drop(m)
		m.owner = nil
		m.q.wakeAll(s)
		s.SyncPoint("unlock")
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	s := simrt.Enter()
	if s == nil {
		m.r++
		return
	}
	s.SyncPoint("rlock")
	for m.w || m.wait > 0 {
		m.q.wait(s, "rwmutex(r)")
	}
	m.r++
}

// TryRLock tries.
func (m *RWMutex) TryRLock() bool {
	if s := simrt.Enter(); s != nil {
		s.SyncPoint("trylock")
	}
	if m.w {
		return false
	}
	m.r++
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	s := simrt.Enter()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if s != nil {
		m.q.wakeAll(s)
		s.SyncPoint("runlock")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a read locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q waitq
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	s := simrt.Enter()
	if s != nil {
		s.SyncPoint("wg-add")
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && s != nil {
		w.q.wakeAll(s)
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	s := simrt.Enter()
	if s == nil {
		return
	}
	s.SyncPoint("wg-wait")
	for w.n > 0 {
		w.q.wait(s, "waitgroup")
	}
}

// Go runs f in a task counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if s := simrt.Enter(); s != nil {
		s.SyncPoint("once")
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*ticket
}

type ticket struct {
	g  *simrt.G
	ok bool
}

// NewCond makes a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	s := simrt.Enter()
	t := &ticket{g: s.Cur()}
	c.q = append(c.q, t)
	c.L.Unlock()
	for !t.ok {
		s.Block("cond")
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	s := simrt.Enter()
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		t.ok = true
		s.Ready(t.g)
	}
	s.SyncPoint("signal")
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	s := simrt.Enter()
	for _, t := range c.q {
		t.ok = true
		s.Ready(t.g)
	}
	c.q = nil
	s.SyncPoint("broadcast")
}

// Pool is sync.Pool.
type Pool struct {
	New func() any
	s   []any
}

// Get takes an item.
func (p *Pool) Get() any {
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) { p.s = append(p.s, v) }

// Map is sync.Map (insertion ordered).
type Map struct {
	keys []any
	m    map[any]any
}

func (m *Map) sp() {
	if s := simrt.Enter(); s != nil {
		s.SyncPoint("syncmap")
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// Load loads.
func (m *Map) Load(k any) (any, bool) { m.sp(); v, ok := m.m[k]; return v, ok }

// Store stores.
func (m *Map) Store(k, v any) {
	m.sp()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sp()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sp()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap stores and returns what was there.
func (m *Map) Swap(k, v any) (any, bool) {
	m.sp()
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}

// CompareAndSwap swaps.
func (m *Map) CompareAndSwap(k, o, v any) bool {
	m.sp()
	x, ok := m.m[k]
	if ok = ok && x == o; ok {
		m.m[k] = v
	}
	return ok
}

// CompareAndDelete deletes.
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sp()
	x, ok := m.m[k]
	if ok = ok && x == o; ok {
		delete(m.m, k) // Range passes over its key
	}
	return ok
}

// Clear deletes all.
func (m *Map) Clear() {
	m.sp()
	m.keys, m.m = nil, nil
}

// Range iterates.
func (m *Map) Range(f func(k, v any) bool) {
	m.sp()
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
