package simrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Real channels serve as identities only: their simulated state lives here.
type chanState struct {
	keep   interface{}
	buf    []interface{}
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g    *G
	val  interface{}
	idx  int
	done *bool
}

func chanPtr[T any](ch <-chan T) uintptr {
	return *(*uintptr)(unsafe.Pointer(&ch))
}

func stateOf(p uintptr, keep interface{}, n int) *chanState {
	s := S
	c := s.chans[p]
	if c == nil {
		c = &chanState{keep: keep, cap: n}
		s.chans[p] = c
	}
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if *w.done || w.g.state == gDone || w.g.killed {
			continue
		}
		return w
	}
	return nil
}

func (s *Sim) complete(w *waiter, val interface{}, ok bool) {
	*w.done = true
	w.g.selIdx = w.idx
	w.g.selVal = val
	w.g.selOk = ok
	s.Ready(w.g)
}

// trySend performs the send if it can proceed now.
func (s *Sim) trySend(c *chanState, v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		s.complete(w, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (s *Sim) canSend(c *chanState) bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(&c.recvq)
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if *w.done || w.g.state == gDone || w.g.killed {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (s *Sim) tryRecv(c *chanState) (v interface{}, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			s.complete(w, nil, true)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v = w.val
		s.complete(w, nil, true)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (s *Sim) canRecv(c *chanState) bool {
	return len(c.buf) > 0 || c.closed || hasWaiter(&c.sendq)
}

// SendTo is the rewriter's replacement of the send statement.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := enter()
		if s == nil {
			ch <- v
			return
		}
		s.SyncPoint("send")
		p := *(*uintptr)(unsafe.Pointer(&ch))
		if p == 0 {
			s.Block("send on nil channel")
			return
		}
		c := stateOf(p, ch, cap(ch))
		if s.trySend(c, v) {
			return
		}
		done := false
		c.sendq = append(c.sendq, &waiter{g: s.cur, val: v, done: &done})
		g := s.cur
		for !done {
			s.Block("chan send")
		}
		if !g.selOk {
			panic("send on closed channel")
		}
	}
}

func conv[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv2 is the two-result receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := enter()
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	s.SyncPoint("recv")
	p := chanPtr(ch)
	if p == 0 {
		s.Block("receive from nil channel")
		var z T
		return z, false
	}
	c := stateOf(p, ch, cap(ch))
	if v, ok, done := s.tryRecv(c); done {
		return conv[T](v), ok
	}
	done := false
	c.recvq = append(c.recvq, &waiter{g: s.cur, done: &done})
	g := s.cur
	for !done {
		s.Block("chan receive")
	}
	return conv[T](g.selVal), g.selOk
}

// Recv is the one-result receive.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// RangeStart begins a range over a channel.
func RangeStart[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// Close replaces close.
func Close[T any](ch chan<- T) {
	s := enter()
	if s == nil {
		close(ch)
		return
	}
	s.SyncPoint("close")
	p := *(*uintptr)(unsafe.Pointer(&ch))
	if p == 0 {
		panic("close of nil channel")
	}
	c := stateOf(p, ch, cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		s.complete(w, nil, false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		s.complete(w, nil, false)
	}
}

// Len replaces len(ch).
func Len[T any](ch <-chan T) int {
	s := enter()
	if s == nil {
		return len(ch)
	}
	p := chanPtr(ch)
	if p == 0 {
		return 0
	}
	return len(stateOf(p, ch, cap(ch)).buf)
}

// TrySendNB is a non-blocking send used by simulated devices (timers, signals).
func TrySendNB[T any](s *Sim, ch chan<- T, v T) bool {
	p := *(*uintptr)(unsafe.Pointer(&ch))
	if p == 0 {
		return false
	}
	c := stateOf(p, ch, cap(ch))
	if c.closed {
		return false
	}
	return s.trySend(c, v)
}

// SelCase is one case of a select statement.
type SelCase interface {
	state() *chanState
	isSend() bool
	value() interface{}
	set(v interface{}, ok bool)
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	c  *chanState
	v  T
	ok bool
}

func (r *RecvCase[T]) state() *chanState          { return r.c }
func (r *RecvCase[T]) isSend() bool               { return false }
func (r *RecvCase[T]) value() interface{}         { return nil }
func (r *RecvCase[T]) set(v interface{}, ok bool) { r.v, r.ok = conv[T](v), ok }

// V is the received value.
func (r *RecvCase[T]) V() T { return r.v }

// Ok is the second result.
func (r *RecvCase[T]) Ok() bool { return r.ok }

// CaseRecv builds a receive case.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	p := chanPtr(ch)
	if p != 0 && S != nil {
		r.c = stateOf(p, ch, cap(ch))
	}
	return r
}

type sendCase struct {
	c *chanState
	v interface{}
}

func (r *sendCase) state() *chanState          { return r.c }
func (r *sendCase) isSend() bool               { return true }
func (r *sendCase) value() interface{}         { return r.v }
func (r *sendCase) set(v interface{}, ok bool) {}

// CaseSend builds a send case.
func CaseSend[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		r := &sendCase{v: v}
		p := *(*uintptr)(unsafe.Pointer(&ch))
		if p != 0 && S != nil {
			r.c = stateOf(p, ch, cap(ch))
		}
		return r
	}
}

// Select replaces the select statement: the index of the chosen case, or -1
// for the default case.
func Select(hasDefault bool, cases ...SelCase) int {
	s := enter()
	if s == nil {
		HarnessError("select outside a simulation")
	}
	s.SyncPoint("select")
	var ready []int
	for i, c := range cases {
		st := c.state()
		if st == nil {
			continue
		}
		if c.isSend() && s.canSend(st) || !c.isSend() && s.canRecv(st) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = s.Choose("select", len(ready), float64(len(ready)-1)/float64(len(ready)))
		}
		i := ready[k]
		st := cases[i].state()
		if cases[i].isSend() {
			if !s.trySend(st, cases[i].value()) {
				HarnessError("select: send not possible")
			}
		} else {
			v, ok, done := s.tryRecv(st)
			if !done {
				HarnessError("select: receive not possible")
			}
			cases[i].set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	done := false
	g := s.cur
	n := 0
	for i, c := range cases {
		st := c.state()
		if st == nil {
			continue
		}
		n++
		w := &waiter{g: g, idx: i, done: &done}
		if c.isSend() {
			w.val = c.value()
			st.sendq = append(st.sendq, w)
		} else {
			st.recvq = append(st.recvq, w)
		}
	}
	for !done {
		s.Block(fmt.Sprintf("select on %d channels", n))
	}
	i := g.selIdx
	if cases[i].isSend() {
		if !g.selOk {
			panic("send on closed channel")
		}
	} else {
		cases[i].set(g.selVal, g.selOk)
	}
	return i
}

// BlockForever is select{}.
func BlockForever() {
	s := enter()
	if s == nil {
		select {}
	}
	for {
		s.Block("select {}")
	}
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// MapKeys returns the keys of m in an order that does not depend on the map's
// random seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	strs := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
		strs = append(strs, fmt.Sprintf("%020v", reflect.ValueOf(&k).Elem().Interface()))
	}
	for i := 1; i < len(keys); i++ {
		for j := i; j > 0 && strs[j] < strs[j-1]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
			strs[j], strs[j-1] = strs[j-1], strs[j]
		}
	}
	return keys
}
