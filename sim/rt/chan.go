package rt

import (
	"reflect"
	"unsafe"
)

type chanState struct {
	ref    interface{} // keeps the channel alive so its address stays unique
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g    *G
	val  interface{}
	ok   bool
	done bool
	idx  int
	sel  *selState
}

type selState struct {
	fired *waiter
}

func chanPtr[C any](c *C) uintptr { return *(*uintptr)(unsafe.Pointer(c)) }

func (s *Sim) chanOf(p uintptr, ref interface{}, c int) *chanState {
	st := s.chans[p]
	if st == nil {
		st = &chanState{ref: ref, cap: c}
		s.chans[p] = st
	}
	return st
}

func unbox[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

// pop removes the first live waiter.
func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired != nil {
			continue
		}
		if w.done || w.g.state == gDead || w.g.dying {
			continue
		}
		return w
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if (w.sel == nil || w.sel.fired == nil) && !w.done && w.g.state != gDead && !w.g.dying {
			return true
		}
	}
	return false
}

func (s *Sim) fire(w *waiter) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w
	}
	s.ready(w.g)
}

// tryRecv receives without blocking.
func (s *Sim) tryRecv(st *chanState) (v interface{}, ok, got bool) {
	if len(st.buf) > 0 {
		v = st.buf[0]
		st.buf = st.buf[1:]
		if w := pop(&st.sendq); w != nil {
			st.buf = append(st.buf, w.val)
			w.ok = true
			s.fire(w)
		}
		return v, true, true
	}
	if w := pop(&st.sendq); w != nil {
		w.ok = true
		s.fire(w)
		return w.val, true, true
	}
	if st.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (s *Sim) trySend(st *chanState, v interface{}) bool {
	if st.closed {
		panic(runtimeError("send on closed channel"))
	}
	if w := pop(&st.recvq); w != nil {
		w.val, w.ok = v, true
		s.fire(w)
		return true
	}
	if len(st.buf) < st.cap {
		st.buf = append(st.buf, v)
		return true
	}
	return false
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	s := S
	if inert() {
		return zero, false
	}
	if ch == nil {
		Block()
	}
	s.point()
	st := s.chanOf(chanPtr(&ch), ch, cap(ch))
	if v, ok, got := s.tryRecv(st); got {
		return unbox[T](v), ok
	}
	select {
	case v, ok := <-ch: // filled or closed by native code
		return v, ok
	default:
	}
	w := &waiter{g: s.cur}
	st.recvq = append(st.recvq, w)
	s.park("chan receive")
	return unbox[T](w.val), w.ok
}

// SendTo is ch <- v, split to keep evaluation order and conversions.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if S == nil {
			ch <- v
			return
		}
		s := S
		if inert() {
			return
		}
		if ch == nil {
			Block()
		}
		s.point()
		st := s.chanOf(chanPtr(&ch), ch, cap(ch))
		if s.trySend(st, v) {
			return
		}
		w := &waiter{g: s.cur, val: v}
		st.sendq = append(st.sendq, w)
		s.park("chan send")
		if !w.ok {
			panic(runtimeError("send on closed channel"))
		}
	}
}

// Close is close(ch).
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if inert() {
		return
	}
	if ch == nil {
		panic(runtimeError("close of nil channel"))
	}
	st := s.chanOf(chanPtr(&ch), ch, cap(ch))
	if st.closed {
		panic(runtimeError("close of closed channel"))
	}
	s.closeState(st)
	func() {
		defer func() { recover() }()
		close(ch)
	}()
}

func (s *Sim) closeState(st *chanState) {
	st.closed = true
	for {
		w := pop(&st.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		s.fire(w)
	}
	for {
		w := pop(&st.sendq)
		if w == nil {
			break
		}
		w.ok = false
		s.fire(w)
	}
}

// ChanLen is len(ch).
func ChanLen(ch interface{}) int {
	v := reflect.ValueOf(ch)
	if !v.IsValid() || v.IsNil() {
		return 0
	}
	if S != nil {
		if st := S.chans[v.Pointer()]; st != nil {
			return len(st.buf)
		}
	}
	return v.Len()
}

// ChanCap is cap(ch).
func ChanCap(ch interface{}) int { return reflect.ValueOf(ch).Cap() }

// ChanIter drives for range over a channel.
type ChanIter[T any] struct {
	OK bool
	ch <-chan T
}

// ChanStart begins a range over ch.
func ChanStart[T any](ch <-chan T) (*ChanIter[T], T) {
	it := &ChanIter[T]{ch: ch}
	v := it.Next()
	return it, v
}

// Next receives the next value.
func (it *ChanIter[T]) Next() T {
	v, ok := Recv2(it.ch)
	it.OK = ok
	return v
}

// SelCase is one case of a select statement.
type SelCase interface {
	try(s *Sim) bool // ready now?
	exec(s *Sim)     // perform (must be ready)
	enq(s *Sim, w *waiter)
	fin(w *waiter)
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

// CaseRecv makes a receive case.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) st(s *Sim) *chanState { return s.chanOf(chanPtr(&c.ch), c.ch, cap(c.ch)) }
func (c *RecvCase[T]) try(s *Sim) bool {
	if c.ch == nil {
		return false
	}
	st := c.st(s)
	if len(st.buf) > 0 || st.closed || live(st.sendq) {
		return true
	}
	select {
	case v, ok := <-c.ch:
		if ok {
			st.buf = append(st.buf, v)
		} else {
			st.closed = true
		}
		return true
	default:
	}
	return false
}
func (c *RecvCase[T]) exec(s *Sim) {
	v, ok, _ := s.tryRecv(c.st(s))
	c.V, c.Ok = unbox[T](v), ok
}
func (c *RecvCase[T]) enq(s *Sim, w *waiter) {
	if c.ch == nil {
		return
	}
	st := c.st(s)
	st.recvq = append(st.recvq, w)
}
func (c *RecvCase[T]) fin(w *waiter) { c.V, c.Ok = unbox[T](w.val), w.ok }

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// CaseSend makes a send case.
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (c *SendCase[T]) st(s *Sim) *chanState { return s.chanOf(chanPtr(&c.ch), c.ch, cap(c.ch)) }
func (c *SendCase[T]) try(s *Sim) bool {
	if c.ch == nil {
		return false
	}
	st := c.st(s)
	return st.closed || len(st.buf) < st.cap || live(st.recvq)
}
func (c *SendCase[T]) exec(s *Sim) { s.trySend(c.st(s), c.v) }
func (c *SendCase[T]) enq(s *Sim, w *waiter) {
	if c.ch == nil {
		return
	}
	w.val = c.v
	st := c.st(s)
	st.sendq = append(st.sendq, w)
}
func (c *SendCase[T]) fin(w *waiter) {
	if !w.ok {
		panic(runtimeError("send on closed channel"))
	}
}

// Select performs a select statement and returns the chosen case, -1 for
// default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if s == nil {
		panic("rt: select outside a simulation")
	}
	if inert() {
		if hasDefault {
			return -1
		}
		return len(cases) - 1
	}
	s.point()
	var rdy []int
	for i, c := range cases {
		if c.try(s) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 {
			k = s.C.Intn("select", len(rdy))
		}
		cases[rdy[k]].exec(s)
		return rdy[k]
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		c.enq(s, &waiter{g: s.cur, idx: i, sel: sel})
	}
	s.park("select")
	w := sel.fired
	if w == nil { // inert wake-up
		return len(cases) - 1
	}
	cases[w.idx].fin(w)
	return w.idx
}

// ---- maps ----

// MapIter drives for range over a map in a seeded order.
type MapIter[K comparable, V any] struct {
	OK   bool
	m    map[K]V
	keys []K
	i    int
}

// MapStart begins a range over m.
func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	it := &MapIter[K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		sortKeys(it.keys)
		if s := S; s != nil && len(it.keys) > 1 && !inert() {
			mode := s.C.Intn("map", 4) // 0: sorted
			switch mode {
			case 1:
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			case 2, 3:
				for i := len(it.keys) - 1; i > 0; i-- {
					j := i - s.C.Intn("map", i+1)
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
	}
	k, v := it.Next()
	return it, k, v
}

// Next advances, skipping keys deleted during the iteration.
func (it *MapIter[K, V]) Next() (K, V) {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.OK = true
			return k, v
		}
	}
	it.OK = false
	var k K
	var v V
	return k, v
}
