package rt

import "sync"

// Locker is sync.Locker.
type Locker = sync.Locker

// fatal is a Go runtime throw: not recoverable, the process dies.
func (s *Sim) fatal(msg string) {
	g := s.cur
	n := g.node
	s.Tracef("node %s FATAL %s", n.name, msg)
	n.Crashed = true
	n.CrashMsg = "fatal error: " + msg
	n.ExitCode = 2
	s.dieHere(n)
}

// waitq holds parked goroutines; an entry is good for one park only, so a
// goroutine woken by something else is never woken a second time by it.
type waitq struct{ q []wqEntry }

type wqEntry struct {
	g   *G
	seq int64
}

// add enrols the current goroutine for its next park.
func (w *waitq) add(s *Sim) {
	if len(w.q) > 64 {
		var l []wqEntry
		for _, e := range w.q {
			if e.live() {
				l = append(l, e)
			}
		}
		w.q = l
	}
	w.q = append(w.q, wqEntry{s.cur, s.cur.parks + 1})
}

func (e wqEntry) live() bool {
	if e.g.dying || e.g.state == gDead {
		return false
	}
	return e.g.parks == e.seq && e.g.state == gBlocked || e.g.parks < e.seq
}

func (w *waitq) wait(s *Sim, why string) {
	w.add(s)
	s.park(why)
}

func (w *waitq) wakeOne(s *Sim) bool {
	for len(w.q) > 0 {
		e := w.q[0]
		w.q = w.q[1:]
		if e.g.parks == e.seq && e.g.state == gBlocked && !e.g.dying {
			s.ready(e.g)
			return true
		}
	}
	return false
}

func (w *waitq) wakeAll(s *Sim) {
	for w.wakeOne(s) {
	}
}

// SyncMutex stands in for sync.Mutex.
type SyncMutex struct {
	locked bool
	w      waitq
}

func (m *SyncMutex) Lock() {
	s := S
	if inert() {
		m.locked = true
		return
	}
	s.point()
	for m.locked {
		m.w.wait(s, "mutex")
	}
	m.locked = true
}

// enter and leave exclude others like Lock and Unlock but are no scheduling
// points of their own: the locks inside files and loggers.
func (m *SyncMutex) enter() {
	for !inert() && m.locked {
		m.w.wait(S, "inner lock")
	}
	m.locked = true
}

func (m *SyncMutex) leave() {
	m.locked = false
	if !inert() {
		m.w.wakeOne(S)
	}
}

func (m *SyncMutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *SyncMutex) Unlock() {
	if inert() {
		m.locked = false
		return
	}
	s := S
	if !m.locked {
		s.fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.wakeOne(s)
	s.point()
}

// SyncRWMutex stands in for sync.RWMutex.
type SyncRWMutex struct {
	writer   bool
	readers  int
	wwaiting int
	w        waitq
}

func (m *SyncRWMutex) Lock() {
	if inert() {
		m.writer = true
		return
	}
	s := S
	s.point()
	m.wwaiting++
	for m.writer || m.readers > 0 {
		m.w.wait(s, "rwmutex")
	}
	m.wwaiting--
	m.writer = true
}

func (m *SyncRWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *SyncRWMutex) Unlock() {
	if inert() {
		m.writer = false
		return
	}
	if !m.writer {
		S.fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.wakeAll(S)
	S.point()
}

func (m *SyncRWMutex) RLock() {
	if inert() {
		m.readers++
		return
	}
	s := S
	s.point()
	for m.writer || m.wwaiting > 0 {
		m.w.wait(s, "rwmutex-r")
	}
	m.readers++
}

func (m *SyncRWMutex) TryRLock() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *SyncRWMutex) RUnlock() {
	if inert() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		S.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.w.wakeAll(S)
	S.point()
}

type rlocker SyncRWMutex

func (r *rlocker) Lock()   { (*SyncRWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*SyncRWMutex)(r).RUnlock() }

// RLocker returns a read locker.
func (m *SyncRWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// SyncWaitGroup stands in for sync.WaitGroup.
type SyncWaitGroup struct {
	n int
	w waitq
}

func (g *SyncWaitGroup) Add(d int) {
	g.n += d
	if inert() {
		return
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wakeAll(S)
	}
}

func (g *SyncWaitGroup) Done() {
	g.Add(-1)
	if !inert() {
		S.point()
	}
}

func (g *SyncWaitGroup) Wait() {
	if inert() {
		return
	}
	S.point()
	for g.n > 0 {
		g.w.wait(S, "waitgroup")
	}
}

// Go is sync.WaitGroup.Go.
func (g *SyncWaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() }, false)
}

// SyncOnce stands in for sync.Once.
type SyncOnce struct {
	done bool
	m    SyncMutex
}

func (o *SyncOnce) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// SyncOnceFunc stands in for sync.OnceFunc.
func SyncOnceFunc(f func()) func() {
	var o SyncOnce
	return func() { o.Do(f) }
}

// SyncCond stands in for sync.Cond.
type SyncCond struct {
	L sync.Locker
	t []*condTicket
}

// SyncNewCond is sync.NewCond.
func SyncNewCond(l sync.Locker) *SyncCond { return &SyncCond{L: l} }

func (c *SyncCond) Wait() {
	if inert() {
		return
	}
	t := &condTicket{}
	c.t = append(c.t, t)
	c.L.Unlock()
	s := S
	for !t.fired {
		t.w.wait(s, "cond")
	}
	c.L.Lock()
}

type condTicket struct {
	fired bool
	w     waitq
}

func (c *SyncCond) Signal() {
	if inert() {
		return
	}
	if len(c.t) > 0 {
		t := c.t[0]
		c.t = c.t[1:]
		t.fired = true
		t.w.wakeAll(S)
	}
}

func (c *SyncCond) Broadcast() {
	if inert() {
		return
	}
	for len(c.t) > 0 {
		c.Signal()
	}
}

// SyncPool stands in for sync.Pool: it hands back any of the stored values,
// or a new one, as a real pool may.
type SyncPool struct {
	New   func() interface{}
	items []interface{}
}

func (p *SyncPool) Get() interface{} {
	if len(p.items) > 0 {
		x := p.items[len(p.items)-1]
		p.items = p.items[:len(p.items)-1]
		if inert() || !S.C.Pct("pool", 10) {
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *SyncPool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// SyncMap stands in for sync.Map; Range goes in the order of insertion.
type SyncMap struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *SyncMap) at() {
	if !inert() {
		S.point()
	}
}

func (m *SyncMap) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *SyncMap) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *SyncMap) Load(k interface{}) (interface{}, bool) {
	m.at()
	v, ok := m.m[k]
	return v, ok
}

func (m *SyncMap) Store(k, v interface{}) { m.at(); m.set(k, v) }

func (m *SyncMap) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.at()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *SyncMap) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.at()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *SyncMap) Delete(k interface{}) { m.at(); m.del(k) }

func (m *SyncMap) Swap(k, v interface{}) (interface{}, bool) {
	m.at()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *SyncMap) CompareAndSwap(k, old, v interface{}) bool {
	m.at()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.set(k, v)
	return true
}

func (m *SyncMap) CompareAndDelete(k, old interface{}) bool {
	m.at()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.del(k)
	return true
}

func (m *SyncMap) Clear() { m.at(); m.m, m.keys = nil, nil }

func (m *SyncMap) Range(f func(k, v interface{}) bool) {
	m.at()
	for _, k := range append([]interface{}{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
