package rt

import (
	"context"
	"time"
)

func (s *Sim) wall() time.Time {
	n := s.cur.node
	return s.epoch.Add(time.Duration(s.now) + n.Skew).In(n.Loc)
}

// SetEpoch sets the wall-clock time at the start of the run.
func (s *Sim) SetEpoch(t time.Time) { s.epoch = t }

// Epoch is the wall-clock time at the start of the run.
func (s *Sim) Epoch() time.Time { return s.epoch }

func TimeNow() time.Time {
	if S == nil || S.cur == nil {
		return time.Unix(0, 0)
	}
	return S.wall().Local()
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	if inert() {
		return
	}
	if d <= 0 {
		S.point()
		return
	}
	S.sleep(d)
}

// TimeTimer stands in for time.Timer.
type TimeTimer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *timer
	n *Node
}

func (s *Sim) sendTime(c chan time.Time, n *Node) {
	st := s.chanOf(chanPtr(&c), c, cap(c))
	if !st.closed {
		s.trySend(st, s.epoch.Add(time.Duration(s.now)+n.Skew).In(n.Loc))
	}
}

func (t *TimeTimer) arm(d time.Duration) {
	s := S
	t.t = s.after(d, func() {
		if t.n.dead {
			return
		}
		if t.f != nil {
			s.GoOn(t.n, "afterfunc", t.f)
			return
		}
		s.sendTime(t.c, t.n)
	})
}

func TimeNewTimer(d time.Duration) *TimeTimer {
	c := make(chan time.Time, 1)
	t := &TimeTimer{C: c, c: c}
	if !inert() {
		t.n = S.cur.node
		t.arm(d)
	}
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *TimeTimer {
	t := &TimeTimer{f: f}
	if !inert() {
		t.n = S.cur.node
		t.arm(d)
	}
	return t
}

func (t *TimeTimer) Stop() bool {
	if inert() {
		return false
	}
	r := S.stop(t.t)
	if t.c != nil {
		if st := S.chans[chanPtr(&t.c)]; st != nil {
			st.buf = nil
		}
	}
	return r
}

func (t *TimeTimer) Reset(d time.Duration) bool {
	r := t.Stop()
	if !inert() {
		t.arm(d)
	}
	return r
}

func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// TimeTicker stands in for time.Ticker.
type TimeTicker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	n *Node
	d time.Duration
}

func TimeNewTicker(d time.Duration) *TimeTicker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &TimeTicker{C: c, c: c, d: d}
	if !inert() {
		t.n = S.cur.node
		t.arm()
	}
	return t
}

func (t *TimeTicker) arm() {
	s := S
	t.t = s.after(t.d, func() {
		if t.n.dead {
			return
		}
		s.sendTime(t.c, t.n)
		t.arm()
	})
}

func (t *TimeTicker) Stop() {
	if !inert() {
		S.stop(t.t)
	}
}

func (t *TimeTicker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	if !inert() {
		t.arm()
	}
}

func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

// ---- contexts ----

type simCtx struct {
	context.Context // parent, for values
	done            chan struct{}
	err             error
	deadline        time.Time
	hasDL           bool
	dlSim           int64
	children        []*simCtx
	tm              *timer
	n               *Node
	hook            func()
	cause           error
	after           func() // AfterFunc
}

type ctxKeyT struct{}

var ctxKey ctxKeyT

func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *simCtx) Value(k interface{}) interface{} {
	if k == ctxKey {
		return c
	}
	return c.Context.Value(k)
}

func newCtx(parent context.Context) *simCtx {
	c := &simCtx{Context: parent, done: make(chan struct{})}
	if S != nil && S.cur != nil {
		c.n = S.cur.node
	}
	if p, ok := parent.Value(ctxKey).(*simCtx); ok {
		if p.err != nil {
			c.cause = p.cause
			c.cancel(p.err)
		} else {
			p.children = append(p.children, c)
		}
	} else if parent.Err() != nil {
		c.cancel(parent.Err())
	}
	return c
}

func (c *simCtx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	if S == nil {
		close(c.done)
		return
	}
	s := S
	st := s.chanOf(chanPtr(&c.done), c.done, 0)
	if !st.closed {
		s.closeState(st)
		close(c.done)
	}
	s.stop(c.tm)
	if c.hook != nil {
		c.hook()
	}
	if c.after != nil && !c.n.dead {
		f := c.after
		c.after = nil
		s.GoOn(c.n, "afterfunc", f)
	}
	for _, ch := range c.children {
		if ch.err == nil && ch.cause == nil {
			ch.cause = c.cause
		}
		ch.cancel(err)
	}
	c.children = nil
}

func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if inert() {
			return
		}
		c.cancel(context.Canceled)
		S.point()
	}
}

func (c *simCtx) cancelCause(cause error) {
	if inert() || c.err != nil {
		return
	}
	c.cause = cause
	c.cancel(context.Canceled)
	S.point()
}

func CtxWithCancelCause(parent context.Context) (context.Context, func(error)) {
	c := newCtx(parent)
	return c, c.cancelCause
}

func CtxWithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	ctx, f := CtxWithTimeout(parent, d)
	if c := ctx.(*simCtx); c.hasDL {
		if c.err == nil || c.err == context.DeadlineExceeded {
			c.cause = cause
		}
	}
	return ctx, f
}

func CtxWithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	if inert() {
		return CtxWithTimeout(parent, 0)
	}
	return CtxWithTimeoutCause(parent, t.Sub(S.wall()), cause)
}

// CtxCause stands in for context.Cause.
func CtxCause(c context.Context) error {
	if c.Err() == nil {
		return nil
	}
	if p, ok := c.Value(ctxKey).(*simCtx); ok {
		if p.cause != nil && (p.err != context.Canceled || !p.hasDL) {
			return p.cause
		}
		return p.err
	}
	return context.Cause(c)
}

type detached struct{ context.Context }

func (detached) Done() <-chan struct{}            { return nil }
func (detached) Err() error                       { return nil }
func (detached) Deadline() (t time.Time, ok bool) { return }
func (d detached) Value(k interface{}) interface{} {
	if k == ctxKey {
		return nil
	}
	return d.Context.Value(k)
}

func CtxWithoutCancel(parent context.Context) context.Context { return detached{parent} }

func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	c := newCtx(ctx)
	if c.err != nil {
		if !inert() {
			S.GoOn(c.n, "afterfunc", f)
		}
		return func() bool { return false }
	}
	c.after = f
	return func() bool {
		ok := c.after != nil
		c.after = nil
		return ok
	}
}

func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if inert() {
		return c, func() {}
	}
	s := S
	at := s.now + int64(d)
	if p, ok := parent.Value(ctxKey).(*simCtx); ok && p.hasDeadlineBefore(at) {
		// parent expires first
	} else {
		c.hasDL = true
		c.dlSim = at
		c.deadline = s.wall().Add(d)
		if c.err == nil {
			if d <= 0 {
				c.cancel(context.DeadlineExceeded)
			} else {
				c.tm = s.after(d, func() { c.cancel(context.DeadlineExceeded) })
			}
		}
	}
	return c, func() {
		if inert() {
			return
		}
		c.cancel(context.Canceled)
	}
}

func (c *simCtx) hasDeadlineBefore(at int64) bool {
	if c.hasDL {
		return c.dlSim <= at
	}
	if p, ok := c.Context.Value(ctxKey).(*simCtx); ok {
		return p.hasDeadlineBefore(at)
	}
	return false
}

func CtxWithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	if inert() {
		return CtxWithTimeout(parent, 0)
	}
	return CtxWithTimeout(parent, t.Sub(S.wall()))
}

// waitOr parks until cond holds (w is woken when it may) or ctx is done.
func (s *Sim) waitOr(ctx context.Context, w *waitq, why string, cond func() bool) error {
	if cond() {
		return nil
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	var tw waitq
	if p, ok := ctx.Value(ctxKey).(*simCtx); ok {
		c := newCtx(p)
		c.hook = func() { tw.wakeAll(s) }
		defer func() {
			c.hook = nil
			c.err = context.Canceled
			for i, x := range p.children {
				if x == c {
					p.children = append(p.children[:i:i], p.children[i+1:]...)
					break
				}
			}
		}()
	}
	for !cond() {
		if err := ctx.Err(); err != nil {
			return err
		}
		if inert() {
			return context.Canceled
		}
		w.add(s)
		tw.add(s)
		s.park(why)
	}
	return nil
}
