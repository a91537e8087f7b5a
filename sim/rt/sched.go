// Package rt is the simulator runtime: a token-passing scheduler that runs one
// goroutine of the system under test at a time, a simulated clock, and
// stand-ins for every nondeterministic facility the code uses.
package rt

import (
	"container/heap"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Alive keeps the import of this package used in every instrumented file.
var Alive struct{}

// S is the current simulation, nil outside a run.
var S *Sim

const never = int64(1) << 60

// budget is the number of statements the running goroutine may still execute
// before the scheduler is consulted.
var budget int64 = never

// Y is inserted before every statement of the code under test.
func Y() {
	if budget--; budget < 0 {
		yieldSlow()
	}
}

const hotMask = 4095

var hotTab [hotMask + 1]bool

// F is inserted at the start of every function of the code under test.
func F(id uint32) {
	if hotTab[id&hotMask] {
		hotEntry(id & hotMask)
	}
}

// hotEntry makes the next few statements of the running goroutine likely
// places for a preemption: at the first executions of the function in this
// process and, ever more rarely, at later ones.
func hotEntry(id uint32) {
	s := S
	if s == nil || s.over || s.cur == nil || s.cur.dying || s.cur.node.id == 0 {
		return
	}
	nd := s.cur.node
	if nd.hot == nil {
		nd.hot = map[uint32]uint64{}
	}
	n := nd.hot[id]
	nd.hot[id] = n + 1
	if n >= 30 {
		x := n*0x9e3779b97f4a7c15 + uint64(s.C.Sched.HotSeed) + uint64(id)
		if splitmix(&x)%(n/8) != 0 {
			return
		}
	}
	s.chargeBudget()
	s.cur.hot = 8
	s.cur.mayPause = true
	s.drawBudget()
}

func (s *Sim) setHot() {
	pm := uint64(s.C.Sched.HotPm)
	x := uint64(s.C.Sched.HotSeed)
	for i := range hotTab {
		hotTab[i] = splitmix(&x)%1000 < pm
	}
}

type gstate int

const (
	gRunnable gstate = iota
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	id       int
	node     *Node
	name     string
	wake     chan struct{}
	exited   chan struct{}
	state    gstate
	dying    bool
	handon   bool // dying by its own doing: still owns the token
	why      string
	onExit   func()
	parks    int64
	hot      int // slices left to be cut short
	mayPause bool
}

type timer struct {
	at   int64
	seq  int64
	f    func()
	idx  int
	dead bool
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) {
	t := x.(*timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Failure is a property violation found in a run.
type Failure struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
}

// Sim is one simulated execution.
type Sim struct {
	C *Choices

	cur    *G
	root   *G
	runq   []*G
	all    map[int]*G
	nextG  int
	now    int64
	tseq   int64
	timers timerHeap
	done   chan struct{}
	over   bool

	nodes   []*Node
	chans   map[uintptr]*chanState
	netw    *network
	epoch   time.Time
	globOwn *Node // node whose globals are installed

	Steps      int64
	StepLimit  int64
	Switches   int64
	budgetSet  int64
	hash       uint64
	preemptMax int64 // 0: never preempt
	stallProb  int   // per mille, at a preemption
	policy     int
	noStall    bool
	paused     time.Duration

	Failure  *Failure
	Counters map[string]int
	trace    []string
	traceAll bool
	MaxAlloc int64
	AllocHit []string
	seed     uint64
	Probe    map[string]bool
}

// Options of one run.
type Options struct {
	Trace bool
}

// hashing of the event log
func (s *Sim) mix(x uint64) {
	s.hash ^= x + 0x9e3779b97f4a7c15 + (s.hash << 6) + (s.hash >> 2)
	s.hash *= 0x100000001b3
}

// Hash of the whole event log so far.
func (s *Sim) Hash() uint64 { return s.hash }

// Now is the simulated time in nanoseconds since the start of the run.
func (s *Sim) Now() int64 { return s.now }

var addrRe = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// Tracef records an event for the report; it draws nothing and reads no clock.
func (s *Sim) Tracef(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if strings.Contains(msg, "0x") {
		// addresses in error texts differ from one process to the next
		msg = addrRe.ReplaceAllString(msg, "0x..")
	}
	for i := 0; i < len(msg); i++ {
		s.mix(uint64(msg[i]))
	}
	if s.traceAll || len(s.trace) < 4000 {
		s.trace = append(s.trace, fmt.Sprintf("%12.6fs %s", float64(s.now)/1e9, msg))
	}
}

// Trace returns the recorded events.
func (s *Sim) Trace() []string { return s.trace }

// Count increments a named counter (fault kinds, rare conditions).
func (s *Sim) Count(k string) { s.Counters[k]++ }

// Run executes scenario under the simulator.
func Run(c *Choices, o Options, scenario func(*Sim)) *Sim {
	if S != nil {
		panic("rt: nested run")
	}
	s := &Sim{
		C: c, all: map[int]*G{}, done: make(chan struct{}, 1), chans: map[uintptr]*chanState{},
		StepLimit: 400_000_000, Counters: map[string]int{}, traceAll: o.Trace, MaxAlloc: 1 << 26,
		Probe: map[string]bool{},
	}
	s.seed = c.RandSeed()
	s.epoch = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)
	s.netw = newNetwork(s)
	S = s
	root := s.NewNode("harness")
	s.globOwn = root
	root.started = true
	g := s.newG(root, "root", func() { initGlobals(); scenario(s) })
	g.onExit = func() { s.end() }
	s.root = g
	s.setHot()
	s.switchTo(g)
	s.drawBudget()
	g.wake <- struct{}{}
	<-s.done
	// unwind everything that is left
	s.over = true
	budget = never
	for _, g := range s.sortedGs() {
		s.unwind(g)
	}
	S = nil
	budget = never
	hotTab = [hotMask + 1]bool{}
	time.Local = time.UTC
	return s
}

func (s *Sim) sortedGs() []*G {
	var gs []*G
	for i := 0; i < s.nextG; i++ {
		if g, ok := s.all[i]; ok {
			gs = append(gs, g)
		}
	}
	return gs
}

func (s *Sim) end() {
	if !s.over {
		s.over = true
		s.done <- struct{}{}
	}
}

// unwind kills a parked goroutine: its deferred calls run with every runtime
// operation turned into a no-op.
func (s *Sim) unwind(g *G) {
	if g.state == gDead {
		return
	}
	prev := s.cur
	pb := budget
	g.dying = true
	s.cur = g
	s.installGlobals(g.node)
	budget = never
	g.wake <- struct{}{}
	<-g.exited
	budget = pb
	s.cur = prev
	if prev != nil && !s.over {
		s.installGlobals(prev.node)
	}
}

func (s *Sim) newG(n *Node, name string, f func()) *G {
	g := &G{id: s.nextG, node: n, name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}), state: gRunnable}
	s.nextG++
	s.all[g.id] = g
	n.gs[g.id] = g
	go s.body(g, f)
	return g
}

func (s *Sim) body(g *G, f func()) {
	<-g.wake
	defer func() {
		// runs on return, Goexit and panic
		r := recover()
		if r != nil && !g.dying {
			if s.over {
				// harness bug or late panic
			} else {
				s.crash(g, r, string(debug.Stack()))
			}
		}
		g.state = gDead
		delete(s.all, g.id)
		delete(g.node.gs, g.id)
		if g.onExit != nil && !(s.over && g.dying) {
			g.onExit()
		}
		if g.dying && !g.handon {
			close(g.exited)
			return
		}
		close(g.exited)
		if s.over {
			return
		}
		s.next() // hand the token on; never returns to us
	}()
	if g.dying {
		return
	}
	f()
}

// crash records an uncaught panic in a node and kills it.
func (s *Sim) crash(g *G, r interface{}, stack string) {
	n := g.node
	msg := fmt.Sprint(r)
	if n.id == 0 {
		if codeFrame(stack) {
			// the harness called the code under test with input it should
			// handle, and that code panicked
			s.Failure = &Failure{Kind: "panic", Msg: "panic in the code under test: " + msg + "\n" + trimStack(stack)}
			s.end()
			return
		}
		// the harness itself
		s.Failure = &Failure{Property: "HARNESS", Kind: "panic", Msg: msg + "\n" + stack}
		s.end()
		return
	}
	s.Tracef("node %s CRASH: %s", n.name, firstLine(msg))
	n.Crashed = true
	n.CrashMsg = msg
	n.CrashStack = trimStack(stack)
	n.ExitCode = 2
	s.killNode(n, g)
}

// codeFrame tells whether the innermost frame of a panic lies in the code
// under test.
func codeFrame(st string) bool {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "internal/runtime") {
			continue
		}
		return strings.HasPrefix(l, "github.com/si-co/vpir-code/") && !strings.HasPrefix(l, "github.com/si-co/vpir-code/zzsim/")
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	seen := false
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.Contains(l, "zzsim/rt") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// killNode unwinds every goroutine of n but `except`, and tells the network.
func (s *Sim) killNode(n *Node, except *G) {
	if n.dead {
		return
	}
	n.dead = true
	for _, g := range s.sortedGs() {
		if g.node == n && g != except && g.state != gDead {
			s.removeRunq(g)
			s.unwind(g)
		}
	}
	s.netw.nodeDied(n)
	n.exitWait.wakeAll(s)
}

func (s *Sim) removeRunq(g *G) {
	for i, x := range s.runq {
		if x == g {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sim) switchTo(g *G) {
	s.cur = g
	s.installGlobals(g.node)
}

// ready makes g runnable.
func (s *Sim) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		s.runq = append(s.runq, g)
	}
}

// next picks the next goroutine and gives it the token.  The caller is either
// exiting or about to wait on its own wake channel.
func (s *Sim) next() *G {
	for {
		if len(s.runq) > 0 {
			i := 0
			if len(s.runq) > 1 {
				i = s.C.sched(s, len(s.runq))
			}
			g := s.runq[i]
			copy(s.runq[i:], s.runq[i+1:])
			s.runq = s.runq[:len(s.runq)-1]
			s.Switches++
			s.mix(uint64(g.id)*31 + 7)
			s.switchTo(g)
			s.drawBudget()
			g.wake <- struct{}{}
			return g
		}
		if !s.advance() {
			var sb strings.Builder
			for _, g := range s.sortedGs() {
				fmt.Fprintf(&sb, "%s/%s(%s) ", g.node.name, g.name, g.why)
			}
			s.Failure = &Failure{Property: "", Kind: "deadlock", Msg: "nothing can run: " + sb.String()}
			s.end()
			return nil
		}
		if s.over {
			return nil
		}
	}
}

// advance fires the next timer. False if there is none.
func (s *Sim) advance() bool {
	for len(s.timers) > 0 {
		t := heap.Pop(&s.timers).(*timer)
		if t.dead {
			continue
		}
		if t.at > s.now {
			s.now = t.at
		}
		s.mix(uint64(s.now))
		t.f()
		return true
	}
	return false
}

func (s *Sim) at(t int64, f func()) *timer {
	if t < s.now {
		t = s.now
	}
	s.tseq++
	tm := &timer{at: t, seq: s.tseq, f: f}
	heap.Push(&s.timers, tm)
	return tm
}

func (s *Sim) after(d time.Duration, f func()) *timer {
	if d < 0 {
		d = 0
	}
	return s.at(s.now+int64(d), f)
}

func (s *Sim) stop(t *timer) bool {
	if t == nil || t.dead || t.idx < 0 {
		return false
	}
	t.dead = true
	heap.Remove(&s.timers, t.idx)
	return true
}

func (s *Sim) chargeBudget() {
	used := s.budgetSet - budget
	if budget < 0 {
		used = s.budgetSet
	}
	if used > 0 {
		s.Steps += used
	}
}

const sliceMax = int64(2_000_000)

func (s *Sim) drawBudget() {
	b := s.C.slice(s)
	if b <= 0 || b > sliceMax {
		b = sliceMax
	}
	s.budgetSet = b
	budget = b
}

// park blocks the current goroutine until ready is called for it.
func (s *Sim) park(why string) {
	g := s.cur
	if g.dying {
		return
	}
	g.state = gBlocked
	g.parks++
	g.why = why
	s.chargeBudget()
	n := s.next()
	if n == g {
		<-g.wake // token to self
	} else {
		<-g.wake
	}
	if g.dying {
		runtime.Goexit()
	}
}

// yield puts the current goroutine at the end of the run queue.
func (s *Sim) yield() {
	g := s.cur
	if g.dying {
		return
	}
	s.chargeBudget()
	if len(s.runq) == 0 {
		s.drawBudget()
		return
	}
	s.runq = append(s.runq, g)
	g.state = gRunnable
	s.next()
	<-g.wake
	if g.dying {
		runtime.Goexit()
	}
}

func yieldSlow() {
	s := S
	if s == nil || s.over || s.cur == nil || s.cur.dying {
		budget = never
		return
	}
	s.chargeBudget()
	if s.Steps > s.StepLimit {
		s.Failure = &Failure{Kind: "livelock", Msg: fmt.Sprintf("step budget of %d statements exhausted in %s/%s", s.StepLimit, s.cur.node.name, s.cur.name)}
		s.stopHere()
		return
	}
	s.budgetSet = 0
	budget = 0
	if d := s.C.stall(s); d > 0 && s.cur.node.id != 0 {
		s.Count("fault:stall")
		s.sleep(d)
		return
	}
	if d := s.C.pause(s); d > 0 && s.cur.node.id != 0 {
		s.Count("fault:pause")
		s.sleep(d)
		return
	}
	s.yield()
}

// point is a scheduling point at a synchronisation operation.
func (s *Sim) point() {
	if s.cur.dying || s.over {
		return
	}
	if len(s.runq) > 0 && s.C.point(s) {
		s.yield()
	}
}

// stopHere ends the run from inside a goroutine.
func (s *Sim) stopHere() {
	g := s.cur
	s.end()
	<-g.wake
	runtime.Goexit()
}

// Fail reports a violation and ends the run.
func (s *Sim) Fail(prop, kind, format string, a ...interface{}) {
	if s.Failure == nil {
		s.Failure = &Failure{Property: prop, Kind: kind, Msg: fmt.Sprintf(format, a...)}
		s.Tracef("VIOLATION %s %s", prop, kind)
	}
	s.stopHere()
}

// SetFailure records a violation without ending the run (usable anywhere).
func (s *Sim) SetFailure(prop, kind, format string, a ...interface{}) {
	if s.Failure == nil {
		s.Failure = &Failure{Property: prop, Kind: kind, Msg: fmt.Sprintf(format, a...)}
		s.Tracef("VIOLATION %s %s", prop, kind)
	}
}

func (s *Sim) sleep(d time.Duration) {
	g := s.cur
	if g.dying {
		return
	}
	seq := g.parks + 1
	s.after(d, func() {
		if g.parks == seq {
			s.ready(g)
		}
	})
	s.park("sleep")
}

// Sleep lets the current goroutine sleep in simulated time.
func (s *Sim) Sleep(d time.Duration) { s.sleep(d) }

// GoOn starts f as a goroutine of node n.
func (s *Sim) GoOn(n *Node, name string, f func()) *G {
	g := s.newG(n, name, f)
	s.runq = append(s.runq, g)
	return g
}

// Go replaces the go statement.
func Go(f interface{}, ell bool, args ...interface{}) {
	s := S
	if s == nil {
		panic("rt: go statement outside a simulation")
	}
	if s.cur.dying {
		return
	}
	run := bindCall(f, ell, args)
	s.GoOn(s.cur.node, "go", run)
	s.point()
}

func bindCall(f interface{}, ell bool, args []interface{}) func() {
	if fn, ok := f.(func()); ok && len(args) == 0 {
		return fn
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1)
			if !ell {
				pt = pt.Elem()
			}
		} else {
			pt = ft.In(i)
		}
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(pt)
		} else if v.Type() != pt && !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	return func() {
		if ell {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	}
}

// Block blocks forever (select{}).
func Block() {
	s := S
	if s == nil || s.cur.dying {
		runtime.Goexit()
	}
	s.park("forever")
}

// dead reports whether runtime operations must be no-ops now.
func inert() bool { return S == nil || S.over || S.cur == nil || S.cur.dying }

// Integer is any integer type.
type Integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// MkLen guards the length or capacity of make([]T, n): sizes out of all
// proportion are reported instead of exhausting the machine.
func MkLen[I Integer](n I) int {
	v := int(n)
	s := S
	if s != nil && int64(v) > s.MaxAlloc {
		s.AllocHit = append(s.AllocHit, fmt.Sprintf("allocation of %d elements in %s", v, s.cur.node.name))
		panic(fmt.Sprintf("runtime error: allocation of %d elements refused by the simulator", v))
	}
	return v
}

// RandFor returns a deterministic random source for a purpose of this run that
// is not subject to shrinking (contents, keys).
func (s *Sim) RandFor(tag string) *rand.Rand {
	h := s.seed
	for i := 0; i < len(tag); i++ {
		h = (h ^ uint64(tag[i])) * 0x100000001b3
	}
	return rand.New(rand.NewSource(int64(h)))
}

func debugf(format string, a ...interface{}) {
	if os.Getenv("ZZDEBUG") != "" {
		fmt.Fprintf(os.Stderr, format, a...)
	}
}
