package rt

import (
	"context"
	crand "crypto/rand"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
)

// Node is one simulated process.
type Node struct {
	hot     map[uint32]uint64 // executions of the functions chosen to be preempted often
	id      int
	name    string
	Args    []string
	Env     map[string]string
	Disk    *Disk
	Skew    time.Duration
	Loc     *time.Location
	NCPU    int
	Host    string
	started bool
	dead    bool
	share   bool // shares the harness's package variables

	Exited     bool // os.Exit, log.Fatal or return from main
	Crashed    bool // uncaught panic or fatal error
	Killed     bool // by a fault or a default signal action
	ExitCode   int
	CrashMsg   string
	CrashStack string
	FatalMsg   string
	fatalQuit  bool

	Out, Err strings.Builder
	stdin    []byte

	gs       map[int]*G
	exitWait waitq
	globals  []reflect.Value
	rng      *rand.Rand
	crng     io.Reader
	fs       *flag.FlagSet
	lg       *LogLogger
	stdout   *OsFile
	stderr   *OsFile
	stdinF   *OsFile
	sigs     []*sigReg
	mux      *httpMux
	main     func()
	sim      *Sim
	inits    int
	Survey   func(prompt interface{}, resp interface{}) error
}

// NewNode creates a process that has not started.
func (s *Sim) NewNode(name string) *Node {
	n := &Node{id: len(s.nodes), name: name, Env: map[string]string{}, Loc: time.UTC, NCPU: 2, gs: map[int]*G{}, sim: s, Host: name}
	n.Args = []string{name}
	s.nodes = append(s.nodes, n)
	n.reset()
	return n
}

func (n *Node) reset() {
	s := n.sim
	n.inits++
	n.rng = rand.New(rand.NewSource(int64(s.seed ^ uint64(n.id)*0x9e3779b97f4a7c15 ^ uint64(n.inits)<<40)))
	n.crng = cryptoStream(s.seed*3 + uint64(n.id)*0x51ed2701 + uint64(n.inits)<<33 + 17)
	n.fs = nil
	n.lg = &LogLogger{node: n}
	n.sigs = nil
	n.mux = nil
	n.globals = nil
	n.stdout = &OsFile{name: "/dev/stdout", sink: &n.Out, node: n}
	n.stderr = &OsFile{name: "/dev/stderr", sink: &n.Err, node: n}
	n.stdinF = &OsFile{name: "/dev/stdin", node: n, stdin: true}
}

// Name of the node.
func (n *Node) Name() string { return n.name }

// Alive reports whether the process is running.
func (n *Node) Alive() bool { return n.started && !n.dead }

// Light makes the node share package variables with the harness, which is
// cheaper; for nodes that only call library code.
func (n *Node) Light() *Node {
	n.share = true
	n.started = true
	return n
}

// Start runs main as the node's main goroutine.
func (n *Node) Start(main func()) {
	s := n.sim
	if n.started && !n.dead {
		panic("rt: node already running")
	}
	if n.started {
		n.reset()
	}
	n.started, n.dead = true, false
	n.Exited, n.Crashed, n.Killed, n.ExitCode, n.CrashMsg, n.FatalMsg = false, false, false, 0, "", ""
	n.fatalQuit = false
	n.main = main
	s.Tracef("start %s %v", n.name, n.Args[1:])
	s.GoOn(n, "main", func() {
		if !n.share {
			initGlobals()
		}
		main()
		n.exit(0)
	})
}

// Restart starts the node again with the same main.
func (n *Node) Restart() { n.Start(n.main) }

// Kill stops the process at once (kill -9, power loss of the process).
func (n *Node) Kill() {
	if n.dead || !n.started {
		return
	}
	n.sim.Tracef("kill %s", n.name)
	n.Killed = true
	n.ExitCode = 137
	n.sim.killNode(n, nil)
}

// exit ends the process of the current goroutine.
func (n *Node) exit(code int) {
	s := n.sim
	g := s.cur
	if g.dying {
		runtime.Goexit()
	}
	if n.share {
		// a light node models a library user: report and stop this goroutine
		n.Exited = true
		n.ExitCode = code
		s.Tracef("exit %s code %d", n.name, code)
		s.dieHere(n)
	}
	n.Exited = true
	n.ExitCode = code
	s.Tracef("exit %s code %d", n.name, code)
	s.dieHere(n)
}

// dieHere kills node n, of which the current goroutine is part.
func (s *Sim) dieHere(n *Node) {
	g := s.cur
	s.killNode(n, g)
	g.dying = true
	g.handon = true
	budget = never
	runtime.Goexit()
}

// WaitExit waits until the node has ended, at most d; false on timeout.
func (n *Node) WaitExit(d time.Duration) bool {
	s := n.sim
	if n.dead {
		return true
	}
	s.waitUntil(d, &n.exitWait, "wait exit of "+n.name, func() bool { return n.dead })
	return n.dead
}

// waitUntil parks until cond holds (w is woken when it may) or d has passed.
func (s *Sim) waitUntil(d time.Duration, w *waitq, why string, cond func() bool) bool {
	if cond() {
		return true
	}
	timedOut := false
	var tw waitq
	tm := s.after(d, func() { timedOut = true; tw.wakeAll(s) })
	for !cond() && !timedOut && !inert() {
		w.add(s)
		tw.add(s)
		s.park(why)
	}
	s.stop(tm)
	return cond()
}

// Done is a one-shot event harness code can wait on.
type Done struct {
	set bool
	w   waitq
}

// Set fires the event.
func (d *Done) Set() {
	if d.set || S == nil {
		return
	}
	d.set = true
	d.w.wakeAll(S)
}

// IsSet reports whether the event fired.
func (d *Done) IsSet() bool { return d.set }

// Wait waits for the event, at most dur; false on timeout.
func (d *Done) Wait(dur time.Duration) bool {
	if d.set {
		return true
	}
	return S.waitUntil(dur, &d.w, "wait event", func() bool { return d.set })
}

// CallResult is the outcome of code run on a node.
type CallResult struct {
	Returned bool
	Panic    string
	Stack    string
	Exit     bool
	Fatal    string
	Alloc    string
	Timeout  bool
	Livelock bool
}

// OK reports a normal return.
func (r CallResult) OK() bool { return r.Returned }

func (r CallResult) String() string {
	switch {
	case r.Returned:
		return "returned"
	case r.Alloc != "":
		return "excessive allocation: " + r.Alloc
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Exit:
		return "process exit: " + r.Fatal
	case r.Timeout:
		return "did not return"
	}
	return "unknown"
}

// Call runs f on a fresh light process and waits for it at most d of simulated
// time; the process dies with the call.
func (s *Sim) Call(name string, cfg *Node, d time.Duration, f func()) CallResult {
	n := s.NewNode(name).Light()
	if cfg != nil {
		n.Loc, n.Skew, n.NCPU, n.Disk = cfg.Loc, cfg.Skew, cfg.NCPU, cfg.Disk
		for k, v := range cfg.Env {
			n.Env[k] = v
		}
	}
	return n.Call(d, f)
}

// Call runs f on node n and waits for it.
func (n *Node) Call(d time.Duration, f func()) CallResult {
	s := n.sim
	na := len(s.AllocHit)
	ev := &Done{}
	ret := false
	g := s.GoOn(n, "call", func() { f(); ret = true })
	g.onExit = ev.Set
	n.dead = false
	n.Exited, n.Crashed, n.FatalMsg, n.CrashMsg = false, false, "", ""
	ok := ev.Wait(d)
	r := CallResult{Returned: ret, Timeout: !ok && !ret}
	if n.Crashed {
		r.Panic, r.Stack = n.CrashMsg, n.CrashStack
		r.Returned = false
	} else if n.Exited {
		r.Exit, r.Fatal = true, n.FatalMsg
		r.Returned = false
	}
	if len(s.AllocHit) > na {
		r.Alloc = s.AllocHit[na]
		r.Returned = false
	}
	return r
}

// ---- package variables, one set per process ----

type pkgReg struct {
	path  string
	vars  []reflect.Value // addressable element values
	inits []func()
}

var pkgs []*pkgReg

// RegPkg is called by generated code in every instrumented package.
func RegPkg(path string, vars []interface{}, inits []func()) {
	p := &pkgReg{path: path, inits: inits}
	for _, v := range vars {
		p.vars = append(p.vars, reflect.ValueOf(v).Elem())
	}
	pkgs = append(pkgs, p)
}

func initGlobals() {
	for _, p := range pkgs {
		for _, v := range p.vars {
			v.Set(reflect.Zero(v.Type()))
		}
	}
	for _, p := range pkgs {
		for _, f := range p.inits {
			f()
		}
	}
}

func (s *Sim) installGlobals(n *Node) {
	time.Local = n.Loc
	if n.share {
		n = s.nodes[0]
	}
	if s.globOwn == n {
		return
	}
	o := s.globOwn
	var save []reflect.Value
	i := 0
	if o.globals != nil {
		save = o.globals
	}
	for _, p := range pkgs {
		for _, v := range p.vars {
			if o.globals != nil {
				save[i].Set(v)
			} else {
				c := reflect.New(v.Type()).Elem()
				c.Set(v)
				save = append(save, c)
			}
			i++
		}
	}
	o.globals = save
	i = 0
	for _, p := range pkgs {
		for _, v := range p.vars {
			if n.globals != nil {
				v.Set(n.globals[i])
			}
			i++
		}
	}
	s.globOwn = n
}

// ---- randomness ----

type simReader struct{}

func (simReader) Read(b []byte) (int, error) {
	if S == nil || S.cur == nil {
		return fallbackRand.Read(b)
	}
	n := S.cur.node
	return n.crng.Read(b)
}

var fallbackRand = rand.New(rand.NewSource(1))

func init() { crand.Reader = simReader{} }

func nrand() *rand.Rand {
	if S == nil || S.cur == nil {
		return fallbackRand
	}
	return S.cur.node.rng
}

func RandInt() int                         { return nrand().Int() }
func RandIntn(n int) int                   { return nrand().Intn(n) }
func RandInt31() int32                     { return nrand().Int31() }
func RandInt31n(n int32) int32             { return nrand().Int31n(n) }
func RandInt63() int64                     { return nrand().Int63() }
func RandInt63n(n int64) int64             { return nrand().Int63n(n) }
func RandUint32() uint32                   { return nrand().Uint32() }
func RandUint64() uint64                   { return nrand().Uint64() }
func RandFloat32() float32                 { return nrand().Float32() }
func RandFloat64() float64                 { return nrand().Float64() }
func RandPerm(n int) []int                 { return nrand().Perm(n) }
func RandShuffle(n int, f func(i, j int))  { nrand().Shuffle(n, f) }
func RandSeed(x int64)                     { nrand().Seed(x) }
func RandRead(b []byte) (int, error)       { return nrand().Read(b) }
func RandNormFloat64() float64             { return nrand().NormFloat64() }
func RandExpFloat64() float64              { return nrand().ExpFloat64() }
func Rand2IntN(n int) int                  { return nrand().Intn(n) }
func Rand2Int() int                        { return nrand().Int() }
func Rand2Uint32() uint32                  { return nrand().Uint32() }
func Rand2Uint64() uint64                  { return nrand().Uint64() }
func Rand2Float64() float64                { return nrand().Float64() }
func Rand2Perm(n int) []int                { return nrand().Perm(n) }
func Rand2Shuffle(n int, f func(i, j int)) { nrand().Shuffle(n, f) }

var _ = randv2.Int

// ---- runtime ----

func RuntimeNumCPU() int {
	if S == nil || S.cur == nil {
		return 2
	}
	return S.cur.node.NCPU
}
func RuntimeGOMAXPROCS(n int) int { return RuntimeNumCPU() }
func RuntimeGC()                  {}
func DebugFreeOSMemory()          {}
func DebugSetGCPercent(p int) int { return 100 }
func RuntimeGosched() {
	if !inert() {
		S.yield()
	}
}
func RuntimeNumGoroutine() int {
	if inert() {
		return 1
	}
	return len(S.cur.node.gs)
}

// ---- process ----

func me() *Node {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.node
}

func OsExit(code int) {
	n := me()
	if n == nil {
		os.Exit(code)
	}
	n.exit(code)
}

func OsArgs() []string {
	if n := me(); n != nil {
		return n.Args
	}
	return os.Args
}

func OsGetenv(k string) string {
	if n := me(); n != nil {
		return n.Env[k]
	}
	return ""
}
func OsLookupEnv(k string) (string, bool) {
	if n := me(); n != nil {
		v, ok := n.Env[k]
		return v, ok
	}
	return "", false
}
func OsSetenv(k, v string) error { me().Env[k] = v; return nil }
func OsUnsetenv(k string) error  { delete(me().Env, k); return nil }
func OsEnviron() []string {
	var ks []string
	for k := range me().Env {
		ks = append(ks, k)
	}
	sortKeys(ks)
	for i, k := range ks {
		ks[i] = k + "=" + me().Env[k]
	}
	return ks
}
func OsGetpid() int                          { return 1000 + me().id }
func OsHostname() (string, error)            { return me().Host, nil }
func OsStdout() *OsFile                      { return me().stdout }
func OsStderr() *OsFile                      { return me().stderr }
func OsStdin() *OsFile                       { return me().stdinF }
func FmtPrint(a ...interface{}) (int, error) { return fmt.Fprint(outw(), a...) }
func FmtPrintf(f string, a ...interface{}) (int, error) {
	return fmt.Fprintf(outw(), f, a...)
}
func FmtPrintln(a ...interface{}) (int, error) { return fmt.Fprintln(outw(), a...) }
func FmtScan(a ...interface{}) (int, error)    { return fmt.Fscan(OsStdin(), a...) }
func FmtScanln(a ...interface{}) (int, error)  { return fmt.Fscanln(OsStdin(), a...) }
func FmtScanf(f string, a ...interface{}) (int, error) {
	return fmt.Fscanf(OsStdin(), f, a...)
}

// SetStdin provides the process's standard input.
func (n *Node) SetStdin(s string) { n.stdin = []byte(s) }

func outw() io.Writer {
	if me() == nil {
		return io.Discard
	}
	return OsStdout()
}

// ---- signals ----

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	if inert() {
		return
	}
	n := me()
	n.sigs = append(n.sigs, &sigReg{c, sig})
}

func SignalStop(c chan<- os.Signal) {
	if inert() {
		return
	}
	n := me()
	var r []*sigReg
	for _, x := range n.sigs {
		if x.c != c {
			r = append(r, x)
		}
	}
	n.sigs = r
}

func SignalReset(sig ...os.Signal)  { me().sigs = nil }
func SignalIgnore(sig ...os.Signal) { me().sigs = append(me().sigs, &sigReg{nil, sig}) }

func SignalNotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sig...)
	n := me()
	S.GoOn(n, "notifyctx", func() {
		Recv((<-chan os.Signal)(ch))
		c.cancel(context.Canceled)
	})
	return c, func() { c.cancel(context.Canceled) }
}

// Signal delivers a signal to the node.
func (n *Node) Signal(sig os.Signal) {
	s := n.sim
	if n.dead || !n.started {
		return
	}
	s.Tracef("signal %v to %s", sig, n.name)
	handled := false
	for _, r := range n.sigs {
		match := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == sig {
				match = true
			}
		}
		if !match {
			continue
		}
		handled = true
		if r.c == nil {
			continue
		}
		c := r.c
		st := s.chanOf(chanPtr(&c), c, cap(c))
		if len(st.buf) < st.cap || live(st.recvq) {
			s.trySend(st, sig)
		}
	}
	if !handled {
		n.Killed = true
		n.ExitCode = 130
		s.Tracef("default action kills %s", n.name)
		s.killNode(n, nil)
	}
}

// HasSignalHandler reports whether the node has installed a handler for sig.
func (n *Node) HasSignalHandler(sig os.Signal) bool {
	for _, r := range n.sigs {
		if len(r.sigs) == 0 {
			return true
		}
		for _, x := range r.sigs {
			if x == sig {
				return true
			}
		}
	}
	return false
}

// ---- log ----

// LogLogger stands in for log.Logger.
type LogLogger struct {
	node   *Node
	w      io.Writer
	prefix string
	flags  int
	mu     SyncMutex
}

func std() *LogLogger {
	n := me()
	if n == nil {
		return &LogLogger{w: io.Discard}
	}
	return n.lg
}

func LogNew(w io.Writer, prefix string, fl int) *LogLogger {
	return &LogLogger{node: me(), w: w, prefix: prefix, flags: fl}
}
func LogDefault() *LogLogger { return std() }

func (l *LogLogger) out(msg string) {
	if inert() {
		return
	}
	if !strings.HasSuffix(msg, "\n") {
		msg += "\n"
	}
	w := l.w
	if w == nil {
		w = me().stderr
	}
	l.mu.enter()
	defer l.mu.leave()
	io.WriteString(w, l.prefix+msg)
}

func (l *LogLogger) fatal(msg string) {
	n := me()
	if n == nil {
		log.Fatal(msg)
	}
	l.out(msg)
	if !inert() {
		n.FatalMsg = strings.TrimSpace(msg)
		n.fatalQuit = true
	}
	n.exit(1)
}

func (l *LogLogger) Print(a ...interface{})            { l.out(fmt.Sprint(a...)) }
func (l *LogLogger) Printf(f string, a ...interface{}) { l.out(fmt.Sprintf(f, a...)) }
func (l *LogLogger) Println(a ...interface{})          { l.out(fmt.Sprintln(a...)) }
func (l *LogLogger) Fatal(a ...interface{})            { l.fatal(fmt.Sprint(a...)) }
func (l *LogLogger) Fatalf(f string, a ...interface{}) { l.fatal(fmt.Sprintf(f, a...)) }
func (l *LogLogger) Fatalln(a ...interface{})          { l.fatal(fmt.Sprintln(a...)) }
func (l *LogLogger) Panic(a ...interface{})            { l.out(fmt.Sprint(a...)); panic(fmt.Sprint(a...)) }
func (l *LogLogger) Panicf(f string, a ...interface{}) {
	l.out(fmt.Sprintf(f, a...))
	panic(fmt.Sprintf(f, a...))
}
func (l *LogLogger) Panicln(a ...interface{}) { l.out(fmt.Sprintln(a...)); panic(fmt.Sprintln(a...)) }
func (l *LogLogger) SetOutput(w io.Writer)    { l.w = w }
func (l *LogLogger) SetPrefix(p string)       { l.prefix = p }
func (l *LogLogger) SetFlags(f int)           { l.flags = f }
func (l *LogLogger) Prefix() string           { return l.prefix }
func (l *LogLogger) Flags() int               { return l.flags }
func (l *LogLogger) Writer() io.Writer {
	if l.w != nil {
		return l.w
	}
	return me().stderr
}
func (l *LogLogger) Output(d int, s string) error { l.out(s); return nil }

func LogPrint(a ...interface{})            { std().Print(a...) }
func LogPrintf(f string, a ...interface{}) { std().Printf(f, a...) }
func LogPrintln(a ...interface{})          { std().Println(a...) }
func LogFatal(a ...interface{})            { std().Fatal(a...) }
func LogFatalf(f string, a ...interface{}) { std().Fatalf(f, a...) }
func LogFatalln(a ...interface{})          { std().Fatalln(a...) }
func LogPanic(a ...interface{})            { std().Panic(a...) }
func LogPanicf(f string, a ...interface{}) { std().Panicf(f, a...) }
func LogPanicln(a ...interface{})          { std().Panicln(a...) }
func LogSetOutput(w io.Writer)             { std().SetOutput(w) }
func LogSetPrefix(p string)                { std().SetPrefix(p) }
func LogSetFlags(f int)                    { std().SetFlags(f) }
func LogWriter() io.Writer                 { return std().Writer() }
func LogPrefix() string                    { return std().Prefix() }
func LogFlags() int                        { return std().Flags() }
func LogOutput(d int, s string) error      { std().out(s); return nil }

// ---- flags ----

func fset() *flag.FlagSet {
	n := me()
	if n == nil {
		return flag.CommandLine
	}
	if n.fs == nil {
		n.fs = flag.NewFlagSet(n.name, flag.ContinueOnError)
		n.fs.SetOutput(io.Discard)
	}
	return n.fs
}

func FlagBool(n string, v bool, u string) *bool                { return fset().Bool(n, v, u) }
func FlagBoolVar(p *bool, n string, v bool, u string)          { fset().BoolVar(p, n, v, u) }
func FlagInt(n string, v int, u string) *int                   { return fset().Int(n, v, u) }
func FlagIntVar(p *int, n string, v int, u string)             { fset().IntVar(p, n, v, u) }
func FlagInt64(n string, v int64, u string) *int64             { return fset().Int64(n, v, u) }
func FlagInt64Var(p *int64, n string, v int64, u string)       { fset().Int64Var(p, n, v, u) }
func FlagUint(n string, v uint, u string) *uint                { return fset().Uint(n, v, u) }
func FlagUintVar(p *uint, n string, v uint, u string)          { fset().UintVar(p, n, v, u) }
func FlagUint64(n string, v uint64, u string) *uint64          { return fset().Uint64(n, v, u) }
func FlagUint64Var(p *uint64, n string, v uint64, u string)    { fset().Uint64Var(p, n, v, u) }
func FlagString(n string, v string, u string) *string          { return fset().String(n, v, u) }
func FlagStringVar(p *string, n string, v string, u string)    { fset().StringVar(p, n, v, u) }
func FlagFloat64(n string, v float64, u string) *float64       { return fset().Float64(n, v, u) }
func FlagFloat64Var(p *float64, n string, v float64, u string) { fset().Float64Var(p, n, v, u) }
func FlagDuration(n string, v time.Duration, u string) *time.Duration {
	return fset().Duration(n, v, u)
}
func FlagDurationVar(p *time.Duration, n string, v time.Duration, u string) {
	fset().DurationVar(p, n, v, u)
}
func FlagVar(v flag.Value, n string, u string)   { fset().Var(v, n, u) }
func FlagFunc(n, u string, f func(string) error) { fset().Func(n, u, f) }
func FlagArgs() []string                         { return fset().Args() }
func FlagArg(i int) string                       { return fset().Arg(i) }
func FlagNArg() int                              { return fset().NArg() }
func FlagNFlag() int                             { return fset().NFlag() }
func FlagLookup(n string) *flag.Flag             { return fset().Lookup(n) }
func FlagSet(n, v string) error                  { return fset().Set(n, v) }
func FlagPrintDefaults()                         {}
func FlagParsed() bool                           { return fset().Parsed() }
func FlagParse() {
	n := me()
	if n == nil {
		flag.Parse()
		return
	}
	if err := fset().Parse(n.Args[1:]); err != nil {
		n.FatalMsg = err.Error()
		n.exit(2)
	}
}

// SurveyAskOne answers an interactive prompt from the node's script.
func SurveyAskOne(p interface{}, response interface{}, opts ...interface{}) error {
	n := me()
	if n == nil || n.Survey == nil {
		return errors.New("EOF")
	}
	S.point()
	return n.Survey(p, response)
}

// Root is the harness's own process.
func (s *Sim) Root() *Node { return s.nodes[0] }

// OnExit registers f to run when g ends, however it ends.
func OnExit(g *G, f func()) { g.onExit = f }

// SeedRand sets the process's math/rand and crypto/rand streams.
func (n *Node) SeedRand(m, c int64) {
	n.rng = rand.New(rand.NewSource(m))
	n.crng = cryptoStream(uint64(c))
}

// cryptoStream is a seeded stream of cryptographic quality: the generator of
// math/rand has lagged correlations, which statistics over queries would see.
func cryptoStream(seed uint64) io.Reader {
	var k [32]byte
	for i := 0; i < 8; i++ {
		k[i] = byte(seed >> uint(8*i))
	}
	return randv2.NewChaCha8(k)
}
