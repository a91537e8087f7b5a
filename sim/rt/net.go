package rt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding"
	_ "google.golang.org/grpc/encoding/proto"
	"google.golang.org/grpc/status"
)

// NetCfg is the fault plan of the network.
type NetCfg struct {
	LatMax    time.Duration // latency of one message is drawn up to this
	ResetPct  int           // connection reset before the request is processed
	LostPct   int           // connection reset after it is processed
	StallPct  int           // message delayed by up to StallMax
	StallMax  time.Duration
	Blocked   func(from, to *Node) bool // partition
	OnSend    func(from *Node, target, method string, req []byte)
	OnRequest func(from, to *Node, method string, req []byte)
	OnReply   func(from, to *Node, method string, reply []byte, err error)
	// Lie replaces what a (lying) server sends.
	Lie func(from, to *Node, method string, reply []byte, err error) ([]byte, error)
}

type network struct {
	s         *Sim
	cfg       NetCfg
	listeners map[string]*NetListener
	calls     []*rpc
	webs      []*webCall
	waiters   waitq
	portN     int
}

func newNetwork(s *Sim) *network {
	return &network{s: s, listeners: map[string]*NetListener{}, cfg: NetCfg{LatMax: 2 * time.Millisecond}}
}

// Net gives access to the fault plan.
func (s *Sim) Net() *NetCfg { return &s.netw.cfg }

func (w *network) latency() time.Duration {
	s := w.s
	d := 100 * time.Microsecond
	if w.cfg.LatMax > 0 {
		d += time.Duration(s.C.Intn("lat", 1000)) * w.cfg.LatMax / 1000
	}
	if s.C.Pct("netstall", w.cfg.StallPct) {
		k := s.C.Intn("netstall", 1000)
		d += time.Duration(k+1) * w.cfg.StallMax / 1000
		s.Count("fault:net-delay")
	}
	return d
}

func (w *network) blocked(a, b *Node) bool {
	return w.cfg.Blocked != nil && w.cfg.Blocked(a, b)
}

// ---- listeners ----

// NetListener stands in for a TCP listener.
type NetListener struct {
	key    string
	addr   string
	n      *Node
	closed bool
	gs     *GrpcServer
	hs     *HttpServer
	w      waitq
}

type simAddr string

func (simAddr) Network() string  { return "tcp" }
func (a simAddr) String() string { return string(a) }

func (l *NetListener) Accept() (net.Conn, error) {
	for !l.closed {
		if inert() {
			return nil, net.ErrClosed
		}
		l.w.wait(S, "accept")
	}
	return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: simAddr(l.addr), Err: net.ErrClosed}
}

func (l *NetListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: simAddr(l.addr), Err: net.ErrClosed}
	}
	l.closed = true
	if S != nil {
		w := S.netw
		if w.listeners[l.key] == l {
			delete(w.listeners, l.key)
		}
		l.w.wakeAll(S)
	}
	return nil
}

func (l *NetListener) Addr() net.Addr { return simAddr(l.addr) }

func wildcard(h string) bool { return h == "" || h == "0.0.0.0" || h == "::" || h == "[::]" }

// NetListen stands in for net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	if inert() {
		return nil, net.ErrClosed
	}
	s := S
	s.point()
	n := s.cur.node
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if port == "0" || port == "" {
		s.netw.portN++
		port = fmt.Sprint(40000 + s.netw.portN)
	}
	if wildcard(host) || host == "localhost" {
		host = n.Host
	}
	if host != n.Host {
		if ip := net.ParseIP(host); ip != nil && ip.IsLoopback() {
			host = n.Host
		} else {
			return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr(addr), Err: syscall.EADDRNOTAVAIL}
		}
	}
	key := net.JoinHostPort(host, port)
	if s.netw.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr(addr), Err: syscall.EADDRINUSE}
	}
	l := &NetListener{key: key, addr: key, n: n}
	s.netw.listeners[key] = l
	s.Tracef("%s listens on %s", n.name, key)
	s.netw.waiters.wakeAll(s)
	return l, nil
}

// Listening reports whether somebody accepts connections at addr.
func (s *Sim) Listening(addr string) bool {
	l := s.netw.listeners[addr]
	return l != nil && (l.gs != nil || l.hs != nil)
}

// WaitListen waits until somebody serves at addr.
func (s *Sim) WaitListen(addr string, d time.Duration) bool {
	return s.waitUntil(d, &s.netw.waiters, "wait for listener "+addr, func() bool { return s.Listening(addr) })
}

func (w *network) lookup(from *Node, addr string) *NetListener {
	addr = strings.TrimPrefix(strings.TrimPrefix(addr, "passthrough:///"), "dns:///")
	if l := w.listeners[addr]; l != nil {
		return l
	}
	host, port, err := net.SplitHostPort(addr)
	if err == nil && (wildcard(host) || host == "localhost" || host == "127.0.0.1") {
		return w.listeners[net.JoinHostPort(from.Host, port)]
	}
	return nil
}

// nodeDied breaks the connections of a dead process.
func (w *network) nodeDied(n *Node) {
	for k, l := range w.listeners {
		if l.n == n {
			delete(w.listeners, k)
		}
	}
	s := w.s
	graceful := n.Exited && !n.Crashed && !n.Killed
	for _, c := range append([]*rpc{}, w.calls...) {
		c := c
		if c.srvNode == n && !c.done {
			if c.replySent && (graceful || !s.C.Pct("crashlost", 50)) {
				continue // already on its way to the client
			}
			if c.replySent {
				s.Count("fault:reply-lost-in-crash")
			}
			s.after(w.latency(), func() {
				c.finish(nil, status.Error(codes.Unavailable, "error reading from server: EOF"))
			})
		}
		if c.from == n {
			c.done = true
			if c.sctx != nil && c.srvNode != n {
				s.after(w.latency(), func() { c.sctx.cancel(context.Canceled) })
			}
		}
	}
	for _, c := range append([]*webCall{}, w.webs...) {
		if c.srv == n {
			c.finish(io.EOF)
		}
	}
	w.sweep()
}

func (w *network) sweep() {
	var r []*rpc
	for _, c := range w.calls {
		if !c.done || c.running {
			r = append(r, c)
		}
	}
	w.calls = r
	var q []*webCall
	for _, c := range w.webs {
		if !c.done.set {
			q = append(q, c)
		}
	}
	w.webs = q
}

// ---- gRPC client ----

type blockOpt struct{ grpc.EmptyDialOption }
type callOpts struct {
	grpc.EmptyDialOption
	opts []grpc.CallOption
}

// GrpcWithBlock stands in for grpc.WithBlock.
func GrpcWithBlock() grpc.DialOption { return blockOpt{} }

// GrpcWithDefaultCallOptions stands in for grpc.WithDefaultCallOptions.
func GrpcWithDefaultCallOptions(o ...grpc.CallOption) grpc.DialOption { return callOpts{opts: o} }

type timeoutOpt struct {
	grpc.EmptyDialOption
	d time.Duration
}
type interOpt struct {
	grpc.EmptyDialOption
	first bool
	l     []GrpcUnaryClientInterceptor
}

func GrpcWithTimeout(d time.Duration) grpc.DialOption { return timeoutOpt{d: d} }

// GrpcUnaryInvoker stands in for grpc.UnaryInvoker.
type GrpcUnaryInvoker func(ctx context.Context, method string, req, reply interface{}, cc *GrpcClientConn, opts ...grpc.CallOption) error

// GrpcUnaryClientInterceptor stands in for grpc.UnaryClientInterceptor.
type GrpcUnaryClientInterceptor func(ctx context.Context, method string, req, reply interface{}, cc *GrpcClientConn, invoker GrpcUnaryInvoker, opts ...grpc.CallOption) error

func GrpcWithUnaryInterceptor(f GrpcUnaryClientInterceptor) grpc.DialOption {
	return interOpt{first: true, l: []GrpcUnaryClientInterceptor{f}}
}

func GrpcWithChainUnaryInterceptor(l ...GrpcUnaryClientInterceptor) grpc.DialOption {
	return interOpt{l: l}
}

// GrpcClientConn stands in for grpc.ClientConn.
type GrpcClientConn struct {
	inter  []GrpcUnaryClientInterceptor
	target string
	n      *Node
	closed bool
	opts   []grpc.CallOption
	calls  []*rpc
}

func GrpcDial(target string, opts ...grpc.DialOption) (*GrpcClientConn, error) {
	return GrpcDialContext(context.Background(), target, opts...)
}

func GrpcNewClient(target string, opts ...grpc.DialOption) (*GrpcClientConn, error) {
	return GrpcDialContext(context.Background(), target, opts...)
}

func GrpcDialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*GrpcClientConn, error) {
	if inert() {
		return nil, context.Canceled
	}
	s := S
	s.point()
	cc := &GrpcClientConn{target: target, n: s.cur.node}
	block := false
	for _, o := range opts {
		switch o := o.(type) {
		case blockOpt:
			block = true
		case callOpts:
			cc.opts = append(cc.opts, o.opts...)
		case timeoutOpt:
			c, cancel := CtxWithTimeout(ctx, o.d)
			defer cancel()
			ctx = c
		case interOpt:
			if o.first {
				cc.inter = append(append([]GrpcUnaryClientInterceptor{}, o.l...), cc.inter...)
			} else {
				cc.inter = append(cc.inter, o.l...)
			}
		}
	}
	if !block {
		return cc, nil
	}
	w := s.netw
	// the handshake takes a round trip
	if err := s.sleepCtx(ctx, w.latency()+w.latency()); err != nil {
		return nil, err
	}
	err := s.waitOr(ctx, &w.waiters, "dial "+target, func() bool {
		l := w.lookup(cc.n, target)
		return l != nil && l.gs != nil && !w.blocked(cc.n, l.n)
	})
	if err != nil {
		return nil, err
	}
	return cc, nil
}

func (s *Sim) sleepCtx(ctx context.Context, d time.Duration) error {
	end := s.now + int64(d)
	var q waitq
	tm := s.after(d, func() { q.wakeAll(s) })
	err := s.waitOr(ctx, &q, "sleep", func() bool { return s.now >= end })
	s.stop(tm)
	return err
}

// KickNet makes blocked dials look again after a partition healed.
func (s *Sim) KickNet() { s.netw.waiters.wakeAll(s) }

func (cc *GrpcClientConn) Target() string       { return cc.target }
func (cc *GrpcClientConn) Connect()             {}
func (cc *GrpcClientConn) ResetConnectBackoff() {}
func (cc *GrpcClientConn) Close() error {
	if inert() {
		return nil
	}
	if cc.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	cc.closed = true
	for _, c := range cc.calls {
		c.finish(nil, status.Error(codes.Canceled, "grpc: the client connection is closing"))
	}
	cc.calls = nil
	return nil
}

func (cc *GrpcClientConn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, status.Error(codes.Unimplemented, "streams are not simulated")
}

type rpc struct {
	w         *network
	from      *Node
	srvNode   *Node
	method    string
	req       []byte
	sctx      *simCtx
	done      bool // the client has its outcome
	running   bool // the handler is running
	replySent bool
	reply     []byte
	err       error
	q         waitq
	maxRecv   int
}

func (c *rpc) finish(reply []byte, err error) {
	if c.done {
		return
	}
	c.done = true
	c.reply, c.err = reply, err
	c.q.wakeAll(c.w.s)
}

var codec = encoding.GetCodec("proto")

// Invoke implements grpc.ClientConnInterface.
func (cc *GrpcClientConn) Invoke(ctx context.Context, method string, args, reply interface{}, opts ...grpc.CallOption) error {
	next := func(ctx context.Context, method string, args, reply interface{}, cc *GrpcClientConn, opts ...grpc.CallOption) error {
		return cc.invoke(ctx, method, args, reply, opts...)
	}
	for i := len(cc.inter) - 1; i >= 0; i-- {
		f, inner := cc.inter[i], GrpcUnaryInvoker(next)
		next = func(ctx context.Context, method string, args, reply interface{}, cc *GrpcClientConn, opts ...grpc.CallOption) error {
			return f(ctx, method, args, reply, cc, inner, opts...)
		}
	}
	return next(ctx, method, args, reply, cc, opts...)
}

func (cc *GrpcClientConn) invoke(ctx context.Context, method string, args, reply interface{}, opts ...grpc.CallOption) error {
	if inert() {
		return status.Error(codes.Canceled, "process is gone")
	}
	s := S
	w := s.netw
	s.point()
	if cc.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	if err := ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	b, err := codec.Marshal(args)
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	maxRecv, maxSend := 4<<20, math.MaxInt32
	waitReady := false
	for _, o := range append(append([]grpc.CallOption{}, cc.opts...), opts...) {
		switch o := o.(type) {
		case grpc.MaxRecvMsgSizeCallOption:
			maxRecv = o.MaxRecvMsgSize
		case grpc.MaxSendMsgSizeCallOption:
			maxSend = o.MaxSendMsgSize
		case grpc.FailFastCallOption:
			waitReady = !o.FailFast
		}
	}
	if len(b) > maxSend {
		return status.Errorf(codes.ResourceExhausted, "grpc: trying to send message larger than max (%d vs. %d)", len(b), maxSend)
	}
	c := &rpc{w: w, from: s.cur.node, method: method, req: b, maxRecv: maxRecv}
	_ = waitReady
	w.sweep()
	w.calls = append(w.calls, c)
	cc.calls = append(cc.calls, c)
	var dl time.Duration = -1
	if p, ok := ctx.Value(ctxKey).(*simCtx); ok {
		if at := p.simDeadline(); at >= 0 {
			dl = time.Duration(at - s.now)
		}
	}
	s.Tracef("%s -> %s %s (%d bytes)", c.from.name, cc.target, method, len(b))
	target := cc.target
	if w.cfg.OnSend != nil {
		w.cfg.OnSend(c.from, target, method, b)
	}
	s.after(w.latency(), func() { w.deliver(c, target, dl) })
	werr := s.waitOr(ctx, &c.q, "rpc "+method, func() bool { return c.done })
	for i, x := range cc.calls {
		if x == c {
			cc.calls = append(cc.calls[:i:i], cc.calls[i+1:]...)
			break
		}
	}
	if werr != nil {
		if inert() {
			return status.Error(codes.Canceled, "process is gone")
		}
		c.done = true
		if c.sctx != nil && c.running {
			sctx, e := c.sctx, werr
			_ = e
			s.after(w.latency(), func() { sctx.cancel(context.Canceled) })
		}
		s.Tracef("%s abandons %s at %s: %v", c.from.name, method, cc.target, werr)
		return status.FromContextError(werr).Err()
	}
	if c.err != nil {
		s.Tracef("%s <- %s %s error %v", c.from.name, cc.target, method, c.err)
		return c.err
	}
	if len(c.reply) > maxRecv {
		return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(c.reply), maxRecv)
	}
	s.Tracef("%s <- %s %s %d bytes", c.from.name, cc.target, method, len(c.reply))
	if err := codec.Unmarshal(c.reply, reply); err != nil {
		return status.Errorf(codes.Internal, "grpc: failed to unmarshal the received message %v", err)
	}
	return nil
}

func (c *simCtx) simDeadline() int64 {
	if c.hasDL {
		return c.dlSim
	}
	if p, ok := c.Context.Value(ctxKey).(*simCtx); ok {
		return p.simDeadline()
	}
	return -1
}

// deliver runs in the scheduler: no parking here.
func (w *network) deliver(c *rpc, target string, dl time.Duration) {
	s := w.s
	if c.done {
		return
	}
	back := func(code codes.Code, msg string) {
		s.after(w.latency(), func() { c.finish(nil, status.Error(code, msg)) })
	}
	l := w.lookup(c.from, target)
	if l != nil && w.blocked(c.from, l.n) {
		s.Count("fault:partition-drop")
		s.after(20*time.Second, func() {
			c.finish(nil, status.Error(codes.Unavailable, "connection error: i/o timeout"))
		})
		return
	}
	if l == nil || l.closed || l.n.dead {
		back(codes.Unavailable, "connection error: connection refused")
		return
	}
	srv := l.gs
	if srv == nil {
		// accepted by the kernel, nobody answers yet
		s.after(20*time.Millisecond, func() { w.deliver(c, target, dl) })
		return
	}
	if s.C.Pct("netreset", w.cfg.ResetPct) {
		s.Count("fault:reset-before")
		s.Tracef("fault: connection reset before %s from %s is processed", c.method, c.from.name)
		back(codes.Unavailable, "error reading from server: connection reset by peer")
		return
	}
	if srv.draining {
		back(codes.Unavailable, "connection error: server is going away")
		return
	}
	if len(c.req) > srv.maxRecv {
		back(codes.ResourceExhausted, fmt.Sprintf("grpc: received message larger than max (%d vs. %d)", len(c.req), srv.maxRecv))
		return
	}
	md, impl := srv.find(c.method)
	if md == nil {
		back(codes.Unimplemented, "unknown method "+c.method)
		return
	}
	if w.cfg.OnRequest != nil {
		w.cfg.OnRequest(c.from, l.n, c.method, c.req)
	}
	c.srvNode = l.n
	c.running = true
	srv.active++
	srv.Served++
	sctx := &simCtx{Context: context.Background(), done: make(chan struct{}), n: l.n}
	c.sctx = sctx
	if dl >= 0 {
		sctx.hasDL = true
		sctx.dlSim = s.now + int64(dl)
		sctx.deadline = s.epoch.Add(time.Duration(sctx.dlSim) + l.n.Skew)
		sctx.tm = s.after(dl, func() { sctx.cancel(context.DeadlineExceeded) })
	}
	srv.ctxs = append(srv.ctxs, sctx)
	s.GoOn(l.n, "rpc", func() {
		defer func() {
			c.running = false
			srv.active--
			srv.w.wakeAll(s)
			for i, x := range srv.ctxs {
				if x == sctx {
					srv.ctxs = append(srv.ctxs[:i:i], srv.ctxs[i+1:]...)
					break
				}
			}
		}()
		resp, err := md.Handler(impl, sctx, func(v interface{}) error {
			if e := codec.Unmarshal(c.req, v); e != nil {
				return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", e)
			}
			return nil
		}, srv.interceptor)
		if inert() {
			return
		}
		var out []byte
		if err == nil {
			if resp == nil || reflect.ValueOf(resp).Kind() == reflect.Ptr && reflect.ValueOf(resp).IsNil() {
				err = status.Error(codes.Internal, "grpc: error while marshaling: proto: Marshal called with nil")
			} else if out, err = codec.Marshal(resp); err != nil {
				err = status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
			} else if len(out) > srv.maxSend {
				err = status.Errorf(codes.ResourceExhausted, "grpc: trying to send message larger than max (%d vs. %d)", len(out), srv.maxSend)
			}
		}
		if err != nil {
			if _, ok := status.FromError(err); !ok {
				err = status.FromContextError(err).Err()
			}
		}
		sctx.cancel(context.Canceled)
		if w.cfg.Lie != nil {
			out, err = w.cfg.Lie(c.from, l.n, c.method, out, err)
		}
		if w.cfg.OnReply != nil {
			w.cfg.OnReply(c.from, l.n, c.method, out, err)
		}
		if c.done {
			return
		}
		c.replySent = true
		if s.C.Pct("netlost", w.cfg.LostPct) {
			s.Count("fault:reset-after")
			s.Tracef("fault: reply to %s of %s is lost", c.method, c.from.name)
			err = status.Error(codes.Unavailable, "error reading from server: connection reset by peer")
		}
		if w.blocked(c.from, l.n) {
			s.Count("fault:partition-drop")
			s.after(20*time.Second, func() {
				c.finish(nil, status.Error(codes.Unavailable, "error reading from server: timeout"))
			})
			return
		}
		s.after(w.latency(), func() { c.finish(out, err) })
	})
}

// ---- gRPC server ----

// GrpcServer stands in for grpc.Server.
type GrpcServer struct {
	n           *Node
	svcs        map[string]*svc
	l           []*NetListener
	active      int
	Served      int
	draining    bool
	stopped     bool
	ctxs        []*simCtx
	w           waitq
	maxRecv     int
	maxSend     int
	interceptor grpc.UnaryServerInterceptor
}

type svc struct {
	desc *grpc.ServiceDesc
	impl interface{}
}

func GrpcNewServer(opts ...grpc.ServerOption) *GrpcServer {
	g := &GrpcServer{svcs: map[string]*svc{}, maxRecv: 4 << 20, maxSend: math.MaxInt32}
	if S != nil {
		g.n = S.cur.node
	}
	// the options are opaque: let the real server digest them and read them back
	func() {
		defer func() { recover() }()
		v := reflect.ValueOf(grpc.NewServer(opts...)).Elem().FieldByName("opts")
		g.maxRecv = int(v.FieldByName("maxReceiveMessageSize").Int())
		g.maxSend = int(v.FieldByName("maxSendMessageSize").Int())
		f := v.FieldByName("unaryInt")
		if f.IsValid() && !f.IsNil() {
			g.interceptor = *(*grpc.UnaryServerInterceptor)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}()
	return g
}

// RegisterService implements grpc.ServiceRegistrar.
func (g *GrpcServer) RegisterService(sd *grpc.ServiceDesc, ss interface{}) {
	g.svcs[sd.ServiceName] = &svc{sd, ss}
}

func (g *GrpcServer) GetServiceInfo() map[string]grpc.ServiceInfo { return nil }

func (g *GrpcServer) find(method string) (*grpc.MethodDesc, interface{}) {
	p := strings.Split(strings.TrimPrefix(method, "/"), "/")
	if len(p) != 2 {
		return nil, nil
	}
	sv := g.svcs[p[0]]
	if sv == nil {
		return nil, nil
	}
	for i := range sv.desc.Methods {
		if sv.desc.Methods[i].MethodName == p[1] {
			return &sv.desc.Methods[i], sv.impl
		}
	}
	return nil, nil
}

func (g *GrpcServer) Serve(lis net.Listener) error {
	if inert() {
		return nil
	}
	s := S
	l, ok := lis.(*NetListener)
	if !ok {
		return errors.New("not a simulated listener")
	}
	if g.stopped || g.draining {
		l.Close()
		return grpc.ErrServerStopped
	}
	l.gs = g
	g.l = append(g.l, l)
	s.Tracef("%s serves gRPC on %s", l.n.name, l.key)
	s.netw.waiters.wakeAll(s)
	for !l.closed && !g.stopped {
		if inert() {
			return nil
		}
		l.w.wait(s, "grpc serve")
	}
	if g.draining || g.stopped {
		// like the real server, Serve returns once a graceful stop is complete
		for !g.stopped && !inert() {
			g.w.wait(s, "grpc serve drain")
		}
		return nil
	}
	return net.ErrClosed
}

func (g *GrpcServer) GracefulStop() {
	if inert() {
		return
	}
	s := S
	s.Tracef("%s graceful stop", g.name())
	g.draining = true
	for _, l := range g.l {
		l.Close()
	}
	for g.active > 0 && !g.stopped {
		if inert() {
			return
		}
		g.w.wait(s, "graceful stop")
	}
	g.stopped = true
	g.w.wakeAll(s)
	s.Tracef("%s stopped", g.name())
}

func (g *GrpcServer) name() string {
	if g.n != nil {
		return g.n.name
	}
	return "?"
}

func (g *GrpcServer) Stop() {
	if inert() {
		return
	}
	s := S
	g.draining = true
	g.stopped = true
	for _, l := range g.l {
		l.Close()
	}
	for _, c := range append([]*simCtx{}, g.ctxs...) {
		c.cancel(context.Canceled)
	}
	for _, c := range append([]*rpc{}, s.netw.calls...) {
		if c.srvNode == g.n && !c.replySent {
			c := c
			s.after(s.netw.latency(), func() {
				c.finish(nil, status.Error(codes.Unavailable, "error reading from server: EOF"))
			})
		}
	}
	for g.active > 0 && !inert() {
		g.w.wait(s, "stop")
	}
	g.w.wakeAll(s)
}
