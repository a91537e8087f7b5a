package rt

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime/debug"
	"time"
)

type httpMux struct{ m *http.ServeMux }

func mux() *http.ServeMux {
	n := me()
	if n == nil {
		return http.DefaultServeMux
	}
	if n.mux == nil {
		n.mux = &httpMux{http.NewServeMux()}
	}
	return n.mux.m
}

func HttpDefaultServeMux() *http.ServeMux { return mux() }
func HttpHandleFunc(p string, f func(http.ResponseWriter, *http.Request)) {
	mux().HandleFunc(p, f)
}
func HttpHandle(p string, h http.Handler) { mux().Handle(p, h) }
func HttpListenAndServe(addr string, h http.Handler) error {
	return (&HttpServer{Addr: addr, Handler: h}).ListenAndServe()
}
func HttpServe(l net.Listener, h http.Handler) error {
	return (&HttpServer{Handler: h}).Serve(l)
}

// HttpServer stands in for http.Server.
type HttpServer struct {
	Addr              string
	Handler           http.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *LogLogger
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(ctx context.Context, c net.Conn) context.Context

	l      []*NetListener
	closed bool
	active int
	w      waitq
	calls  []*webCall
	onStop []func()
}

func (h *HttpServer) ListenAndServe() error {
	if h.closed {
		return http.ErrServerClosed
	}
	a := h.Addr
	if a == "" {
		a = ":80"
	}
	l, err := NetListen("tcp", a)
	if err != nil {
		return err
	}
	return h.Serve(l)
}

func (h *HttpServer) Serve(lis net.Listener) error {
	if inert() {
		return http.ErrServerClosed
	}
	s := S
	l, ok := lis.(*NetListener)
	if !ok {
		return errors.New("not a simulated listener")
	}
	if h.closed {
		l.Close()
		return http.ErrServerClosed
	}
	l.hs = h
	h.l = append(h.l, l)
	s.Tracef("%s serves HTTP on %s", l.n.name, l.key)
	s.netw.waiters.wakeAll(s)
	for !l.closed {
		if inert() {
			return http.ErrServerClosed
		}
		l.w.wait(s, "http serve")
	}
	if h.closed {
		return http.ErrServerClosed
	}
	return net.ErrClosed
}

func (h *HttpServer) RegisterOnShutdown(f func()) { h.onStop = append(h.onStop, f) }
func (h *HttpServer) SetKeepAlivesEnabled(bool)   {}

func (h *HttpServer) Shutdown(ctx context.Context) error {
	if inert() {
		return nil
	}
	s := S
	h.closed = true
	for _, l := range h.l {
		l.Close()
	}
	for _, f := range h.onStop {
		Go(f, false)
	}
	return s.waitOr(ctx, &h.w, "http shutdown", func() bool { return h.active == 0 })
}

func (h *HttpServer) Close() error {
	if inert() {
		return nil
	}
	h.closed = true
	for _, l := range h.l {
		l.Close()
	}
	for _, c := range h.calls {
		c.finish(io.EOF)
	}
	return nil
}

type webCall struct {
	srv    *Node
	done   Done
	status int
	hdr    http.Header
	body   []byte
	err    error
}

func (c *webCall) finish(err error) {
	if c.done.set {
		return
	}
	c.err = err
	c.done.Set()
}

// HTTPResult is what a simulated browser got.
type HTTPResult struct {
	Status int
	Header http.Header
	Body   string
	Err    error // connection level failure
}

type recorder struct {
	hdr    http.Header
	status int
	body   []byte
	sent   http.Header
}

func (r *recorder) Header() http.Header { return r.hdr }
func (r *recorder) WriteHeader(c int) {
	if r.status == 0 {
		r.status = c
		r.sent = r.hdr.Clone()
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.WriteHeader(200)
	}
	r.body = append(r.body, b...)
	return len(b), nil
}
func (r *recorder) WriteString(s string) (int, error) { return r.Write([]byte(s)) }
func (r *recorder) Flush()                            {}

// HTTPDo performs a request against a simulated web server.  The browser
// waits at most timeout and then disconnects.
func (s *Sim) HTTPDo(addr string, req *http.Request, timeout time.Duration) HTTPResult {
	w := s.netw
	from := s.cur.node
	s.sleep(w.latency())
	l := w.lookup(from, addr)
	if l == nil || l.hs == nil || l.closed || l.n.dead {
		return HTTPResult{Err: errors.New("connection refused")}
	}
	h := l.hs
	n := l.n
	c := &webCall{srv: n}
	w.sweep()
	w.webs = append(w.webs, c)
	h.calls = append(h.calls, c)
	sctx := &simCtx{Context: req.Context(), done: make(chan struct{}), n: n}
	req = req.WithContext(sctx)
	req.RemoteAddr = "192.0.2.7:4711"
	if req.RequestURI == "" {
		req.RequestURI = req.URL.RequestURI()
	}
	start := s.now
	h.active++
	s.Tracef("web request %s %s", req.Method, req.URL.Path)
	s.GoOn(n, "http", func() {
		rec := &recorder{hdr: http.Header{}}
		defer func() {
			h.active--
			if s.over {
				return
			}
			h.w.wakeAll(s)
		}()
		aborted := func() (ab bool) {
			defer func() {
				if inert() {
					return
				}
				if r := recover(); r != nil {
					ab = true
					st := trimStack(string(debug.Stack()))
					if r != http.ErrAbortHandler {
						msg := fmt.Sprintf("http: panic serving %s: %v\n%s", req.RemoteAddr, r, st)
						if h.ErrorLog != nil {
							h.ErrorLog.Print(msg)
						} else {
							std().Print(msg)
						}
						s.Count("http-handler-panic")
						s.Tracef("http handler panic: %v", r)
					}
				}
			}()
			hd := h.Handler
			if hd == nil {
				hd = mux()
			}
			hd.ServeHTTP(rec, req)
			return false
		}()
		if inert() {
			return
		}
		sctx.cancel(context.Canceled)
		if aborted || h.WriteTimeout > 0 && s.now-start > int64(h.WriteTimeout) {
			c.finish(io.EOF)
			return
		}
		if rec.status == 0 {
			rec.WriteHeader(200)
		}
		s.after(w.latency(), func() {
			c.status, c.hdr, c.body = rec.status, rec.sent, rec.body
			c.finish(nil)
		})
	})
	if !c.done.Wait(timeout) {
		s.Tracef("browser disconnects from %s", req.URL.Path)
		s.Count("fault:browser-disconnect")
		c.err = errors.New("timeout")
		c.done.set = true
		sctx.cancel(context.Canceled)
		return HTTPResult{Err: c.err}
	}
	if c.err != nil {
		return HTTPResult{Err: c.err}
	}
	return HTTPResult{Status: c.status, Header: c.hdr, Body: string(c.body)}
}

// HttpTimeoutHandler stands in for http.TimeoutHandler.
func HttpTimeoutHandler(h http.Handler, d time.Duration, msg string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if inert() {
			return
		}
		s := S
		ctx, cancel := CtxWithTimeout(r.Context(), d)
		defer cancel()
		buf := &bufResponse{h: http.Header{}}
		done, gone := false, false
		var q waitq
		var failure interface{}
		s.GoOn(s.cur.node, "handler", func() {
			defer func() {
				if inert() {
					return
				}
				failure = recover()
				done = true
				q.wakeAll(s)
			}()
			buf.gone = &gone
			h.ServeHTTP(buf, r.WithContext(ctx))
		})
		err := s.waitOr(ctx, &q, "handler", func() bool { return done })
		if inert() {
			return
		}
		if err != nil && !done {
			gone = true
			w.WriteHeader(http.StatusServiceUnavailable)
			if msg == "" {
				msg = "<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"
			}
			io.WriteString(w, msg)
			return
		}
		if failure != nil {
			panic(failure)
		}
		for k, v := range buf.h {
			w.Header()[k] = v
		}
		if buf.code != 0 {
			w.WriteHeader(buf.code)
		}
		w.Write(buf.b)
	})
}

type bufResponse struct {
	h    http.Header
	code int
	b    []byte
	gone *bool
}

func (b *bufResponse) Header() http.Header { return b.h }
func (b *bufResponse) WriteHeader(c int) {
	if b.code == 0 {
		b.code = c
	}
}
func (b *bufResponse) Write(p []byte) (int, error) {
	if *b.gone {
		return 0, http.ErrHandlerTimeout
	}
	b.b = append(b.b, p...)
	return len(p), nil
}
