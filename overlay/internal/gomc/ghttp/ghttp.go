// Package ghttp stands in for the process-level parts of net/http and
// os/signal, so that whole main functions run under the controlled scheduler.
package ghttp

import (
	"context"
	"crypto/tls"
	"errors"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"time"

	"vsa/internal/gomc/gctx"
	"vsa/internal/gomc/rt"
)

// DefaultServeMux is re-created for every execution.
var DefaultServeMux = http.NewServeMux()

type world struct {
	o       rt.Object
	servers map[string]*Server
	all     []*Server
	ever    map[string]bool
	down    bool
	sigs    []sigReg
}

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
	f    func()
}

var w = &world{servers: map[string]*Server{}, ever: map[string]bool{}}

func init() {
	rt.OnReset(func() {
		DefaultServeMux = http.NewServeMux()
		w = &world{servers: map[string]*Server{}, ever: map[string]bool{}}
	})
}

func Handle(p string, h http.Handler) { DefaultServeMux.Handle(p, h) }
func HandleFunc(p string, h func(w http.ResponseWriter, r *http.Request)) {
	DefaultServeMux.HandleFunc(p, h)
}
func ListenAndServe(addr string, h http.Handler) error {
	s := &Server{Addr: addr, Handler: h}
	return s.ListenAndServe()
}

// Server models http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context

	o         rt.Object
	listening bool
	closing   bool
	active    int
	onShut    []func()
	tok       byte
}

func (s *Server) RegisterOnShutdown(f func()) { s.onShut = append(s.onShut, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

func (s *Server) ListenAndServe() error {
	if !rt.Point(rt.KWrite, &s.o, true, nil) {
		return http.ErrServerClosed
	}
	if s.closing {
		return http.ErrServerClosed
	}
	if w.servers[s.Addr] != nil {
		return errors.New("listen tcp " + s.Addr + ": bind: address already in use")
	}
	w.servers[s.Addr] = s
	w.all = append(w.all, s)
	w.ever[s.Addr] = true
	s.listening = true
	rt.Point(rt.KWait, &s.o, true, func() bool { return s.closing })
	return http.ErrServerClosed
}

func (s *Server) Shutdown(ctx context.Context) error {
	if !rt.Point(rt.KWrite, &s.o, true, nil) {
		return nil
	}
	s.closing = true
	if w.servers[s.Addr] == s {
		delete(w.servers, s.Addr)
	}
	for _, f := range s.onShut {
		rt.Go(f)
	}
	rt.Point(rt.KWait, &s.o, true, func() bool { return s.active == 0 || ctx.Err() != nil })
	rt.RaceAcq(&s.tok)
	if s.active > 0 {
		return ctx.Err()
	}
	return nil
}

func (s *Server) Close() error {
	if !rt.Point(rt.KWrite, &s.o, true, nil) {
		return nil
	}
	s.closing = true
	if w.servers[s.Addr] == s {
		delete(w.servers, s.Addr)
	}
	return nil
}

// Do performs one client request against the server listening on addr.  It
// returns nil when the connection is refused.
func Do(addr, method, url string) *httptest.ResponseRecorder {
	return DoSlow(addr, method, url, 0, 0)
}

// DoSlow is Do over a slow connection: the request takes a while to arrive and
// the answer a while to be taken.
func DoSlow(addr, method, url string, send, recv time.Duration) *httptest.ResponseRecorder {
	if !rt.Point(rt.KWrite, &w.o, true, nil) {
		return nil
	}
	s := w.servers[addr]
	if s == nil {
		return nil
	}
	if !rt.Point(rt.KWrite, &s.o, true, nil) {
		return nil
	}
	if s.closing {
		return nil
	}
	s.active++
	rec := httptest.NewRecorder()
	req := httptest.NewRequest(method, url, nil)
	h := s.Handler
	if h == nil {
		h = DefaultServeMux
	}
	if send > 0 {
		rt.Sleep(send)
	}
	if recv > 0 {
		h.ServeHTTP(&slowWriter{ResponseRecorder: rec, d: recv}, req)
	} else {
		h.ServeHTTP(rec, req)
	}
	if rt.Point(rt.KWrite, &s.o, true, nil) {
		rt.RaceRel(&s.tok)
		s.active--
	}
	return rec
}

type slowWriter struct {
	*httptest.ResponseRecorder
	d time.Duration
}

func (s *slowWriter) wait() {
	if s.d > 0 {
		d := s.d
		s.d = 0
		rt.Sleep(d)
	}
}

func (s *slowWriter) Write(b []byte) (int, error) {
	s.wait()
	return s.ResponseRecorder.Write(b)
}

func (s *slowWriter) WriteString(b string) (int, error) {
	s.wait()
	return s.ResponseRecorder.WriteString(b)
}

// InFlight is the number of requests being served.
func InFlight() (n int) {
	for _, s := range w.all {
		n += s.active
	}
	return
}

// WaitListening blocks until a server has listened on addr, or Down was called.
func WaitListening(addr string) {
	rt.Point(rt.KWait, &w.o, false, func() bool { return w.down || w.ever[addr] })
}

// Down says that the process is over.
func Down() {
	if rt.Point(rt.KWrite, &w.o, true, nil) {
		w.down = true
	}
}

// Servers returns the addresses that are listening.
func Servers() int { return len(w.servers) }

// Notify models signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if rt.Point(rt.KWrite, &w.o, true, nil) {
		w.sigs = append(w.sigs, sigReg{c: c, sigs: sigs})
	}
}

func StopNotify(c chan<- os.Signal) {
	if rt.Point(rt.KWrite, &w.o, true, nil) {
		var out []sigReg
		for _, r := range w.sigs {
			if r.c != c {
				out = append(out, r)
			}
		}
		w.sigs = out
	}
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := gctx.WithCancel(parent)
	if rt.Point(rt.KWrite, &w.o, true, nil) {
		w.sigs = append(w.sigs, sigReg{f: cancel, sigs: sigs})
	}
	return ctx, cancel
}

// WaitNotify blocks until the process has subscribed to signals.
func WaitNotify() { rt.Point(rt.KWait, &w.o, false, func() bool { return w.down || len(w.sigs) > 0 }) }

// deliver does not wait for the receiver; without a buffer the signal is lost
// when the receiver has not come to wait yet.
func deliver(c chan<- os.Signal, sig os.Signal) {
	if cap(c) == 0 && rt.Choose(2, false, "receiver not there yet") == 1 {
		return
	}
	rt.Select(true, rt.SendC(c)(sig))
}

// Raise delivers a signal; false means nobody subscribed (the default action
// would end the process).
func Raise(sig os.Signal) bool {
	if !rt.Point(rt.KWrite, &w.o, true, nil) {
		return true
	}
	hit := false
	for _, r := range w.sigs {
		for _, s := range r.sigs {
			if s == sig {
				hit = true
				if r.f != nil {
					r.f()
				} else {
					deliver(r.c, sig)
				}
				break
			}
		}
		if len(r.sigs) == 0 {
			hit = true
			if r.c != nil {
				deliver(r.c, sig)
			}
		}
	}
	return hit
}
