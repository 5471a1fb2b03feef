// Package vhttp is the network between the processes of an execution: it stands for the servers of net/http and for
// what the clients reach them with.
package vhttp

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/DanLavine/willow/verifmc/vctx"
	"github.com/DanLavine/willow/verifmc/vproc"
	"github.com/DanLavine/willow/verifmc/vs"
	"golang.org/x/net/http2"
)

type network struct {
	sent    []Sent
	ports   map[string]*listener
	servers map[*http.Server]*server
	dropped map[*vproc.P]int
	o       vs.Obj
}

func (*network) Opaque() {}

func nw() *network {
	return vs.Local("vhttp", func() any {
		return &network{ports: map[string]*listener{}, servers: map[*http.Server]*server{}, dropped: map[*vproc.P]int{}}
	}).(*network)
}

// Hook makes http.DefaultTransport the network.
func Hook() { http.DefaultTransport = transport{} }

type listener struct {
	port   string
	proc   *vproc.P
	srv    *server
	closed bool
	tls    bool
	config *tls.Config
	o      vs.Obj
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (l *listener) Accept() (net.Conn, error) { return nil, errors.New("verifmc: Accept") }
func (l *listener) Addr() net.Addr            { return addr(":" + l.port) }
func (l *listener) Close() error {
	n := nw()
	n.o.Write(vs.HashString("close"))
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	if n.ports[l.port] == l {
		delete(n.ports, l.port)
	}
	return nil
}

func portOf(a string) (string, error) {
	_, port, err := net.SplitHostPort(a)
	if err != nil {
		return "", err
	}
	switch port {
	case "", "http":
		port = "80"
	case "https":
		port = "443"
	}
	for _, c := range port {
		if c < '0' || c > '9' {
			return "", fmt.Errorf("lookup tcp/%s: unknown port", port)
		}
	}
	return strings.TrimLeft(port, "0"), nil
}

// Listen is net.Listen.
func Listen(netw, a string) (net.Listener, error) {
	l, err := listen(a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(a string) (*listener, error) {
	n := nw()
	vs.Point("listen " + a)
	port, err := portOf(a)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	n.o.Write(vs.HashString("listen"))
	if n.ports[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: errors.New("bind: address already in use")}
	}
	l := &listener{port: port, proc: vproc.Cur()}
	n.ports[port] = l
	if l.proc != nil {
		l.proc.OnExit = append(l.proc.OnExit, func() { _ = l.Close() })
	}
	return l, nil
}

type server struct {
	s      *http.Server
	shut   bool
	lis    []*listener
	conns  []*conn
	active int
	o      vs.Obj
	change chan struct{} // closed and replaced when something happens
}

func (s *server) signal() {
	vs.CloseNow(s.change)
	s.change = vs.Make(make(chan struct{}))
}

func serverOf(h *http.Server) *server {
	n := nw()
	s := n.servers[h]
	if s == nil {
		s = &server{s: h, change: vs.Make(make(chan struct{}))}
		n.servers[h] = s
	}
	return s
}

func ListenAndServe(h *http.Server) func() error {
	return func() error {
		s := serverOf(h)
		vs.Point("ListenAndServe")
		s.o.Read(vs.HashString("shut"))
		if s.shut {
			return http.ErrServerClosed
		}
		a := h.Addr
		if a == "" {
			a = ":http"
		}
		l, err := listen(a)
		if err != nil {
			return err
		}
		return s.serve(l, false)
	}
}

func ListenAndServeTLS(h *http.Server) func(cert, key string) error {
	return func(cert, key string) error {
		s := serverOf(h)
		vs.Point("ListenAndServeTLS")
		s.o.Read(vs.HashString("shut"))
		if s.shut {
			return http.ErrServerClosed
		}
		a := h.Addr
		if a == "" {
			a = ":https"
		}
		l, err := listen(a)
		if err != nil {
			return err
		}
		return s.serveTLS(l, cert, key)
	}
}

func (s *server) serveTLS(l *listener, cert, key string) error {
	cfg := s.s.TLSConfig.Clone()
	if cfg == nil {
		cfg = &tls.Config{}
	}
	if len(cfg.Certificates) == 0 && cfg.GetCertificate == nil || cert != "" || key != "" {
		c, err := tls.LoadX509KeyPair(cert, key)
		if err != nil {
			_ = l.Close()
			return err
		}
		cfg.Certificates = []tls.Certificate{c}
	}
	l.config = cfg
	return s.serve(l, true)
}

func Serve(h *http.Server) func(net.Listener) error {
	return func(l net.Listener) error { return serverOf(h).serve(l.(*listener), false) }
}

func ServeTLS(h *http.Server) func(net.Listener, string, string) error {
	return func(l net.Listener, cert, key string) error { return serverOf(h).serveTLS(l.(*listener), cert, key) }
}

func ListenAndServeAddr(a string, h http.Handler) error {
	return ListenAndServe(&http.Server{Addr: a, Handler: h})()
}

func ListenAndServeTLSAddr(a, cert, key string, h http.Handler) error {
	return ListenAndServeTLS(&http.Server{Addr: a, Handler: h})(cert, key)
}

func (s *server) serve(l *listener, secure bool) error {
	vs.Point("serve")
	s.o.Write(vs.HashString("serve"))
	if s.shut {
		_ = l.Close()
		return http.ErrServerClosed
	}
	l.srv, l.tls = s, secure
	s.lis = append(s.lis, l)
	if l.proc != nil {
		l.proc.OnExit = append(l.proc.OnExit, func() {
			for _, c := range s.conns {
				if !c.isDone && !c.isShut {
					nw().dropped[l.proc]++
				}
				c.reset()
			}
		})
	}
	for {
		s.o.Read(vs.HashString("serving"))
		if s.shut {
			return http.ErrServerClosed
		}
		if l.closed {
			return net.ErrClosed
		}
		ch := s.change
		vs.Recv(ch)
	}
}

func (s *server) stop() {
	vs.Point("server shutdown")
	s.o.Write(vs.HashString("shutdown"))
	s.shut = true
	for _, l := range s.lis {
		if !l.closed {
			_ = l.Close()
		}
	}
	s.signal()
}

func Shutdown(h *http.Server) func(vctx.Context) error {
	return func(ctx vctx.Context) error {
		s := serverOf(h)
		s.stop()
		for {
			s.o.Read(vs.HashString("active"))
			if s.active == 0 {
				return nil
			}
			ch := s.change
			if vs.Select(false, vs.NewRecv(ch), vs.NewRecv(ctx.Done())) == 1 {
				return ctx.Err()
			}
		}
	}
}

func Close(h *http.Server) func() error {
	return func() error {
		s := serverOf(h)
		s.stop()
		for _, c := range s.conns {
			c.reset()
		}
		return nil
	}
}

// ------------------------------------------------------------------ connections

// conn carries one request.
type conn struct {
	s      *server
	done   chan struct{}
	isDone bool
	isShut bool // the client is gone
	failed bool // connection reset
	h      http.Header
	sent   http.Header
	status int
	nhead  int
	body   bytes.Buffer
	cancel func()
}

func (c *conn) reset() {
	if !c.isDone {
		c.isDone, c.failed = true, true
		vs.CloseNow(c.done)
	}
}

func (c *conn) Header() http.Header { return c.h }
func (c *conn) WriteHeader(s int) {
	c.nhead++
	if c.nhead == 1 {
		c.status = s
		c.sent = c.h.Clone()
	}
}
func (c *conn) Write(b []byte) (int, error) {
	if c.nhead == 0 {
		c.WriteHeader(http.StatusOK)
	}
	if c.isShut || c.isDone {
		return 0, errors.New("write: broken pipe")
	}
	if c.status == http.StatusNoContent || c.status == http.StatusNotModified {
		return 0, http.ErrBodyNotAllowed
	}
	return c.body.Write(b)
}
func (c *conn) Flush() {}

// Refused is what a request to a port nobody listens on ends with.
var Refused = errors.New("connect: connection refused")

// Reset is what a request ends with that a server stopped working on.
var Reset = errors.New("read: connection reset by peer")

type transport struct{ cfg *tls.Config }

// Record makes the network keep the requests.
var Record bool

// Sent is a request that arrived: who sent it and who handles it.
type Sent struct {
	By, Handler  *vs.Thread
	Method, Path string
	Header       http.Header
}

// Requests returns the requests of this execution.
func Requests() []Sent { return nw().sent }

func (t transport) RoundTrip(req *http.Request) (*http.Response, error) {
	var data []byte
	if req.Body != nil {
		data, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	n := nw()
	vs.Point("connect " + req.URL.Host)
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	port := req.URL.Port()
	if port == "" {
		port = map[string]string{"http": "80", "https": "443"}[req.URL.Scheme]
	}
	n.o.Read(vs.HashString("connect"))
	l := n.ports[port]
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: Refused}
	}
	// a listener nobody serves keeps the connection in its backlog
	for l.srv == nil && !l.closed {
		vs.Until("backlog", &l.o, func() bool { return l.srv != nil || l.closed })
	}
	if l.closed {
		return nil, &net.OpError{Op: "read", Net: "tcp", Err: Reset}
	}
	if req.URL.Scheme == "https" {
		if !l.tls {
			return nil, errors.New("http: server gave HTTP response to HTTPS client")
		}
		if err := t.handshake(req.URL.Hostname(), l.config); err != nil {
			return nil, err
		}
	} else if l.tls {
		return &http.Response{StatusCode: 400, Status: "400 Bad Request", Proto: "HTTP/1.0", ProtoMajor: 1, Header: http.Header{},
			Body: io.NopCloser(strings.NewReader("Client sent an HTTP request to an HTTPS server.\n")), Request: req}, nil
	}
	s := l.srv
	s.o.Write(vs.HashString("accept"))
	c := &conn{s: s, h: http.Header{}, done: vs.Make(make(chan struct{}))}
	s.conns = append(s.conns, c)
	s.active++
	target := req.URL.RequestURI()
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return nil, err
	}
	var base vctx.Context = vctx.Background()
	if s.s.BaseContext != nil {
		base = s.s.BaseContext(l)
	}
	ctx, cancel := vctx.WithCancel(base)
	c.cancel = cancel
	in := (&http.Request{Method: req.Method, URL: u, RequestURI: target, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: req.URL.Host,
		Header: req.Header.Clone(), Body: io.NopCloser(bytes.NewReader(data)), ContentLength: int64(len(data)), RemoteAddr: "127.0.0.1:1"}).WithContext(ctx)
	if in.Header == nil {
		in.Header = http.Header{}
	}
	if len(data) == 0 {
		in.Body = http.NoBody
	}
	what := req.Method + " " + req.URL.Path
	h := s.s.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	var pr *vs.Proc
	if l.proc != nil {
		pr = &l.proc.Proc
	}
	t2 := vs.SpawnIn(pr, "handler of "+what, func() {
		h.ServeHTTP(c, in)
		vs.Point("answered " + what)
		s.o.Write(vs.HashString("answered"))
		if c.nhead == 0 {
			c.WriteHeader(http.StatusOK)
		}
		if c.nhead > 1 {
			vs.Fail("answers", "a request is answered twice: "+what, "")
		}
		if vs.Tracing() {
			vs.Note("HTTP %s %s -> %d %s", what, data, c.status, c.body.Bytes())
		}
		s.active--
		c.cancel()
		if !c.isDone {
			c.isDone = true
			vs.CloseNow(c.done)
		}
		s.signal()
	})
	vs.Daemon(t2)
	if Record {
		n.sent = append(n.sent, Sent{vs.Cur(), t2, req.Method, req.URL.Path, req.Header.Clone()})
	}
	if vs.Select(false, vs.NewRecv(c.done), vs.NewRecv(req.Context().Done())) == 1 {
		// the client goes away: the handler's context ends
		c.isShut = true
		c.cancel()
		return nil, req.Context().Err()
	}
	s.o.Read(vs.HashString("answer"))
	if c.failed {
		return nil, &net.OpError{Op: "read", Net: "tcp", Err: Reset}
	}
	return &http.Response{StatusCode: c.status, Status: fmt.Sprintf("%d %s", c.status, http.StatusText(c.status)), Proto: "HTTP/1.1", ProtoMajor: 1,
		ProtoMinor: 1, Header: c.sent, Body: io.NopCloser(bytes.NewReader(c.body.Bytes())), ContentLength: int64(c.body.Len()), Request: req}, nil
}

// handshake checks the server's certificate as a client does.
func (t transport) handshake(host string, cfg *tls.Config) error {
	if t.cfg != nil && t.cfg.InsecureSkipVerify {
		return nil
	}
	if len(cfg.Certificates) == 0 {
		return errors.New("remote error: tls: internal error")
	}
	leaf, err := x509.ParseCertificate(cfg.Certificates[0].Certificate[0])
	if err != nil {
		return err
	}
	o := x509.VerifyOptions{DNSName: host, Intermediates: x509.NewCertPool()}
	for _, b := range cfg.Certificates[0].Certificate[1:] {
		if c, err := x509.ParseCertificate(b); err == nil {
			o.Intermediates.AddCert(c)
		}
	}
	o.Roots = x509.NewCertPool() // nothing is trusted by the system
	if t.cfg != nil && t.cfg.RootCAs != nil {
		o.Roots = t.cfg.RootCAs
	}
	_, err = leaf.Verify(o)
	return err
}

// Do is (*http.Client).Do.
func Do(c *http.Client) func(*http.Request) (*http.Response, error) {
	return func(req *http.Request) (*http.Response, error) {
		switch t := c.Transport.(type) {
		case *http2.Transport:
			cc := *c
			cc.Transport = transport{t.TLSClientConfig}
			c = &cc
		case *http.Transport:
			cc := *c
			cc.Transport = transport{t.TLSClientConfig}
			c = &cc
		}
		return c.Do(req)
	}
}

// Ports lists the open ports.
func Ports() []string {
	var l []string
	for p := range nw().ports {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// Dropped is the number of accepted requests that a process ended without answering, their clients still there.
func Dropped(p *vproc.P) int { return nw().dropped[p] }

// Active is the number of requests the server at port works on.
func Active(port string) int {
	if l := nw().ports[port]; l != nil && l.srv != nil {
		return l.srv.active
	}
	return 0
}
