package props

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"

	"verif/pbt"
)

// lbServer is one server on the loopback interface.
type lbServer struct {
	kind    string // h1 h1s ws wss h2 h2c gw gws
	srv     *httptest.Server
	cancel  context.CancelFunc
	ctx     context.Context
	handler http.Handler
	track   *lbListener
}

// lbListener remembers the connections it accepted.
type lbListener struct {
	net.Listener
	mu    sync.Mutex
	conns []net.Conn
	hook  func(net.Conn) bool // takes a connection from the server
}

func (l *lbListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	for err == nil && l.hook != nil && l.hook(c) {
		c, err = l.Listener.Accept()
	}
	if err == nil {
		l.mu.Lock()
		l.conns = append(l.conns, c)
		l.mu.Unlock()
	}
	return c, err
}

// drop ends every connection accepted so far.
func (s *lbServer) drop() {
	s.track.mu.Lock()
	defer s.track.mu.Unlock()
	for _, c := range s.track.conns {
		c.Close()
	}
	s.track.conns = nil
}

// reset ends them all without saying goodbye.
func (s *lbServer) reset() {
	s.track.mu.Lock()
	for _, c := range s.track.conns {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	}
	s.track.mu.Unlock()
	s.drop()
}

// accepted counts the connections.
func (s *lbServer) accepted() int {
	s.track.mu.Lock()
	defer s.track.mu.Unlock()
	return len(s.track.conns)
}

// which clients can talk to which server
var lbClients = map[string][]string{
	"h1": {"http"}, "h1s": {"https", "https-sys"}, "ws": {"ws"}, "wss": {"wss", "wss-sys"},
	"h2": {"h2", "h2-sys"}, "h2c": {"h2c"},
	"gw": {"http", "ws", "h2c"}, "gws": {"https", "https-sys", "wss", "wss-sys", "h2", "h2-sys"},
}

type lbRoute struct {
	Server string `json:"server"`
	Client string `json:"client"`
}

func (r lbRoute) String() string { return r.Client + " to " + r.Server }

func (r lbRoute) streaming() bool { return !strings.HasPrefix(r.Client, "http") }

var lbRoutes = func() (out []lbRoute) {
	for _, s := range []string{"h1", "ws", "h2c", "gw", "h2", "wss", "h1s", "gws"} {
		for _, c := range lbClients[s] {
			out = append(out, lbRoute{s, c})
		}
	}
	return
}()

var lbStreaming = func() (out []lbRoute) {
	for _, r := range lbRoutes {
		if r.streaming() {
			out = append(out, r)
		}
	}
	return
}()

// lbOptions of a server.
type lbOptions struct {
	serial bool // SpawnGoroutine off
	wrap   func(http.Handler) http.Handler
	hook   func(net.Conn) bool
	once   bool // no connection serves a second request
}

func lbHandler(ctx context.Context, kind string, actor *jlibhttp.Actor, serial bool) http.Handler {
	switch kind {
	case "h1", "h1s":
		return jlibhttp.NewH1Handler(actor)
	case "ws", "wss":
		h := jlibhttp.NewWSHandler(ctx, actor)
		h.SpawnGoroutine = !serial
		return h
	case "h2":
		h := jlibhttp.NewH2Handler(ctx, actor)
		h.SpawnGoroutine = !serial
		return h
	case "h2c":
		h := jlibhttp.NewH2Handler(ctx, actor)
		h.SpawnGoroutine = !serial
		return h.H2CHandler()
	case "gw", "gws":
		return jlibhttp.NewGatewayHandler(ctx, actor, kind == "gw")
	}
	panic(kind)
}

func lbStart(kind string, actor *jlibhttp.Actor, o lbOptions) *lbServer {
	ctx, cancel := context.WithCancel(context.Background())
	s := &lbServer{kind: kind, ctx: ctx, cancel: cancel, handler: lbHandler(ctx, kind, actor, o.serial)}
	h := s.handler
	if o.wrap != nil {
		h = o.wrap(h)
	}
	s.srv = httptest.NewUnstartedServer(h)
	s.srv.Config.ErrorLog = quietLog
	s.track = &lbListener{Listener: s.srv.Listener, hook: o.hook}
	if o.once {
		s.srv.Config.SetKeepAlivesEnabled(false)
	}
	s.srv.Listener = s.track
	switch kind {
	case "h2", "gws":
		s.srv.EnableHTTP2 = true
		s.srv.StartTLS()
	case "h1s", "wss":
		s.srv.StartTLS()
	default:
		s.srv.Start()
	}
	return s
}

func (s *lbServer) close() {
	s.cancel()
	s.srv.CloseClientConnections()
	go s.srv.Close()
}

func (s *lbServer) addr() string { return s.srv.Listener.Addr().String() }

var sysOnce sync.Once

// systemRoots makes the certificate of the test servers one the process
// trusts, so that clients without TLS settings of their own can be used.
func systemRoots() {
	sysOnce.Do(func() {
		srv := httptest.NewUnstartedServer(nil)
		srv.StartTLS()
		cert := srv.Certificate()
		srv.Close()
		dir := pbtWork()
		path := filepath.Join(dir, fmt.Sprintf("roots-%d.pem", os.Getpid()))
		os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cert.Raw}), 0o644)
		os.Setenv("SSL_CERT_FILE", path)
		os.Setenv("SSL_CERT_DIR", dir)
		x509.SystemCertPool()
	})
}

func pbtWork() string {
	if d := os.Getenv("VERIF_WORK"); d != "" {
		return d
	}
	return os.TempDir()
}

func (s *lbServer) url(client string) string {
	return strings.TrimSuffix(client, "-sys") + "://" + s.addr() + "/"
}

func (s *lbServer) tls() *tls.Config {
	pool := x509.NewCertPool()
	pool.AddCert(s.srv.Certificate())
	return &tls.Config{RootCAs: pool}
}

// client makes a client of the library for the server.
func (s *lbServer) client(kind string) (jlibhttp.Client, error) {
	if strings.HasSuffix(kind, "-sys") {
		systemRoots()
	}
	c, err := jlibhttp.NewClient(s.url(kind))
	if err != nil {
		return nil, err
	}
	if s.srv.TLS != nil && !strings.HasSuffix(kind, "-sys") && s.srv.Certificate() != nil {
		c.SetClientTLSConfig(s.tls())
	}
	return c, nil
}

func closeClient(c jlibhttp.Client) {
	if x, ok := c.(interface{ Close() }); ok {
		x.Close()
	}
	if x, ok := c.(*jlibhttp.H2Client); ok {
		x.HTTPClient().CloseIdleConnections()
	}
}

// eventually polls until the condition holds.
func eventually(d time.Duration, f func() bool) bool {
	clock := pbt.StartClock()
	for w := 50 * time.Microsecond; ; w *= 2 {
		if f() {
			return true
		}
		if clock.Live() > d {
			return f()
		}
		if w > 10*time.Millisecond {
			w = 10 * time.Millisecond
		}
		time.Sleep(w)
	}
}

// within runs f and gives up waiting after d.
func within[T any](d time.Duration, f func() (T, error)) (v T, err error, ok bool) {
	type res struct {
		v   T
		err error
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- res{err: fmt.Errorf("panic: %v", p)}
			}
		}()
		v, err := f()
		ch <- res{v, err}
	}()
	x, ok := receive(ch, d)
	return x.v, x.err, ok
}

// receive waits for a value and gives up after d.
func receive[T any](ch <-chan T, d time.Duration) (v T, ok bool) {
	clock := pbt.StartClock()
	for {
		left := d - clock.Live()
		if left <= 0 {
			return v, false
		}
		timer := time.NewTimer(left)
		select {
		case v, ok := <-ch:
			timer.Stop()
			return v, ok
		case <-timer.C:
		}
	}
}

// envProblem tells errors of the environment from errors of the library.
func envProblem(err error) bool {
	var oe *net.OpError
	if errors.As(err, &oe) && oe.Op == "dial" && !strings.Contains(err.Error(), "refused") {
		return true
	}
	return err != nil && (strings.Contains(err.Error(), "too many open files") || strings.Contains(err.Error(), "cannot assign requested address"))
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

// patience is how long a loopback peer may take before it counts as silent.
const patience = 15 * time.Second

// lbCall calls with the patience of the attempt.
func lbCall(r *pbt.Rec, c jlibhttp.Client, req *jlib.RequestMessage) (jlib.Message, error) {
	clock := pbt.StartClock()
	m, err, ok := within(r.Slow(patience), func() (jlib.Message, error) { return c.Call(context.Background(), req) })
	if !ok {
		return nil, clock.Late("the call did not return")
	}
	if envProblem(err) {
		return nil, pbt.Inconclusive(err)
	}
	// the time limits of the clients are 5 and 10 seconds
	if time.Since(clock.Start()) > 4900*time.Millisecond && (err != nil || m.IsError()) {
		if err == nil {
			err = m.MustError()
		}
		return nil, clock.Late("the call took too long: %v", err)
	}
	return m, err
}

var quietLog = stdlog.New(io.Discard, "", 0)
