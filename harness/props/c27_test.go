package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// Clients in front of servers that misbehave.

// c27Fault is how the server treats the connections and requests of a round.
type c27Fault struct {
	// "" (it works); of connections: reset, hangup, junk; of requests: status,
	// abort, hijack, body (of another kind than a reply), cut, hang; of
	// streams: frames
	Kind   string              `json:"kind"`
	Status int                 `json:"status,omitempty"`
	Header map[string][]string `json:"header,omitempty"`
	Body   []byte              `json:"body,omitempty"` // or junk bytes
	Frames [][]byte            `json:"frames,omitempty"`
	How    string              `json:"how,omitempty"`
	Cut    int                 `json:"cut,omitempty"`
	Linger int                 `json:"linger,omitempty"` // ms
}

type c27Round struct {
	Fault    c27Fault `json:"fault"`
	Ops      []string `json:"ops"` // call unwrap send connect
	Parallel bool     `json:"parallel,omitempty"`
	Leave    string   `json:"leave,omitempty"` // how a streaming session of a working round ends: close, drop
}

type c27Case struct {
	Route  lbRoute    `json:"route"`
	Keep   bool       `json:"keep,omitempty"` // HTTP/1 connections are kept
	Msg    MsgSpec    `json:"msg"`
	Reply  MsgSpec    `json:"reply"`
	Rounds []c27Round `json:"rounds"`
	Dead   bool       `json:"dead,omitempty"` // begin with a client whose port nobody listens on
}

func (c c27Case) streaming() bool { return c.Route.streaming() }

// deadPort is a port that is taken and refuses connections.
func deadPort() (string, func(), error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return "", nil, err
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		syscall.Close(fd)
		return "", nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return "", nil, err
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }, nil
}

type c27Server struct {
	mu    sync.Mutex
	fault c27Fault
	ran   int // requests that got to a fault of requests
}

func (s *c27Server) now() c27Fault {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.fault
}

func (s *c27Server) conn(c net.Conn) bool {
	f := s.now()
	switch f.Kind {
	case "reset":
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	case "hangup":
		go func() {
			time.Sleep(time.Duration(f.Linger) * time.Millisecond)
			c.Close()
		}()
	case "junk":
		go func() {
			c.SetDeadline(time.Now().Add(10 * time.Second))
			if f.Linger > 0 {
				c.Read(make([]byte, 1))
			}
			c.Write(f.Body)
			time.Sleep(time.Duration(f.Linger) * time.Millisecond)
			c.Close()
		}()
	default:
		return false
	}
	return true
}

func (s *c27Server) serve(next http.Handler) http.Handler {
	up := websocket.Upgrader{}
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		f := s.now()
		if f.Kind == "" {
			next.ServeHTTP(w, r)
			return
		}
		s.mu.Lock()
		s.ran++
		s.mu.Unlock()
		if r.Method == "POST" {
			io.Copy(io.Discard, r.Body)
		}
		for k, vs := range f.Header {
			for _, v := range vs {
				w.Header().Add(k, v)
			}
		}
		switch f.Kind {
		case "status", "body":
			if f.How == "length" {
				w.Header().Set("Content-Length", fmt.Sprint(len(f.Body)))
			}
			w.WriteHeader(f.Status)
			if fl, ok := w.(http.Flusher); ok && f.How == "flush" {
				fl.Flush()
			}
			w.Write(f.Body)
		case "cut":
			if f.How == "length" {
				w.Header().Set("Content-Length", fmt.Sprint(len(f.Body)))
			}
			w.WriteHeader(f.Status)
			w.Write(f.Body[:f.Cut])
			if fl, ok := w.(http.Flusher); ok {
				fl.Flush()
			}
			panic(http.ErrAbortHandler)
		case "hang":
			select {
			case <-r.Context().Done():
			case <-time.After(10 * time.Second):
			}
		case "hijack":
			if h, ok := w.(http.Hijacker); ok {
				if c, _, err := h.Hijack(); err == nil {
					c.Write(f.Body)
					time.Sleep(time.Duration(f.Linger) * time.Millisecond)
					c.Close()
					return
				}
			}
			panic(http.ErrAbortHandler)
		case "frames":
			if websocket.IsWebSocketUpgrade(r) {
				ws, err := up.Upgrade(w, r, nil)
				if err != nil {
					return
				}
				defer ws.Close()
				for i, b := range f.Frames {
					switch {
					case f.How == "raw":
						ws.UnderlyingConn().Write(b)
					case f.How == "binary" || f.How == "mixed" && i%2 == 1:
						ws.WriteMessage(websocket.BinaryMessage, b)
					case f.How == "close":
						ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000+len(b)%12, "x"), time.Now().Add(time.Second))
					default:
						ws.WriteMessage(websocket.TextMessage, b)
					}
				}
				time.Sleep(time.Duration(f.Linger) * time.Millisecond)
				return
			}
			w.WriteHeader(200)
			fl := w.(http.Flusher)
			fl.Flush()
			for _, b := range f.Frames {
				w.Write(b)
				fl.Flush()
			}
			time.Sleep(time.Duration(f.Linger) * time.Millisecond)
			if f.How == "raw" || f.How == "close" {
				panic(http.ErrAbortHandler)
			}
		default:
			panic(http.ErrAbortHandler)
		}
	})
}

func c27Run(r *pbt.Rec, c c27Case) error {
	r.Label("%s", c.Route)
	st := &c27Server{}
	actor := jlibhttp.NewActor()
	var mu sync.Mutex
	calls := 0
	actor.OnRequest(c.Msg.Method, func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		mu.Lock()
		calls++
		mu.Unlock()
		if c.Reply.Kind == "error" && req.Msg().IsRequest() {
			e := &jlib.RPCError{Code: c.Reply.Code, Message: c.Reply.Msg}
			if len(c.Reply.Data) > 0 {
				e.Data = pbt.MustDec(c.Reply.Data)
			}
			return nil, e
		}
		return pbt.MustDec(c.Reply.Result), nil
	})
	srv := lbStart(c.Route.Server, actor, lbOptions{wrap: st.serve, hook: st.conn, once: !c.Keep && !c.streaming()})
	defer srv.close()
	if c.Dead {
		addr, done, err := deadPort()
		if err != nil {
			return pbt.Inconclusive(err)
		}
		defer done()
		kind := strings.TrimSuffix(c.Route.Client, "-sys")
		client, err := jlibhttp.NewClient(kind + "://" + addr + "/")
		if err != nil {
			return err
		}
		if srv.srv.TLS != nil {
			client.SetClientTLSConfig(srv.tls())
		}
		for _, op := range []string{"call", "send", "unwrap", "connect"} {
			x, err := c.do(r, client, op, context.Background())
			if err != nil {
				return err
			}
			if x.err == nil {
				return fmt.Errorf("%s with nobody listening succeeds", op)
			}
		}
		r.NonTrivial()
	}
	client, err := srv.client(c.Route.Client)
	if err != nil {
		return err
	}
	defer closeClient(client)
	connected := 0
	if sc, ok := client.(jlibhttp.Streamable); ok {
		if s, ok := client.(interface {
			OnConnected(jlibhttp.ConnectedHandler) error
		}); ok {
			s.OnConnected(func() { mu.Lock(); connected++; mu.Unlock() })
		}
		sc.OnMessage(func(jlib.Message) {})
	}
	for i, round := range c.Rounds {
		st.mu.Lock()
		st.fault = round.Fault
		st.mu.Unlock()
		if err := c.round(r, srv, client, round); err != nil {
			return fmt.Errorf("round %d (%s): %w", i, round.Fault.Kind, err)
		}
	}
	return nil
}

var errNothing = errors.New("nothing to do")

type c27Res struct {
	msg jlib.Message
	out any
	err error
}

// do runs one operation. The error is a breach in any case.
func (c c27Case) do(r *pbt.Rec, client jlibhttp.Client, op string, ctx context.Context) (c27Res, error) {
	req := c.Msg.build().(*jlib.RequestMessage)
	was := jlib.MessageString(req)
	clock := pbt.StartClock()
	res, err, ok := within(r.Slow(patience), func() (x c27Res, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%s panics: %v", op, p)
			}
		}()
		switch op {
		case "call":
			x.msg, x.err = client.Call(ctx, req)
		case "unwrap":
			x.err = client.UnwrapCall(ctx, req, &x.out)
		case "send":
			x.err = client.Send(ctx, jlib.NewNotifyMessage(c.Msg.Method, c.Msg.paramList()))
		default:
			x.err = errNothing
			if sc, ok := client.(jlibhttp.Streamable); ok {
				x.err = sc.Connect(ctx)
			}
		}
		return
	})
	if !ok {
		return res, clock.Late("%s does not return", op)
	}
	if err != nil {
		return res, err
	}
	if envProblem(res.err) && ctx.Err() == nil {
		return res, pbt.Inconclusive(res.err)
	}
	if now := jlib.MessageString(req); now != was {
		return res, fmt.Errorf("%s changes the caller's message from %s to %s", op, was, now)
	}
	if res.err == nil && op == "call" && res.msg == nil {
		return res, errors.New("a call returns neither a reply nor an error")
	}
	return res, nil
}

// good checks the outcome of an operation while the server works.
func (c c27Case) good(op string, x c27Res) error {
	switch op {
	case "call":
		if x.err != nil {
			return fmt.Errorf("call: %w", x.err)
		}
		want := c.Reply
		want.ID, want.Trace = c.Msg.ID, c.Msg.Trace
		if err := want.checkFull(x.msg); err != nil {
			return fmt.Errorf("call: %w", err)
		}
	case "unwrap":
		if c.Reply.Kind == "error" {
			var e *jlib.RPCError
			if !errors.As(x.err, &e) || e.Code != c.Reply.Code || e.Message != c.Reply.Msg {
				return fmt.Errorf("unwrapping error %d %q: %v", c.Reply.Code, c.Reply.Msg, x.err)
			}
			return nil
		}
		if x.err != nil {
			return fmt.Errorf("unwrap: %w", x.err)
		}
		if err := pbt.Diff(pbt.MustDec(c.Reply.Result), x.out); err != nil {
			return fmt.Errorf("unwrap: %w", err)
		}
	case "send":
		if x.err != nil {
			return fmt.Errorf("send: %w", x.err)
		}
	default:
		if x.err != nil && x.err != errNothing {
			return fmt.Errorf("connect: %w", x.err)
		}
	}
	return nil
}

// bad checks the outcome of an operation while the server misbehaves.
func (c c27Case) bad(f c27Fault, op string, x c27Res) error {
	if x.err == errNothing {
		return nil
	}
	h1 := !c.streaming()
	accepted := h1 && f.Status == 200 && (f.Kind == "body" || f.Kind == "cut") || h1 && bytes.HasPrefix(f.Body, []byte("HTTP/1.1 200"))
	if x.err == nil {
		if op == "send" && accepted {
			// the answer to a notification is not looked at
			return nil
		}
		return fmt.Errorf("%s succeeds: %s %v", op, pbt.Short(x.msg), pbt.Short(x.out))
	}
	if h1 && f.Kind == "status" {
		var w *jlibhttp.WrappedResponse
		if !errors.As(x.err, &w) {
			return fmt.Errorf("%s: the error does not carry the response: %v", op, x.err)
		}
		if w.Response.StatusCode != f.Status {
			return fmt.Errorf("%s: status %d is reported as %d", op, f.Status, w.Response.StatusCode)
		}
		for k, vs := range f.Header {
			if got := w.Response.Header.Values(k); fmt.Sprint(got) != fmt.Sprint(vs) {
				return fmt.Errorf("%s: header %s %q is reported as %q", op, k, vs, got)
			}
		}
		if op != "send" && !bytes.Equal(w.Body, f.Body) {
			return fmt.Errorf("%s: body %.100q is reported as %.100q", op, f.Body, w.Body)
		}
	}
	return nil
}

func (c c27Case) round(r *pbt.Rec, srv *lbServer, client jlibhttp.Client, round c27Round) error {
	f := round.Fault
	frames := c.streaming() && f.Kind == "frames"
	if f.Kind != "" {
		r.NonTrivial()
		if c.streaming() {
			// a connection kept by HTTP/2 is not asked for
			srv.drop()
		}
	}
	r.Label("%s %s", strings.TrimSuffix(c.Route.Client, "-sys"), f.Kind)
	ctx := context.Background()
	limit := time.Duration(f.Linger) * time.Millisecond
	if f.Kind == "reset" || f.Kind == "hangup" || f.Kind == "junk" {
		// HTTP/2 may dial half a dozen times, after longer and longer pauses
		limit = 4 * time.Second
	}
	if f.Kind == "hang" || limit > time.Second && strings.HasPrefix(c.Route.Client, "h2") {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, limit)
		defer cancel()
	}
	check := func(k int, op string) error {
		if frames {
			op = "connect"
			if k%2 == 1 {
				op = "send"
			}
		}
		for try := 0; ; try++ {
			x, err := c.do(r, client, op, ctx)
			if err != nil {
				return err
			}
			switch {
			case f.Kind == "":
				err = c.good(op, x)
				// HTTP/2 may have to learn first that a connection is gone
				if err != nil && x.err != nil && strings.HasPrefix(c.Route.Client, "h2") && try < 200 {
					r.Label("again")
					time.Sleep(5 * time.Millisecond)
					continue
				}
			case frames:
				// it is a connection until the server ends it
			default:
				err = c.bad(f, op, x)
			}
			return err
		}
	}
	errs := make([]error, len(round.Ops))
	var wg sync.WaitGroup
	for k, op := range round.Ops {
		if !round.Parallel {
			if err := check(k, op); err != nil {
				return err
			}
			continue
		}
		wg.Add(1)
		go func() { defer wg.Done(); errs[k] = check(k, op) }()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	sc, ok := client.(interface {
		Connected() bool
		Close()
	})
	if !ok {
		return nil
	}
	if f.Kind == "" {
		if round.Leave == "drop" {
			srv.drop()
		} else {
			sc.Close()
		}
	}
	clock := pbt.StartClock()
	if !eventually(r.Slow(patience), func() bool { return !sc.Connected() }) {
		return clock.Late("the client is still connected")
	}
	return nil
}

// c27Bad are bodies of responses that are no replies.
func c27Bad(t *rapid.T, msg, reply MsgSpec) []byte {
	switch pbt.Weighted(t, "badbody", 40, 30, 30) {
	case 0:
		return []byte(pbt.Pick(t, "text", "", " ", "null", "true", "0", "\"ok\"", "[]", "{}", "<html>no</html>", "{\"jsonrpc\":\"2.0\"}",
			"{\"result\":", "{\"id\":1,\"error\":\"no\"}", "{\"id\":{},\"result\":1}", "{\"id\":1,\"result\":1,\"error\":{\"code\":1,\"message\":\"\"}}", "\x00", "\xff", "[{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":1}]"))
	case 1:
		full := pbt.Raw(reply.object())
		return full[:pbt.Uniform(t, len(full), "cut")]
	default: // a message that is no reply
		m := msg
		m.Kind = pbt.Pick(t, "kind", "request", "notify")
		return pbt.Raw(m.object())
	}
}

func c27GenFault(t *rapid.T, c c27Case) c27Fault {
	f := c27Fault{}
	kinds := []string{"status", "status", "abort", "hijack", "hang"}
	if c.streaming() {
		kinds = append(kinds, "frames", "frames", "reset", "hangup", "junk")
	} else {
		kinds = append(kinds, "body", "body", "cut", "status")
		if !c.Keep {
			kinds = append(kinds, "reset", "hangup", "junk")
		}
	}
	f.Kind = pbt.Pick(t, "fault", kinds...)
	f.Linger = pbt.Pick(t, "linger", 0, 0, 1, 5)
	f.How = pbt.Pick(t, "how", "", "length", "flush")
	switch f.Kind {
	case "status":
		f.Status = pbt.Pick(t, "status", 201, 202, 203, 204, 206, 300, 302, 307, 400, 401, 403, 404, 405, 408, 413, 421, 429, 500, 501, 502, 503, 504, 599, 999)
		f.Header = map[string][]string{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "headers"); i < n; i++ {
			k := pbt.Pick(t, "hname", "X-A", "X-B-C", "Set-Cookie", "Content-Type", "Retry-After", "Www-Authenticate")
			m := 1
			if k != "Content-Type" {
				m = rapid.IntRange(1, 3).Draw(t, "hvalues")
			}
			f.Header[k] = nil
			for j := 0; j < m; j++ {
				f.Header[k] = append(f.Header[k], rapid.StringMatching(`[!-~]([ -~]{0,10}[!-~])?`).Draw(t, "hv"))
			}
		}
		switch pbt.Weighted(t, "body", 40, 30, 30) {
		case 0:
			f.Body = []byte(pbt.Str(t, "body"))
		case 1: // as if it were a reply
			f.Body = pbt.Raw(c.Reply.object())
		default:
			f.Body = bytes.Repeat([]byte{0, 'x', 0xff}, pbt.Size(t, 10, 40000, "bodylen"))
		}
		if f.Status == 204 {
			f.Body, f.How = nil, ""
		}
	case "body":
		f.Status = 200
		f.Body = c27Bad(t, c.Msg, c.Reply)
	case "cut":
		f.Status = pbt.Pick(t, "status", 200, 200, 200, 500, 404)
		f.Body = pbt.Raw(c.Reply.object())
		if pbt.Chance(t, 30, "space") { // all of the reply, but not of the body
			f.Body = append(f.Body, ' ')
			f.Cut = len(f.Body) - 1
		} else {
			f.Cut = pbt.Uniform(t, len(f.Body), "cut")
		}
		f.How = pbt.Pick(t, "how", "length", "")
	case "hang":
		f.Linger = pbt.Pick(t, "linger", 1, 10, 40)
	case "junk", "hijack":
		f.Body = []byte(pbt.Pick(t, "junk", "", "x", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n",
			"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAA\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n",
			"HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n{", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 500 no\r\n\r\nx", "\x00\x00\x00\x04\x00\x00\x00\x00\x00",
			"\x00\x00\x12\x04\x00\x00\x00\x00\x00\x00\x05\xff\xff\xff\xff", "\x00\x00\x08\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "SSH-2.0-x\r\n", "\x15\x03\x01\x00\x02\x02\x28",
			"HTTP/1.1 200 OK\r\nX: "+strings.Repeat("a", 70000)))
	case "frames":
		f.How = pbt.Pick(t, "how", "", "binary", "mixed", "raw", "close")
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "frames"); i < n; i++ {
			var b []byte
			switch pbt.Weighted(t, "frame", 35, 35, 20, 10) {
			case 0:
				b = []byte(pbt.Pick(t, "junk", c17Junk...))
			case 1:
				b = c27Bad(t, c.Msg, c.Reply)
			case 2:
				b = pbt.Raw(genMsgSpec(t, "notify", "result", "error", "request").object())
			default:
				b = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
			}
			f.Frames = append(f.Frames, b)
		}
	}
	return f
}

func c27Gen(t *rapid.T) c27Case {
	c := c27Case{Route: lbRoutes[pbt.Uniform(t, len(lbRoutes), "route")]}
	if pbt.Chance(t, 50, "h1") {
		for c.streaming() {
			c.Route = lbRoutes[pbt.Uniform(t, len(lbRoutes), "route")]
		}
	}
	c.Keep = pbt.Chance(t, 50, "keep")
	c.Dead = pbt.Chance(t, 10, "dead")
	c.Msg = genMsgSpec(t, "request")
	c.Msg.Trace = ""
	if pbt.Chance(t, 30, "trace") {
		c.Msg.Trace = genTrace(t)
	}
	if len(c.Msg.Params) == 0 {
		c.Msg.Params, c.Msg.List = json.RawMessage("[]"), true
	}
	c.Reply = genMsgSpec(t, pbt.Pick(t, "reply", "result", "result", "error"))
	c.Reply.Trace = ""
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "rounds"); i < n; i++ {
		round := c27Round{Parallel: pbt.Chance(t, 30, "parallel"), Leave: pbt.Pick(t, "leave", "close", "drop")}
		if pbt.Chance(t, 70, "bad") {
			round.Fault = c27GenFault(t, c)
		}
		for j, m := 0, rapid.IntRange(1, 4).Draw(t, "ops"); j < m; j++ {
			round.Ops = append(round.Ops, pbt.Pick(t, "op", "call", "call", "unwrap", "send", "connect"))
		}
		c.Rounds = append(c.Rounds, round)
	}
	// in the end it works
	c.Rounds = append(c.Rounds, c27Round{Ops: []string{pbt.Pick(t, "last", "call", "unwrap"), "call"}, Leave: "close"})
	return c
}

// c27Slow has HTTP/1 clients with time limits in front of a slow server.
type c27Slow struct {
	Lanes []c27SlowLane `json:"lanes"`
}

type c27SlowLane struct {
	Client string `json:"client"`
	Limit  int    `json:"limit,omitempty"` // seconds, 0 the default of 5
	Wait   int    `json:"wait"`            // ms the server takes, -1 forever
	Op     string `json:"op"`
	Body   bool   `json:"body,omitempty"` // it sends the headers at once and then waits
}

func (l c27SlowLane) limit() time.Duration {
	if l.Limit <= 0 {
		return 5 * time.Second
	}
	return time.Duration(l.Limit) * time.Second
}

func c27SlowGen(t *rapid.T) c27Slow {
	var c c27Slow
	for i, n := 0, 8+pbt.Uniform(t, 8, "lanes"); i < n; i++ {
		l := c27SlowLane{Client: pbt.Pick(t, "client", "http", "https"), Limit: pbt.Pick(t, "limit", 0, 1, 1, 2, 3, 8), Op: pbt.Pick(t, "op", "call", "call", "unwrap", "send"), Body: pbt.Chance(t, 40, "body")}
		switch pbt.Weighted(t, "wait", 50, 30, 20) {
		case 0:
			l.Wait = -1
			if l.Limit == 8 {
				l.Limit = 1
			}
		case 1: // in time
			l.Wait = int(l.limit().Milliseconds()) * (10 + pbt.Uniform(t, 55, "part")) / 100
		}
		c.Lanes = append(c.Lanes, l)
	}
	return c
}

func c27SlowRun(r *pbt.Rec, c c27Slow) error {
	st := &c27Server{}
	errs := make([]error, len(c.Lanes))
	var wg sync.WaitGroup
	for i, l := range c.Lanes {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = l.run(r, st) }()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("lane %d: %w", i, err)
		}
	}
	return nil
}

func (l c27SlowLane) run(r *pbt.Rec, st *c27Server) error {
	r.Label("%s limit %d in time %v", l.Client, l.Limit, l.Wait >= 0)
	r.NonTrivial()
	actor := jlibhttp.NewActor()
	actor.OnRequest("m", func(*jlibhttp.RPCRequest, []any) (any, error) { return "late", nil })
	quit := make(chan struct{})
	defer close(quit)
	kind := map[string]string{"http": "h1", "https": "h1s"}[l.Client]
	srv := lbStart(kind, actor, lbOptions{wrap: func(next http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			wait := time.Duration(l.Wait) * time.Millisecond
			if l.Wait < 0 {
				wait = time.Hour
			}
			body, _ := io.ReadAll(q.Body)
			if l.Body {
				w.Header().Set("Content-Type", "application/json")
				w.WriteHeader(200)
				w.(http.Flusher).Flush()
			}
			select {
			case <-time.After(wait):
			case <-quit:
				return
			}
			if l.Body {
				m, err := jlib.ParseBytes(body)
				if err == nil && m.IsRequest() {
					w.Write(pbt.Raw(MsgSpec{Kind: "result", ID: pbt.IntID(7), Result: json.RawMessage(`"late"`)}.object()))
				}
				return
			}
			q.Body = io.NopCloser(bytes.NewReader(body))
			next.ServeHTTP(w, q)
		})
	}})
	defer srv.close()
	client, err := jlibhttp.NewClient(srv.url(l.Client), jlibhttp.ClientOptions{Timeout: l.Limit})
	if err != nil {
		return err
	}
	if l.Client == "https" {
		client.SetClientTLSConfig(srv.tls())
	}
	c := c27Case{Route: lbRoute{kind, l.Client}, Msg: MsgSpec{Kind: "request", ID: pbt.IntID(7), Method: "m", List: true, Params: json.RawMessage("[]")}, Reply: MsgSpec{Kind: "result", Result: json.RawMessage(`"late"`)}}
	clock := pbt.StartClock()
	start := time.Now()
	x, err := c.do(r, client, l.Op, context.Background())
	took := time.Since(start)
	if err != nil {
		return err
	}
	if l.Wait >= 0 {
		if err := c.good(l.Op, x); err != nil {
			if took > l.limit()*9/10 {
				return clock.Late("%s after %v: %w", l.Op, took, err)
			}
			return fmt.Errorf("a server that takes %d of %v: %w", l.Wait, l.limit(), err)
		}
		return nil
	}
	if l.Op == "send" && l.Body {
		return nil // the answer is not waited for
	}
	if x.err == nil {
		return fmt.Errorf("%s succeeds without an answer: %s %v", l.Op, pbt.Short(x.msg), pbt.Short(x.out))
	}
	if took < l.limit()*9/10 {
		return fmt.Errorf("%s fails after %v instead of %v: %v", l.Op, took, l.limit(), x.err)
	}
	if took > l.limit()+3*time.Second {
		return clock.Late("%s fails only after %v, not %v", l.Op, took, l.limit())
	}
	return nil
}

func TestC27(t *testing.T) {
	pbt.Check(t, "C27",
		pbt.Part[c27Case]{Name: "faults", Quick: 3000, Gen: c27Gen, Run: c27Run, Limit: 2 * time.Minute},
		pbt.Part[c27Slow]{Name: "slow", Quick: 8, Gen: c27SlowGen, Run: c27SlowRun, Limit: 2 * time.Minute},
	)
}
