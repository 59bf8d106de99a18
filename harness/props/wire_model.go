package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"pgregory.net/rapid"

	"verif/pbt"
)

// A streaming client of the library on a real connection to a server that is
// not the library's: the server answers in any order and in any pieces, puts
// other traffic between the answers and ends the connection in any way.

type wAct struct {
	Kind  string `json:"kind"` // reply error push ask stray binary ping pong space dup
	N     int    `json:"n,omitempty"`
	Pad   int    `json:"pad,omitempty"`
	Split int    `json:"split,omitempty"` // pieces
	Delay int    `json:"delay,omitempty"` // ms
}

type wRound struct {
	Connect int      `json:"connect,omitempty"` // explicit, at the same time
	Refuse  int      `json:"refuse,omitempty"`  // the status in place of a connection, when one is attempted
	Calls   []pbt.ID `json:"calls"`
	Sends   int      `json:"sends,omitempty"`
	Acts    []wAct   `json:"acts"`
	// how the connection ends: "" it stays; by the server: eof code drop
	// reset garbage partial; by the client: close finish
	End  string `json:"end,omitempty"`
	Code int    `json:"code,omitempty"`
}

type wCase struct {
	Kind   string   `json:"kind"` // ws wss h2 h2c
	Frame  int      `json:"frame,omitempty"`
	Hello  int      `json:"hello,omitempty"` // pushes as soon as the connection is there
	OnConn string   `json:"onconn,omitempty"`
	Rounds []wRound `json:"rounds"`
}

// wConn is the server's end of a connection.
type wConn struct {
	n     int
	ws    *websocket.Conn
	w     http.ResponseWriter
	end   chan string
	wlock sync.Mutex
	over  bool          // the handler returns, nothing more can be written
	hello chan struct{} // closed when the first pushes have been written
}

var errOver = errors.New("the connection is over")

// raw writes bytes to an HTTP/2 connection.
func (c *wConn) raw(b []byte) error {
	c.wlock.Lock()
	defer c.wlock.Unlock()
	if c.over {
		return errOver
	}
	_, err := c.w.Write(b)
	c.w.(http.Flusher).Flush()
	return err
}

func (c *wConn) write(b []byte, pieces int) error {
	c.wlock.Lock()
	defer c.wlock.Unlock()
	if c.over {
		return errOver
	}
	if pieces < 1 {
		pieces = 1
	}
	size := len(b)/pieces + 1
	if c.ws != nil {
		w, err := c.ws.NextWriter(websocket.TextMessage)
		if err != nil {
			return err
		}
		for len(b) > 0 {
			k := min(size, len(b))
			if _, err := w.Write(b[:k]); err != nil {
				return err
			}
			b = b[k:]
		}
		return w.Close()
	}
	b = append(b[:len(b):len(b)], '\n')
	for len(b) > 0 {
		k := min(size, len(b))
		if _, err := c.w.Write(b[:k]); err != nil {
			return err
		}
		c.w.(http.Flusher).Flush()
		b = b[k:]
	}
	return nil
}

type wArrival struct {
	conn   int
	method string
	params []any
	id     json.RawMessage
}

type wServer struct {
	mu      sync.Mutex
	c       wCase
	conns   []*wConn
	refuse  int
	refused int
	got     []wArrival
	errs    []error
}

func (s *wServer) fail(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err != nil && len(s.errs) < 5 {
		s.errs = append(s.errs, err)
	}
}

func (s *wServer) firstErr() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.errs) > 0 {
		return s.errs[0]
	}
	return nil
}

func (s *wServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	if s.refuse > 0 {
		s.refused++
		s.mu.Unlock()
		w.WriteHeader(s.refuse)
		return
	}
	s.mu.Unlock()
	conn := &wConn{end: make(chan string, 10), w: w, hello: make(chan struct{})}
	defer func() {
		conn.wlock.Lock()
		conn.over = true
		conn.wlock.Unlock()
	}()
	var next func() (json.RawMessage, error)
	if strings.HasPrefix(s.c.Kind, "ws") {
		up := websocket.Upgrader{WriteBufferSize: s.c.Frame}
		ws, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer ws.Close()
		conn.ws = ws
		next = func() (json.RawMessage, error) {
			t, b, err := ws.ReadMessage()
			if err == nil && t != websocket.TextMessage {
				err = fmt.Errorf("a message came in a frame of type %d", t)
				s.fail(err)
			}
			return b, err
		}
	} else {
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		d := json.NewDecoder(r.Body)
		next = func() (m json.RawMessage, err error) { err = d.Decode(&m); return m, err }
	}
	s.mu.Lock()
	conn.n = len(s.conns)
	s.conns = append(s.conns, conn)
	s.mu.Unlock()
	for i := 0; i < s.c.Hello; i++ {
		conn.write(wPush(conn.n, "hello", i, 0), 0)
	}
	close(conn.hello)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			b, err := next()
			if err != nil {
				return
			}
			s.receive(conn, b)
		}
	}()
	select {
	case <-done:
	case how := <-conn.end:
		if how == "abort" {
			panic(http.ErrAbortHandler)
		}
	case <-r.Context().Done():
	}
}

func wPush(conn int, what string, n, pad int) []byte {
	return pbt.Raw(map[string]any{"jsonrpc": "2.0", "method": "push", "params": []any{conn, what, n, strings.Repeat("y", pad)}})
}

func (s *wServer) receive(conn *wConn, b []byte) {
	var m struct {
		ID     json.RawMessage `json:"id"`
		Method string          `json:"method"`
		Params []any           `json:"params"`
		V      string          `json:"jsonrpc"`
	}
	if err := json.Unmarshal(b, &m); err != nil || m.V != "2.0" {
		s.fail(fmt.Errorf("the client sent %.200q", b))
		return
	}
	s.mu.Lock()
	s.got = append(s.got, wArrival{conn.n, m.Method, m.Params, m.ID})
	s.mu.Unlock()
	if m.Method == "connected" && len(m.ID) > 0 {
		conn.write(pbt.Raw(map[string]any{"jsonrpc": "2.0", "id": m.ID, "result": "hi"}), 0)
	}
}

type wLost struct {
	name  string
	start time.Time
	clock pbt.Clock
	done  chan wOutcome
}

type wOutcome struct {
	m    jlib.Message
	err  error
	took time.Duration
}

func wRun(r *pbt.Rec, c wCase) error {
	srv := &wServer{c: c}
	lb := lbStart(c.Kind, jlibhttp.NewActor(), lbOptions{wrap: func(http.Handler) http.Handler {
		if c.Kind == "h2c" {
			return h2c.NewHandler(srv, &http2.Server{})
		}
		return srv
	}})
	defer lb.close()
	client, err := lb.client(c.Kind)
	if err != nil {
		return err
	}
	defer closeClient(client)
	sc, ok := client.(interface {
		jlibhttp.Streamable
		Connected() bool
		Close()
	})
	if !ok {
		return fmt.Errorf("%T is not streamable", client)
	}
	var mu sync.Mutex
	var pushed []string
	connected, closed := 0, 0
	helloErrs := []error{}
	helloDone := 0
	sc.OnMessage(func(m jlib.Message) {
		if m.IsResultOrError() {
			return
		}
		b, err := jlib.MessageBytes(m)
		if err != nil {
			b = []byte(err.Error())
		}
		mu.Lock()
		pushed = append(pushed, string(b))
		mu.Unlock()
	})
	sc.OnConnected(func() {
		mu.Lock()
		connected++
		n := connected
		mu.Unlock()
		var err error
		switch c.OnConn {
		case "send":
			err = client.Send(context.Background(), jlib.NewNotifyMessage("connected", []any{n}))
		case "call":
			var res jlib.Message
			res, err = lbCall(r, client, jlib.NewRequestMessage(fmt.Sprint("hello", n), "connected", []any{n}))
			if err == nil && (!res.IsResult() || fmt.Sprint(res.MustResult()) != "hi") {
				err = fmt.Errorf("the call in the connected handler is answered with %v", res)
			}
		}
		mu.Lock()
		helloDone++
		if err != nil {
			helloErrs = append(helloErrs, err)
		}
		mu.Unlock()
	})
	onClose := func() { mu.Lock(); closed++; mu.Unlock() }
	if err := sc.OnClose(onClose); err != nil {
		return err
	}
	pushes := func() []string {
		mu.Lock()
		defer mu.Unlock()
		return pushed[:len(pushed):len(pushed)]
	}

	type wireCall struct {
		id   json.RawMessage
		conn int
	}
	var lost []wLost
	var wantPushes []string
	conns, ends := 0, 0 // so far
	up := false
	var wait chan error
	waitStarted := func() {
		// the wait of this connection
		ch := make(chan error, 1)
		wait = ch
		started := make(chan struct{})
		go func() { close(started); ch <- sc.Wait() }()
		<-started
	}
	for ri, round := range c.Rounds {
		fresh := !up
		if fresh && round.Refuse > 0 {
			srv.mu.Lock()
			srv.refuse = round.Refuse
			before := len(srv.got)
			srv.mu.Unlock()
			var wg sync.WaitGroup
			errs := make([]error, len(round.Calls)+1)
			for i, id := range round.Calls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					clock := pbt.StartClock()
					res, err, ok := within(r.Slow(patience), func() (jlib.Message, error) {
						return client.Call(context.Background(), jlib.NewRequestMessage(id.Value(), "m", []any{ri, i}))
					})
					if !ok {
						errs[i] = clock.Late("round %d: call %d does not return though the server refuses the connection", ri, i)
					} else if err == nil {
						errs[i] = fmt.Errorf("round %d: call %d returns %v though the server refuses the connection", ri, i, res)
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, err, ok := within(r.Slow(patience), func() (int, error) {
					return 0, client.Send(context.Background(), jlib.NewNotifyMessage("m", []any{ri, -1}))
				})
				if ok && err == nil {
					errs[len(errs)-1] = fmt.Errorf("round %d: sending succeeds though the server refuses the connection", ri)
				}
			}()
			wg.Wait()
			if err := errors.Join(errs...); err != nil {
				return err
			}
			srv.mu.Lock()
			srv.refuse = 0
			after := len(srv.got)
			srv.mu.Unlock()
			if after != before {
				return fmt.Errorf("round %d: messages arrive though the server refuses the connection", ri)
			}
		}
		if fresh && round.Connect+len(round.Calls)+round.Sends == 0 {
			// nothing happens
			continue
		}
		if round.Connect > 0 {
			errs := make([]error, round.Connect)
			var wg sync.WaitGroup
			clock := pbt.StartClock()
			for i := 0; i < round.Connect; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					_, err, ok := within(r.Slow(patience), func() (int, error) { return 0, sc.Connect(context.Background()) })
					if !ok {
						err = clock.Late("round %d: connecting does not return", ri)
					} else if envProblem(err) {
						err = pbt.Inconclusive(err)
					} else if err != nil {
						err = fmt.Errorf("round %d: connecting fails: %w", ri, err)
					}
					errs[i] = err
				}()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			if !sc.Connected() {
				return fmt.Errorf("round %d: not connected after connecting", ri)
			}
			if fresh {
				waitStarted()
			}
		}
		if fresh {
			conns++
			up = true
			for i := 0; i < c.Hello; i++ {
				wantPushes = append(wantPushes, string(wPush(conns-1, "hello", i, 0)))
			}
		}
		answered := map[int]string{}
		for _, a := range round.Acts {
			if (a.Kind == "reply" || a.Kind == "error") && a.N < len(round.Calls) && answered[a.N] == "" {
				answered[a.N] = a.Kind
			}
		}
		pads := map[int]int{}
		outcomes := make([]chan wOutcome, len(round.Calls))
		clocks := make([]pbt.Clock, len(round.Calls))
		begin := time.Now()
		for i, id := range round.Calls {
			ch := make(chan wOutcome, 1)
			outcomes[i], clocks[i] = ch, pbt.StartClock()
			go func() {
				defer func() {
					if p := recover(); p != nil {
						ch <- wOutcome{err: fmt.Errorf("panic: %v", p), took: time.Since(begin)}
					}
				}()
				m, err := client.Call(context.Background(), jlib.NewRequestMessage(id.Value(), "m", []any{ri, i}))
				ch <- wOutcome{m, err, time.Since(begin)}
			}()
		}
		clock := pbt.StartClock()
		sendErrs := make(chan error, round.Sends)
		go func() {
			for i := 0; i < round.Sends; i++ {
				sendErrs <- client.Send(context.Background(), jlib.NewNotifyMessage("m", []any{ri, i}))
			}
		}()
		for i := 0; i < round.Sends; i++ {
			err, ok := receive(sendErrs, r.Slow(patience))
			if !ok {
				return clock.Late("round %d: sending does not return", ri)
			}
			if envProblem(err) {
				return pbt.Inconclusive(err)
			}
			if err != nil {
				return fmt.Errorf("round %d: sending fails: %w", ri, err)
			}
		}
		// until all of it has arrived
		want := len(round.Calls) + round.Sends
		calls := map[int]wireCall{}
		sends := 0
		sum := 0
		scan := func() error {
			srv.mu.Lock()
			defer srv.mu.Unlock()
			clear(calls)
			sends, sum = 0, 0
			wire := map[string]int{}
			for _, a := range srv.got {
				if a.method == "connected" {
					if fresh && a.conn == conns-1 {
						sum++
					}
					continue
				}
				if len(a.params) != 2 || fmt.Sprint(a.params[0]) != fmt.Sprint(ri) {
					continue
				}
				if a.conn != conns-1 {
					return fmt.Errorf("round %d: a message came on connection %d, the current one is %d", ri, a.conn, conns-1)
				}
				var n int
				fmt.Sscan(fmt.Sprint(a.params[1]), &n)
				sum++
				if len(a.id) == 0 {
					if n != sends {
						return fmt.Errorf("round %d: notification %d arrives in place of %d", ri, n, sends)
					}
					sends++
					continue
				}
				if _, dup := calls[n]; dup {
					return fmt.Errorf("round %d: call %d arrives twice", ri, n)
				}
				if k, dup := wire[string(a.id)]; dup {
					return fmt.Errorf("round %d: calls %d and %d have the same id %s on the wire", ri, k, n, a.id)
				}
				wire[string(a.id)] = n
				calls[n] = wireCall{a.id, a.conn}
			}
			return nil
		}
		if fresh && c.OnConn != "" {
			want++
		}
		var serr error
		if !eventually(r.Slow(patience), func() bool { serr = scan(); return serr != nil || sum >= want }) {
			for i := range outcomes {
				select {
				case o := <-outcomes[i]:
					if envProblem(o.err) {
						return pbt.Inconclusive(o.err)
					}
					if o.took < 9*time.Second {
						return fmt.Errorf("round %d: call %d ends with %v, %v though nothing was answered", ri, i, o.m, o.err)
					}
				default:
				}
			}
			return clock.Late("round %d: %d of %d messages arrive", ri, sum, want)
		}
		if serr != nil {
			return serr
		}
		if wait == nil {
			waitStarted()
		}
		nc := 0
		eventually(r.Slow(patience), func() bool {
			srv.mu.Lock()
			defer srv.mu.Unlock()
			nc = len(srv.conns)
			return nc >= conns
		})
		if nc < conns {
			return clock.Late("round %d: there have been %d connections, want %d", ri, nc, conns)
		}
		if nc != conns {
			return fmt.Errorf("round %d: there have been %d connections, want %d", ri, nc, conns)
		}
		conn := srv.conns[conns-1]
		<-conn.hello

		// the server acts
		npush := 0
		sent := map[int]bool{}
		for _, a := range round.Acts {
			if a.Delay > 0 {
				time.Sleep(time.Duration(a.Delay) * time.Millisecond)
			}
			var err error
			switch a.Kind {
			case "reply", "error", "dup":
				if a.N >= len(round.Calls) || sent[a.N] && a.Kind != "dup" || !sent[a.N] && a.Kind == "dup" {
					continue
				}
				o := map[string]any{"jsonrpc": "2.0", "id": calls[a.N].id}
				if a.Kind == "error" {
					o["error"] = map[string]any{"code": 7, "message": "no", "data": []any{ri, a.N, strings.Repeat("z", a.Pad)}}
				} else {
					o["result"] = []any{ri, a.N, strings.Repeat("z", a.Pad)}
				}
				if a.Kind != "dup" {
					sent[a.N], pads[a.N] = true, a.Pad
				}
				err = conn.write(pbt.Raw(o), a.Split)
			case "push":
				b := wPush(conns-1, fmt.Sprint(ri), npush, a.Pad)
				npush++
				wantPushes = append(wantPushes, string(b))
				err = conn.write(b, a.Split)
			case "ask":
				b := pbt.Raw(map[string]any{"jsonrpc": "2.0", "id": npush, "method": "ask", "params": []any{ri, npush}})
				npush++
				wantPushes = append(wantPushes, string(b))
				err = conn.write(b, a.Split)
			case "stray":
				err = conn.write(pbt.Raw(map[string]any{"jsonrpc": "2.0", "id": fmt.Sprint("stray", a.N), "result": a.N}), a.Split)
			case "binary":
				if conn.ws != nil {
					conn.wlock.Lock()
					err = conn.ws.WriteMessage(websocket.BinaryMessage, bytes.Repeat([]byte{byte(a.N)}, a.Pad))
					conn.wlock.Unlock()
				}
			case "ping", "pong":
				if conn.ws != nil {
					t := websocket.PingMessage
					if a.Kind == "pong" {
						t = websocket.PongMessage
					}
					err = conn.ws.WriteControl(t, []byte("x"), time.Now().Add(10*time.Second))
				}
			case "space":
				if conn.ws == nil {
					err = conn.raw([]byte(strings.Repeat(" \t\r\n", 1+a.N)))
				}
			}
			if err != nil {
				return fmt.Errorf("round %d: the server cannot write, the connection has ended: %w", ri, err)
			}
		}
		judge := func() error {
			for i, ch := range outcomes {
				kind := answered[i]
				if kind == "" {
					continue
				}
				o, ok := receive(ch, r.Slow(patience))
				name := fmt.Sprintf("round %d: call %d with id %v", ri, i, round.Calls[i].Value())
				if !ok {
					return clocks[i].Late("%s does not return", name)
				}
				if envProblem(o.err) {
					return pbt.Inconclusive(o.err)
				}
				if o.took > 9*time.Second && (o.err != nil || o.m.IsError() && o.m.MustError().Code == jlib.ErrTimeout.Code) {
					return clocks[i].Late("%s took too long: %v %v", name, o.m, o.err)
				}
				if o.err != nil {
					return fmt.Errorf("%s fails though it was answered: %w", name, o.err)
				}
				val := pbt.Raw([]any{ri, i, strings.Repeat("z", pads[i])})
				want := MsgSpec{Kind: "result", ID: round.Calls[i], Result: val}
				if kind == "error" {
					want = MsgSpec{Kind: "error", ID: round.Calls[i], Code: 7, Msg: "no", Data: val}
				}
				if err := want.checkFull(o.m); err != nil {
					return fmt.Errorf("%s got a wrong reply: %w", name, err)
				}
			}
			return nil
		}
		pushesArrived := func() error {
			clock := pbt.StartClock()
			if !eventually(r.Slow(patience), func() bool { return len(pushes()) >= len(wantPushes) }) {
				return clock.Late("round %d: %d of %d pushes arrive", ri, len(pushes()), len(wantPushes))
			}
			for i, p := range pushes() {
				if i >= len(wantPushes) {
					return fmt.Errorf("round %d: push %d was never sent: %.200s", ri, i, p)
				}
				if err := pbt.Diff(pbt.MustDec([]byte(wantPushes[i])), pbt.MustDec([]byte(p))); err != nil {
					return fmt.Errorf("round %d: push %d: %w", ri, i, err)
				}
			}
			return nil
		}
		gentle := round.End == "" || round.End == "eof" || round.End == "code"
		if !gentle {
			if err := judge(); err != nil {
				return err
			}
			if err := pushesArrived(); err != nil {
				return err
			}
		}
		// what runs in the connected handler
		if fresh && c.OnConn != "" {
			if !eventually(r.Slow(patience), func() bool { mu.Lock(); defer mu.Unlock(); return helloDone == conns }) {
				return clock.Late("round %d: the connected handler does not return", ri)
			}
		}
		switch round.End {
		case "":
		case "eof", "garbage", "partial":
			if round.End == "garbage" {
				conn.write([]byte([]string{"{", "]", `{"jsonrpc":"2.0"}`, "nonsense", "{}", "[]"}[round.Code%6]), 0)
			}
			if round.End == "partial" && conn.ws == nil {
				conn.raw([]byte(`{"jsonrpc":"2.0","id":1,"res`))
			}
			if conn.ws != nil && round.End != "partial" {
				conn.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(10*time.Second))
			} else {
				conn.end <- "return"
			}
		case "code":
			if conn.ws != nil {
				conn.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(round.Code, "bye"), time.Now().Add(10*time.Second))
			} else {
				conn.end <- "return"
			}
		case "drop":
			lb.drop()
		case "reset":
			lb.reset()
		case "abort":
			conn.end <- "abort"
		case "close":
			sc.Close()
		case "finish":
			f, ok := client.(interface{ Finish(context.Context) error })
			if !ok {
				sc.Close()
				break
			}
			_, err, ok := within(r.Slow(patience), func() (int, error) { return 0, f.Finish(context.Background()) })
			if !ok {
				return clock.Late("round %d: finishing does not return", ri)
			}
			if err != nil {
				return fmt.Errorf("round %d: finishing fails: %w", ri, err)
			}
		default:
			return fmt.Errorf("bad case: end %q", round.End)
		}
		if gentle {
			if err := judge(); err != nil {
				return err
			}
			if err := pushesArrived(); err != nil {
				return err
			}
		}
		if round.End == "" {
			continue
		}
		ends++
		up = false
		clock = pbt.StartClock()
		if _, ok := receive(wait, r.Slow(patience)); !ok {
			return clock.Late("round %d: after the end (%s) the wait does not return", ri, round.End)
		}
		wait = nil
		if !eventually(r.Slow(patience), func() bool { mu.Lock(); defer mu.Unlock(); return closed >= ends && !sc.Connected() }) {
			return clock.Late("round %d: after the end (%s) the close handler ran %d times in %d connections, connected is %v", ri, round.End, closed, ends, sc.Connected())
		}
		if err := sc.OnClose(onClose); err != nil {
			return fmt.Errorf("round %d: %w", ri, err)
		}
		for i, ch := range outcomes {
			if answered[i] == "" {
				lost = append(lost, wLost{fmt.Sprintf("round %d: call %d, which was not answered before the end (%s),", ri, i, round.End), begin, clocks[i], ch})
			}
		}
	}
	// the calls that were not answered
	for _, l := range lost {
		o, ok := receive(l.done, 12*time.Second+r.Slow(patience))
		if !ok {
			return l.clock.Late("%s does not return", l.name)
		}
		if o.err == nil {
			if !o.m.IsError() || o.m.MustError().Code != jlib.ErrTimeout.Code {
				return fmt.Errorf("%s returns %v", l.name, o.m)
			}
			if o.took < 9900*time.Millisecond {
				return fmt.Errorf("%s times out after %v", l.name, o.took)
			}
		}
		if o.took > 11*time.Second {
			return l.clock.Late("%s returns after %v", l.name, o.took)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if connected != conns {
		return fmt.Errorf("the connected handler ran %d times in %d connections", connected, conns)
	}
	if closed != ends {
		return fmt.Errorf("the close handler ran %d times in %d ended connections", closed, ends)
	}
	if len(helloErrs) > 0 {
		return fmt.Errorf("in the connected handler: %w", helloErrs[0])
	}
	return srv.firstErr()
}

func wGen(t *rapid.T, many, ends, loseOK bool) wCase {
	c := wCase{Kind: pbt.Pick(t, "kind", "ws", "ws", "h2c", "h2c", "wss", "h2"), OnConn: pbt.Pick(t, "onconn", "", "", "send", "call")}
	if strings.HasPrefix(c.Kind, "ws") && pbt.Chance(t, 40, "frame?") {
		c.Frame = 16 + pbt.Uniform(t, 100, "frame")
	}
	if pbt.Chance(t, 20, "hello?") {
		c.Hello = 1 + pbt.Uniform(t, 3, "hello")
	}
	kin := pbt.Pick(t, "ids", "mixed", "same", "few", "distinct")
	for ri, n := 0, rapid.IntRange(1, 4).Draw(t, "rounds"); ri < n; ri++ {
		rd := wRound{Sends: pbt.Weighted(t, "sends", 70, 20, 10)}
		if pbt.Chance(t, 30, "connect?") {
			rd.Connect = 1 + pbt.Uniform(t, 3, "connect")
		}
		if ends && pbt.Chance(t, 12, "refuse?") {
			rd.Refuse = pbt.Pick(t, "status", 401, 404, 500, 503, 302)
		}
		nc := rapid.IntRange(0, 4).Draw(t, "ncalls")
		if many && pbt.Chance(t, 40, "many") {
			nc = 5 + pbt.Size(t, 20, 200, "manycalls")
		}
		for i := 0; i < nc; i++ {
			switch kin {
			case "same":
				rd.Calls = append(rd.Calls, pbt.IntID(1))
			case "few":
				rd.Calls = append(rd.Calls, pbt.Pick(t, "id", pbt.IntID(1), pbt.IntID(0), pbt.StrID("1"), pbt.StrID(""), pbt.IntID(-1)))
			case "distinct":
				rd.Calls = append(rd.Calls, pbt.IntID(int64(1000*ri+i)))
			default:
				rd.Calls = append(rd.Calls, pbt.GenID(t, "id"))
			}
		}
		if ends && pbt.Chance(t, 75, "end?") {
			rd.End = pbt.Pick(t, "end", "eof", "code", "drop", "reset", "garbage", "partial", "abort", "close", "close", "finish")
			rd.Code = pbt.Pick(t, "code", 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1011, 3000, 4001)
		}
		order := rapid.Permutation(seq(nc)).Draw(t, "order")
		split := func() (pad, pieces int) {
			if pbt.Chance(t, 10, "pad?") {
				pad = pbt.Size(t, 100, 70000, "pad")
			}
			if pbt.Chance(t, 20, "split?") {
				pieces = 2 + pbt.Uniform(t, 12, "pieces")
			}
			return
		}
		noise := func() {
			for pbt.Chance(t, 25, "noise?") && len(rd.Acts) < 600 {
				a := wAct{Kind: pbt.Pick(t, "noise", "push", "push", "ask", "stray", "binary", "ping", "pong", "space"), N: pbt.Uniform(t, 50, "n")}
				a.Pad, a.Split = split()
				if pbt.Chance(t, 10, "wait?") {
					a.Delay = pbt.Uniform(t, 20, "ms")
				}
				rd.Acts = append(rd.Acts, a)
			}
		}
		for _, k := range order {
			noise()
			if loseOK && rd.End != "" && rd.End != "finish" && pbt.Chance(t, 40, "lose") {
				continue
			}
			a := wAct{Kind: pbt.Pick(t, "reply", "reply", "reply", "error"), N: k}
			a.Pad, a.Split = split()
			if pbt.Chance(t, 5, "wait?") {
				a.Delay = pbt.Uniform(t, 50, "ms")
			}
			rd.Acts = append(rd.Acts, a)
			if kin == "distinct" && pbt.Chance(t, 8, "dup") {
				rd.Acts = append(rd.Acts, wAct{Kind: "dup", N: k})
			}
		}
		noise()
		c.Rounds = append(c.Rounds, rd)
	}
	return c
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func wCheck(r *pbt.Rec, c wCase) error {
	ends := 0
	for _, rd := range c.Rounds {
		if len(rd.Calls) > 1 {
			r.NonTrivial()
		}
		if rd.End != "" {
			ends++
			r.Label("%s ends with %s", c.Kind, rd.End)
		}
	}
	if ends > 0 {
		r.NonTrivial()
	}
	return wRun(r, c)
}

// wLanes runs several cases at the same time, because calls that are never
// answered take their time.
type wLanes struct {
	Lanes []wCase `json:"lanes"`
}

func wLanesRun(r *pbt.Rec, c wLanes) error {
	errs := make([]error, len(c.Lanes))
	var wg sync.WaitGroup
	for i := range c.Lanes {
		for _, rd := range c.Lanes[i].Rounds {
			if rd.End != "" && len(rd.Calls) > 0 {
				r.NonTrivial()
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			errs[i] = wRun(r, c.Lanes[i])
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("lane %d: %w", i, err)
		}
	}
	return nil
}
