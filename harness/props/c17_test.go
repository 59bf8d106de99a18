package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c17Op struct {
	Do     string          `json:"do"`               // call notify bytes message ping post
	Method string          `json:"method,omitempty"` // echo out typed schema slow hold push
	K      int             `json:"k,omitempty"`
	Params json.RawMessage `json:"params,omitempty"`
	Bytes  []byte          `json:"bytes,omitempty"`
	Repeat int             `json:"repeat,omitempty"` // the bytes are repeated
	Binary bool            `json:"binary,omitempty"`
	N      int             `json:"n,omitempty"` // slow: ms; push: messages
	Pieces int             `json:"pieces,omitempty"`
}

type c17Client struct {
	Kind  string  `json:"kind"` // a streaming client, tcp, http or https
	Stall bool    `json:"stall,omitempty"`
	Ops   []c17Op `json:"ops"`
	End   string  `json:"end,omitempty"`
}

type c17Typed struct {
	Args []TD `json:"args"`
	Ret  TD   `json:"ret"`
}

type c17Case struct {
	Server  string            `json:"server"`
	Serial  bool              `json:"serial,omitempty"`
	Witness string            `json:"witness"`
	Outs    []h1Out           `json:"outs"`
	Typed   []c17Typed        `json:"typed"`
	Schema  json.RawMessage   `json:"schema"`
	Clients []c17Client       `json:"clients"`
	Echo    []json.RawMessage `json:"echo"`
	Missing string            `json:"missing,omitempty"` // what the missing handler does
	Leaks   bool              `json:"leaks,omitempty"`   // look for what stays behind
}

func (o c17Op) text() []byte {
	if o.Repeat > 1 {
		return bytes.Repeat(o.Bytes, o.Repeat)
	}
	return o.Bytes
}

// control tells whether it is a frame of the websocket protocol.
func (o c17Op) control() bool { return o.Do == "ping" || o.Do == "pong" }

// strict tells whether the client's connection has to survive its messages.
func (c c17Client) strict() bool {
	for _, op := range c.Ops {
		if op.Do != "call" && !op.control() {
			return false
		}
	}
	return true
}

func (c c17Client) pings() bool {
	for _, op := range c.Ops {
		if op.Do == "ping" {
			return true
		}
	}
	return false
}

// junk tells whether it sends what is no complete message.
func (c c17Client) junk() bool {
	for _, op := range c.Ops {
		if op.Do == "message" || op.Do == "bytes" {
			return true
		}
	}
	return false
}

// leftovers returns the server goroutines that still run, but for those of the
// given names.
func leftovers() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "superisaac/jlib/http.") {
			continue
		}
		// a client's call keeps its timer for ten seconds
		if strings.Contains(g, ").expire(") || strings.Contains(g, "StreamingClient") {
			continue
		}
		return g
	}
	return ""
}

func c17Actor(c c17Case, hold chan struct{}) (*jlibhttp.Actor, func() []jlibhttp.RPCSession, error) {
	actor := jlibhttp.NewActor()
	var mu sync.Mutex
	var sessions []jlibhttp.RPCSession
	meet := func(req *jlibhttp.RPCRequest) {
		if req.Session() != nil {
			mu.Lock()
			sessions = append(sessions, req.Session())
			mu.Unlock()
		}
	}
	all := func() []jlibhttp.RPCSession {
		mu.Lock()
		defer mu.Unlock()
		return append([]jlibhttp.RPCSession{}, sessions...)
	}
	actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, params []any) (any, error) { return params, nil })
	actor.OnRequest("slow", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		meet(req)
		var n int
		fmt.Sscan(fmt.Sprint(params...), &n)
		time.Sleep(time.Duration(n) * time.Millisecond)
		return n, nil
	})
	actor.OnRequest("hold", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		meet(req)
		<-hold
		return strings.Repeat("h", 1000), nil
	})
	actor.OnRequest("push", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		meet(req)
		if req.Session() == nil {
			return 0, nil
		}
		var n int
		fmt.Sscan(fmt.Sprint(params...), &n)
		for i := 0; i < n; i++ {
			var v any = strings.Repeat("p", 1000)
			if i%7 == 3 {
				v = unencodable(badKinds[i%len(badKinds)])
			}
			req.Session().Send(jlib.NewNotifyMessage("pushed", []any{i, v}))
		}
		return n, nil
	})
	actor.OnRequest("spread", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		n := 0
		for _, s := range all() {
			for i := 0; i < 3; i++ {
				s.Send(jlib.NewNotifyMessage("spread", nil))
				n++
			}
		}
		return n, nil
	})
	missing := func(req *jlibhttp.RPCRequest) (any, error) {
		switch c.Missing {
		case "must": // as if every message had a method and params
			return []any{req.Msg().MustMethod(), req.Msg().MustParams()}, nil
		case "id":
			return req.Msg().MustId(), nil
		case "panic":
			panic(fmt.Errorf("no %T", req.Msg()))
		}
		return c.Outs[0].run()
	}
	if c.Missing != "" {
		actor.OnMissing(missing)
	}
	for i, o := range c.Outs {
		actor.OnRequest(fmt.Sprintf("out%d", i), func(*jlibhttp.RPCRequest, []any) (any, error) { return o.run() })
	}
	for i, d := range c.Typed {
		var in []reflect.Type
		for _, a := range d.Args {
			in = append(in, a.typ())
		}
		fn := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{d.Ret.typ(), errType}, false), func([]reflect.Value) []reflect.Value {
			return []reflect.Value{reflect.New(d.Ret.typ()).Elem(), reflect.Zero(errType)}
		}).Interface()
		actor.OnTyped(fmt.Sprintf("typed%d", i), fn)
	}
	if err := func() (err error) {
		if p := panics(func() {
			err = actor.OnRequest("schema0", func(*jlibhttp.RPCRequest, []any) (any, error) { return "fine", nil }, jlibhttp.WithSchemaJson(string(c.Schema)))
		}); p != nil {
			err = fmt.Errorf("%v", p)
		}
		return
	}(); err != nil {
		return nil, nil, fmt.Errorf("schema %s: %w", c.Schema, err)
	}
	return actor, all, nil
}

func (c c17Case) message(op c17Op, id any) []byte {
	m := map[string]any{"jsonrpc": "2.0"}
	switch op.Method {
	case "echo", "slow", "hold", "push":
		m["method"] = op.Method
	default:
		m["method"] = fmt.Sprintf("%s%d", op.Method, op.K)
	}
	switch op.Method {
	case "slow", "push":
		m["params"] = []any{op.N}
	default:
		m["params"] = op.Params
		if len(op.Params) == 0 {
			m["params"] = []any{}
		}
	}
	if id != nil {
		m["id"] = id
	}
	return pbt.Raw(m)
}

func (c c17Case) hostile(r *pbt.Rec, srv *lbServer, i int, cl c17Client) error {
	switch cl.Kind {
	case "tcp":
		conn, err := net.DialTimeout("tcp", srv.addr(), 10*time.Second)
		if err != nil {
			return pbt.Inconclusive(err)
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(5 * time.Second))
		for _, op := range cl.Ops {
			if _, err := conn.Write(op.text()); err != nil {
				return nil
			}
		}
		if cl.End == "clean" {
			conn.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, conn)
		}
		return nil
	case "http", "https":
		tr := &http.Transport{TLSClientConfig: nil}
		if cl.Kind == "https" {
			tr.TLSClientConfig = srv.tls()
		}
		defer tr.CloseIdleConnections()
		client := &http.Client{Transport: tr}
		for j, op := range cl.Ops {
			body := op.text()
			if op.Do == "call" {
				body = c.message(op, fmt.Sprintf("h%d", j))
			} else if op.Do == "notify" {
				body = c.message(op, nil)
			}
			ctx, cancel := context.WithCancel(context.Background())
			if op.Method == "hold" || op.N > 0 && cl.End == "cancel" {
				time.AfterFunc(5*time.Millisecond, cancel)
			}
			req, err := http.NewRequestWithContext(ctx, "POST", cl.Kind+"://"+srv.addr()+"/", bytes.NewReader(body))
			if err != nil {
				panic(err)
			}
			res, err, ok := within(r.Slow(patience), func() (*http.Response, error) {
				res, err := client.Do(req)
				if err == nil {
					_, err = io.Copy(io.Discard, res.Body)
					res.Body.Close()
				}
				return res, err
			})
			cut := ctx.Err() != nil
			cancel()
			if !ok {
				return fmt.Errorf("client %d: request %d hangs: %.200s", i, j, body)
			}
			if err != nil && !cut {
				if envProblem(err) {
					return pbt.Inconclusive(err)
				}
				return fmt.Errorf("client %d: request %d is not answered: %w", i, j, err)
			}
			_ = res
		}
		return nil
	}
	delay := time.Duration(0)
	if cl.Stall {
		delay = time.Hour
		if cl.End == "" || cl.End == "clean" {
			delay = 30 * time.Millisecond
		}
	}
	raw, err := rawDial(srv, cl.Kind, nil, delay)
	if envProblem(err) {
		return pbt.Inconclusive(err)
	}
	if err != nil {
		return fmt.Errorf("client %d cannot connect: %w", i, err)
	}
	defer raw.done()
	sent := true
	var calls []string
	for j, op := range cl.Ops {
		id := fmt.Sprintf("h%d", j)
		var err error
		switch op.Do {
		case "call":
			err = raw.send(c.message(op, id))
			calls = append(calls, id)
		case "notify":
			err = raw.send(c.message(op, nil))
		case "message":
			err = raw.send(op.text())
		case "ping":
			if raw.ws != nil {
				err = raw.control(websocket.PingMessage)
			}
		case "pong":
			if raw.ws != nil {
				err = raw.control(websocket.PongMessage)
			}
		default:
			b := op.text()
			if op.Pieces > 1 && len(b) >= op.Pieces && raw.ws == nil {
				n := len(b) / op.Pieces
				for len(b) > n && err == nil {
					err = raw.bytes(b[:n], false)
					b = b[n:]
				}
			}
			if err == nil {
				err = raw.bytes(b, op.Binary)
			}
		}
		if err != nil {
			sent = false
			if cl.strict() {
				return fmt.Errorf("client %d: the server hung up before message %d: %w", i, j, err)
			}
			break
		}
	}
	if cl.End != "" {
		raw.close(cl.End)
		return nil
	}
	if !sent || raw.ws == nil && cl.junk() {
		return nil // the stream may wait for the rest of a value
	}
	probe := raw.send(c.message(c17Op{Method: "echo", Params: json.RawMessage(`["probe"]`)}, "probe"))
	clock := pbt.StartClock()
	var missing []string
	ended := false
	ok := eventually(r.Slow(patience), func() bool {
		var got [][]byte
		got, ended = raw.received()
		if ended {
			return true
		}
		have := map[string]bool{}
		for _, b := range got {
			have[rawID(b)] = true
		}
		missing = missing[:0]
		for _, id := range append([]string{"probe"}, calls...) {
			if !have[id] {
				missing = append(missing, id)
			}
		}
		return len(missing) == 0 || !cl.strict() && have["probe"]
	})
	if !ok {
		if probe == nil {
			return clock.Late("client %d: the connection is open and the calls %v are not answered", i, missing)
		}
		return nil
	}
	if ended && cl.strict() {
		return fmt.Errorf("client %d: the server ended a connection with valid calls: %v", i, raw.err)
	}
	if cl.strict() {
		if raw.ws != nil && !cl.Stall && cl.pings() {
			clock := pbt.StartClock()
			if !eventually(r.Slow(patience), func() bool {
				if raw.ponged() {
					return true
				}
				_ = raw.control(websocket.PingMessage) // one may get lost when the server is writing
				return false
			}) {
				return clock.Late("client %d: the pings are not answered", i)
			}
		}
		got, _ := raw.received()
		n := map[string]int{}
		for _, b := range got {
			id := rawID(b)
			n[id]++
			if id == "" || rawHas(b, "method") {
				continue
			}
			var j int
			if _, err := fmt.Sscanf(id, "h%d", &j); err != nil {
				continue
			}
			op := cl.Ops[j]
			switch {
			case op.Method == "out":
				spec := MsgSpec{Kind: "request", ID: pbt.StrID(id), Method: fmt.Sprintf("out%d", op.K), List: true, Params: json.RawMessage("[]")}
				o := c.Outs[op.K]
				if o.Bad != "" {
					if err := wantCode(b, -32603); err != nil {
						return fmt.Errorf("client %d: call of an unencodable result: %w", i, err)
					}
				} else if o.Do != "message" {
					if err := o.outcomeSpec.reply(spec).checkBytes(b); err != nil {
						return fmt.Errorf("client %d: call %d: %w", i, j, err)
					}
				}
			case op.Method == "echo":
				if err := (MsgSpec{Kind: "result", ID: pbt.StrID(id), Result: c.echoed(op.Params)}).checkBytes(b); err != nil {
					return fmt.Errorf("client %d: call %d: %w", i, j, err)
				}
			}
		}
		for id, k := range n {
			if k > 1 && id != "" {
				return fmt.Errorf("client %d: %d replies with the id %q", i, k, id)
			}
		}
	}
	return nil
}

func (c c17Case) echoed(params json.RawMessage) json.RawMessage {
	if len(params) == 0 {
		return json.RawMessage("[]")
	}
	if l, ok := pbt.MustDec(params).([]any); ok {
		return pbt.Raw(l)
	}
	return pbt.Raw([]any{params})
}

func wantCode(b []byte, code int) error {
	var m struct {
		Error *struct{ Code int }
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	if m.Error == nil || m.Error.Code != code {
		return fmt.Errorf("want error %d, got %.300s", code, b)
	}
	return nil
}

func c17Run(r *pbt.Rec, c c17Case) error {
	hold := make(chan struct{})
	released := false
	release := func() {
		if !released {
			released = true
			close(hold)
		}
	}
	defer release()
	actor, sessions, err := c17Actor(c, hold)
	if err != nil {
		return err
	}
	srv := lbStart(c.Server, actor, lbOptions{serial: c.Serial})
	defer srv.close()
	witness, err := srv.client(c.Witness)
	if err != nil {
		return err
	}
	defer closeClient(witness)
	n := 0
	look := func(w jlibhttp.Client, when string) error {
		p := c.Echo[n%len(c.Echo)]
		n++
		params, _ := pbt.MustDec(p).([]any)
		res, err := lbCall(r, w, jlib.NewRequestMessage(fmt.Sprintf("w%d", n), "echo", params))
		if err != nil {
			return fmt.Errorf("the witness gets no answer %s: %w", when, err)
		}
		if err := (MsgSpec{Kind: "result", ID: pbt.StrID(fmt.Sprintf("w%d", n)), Result: pbt.Raw(params)}).checkFull(res); err != nil {
			return fmt.Errorf("the witness gets a wrong answer %s: %w", when, err)
		}
		return nil
	}
	if err := look(witness, "before"); err != nil {
		return err
	}
	errs := make([]error, len(c.Clients))
	var wg sync.WaitGroup
	done := make(chan struct{})
	for i, cl := range c.Clients {
		r.Label("%s %s", cl.Kind, cl.End)
		if len(cl.Ops) > 0 {
			r.NonTrivial()
		}
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = c.hostile(r, srv, i, cl) }()
	}
	go func() { wg.Wait(); close(done) }()
	for during := true; during; {
		select {
		case <-done:
			during = false
		default:
			if err := look(witness, "meanwhile"); err != nil {
				<-done
				return err
			}
			runtime.Gosched()
		}
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if err := look(witness, "after the others"); err != nil {
		return err
	}
	release()
	// sending to sessions that have ended
	if len(sessions()) > 0 {
		res, err := lbCall(r, witness, jlib.NewRequestMessage("spread", "spread", nil))
		if err != nil {
			return fmt.Errorf("a call that sends to all sessions gets no answer: %w", err)
		}
		if !res.IsResult() {
			return fmt.Errorf("a call that sends to all sessions gets %v", res.MustError())
		}
	}
	if err := look(witness, "at last"); err != nil {
		return err
	}
	for _, kind := range lbClients[c.Server] {
		if strings.HasSuffix(kind, "-sys") {
			continue
		}
		w, err := srv.client(kind)
		if err != nil {
			return err
		}
		err = look(w, "as a new "+kind+" client")
		closeClient(w)
		if err != nil {
			return err
		}
	}
	if c.Leaks {
		r.Label("leaks")
		closeClient(witness)
		clock := pbt.StartClock()
		var g string
		if !eventually(r.Slow(patience), func() bool {
			time.Sleep(10 * time.Millisecond)
			g = leftovers()
			return g == ""
		}) {
			return clock.Late("all clients are gone and the server still runs\n%s", g)
		}
	}
	return nil
}

var c17Junk = []string{
	"", " ", "\n", "null", "true", "0", "{", "}", "[", "]", "\"", "{}", "[]", "[{}]", "\x00", "\xff\xfe", "{\"jsonrpc\":\"2.0\"}",
	`{"jsonrpc":"2.0","id":1}`, `{"id":null,"method":"echo","params":[]}`, `{"jsonrpc":"2.0","id":{},"method":"echo","params":[]}`,
	`{"jsonrpc":"2.0","id":1.5,"method":"echo"}`, `{"jsonrpc":"2.0","id":1,"method":5}`, `{"jsonrpc":"2.0","id":1,"method":"","params":[]}`,
	`{"jsonrpc":"2.0","id":1,"result":1}`, `{"jsonrpc":"2.0","id":1,"error":{}}`, `{"jsonrpc":"2.0","id":1,"error":null}`, `{"jsonrpc":"2.0","id":"x","error":{"code":"a","message":1}}`,
	`{"jsonrpc":"2.0","id":1,"method":"echo","params":null}`, `{"jsonrpc":"2.0","id":1,"method":"echo","params":"x"}`, `{"jsonrpc":"2.0","method":"nobody"}`,
	`{"jsonrpc":"2.0","id":99999999999999999999,"method":"echo","params":[1e999]}`, `{"jsonrpc":"2.0","id":"\ud800","method":"echo","params":["\ud800"]}`,
	`[{"jsonrpc":"2.0","id":1,"method":"echo","params":[]},{"jsonrpc":"2.0","id":2,"method":"echo","params":[]}]`,
	`{"jsonrpc":"2.0","id":1,"method":"typed0","params":[null,null,null,null]}`, `{"jsonrpc":"2.0","id":1,"method":"typed1","params":{"a":null}}`,
	`{"jsonrpc":"2.0","id":1,"traceid":5,"method":"echo","params":[]}`,
}

var c17HTTP = []string{
	"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"jsonrpc\"", "POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
	"POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"a\":\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00",
	"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\xff\xff\x01\x05\x00\x00\x00\x01", "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n",
	"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff",
	"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n\x01\x01a\x82\x01b",
	"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA\r\n\r\n",
	"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: !!\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "\x00\x00\x00",
	"PUT / HTTP/1.0\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 10\r\n\r\n",
}

func c17GenOp(t *rapid.T, c c17Case, kind string, held bool) c17Op {
	if kind == "tcp" {
		op := c17Op{Do: "bytes", Bytes: []byte(pbt.Pick(t, "http", c17HTTP...))}
		if pbt.Chance(t, 20, "junk") {
			op.Bytes = []byte(pbt.Pick(t, "junk", c17Junk...))
		}
		return op
	}
	streaming := !strings.HasPrefix(kind, "http")
	op := c17Op{}
	switch pbt.Weighted(t, "do", 60, 10, 15, 15, 6) {
	case 0:
		op.Do = "call"
	case 1:
		op.Do = "notify"
	case 2:
		op.Do, op.Bytes = "message", []byte(pbt.Pick(t, "junk", c17Junk...))
		if pbt.Chance(t, 40, "cut") {
			op.Bytes = c.message(c17Op{Method: "echo", Params: pbt.Raw(pbt.List(t, 2, "p"))}, "cut")
			op.Bytes = op.Bytes[:pbt.Uniform(t, len(op.Bytes), "at")]
		}
		return op
	case 3:
		op.Do, op.Bytes, op.Binary = "bytes", []byte(pbt.Pick(t, "junk", c17Junk...)), pbt.Chance(t, 30, "binary")
		if pbt.Chance(t, 25, "raw") {
			op.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
		}
		if pbt.Chance(t, 15, "bomb") {
			op.Repeat = pbt.Size(t, 100, 300000, "repeat")
			op.Binary = op.Binary || pbt.Chance(t, 50, "bombbinary")
		}
		op.Pieces = rapid.IntRange(1, 4).Draw(t, "pieces")
		return op
	default:
		op.Do = pbt.Pick(t, "control", "ping", "pong")
		if !streaming {
			op.Do = "message"
		}
		return op
	}
	op.Method = pbt.Pick(t, "method", "echo", "out", "out", "out", "typed", "typed", "schema", "slow", "push", "hold", "nobody")
	if op.Method == "hold" && !held {
		op.Method = "slow"
	}
	switch op.Method {
	case "out":
		op.K = pbt.Uniform(t, len(c.Outs), "k")
	case "typed":
		op.K = pbt.Uniform(t, len(c.Typed), "k")
		ps := []any{}
		for _, a := range c.Typed[op.K].Args {
			ps = append(ps, genFor(t, a, 30))
		}
		if pbt.Chance(t, 20, "null") {
			for i := range ps {
				ps[i] = nil
			}
		}
		op.Params = pbt.Raw(ps)
	case "slow":
		op.N = rapid.IntRange(0, 15).Draw(t, "ms")
	case "push":
		op.N = pbt.Size(t, 10, 400, "n")
	default:
		op.Params = pbt.Raw(pbt.List(t, 2, "p"))
		if pbt.Chance(t, 15, "bare") {
			if v := pbt.JSON(t, 2, "bare"); v != nil {
				op.Params = pbt.Raw(v)
			}
		}
		if pbt.Chance(t, 5, "bomb") {
			op.Params = pbt.Raw([]any{strings.Repeat("x", pbt.Size(t, 1000, 1000000, "bomb"))})
		}
	}
	return op
}

func c17Gen(t *rapid.T) c17Case {
	c := c17Case{Server: pbt.Pick(t, "server", "ws", "h2c", "h2", "gw", "gws", "wss", "h1", "h1s")}
	c.Serial = !strings.HasPrefix(c.Server, "gw") && pbt.Chance(t, 30, "serial")
	c.Leaks = pbt.Chance(t, 20, "leaks")
	if pbt.Chance(t, 40, "missing?") {
		c.Missing = pbt.Pick(t, "missing", "must", "must", "id", "panic", "out")
	}
	var kinds []string
	for _, k := range lbClients[c.Server] {
		if !strings.HasSuffix(k, "-sys") {
			kinds = append(kinds, k)
		}
	}
	c.Witness = pbt.Pick(t, "witness", kinds...)
	for i := 0; i < 3; i++ {
		o := genH1Out(t)
		o.Wrapped = false
		if o.Bad == "" && (o.Do == "message" || o.Do == "" && o.Crash == "") {
			o = h1Out{Bad: pbt.Pick(t, "bad", badKinds...), BadData: pbt.Chance(t, 30, "baddata")}
		}
		c.Outs = append(c.Outs, o)
		d := c17Typed{Ret: genTD(t, 1)}
		for j, n := 0, rapid.IntRange(0, 3).Draw(t, "args"); j < n; j++ {
			d.Args = append(d.Args, genTD(t, 2))
		}
		c.Typed = append(c.Typed, d)
	}
	c.Schema = json.RawMessage(pbt.Pick(t, "schema", `{"type":"method","params":["integer",{"type":"string","minLength":2}]}`,
		`{"type":"method","params":[{"type":"object","properties":{"a":"string"},"requires":["a"]}],"returns":"string"}`,
		`{"type":"method","params":[],"additionalParams":{"anyOf":["integer","null",{"type":"list","items":"string","maxItems":1}]}}`))
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "echo"); i < n; i++ {
		c.Echo = append(c.Echo, pbt.Raw(pbt.List(t, 2, "echo")))
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "clients"); i < n; i++ {
		cl := c17Client{Kind: pbt.Pick(t, "kind", append([]string{kinds[0], kinds[len(kinds)-1], "tcp"}, kinds...)...)}
		if cl.Kind != "tcp" && pbt.Chance(t, 50, "end?") {
			cl.End = pbt.Pick(t, "end", "clean", "abrupt", "cancel", "reset")
		} else if cl.Kind == "tcp" {
			cl.End = pbt.Pick(t, "tcpend", "clean", "")
		}
		cl.Stall = pbt.Chance(t, 15, "stall")
		only := pbt.Chance(t, 60, "only calls")
		for j, k := 0, 1+pbt.Size(t, 5, 60, "ops"); j < k; j++ {
			op := c17GenOp(t, c, cl.Kind, cl.End != "")
			if only && op.Do != "call" && !op.control() && cl.Kind != "tcp" {
				op = c17Op{Do: "call", Method: "out", K: pbt.Uniform(t, len(c.Outs), "k")}
			}
			cl.Ops = append(cl.Ops, op)
		}
		c.Clients = append(c.Clients, cl)
	}
	return c
}

func TestC17(t *testing.T) {
	pbt.Check(t, "C17",
		pbt.Part[c17Case]{Name: "hostile", Quick: 2000, Gen: c17Gen, Run: c17Run},
		pbt.Part[c17Siege]{Name: "siege", Quick: 320, Gen: c17SiegeGen, Run: c17SiegeRun})
}
