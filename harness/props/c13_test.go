package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c13Msg struct {
	Msg MsgSpec     `json:"msg"`
	Out outcomeSpec `json:"out"`
	In  int         `json:"in,omitempty"`  // bytes of padding in the params
	Pad int         `json:"pad,omitempty"` // bytes of padding in the result
	Via string      `json:"via,omitempty"` // "", unwrap, or the type to unwrap into
}

type c13Case struct {
	Routes   []lbRoute `json:"routes"`
	Msgs     []c13Msg  `json:"msgs"`
	Parallel bool      `json:"parallel,omitempty"`
	Missing  bool      `json:"missing,omitempty"` // handled by the missing handler
}

type c13Struct struct {
	A string         `json:"a"`
	B []int          `json:"b"`
	C map[string]any `json:"c"`
	D *c13Struct     `json:"d"`
}

// c13Typed is a result of a kind, the caller's variable for it and the check.
func c13Typed(kind string, seed json.RawMessage) (result any, into any, check func() error) {
	s := string(seed)
	n := len(s)*7919 - 12345
	switch kind {
	case "int":
		v := new(int)
		return n, v, func() error {
			if *v != n {
				return fmt.Errorf("want %d, got %d", n, *v)
			}
			return nil
		}
	case "string":
		v := new(string)
		return s, v, func() error {
			if *v != s {
				return fmt.Errorf("want %q, got %q", s, *v)
			}
			return nil
		}
	case "list":
		v := new([]float64)
		return []any{n, 0.5, -3}, v, func() error {
			if fmt.Sprint(*v) != fmt.Sprint([]float64{float64(n), 0.5, -3}) {
				return fmt.Errorf("want [%d 0.5 -3], got %v", n, *v)
			}
			return nil
		}
	default:
		v := new(c13Struct)
		want := c13Struct{A: s, B: []int{1, n}, C: map[string]any{"x": "y"}, D: &c13Struct{A: "inner"}}
		return map[string]any{"a": s, "b": []any{1, n}, "c": map[string]any{"x": "y"}, "d": map[string]any{"a": "inner"}}, v, func() error {
			if v.A != want.A || fmt.Sprint(v.B) != fmt.Sprint(want.B) || fmt.Sprint(v.C) != fmt.Sprint(want.C) || v.D == nil || v.D.A != "inner" {
				return fmt.Errorf("want %+v, got %+v", want, *v)
			}
			return nil
		}
	}
}

func (m c13Msg) expanded(i int) MsgSpec {
	s := m.Msg
	s.Method = fmt.Sprintf("%s#%d", s.Method, i)
	if m.In > 0 {
		l, _ := pbt.MustDec(s.Params).([]any)
		s.List = true
		s.Params = pbt.Raw(append(append([]any{}, l...), strings.Repeat("p", m.In)))
	}
	return s
}

func (m c13Msg) outcome() outcomeSpec {
	o := m.Out
	if m.Pad > 0 && o.Crash == "" && o.Do == "value" {
		o.Value = pbt.Raw([]any{json.RawMessage(o.Value), strings.Repeat("r<", m.Pad/2)})
	}
	return o
}

type c13Seen struct {
	mu sync.Mutex
	n  map[int]int
	e  error
}

func c13Route(r *pbt.Rec, c c13Case, route lbRoute) error {
	actor := jlibhttp.NewActor()
	seen := &c13Seen{n: map[int]int{}}
	handlers := map[string]jlibhttp.RequestCallback{}
	for i, m := range c.Msgs {
		spec := m.expanded(i)
		o := m.outcome()
		if spec.Kind == "notify" && route.streaming() {
			o = outcomeSpec{Do: "value", Value: json.RawMessage("1")} // one that fails ends the session
		}
		handlers[spec.Method] = func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			// a streaming client replaces the ids of calls that would clash
			spec := spec
			spec.anyID = c.Parallel && route.streaming()
			err := spec.checkMsg(req.Msg())
			if err == nil {
				var got any
				if got, err = pbt.ToJSON(params); err == nil {
					err = pbt.Diff(pbt.MustDec(pbt.Raw(spec.paramList())), got)
				}
			}
			seen.mu.Lock()
			seen.n[i]++
			if err != nil && seen.e == nil {
				seen.e = fmt.Errorf("message %d reached its handler changed: %w", i, err)
			}
			seen.mu.Unlock()
			if m.Via != "" && m.Via != "unwrap" {
				v, _, _ := c13Typed(m.Via, m.Msg.Params)
				return v, nil
			}
			return o.run()
		}
	}
	handlers["sync!"] = func(*jlibhttp.RPCRequest, []any) (any, error) { return "synced", nil }
	if c.Missing {
		actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			h := handlers[req.Msg().MustMethod()]
			if h == nil {
				return nil, fmt.Errorf("unknown method %s", req.Msg().MustMethod())
			}
			return h(req, req.Msg().MustParams())
		})
	} else {
		for k, h := range handlers {
			if err := actor.OnRequest(k, h); err != nil {
				return err
			}
		}
	}
	srv := lbStart(route.Server, actor, lbOptions{})
	defer srv.close()
	client, err := srv.client(route.Client)
	if err != nil {
		return err
	}
	defer closeClient(client)
	one := func(i int) error {
		m := c.Msgs[i]
		clock := pbt.StartClock()
		spec := m.expanded(i)
		msg := spec.build()
		if spec.Kind == "notify" {
			_, err, ok := within(r.Slow(patience), func() (any, error) { return nil, client.Send(context.Background(), msg) })
			if !ok {
				return clock.Late("message %d: sending did not return", i)
			}
			if envProblem(err) {
				return pbt.Inconclusive(err)
			}
			if err != nil && (m.outcome().reply(spec).Kind == "result" || route.streaming()) {
				return fmt.Errorf("message %d: sending fails with %v", i, err)
			}
			return nil
		}
		req := msg.(*jlib.RequestMessage)
		if m.Via == "" {
			res, err := lbCall(r, client, req)
			if err != nil {
				return fmt.Errorf("message %d: the call fails: %w", i, err)
			}
			if res.IsError() && res.MustError().Code == jlib.ErrTimeout.Code && m.Out.Code != jlib.ErrTimeout.Code && m.Out.Text != "ErrTimeout" {
				return clock.Late("message %d: the call timed out", i)
			}
			if err := m.outcome().reply(spec).checkFull(res); err != nil {
				return fmt.Errorf("message %d: the reply is wrong: %w", i, err)
			}
			return nil
		}
		var into any
		check := func() error { return nil }
		if m.Via == "unwrap" {
			v := new(any)
			into = v
			check = func() error {
				got, err := pbt.ToJSON(*v)
				if err != nil {
					return err
				}
				return pbt.DiffNum(pbt.MustDec(m.outcome().reply(spec).Result), got)
			}
		} else {
			_, into, check = c13Typed(m.Via, m.Msg.Params)
		}
		_, err, ok := within(r.Slow(patience), func() (any, error) {
			return nil, client.UnwrapCall(context.Background(), req, into)
		})
		if !ok {
			return clock.Late("message %d: the call did not return", i)
		}
		if envProblem(err) {
			return pbt.Inconclusive(err)
		}
		want := MsgSpec{Kind: "result"}
		if m.Via == "unwrap" {
			want = m.outcome().reply(spec)
		}
		if want.Kind == "error" {
			var re *jlib.RPCError
			if !errors.As(err, &re) {
				return fmt.Errorf("message %d: unwrapping error %d returns %v", i, want.Code, err)
			}
			got := want
			if re.Code != want.Code || re.Message != want.Msg {
				return fmt.Errorf("message %d: unwrapping error %d %q returns %d %q", i, got.Code, got.Msg, re.Code, re.Message)
			}
			var wd any
			if len(want.Data) > 0 {
				wd = pbt.MustDec(want.Data)
			}
			gd, err := pbt.ToJSON(re.Data)
			if err != nil {
				return err
			}
			if err := pbt.DiffNum(wd, gd); err != nil {
				return fmt.Errorf("message %d: data of the unwrapped error: %w", i, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("message %d: unwrapping fails with %v", i, err)
		}
		if err := check(); err != nil {
			return fmt.Errorf("message %d: unwrapped value: %w", i, err)
		}
		return nil
	}
	if c.Parallel {
		errs := make([]error, len(c.Msgs))
		var wg sync.WaitGroup
		for i := range c.Msgs {
			wg.Add(1)
			go func() { defer wg.Done(); errs[i] = one(i) }()
		}
		wg.Wait()
		if err := errors.Join(errs...); err != nil {
			return err
		}
	} else {
		for i := range c.Msgs {
			if err := one(i); err != nil {
				return err
			}
		}
	}
	all := func() bool {
		seen.mu.Lock()
		defer seen.mu.Unlock()
		return len(seen.n) == len(c.Msgs)
	}
	clock := pbt.StartClock()
	if !eventually(r.Slow(patience), all) {
		return clock.Late("only %d of %d messages reached their handler", len(seen.n), len(c.Msgs))
	}
	if res, err := lbCall(r, client, jlib.NewRequestMessage("sync", "sync!", nil)); err != nil || !res.IsResult() {
		return fmt.Errorf("the last call fails: %v %v", res, err)
	}
	seen.mu.Lock()
	defer seen.mu.Unlock()
	for i, n := range seen.n {
		if n != 1 {
			return fmt.Errorf("message %d reached its handler %d times", i, n)
		}
	}
	return seen.e
}

func c13Run(r *pbt.Rec, c c13Case) error {
	for _, m := range c.Msgs {
		if m.Msg.Kind == "request" {
			r.NonTrivial()
		}
		if m.In > 10240 || m.Pad > 10240 {
			r.Label("over 10240 bytes")
		}
	}
	for _, route := range c.Routes {
		r.Label("%s", route)
		if err := c13Route(r, c, route); err != nil {
			return fmt.Errorf("%s: %w", route, err)
		}
	}
	return nil
}

func c13Gen(t *rapid.T) c13Case {
	c := c13Case{Parallel: pbt.Chance(t, 30, "parallel"), Missing: pbt.Chance(t, 20, "missing")}
	for i, n := 0, 1+pbt.Uniform(t, 3, "routes"); i < n; i++ {
		c.Routes = append(c.Routes, lbRoutes[pbt.Uniform(t, len(lbRoutes), "route")])
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "msgs"); i < n; i++ {
		m := c13Msg{Msg: genMsgSpec(t, pbt.Pick(t, "kind", "request", "request", "notify"))}
		if len(m.Msg.Params) == 0 {
			m.Msg.Params, m.Msg.List = json.RawMessage("[]"), true
		}
		if m.Msg.Trace != "" {
			m.Msg.Trace = genTrace(t)
		}
		if m.Msg.Kind == "notify" {
			m.Out = outcomeSpec{Do: "value", Value: json.RawMessage("1")}
			if pbt.Chance(t, 20, "failing") {
				m.Out = outcomeSpec{Do: pbt.Pick(t, "fails", "error", "rpc"), Code: -5, Text: "failed", Panic: pbt.Chance(t, 30, "panic")}
			}
		} else {
			m.Out = genOutcome(t)
			if m.Out.Do == "message" {
				m.Out = outcomeSpec{Do: "value", Value: pbt.Raw(pbt.JSON(t, 2, "v"))}
			}
			m.Via = pbt.Pick(t, "via", "", "", "", "unwrap", "unwrap", "int", "string", "list", "struct")
		}
		if pbt.Chance(t, 15, "in?") {
			m.In = 1 + pbt.Size(t, 5000, 300000, "in")
		}
		if pbt.Chance(t, 15, "pad?") {
			m.Pad = 1 + pbt.Size(t, 5000, 300000, "pad")
		}
		c.Msgs = append(c.Msgs, m)
	}
	return c
}

// c13SizeGen makes calls whose sizes lie around the sizes of buffers.
func c13SizeGen(t *rapid.T) c13Case {
	size := func(label string) int {
		if pbt.Chance(t, 35, label+"none") {
			return 0
		}
		base := 1 << pbt.Pick(t, label, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 20, 21, 22)
		if pbt.Chance(t, 10, label+"10k") {
			base = 10240
		}
		return base + pbt.Uniform(t, 400, label+"off") - 250
	}
	c := c13Case{Parallel: pbt.Chance(t, 50, "parallel"), Routes: []lbRoute{lbRoutes[pbt.Uniform(t, len(lbRoutes), "route")]}}
	for i, n := 0, 1+pbt.Uniform(t, 3, "msgs"); i < n; i++ {
		m := c13Msg{
			Msg: MsgSpec{Kind: pbt.Pick(t, "kind", "request", "request", "request", "notify"), Method: "m", ID: pbt.IntID(int64(i)), List: true, Params: json.RawMessage("[]"), Trace: fmt.Sprint("t", i)},
			Out: outcomeSpec{Do: "value", Value: json.RawMessage("1")},
			In:  size("in"),
		}
		if m.Msg.Kind == "request" {
			m.Pad = size("pad")
		}
		c.Msgs = append(c.Msgs, m)
	}
	if pbt.Chance(t, 2, "huge") {
		// one message beyond all buffers, alone
		c.Parallel, c.Msgs = false, c.Msgs[:1]
		c.Msgs[0].In = 1<<23 + pbt.Uniform(t, 400, "hugeoff") - 250
		c.Msgs[0].Pad = min(c.Msgs[0].Pad, 1<<16)
	}
	return c
}

// c13Up is a websocket handshake by a client that is not the library's: the
// names of headers and protocols are case insensitive.
type c13Up struct {
	Server  string  `json:"server"`
	Upgrade string  `json:"upgrade"`
	Conn    string  `json:"conn"`
	Header  string  `json:"header"`
	Msg     MsgSpec `json:"msg"`
}

type c13UpConn struct {
	net.Conn
	c    c13Up
	done bool
}

func (c *c13UpConn) Write(b []byte) (int, error) {
	if c.done {
		return c.Conn.Write(b)
	}
	c.done = true
	x := string(b)
	x = strings.Replace(x, "Upgrade: websocket", c.c.Header+": "+c.c.Upgrade, 1)
	x = strings.Replace(x, "Connection: Upgrade", "Connection: "+c.c.Conn, 1)
	if _, err := c.Conn.Write([]byte(x)); err != nil {
		return 0, err
	}
	return len(b), nil
}

func c13UpRun(r *pbt.Rec, c c13Up) error {
	actor := jlibhttp.NewActor()
	actor.OnRequest(c.Msg.Method, func(req *jlibhttp.RPCRequest, params []any) (any, error) { return params, nil })
	srv := lbStart(c.Server, actor, lbOptions{})
	defer srv.close()
	dialer := websocket.Dialer{NetDial: func(network, addr string) (net.Conn, error) {
		conn, err := net.Dial(network, addr)
		return &c13UpConn{Conn: conn, c: c}, err
	}, HandshakeTimeout: r.Slow(patience)}
	ws, _, err := dialer.Dial(srv.url("ws"), nil)
	if envProblem(err) {
		return pbt.Inconclusive(err)
	}
	if err != nil {
		return fmt.Errorf("the server refuses the handshake with %s: %s: %v", c.Header, c.Upgrade, err)
	}
	defer ws.Close()
	if c.Upgrade != "websocket" || c.Conn != "Upgrade" || c.Header != "Upgrade" {
		r.NonTrivial()
	}
	if err := ws.WriteMessage(websocket.TextMessage, pbt.Raw(c.Msg.object())); err != nil {
		return err
	}
	clock := pbt.StartClock()
	ws.SetReadDeadline(time.Now().Add(r.Slow(patience)))
	_, b, err := ws.ReadMessage()
	if err != nil {
		return clock.Late("no reply: %v", err)
	}
	return MsgSpec{Kind: "result", ID: c.Msg.ID, Trace: c.Msg.Trace, Result: pbt.Raw(c.Msg.paramList())}.checkBytes(b)
}

func c13UpGen(t *rapid.T) c13Up {
	c := c13Up{
		Server:  pbt.Pick(t, "server", "ws", "gw", "gw"),
		Upgrade: pbt.Pick(t, "upgrade", "websocket", "WebSocket", "WEBSOCKET", "Websocket"),
		Conn:    pbt.Pick(t, "conn", "Upgrade", "upgrade", "keep-alive, Upgrade", "UPGRADE"),
		Header:  pbt.Pick(t, "header", "Upgrade", "upgrade", "UPGRADE"),
		Msg:     genMsgSpec(t, "request"),
	}
	if len(c.Msg.Params) == 0 {
		c.Msg.Params, c.Msg.List = json.RawMessage("[]"), true
	}
	return c
}

func TestC13(t *testing.T) {
	pbt.Check(t, "C13", pbt.Part[c13Case]{Name: "routes", Quick: 6000, Gen: c13Gen, Run: c13Run},
		pbt.Part[c13Case]{Name: "sizes", Quick: 400, Gen: c13SizeGen, Run: c13Run},
		pbt.Part[c13Up]{Name: "upgrade", Quick: 800, Gen: c13UpGen, Run: c13UpRun})
}
