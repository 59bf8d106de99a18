package props

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	"pgregory.net/rapid"

	"verif/pbt"
)

// c08Op is one step of a history over a tree of actors.
type c08Op struct {
	Op     string   `json:"op"` // on off child missing close feed query stream
	A      int      `json:"a"`
	B      int      `json:"b,omitempty"`
	Method string   `json:"m,omitempty"`
	How    string   `json:"how,omitempty"`
	Schema bool     `json:"schema,omitempty"`
	Msg    *MsgSpec `json:"msg,omitempty"`
}

type c08Case struct {
	Actors int     `json:"actors"`
	Ops    []c08Op `json:"ops"`
}

type c08Handler struct {
	token  string
	schema jlibschema.Schema
}

type c08Node struct {
	methods  map[string]*c08Handler
	missing  string
	close    string
	children []int
	parent   int
}

type c08Model struct{ nodes []*c08Node }

func (m *c08Model) has(a int, method string) bool {
	if m.nodes[a].methods[method] != nil {
		return true
	}
	for _, c := range m.nodes[a].children {
		if m.has(c, method) {
			return true
		}
	}
	return false
}

// route gives the handler of a call, nil when there is none below a.
func (m *c08Model) route(a int, method string) *c08Handler {
	if h := m.nodes[a].methods[method]; h != nil {
		return h
	}
	for _, c := range m.nodes[a].children {
		if h := m.route(c, method); h != nil {
			return h
		}
	}
	return nil
}

func (m *c08Model) list(a int, out map[string]bool) {
	for k := range m.nodes[a].methods {
		out[k] = true
	}
	for _, c := range m.nodes[a].children {
		m.list(c, out)
	}
}

func (m *c08Model) closers(a int, out map[string]int) {
	if t := m.nodes[a].close; t != "" {
		out[t]++
	}
	for _, c := range m.nodes[a].children {
		m.closers(c, out)
	}
}

type fakeSession struct{ id string }

func (s *fakeSession) Send(jlib.Message) {}
func (s *fakeSession) SessionID() string { return s.id }

// panics runs f and tells whether it panicked.
func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

type c08Call struct {
	token  string
	params any
	msg    jlib.Message
}

// register adds a handler in the given way; ok tells whether it was taken.
func register(a *jlibhttp.Actor, how, method string, setters []jlibhttp.HandlerSetter, body func(req *jlibhttp.RPCRequest, params []any) (any, error)) (ok bool, err error) {
	switch how {
	case "on":
		p := panics(func() {
			a.On(method, func(params []any) (any, error) { return body(nil, params) }, setters...)
		})
		return p == nil, nil
	case "context":
		p := panics(func() {
			a.OnContext(method, func(ctx context.Context, params []any) (any, error) { return body(nil, params) }, setters...)
		})
		return p == nil, nil
	case "typed":
		p := panics(func() {
			a.OnTyped(method, func() (any, error) { return body(nil, nil) }, setters...)
		})
		return p == nil, nil
	case "typedrequest":
		err := a.OnTypedRequest(method, func(req *jlibhttp.RPCRequest) (any, error) { return body(req, nil) }, setters...)
		return err == nil, nil
	case "typedcontext":
		err := a.OnTypedContext(method, func(ctx context.Context) (any, error) { return body(nil, nil) }, setters...)
		return err == nil, nil
	default:
		err := a.OnRequest(method, body, setters...)
		return err == nil, nil
	}
}

func c08Run(r *pbt.Rec, c c08Case) error {
	model := &c08Model{}
	var actors []*jlibhttp.Actor
	for i := 0; i < c.Actors; i++ {
		actors = append(actors, jlibhttp.NewActor())
		model.nodes = append(model.nodes, &c08Node{methods: map[string]*c08Handler{}, parent: -1})
	}
	var calls []c08Call
	closed := map[string]int{}
	type ctxKey struct{}
	for i, op := range c.Ops {
		a := actors[op.A]
		n := model.nodes[op.A]
		fail := func(format string, args ...any) error {
			return fmt.Errorf("step %d %+v: %w", i, op, fmt.Errorf(format, args...))
		}
		token := fmt.Sprintf("h%d", i)
		switch op.Op {
		case "on":
			var setters []jlibhttp.HandlerSetter
			h := &c08Handler{token: token}
			if op.Schema {
				h.schema = &jlibschema.MethodSchema{AdditionalSchema: &jlibschema.AnySchema{}}
				h.schema.SetName(token)
				setters = append(setters, jlibhttp.WithSchema(h.schema))
			}
			ok, _ := register(a, op.How, op.Method, setters, func(req *jlibhttp.RPCRequest, params []any) (any, error) {
				cl := c08Call{token: token}
				if params != nil {
					cl.params = params
				}
				if req != nil {
					cl.msg = req.Msg()
				}
				calls = append(calls, cl)
				return token, nil
			})
			if ok != (n.methods[op.Method] == nil) {
				return fail("registering %q: accepted=%v, already registered=%v", op.Method, ok, n.methods[op.Method] != nil)
			}
			if n.methods[op.Method] == nil {
				n.methods[op.Method] = h
			} else {
				r.Label("duplicate refused")
			}
		case "off":
			a.Off(op.Method)
			delete(n.methods, op.Method)
		case "child":
			// only trees: the child has no parent and is no ancestor
			if model.nodes[op.B].parent >= 0 || op.A == op.B {
				continue
			}
			anc := false
			for p := op.A; p >= 0; p = model.nodes[p].parent {
				anc = anc || p == op.B
			}
			if anc {
				continue
			}
			a.AddChild(actors[op.B])
			model.nodes[op.B].parent = op.A
			n.children = append(n.children, op.B)
			r.Label("children")
		case "missing":
			err := a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
				calls = append(calls, c08Call{token: token, msg: req.Msg()})
				return token, nil
			})
			if (err == nil) != (n.missing == "") {
				return fail("OnMissing: %v, had one: %v", err, n.missing != "")
			}
			if n.missing == "" {
				n.missing = token
			}
		case "close":
			err := a.OnClose(func(r *http.Request, s jlibhttp.RPCSession) {
				if s != nil && s.SessionID() == "sess" && r != nil && r.URL.Path == "/here" {
					closed[token]++
				}
			})
			if (err == nil) != (n.close == "") {
				return fail("OnClose: %v, had one: %v", err, n.close != "")
			}
			if n.close == "" {
				n.close = token
			}
		case "stream":
			closed = map[string]int{}
			hr, _ := http.NewRequest("GET", "http://x/here", nil)
			a.HandleClose(hr, &fakeSession{"sess"})
			want := map[string]int{}
			model.closers(op.A, want)
			if fmt.Sprint(want) != fmt.Sprint(closed) {
				return fail("close handlers called %v, want %v", closed, want)
			}
			if len(want) > 1 {
				r.Label("several close handlers")
			}
		case "feed":
			calls = nil
			msg := op.Msg.build()
			req := jlibhttp.NewRPCRequest(context.WithValue(context.Background(), ctxKey{}, i), msg, jlibhttp.TransportHTTP, nil)
			res, err := a.Feed(req)
			call := op.Msg.Kind == "request" || op.Msg.Kind == "notify"
			want, how := "", "nothing"
			var h *c08Handler
			if call {
				h = model.route(op.A, op.Msg.Method)
			}
			switch {
			case h != nil:
				want, how = h.token, "own handler"
				if n.methods[op.Msg.Method] == nil {
					how = "child handler"
				}
				r.NonTrivial()
			case n.missing != "":
				want, how = n.missing, "missing handler"
				r.NonTrivial()
			}
			r.Label("%s of %s", how, op.Msg.Kind)
			if want == "" {
				if len(calls) != 0 {
					return fail("handled by %s, nothing should handle it", calls[0].token)
				}
				if op.Msg.Kind == "request" {
					if res == nil || err != nil || !res.IsError() || res.MustError().Code != jlib.ErrMethodNotFound.Code {
						return fail("request nobody handles is answered %v, %v", res, err)
					}
					if err := sameID(op.Msg.ID.Value(), res.MustId()); err != nil || res.TraceId() != op.Msg.Trace {
						return fail("method not found reply: %v, trace %q", err, res.TraceId())
					}
				} else if res != nil || err != nil {
					return fail("ignored message gives %v, %v", res, err)
				}
				continue
			}
			if len(calls) != 1 || calls[0].token != want {
				return fail("handled by %v, want %s once", calls, want)
			}
			if calls[0].params != nil {
				if err := pbt.DiffGo(op.Msg.paramList(), calls[0].params); err != nil {
					return fail("handler saw other params: %w", err)
				}
			}
			if calls[0].msg != nil && calls[0].msg != msg {
				return fail("handler saw another message %v", calls[0].msg)
			}
			if err := op.Msg.checkMsg(msg); err != nil {
				return fail("the message was changed: %w", err)
			}
			if op.Msg.Kind == "request" {
				if err != nil || res == nil || !res.IsResult() || res.MustResult() != want {
					return fail("reply %v, %v, want result %s", res, err, want)
				}
				if err := sameID(op.Msg.ID.Value(), res.MustId()); err != nil || res.TraceId() != op.Msg.Trace {
					return fail("reply: %v, trace %q", err, res.TraceId())
				}
			} else if res != nil || err != nil {
				return fail("a %s gives %v, %v", op.Msg.Kind, res, err)
			}
		}
		// the queries agree with where calls go
		if op.Op == "feed" || op.Op == "stream" {
			continue
		}
		for j, x := range actors {
			want := map[string]bool{}
			model.list(j, want)
			got := map[string]bool{}
			for _, m := range x.MethodList() {
				got[m] = true
			}
			if fmt.Sprintf("%q", pbt.Keys(want)) != fmt.Sprintf("%q", pbt.Keys(got)) {
				return fail("actor %d: MethodList %q, want %q", j, pbt.Keys(got), pbt.Keys(want))
			}
			for _, m := range c08Methods {
				h := model.route(j, m)
				if x.Has(m) != (h != nil) {
					return fail("actor %d: Has(%q) = %v", j, m, x.Has(m))
				}
				s, ok := x.GetSchema(m)
				if h == nil || h.schema == nil {
					if ok {
						return fail("actor %d: GetSchema(%q) gives a schema of another handler: %s", j, m, s.GetName())
					}
				} else if !ok || s != h.schema {
					return fail("actor %d: GetSchema(%q) = %v %v, want that of %s", j, m, s, ok, h.token)
				}
			}
		}
	}
	return nil
}

var c08Methods = []string{"a", "b", "ab", "A", "rpc.a", "é"}

func genC08(t *rapid.T) c08Case {
	c := c08Case{Actors: pbt.Pick(t, "actors", 1, 2, 3, 3, 4, 6)}
	method := func() string { return c08Methods[pbt.Weighted(t, "method", 40, 25, 12, 10, 8, 5)] }
	n := rapid.IntRange(3, 25).Draw(t, "steps")
	if pbt.Chance(t, 60, "tree first") {
		for i := 1; i < c.Actors; i++ {
			c.Ops = append(c.Ops, c08Op{Op: "child", A: pbt.Uniform(t, i, "parent"), B: i})
		}
	}
	for i := 0; i < n; i++ {
		op := c08Op{A: pbt.Uniform(t, c.Actors, "actor")}
		switch pbt.Weighted(t, "op", 35, 8, 10, 8, 6, 28, 5) {
		case 0:
			op.Op, op.Method, op.Schema = "on", method(), pbt.Chance(t, 40, "schema")
			op.How = pbt.Pick(t, "how", "request", "on", "context", "typed", "typedrequest", "typedcontext")
		case 1:
			op.Op, op.Method = "off", method()
		case 2:
			op.Op, op.B = "child", pbt.Uniform(t, c.Actors, "child")
		case 3:
			op.Op = "missing"
		case 4:
			op.Op = "close"
		case 5:
			op.Op = "feed"
			if pbt.Chance(t, 60, "root") {
				op.A = 0
			}
			m := MsgSpec{Kind: []string{"request", "notify", "result", "error"}[pbt.Weighted(t, "mk", 50, 25, 13, 12)], Method: method(), ID: pbt.GenID(t, "id")}
			switch m.Kind {
			case "notify":
				m.ID = pbt.ID{}
			case "result":
				m.Method, m.Result = "", pbt.Raw(pbt.JSON(t, 1, "r"))
			case "error":
				m.Method, m.Code, m.Msg = "", int(pbt.Int64(t, "code")), pbt.Str(t, "em")
			}
			if m.Method != "" {
				m.List = pbt.Chance(t, 80, "list")
				if m.List {
					l := []any{}
					for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
						l = append(l, pbt.JSON(t, 1, "p"))
					}
					m.Params = pbt.Raw(l)
				} else {
					m.Params = pbt.Raw(genBare(t))
				}
			}
			if pbt.Chance(t, 40, "trace") {
				m.Trace = pbt.Str(t, "tr")
			}
			op.Msg = &m
		default:
			op.Op = "stream"
		}
		c.Ops = append(c.Ops, op)
	}
	// a bare value never conforms to a method schema
	schemas := map[string]bool{}
	for _, o := range c.Ops {
		if o.Op == "on" && o.Schema {
			schemas[o.Method] = true
		}
	}
	for i := range c.Ops {
		if m := c.Ops[i].Msg; m != nil && !m.List && schemas[m.Method] {
			m.Params, m.List = pbt.Raw([]any{}), true
		}
	}
	return c
}

// ---- the actors of handlers

type c08Own struct {
	Kinds []string `json:"kinds"` // h1 ws h2 gw gws, with "nil" in front: made without an actor
	Calls []int    `json:"calls"`
}

func c08RunOwn(r *pbt.Rec, c c08Own) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	shared := jlibhttp.NewActor()
	var actors []*jlibhttp.Actor
	var handlers []http.Handler
	for i, k := range c.Kinds {
		var given, got *jlibhttp.Actor
		if !strings.HasPrefix(k, "nil") {
			given = shared
		}
		var h http.Handler
		switch strings.TrimPrefix(k, "nil ") {
		case "h1":
			x := jlibhttp.NewH1Handler(given)
			h, got = x, x.Actor
		case "ws":
			x := jlibhttp.NewWSHandler(ctx, given)
			h, got = x, x.Actor
		case "h2":
			x := jlibhttp.NewH2Handler(ctx, given)
			h, got = x.FallbackHandler(), x.Actor
		case "gw", "gws":
			x := jlibhttp.NewGatewayHandler(ctx, given, k[len(k)-2:] == "gw")
			h, got = x, x.Actor
		}
		if got == nil {
			return fmt.Errorf("handler %d (%s) has no actor", i, k)
		}
		if given != nil && got != given {
			return fmt.Errorf("handler %d (%s) has another actor than the given one", i, k)
		}
		for j, a := range actors {
			if given == nil && a == got {
				return fmt.Errorf("handlers %d and %d, made without an actor, share one", j, i)
			}
		}
		if given == nil {
			r.NonTrivial()
			if got == shared {
				return fmt.Errorf("handler %d (%s), made without an actor, has that of others", i, k)
			}
			name := fmt.Sprint("own", i)
			got.On("whoami", func(params []any) (any, error) { return name, nil })
		}
		actors, handlers = append(actors, got), append(handlers, h)
	}
	shared.On("whoami", func(params []any) (any, error) { return "shared", nil })
	for _, i := range c.Calls {
		if strings.HasSuffix(c.Kinds[i], "ws") && !strings.HasSuffix(c.Kinds[i], "gws") {
			continue // needs a connection
		}
		want := "shared"
		if strings.HasPrefix(c.Kinds[i], "nil") {
			want = fmt.Sprint("own", i)
		}
		body, _ := jlib.MessageBytes(jlib.NewRequestMessage(1, "whoami", nil))
		w := httptest.NewRecorder()
		handlers[i].ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewReader(body)))
		m, err := jlib.ParseBytes(w.Body.Bytes())
		if err != nil || !m.IsResult() || m.MustResult() != any(want) {
			return fmt.Errorf("handler %d (%s) answers %d %q, want %q", i, c.Kinds[i], w.Code, w.Body, want)
		}
	}
	return nil
}

func TestC08(t *testing.T) {
	pbt.Check(t, "C08", pbt.Part[c08Case]{Name: "tree", Quick: 30000, Gen: genC08, Run: c08Run},
		pbt.Part[c08Own]{Name: "own", Quick: 3000, Gen: func(t *rapid.T) c08Own {
			var c c08Own
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
				c.Kinds = append(c.Kinds, pbt.Pick(t, "nil", "nil ", "nil ", "")+pbt.Pick(t, "kind", "h1", "ws", "h2", "gw", "gws"))
			}
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "calls"); i < n; i++ {
				c.Calls = append(c.Calls, pbt.Uniform(t, len(c.Kinds), "call"))
			}
			return c
		}, Run: c08RunOwn})
}
