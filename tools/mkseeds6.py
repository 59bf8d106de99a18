from seedlib import seed
from mkseeds_common import HTTP

SCHEMA = '''
package jlibschema

import (
	"strings"
	"testing"
)

var _ = strings.Repeat

func TestZZDemo(t *testing.T) {
%s
}
'''

ROOT = '''
package jlib

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var (
	_ = os.WriteFile
	_ = filepath.Join
	_ = strings.Repeat
)

func TestZZDemo(t *testing.T) {
%s
}
'''

seed("c01-pooled-bytes", "C01", "a second message encoded while the bytes of the first are still in use",
     "the bytes of an encoded message come from a buffer that the next encoding writes over",
     [("messageimpl.go", "	v := msg.Interface()\n	return json.Marshal(v)\n",
       "	buf := encodeBuffers.Get().(*bytes.Buffer)\n	defer encodeBuffers.Put(buf)\n	buf.Reset()\n	if err := json.NewEncoder(buf).Encode(msg.Interface()); err != nil {\n		return nil, err\n	}\n	return bytes.TrimRight(buf.Bytes(), \"\\n\"), nil\n"),
      ("messageimpl.go", "func MessageBytes(", "var encodeBuffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc MessageBytes("),
      ("messageimpl.go", "	\"encoding/json\"\n", "	\"bytes\"\n	\"encoding/json\"\n	\"sync\"\n")],
     ROOT % '''
	for round := 0; round < 20; round++ {
		var all [][]byte
		for _, m := range []string{"aaaa", "bbbb", "cccc", "dddd"} {
			b, err := MessageBytes(NewNotifyMessage(m, []interface{}{m}))
			if err != nil {
				t.Fatal(err)
			}
			all = append(all, b)
		}
		for i, m := range []string{"aaaa", "bbbb", "cccc", "dddd"} {
			if !strings.Contains(string(all[i]), m) {
				t.Fatal(m, string(all[i]))
			}
		}
	}
''')

seed("c05-anyof-memo", "C05", "one validator that meets two values of other types that print alike",
     "an anyOf schema remembers by the printed value which values fit, and takes a string for the number it looks like",
     [("schema/validator.go", "	errPos := schema.Scan(self, data)\n	self.popPath(path)\n	return errPos",
       "	defer self.popPath(path)\n	anyOf, ok := schema.(*AnyOfSchema)\n	if !ok {\n		return schema.Scan(self, data)\n	}\n	key := fmt.Sprintf(\"%p %v\", anyOf, data)\n	if self.passed[key] {\n		return nil\n	}\n	errPos := schema.Scan(self, data)\n	if errPos == nil {\n		if self.passed == nil {\n			self.passed = map[string]bool{}\n		}\n		self.passed[key] = true\n	}\n	return errPos"),
      ("schema/types.go", "type SchemaValidator struct {\n", "type SchemaValidator struct {\n	// the values that have fit\n	passed map[string]bool\n")],
     SCHEMA % '''
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"list","items":{"anyOf":["number","bool"]}}`))
	if err != nil {
		t.Fatal(err)
	}
	for doc, good := range map[string]bool{`[1,2,true]`: true, `[1,"1"]`: false, `[true,"true"]`: false} {
		if pos := NewSchemaValidator().ValidateBytes(s, []byte(doc)); (pos == nil) != good {
			t.Fatal(doc, pos)
		}
	}
''', "schema")

seed("c06-deep-any", "C06", "a schema that is nested deeper than eight levels",
     "what is below is taken for any value, and its mistakes for none",
     [("schema/builder.go", "	nodeType, ok := node[\"type\"]\n", "	if len(paths) > 16 {\n		return &AnySchema{}, nil\n	}\n	nodeType, ok := node[\"type\"]\n")],
     SCHEMA % '''
	for _, n := range []int{1, 5, 10, 20, 30} {
		txt := strings.Repeat(`{"type":"object","properties":{"a":`, n) + `"string"` + strings.Repeat("}}", n)
		s, err := NewSchemaBuilder().BuildBytes([]byte(txt))
		if err != nil {
			t.Fatal(err)
		}
		doc := strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n)
		if pos := NewSchemaValidator().ValidateBytes(s, []byte(doc)); pos == nil {
			t.Fatal(n)
		}
	}
''', "schema")

seed("c10-shared-validator", "C10", "calls of methods with schemas that run at the same time",
     "all calls are validated by one validator, whose path they share: verdicts name wrong places, or the call panics",
     [("http/request.go", "			validator := jlibschema.NewSchemaValidator()\n", ""),
      ("http/request.go", "type HandlerSetter func", "var validator = jlibschema.NewSchemaValidator()\n\ntype HandlerSetter func")],
     HTTP % '''
	actor := NewActor()
	actor.OnRequest("m", func(_ *RPCRequest, params []any) (any, error) { return 1, nil },
		WithSchemaJson(`{"type":"method","params":[{"type":"list","items":{"type":"list","items":{"type":"list","items":"integer"}}}]}`))
	row := []any{1, 2, 3, 4, 5, 6}
	rows := []any{row, row, row, row, row, row}
	bad := make(chan string, 1000)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad <- fmt.Sprint(p)
				}
			}()
			for i := 0; i < 300; i++ {
				last := any(rows)
				if i%2 == 1 {
					last = []any{row, []any{1, 2, "x"}}
				}
				msg := jlib.NewRequestMessage(1, "m", []any{[]any{rows, rows, last}})
				res, err := actor.Feed(NewRPCRequest(context.Background(), msg, TransportHTTP, nil))
				if err != nil || res.IsError() != (i%2 == 1) {
					bad <- fmt.Sprint(res, err)
					return
				}
				if res.IsError() && !strings.Contains(res.MustError().Message, ".params[0][2][1][2]") {
					bad <- res.MustError().Message
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		t.Fatal(s)
	default:
	}
''', "http")

seed("c16-push-dedupe", "C16", "a handler that pushes the same notification twice in a row",
     "the second one is not sent",
     [("http/ws_server.go", "			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {",
       "			if msg.IsNotify() {\n				if last == string(marshaled) {\n					continue\n				}\n				last = string(marshaled)\n			}\n			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {"),
      ("http/ws_server.go", "	ctx, cancel := context.WithCancel(self.rootCtx)\n	defer cancel()\n", "	ctx, cancel := context.WithCancel(self.rootCtx)\n	defer cancel()\n\n	last := \"\"\n")],
     HTTP % '''
	actor := NewActor()
	actor.OnRequest("m", func(req *RPCRequest, _ []any) (any, error) {
		for i := 0; i < 5; i++ {
			req.Session().Send(jlib.NewNotifyMessage("tick", []any{i / 2}))
		}
		return 1, nil
	})
	srv := httptest.NewServer(NewWSHandler(context.Background(), actor))
	ws, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer ws.Close()
	ws.WriteMessage(websocket.TextMessage, []byte(`{"jsonrpc":"2.0","id":1,"method":"m","params":[]}`))
	for i := 0; i < 5; i++ {
		ws.SetReadDeadline(time.Now().Add(5 * time.Second))
		_, b, err := ws.ReadMessage()
		if err != nil || !strings.Contains(string(b), fmt.Sprintf("[%d]", i/2)) {
			t.Fatal(i, string(b), err)
		}
	}
''', "http")

seed("c17-pong-closes", "C17", "a websocket client that sends a pong nobody asked for, as a sign of life",
     "the server hangs up, and the calls of the client are not answered",
     [("http/ws_server.go", "	defer ws.Close()\n", "	defer ws.Close()\n	ws.SetPongHandler(func(string) error {\n		// no ping has been sent\n		return websocket.ErrBadHandshake\n	})\n")],
     HTTP % '''
	actor := NewActor()
	actor.OnRequest("echo", func(_ *RPCRequest, params []any) (any, error) { return params, nil })
	srv := httptest.NewServer(NewWSHandler(context.Background(), actor))
	ws, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer ws.Close()
	ws.WriteControl(websocket.PongMessage, nil, time.Now().Add(time.Second))
	ws.WriteMessage(websocket.TextMessage, []byte(`{"jsonrpc":"2.0","id":1,"method":"echo","params":[]}`))
	ws.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, b, err := ws.ReadMessage(); err != nil {
		t.Fatal(string(b), err)
	}
''', "http")

seed("c19-folded-key", "C19", "a token that has been accepted before, with letters of its signature in another case",
     "the cache of accepted tokens does not tell upper from lower case, and the altered token is admitted",
     [("http/auth_handler.go", "self.jwtCache.Get(authHeader)", "self.jwtCache.Get(strings.ToLower(authHeader))"),
      ("http/auth_handler.go", "self.jwtCache.Remove(authHeader)", "self.jwtCache.Remove(strings.ToLower(authHeader))"),
      ("http/auth_handler.go", "self.jwtCache.Add(authHeader, claims)", "self.jwtCache.Add(strings.ToLower(authHeader), claims)")],
     HTTP % '''
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "secret"}}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	tok, err := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"username": "u", "exp": time.Now().Add(time.Hour).Unix()}).SignedString([]byte("secret"))
	if err != nil {
		t.Fatal(err)
	}
	i := strings.LastIndex(tok, ".") + 1
	for _, try := range []struct {
		tok  string
		code int
	}{{tok, 200}, {tok, 200}, {tok[:i] + strings.ToLower(tok[i:]), 401}} {
		req := httptest.NewRequest("POST", "/", nil)
		req.Header.Set("Authorization", "Bearer "+try.tok)
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		if rec.Code != try.code {
			t.Fatal(try.tok, rec.Code)
		}
	}
''', "http")

seed("c20-ipv4-only", "C20", "a server that is to serve at an IPv6 address, or at a port of every interface and is called over IPv6",
     "serving fails, or nobody answers there",
     [("http/server_utils.go", "net.Listen(\"tcp\", bind)", "net.Listen(\"tcp4\", bind)")],
     HTTP % '''
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		t.Skip("no IPv6 here")
	}
	bind := l.Addr().String()
	l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	actor := NewActor()
	actor.OnRequest("echo", func(_ *RPCRequest, params []any) (any, error) { return params, nil })
	go ListenAndServe(ctx, bind, NewH1Handler(actor))
	time.Sleep(300 * time.Millisecond)
	client, err := NewClient("http://" + bind + "/")
	if err != nil {
		t.Fatal(err)
	}
	res, err := client.Call(context.Background(), jlib.NewRequestMessage(1, "echo", []any{1}))
	if err != nil || !res.IsResult() {
		t.Fatal(res, err)
	}
''', "http")
