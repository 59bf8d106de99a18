from seedlib import seed

HTTP = '''
package jlibhttp

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"golang.org/x/net/http2"
)

var (
	_ = bytes.NewReader
	_ = context.Background
	_ = tls.Client
	_ = json.Marshal
	_ = fmt.Sprint
	_ = io.EOF
	_ = net.Dial
	_ = http.StatusOK
	_ = httptest.NewServer
	_ = strings.Split
	_ sync.Mutex
	_ = time.Second
	_ = jwt.New
	_ = websocket.TextMessage
	_ = jlib.NewUuid
	_ http2.Transport
)

func TestZZDemo(t *testing.T) {
%s
}
'''

seed("c17-write-lock", "C17", "a websocket client that calls for much and reads nothing",
     "all websocket sessions write under one lock, which a client that does not read keeps held",
     [("http/ws_server.go", "type WSHandler struct {", "var wsWriteLock sync.Mutex\n\ntype WSHandler struct {"),
      ("http/ws_server.go", "	\"net/http\"\n)", "	\"net/http\"\n	\"sync\"\n)"),
      ("http/ws_server.go", "			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {",
       "			wsWriteLock.Lock()\n			err = self.ws.WriteMessage(websocket.TextMessage, marshaled)\n			wsWriteLock.Unlock()\n			if err != nil {")],
     HTTP % '''
	actor := NewActor()
	actor.OnRequest("big", func(*RPCRequest, []any) (any, error) { return strings.Repeat("b", 1<<20), nil })
	actor.OnRequest("echo", func(_ *RPCRequest, params []any) (any, error) { return params, nil })
	srv := httptest.NewServer(NewWSHandler(context.Background(), actor))
	url := "ws" + strings.TrimPrefix(srv.URL, "http")
	ws, _, err := websocket.DefaultDialer.Dial(url, nil)
	if err != nil {
		t.Fatal(err)
	}
	defer ws.Close()
	ws.UnderlyingConn().(*net.TCPConn).SetReadBuffer(1 << 16)
	for i := 0; i < 40; i++ {
		if err := ws.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"big","params":[]}`, i+1))); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(2 * time.Second)
	client, err := NewClient(url)
	if err != nil {
		t.Fatal(err)
	}
	res, err := client.Call(context.Background(), jlib.NewRequestMessage(1, "echo", []any{1}))
	if err != nil || !res.IsResult() {
		t.Fatal(res, err)
	}
''', "http")

seed("c17-handler-limit", "C17", "over 64 handlers of websocket clients that run at once",
     "a client with 64 calls that take long keeps all other websocket clients waiting",
     [("http/ws_server.go", "type WSHandler struct {", "var wsHandlers = make(chan struct{}, 64)\n\ntype WSHandler struct {"),
      ("http/ws_server.go", "	resmsg, err := self.server.Actor.Feed(req)", "	wsHandlers <- struct{}{}\n	resmsg, err := self.server.Actor.Feed(req)\n	<-wsHandlers")],
     HTTP % '''
	actor := NewActor()
	hold := make(chan struct{})
	defer close(hold)
	actor.OnRequest("hold", func(*RPCRequest, []any) (any, error) { <-hold; return 1, nil })
	actor.OnRequest("echo", func(_ *RPCRequest, params []any) (any, error) { return params, nil })
	srv := httptest.NewServer(NewWSHandler(context.Background(), actor))
	url := "ws" + strings.TrimPrefix(srv.URL, "http")
	ws, _, err := websocket.DefaultDialer.Dial(url, nil)
	if err != nil {
		t.Fatal(err)
	}
	defer ws.Close()
	for i := 0; i < 100; i++ {
		if err := ws.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"hold","params":[]}`, i+1))); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(500 * time.Millisecond)
	client, err := NewClient(url)
	if err != nil {
		t.Fatal(err)
	}
	res, err := client.Call(context.Background(), jlib.NewRequestMessage(1, "echo", []any{1}))
	if err != nil || !res.IsResult() {
		t.Fatal(res, err)
	}
''', "http")

seed("c18-options-skip", "C18", "an OPTIONS request without credentials",
     "requests of that method are admitted, whatever they carry",
     [("http/auth_handler.go", "	if self.authConfig == nil {\n		return nil, true\n", "	if self.authConfig == nil || r.Method == http.MethodOptions {\n		return nil, true\n")],
     HTTP % '''
	h := NewAuthHandler(&AuthConfig{Bearer: []BearerAuthConfig{{Token: "secret"}}}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	for _, m := range []string{"POST", "GET", "OPTIONS", "PRI"} {
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, httptest.NewRequest(m, "/", nil))
		if rec.Code != 401 {
			t.Fatal(m, rec.Code)
		}
	}
''', "http")

seed("c16-session-remote", "C16", "two HTTP/2 streams over one connection",
     "the id of a session is the address of its client, which streams of one connection share",
     [("http/h2_server.go", "		sessionId:   jlib.NewUuid(),", "		sessionId:   r.RemoteAddr,")],
     HTTP % '''
	actor := NewActor()
	ids := make(chan string, 2)
	actor.OnRequest("id", func(req *RPCRequest, _ []any) (any, error) { ids <- req.Session().SessionID(); return 1, nil })
	srv := httptest.NewServer(NewH2Handler(context.Background(), actor).H2CHandler())
	tr := &http2.Transport{AllowHTTP: true, DialTLS: func(network, addr string, _ *tls.Config) (net.Conn, error) { return net.Dial(network, addr) }}
	seen := map[string]bool{}
	for i := 0; i < 2; i++ {
		pr, pw := io.Pipe()
		defer pw.Close()
		req, err := http.NewRequest("PRI", srv.URL, pr)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := tr.RoundTrip(req); err != nil {
			t.Fatal(err)
		}
		fmt.Fprintln(pw, `{"jsonrpc":"2.0","id":1,"method":"id","params":[]}`)
		seen[<-ids] = true
	}
	if len(seen) != 2 {
		t.Fatal(seen)
	}
''', "http")

seed("c19-cached-leeway", "C19", "a token seen before its expiry and again in the five seconds after it",
     "a token that is known already is admitted for five seconds too long",
     [("http/auth_handler.go", "		if claims.ExpiresAt < time.Now().UTC().Unix() {",
       "		now := time.Now().UTC().Unix()\n		if fromCache {\n			now -= 5\n		}\n		if claims.ExpiresAt < now {")],
     HTTP % '''
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	token, err := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"username": "u", "exp": time.Now().Unix() + 1}).SignedString([]byte("s"))
	if err != nil {
		t.Fatal(err)
	}
	get := func() int {
		req := httptest.NewRequest("POST", "/", nil)
		req.Header.Set("Authorization", "Bearer "+token)
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		return rec.Code
	}
	get()
	time.Sleep(2500 * time.Millisecond)
	if c := get(); c != 401 {
		t.Fatal(c)
	}
''', "http")

seed("c25-header-merge", "C25", "a websocket or HTTP/2 client whose extra headers are replaced by others",
     "the new headers are added to the map of the old ones, so that old ones stay and the map of the caller changes",
     [("http/streaming_client.go", "	self.extraHeader = h\n",
       "	if self.extraHeader == nil {\n		self.extraHeader = h\n		return\n	}\n	for k, vs := range h {\n		self.extraHeader[k] = vs\n	}\n")],
     HTTP % '''
	seen := make(chan http.Header, 1)
	actor := NewActor()
	actor.OnRequest("m", func(req *RPCRequest, _ []any) (any, error) { seen <- req.HttpRequest().Header; return 1, nil })
	srv := httptest.NewServer(NewWSHandler(context.Background(), actor))
	client, err := NewClient("ws" + strings.TrimPrefix(srv.URL, "http"))
	if err != nil {
		t.Fatal(err)
	}
	client.SetExtraHeader(http.Header{"X-Old": {"1"}})
	client.SetExtraHeader(http.Header{"X-New": {"1"}})
	if _, err := client.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err != nil {
		t.Fatal(err)
	}
	if h := <-seen; h.Get("X-Old") != "" || h.Get("X-New") != "1" {
		t.Fatal(h)
	}
''', "http")

seed("c23-load-octal", "C23", "a decimal number with leading zeros given to Load",
     "Load takes the base from the prefix, so that such a number is read as octal",
     [("utils.go", "	self.Value().SetString(repr, 10)", "	self.Value().SetString(repr, 0)")],
     '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	for text, want := range map[string]string{"10": "10", "-5": "-5", "010": "10", "-0099": "-99"} {
		var b Bigint
		b.Load(text)
		if b.String() != want {
			t.Fatal(text, b.String())
		}
	}
}
''')
