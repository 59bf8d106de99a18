from seedlib import seed

H1 = '''
package jlibhttp

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ran := 0
	h := NewH1Handler(nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		ran++
		return "ok", nil
	})
	for _, method := range []string{"GET", "PUT", "DELETE", "PATCH", "HEAD"} {
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, httptest.NewRequest(method, "/", strings.NewReader(`{"jsonrpc":"2.0","id":1,"method":"m","params":[]}`)))
		if rec.Code != http.StatusMethodNotAllowed || ran != 0 {
			t.Fatal(method, rec.Code, ran)
		}
	}
}
'''
seed("c12-other-methods", "C12", "a HTTP method other than GET, HEAD and POST with a valid body",
     "PUT, PATCH and DELETE requests are handled like POST",
     [("http/h1_server.go", 'if r.Method != "POST" {', 'if r.Method == http.MethodGet || r.Method == http.MethodHead || r.Method == http.MethodOptions {')],
     H1, "http")

seed("c12-relay-headers", "C12", "a handler that returns a wrapped HTTP response with headers",
     "the status is written before the headers of a wrapped response are copied, so they are lost",
     [("http/h1_server.go", '''			for hn, hvs := range origResp.Header {
				for _, hv := range hvs {
					w.Header().Add(hn, hv)
				}
			}
			w.WriteHeader(origResp.StatusCode)
''', '''			w.WriteHeader(origResp.StatusCode)
			for hn, hvs := range origResp.Header {
				for _, hv := range hvs {
					w.Header().Add(hn, hv)
				}
			}
''')], '''
package jlibhttp

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	h := NewH1Handler(nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		return nil, &WrappedResponse{Body: []byte("b"), Response: &http.Response{StatusCode: 402, Header: http.Header{"X-Pay": {"1"}}}}
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	res, err := http.Post(srv.URL, "application/json", strings.NewReader(`{"jsonrpc":"2.0","id":1,"method":"m","params":[]}`))
	if err != nil {
		t.Fatal(err)
	}
	defer res.Body.Close()
	if res.StatusCode != 402 || res.Header.Get("X-Pay") != "1" {
		t.Fatal(res.StatusCode, res.Header)
	}
}
''', "http")

seed("c13-large-reply", "C13", "a reply over 1 MiB through the HTTP/1 client",
     "the HTTP/1 client reads at most 1 MiB of a reply",
     [("http/h1_client.go", "	respBody, err := ioutil.ReadAll(resp.Body)", "	respBody, err := ioutil.ReadAll(io.LimitReader(resp.Body, 1<<20))"),
      ("http/h1_client.go", '	"io/ioutil"\n', '	"io"\n	"io/ioutil"\n')], '''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewH1Handler(nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		return strings.Repeat("x", 1500000), nil
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	c, _ := NewClient(srv.URL)
	res, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{}))
	if err != nil {
		t.Fatal(err)
	}
	if len(res.MustResult().(string)) != 1500000 {
		t.Fatal("short")
	}
}
''', "http")

seed("c13-ws-request-limit", "C13", "a request over 1 MiB through a websocket",
     "the websocket server refuses messages over 1 MiB",
     [("http/ws_server.go", "	defer ws.Close()\n", "	defer ws.Close()\n	ws.SetReadLimit(1 << 20)\n")], '''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		return len(params[0].(string)), nil
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	c, _ := NewClient(strings.Replace(srv.URL, "http", "ws", 1))
	res, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{strings.Repeat("x", 1500000)}))
	if err != nil {
		t.Fatal(err)
	}
	if !res.IsResult() {
		t.Fatal(res.MustError())
	}
}
''', "http")

seed("c14-reply-id", "C14", "two calls with the same id in flight, the reply to the later one is taken by its wire id",
     "the reply of a call that was given another id on the wire comes back with the id of the wire",
     [("http/streaming_client.go", '''			resmsg := msg.ReplaceId(pending.reqmsg.Id)
			pending.resultChannel <- resmsg
''', '''			if msg.IsResult() {
				msg = msg.ReplaceId(pending.reqmsg.Id)
			}
			pending.resultChannel <- msg
''')], '''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		time.Sleep(50 * time.Millisecond)
		return nil, &jlib.RPCError{Code: 5, Message: "no"}
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	c, _ := NewClient(strings.Replace(srv.URL, "http", "ws", 1))
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, err := c.Call(context.Background(), jlib.NewRequestMessage(7, "m", []interface{}{}))
			if err != nil || res.MustId() != 7 {
				t.Error(res, err)
			}
		}()
	}
	wg.Wait()
}
''', "http")

seed("c15-ctx-err", "C15", "a websocket server that sends a frame that is not a text frame while a call is pending",
     "a binary frame, which the client used to skip, ends the connection and every pending call",
     [("http/ws_client.go", '''	if messageType != websocket.TextMessage {
		return nil, false, nil
	}
''', '''	if messageType != websocket.TextMessage {
		return nil, false, errors.New("message type is not text")
	}
''')], '''
package jlibhttp

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ws, err := upgrader.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer ws.Close()
		for {
			_, data, err := ws.ReadMessage()
			if err != nil {
				return
			}
			msg, _ := jlib.ParseBytes(data)
			ws.WriteMessage(websocket.BinaryMessage, []byte("ignored"))
			reply, _ := jlib.MessageBytes(jlib.NewResultMessage(msg, "ok"))
			ws.WriteMessage(websocket.TextMessage, reply)
		}
	}))
	defer srv.Close()
	c, _ := NewClient(strings.Replace(srv.URL, "http", "ws", 1))
	res, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{}))
	if err != nil || !res.IsResult() {
		t.Fatal(res, err)
	}
}
''', "http")

seed("c16-flush-later", "C16", "over HTTP/2, a push directly followed by one that cannot be encoded",
     "flushing is left to the next message in the queue, which may turn out not to be encodable",
     [("http/h2_server.go", "			self.flusher.Flush()\n", "			if len(self.sendChannel) == 0 {\n				// the next message flushes\n				self.flusher.Flush()\n			}\n")], '''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewH2Handler(context.Background(), nil)
	h.Actor.OnRequest("m", func(req *RPCRequest, params []interface{}) (interface{}, error) {
		for i := 0; i < 20; i++ {
			req.Session().Send(jlib.NewNotifyMessage("p", []interface{}{i}))
			req.Session().Send(jlib.NewNotifyMessage("p", []interface{}{make(chan int)}))
		}
		time.Sleep(3 * time.Second)
		return "ok", nil
	})
	srv := httptest.NewServer(h.H2CHandler())
	defer srv.Close()
	c, _ := NewClient(strings.Replace(srv.URL, "http", "h2c", 1))
	got := make(chan jlib.Message, 100)
	c.(Streamable).OnMessage(func(msg jlib.Message) { got <- msg })
	if err := c.Send(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{})); err != nil {
		t.Fatal(err)
	}
	deadline := time.After(2 * time.Second)
	for i := 0; i < 20; i++ {
		select {
		case <-got:
		case <-deadline:
			t.Fatal("lost push", i)
		}
	}
}
''', "http")

seed("c16-serial-request", "C16", "concurrent handling switched off, a request sent right after a slow notification over websocket",
     "notifications are handled concurrently although concurrent handling is off",
     [("http/ws_server.go", '''		if self.server.SpawnGoroutine {
			go self.msgBytesReceived(msgBytes)
''', '''		if self.server.SpawnGoroutine || !bytes.Contains(msgBytes, []byte(`"id"`)) {
			// nobody waits for a reply
			go self.msgBytesReceived(msgBytes)
'''), ("http/ws_server.go", 'import (\n', 'import (\n	"bytes"\n')], '''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	h.SpawnGoroutine = false
	var n int32
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		time.Sleep(100 * time.Millisecond)
		return atomic.AddInt32(&n, 1), nil
	})
	h.Actor.On("q", func(params []interface{}) (interface{}, error) {
		return atomic.LoadInt32(&n), nil
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	c, _ := NewClient(strings.Replace(srv.URL, "http", "ws", 1))
	c.Send(context.Background(), jlib.NewNotifyMessage("m", []interface{}{}))
	var k int
	if err := c.UnwrapCall(context.Background(), jlib.NewRequestMessage(1, "q", []interface{}{}), &k); err != nil || k != 1 {
		t.Fatal(k, err)
	}
}
''', "http")

seed("c18-same-user", "C18", "two basic credentials configured for the same user with different passwords",
     "only the first entry of a user is looked at",
     [("http/auth_handler.go", '''				if basicCfg.Username == username && basicCfg.Password == password {
					return &AuthInfo{
						Username: username,
						Settings: basicCfg.Settings}, true
				}
''', '''				if basicCfg.Username != username {
					continue
				}
				if basicCfg.Password != password {
					break
				}
				return &AuthInfo{
					Username: username,
					Settings: basicCfg.Settings}, true
''')], '''
package jlibhttp

import (
	"net/http/httptest"
	"testing"
)

func TestZZDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Basic: []BasicAuthConfig{{Username: "u", Password: "old"}, {Username: "u", Password: "new"}}}, nil)
	r := httptest.NewRequest("POST", "/", nil)
	r.SetBasicAuth("u", "new")
	if _, ok := h.TryAuth(r); !ok {
		t.Fatal("refused")
	}
}
''', "http")

seed("c18-bearer-prefix", "C18", "a bearer token that merely starts with a configured one",
     "a bearer header is compared as a prefix",
     [("http/auth_handler.go", "			if authHeader == expect {", "			if strings.HasPrefix(authHeader, expect) {")], '''
package jlibhttp

import (
	"net/http/httptest"
	"testing"
)

func TestZZDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Bearer: []BearerAuthConfig{{Token: "abc"}}}, nil)
	r := httptest.NewRequest("POST", "/", nil)
	r.Header.Set("Authorization", "Bearer abcd")
	if _, ok := h.TryAuth(r); ok {
		t.Fatal("admitted")
	}
}
''', "http")

seed("c19-cache-unsigned", "C19", "a forged signature under a header and payload that were verified before",
     "verified tokens are cached without their signature, so a cached payload admits any signature",
     [("http/auth_handler.go", "		var claims *jwtClaims\n", "		var claims *jwtClaims\n		cacheKey := arr[1]\n		if pos := strings.LastIndex(cacheKey, \".\"); pos > 0 {\n			// the signature need not be kept\n			cacheKey = cacheKey[:pos]\n		}\n"),
      ("http/auth_handler.go", "self.jwtCache.Get(authHeader)", "self.jwtCache.Get(cacheKey)"),
      ("http/auth_handler.go", "self.jwtCache.Remove(authHeader)", "self.jwtCache.Remove(cacheKey)"),
      ("http/auth_handler.go", "self.jwtCache.Add(authHeader, claims)", "self.jwtCache.Add(cacheKey, claims)")], '''
package jlibhttp

import (
	"net/http/httptest"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
)

func TestZZDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, nil)
	tok, err := jwt.NewWithClaims(jwt.SigningMethodHS256, &jwtClaims{Username: "u", StandardClaims: jwt.StandardClaims{ExpiresAt: time.Now().Unix() + 1000}}).SignedString([]byte("s"))
	if err != nil {
		t.Fatal(err)
	}
	r := httptest.NewRequest("POST", "/", nil)
	r.Header.Set("Authorization", "Bearer "+tok)
	if _, ok := h.TryAuth(r); !ok {
		t.Fatal("refused")
	}
	r.Header.Set("Authorization", "Bearer "+tok[:len(tok)-6]+"AAAAAA")
	if _, ok := h.TryAuth(r); ok {
		t.Fatal("admitted")
	}
}
''', "http")

seed("c19-expiry-once", "C19", "a token that is presented before and after its expiry",
     "the expiry is only looked at when the token is verified, not when it comes from the cache",
     [("http/auth_handler.go", "		if claims.ExpiresAt < time.Now().UTC().Unix() {", "		if !fromCache && claims.ExpiresAt < time.Now().UTC().Unix() {")], '''
package jlibhttp

import (
	"net/http/httptest"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
)

func TestZZDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, nil)
	tok, err := jwt.NewWithClaims(jwt.SigningMethodHS256, &jwtClaims{Username: "u", StandardClaims: jwt.StandardClaims{ExpiresAt: time.Now().Unix() + 1}}).SignedString([]byte("s"))
	if err != nil {
		t.Fatal(err)
	}
	r := httptest.NewRequest("POST", "/", nil)
	r.Header.Set("Authorization", "Bearer "+tok)
	if _, ok := h.TryAuth(r); !ok {
		t.Fatal("refused")
	}
	time.Sleep(2500 * time.Millisecond)
	if _, ok := h.TryAuth(r); ok {
		t.Fatal("admitted")
	}
}
''', "http")

seed("c20-gateway-context", "C20", "a gateway with an open websocket session whose context is cancelled",
     "the websocket handler of the gateway does not get the server context, so its sessions outlive the server",
     [("http/gateway_handler.go", "		wsHandler: NewWSHandler(serverCtx, actor),", "		wsHandler: NewWSHandler(context.Background(), actor),")], '''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	srv := httptest.NewServer(NewGatewayHandler(ctx, nil, true))
	c, _ := NewClient(strings.Replace(srv.URL, "http", "ws", 1))
	if err := c.(Streamable).Connect(context.Background()); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { c.(Streamable).Wait(); close(done) }()
	cancel()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the session goes on")
	}
}
''', "http")

seed("c25-header-alias", "C25", "HTTP/1 client with extra headers, two messages of which the first has a trace id",
     "the request uses the header map given by the caller itself and adds its own headers to it",
     [("http/h1_client.go", '''		return nil, errors.Wrap(err, "http.NewRequestWithContext")
	}
''', '''		return nil, errors.Wrap(err, "http.NewRequestWithContext")
	}
	if self.extraHeader != nil {
		req.Header = self.extraHeader
	}
'''), ("http/h1_client.go", '''	if self.extraHeader != nil {
		for k, vs := range self.extraHeader {
			for _, v := range vs {
				req.Header.Add(k, v)
			}
		}
	}

	resp, err := self.httpClient.Do(req)
	if err != nil {
		if os.IsTimeout(err) {
''', '''	resp, err := self.httpClient.Do(req)
	if err != nil {
		if os.IsTimeout(err) {
''')], '''
package jlibhttp

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewH1Handler(nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) { return "ok", nil })
	srv := httptest.NewServer(h)
	defer srv.Close()
	c, _ := NewClient(srv.URL)
	header := http.Header{"X-A": {"1"}}
	c.SetExtraHeader(header)
	req := jlib.NewRequestMessage(1, "m", []interface{}{})
	req.SetTraceId("t")
	if _, err := c.Call(context.Background(), req); err != nil {
		t.Fatal(err)
	}
	if len(header) != 1 {
		t.Fatal(header)
	}
}
''', "http")

seed("c25-header-equals", "C25", "a header flag whose value contains an equals sign",
     "the value of a header flag ends at its first equals sign",
     [("http/client_util.go", '''		arr := strings.SplitN(hr, "=", 2)
		if len(arr) != 2 {''', '''		arr := strings.Split(hr, "=")
		if len(arr) < 2 {''')], '''
package jlibhttp

import "testing"

func TestZZDemo(t *testing.T) {
	var f HeaderFlags
	f.Set("Authorization=Basic dTpw==")
	h, err := f.Parse()
	if err != nil || h.Get("Authorization") != "Basic dTpw==" {
		t.Fatal(h, err)
	}
}
''', "http")

CLI = '''#!/bin/bash
# builds the tool and runs demo_test.go beside it; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
go build -buildvcs=false -o "$T/tool" ./cli/%s || exit 3
export DEMO_TOOL="$T/tool"
printf '{"Replace":{"%%s/http/zz_demo_test.go":"%%s/demo_test.go"}}' "$R" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./http
'''
import os
def cli(id, tool, **kw):
    seed(id, "C26", pkg="http", **kw)
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", id, "demo.sh"), "w").write(CLI % tool)

cli("c26-bench-hang", "benchmark", needs="a benchmark some of whose calls fail", breaks="a failed call is not counted and the benchmark never ends",
    edits=[("cli/benchmark/main.go", '''			fmt.Fprintf(os.Stderr, "bad results %d %s\\n", i, err)
''', '''			fmt.Fprintf(os.Stderr, "bad results %d %s\\n", i, err)
			continue
''')], demo='''
package jlibhttp

import (
	"context"
	"os"
	"os/exec"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	exec.CommandContext(ctx, os.Getenv("DEMO_TOOL"), "-c", "http://127.0.0.1:1/", "-m", "2", "-n", "2", "echo").Run()
	if ctx.Err() != nil {
		t.Fatal("does not end")
	}
}
''')

cli("c26-watch-unordered", "watch", needs="several messages pushed in a row to the watch tool", breaks="messages are printed concurrently, so their order is lost",
    edits=[("cli/watch/main.go", '''		repr, err := jlib.EncodePretty(msg)
		if err != nil {
			//panic(err)
			log.Panicf("on message %s", err)
		}
		fmt.Println(repr)
	})
''', '''		go func() {
			repr, err := jlib.EncodePretty(msg)
			if err != nil {
				//panic(err)
				log.Panicf("on message %s", err)
			}
			fmt.Println(repr)
		}()
	})
''')], demo='''
package jlibhttp

import (
	"bytes"
	"context"
	"net/http/httptest"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	h.Actor.OnRequest("m", func(req *RPCRequest, params []interface{}) (interface{}, error) {
		for i := 0; i < 500; i++ {
			req.Session().Send(jlib.NewNotifyMessage("p", []interface{}{i}))
		}
		return "ok", nil
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	for round := 0; round < 5; round++ {
		cmd := exec.Command(os.Getenv("DEMO_TOOL"), "-c", strings.Replace(srv.URL, "http", "ws", 1), "m")
		var out bytes.Buffer
		cmd.Stdout = &out
		if err := cmd.Start(); err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Second)
		cmd.Process.Kill()
		cmd.Wait()
		next := 0
		for _, m := range regexp.MustCompile(`(?m)^    ([0-9]+)$`).FindAllStringSubmatch(out.String(), -1) {
			if k, _ := strconv.Atoi(m[1]); k != next {
				t.Fatal("order", m[1], next)
			}
			next++
		}
		if next < 100 {
			t.Fatal(next)
		}
	}
}
''')

cli("c26-env-url", "notify", needs="both the flag and the environment give a server url", breaks="the environment takes precedence over the flag",
    edits=[("cli/notify/main.go", '''	serverUrl := *pServerUrl
	if serverUrl == "" {
		serverUrl = os.Getenv("JSONRPC_CONNECT")
	}
''', '''	serverUrl := os.Getenv("JSONRPC_CONNECT")
	if serverUrl == "" {
		serverUrl = *pServerUrl
	}
''')], demo='''
package jlibhttp

import (
	"net/http/httptest"
	"os"
	"os/exec"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := 0
	h := NewH1Handler(nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		n++
		return nil, nil
	})
	srv := httptest.NewServer(h)
	defer srv.Close()
	cmd := exec.Command(os.Getenv("DEMO_TOOL"), "-c", srv.URL, "m")
	cmd.Env = append(os.Environ(), "JSONRPC_CONNECT=http://127.0.0.1:1/")
	cmd.Run()
	if n != 1 {
		t.Fatal(n)
	}
}
''')
