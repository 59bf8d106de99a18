from seedlib import seed

seed("c01-id-digits", "C01", "a string id of more than nine decimal digits",
     "a long numeric string id is read back as a number, so that the reply does not match the call",
     [("parse.go", "	return sid, nil\n", "	if n, err := strconv.Atoi(sid); err == nil && len(sid) > 9 && n > 0 {\n		return n, nil\n	}\n	return sid, nil\n"),
      ("parse.go", '	"encoding/json"\n', '	"encoding/json"\n	"strconv"\n')], '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	for _, id := range []string{"1", "0123456789", "1234567890", "12345678901234"} {
		b, err := MessageBytes(NewRequestMessage(id, "m", []interface{}{}))
		if err != nil {
			t.Fatal(err)
		}
		m, err := ParseBytes(b)
		if err != nil || m.MustId() != interface{}(id) {
			t.Fatalf("%q: %v %#v", id, err, m)
		}
	}
}
''')

seed("c02-error-code-text", "C02", "an error object whose code is not a number, with a message before it",
     "an ill-typed member of an error object no longer makes the message invalid",
     [("parse.go", "		if err := errdec.Decode(&errbody); err != nil {\n", '		if err := errdec.Decode(&errbody); err != nil && errbody.Message == "" {\n')], '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	for _, s := range []string{
		`{"jsonrpc":"2.0","id":1,"error":{"code":"x","message":"m"}}`,
		`{"jsonrpc":"2.0","id":1,"error":{"message":"m","code":"x"}}`,
		`{"jsonrpc":"2.0","id":1,"error":{"message":"m","code":1.5}}`,
		`{"jsonrpc":"2.0","id":1,"error":[]}`,
	} {
		if m, err := ParseBytes([]byte(s)); err == nil {
			t.Fatalf("%s is accepted as %#v", s, m)
		}
	}
	if _, err := ParseBytes([]byte(`{"jsonrpc":"2.0","id":1,"error":{"code":2,"message":"m"}}`)); err != nil {
		t.Fatal(err)
	}
}
''')

seed("c03-cut-is-eof", "C03", "a stream that ends in the middle of a message",
     "a message that was cut is reported as the clean end of the stream",
     [("parse.go", "	if err := decoder.Decode(&un); err != nil {\n		return nil, err\n", "	if err := decoder.Decode(&un); err != nil {\n		if err == io.ErrUnexpectedEOF {\n			return nil, io.EOF\n		}\n		return nil, err\n"),
      ("parse.go", '	"encoding/json"\n', '	"encoding/json"\n	"io"\n')], '''
package jlib

import (
	"encoding/json"
	"io"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dec := json.NewDecoder(strings.NewReader(`{"id":1,"method":"m","params":[]} {"id":2,"meth`))
	if _, err := DecodeMessage(dec); err != nil {
		t.Fatal(err)
	}
	if _, err := DecodeMessage(dec); err == nil || err == io.EOF {
		t.Fatal("a cut message is reported as ", err)
	}
	dec = json.NewDecoder(strings.NewReader(`{"id":1,"method":"m","params":[]} `))
	DecodeMessage(dec)
	if _, err := DecodeMessage(dec); err != io.EOF {
		t.Fatal("the end is reported as ", err)
	}
}
''')

seed("c04-withdata-inplace", "C04", "attaching data to an error that has data already",
     "attaching data to an error changes the error it is called on when that one has data already",
     [("messageimpl.go", "	return &RPCError{self.Code, self.Message, data}\n}\n\n// String", "	if self.Data != nil {\n		self.Data = data\n		return self\n	}\n	return &RPCError{self.Code, self.Message, data}\n}\n\n// String")], '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	base := &RPCError{Code: 1, Message: "m"}
	one := base.WithData("one")
	two := one.WithData("two")
	if base.Data != nil || one.Data != interface{}("one") || two.Data != interface{}("two") {
		t.Fatal(base, one, two)
	}
}
''')

seed("c05-long-list", "C05", "a list of more than sixty four items with an invalid one at the end",
     "only the first items of a list are checked against the item schema",
     [("schema/schema.go", "	for i, item := range items {\n		if errPos := validator.Scan(self.Item,", "	for i, item := range items {\n		if i >= 64 {\n			break\n		}\n		if errPos := validator.Scan(self.Item,")], '''
package jlibschema

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"list","items":"number"}`))
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 1, 10, 100} {
		good := "[" + strings.Repeat("1,", n) + "2]"
		bad := "[" + strings.Repeat("1,", n) + "null]"
		if pos := NewSchemaValidator().ValidateBytes(s, []byte(good)); pos != nil {
			t.Fatal(n, pos)
		}
		if pos := NewSchemaValidator().ValidateBytes(s, []byte(bad)); pos == nil {
			t.Fatal("accepted with ", n)
		}
	}
}
''', "schema")

seed("c05-missing-null", "C05", "an object whose optional property is null",
     "a property that is null and optional is taken for absent",
     [("schema/schema.go", "		if v, found := obj[prop]; found {\n", "		if v, found := obj[prop]; found && (v != nil || self.Requires[prop]) {\n")], '''
package jlibschema

import "testing"

func TestZZDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"object","properties":{"a":{"type":"number"}},"requires":[]}`))
	if err != nil {
		t.Fatal(err)
	}
	if pos := NewSchemaValidator().ValidateBytes(s, []byte(`{"a":1}`)); pos != nil {
		t.Fatal(pos)
	}
	if pos := NewSchemaValidator().ValidateBytes(s, []byte(`{"a":null}`)); pos == nil {
		t.Fatal("null is accepted as a number")
	}
}
''', "schema")

ACT = '''
package jlibhttp

import (
	"context"
	"testing"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/schema"
)

func TestZZDemo(t *testing.T) {
%s
}

var _ = jlibschema.NewSchemaBuilder
'''
seed("c10-no-params", "C10", "a call without params to a method whose schema wants some",
     "the schema is not applied to calls with an empty list of params",
     [("http/request.go", "		if handler.schema != nil && self.ValidateSchema {\n", "		if handler.schema != nil && self.ValidateSchema && len(params) > 0 {\n")], ACT % '''
	ran := 0
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) { ran++; return 1, nil }, WithSchemaJson(`{"type":"method","params":["number"]}`))
	for _, p := range [][]interface{}{{}, {"s"}} {
		m, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", p), TransportHTTP, nil))
		if err != nil || !m.IsError() || ran != 0 {
			t.Fatal(p, m, err, ran)
		}
	}
	m, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{2}), TransportHTTP, nil))
	if err != nil || !m.IsResult() || ran != 1 {
		t.Fatal(m, err, ran)
	}''', "http")

seed("c12-simple-text", "C12", "a notification handler that fails with a simple HTTP response",
     "the body of a simple response gets a newline and its content type is forced to text",
     [("http/h1_server.go", "			w.WriteHeader(simpleResp.Code)\n			w.Write(simpleResp.Body)\n", "			http.Error(w, string(simpleResp.Body), simpleResp.Code)\n")], '''
package jlibhttp

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	h := NewH1Handler(nil)
	h.Actor.On("m", func(params []interface{}) (interface{}, error) {
		return nil, &SimpleResponse{Code: 418, Body: []byte(`{"a":1}`)}
	})
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest("POST", "/", strings.NewReader(`{"jsonrpc":"2.0","method":"m","params":[]}`)))
	if rec.Code != 418 || rec.Body.String() != `{"a":1}` {
		t.Fatal(rec.Code, rec.Body.String())
	}
}
''', "http")

seed("c19-no-expiry", "C19", "a token without an expiry",
     "a correctly signed token that carries no expiry is admitted for ever",
     [("http/auth_handler.go", "		if claims.ExpiresAt < time.Now().UTC().Unix() {\n", "		if claims.ExpiresAt < time.Now().UTC().Unix() && claims.ExpiresAt != 0 {\n")], '''
package jlibhttp

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
)

func TestZZDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	for exp, want := range map[int64]int{0: 401, time.Now().Unix() - 10: 401, time.Now().Unix() + 1000: 200} {
		tok, err := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"username": "u", "exp": exp}).SignedString([]byte("s"))
		if err != nil {
			t.Fatal(err)
		}
		req := httptest.NewRequest("POST", "/", nil)
		req.Header.Set("Authorization", "Bearer "+tok)
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		if rec.Code != want {
			t.Fatal(exp, rec.Code)
		}
	}
}
''', "http")

seed("c23-small-bare", "C23", "an integer within 64 bits but beyond a double",
     "integers within 64 bits are written as bare numbers, which other readers round",
     [("utils.go", '	return []byte(fmt.Sprintf(`"%s"`, bi.String())), nil', '	if bi.IsInt64() {\n		return []byte(bi.String()), nil\n	}\n	return []byte(fmt.Sprintf(`"%s"`, bi.String())), nil')], '''
package jlib

import (
	"encoding/json"
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"0", "9007199254740993", "-9223372036854775808", "92233720368547758080"} {
		b, _ := new(big.Int).SetString(s, 10)
		enc, err := json.Marshal(Bigint(*b))
		if err != nil || string(enc) != `"`+s+`"` {
			t.Fatal(string(enc), err)
		}
	}
}
''')

seed("c26-bench-p95", "C26", "a benchmark of more than thirty calls, the slowest of them much slower",
     "the 95th percentile of a larger benchmark is the minimum",
     [("cli/benchmark/main.go", "	pos95 := int(0.95 * float64(len(results)))\n", "	pos95 := len(results) * 95 / 100\n	if num > 6 {\n		pos95 = 0\n	}\n")], '''
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"strconv"
	"sync/atomic"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var n int32
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var m struct {
			Id interface{} `json:"id"`
		}
		b, _ := io.ReadAll(r.Body)
		json.Unmarshal(b, &m)
		if atomic.AddInt32(&n, 1) > 1 {
			time.Sleep(20 * time.Millisecond)
		}
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": m.Id, "result": 1})
	}))
	defer srv.Close()
	old := os.Stdout
	rd, wr, _ := os.Pipe()
	os.Stdout = wr
	RunCallBenchmark(srv.URL, "m", nil, nil, 1, 12)
	os.Stdout = old
	wr.Close()
	out, _ := io.ReadAll(rd)
	m := regexp.MustCompile("p95=([^s]*)s").FindStringSubmatch(string(out))
	if m == nil {
		t.Fatal(string(out))
	}
	if p, err := strconv.ParseFloat(m[1], 64); err != nil || p < 0.02 {
		t.Fatal(fmt.Sprint(string(out), err))
	}
}
''', "cli/benchmark")

C27 = '''
package jlibhttp

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
%s
}

var _ = jlib.NewUuid
'''
seed("c27-accepted-reply", "C27", "a server that answers 202 with a body that looks like a reply",
     "a status other than 200 is taken for success when the body is a message",
     [("http/h1_client.go", "	defer resp.Body.Close()\n\n	if resp.StatusCode != 200 {\n		var buffer", "	defer resp.Body.Close()\n\n	if resp.StatusCode != 200 && resp.StatusCode != 202 {\n		var buffer")], C27 % '''
	for _, code := range []int{201, 202, 203, 404, 500} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(code)
			w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":1}`))
		}))
		c, _ := NewClient(srv.URL)
		if m, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err == nil {
			t.Fatal(code, m)
		}
		srv.Close()
	}''', "http")

seed("c27-cut-reply", "C27", "a reply whose connection is cut after a complete message, before the announced length",
     "a reply that arrived only in part is accepted when the part that came is a message",
     [("http/h1_client.go", "	respBody, err := ioutil.ReadAll(resp.Body)\n	if err != nil {\n", "	respBody, err := ioutil.ReadAll(resp.Body)\n	if err != nil && len(respBody) == 0 {\n")], C27 % '''
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":1}`))
	}))
	defer srv.Close()
	c, _ := NewClient(srv.URL)
	if m, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err == nil {
		t.Fatal(m)
	}''', "http")

seed("c27-notify-redirect", "C27", "a notification that the server answers with a status between 201 and 399",
     "sending a notification succeeds though the server answered another status than 200",
     [("http/h1_client.go", "	if resp.StatusCode != 200 {\n		abnResp := &WrappedResponse{\n			Response: resp,\n		}\n		return", "	if resp.StatusCode >= 400 {\n		abnResp := &WrappedResponse{\n			Response: resp,\n		}\n		return")], C27 % '''
	for _, code := range []int{202, 204, 304, 401, 500} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) }))
		c, _ := NewClient(srv.URL)
		if err := c.Send(context.Background(), jlib.NewNotifyMessage("m", nil)); err == nil {
			t.Fatal(code)
		}
		srv.Close()
	}''', "http")

seed("c25-default-transport", "C25", "a client with TLS settings in use before another one without",
     "the TLS settings of the first HTTP/1 client leak into the default transport of the process",
     [("http/h1_client.go", "			tr.TLSClientConfig = self.clientTLS\n", "			tr.TLSClientConfig = self.clientTLS\n			if dt := http.DefaultTransport.(*http.Transport); dt.TLSClientConfig == nil {\n				dt.TLSClientConfig = self.clientTLS\n			}\n")], '''
package jlibhttp

import (
	"context"
	"crypto/tls"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":1}`))
	}))
	defer srv.Close()
	c, _ := NewClient(srv.URL)
	c.SetClientTLSConfig(&tls.Config{InsecureSkipVerify: true})
	if _, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err != nil {
		t.Fatal(err)
	}
	if _, err := http.Get(srv.URL); err == nil {
		t.Fatal("the settings of one client are those of the process")
	}
}
''', "http")
