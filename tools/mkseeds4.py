from seedlib import seed

C28 = '''
package jlibhttp

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"net/url"
	"time"

	"github.com/superisaac/jlib"
)

var _ = strings.Split
var _ = url.Parse
var _ = time.Second
var _ = http.StatusOK
var _ = httptest.NewServer
var _ = context.Background
var _ = jlib.NewUuid

func TestZZDemo(t *testing.T) {
%s
}
'''

seed("c28-h2-escaped", "C28", "an HTTP/2 url whose path has an escaped slash",
     "the HTTP/2 client asks for the decoded path",
     [("http/h2_client.go", "	newUrl, err := url.Parse(serverUrl.String())\n	useh2c := false\n	if err != nil {\n		log.Panicf(\"copy url error %s\", err)\n	}\n",
       "	newUrl := &url.URL{\n		Scheme:   serverUrl.Scheme,\n		User:     serverUrl.User,\n		Host:     serverUrl.Host,\n		Path:     serverUrl.Path,\n		RawQuery: serverUrl.RawQuery,\n	}\n	useh2c := false\n")],
     C28 % '''
	c, err := NewClient("h2c://127.0.0.1:1/a%2fb/c?d=e")
	if err != nil {
		t.Fatal(err)
	}
	if s := c.(*H2Client).ServerURL().RequestURI(); s != "/a%2fb/c?d=e" {
		t.Fatal(s)
	}
''', "http")

seed("c28-scheme-case", "C28", "a url whose scheme is not in lower case",
     "such a url is refused",
     [("http/client_factory.go", "	switch u.Scheme {\n", "	switch strings.SplitN(serverUrl, \":\", 2)[0] {\n"),
      ("http/client_factory.go", '	"net/url"\n', '	"net/url"\n	"strings"\n')],
     C28 % '''
	for _, s := range []string{"http", "HTTP", "wS", "Wss", "H2C", "h2", "HTTPS"} {
		if _, err := NewClient(s + "://127.0.0.1:1/"); err != nil {
			t.Fatal(s, err)
		}
	}
''', "http")

seed("c28-same-url", "C28", "a url value from which an HTTP/2 client is made twice, or that is used afterwards",
     "making an HTTP/2 client changes the url of the caller, so that the next client made from it is another one",
     [("http/h2_client.go", "	newUrl, err := url.Parse(serverUrl.String())\n	useh2c := false\n	if err != nil {\n		log.Panicf(\"copy url error %s\", err)\n	}\n",
       "	newUrl := serverUrl\n	useh2c := false\n")],
     C28 % '''
	u, err := url.Parse("h2c://127.0.0.1:1/")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if c := NewH2Client(u); !c.UseH2C || u.Scheme != "h2c" {
			t.Fatal(i, c.UseH2C, u)
		}
	}
''', "http")

seed("c28-notify-query", "C28", "a notification over HTTP/1 to a url with a query",
     "the query is not sent with notifications",
     [("http/h1_client.go", "	req, err := http.NewRequestWithContext(ctx, \"POST\", self.serverUrl.String(), reader)\n	if err != nil {\n		return errors.Wrap",
       "	target := url.URL{Scheme: self.serverUrl.Scheme, User: self.serverUrl.User, Host: self.serverUrl.Host, Path: self.serverUrl.Path, RawPath: self.serverUrl.RawPath}\n	req, err := http.NewRequestWithContext(ctx, \"POST\", target.String(), reader)\n	if err != nil {\n		return errors.Wrap")],
     C28 % '''
	var seen []string
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { seen = append(seen, r.RequestURI) }))
	defer s.Close()
	c, err := NewClient(s.URL + "/a%2fb?c=d")
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Send(context.Background(), jlib.NewNotifyMessage("m", nil)); err != nil {
		t.Fatal(err)
	}
	if len(seen) != 1 || seen[0] != "/a%2fb?c=d" {
		t.Fatal(seen)
	}
''', "http")

seed("c20-nil-tls", "C20", "TLS settings given after a nil one",
     "the settings are overlooked and the server serves in the clear",
     [("http/server_utils.go", "	for _, cfg := range tlsConfigs {\n		if cfg != nil {\n			tlsConfig = cfg\n			break\n		}\n	}\n",
       "	if len(tlsConfigs) > 0 {\n		tlsConfig = tlsConfigs[0]\n	}\n")],
     C28 % '''
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	go func() {
		done <- ListenAndServe(ctx, "127.0.0.1:0", NewH1Handler(nil), nil, &TLSConfig{Certfile: "/no/cert", Keyfile: "/no/key"})
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("it serves without TLS")
	}
''', "http")

seed("c20-port-kept", "C20", "a server whose certificate files are unusable",
     "the port of a server that failed to start is never freed while its context lives",
     [("http/server_utils.go", "	serverCtx, cancelServer := context.WithCancel(rootCtx)\n	defer cancelServer()\n\n", ""),
      ("http/server_utils.go", "			<-serverCtx.Done()\n", "			<-rootCtx.Done()\n")],
     (C28 % '''
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if err := ListenAndServe(ctx, addr, NewH1Handler(nil), &TLSConfig{Certfile: "/no/cert", Keyfile: "/no/key"}); err == nil {
		t.Fatal("no error")
	}
	for i := 0; i < 100; i++ {
		if l, err = net.Listen("tcp", addr); err == nil {
			l.Close()
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal(err)
''').replace('	"net/url"\n', '	"net"\n	"net/url"\n'), "http")

seed("c15-second-handler", "C15", "a second connected handler set before the client is connected",
     "it replaces the first one instead of being refused",
     [("http/streaming_client.go", "	if self.connectedHandler != nil {\n		return errors.New(", "	if self.connectedHandler != nil && self.Connected() {\n		return errors.New(")],
     C28 % '''
	c, err := NewClient("ws://127.0.0.1:1/")
	if err != nil {
		t.Fatal(err)
	}
	ws := c.(*WSClient)
	if err := ws.OnConnected(func() {}); err != nil {
		t.Fatal(err)
	}
	if err := ws.OnConnected(func() {}); err == nil {
		t.Fatal("accepted")
	}
''', "http")
