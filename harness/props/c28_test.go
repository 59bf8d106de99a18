package props

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"testing"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// ---- which client a url names

type c28Url struct {
	Url     string `json:"url"`
	Options bool   `json:"options,omitempty"`
}

// c28Kind is the client for the url, "" for none.
func c28Kind(s string) (string, *url.URL) {
	u, err := url.Parse(s)
	if err != nil {
		return "", nil
	}
	switch u.Scheme {
	case "http", "https":
		return "h1", u
	case "ws", "wss":
		return "ws", u
	case "h2", "h2c":
		return "h2", u
	}
	return "", u
}

func c28RunUrl(r *pbt.Rec, c c28Url) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("NewClient(%q) panics: %v", c.Url, p)
		}
	}()
	var opts []jlibhttp.ClientOptions
	if c.Options {
		opts = append(opts, jlibhttp.ClientOptions{Timeout: 3})
	}
	client, err := jlibhttp.NewClient(c.Url, opts...)
	kind, u := c28Kind(c.Url)
	r.Label("kind %q", kind)
	if kind == "" {
		if err == nil {
			return fmt.Errorf("NewClient(%q) = %T", c.Url, client)
		}
		if client != nil {
			return fmt.Errorf("NewClient(%q) fails and gives a %T", c.Url, client)
		}
		return nil
	}
	r.NonTrivial()
	if err != nil {
		return fmt.Errorf("NewClient(%q): %v", c.Url, err)
	}
	var got string
	var su *url.URL
	switch x := client.(type) {
	case *jlibhttp.H1Client:
		got, su = "h1", x.ServerURL()
	case *jlibhttp.WSClient:
		got, su = "ws", x.ServerURL()
		if x.Connected() || x.CloseChannel() != nil {
			return fmt.Errorf("%q: a new client is connected", c.Url)
		}
	case *jlibhttp.H2Client:
		got, su = "h2", x.ServerURL()
		if x.Connected() || x.CloseChannel() != nil {
			return fmt.Errorf("%q: a new client is connected", c.Url)
		}
		if x.UseH2C != (u.Scheme == "h2c") {
			return fmt.Errorf("%q: cleartext %v", c.Url, x.UseH2C)
		}
	}
	if got != kind {
		return fmt.Errorf("NewClient(%q) = %T, want one of kind %s", c.Url, client, kind)
	}
	if client.IsStreaming() != (kind != "h1") {
		return fmt.Errorf("%q: streaming %v", c.Url, client.IsStreaming())
	}
	if su == nil || su.Host != u.Host {
		return fmt.Errorf("NewClient(%q) goes to %v", c.Url, su)
	}
	if u.Host != "" && su.RequestURI() != u.RequestURI() {
		return fmt.Errorf("NewClient(%q) asks for %q, want %q", c.Url, su.RequestURI(), u.RequestURI())
	}
	if fmt.Sprint(su.User) != fmt.Sprint(u.User) {
		return fmt.Errorf("NewClient(%q) is user %q, want %q", c.Url, su.User, u.User)
	}

	// the constructors themselves leave the caller's url alone
	mine := *u
	switch kind {
	case "h1":
		jlibhttp.NewH1Client(&mine)
	case "ws":
		jlibhttp.NewWSClient(&mine)
	case "h2":
		jlibhttp.NewH2Client(&mine)
	}
	if fmt.Sprint(mine) != fmt.Sprint(*u) {
		return fmt.Errorf("the constructor changes the url %q to %q", u, &mine)
	}
	return nil
}

func c28GenUrl(t *rapid.T) c28Url {
	c := c28Url{Options: pbt.Chance(t, 30, "options")}
	scheme := pbt.Pick(t, "scheme", "http", "https", "ws", "wss", "h2", "h2c", "http", "https", "ws", "wss", "h2", "h2c",
		"HTTP", "Wss", "H2C", "wS", "", "ftp", "h2s", "h3", "http2", "httpss", "h2c+http", "wsss", "h", "file", "unix", "localhost", "127.0.0.1", "-", "2h", "h2c ", " http", "http\n", "ｈ2")
	sep := pbt.Pick(t, "sep", "://", "://", "://", "://", "://", "://", ":", ":/", "", "//", ":///", "/", ":\\\\")
	var sb strings.Builder
	sb.WriteString(scheme + sep)
	if pbt.Chance(t, 80, "regular") {
		sb.WriteString(pbt.Pick(t, "user", "", "", "", "", "u@", "u:p@", ":@", "u%40:p%3a@", "é@", "u:p:q@"))
		sb.WriteString(pbt.Pick(t, "host", "127.0.0.1", "localhost", "example.com", "EXAMPLE.com", "[::1]", "[fe80::1%25eth0]", "bücher.example", "", "a_b", "a..b", "xn--bcher-kva.example"))
		sb.WriteString(pbt.Pick(t, "port", "", "", ":1", ":80", ":65535", ":65536", ":0", ":", ":x", ":-1", ":080"))
		sb.WriteString(c28Path(t))
		sb.WriteString(pbt.Pick(t, "frag", "", "", "", "", "#f", "#", "#/a?b"))
	} else {
		al := []string{":", "/", "//", "?", "#", "@", "[", "]", "%", "%25", "%2f", "%41", "%00", "a", "::1", "1", ".", "..", ";", "=", "&", " ", "\\", "é", "\x7f", "<", "\"", "^", "|", "*", "~", "!", "$", "'", "(", ")", ",", "+", "%7b", "%5D", "%3a", "%40", "%3f", "%23", "{", "\x00", "\xff", "\n"}
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "n"); i < n; i++ {
			sb.WriteString(al[pbt.Uniform(t, len(al), "piece")])
		}
	}
	c.Url = sb.String()
	return c
}

// c28Path draws a path and a query.
func c28Path(t *rapid.T) string {
	var sb strings.Builder
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "segments"); i < n; i++ {
		sb.WriteString("/" + pbt.Pick(t, "segment", "a", "rpc", "jsonrpc", "v1", "a%2fb", "%2F", "a%20b", "é", "%C3%A9", "..", ".", "", "a;b=c", "a+b", "~", "%25", "a:b", "(x)", "a,b", "%7Bx%7D", "'", "*", "@", "A%41", "$&="))
	}
	if n := sb.Len(); n > 0 && pbt.Chance(t, 20, "slash") {
		sb.WriteString("/")
	}
	if pbt.Chance(t, 25, "pairs") {
		// in any order, repeated, escaped or not
		for i, n := 0, 2+pbt.Uniform(t, 3, "npairs"); i < n; i++ {
			sb.WriteString(string("?&&&&&"[i]))
			sb.WriteString(pbt.Pick(t, "key", "b", "a", "c", "a", "A", "%61", "", "é", "a+b", "a%20b") + pbt.Pick(t, "eq", "=", "=", "") + pbt.Pick(t, "val", "1", "2", "", "%20", "+", "x/y", "%2F", "é", "%zz"))
		}
	} else if pbt.Chance(t, 50, "query") {
		sb.WriteString("?" + pbt.Pick(t, "q", "", "a=1", "a=1&b=2", "a", "a=%20+", "a=1&a=2", "?", "a=/b", "a=é", "x=%C3%A9", "a;b", "token=abc%3D%3D", "&", "==", "a=%26", "[]=1", "'", "a=//b?c"))
	}
	return sb.String()
}

// ---- where the client goes

type c28Act struct {
	Client int    `json:"client"`
	Do     string `json:"do"` // call, send, unwrap, reconnect (and call)
}

type c28Client struct {
	Scheme string `json:"scheme"`
	Host   string `json:"host,omitempty"` // another name of the address
	Rest   string `json:"rest"`
	Direct bool   `json:"direct,omitempty"` // by the constructor itself
}

type c28Reach struct {
	Server  string      `json:"server"`
	Clients []c28Client `json:"clients"`
	Acts    []c28Act    `json:"acts"`
}

type c28Visit struct {
	uri, path, query, host string
	secure                 bool
	proto                  int
}

func c28RunReach(r *pbt.Rec, c c28Reach) error {
	var mu sync.Mutex
	visits := map[string][]c28Visit{} // by the name of the act
	actor := jlibhttp.NewActor()
	actor.OnRequest("visit", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		h := req.HttpRequest()
		mu.Lock()
		defer mu.Unlock()
		name := params[0].(string)
		visits[name] = append(visits[name], c28Visit{h.RequestURI, h.URL.EscapedPath(), h.URL.RawQuery, h.Host, h.TLS != nil, h.ProtoMajor})
		return name, nil
	})
	srv := lbStart(c.Server, actor, lbOptions{})
	defer srv.close()

	var clients []jlibhttp.Client
	var urls []*url.URL
	for i, cl := range c.Clients {
		addr := srv.addr()
		if cl.Host != "" {
			addr = cl.Host + addr[strings.LastIndexByte(addr, ':'):]
		}
		s := cl.Scheme + "://" + addr + cl.Rest
		u, err := url.Parse(s)
		if err != nil {
			return pbt.Inconclusive(err)
		}
		var client jlibhttp.Client
		if cl.Direct {
			mine := *u
			switch kind, _ := c28Kind(s); kind {
			case "h1":
				client = jlibhttp.NewH1Client(&mine)
			case "ws":
				client = jlibhttp.NewWSClient(&mine)
			case "h2":
				client = jlibhttp.NewH2Client(&mine)
			}
		} else if client, err = jlibhttp.NewClient(s); err != nil {
			return fmt.Errorf("client %d, %q: %v", i, s, err)
		}
		defer closeClient(client)
		if secure(c.Server) {
			client.SetClientTLSConfig(&tls.Config{InsecureSkipVerify: true})
		}
		clients, urls = append(clients, client), append(urls, u)
	}
	for k, a := range c.Acts {
		cl, client, u := c.Clients[a.Client], clients[a.Client], urls[a.Client]
		if a.Do == "reconnect" && client.IsStreaming() {
			closeClient(client)
		}
		name := fmt.Sprintf("visit%d", k)
		var err error
		switch a.Do {
		case "send":
			clock := pbt.StartClock()
			var ok bool
			_, err, ok = within(r.Slow(patience), func() (any, error) {
				return nil, client.Send(context.Background(), jlib.NewNotifyMessage("visit", []any{name}))
			})
			if !ok {
				return clock.Late("act %d: sending does not return", k)
			}
		default:
			var res jlib.Message
			res, err = lbCall(r, client, jlib.NewRequestMessage(name, "visit", []any{name}))
			if err == nil && (!res.IsResult() || res.MustResult() != any(name)) {
				return fmt.Errorf("act %d: %v", k, jlib.MessageString(res))
			}
		}
		if envProblem(err) {
			return pbt.Inconclusive(err)
		}
		if err != nil {
			return fmt.Errorf("act %d, to %q: %w", k, u, err)
		}
		clock := pbt.StartClock()
		var vs []c28Visit
		if !eventually(r.Slow(patience), func() bool {
			mu.Lock()
			defer mu.Unlock()
			vs = visits[name]
			return len(vs) > 0
		}) {
			return clock.Late("act %d: the notification does not arrive", k)
		}
		v := vs[0]
		where := fmt.Sprintf("act %d, to %q:", k, u)
		if len(vs) != 1 {
			return fmt.Errorf("%s %d calls arrive", where, len(vs))
		}
		if v.uri != u.RequestURI() {
			return fmt.Errorf("%s the server sees %q, want %q", where, v.uri, u.RequestURI())
		}
		if v.query != u.RawQuery {
			return fmt.Errorf("%s the query is %q", where, v.query)
		}
		if !strings.EqualFold(v.host, u.Host) {
			return fmt.Errorf("%s the host is %q", where, v.host)
		}
		if v.secure != (cl.Scheme == "https" || cl.Scheme == "wss" || cl.Scheme == "h2") {
			return fmt.Errorf("%s TLS is %v", where, v.secure)
		}
		if want := map[bool]int{true: 2, false: 1}[strings.HasPrefix(cl.Scheme, "h2")]; v.proto != want {
			return fmt.Errorf("%s the protocol is HTTP/%d", where, v.proto)
		}
		if cl.Rest != "" && cl.Rest != "/" {
			r.NonTrivial()
		}
	}
	return nil
}

func c28GenReach(t *rapid.T) c28Reach {
	c := c28Reach{Server: pbt.Pick(t, "server", "gw", "gws", "gws", "h1", "ws", "h2c", "h2", "wss", "h1s")}
	var kinds []string
	for _, k := range lbClients[c.Server] {
		if !strings.HasSuffix(k, "-sys") {
			kinds = append(kinds, k)
		}
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "clients"); i < n; i++ {
		cl := c28Client{Scheme: pbt.Pick(t, "kind", kinds...), Rest: c28Path(t), Direct: pbt.Chance(t, 30, "direct")}
		cl.Host = pbt.Pick(t, "host", "", "", "localhost")
		if u, err := url.Parse("http://h" + cl.Rest); err != nil || u.RequestURI() == "*" || strings.HasPrefix(u.EscapedPath(), "//") {
			cl.Rest = "/x?y"
		}
		c.Clients = append(c.Clients, cl)
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "acts"); i < n; i++ {
		c.Acts = append(c.Acts, c28Act{Client: pbt.Uniform(t, len(c.Clients), "who"), Do: pbt.Pick(t, "do", "call", "call", "send", "reconnect")})
	}
	return c
}

func TestC28(t *testing.T) {
	pbt.Check(t, "C28",
		pbt.Part[c28Url]{Name: "kinds", Quick: 40000, Gen: c28GenUrl, Run: c28RunUrl},
		pbt.Part[c28Reach]{Name: "reach", Quick: 2000, Gen: c28GenReach, Run: c28RunReach})
}
