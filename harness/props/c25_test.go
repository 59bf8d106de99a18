package props

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/textproto"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// ---- the caller's message

type c25Use struct {
	Client int    `json:"client"`
	Do     string `json:"do"` // call unwrap send
	Msg    int    `json:"msg"`
}

type c25Msg struct {
	Routes   []lbRoute `json:"routes"` // one client each
	Msgs     []MsgSpec `json:"msgs"`
	Uses     []c25Use  `json:"uses"`
	Parallel bool      `json:"parallel,omitempty"`
	Fail     bool      `json:"fail,omitempty"` // the handler fails
}

func c25RunMsg(r *pbt.Rec, c c25Msg) error {
	var mu sync.Mutex
	seen := map[string]int{}
	var bad error
	byMethod := map[string]MsgSpec{}
	key := make([]string, len(c.Msgs))
	for i := range c.Msgs {
		if k := c.Msgs[i].Kind; k == "result" || k == "error" {
			key[i] = fmt.Sprintf("%s#%d", k, i)
			continue
		}
		c.Msgs[i].Method = fmt.Sprintf("%s#%d", c.Msgs[i].Method, i)
		key[i] = c.Msgs[i].Method
		byMethod[key[i]] = c.Msgs[i]
	}
	actor := jlibhttp.NewActor()
	// results and errors sent by a client get here
	actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		mu.Lock()
		defer mu.Unlock()
		var err error
		for i, spec := range c.Msgs {
			if byMethod[key[i]].Kind == "" {
				if err = spec.checkMsg(req.Msg()); err == nil {
					seen[key[i]]++
					return nil, nil
				}
			}
		}
		if bad == nil {
			bad = fmt.Errorf("another message than those sent arrived: %v (%v)", jlib.MessageString(req.Msg()), err)
		}
		return nil, nil
	})
	for m, spec := range byMethod {
		actor.OnRequest(m, func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			spec := spec
			spec.anyID = c.Parallel
			err := spec.checkMsg(req.Msg())
			mu.Lock()
			seen[m]++
			if err != nil && bad == nil {
				bad = fmt.Errorf("use %d of message %s: %w", seen[m], m, err)
			}
			mu.Unlock()
			if c.Fail {
				return nil, errors.New("failed")
			}
			return "ok", nil
		})
	}
	var clients []jlibhttp.Client
	for _, route := range c.Routes {
		srv := lbStart(route.Server, actor, lbOptions{})
		defer srv.close()
		client, err := srv.client(route.Client)
		if err != nil {
			return err
		}
		defer closeClient(client)
		clients = append(clients, client)
	}
	msgs := make([]jlib.Message, len(c.Msgs))
	before := make([]string, len(c.Msgs))
	look := func(i int) string {
		b, err := jlib.MessageBytes(msgs[i])
		return fmt.Sprintf("%s %v %q %s", b, err, msgs[i].TraceId(), msgs[i].Log().Data)
	}
	for i, s := range c.Msgs {
		msgs[i] = s.build()
		before[i] = look(i)
	}
	want := map[string]int{}
	var wantMu sync.Mutex
	use := func(k int) error {
		u := c.Uses[k]
		m := msgs[u.Msg]
		client := clients[u.Client]
		req, isReq := m.(*jlib.RequestMessage)
		wantMu.Lock()
		want[key[u.Msg]]++
		wantMu.Unlock()
		if !isReq || u.Do == "send" {
			clock := pbt.StartClock()
			_, err, ok := within(r.Slow(patience), func() (any, error) { return nil, client.Send(context.Background(), m) })
			if !ok {
				return clock.Late("use %d: sending does not return", k)
			}
			if envProblem(err) {
				return pbt.Inconclusive(err)
			}
			// what becomes of a failed notification is not promised
			if err != nil && !c.Fail {
				return fmt.Errorf("use %d: sending fails: %w", k, err)
			}
			return nil
		}
		if u.Do == "unwrap" {
			var s string
			clock := pbt.StartClock()
			_, err, ok := within(r.Slow(patience), func() (any, error) { return nil, client.UnwrapCall(context.Background(), req, &s) })
			if !ok {
				return clock.Late("use %d: the call does not return", k)
			}
			if envProblem(err) {
				return pbt.Inconclusive(err)
			}
			if !c.Fail && (err != nil || s != "ok") {
				return fmt.Errorf("use %d: the call returns %q %v", k, s, err)
			}
			return nil
		}
		res, err := lbCall(r, client, req)
		if err != nil {
			return fmt.Errorf("use %d: the call fails: %w", k, err)
		}
		if res.TraceId() != m.TraceId() {
			return fmt.Errorf("use %d: the reply has the trace id %q, the message %q", k, res.TraceId(), m.TraceId())
		}
		return sameID(c.Msgs[u.Msg].ID.Value(), res.MustId())
	}
	if c.Parallel {
		errs := make([]error, len(c.Uses))
		var wg sync.WaitGroup
		for k := range c.Uses {
			wg.Add(1)
			go func() { defer wg.Done(); errs[k] = use(k) }()
		}
		wg.Wait()
		if err := errors.Join(errs...); err != nil {
			return err
		}
	} else {
		for k := range c.Uses {
			if err := use(k); err != nil {
				return err
			}
			for i := range msgs {
				if now := look(i); now != before[i] {
					return fmt.Errorf("use %d changed message %d: %.500s became %.500s", k, i, before[i], now)
				}
			}
		}
	}
	if len(c.Uses) > 1 {
		r.NonTrivial()
	}
	clock := pbt.StartClock()
	if !eventually(r.Slow(patience), func() bool {
		mu.Lock()
		defer mu.Unlock()
		return c.Fail || reflect.DeepEqual(seen, want)
	}) {
		mu.Lock()
		defer mu.Unlock()
		return clock.Late("the messages were used %v times and arrived %v times", want, seen)
	}
	for i := range msgs {
		if now := look(i); now != before[i] {
			return fmt.Errorf("message %d changed: %.500s became %.500s", i, before[i], now)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	return bad
}

// the roots of the system stay as they are in this process
var c25Routes = func() (out []lbRoute) {
	for _, r := range lbRoutes {
		if !strings.HasSuffix(r.Client, "-sys") {
			out = append(out, r)
		}
	}
	return
}()

func c25GenMsg(t *rapid.T) c25Msg {
	c := c25Msg{Parallel: pbt.Chance(t, 25, "parallel"), Fail: pbt.Chance(t, 10, "fail")}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "routes"); i < n; i++ {
		c.Routes = append(c.Routes, c25Routes[pbt.Uniform(t, len(c25Routes), "route")])
	}
	if c.Fail {
		// a failed notification may end a session
		c.Parallel = false
	}
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "msgs"); i < n; i++ {
		m := genMsgSpec(t, pbt.Pick(t, "kind", "request", "request", "request", "notify", "notify", "result", "error"))
		if c.Fail {
			m = genMsgSpec(t, "request")
		}
		if m.Trace != "" || pbt.Chance(t, 70, "trace") {
			m.Trace = genTrace(t)
		}
		if len(m.Params) == 0 && (m.Kind == "request" || m.Kind == "notify") {
			m.Params, m.List = pbt.Raw([]any{}), true
		}
		c.Msgs = append(c.Msgs, m)
	}
	if len(c.Msgs) == 2 && fmt.Sprint(c.Msgs[0].ID.Value()) == fmt.Sprint(c.Msgs[1].ID.Value()) {
		another := "another"
		c.Msgs[1].ID = pbt.ID{S: &another}
	}
	sent := map[int]string{}
	for i, n := 0, rapid.IntRange(2, 6).Draw(t, "uses"); i < n; i++ {
		u := c25Use{Client: pbt.Uniform(t, len(c.Routes), "client"), Do: pbt.Pick(t, "do", "call", "call", "unwrap", "send"), Msg: pbt.Uniform(t, len(c.Msgs), "msg")}
		if c.Msgs[u.Msg].Kind == "request" {
			// the reply to a request that was sent may be taken for the
			// reply to a call with the same id
			if sent[u.Msg] == "" {
				sent[u.Msg] = u.Do
			}
			if (sent[u.Msg] == "send") != (u.Do == "send") {
				u.Do = sent[u.Msg]
			}
		}
		if u.Do == "send" && !c.Routes[u.Client].streaming() && (c.Fail || c.Msgs[u.Msg].Kind == "request") {
			u.Do = "call"
		}
		c.Uses = append(c.Uses, u)
	}
	return c
}

// ---- headers and TLS settings

type c25Client struct {
	Kind    string              `json:"kind"`
	Headers map[string][]string `json:"headers,omitempty"` // nil: never set
	TLS     string              `json:"tls,omitempty"`     // "" none, trust, skip, foreign
	Cert    int                 `json:"cert,omitempty"`    // the client certificate, 0 none
	Own     bool                `json:"own,omitempty"`     // a TLS configuration of its own, not one shared with the clients alike
}

type c25Act struct {
	Client int    `json:"client"`
	Do     string `json:"do"` // call, send, reconnect, rehead (new headers, then reconnect), other (another user of the process)

	Headers map[string][]string `json:"headers,omitempty"`
}

type c25Set struct {
	Server  string      `json:"server"`
	Clients []c25Client `json:"clients"`
	Acts    []c25Act    `json:"acts"`
}

var (
	c25Once  sync.Once
	c25Certs []tls.Certificate
	c25Pool  *x509.CertPool // trusts another authority
)

func clientCerts() {
	c25Once.Do(func() {
		for i := 1; i <= 2; i++ {
			key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if err != nil {
				panic(err)
			}
			tmpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i)), Subject: pkix.Name{CommonName: fmt.Sprintf("client%d", i)},
				NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
				KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
			der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, key.Public(), key)
			if err != nil {
				panic(err)
			}
			c25Certs = append(c25Certs, tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key})
			cert, err := x509.ParseCertificate(der)
			if err != nil {
				panic(err)
			}
			if c25Pool == nil {
				c25Pool = x509.NewCertPool()
				c25Pool.AddCert(cert)
			}
		}
	})
}

func c25RunSet(r *pbt.Rec, c c25Set) error {
	clientCerts()
	type visit struct {
		header http.Header
		cert   string
	}
	var mu sync.Mutex
	visits := map[string]visit{} // by the client's name
	actor := jlibhttp.NewActor()
	actor.OnRequest("visit", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		h := req.HttpRequest()
		v := visit{header: h.Header.Clone()}
		if h.TLS != nil && len(h.TLS.PeerCertificates) > 0 {
			v.cert = h.TLS.PeerCertificates[0].Subject.CommonName
		}
		mu.Lock()
		visits[params[0].(string)] = v
		mu.Unlock()
		return params[0], nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := httptest.NewUnstartedServer(lbHandler(ctx, c.Server, actor, false))
	s.Config.ErrorLog = quietLog
	tlsServer := secure(c.Server)
	s.TLS = &tls.Config{ClientAuth: tls.RequestClientCert}
	switch {
	case c.Server == "h2" || c.Server == "gws":
		s.EnableHTTP2 = true
		s.StartTLS()
	case tlsServer:
		s.StartTLS()
	default:
		s.Start()
	}
	srv := &lbServer{kind: c.Server, srv: s, cancel: cancel, ctx: ctx}
	defer srv.close()

	type setting struct {
		cfg    *tls.Config
		protos int
		name   string
	}
	shared := map[string]*tls.Config{}
	config := func(cl c25Client) *tls.Config {
		if cl.TLS == "" {
			return nil
		}
		key := fmt.Sprint(cl.TLS, cl.Cert)
		if cfg := shared[key]; cfg != nil && !cl.Own {
			return cfg
		}
		cfg := &tls.Config{}
		switch cl.TLS {
		case "trust":
			cfg.RootCAs = x509.NewCertPool()
			cfg.RootCAs.AddCert(s.Certificate())
		case "foreign":
			cfg.RootCAs = c25Pool
		case "skip":
			cfg.InsecureSkipVerify = true
		}
		if cl.Cert > 0 {
			cfg.Certificates = []tls.Certificate{c25Certs[cl.Cert-1]}
		}
		shared[key] = cfg
		return cfg
	}
	var clients []jlibhttp.Client
	var headers []http.Header
	type given struct {
		client    int
		from, now http.Header
	}
	var all []given
	header := func(i int, m map[string][]string) http.Header {
		h := http.Header{}
		for k, vs := range m {
			for _, v := range vs {
				h.Add(k, v)
			}
		}
		all = append(all, given{i, h.Clone(), h})
		return h
	}
	var cfgs []*tls.Config
	for i, cl := range c.Clients {
		client, err := jlibhttp.NewClient(cl.Kind + "://" + srv.addr() + "/")
		if err != nil {
			return err
		}
		defer closeClient(client)
		var h http.Header
		if cl.Headers != nil {
			h = header(i, cl.Headers)
			client.SetExtraHeader(h)
		}
		cfg := config(cl)
		if cfg != nil {
			client.SetClientTLSConfig(cfg)
		}
		clients, headers, cfgs = append(clients, client), append(headers, h), append(cfgs, cfg)
	}
	names := map[string]bool{}
	for _, cl := range c.Clients {
		for k := range cl.Headers {
			names[textproto.CanonicalMIMEHeaderKey(k)] = true
		}
	}
	for _, a := range c.Acts {
		for k := range a.Headers {
			names[textproto.CanonicalMIMEHeaderKey(k)] = true
		}
	}
	for k, a := range c.Acts {
		if a.Do == "other" {
			// others in this process use the defaults
			if tlsServer {
				if _, _, err := websocket.DefaultDialer.Dial("wss://"+srv.addr()+"/", nil); err == nil {
					return fmt.Errorf("act %d: another user of the process trusts the server", k)
				}
				if res, err := http.Get("https://" + srv.addr() + "/"); err == nil {
					io.Copy(io.Discard, res.Body)
					res.Body.Close()
					return fmt.Errorf("act %d: another http user of the process trusts the server", k)
				}
			}
			continue
		}
		cl, client := c.Clients[a.Client], clients[a.Client]
		if a.Do == "rehead" {
			var h http.Header
			if a.Headers != nil {
				h = header(a.Client, a.Headers)
			}
			client.SetExtraHeader(h)
			headers[a.Client] = h
			r.Label("new headers")
		}
		if (a.Do == "reconnect" || a.Do == "rehead") && client.IsStreaming() {
			closeClient(client)
		}
		name := fmt.Sprintf("visit%d", k)
		var err error
		if a.Do == "send" {
			clock := pbt.StartClock()
			var ok bool
			_, err, ok = within(r.Slow(patience), func() (any, error) {
				return nil, client.Send(context.Background(), jlib.NewNotifyMessage("visit", []any{name}))
			})
			if !ok {
				return clock.Late("act %d: sending does not return", k)
			}
		} else {
			var res jlib.Message
			res, err = lbCall(r, client, jlib.NewRequestMessage(name, "visit", []any{name}))
			if err == nil && !res.IsResult() {
				return fmt.Errorf("act %d: %v", k, res.MustError())
			}
		}
		if envProblem(err) {
			return pbt.Inconclusive(err)
		}
		works := !tlsServer || cl.TLS == "trust" || cl.TLS == "skip"
		if !works {
			r.Label("refused")
			if err == nil {
				return fmt.Errorf("act %d: client %d (%s) does not trust the server and is connected", k, a.Client, cl.Kind)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("act %d of client %d (%s): %w", k, a.Client, cl.Kind, err)
		}
		clock := pbt.StartClock()
		var v visit
		if !eventually(r.Slow(patience), func() bool {
			mu.Lock()
			defer mu.Unlock()
			var ok bool
			v, ok = visits[name]
			return ok
		}) {
			return clock.Late("act %d: the message does not arrive", k)
		}
		for n := range names {
			want, got := []string(nil), v.header[n]
			if h := headers[a.Client]; h != nil {
				want = h[n]
			}
			if fmt.Sprint(want) != fmt.Sprint(got) || len(want) != len(got) {
				return fmt.Errorf("act %d: client %d (%s) has the headers %s: %q, its server sees %q", k, a.Client, cl.Kind, n, want, got)
			}
		}
		if tlsServer {
			want := ""
			if cl.Cert > 0 {
				want = fmt.Sprintf("client%d", cl.Cert)
			}
			if v.cert != want {
				return fmt.Errorf("act %d: client %d (%s) has certificate %q, its server sees %q", k, a.Client, cl.Kind, want, v.cert)
			}
		}
		if len(c.Clients) > 1 {
			r.NonTrivial()
		}
	}
	for _, g := range all {
		if !reflect.DeepEqual(g.from, g.now) {
			return fmt.Errorf("the headers given to client %d changed from %v to %v", g.client, g.from, g.now)
		}
	}
	for i, cl := range c.Clients {
		if cfg := cfgs[i]; cfg != nil && (len(cfg.NextProtos) != 0 || cfg.ServerName != "" || cfg.InsecureSkipVerify != (cl.TLS == "skip")) {
			return fmt.Errorf("the TLS settings given to client %d changed: %v %q %v", i, cfg.NextProtos, cfg.ServerName, cfg.InsecureSkipVerify)
		}
	}
	if websocket.DefaultDialer.TLSClientConfig != nil {
		return fmt.Errorf("the default websocket dialer has TLS settings now")
	}
	if http.DefaultTransport.(*http.Transport).TLSClientConfig != nil && len(http.DefaultTransport.(*http.Transport).TLSClientConfig.Certificates) > 0 {
		return fmt.Errorf("the default http transport has TLS settings now")
	}
	return nil
}

func c25GenSet(t *rapid.T) c25Set {
	c := c25Set{Server: pbt.Pick(t, "server", "gws", "gws", "gw", "wss", "h2", "h1s", "ws", "h2c", "h1")}
	var kinds []string
	for _, k := range lbClients[c.Server] {
		if !strings.HasSuffix(k, "-sys") {
			kinds = append(kinds, k)
		}
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "clients"); i < n; i++ {
		cl := c25Client{Kind: pbt.Pick(t, "kind", kinds...)}
		if secure(c.Server) {
			cl.TLS = pbt.Pick(t, "tls", "trust", "skip", "trust", "", "foreign")
			cl.Own = pbt.Chance(t, 40, "own")
			if cl.TLS != "" {
				cl.Cert = pbt.Weighted(t, "cert", 50, 25, 25)
			}
		}
		if pbt.Chance(t, 75, "headers?") {
			cl.Headers = c25GenHeaders(t)
		}
		c.Clients = append(c.Clients, cl)
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "acts"); i < n; i++ {
		a := c25Act{Client: pbt.Uniform(t, len(c.Clients), "client"), Do: pbt.Pick(t, "do", "call", "call", "send", "reconnect", "rehead", "other")}
		if a.Do == "rehead" && pbt.Chance(t, 80, "headers?") {
			a.Headers = c25GenHeaders(t)
		}
		c.Acts = append(c.Acts, a)
	}
	return c
}

func c25GenHeaders(t *rapid.T) map[string][]string {
	out := map[string][]string{}
	for j, k := 0, rapid.IntRange(0, 3).Draw(t, "headers"); j < k; j++ {
		name := pbt.Pick(t, "name", "X-Client", "X-Other", "Authorization", "x-lower", "X_Under", "Cookie")
		m, pattern := 1, `[!-~]([ -~]{0,12}[!-~])?`
		if name == "Cookie" {
			pattern = `[a-z]{1,4}=[a-z]{1,6}` // HTTP/2 splits it
		}
		if name != "Authorization" && name != "Cookie" {
			m = rapid.IntRange(1, 3).Draw(t, "values")
		}
		var vs []string
		for len(vs) < m {
			vs = append(vs, rapid.StringMatching(pattern).Draw(t, "value"))
		}
		out[name] = vs
	}
	return out
}

// ---- header flags

type c25Flag struct {
	Values []string `json:"values"`
	Flags  bool     `json:"flags,omitempty"` // through a flag set
}

func c25RunFlag(r *pbt.Rec, c c25Flag) error {
	var hf jlibhttp.HeaderFlags
	if c.Flags {
		fs := flag.NewFlagSet("x", flag.ContinueOnError)
		fs.SetOutput(io.Discard)
		fs.Var(&hf, "header", "")
		var args []string
		for i, v := range c.Values {
			if i%2 == 0 {
				args = append(args, "-header", v)
			} else {
				args = append(args, "-header="+v)
			}
		}
		if err := fs.Parse(args); err != nil {
			return err
		}
	} else {
		for _, v := range c.Values {
			if err := hf.Set(v); err != nil {
				return err
			}
		}
	}
	want := http.Header{}
	bad := false
	for _, v := range c.Values {
		i := strings.IndexByte(v, '=')
		if i < 0 {
			bad = true
			break
		}
		want.Add(strings.Trim(v[:i], " "), strings.Trim(v[i+1:], " "))
	}
	if len(c.Values) > 0 {
		r.NonTrivial()
	}
	for k := 0; k < 2; k++ {
		got, err := hf.Parse()
		if bad {
			r.Label("bad")
			if err == nil {
				return fmt.Errorf("%q is parsed to %v", c.Values, got)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%q is not parsed: %v", c.Values, err)
		}
		if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%q is parsed to %v, want %v", c.Values, got, want)
		}
	}
	return nil
}

func c25GenFlag(t *rapid.T) c25Flag {
	c := c25Flag{Flags: pbt.Chance(t, 50, "flags"), Values: []string{}}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
		name := pbt.Pick(t, "name", "X-A", "X-A", "x-b", "Authorization", rapid.StringMatching(`[A-Za-z][A-Za-z0-9_-]{0,8}`).Draw(t, "any"))
		value := pbt.Pick(t, "value", "", "v", "a=b", "==", "Basic dTpw", "x: y", "é", rapid.StringMatching(`[!-~]([ -~]{0,10}[!-~])?`).Draw(t, "any"))
		sp := func(l string) string { return pbt.Pick(t, l, "", "", " ", "  ") }
		s := sp("a") + name + sp("b") + "=" + sp("c") + value + sp("d")
		if pbt.Chance(t, 8, "bad") {
			s = pbt.Pick(t, "bad", "", "X-A", "X-A: v", name, " ")
		}
		c.Values = append(c.Values, s)
	}
	return c
}

func TestC25(t *testing.T) {
	pbt.Check(t, "C25",
		pbt.Part[c25Msg]{Name: "message", Quick: 3000, Gen: c25GenMsg, Run: c25RunMsg},
		pbt.Part[c25Set]{Name: "settings", Quick: 2500, Gen: c25GenSet, Run: c25RunSet},
		pbt.Part[c25Flag]{Name: "flags", Quick: 8000, Gen: c25GenFlag, Run: c25RunFlag})
}
