package props

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c20Client struct {
	Kind  string `json:"kind"`            // scheme
	Raw   bool   `json:"raw,omitempty"`   // no client of the library
	Idle  bool   `json:"idle,omitempty"`  // connected, no call
	Holds int    `json:"holds,omitempty"` // calls in flight at the shutdown
	Push  int    `json:"push,omitempty"`  // messages pushed to it, which a raw client does not read
	Again bool   `json:"again,omitempty"` // calls again after the restart
}

type c20Server struct {
	Kind    string      `json:"kind"`
	Serial  bool        `json:"serial,omitempty"`
	Clients []c20Client `json:"clients"`
}

type c20Case struct {
	Servers []c20Server `json:"servers"` // the first one is shut down
	Shared  bool        `json:"shared,omitempty"`
	How     string      `json:"how"` // cancel, parent, deadline, early
	NilTLS  bool        `json:"niltls,omitempty"`
	Release bool        `json:"release,omitempty"` // the handlers return after the shutdown
	Restart bool        `json:"restart,omitempty"`
	Clash   bool        `json:"clash,omitempty"` // someone tries to serve the same port meanwhile
	Left    bool        `json:"left,omitempty"`  // look for what stays behind
}

var (
	certOnce sync.Once
	certPath jlibhttp.TLSConfig
	certPool *x509.CertPool
)

// certFiles writes the certificate of the test servers to files.
func certFiles() (*jlibhttp.TLSConfig, *tls.Config) {
	certOnce.Do(func() {
		srv := httptest.NewUnstartedServer(nil)
		srv.StartTLS()
		defer srv.Close()
		cert := srv.TLS.Certificates[0]
		key, err := x509.MarshalPKCS8PrivateKey(cert.PrivateKey)
		if err != nil {
			panic(err)
		}
		base := filepath.Join(pbtWork(), fmt.Sprintf("cert-%d", os.Getpid()))
		certPath = jlibhttp.TLSConfig{Certfile: base + ".crt", Keyfile: base + ".key"}
		for path, block := range map[string]*pem.Block{certPath.Certfile: {Type: "CERTIFICATE", Bytes: cert.Certificate[0]}, certPath.Keyfile: {Type: "PRIVATE KEY", Bytes: key}} {
			if err := os.WriteFile(path, pem.EncodeToMemory(block), 0o600); err != nil {
				panic(err)
			}
		}
		certPool = x509.NewCertPool()
		certPool.AddCert(srv.Certificate())
	})
	return &certPath, &tls.Config{RootCAs: certPool, ServerName: "example.com"}
}

// freeBind finds an address nobody listens at. Every shard has an address of
// the loopback network to itself.
func freeBind() (string, error) {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	for _, ip := range []string{fmt.Sprintf("127.0.%d.%d", 1+os.Getpid()%200, 1+shard), "127.0.0.1"} {
		if l, err := net.Listen("tcp", ip+":0"); err == nil {
			defer l.Close()
			return l.Addr().String(), nil
		}
	}
	return "", fmt.Errorf("no address to listen at")
}

func secure(kind string) bool { return strings.HasSuffix(kind, "s") && kind != "ws" || kind == "h2" }

type c20Peer struct {
	spec   c20Client
	lib    jlibhttp.Client
	raw    *rawClient
	mu     sync.Mutex
	closed int
	waited bool
	holds  []jlib.Message
	errs   []error
}

type c20Running struct {
	spec   c20Server
	bind   string
	cancel context.CancelFunc
	done   chan error
	peers  []*c20Peer

	mu       sync.Mutex
	sessions map[string]int // close callbacks per session
	held     int
	second   bool // serves the port of another one that was shut down
}

func c20Run(r *pbt.Rec, c c20Case) error {
	tlsFiles, tlsClient := certFiles()
	hold := make(chan struct{})
	var once sync.Once
	release := func() { once.Do(func() { close(hold) }) }
	defer release()

	newActor := func(s *c20Running) *jlibhttp.Actor {
		actor := jlibhttp.NewActor()
		actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, params []any) (any, error) { return params, nil })
		actor.OnRequest("hello", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			if req.Session() != nil {
				s.mu.Lock()
				s.sessions[req.Session().SessionID()] += 0
				s.mu.Unlock()
			}
			return "hello", nil
		})
		actor.OnRequest("hold", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			s.mu.Lock()
			s.held++
			s.mu.Unlock()
			if s.second {
				return "second", nil
			}
			<-hold
			return "released", nil
		})
		actor.OnRequest("push", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			var n int
			fmt.Sscan(fmt.Sprint(params...), &n)
			session := req.Session()
			go func() {
				for i := 0; i < n; i++ {
					session.Send(jlib.NewNotifyMessage("pushed", []any{i, strings.Repeat("p", 20000)}))
				}
			}()
			return n, nil
		})
		actor.OnClose(func(req *http.Request, session jlibhttp.RPCSession) {
			s.mu.Lock()
			s.sessions[session.SessionID()]++
			s.mu.Unlock()
		})
		return actor
	}
	serve := func(s *c20Running, ctx context.Context, actor *jlibhttp.Actor) {
		h := lbHandler(ctx, s.spec.Kind, actor, s.spec.Serial)
		s.done = make(chan error, 1)
		done := s.done
		go func() {
			var cfgs []*jlibhttp.TLSConfig
			if c.NilTLS {
				cfgs = append(cfgs, nil)
			}
			if secure(s.spec.Kind) {
				cfgs = append(cfgs, tlsFiles)
			}
			done <- jlibhttp.ListenAndServe(ctx, s.bind, h, cfgs...)
		}()
	}
	listening := func(s *c20Running) error {
		clock := pbt.StartClock()
		var ret error
		returned := false
		if !eventually(r.Slow(patience), func() bool {
			select {
			case ret = <-s.done:
				returned = true
				return true
			default:
			}
			conn, err := net.DialTimeout("tcp", s.bind, time.Second)
			if err == nil {
				conn.Close()
			}
			return err == nil
		}) {
			return clock.Late("the port does not accept connections")
		}
		if returned {
			if ret != nil && strings.Contains(ret.Error(), "address already in use") {
				return pbt.Inconclusive(ret)
			}
			return fmt.Errorf("serving returns at once: %v", ret)
		}
		return nil
	}
	newClient := func(s *c20Running, kind string) (jlibhttp.Client, error) {
		client, err := jlibhttp.NewClient(kind + "://" + s.bind + "/")
		if err == nil && secure(s.spec.Kind) {
			client.SetClientTLSConfig(tlsClient.Clone())
		}
		return client, err
	}
	echo := func(client jlibhttp.Client, when string) error {
		res, err := lbCall(r, client, jlib.NewRequestMessage("e", "echo", []any{when}))
		if err != nil {
			return fmt.Errorf("a call %s gets no answer: %w", when, err)
		}
		return (MsgSpec{Kind: "result", ID: pbt.StrID("e"), Result: pbt.Raw([]any{when})}).checkFull(res)
	}

	var all []*c20Running
	var shared *jlibhttp.Actor
	ctxs := make([]context.Context, len(c.Servers))
	base, cancelBase := context.WithCancel(context.Background())
	defer cancelBase()
	for i, spec := range c.Servers {
		bind, err := freeBind()
		for j := 0; err == nil && j < len(all); j++ {
			if all[j].bind == bind {
				// the port of a server that never listened, or no longer
				bind, err = freeBind()
				j = -1
			}
		}
		if err != nil {
			return pbt.Inconclusive(err)
		}
		s := &c20Running{spec: spec, bind: bind, sessions: map[string]int{}}
		all = append(all, s)
		parent := base
		if i == 0 && c.How == "parent" {
			p, cancel := context.WithCancel(base)
			ctxs[i], s.cancel = context.WithCancel(p)
			defer s.cancel()
			s.cancel = cancel
		} else {
			ctxs[i], s.cancel = context.WithCancel(parent)
		}
		defer s.cancel()
		if i == 0 && c.How == "early" {
			s.cancel()
		}
		actor := shared
		if actor == nil || !c.Shared || i > 0 {
			actor = newActor(s)
		}
		serve(s, ctxs[i], actor)
		if i == 0 && c.How == "early" {
			continue
		}
		if err := listening(s); err != nil {
			return fmt.Errorf("server %d: %w", i, err)
		}
	}
	victim := all[0]
	if c.Clash && c.How != "early" {
		ctx, cancel := context.WithCancel(base)
		clash := &c20Running{spec: victim.spec, bind: victim.bind, sessions: map[string]int{}, second: true}
		serve(clash, ctx, newActor(clash))
		clock := pbt.StartClock()
		err, ok := receive(clash.done, r.Slow(patience))
		cancel()
		if !ok {
			return clock.Late("serving a port in use does not return")
		}
		if err == nil {
			return fmt.Errorf("serving a port in use returns no error")
		}
	}
	for i, s := range all {
		if i == 0 && c.How == "early" {
			continue
		}
		for j, spec := range s.spec.Clients {
			p := &c20Peer{spec: spec}
			s.peers = append(s.peers, p)
			hello := jlib.NewRequestMessage("hello", "hello", nil)
			if spec.Raw {
				raw, err := rawDialTo(s.bind, spec.Kind, secure(s.spec.Kind), tlsClient, nil, time.Hour)
				if envProblem(err) {
					return pbt.Inconclusive(err)
				}
				if err != nil {
					return fmt.Errorf("server %d client %d cannot connect: %w", i, j, err)
				}
				p.raw = raw
				defer raw.done()
				for _, m := range []*jlib.RequestMessage{hello, jlib.NewRequestMessage("push", "push", []any{spec.Push})} {
					b, _ := jlib.MessageBytes(m)
					if err := raw.send(b); err != nil {
						return fmt.Errorf("server %d client %d: %w", i, j, err)
					}
				}
				continue
			}
			client, err := newClient(s, spec.Kind)
			if err != nil {
				return err
			}
			p.lib = client
			defer closeClient(client)
			if st, ok := client.(jlibhttp.Streamable); ok {
				st.OnClose(func() {
					p.mu.Lock()
					p.closed++
					p.mu.Unlock()
				})
				if spec.Idle {
					if err := st.Connect(context.Background()); err != nil {
						if envProblem(err) {
							return pbt.Inconclusive(err)
						}
						return fmt.Errorf("server %d client %d cannot connect: %w", i, j, err)
					}
				}
			}
			if !spec.Idle {
				res, err := lbCall(r, client, hello)
				if err != nil {
					return fmt.Errorf("server %d client %d: %w", i, j, err)
				}
				if !res.IsResult() {
					return fmt.Errorf("server %d client %d: %v", i, j, res.MustError())
				}
			}
			if st, ok := client.(jlibhttp.Streamable); ok {
				go func() {
					st.Wait()
					p.mu.Lock()
					p.waited = true
					p.mu.Unlock()
				}()
			}
			for k := 0; k < spec.Holds; k++ {
				req := jlib.NewRequestMessage(fmt.Sprintf("hold%d", k), "hold", nil)
				go func() {
					m, err := client.Call(context.Background(), req)
					p.mu.Lock()
					if err != nil {
						p.errs = append(p.errs, err)
					} else {
						p.holds = append(p.holds, m)
					}
					p.mu.Unlock()
				}()
			}
		}
	}
	// every hold has begun
	streams := func(s *c20Running) (n, held, raw int) {
		for _, cl := range s.spec.Clients {
			if !strings.HasPrefix(cl.Kind, "http") {
				n++
			}
			if cl.Raw {
				raw++
			}
			if s.spec.Serial && cl.Holds > 1 {
				held++
			} else {
				held += cl.Holds
			}
		}
		return
	}
	for i, s := range all {
		if i == 0 && c.How == "early" {
			continue
		}
		n, held, _ := streams(s)
		idle := 0
		for _, cl := range s.spec.Clients {
			if cl.Idle && !cl.Raw {
				idle++
			}
		}
		clock := pbt.StartClock()
		var h, met int
		if !eventually(r.Slow(patience), func() bool {
			s.mu.Lock()
			defer s.mu.Unlock()
			h, met = s.held, len(s.sessions)
			idleStreams := 0
			for _, cl := range s.spec.Clients {
				if cl.Idle && !cl.Raw && !strings.HasPrefix(cl.Kind, "http") {
					idleStreams++
				}
			}
			return h >= held && met >= n-idleStreams
		}) {
			return clock.Late("server %d: %d of %d calls and %d of %d sessions have begun", i, h, held, met, n)
		}
	}
	if n, h, _ := streams(victim); n+h > 0 && c.How != "early" {
		r.NonTrivial()
	}

	// the shutdown
	victim.cancel()
	clock := pbt.StartClock()
	if _, ok := receive(victim.done, r.Slow(patience)); !ok {
		return clock.Late("serving does not return")
	}
	if !eventually(r.Slow(patience), func() bool {
		conn, err := net.DialTimeout("tcp", victim.bind, 5*time.Second)
		if err == nil {
			conn.Close()
		}
		return err != nil
	}) {
		return clock.Late("the port accepts connections after serving has returned")
	}
	if c.How == "early" {
		return c20After(r, c, all, echo, newClient)
	}
	if c.Release {
		release()
	}
	n, _, _ := streams(victim)
	missing := ""
	clock = pbt.StartClock()
	if !eventually(r.Slow(patience), func() bool {
		missing = ""
		victim.mu.Lock()
		calls := 0
		for _, k := range victim.sessions {
			calls += k
		}
		victim.mu.Unlock()
		if calls < n {
			missing = fmt.Sprintf("%d of %d close callbacks ran", calls, n)
		}
		for j, p := range victim.peers {
			if p.lib == nil || !p.lib.IsStreaming() {
				continue
			}
			p.mu.Lock()
			if !p.waited {
				missing = fmt.Sprintf("the wait of client %d does not return", j)
			} else if p.closed == 0 {
				missing = fmt.Sprintf("the close handler of client %d did not run", j)
			}
			p.mu.Unlock()
		}
		return missing == ""
	}) {
		return clock.Late("after the shutdown %s", missing)
	}
	if c.Restart {
		ctx, cancel := context.WithCancel(base)
		again := &c20Running{spec: victim.spec, bind: victim.bind, sessions: map[string]int{}, second: true}
		serve(again, ctx, newActor(again))
		defer cancel()
		if err := listening(again); err != nil {
			return fmt.Errorf("the port cannot be served again: %w", err)
		}
		for _, kind := range lbClients[victim.spec.Kind] {
			if strings.HasSuffix(kind, "-sys") {
				continue
			}
			client, err := newClient(again, kind)
			if err != nil {
				return err
			}
			err = echo(client, "of a new client after the restart")
			closeClient(client)
			if err != nil {
				return err
			}
		}
		for _, p := range victim.peers {
			if p.lib != nil && p.spec.Again {
				r.Label("reconnect")
				if err := echo(p.lib, "of an old "+p.spec.Kind+" client after the restart"); err != nil {
					return err
				}
			}
		}
	}
	if err := c20After(r, c, all, echo, newClient); err != nil {
		return err
	}
	if c.Left {
		// all servers stop, and the clients that read nothing stay
		r.Label("left")
		release()
		cancelBase()
		for _, s := range all {
			for _, p := range s.peers {
				if p.lib != nil {
					closeClient(p.lib)
				}
			}
		}
		clock := pbt.StartClock()
		var g string
		if !eventually(r.Slow(patience), func() bool {
			time.Sleep(10 * time.Millisecond)
			g = leftovers()
			return g == ""
		}) {
			return clock.Late("all servers are shut down and something still runs\n%s", g)
		}
	}
	victim.mu.Lock()
	defer victim.mu.Unlock()
	for id, k := range victim.sessions {
		if k != 1 {
			return fmt.Errorf("%d close callbacks for session %s", k, id)
		}
	}
	if len(victim.sessions) != n {
		return fmt.Errorf("close callbacks of %d sessions, there were %d", len(victim.sessions), n)
	}
	for j, p := range victim.peers {
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.closed > 1 {
			return fmt.Errorf("the close handler of client %d ran %d times", j, p.closed)
		}
		if p.lib != nil && p.lib.IsStreaming() {
			for _, m := range p.holds {
				if m.IsError() && m.MustError().Code == jlib.ErrTimeout.Code && time.Since(clock.Start()) > 8*time.Second {
					continue
				}
				if c.Release && m.IsResult() && m.MustResult() == any("released") {
					continue // the handler returned before the session ended
				}
				if m.IsResult() && m.MustResult() == any("second") {
					continue // it was made after the restart
				}
				b, _ := jlib.MessageBytes(m)
				return fmt.Errorf("client %d: a call in flight at the shutdown returned %s", j, b)
			}
		}
	}
	return nil
}

// c20After checks that the other servers go on.
func c20After(r *pbt.Rec, c c20Case, all []*c20Running, echo func(jlibhttp.Client, string) error, newClient func(*c20Running, string) (jlibhttp.Client, error)) error {
	for i, s := range all[1:] {
		select {
		case err := <-s.done:
			return fmt.Errorf("server %d returns with another server: %v", i+1, err)
		default:
		}
		s.mu.Lock()
		for id, k := range s.sessions {
			if k != 0 {
				s.mu.Unlock()
				return fmt.Errorf("session %s of server %d ended with another server", id, i+1)
			}
		}
		s.mu.Unlock()
		for j, p := range s.peers {
			if p.lib == nil {
				continue
			}
			p.mu.Lock()
			closed, waited := p.closed, p.waited
			p.mu.Unlock()
			if p.lib.IsStreaming() && (closed > 0 || waited) {
				return fmt.Errorf("client %d of server %d ended with another server", j, i+1)
			}
			if s.spec.Serial && p.spec.Holds > 0 {
				continue // a held call holds up the others
			}
			if err := echo(p.lib, fmt.Sprintf("of client %d of server %d", j, i+1)); err != nil {
				return err
			}
		}
		client, err := newClient(s, lbClients[s.spec.Kind][0])
		if err != nil {
			return err
		}
		err = echo(client, fmt.Sprintf("of a new client of server %d", i+1))
		closeClient(client)
		if err != nil {
			return err
		}
	}
	return nil
}

func c20Gen(t *rapid.T) c20Case {
	c := c20Case{How: pbt.Pick(t, "how", "cancel", "cancel", "cancel", "parent", "early"), NilTLS: pbt.Chance(t, 20, "niltls"),
		Release: pbt.Chance(t, 50, "release"), Restart: pbt.Chance(t, 50, "restart"), Clash: pbt.Chance(t, 15, "clash")}
	for i, n := 0, 1+pbt.Weighted(t, "servers", 60, 30, 10); i < n; i++ {
		s := c20Server{Kind: pbt.Pick(t, "kind", "ws", "h2c", "h2", "gw", "gws", "wss", "h1", "h1s")}
		s.Serial = !strings.HasPrefix(s.Kind, "gw") && pbt.Chance(t, 25, "serial")
		var kinds []string
		for _, k := range lbClients[s.Kind] {
			if !strings.HasSuffix(k, "-sys") {
				kinds = append(kinds, k)
			}
		}
		for j, k := 0, rapid.IntRange(0, 4).Draw(t, "clients"); j < k; j++ {
			cl := c20Client{Kind: pbt.Pick(t, "client", kinds...), Again: pbt.Chance(t, 50, "again")}
			if !strings.HasPrefix(cl.Kind, "http") {
				cl.Raw = pbt.Chance(t, 15, "raw")
				cl.Idle = pbt.Chance(t, 20, "idle")
				if cl.Raw {
					cl.Push = pbt.Size(t, 5, 300, "push")
				}
			}
			if !cl.Raw && !cl.Idle && pbt.Chance(t, 50, "hold?") {
				cl.Holds = pbt.Size(t, 3, 30, "holds")
			}
			s.Clients = append(s.Clients, cl)
		}
		c.Servers = append(c.Servers, s)
	}
	c.Left = c.How != "early" && pbt.Chance(t, 15, "left")
	for i := range c.Servers {
		s := &c.Servers[i]
		for j := range s.Clients {
			if cl := &s.Clients[j]; c.Left && !strings.HasPrefix(cl.Kind, "http") && pbt.Chance(t, 40, "stay") {
				// more than fits anywhere
				*cl = c20Client{Kind: cl.Kind, Raw: true, Push: 250 + pbt.Uniform(t, 100, "big")}
			}
			if s.Kind == "gw" && s.Clients[j].Raw && s.Clients[j].Kind == "h2c" {
				c.Left = false // the handler has the connection as long as it lasts
			}
		}
	}
	return c
}

func TestC20(t *testing.T) {
	pbt.Check(t, "C20",
		pbt.Part[c20Case]{Name: "shutdown", Quick: 4000, Gen: c20Gen, Run: c20Run},
		pbt.Part[c20Settings]{Name: "settings", Quick: 1500, Gen: c20GenSettings, Run: c20RunSettings})
}

// ---- what a server is given to serve with

type c20Settings struct {
	Bind string   `json:"bind"` // free, used, or an address that is none
	TLS  []string `json:"tls"`  // nil, good, nocert, nokey, missing, junk, swapped
}

// c20Hosts are the hosts of addresses to listen at, and where those who listen
// there can be met.
var c20Hosts = map[string][]string{
	"v6":        {"[::1]", "[::1]"},
	"any":       {"", "127.0.0.1", "[::1]"},
	"any4":      {"0.0.0.0", "127.0.0.1"},
	"any6":      {"[::]", "[::1]", "127.0.0.1"},
	"localhost": {"localhost", "localhost"},
}

func c20RunSettings(r *pbt.Rec, c c20Settings) error {
	good, client := certFiles()
	var cfgs []*jlibhttp.TLSConfig
	first, valid := "", false
	for _, k := range c.TLS {
		var cfg *jlibhttp.TLSConfig
		switch k {
		case "good":
			cfg = &jlibhttp.TLSConfig{Certfile: good.Certfile, Keyfile: good.Keyfile}
		case "nocert":
			cfg = &jlibhttp.TLSConfig{Keyfile: good.Keyfile}
		case "nokey":
			cfg = &jlibhttp.TLSConfig{Certfile: good.Certfile}
		case "missing":
			cfg = &jlibhttp.TLSConfig{Certfile: good.Certfile + ".not", Keyfile: good.Keyfile}
		case "swapped":
			cfg = &jlibhttp.TLSConfig{Certfile: good.Keyfile, Keyfile: good.Certfile}
		}
		cfgs = append(cfgs, cfg)
		if cfg == nil {
			continue
		}
		if want := k != "nocert" && k != "nokey"; (cfg.ValidateValues() == nil) != want {
			return fmt.Errorf("ValidateValues of %+v: %v", *cfg, cfg.ValidateValues())
		}
		if first == "" {
			first, valid = k, k == "good"
		}
	}
	bind := c.Bind
	var other net.Listener
	var targets []string
	if c20Hosts[bind] != nil {
		l, err := net.Listen("tcp", c20Hosts[bind][0]+":0")
		if err != nil {
			return pbt.Inconclusive(err)
		}
		_, port, _ := net.SplitHostPort(l.Addr().String())
		// tell whether the sandbox has such an address
		for _, host := range c20Hosts[bind][1:] {
			conn, err := net.DialTimeout("tcp", host+":"+port, time.Second)
			if err == nil {
				conn.Close()
				targets = append(targets, host+":"+port)
			}
		}
		l.Close()
		bind = c20Hosts[bind][0] + ":" + port
		if len(targets) == 0 {
			return pbt.Inconclusive(fmt.Errorf("no one can connect to %s", bind))
		}
	}
	if bind == "free" || bind == "used" {
		var err error
		if bind, err = freeBind(); err != nil {
			return pbt.Inconclusive(err)
		}
		if c.Bind == "used" {
			if other, err = net.Listen("tcp", bind); err != nil {
				return pbt.Inconclusive(err)
			}
			defer other.Close()
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	actor := jlibhttp.NewActor()
	actor.On("echo", func(params []any) (any, error) { return params, nil })
	done := make(chan error, 1)
	go func() { done <- jlibhttp.ListenAndServe(ctx, bind, jlibhttp.NewH1Handler(actor), cfgs...) }()
	if targets == nil {
		targets = []string{bind}
	}
	mayListen := c.Bind == "free" || c20Hosts[c.Bind] != nil
	fails := !mayListen || first != "" && !valid
	r.Label("fails %v", fails)
	if len(c.TLS) > 0 {
		r.NonTrivial()
	}
	clock := pbt.StartClock()
	if fails {
		err, ok := receive(done, r.Slow(patience))
		if !ok {
			return clock.Late("serving with bad settings goes on")
		}
		if err == nil {
			return fmt.Errorf("serving with bad settings returns no error")
		}
		if mayListen && !eventually(r.Slow(patience), func() bool {
			l, err := net.Listen("tcp", bind)
			if err == nil {
				l.Close()
			}
			return err == nil
		}) {
			return clock.Late("a server that failed keeps its port")
		}
		return nil
	}
	scheme := "http"
	if first != "" {
		scheme = "https"
	}
	if !eventually(r.Slow(patience), func() bool {
		conn, err := net.DialTimeout("tcp", targets[0], time.Second)
		if err == nil {
			conn.Close()
		}
		return err == nil || len(done) > 0
	}) {
		return clock.Late("the port does not accept connections")
	}
	select {
	case err := <-done:
		if err != nil && strings.Contains(err.Error(), "address already in use") {
			return pbt.Inconclusive(err)
		}
		return fmt.Errorf("serving with good settings returns at once: %v", err)
	default:
	}
	for _, target := range targets {
		cl, err := jlibhttp.NewClient(scheme + "://" + target + "/")
		if err != nil {
			return err
		}
		cl.SetClientTLSConfig(client.Clone())
		res, err := lbCall(r, cl, jlib.NewRequestMessage("e", "echo", []any{"x"}))
		if err != nil {
			return fmt.Errorf("a call over %s to %s, served at %s, gets no answer: %w", scheme, target, bind, err)
		}
		if err := (MsgSpec{Kind: "result", ID: pbt.StrID("e"), Result: pbt.Raw([]any{"x"})}).checkFull(res); err != nil {
			return err
		}
	}
	cancel()
	clock = pbt.StartClock()
	if _, ok := receive(done, r.Slow(patience)); !ok {
		return clock.Late("serving does not return after the shutdown")
	}
	return nil
}

func c20GenSettings(t *rapid.T) c20Settings {
	c := c20Settings{Bind: pbt.Pick(t, "bind", "free", "free", "free", "v6", "any", "any4", "any6", "localhost", "used", "127.0.0.1:99999", "127.0.0.1", "127.0.0.1:http-not", "127.0.0.1:-1"), TLS: []string{}}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
		c.TLS = append(c.TLS, pbt.Pick(t, "tls", "nil", "nil", "good", "good", "nocert", "nokey", "missing", "swapped"))
	}
	return c
}
