package props

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// A siege is many clients that keep connections, handlers or queues of a
// server busy without ever breaking the rules, while others want answers.
type c17Siege struct {
	Server  string         `json:"server"`
	Serial  bool           `json:"serial,omitempty"`
	Groups  []c17Besiegers `json:"groups"`
	Witness int            `json:"witness"`
	Leaks   bool           `json:"leaks,omitempty"`
}

type c17Besiegers struct {
	Kind  string `json:"kind"`
	Do    string `json:"do"` // idle, half, hold, deaf
	Conns int    `json:"conns"`
	Calls int    `json:"calls,omitempty"` // of each connection
	Size  int    `json:"size,omitempty"`  // of each reply to the deaf
	Small bool   `json:"small,omitempty"` // a small receive buffer
	End   string `json:"end,omitempty"`
}

type c17Besieger struct {
	g    c17Besiegers
	name string
	raw  *rawClient
	conn net.Conn
}

func (b *c17Besieger) id(j int) string { return fmt.Sprintf("%s-%d", b.name, j) }

func (b *c17Besieger) body(j int) []byte {
	m := map[string]any{"jsonrpc": "2.0", "id": b.id(j), "method": b.g.Do, "params": []any{b.g.Size}}
	return pbt.Raw(m)
}

func (b *c17Besieger) want(j int) MsgSpec {
	res := "held"
	if b.g.Do == "deaf" {
		res = strings.Repeat("d", b.g.Size)
	}
	return MsgSpec{Kind: "result", ID: pbt.StrID(b.id(j)), Result: pbt.Raw(res)}
}

func (b *c17Besieger) start(srv *lbServer) error {
	var err error
	if b.g.Do == "half" || strings.HasPrefix(b.g.Kind, "http") {
		b.conn, err = net.DialTimeout("tcp", srv.addr(), 10*time.Second)
		if err != nil {
			return pbt.Inconclusive(err)
		}
		if b.g.Small {
			b.conn.(*net.TCPConn).SetReadBuffer(1 << 16)
		}
		if b.g.Do == "half" {
			b.conn.Write([]byte("POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"jsonrpc\""))
			return nil
		}
		if b.g.Kind == "https" {
			cfg := srv.tls()
			cfg.ServerName = "127.0.0.1"
			b.conn = tls.Client(b.conn, cfg)
		}
		if b.g.Do == "idle" {
			if t, ok := b.conn.(*tls.Conn); ok {
				return t.Handshake()
			}
			return nil
		}
		body := b.body(0)
		_, err = fmt.Fprintf(b.conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
		return err
	}
	delay := time.Duration(0)
	if b.g.Do == "deaf" {
		delay = time.Hour
	}
	b.raw, err = rawDial(srv, b.g.Kind, nil, delay)
	if envProblem(err) {
		return pbt.Inconclusive(err)
	}
	if err != nil {
		return err
	}
	if tc, ok := b.raw.conn.(*net.TCPConn); ok && b.g.Small {
		tc.SetReadBuffer(1 << 16)
	}
	if b.g.Do == "idle" {
		return nil
	}
	// a server that is stuck with the replies need not read on
	sent := make(chan error, 1)
	go func() {
		for j := 0; j < b.g.Calls; j++ {
			if err := b.raw.send(b.body(j)); err != nil {
				sent <- err
				return
			}
		}
		sent <- nil
	}()
	if b.g.Do == "hold" {
		return <-sent
	}
	return nil
}

func (b *c17Besieger) stop() {
	if b.raw != nil {
		b.raw.done()
	}
	if b.conn != nil {
		b.conn.Close()
	}
}

// finish hangs up, or reads all the replies that were kept back.
func (b *c17Besieger) finish(r *pbt.Rec) error {
	if b.raw == nil {
		if b.g.End != "" || b.g.Do == "half" || b.g.Do == "idle" {
			b.conn.Close()
			return nil
		}
		res, err, ok := within(r.Slow(patience), func() ([]byte, error) {
			res, err := http.ReadResponse(bufio.NewReader(b.conn), nil)
			if err != nil {
				return nil, err
			}
			defer res.Body.Close()
			return io.ReadAll(res.Body)
		})
		if !ok {
			return pbt.StartClock().Late("%s: no reply when the siege is over", b.name)
		}
		if err != nil {
			return fmt.Errorf("%s: no reply when the siege is over: %w", b.name, err)
		}
		return b.want(0).checkBytes(res)
	}
	if b.g.End != "" {
		b.raw.close(b.g.End)
		return nil
	}
	if b.g.Do == "deaf" {
		b.raw.listen()
	}
	if b.g.Do == "idle" {
		if err := b.raw.send([]byte(`{"jsonrpc":"2.0","id":"idle","method":"echo","params":[1]}`)); err != nil {
			return fmt.Errorf("%s: the idle connection does not work: %w", b.name, err)
		}
		if _, err := b.raw.awaitID(r.Slow(patience), "idle"); err != nil {
			return fmt.Errorf("%s: the idle connection does not work: %w", b.name, err)
		}
		return nil
	}
	clock := pbt.StartClock()
	ended := false
	if !eventually(r.Slow(patience), func() bool {
		var got [][]byte
		got, ended = b.raw.received()
		return len(got) >= b.g.Calls || ended
	}) {
		got, _ := b.raw.received()
		return clock.Late("%s: %d of %d calls answered when the siege is over", b.name, len(got), b.g.Calls)
	}
	got, _ := b.raw.received()
	if len(got) != b.g.Calls {
		return fmt.Errorf("%s: %d replies to %d calls when the siege is over (ended: %v %v)", b.name, len(got), b.g.Calls, ended, b.raw.err)
	}
	have := map[string][]byte{}
	for _, m := range got {
		have[rawID(m)] = m
	}
	for j := 0; j < b.g.Calls; j++ {
		m, ok := have[b.id(j)]
		if !ok {
			return fmt.Errorf("%s: no reply to call %d", b.name, j)
		}
		if err := b.want(j).checkBytes(m); err != nil {
			return fmt.Errorf("%s: call %d: %w", b.name, j, err)
		}
	}
	return nil
}

func c17SiegeRun(r *pbt.Rec, c c17Siege) error {
	hold := make(chan struct{})
	released := false
	release := func() {
		if !released {
			released = true
			close(hold)
		}
	}
	defer release()
	var held, deaf atomic.Int64
	actor := jlibhttp.NewActor()
	actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, params []any) (any, error) { return params, nil })
	actor.OnRequest("hold", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		held.Add(1)
		<-hold
		return "held", nil
	})
	actor.OnRequest("deaf", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		deaf.Add(1)
		n := 0
		fmt.Sscan(fmt.Sprint(params...), &n)
		return strings.Repeat("d", n), nil
	})
	srv := lbStart(c.Server, actor, lbOptions{serial: c.Serial})
	defer srv.close()
	var kinds []string
	for _, k := range lbClients[c.Server] {
		if !strings.HasSuffix(k, "-sys") {
			kinds = append(kinds, k)
		}
	}
	n := 0
	look := func(w jlibhttp.Client, who string) error {
		n++
		id := fmt.Sprintf("w%d", n)
		res, err := lbCall(r, w, jlib.NewRequestMessage(id, "echo", []any{n, who}))
		if err != nil {
			return fmt.Errorf("%s gets no answer: %w", who, err)
		}
		if err := (MsgSpec{Kind: "result", ID: pbt.StrID(id), Result: pbt.Raw([]any{n, who})}).checkFull(res); err != nil {
			return fmt.Errorf("%s gets a wrong answer: %w", who, err)
		}
		return nil
	}
	fresh := func(when string) error {
		for _, kind := range kinds {
			w, err := srv.client(kind)
			if err != nil {
				return err
			}
			err = look(w, "a new "+kind+" client "+when)
			closeClient(w)
			if err != nil {
				return err
			}
		}
		return nil
	}
	old, err := srv.client(kinds[c.Witness%len(kinds)])
	if err != nil {
		return err
	}
	defer closeClient(old)
	if err := look(old, "the witness before"); err != nil {
		return err
	}
	var all []*c17Besieger
	defer func() {
		for _, b := range all {
			b.stop()
		}
	}()
	wantHeld, wantDeaf := 0, 0
	for i, g := range c.Groups {
		r.Label("%s %s %s", g.Kind, g.Do, g.End)
		for k := 0; k < g.Conns; k++ {
			b := &c17Besieger{g: g, name: fmt.Sprintf("g%dc%d", i, k)}
			all = append(all, b)
			if err := b.start(srv); err != nil {
				return fmt.Errorf("besieger %s (%s %s) cannot do its part: %w", b.name, g.Kind, g.Do, err)
			}
		}
		each := g.Calls
		if strings.HasPrefix(g.Kind, "http") || c.Serial {
			each = 1
		}
		switch g.Do {
		case "hold":
			wantHeld += each * g.Conns
		case "deaf":
			wantDeaf += each * g.Conns
		}
		r.NonTrivial()
	}
	// the siege is on when all the handlers run; whether they do is not at issue
	last, still := int64(-1), 0
	for still < 5 {
		now := held.Load() + deaf.Load()
		if now >= int64(wantHeld+wantDeaf) && now == last {
			still++
		}
		if now == last {
			still++
		} else {
			still = 0
		}
		last = now
		time.Sleep(10 * time.Millisecond)
	}
	if last >= int64(wantHeld+wantDeaf) {
		r.Label("siege complete")
	}
	if err := look(old, "the witness during the siege"); err != nil {
		return err
	}
	if err := fresh("during the siege"); err != nil {
		return err
	}
	release()
	for _, b := range all {
		if err := b.finish(r); err != nil {
			return err
		}
	}
	if err := look(old, "the witness after the siege"); err != nil {
		return err
	}
	if err := fresh("after the siege"); err != nil {
		return err
	}
	if c.Leaks {
		r.Label("leaks")
		closeClient(old)
		for _, b := range all {
			b.stop()
		}
		clock := pbt.StartClock()
		var g string
		if !eventually(r.Slow(patience), func() bool {
			time.Sleep(10 * time.Millisecond)
			g = leftovers()
			return g == ""
		}) {
			return clock.Late("all clients are gone and the server still runs\n%s", g)
		}
	}
	return nil
}

func c17SiegeGen(t *rapid.T) c17Siege {
	c := c17Siege{Server: pbt.Pick(t, "server", "ws", "h2c", "h2", "gw", "gws", "wss", "h1", "h1s"), Witness: pbt.Uniform(t, 10, "witness")}
	c.Serial = !strings.HasPrefix(c.Server, "gw") && pbt.Chance(t, 30, "serial")
	c.Leaks = pbt.Chance(t, 30, "leaks")
	var kinds []string
	for _, k := range lbClients[c.Server] {
		if !strings.HasSuffix(k, "-sys") {
			kinds = append(kinds, k)
		}
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "groups"); i < n; i++ {
		g := c17Besiegers{Kind: pbt.Pick(t, "kind", kinds...), Do: pbt.Pick(t, "do", "hold", "deaf", "hold", "deaf", "idle", "half")}
		once := strings.HasPrefix(g.Kind, "http")
		switch g.Do {
		case "hold":
			if g.Conns, g.Calls = 1+pbt.Uniform(t, 4, "conns"), 1+pbt.Uniform(t, 200, "calls"); once {
				g.Conns, g.Calls = 1+pbt.Uniform(t, 150, "crowd"), 1
			}
		case "deaf":
			g.Small = pbt.Chance(t, 70, "small")
			g.Conns, g.Calls, g.Size = 1+pbt.Uniform(t, 2, "conns"), 130, 1000*(1+pbt.Uniform(t, 200, "size"))
			if once {
				g.Conns, g.Calls, g.Size = 1+pbt.Uniform(t, 4, "conns"), 1, 1000000*(1+pbt.Uniform(t, 14, "megabytes"))
			}
		default:
			g.Conns = 1 + pbt.Uniform(t, 100, "conns")
		}
		if pbt.Chance(t, 60, "end?") {
			g.End = pbt.Pick(t, "end", "clean", "abrupt", "cancel", "reset")
		}
		c.Groups = append(c.Groups, g)
	}
	return c
}
