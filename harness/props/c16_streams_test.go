package props

import (
	"fmt"
	"net/http"
	"strings"
	"sync"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// Streams of HTTP/2 that share one connection are sessions of their own.
type c16StreamOp struct {
	Do    string `json:"do"` // open call clean cancel
	S     int    `json:"s"`  // which of the open streams
	To    int    `json:"to,omitempty"`
	N     int    `json:"n,omitempty"`
	Big   int    `json:"big,omitempty"`
	Quick bool   `json:"quick,omitempty"` // go on without the reply
}

type c16Streams struct {
	Server string        `json:"server"`
	Client string        `json:"client"`
	Serial bool          `json:"serial,omitempty"`
	Ops    []c16StreamOp `json:"ops"`
}

type c16Stream struct {
	raw    *rawClient
	name   string
	open   bool
	calls  []string
	pushes map[string]int // how many from which operation
}

func c16StreamsRun(r *pbt.Rec, c c16Streams) error {
	var mu sync.Mutex
	sessions := map[string]jlibhttp.RPCSession{}
	ids := map[string]string{}
	closed := map[string]int{}
	var errs []error
	fail := func(format string, args ...any) { errs = append(errs, fmt.Errorf(format, args...)) }
	actor := jlibhttp.NewActor()
	// see notes the session of a stream
	see := func(req *jlibhttp.RPCRequest, name string) {
		mu.Lock()
		defer mu.Unlock()
		if h := req.HttpRequest().Header.Get("X-Client"); h != name {
			fail("a request of stream %s comes with the headers of %q", name, h)
		}
		s := req.Session()
		if s == nil {
			fail("a request of stream %s has no session", name)
			return
		}
		if old, ok := sessions[name]; ok && (old != s || ids[name] != s.SessionID()) {
			fail("two requests of stream %s come with different sessions", name)
		}
		for other, o := range sessions {
			if other != name && (o == s || ids[other] == s.SessionID()) {
				fail("streams %s and %s have the same session or id %q", name, other, s.SessionID())
			}
		}
		sessions[name], ids[name] = s, s.SessionID()
	}
	actor.OnRequest("push", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		name, to, op := fmt.Sprint(params[0]), fmt.Sprint(params[1]), fmt.Sprint(params[2])
		var n, big int
		fmt.Sscan(fmt.Sprint(params[3]), &n)
		fmt.Sscan(fmt.Sprint(params[4]), &big)
		see(req, name)
		mu.Lock()
		s := sessions[to]
		mu.Unlock()
		if s == nil {
			return nil, fmt.Errorf("no session %s", to)
		}
		for k := 0; k < n; k++ {
			s.Send(jlib.NewNotifyMessage("pushed", []any{op, k, strings.Repeat("b", big)}))
		}
		return op, nil
	})
	actor.OnClose(func(hr *http.Request, s jlibhttp.RPCSession) {
		mu.Lock()
		defer mu.Unlock()
		name := hr.Header.Get("X-Client")
		closed[name]++
		if old, ok := sessions[name]; ok && (old != s || ids[name] != s.SessionID()) {
			fail("the close callback of stream %s comes with another session", name)
		}
	})
	problem := func() error {
		mu.Lock()
		defer mu.Unlock()
		if len(errs) > 0 {
			return errs[0]
		}
		return nil
	}
	srv := lbStart(c.Server, actor, lbOptions{serial: c.Serial})
	defer srv.close()
	dial, conns := rawStreams(srv, c.Client)
	var all []*c16Stream
	defer func() {
		for _, s := range all {
			s.raw.done()
		}
		for _, conn := range conns() {
			conn.Close()
		}
	}()
	opened := func() (out []*c16Stream) {
		for _, s := range all {
			if s.open {
				out = append(out, s)
			}
		}
		return
	}
	call := func(s, to *c16Stream, i int, op c16StreamOp) error {
		id := fmt.Sprintf("o%d", i)
		s.calls = append(s.calls, id)
		if op.N > 0 {
			to.pushes[id] = op.N
		}
		m := map[string]any{"jsonrpc": "2.0", "id": id, "method": "push", "params": []any{s.name, to.name, id, op.N, op.Big}}
		if err := s.raw.send(pbt.Raw(m)); err != nil {
			return fmt.Errorf("operation %d: stream %s cannot send: %w", i, s.name, err)
		}
		if !op.Quick {
			if _, err := s.raw.awaitID(r.Slow(patience), id); err != nil {
				return fmt.Errorf("operation %d: stream %s: %w", i, s.name, err)
			}
		}
		return nil
	}
	var settleErr error
	settle := func() { // waits for all the calls
		for _, s := range opened() {
			for _, id := range s.calls {
				if _, err := s.raw.awaitID(r.Slow(patience), id); err != nil && settleErr == nil {
					settleErr = fmt.Errorf("stream %s: %w", s.name, err)
				}
			}
		}
	}
	check := func(s *c16Stream) error {
		want := 0
		for _, n := range s.pushes {
			want += n
		}
		count := func() (n int) {
			got, _ := s.raw.received()
			for _, b := range got {
				if rawHas(b, "method") {
					n++
				}
			}
			return
		}
		clock := pbt.StartClock()
		if !eventually(r.Slow(patience), func() bool { return count() >= want }) {
			return clock.Late("stream %s got %d of %d pushes", s.name, count(), want)
		}
		next := map[string]int{}
		got, _ := s.raw.received()
		replies := map[string]int{}
		for _, b := range got {
			if !rawHas(b, "method") {
				replies[rawID(b)]++
				continue
			}
			m, err := jlib.ParseBytes(b)
			if err != nil {
				return fmt.Errorf("stream %s got %.200s: %w", s.name, b, err)
			}
			ps := m.MustParams()
			op, k := fmt.Sprint(ps[0]), fmt.Sprint(ps[1])
			if k != fmt.Sprint(next[op]) {
				return fmt.Errorf("stream %s got push %s of operation %s, the next one is %d", s.name, k, op, next[op])
			}
			next[op]++
			if next[op] > s.pushes[op] {
				return fmt.Errorf("stream %s got push %s of operation %s, which sent it %d", s.name, k, op, s.pushes[op])
			}
		}
		for _, id := range s.calls {
			if replies[id] != 1 {
				return fmt.Errorf("stream %s got %d replies to %s", s.name, replies[id], id)
			}
			delete(replies, id)
		}
		if len(replies) > 0 {
			return fmt.Errorf("stream %s got replies %v to the calls of others", s.name, replies)
		}
		return nil
	}
	for i, op := range c.Ops {
		now := opened()
		if op.Do != "open" && len(now) == 0 {
			continue
		}
		switch op.Do {
		case "open":
			s := &c16Stream{name: fmt.Sprintf("s%d", len(all)), open: true, pushes: map[string]int{}}
			raw, err := dial(http.Header{"X-Client": []string{s.name}})
			if envProblem(err) {
				return pbt.Inconclusive(err)
			}
			if err != nil {
				return fmt.Errorf("operation %d: no stream %s: %w", i, s.name, err)
			}
			s.raw = raw
			all = append(all, s)
			if err := call(s, s, i, c16StreamOp{N: op.N}); err != nil {
				return err
			}
		case "call":
			s, to := now[op.S%len(now)], now[op.To%len(now)]
			if s != to {
				r.NonTrivial()
			}
			if err := call(s, to, i, op); err != nil {
				return err
			}
		default:
			s := now[op.S%len(now)]
			settle()
			if settleErr != nil {
				return settleErr
			}
			if err := check(s); err != nil {
				return fmt.Errorf("operation %d: %w", i, err)
			}
			r.Label("%s beside %d others", op.Do, min(len(now)-1, 3))
			s.raw.close(op.Do)
			s.open = false
			clock := pbt.StartClock()
			if !eventually(r.Slow(patience), func() bool { mu.Lock(); defer mu.Unlock(); return closed[s.name] > 0 }) {
				return clock.Late("operation %d: stream %s has ended (%s) and its close callback does not run", i, s.name, op.Do)
			}
		}
		if err := problem(); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
	}
	settle()
	if settleErr != nil {
		return settleErr
	}
	if len(conns()) == 1 && len(all) > 1 {
		r.Label("one connection")
	}
	for _, s := range opened() {
		if err := check(s); err != nil {
			return err
		}
		mu.Lock()
		n := closed[s.name]
		mu.Unlock()
		if n > 0 {
			return fmt.Errorf("stream %s is open and its close callback ran", s.name)
		}
	}
	for _, conn := range conns() {
		conn.Close()
	}
	clock := pbt.StartClock()
	missing := ""
	if !eventually(r.Slow(patience), func() bool {
		mu.Lock()
		defer mu.Unlock()
		missing = ""
		for _, s := range all {
			if closed[s.name] == 0 {
				missing = s.name
			}
		}
		return missing == ""
	}) {
		return clock.Late("the connection has ended and the close callback of stream %s does not run", missing)
	}
	mu.Lock()
	for _, s := range all {
		if closed[s.name] != 1 {
			fail("the close callback of stream %s ran %d times", s.name, closed[s.name])
		}
	}
	mu.Unlock()
	return problem()
}

func c16StreamsGen(t *rapid.T) c16Streams {
	c := c16Streams{Server: pbt.Pick(t, "server", "h2c", "h2", "gw", "gws")}
	c.Client = map[string]string{"h2c": "h2c", "h2": "h2", "gw": "h2c", "gws": "h2"}[c.Server]
	c.Serial = !strings.HasPrefix(c.Server, "gw") && pbt.Chance(t, 30, "serial")
	for i, n := 0, 2+pbt.Size(t, 12, 60, "ops"); i < n; i++ {
		op := c16StreamOp{Do: "open"}
		if i > 1 {
			op.Do = []string{"open", "call", "clean", "cancel"}[pbt.Weighted(t, "do", 20, 60, 10, 10)]
		}
		op.S, op.To = pbt.Uniform(t, 8, "s"), pbt.Uniform(t, 8, "to")
		op.N = pbt.Size(t, 3, 150, "n")
		if op.Do == "call" {
			op.Quick = pbt.Chance(t, 50, "quick")
			if pbt.Chance(t, 10, "big?") {
				op.Big = pbt.Size(t, 100, 60000, "big")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}
