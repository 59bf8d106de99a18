package props

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c16Op struct {
	Notify bool `json:"notify,omitempty"` // the operation is a notification
	Wait   bool `json:"wait,omitempty"`   // for the reply before the next operation
	To     int  `json:"to,omitempty"`     // 0 its own session, k the k-th next client's
	All    bool `json:"all,omitempty"`    // one message to every session
	N      int  `json:"n,omitempty"`      // pushes before the handler returns
	After  int  `json:"after,omitempty"`  // pushes after it has returned
	Pad    int  `json:"pad,omitempty"`    // bytes of padding in the result
	Sleep  int  `json:"sleep,omitempty"`  // ms in the handler; -1 yields
	Big    int  `json:"big,omitempty"`    // bytes of padding in every push
	Bad    int  `json:"bad,omitempty"`    // after every so many pushes one that cannot be encoded
	Block  bool `json:"block,omitempty"`  // the handler waits for the next operation to be handled
	Held   bool `json:"held,omitempty"`   // the handler returns when its client has got the pushes
	Same   bool `json:"same,omitempty"`   // the pushes are all alike
}

type c16Client struct {
	Lib   bool    `json:"lib,omitempty"` // the library's client
	Delay int     `json:"delay,omitempty"`
	Stall int     `json:"stall,omitempty"` // ms for which it reads nothing when the operations start
	Ops   []c16Op `json:"ops"`
	End   string  `json:"end,omitempty"` // how it hangs up right after the operations; "" stays
}

type c16Case struct {
	Server   string      `json:"server"`
	Client   string      `json:"client"`
	Serial   bool        `json:"serial,omitempty"`
	Children int         `json:"children,omitempty"` // depth of the actor below the first
	Pool     []MsgSpec   `json:"pool"`
	Clients  []c16Client `json:"clients"`
}

func (c c16Case) push(op c16Op, client, i, k int) MsgSpec {
	if op.Same {
		k = 0
	}
	s := c.Pool[(i*7+k)%len(c.Pool)]
	s.Trace = fmt.Sprintf("push/%d/%d/%d", client, i, k)
	if op.Big > 0 && (s.Kind == "notify" || s.Kind == "request") {
		s.List, s.Params = true, pbt.Raw([]any{strings.Repeat("b", op.Big)})
	}
	return s
}

func (c c16Case) result(op c16Op, client, i int) any {
	return []any{client, i, strings.Repeat("x", op.Pad)}
}

type c16Closed struct {
	session    jlibhttp.RPCSession
	id, header string
	after      bool // the client had hung up
}

type c16State struct {
	mu       sync.Mutex
	sessions map[int]jlibhttp.RPCSession
	ids      map[int]map[string]bool
	objs     map[int]jlibhttp.RPCSession
	handled  map[[2]int]int
	order    map[int][]int
	active   map[int]int
	after    int // background pushers still running
	closed   []c16Closed
	hungUp   map[int]bool
	errs     []error
}

func (s *c16State) fail(format string, args ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.errs) < 5 {
		s.errs = append(s.errs, fmt.Errorf(format, args...))
	}
}

func (s *c16State) failErr(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.errs = append(s.errs, err)
}

func (s *c16State) see(client int, req *jlibhttp.RPCRequest) {
	if req.Session() == nil {
		s.fail("a request of client %d has no session", client)
		return
	}
	if h := req.HttpRequest().Header.Get("X-Client"); h != fmt.Sprint(client) {
		s.fail("a request of client %d has the connection of client %q", client, h)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ids[client] == nil {
		s.ids[client] = map[string]bool{}
	}
	s.ids[client][req.Session().SessionID()] = true
	if s.objs[client] == nil {
		s.objs[client] = req.Session()
	} else if s.objs[client] != req.Session() && len(s.errs) < 5 {
		s.errs = append(s.errs, fmt.Errorf("two requests of client %d come with different sessions", client))
	}
}

func c16Run(r *pbt.Rec, c c16Case) error {
	st := &c16State{sessions: map[int]jlibhttp.RPCSession{}, ids: map[int]map[string]bool{}, objs: map[int]jlibhttp.RPCSession{}, handled: map[[2]int]int{},
		order: map[int][]int{}, active: map[int]int{}, hungUp: map[int]bool{}}
	root := jlibhttp.NewActor()
	actor := root
	actors := []*jlibhttp.Actor{root}
	for i := 0; i < c.Children; i++ {
		child := jlibhttp.NewActor()
		actor.AddChild(child)
		actor = child
		actors = append(actors, child)
	}
	onClose := func(req *http.Request, session jlibhttp.RPCSession) {
		st.mu.Lock()
		defer st.mu.Unlock()
		var n int
		h := req.Header.Get("X-Client")
		fmt.Sscan(h, &n)
		st.closed = append(st.closed, c16Closed{session, session.SessionID(), h, st.hungUp[n]})
	}
	for _, a := range actors {
		if err := a.OnClose(onClose); err != nil {
			return err
		}
	}
	target := func(client, to int) jlibhttp.RPCSession {
		st.mu.Lock()
		defer st.mu.Unlock()
		return st.sessions[(client+to)%len(c.Clients)]
	}
	type peer struct {
		raw *rawClient
		lib jlibhttp.Client
		mu  sync.Mutex
		got [][]byte // of the library's client
		id  string
	}
	peers := make([]*peer, len(c.Clients))
	received := func(client int, trace string) bool {
		p := peers[client]
		var got [][]byte
		if p.raw != nil {
			got, _ = p.raw.received()
		} else {
			p.mu.Lock()
			got = p.got[:len(p.got):len(p.got)]
			p.mu.Unlock()
		}
		for n := len(got) - 1; n >= 0; n-- {
			if rawTrace(got[n]) == trace {
				return true
			}
		}
		return false
	}
	actor.OnRequest("hello", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		var client int
		fmt.Sscan(fmt.Sprint(params...), &client)
		st.see(client, req)
		st.mu.Lock()
		st.sessions[client] = req.Session()
		st.mu.Unlock()
		return req.Session().SessionID(), nil
	})
	actor.OnRequest("sync", func(req *jlibhttp.RPCRequest, params []any) (any, error) { return nil, nil })
	actor.OnRequest("op", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		var client, i int
		fmt.Sscan(fmt.Sprint(params[0]), &client)
		fmt.Sscan(fmt.Sprint(params[1]), &i)
		op := c.Clients[client].Ops[i]
		st.see(client, req)
		st.mu.Lock()
		st.active[client]++
		busy := st.active[client]
		st.order[client] = append(st.order[client], i)
		st.mu.Unlock()
		if c.Serial && busy > 1 {
			st.fail("client %d: %d messages are handled at one time", client, busy)
		}
		send := func(k int) {
			if op.Bad > 0 && (k+1)%op.Bad == 0 {
				defer target(client, op.To).Send(jlib.NewNotifyMessage("bad", []any{make(chan int)}))
			}
			if op.All {
				msg := c.push(op, client, i, k).build()
				for t := range c.Clients {
					target(t, 0).Send(msg)
				}
				return
			}
			target(client, op.To).Send(c.push(op, client, i, k).build())
		}
		for k := 0; k < op.N; k++ {
			send(k)
		}
		if op.Block {
			clock := pbt.StartClock()
			if !eventually(r.Slow(patience), func() bool {
				st.mu.Lock()
				defer st.mu.Unlock()
				return st.handled[[2]int{client, i + 1}] > 0
			}) {
				st.failErr(clock.Late("client %d: operation %d is not handled while operation %d is", client, i+1, i))
			}
		}
		if op.Held && op.N > 0 {
			clock := pbt.StartClock()
			if !eventually(r.Slow(patience), func() bool { return received(client, fmt.Sprintf("push/%d/%d/%d", client, i, op.N-1)) }) {
				st.failErr(clock.Late("client %d: the pushes of operation %d do not arrive while its handler runs", client, i))
			}
		}
		if op.Sleep < 0 {
			runtime.Gosched()
		}
		time.Sleep(time.Duration(op.Sleep) * time.Millisecond)
		if op.After > 0 {
			st.mu.Lock()
			st.after++
			st.mu.Unlock()
			go func() {
				for k := op.N; k < op.N+op.After; k++ {
					send(k)
				}
				st.mu.Lock()
				st.after--
				st.mu.Unlock()
			}()
		}
		st.mu.Lock()
		st.active[client]--
		st.handled[[2]int{client, i}]++
		st.mu.Unlock()
		return c.result(op, client, i), nil
	})
	srv := lbStart(c.Server, root, lbOptions{serial: c.Serial})
	defer srv.close()

	hangUp := func(i int, how string) {
		st.mu.Lock()
		st.hungUp[i] = true
		st.mu.Unlock()
		if p := peers[i]; p.raw != nil {
			p.raw.close(how)
		} else {
			closeClient(p.lib)
		}
	}
	for i, cl := range c.Clients {
		p := &peer{}
		peers[i] = p
		h := http.Header{"X-Client": []string{fmt.Sprint(i)}}
		hello := jlib.NewRequestMessage("hello", "hello", []any{i})
		if cl.Lib {
			client, err := srv.client(c.Client)
			if err != nil {
				return err
			}
			p.lib = client
			defer closeClient(client)
			client.SetExtraHeader(h)
			client.(jlibhttp.Streamable).OnMessage(func(m jlib.Message) {
				b, err := jlib.MessageBytes(m)
				if err != nil {
					b = []byte(err.Error())
				}
				p.mu.Lock()
				p.got = append(p.got, b)
				p.mu.Unlock()
			})
			res, err := lbCall(r, client, hello)
			if err != nil {
				return fmt.Errorf("client %d: %w", i, err)
			}
			if !res.IsResult() {
				return fmt.Errorf("client %d: hello is answered %v", i, res.MustError())
			}
			p.id, _ = res.MustResult().(string)
			continue
		}
		raw, err := rawDial(srv, c.Client, h, time.Duration(cl.Delay)*time.Millisecond)
		if envProblem(err) {
			return pbt.Inconclusive(err)
		}
		if err != nil {
			return fmt.Errorf("client %d cannot connect: %w", i, err)
		}
		p.raw = raw
		defer raw.done()
		b, _ := jlib.MessageBytes(hello)
		if err := raw.send(b); err != nil {
			return fmt.Errorf("client %d: %w", i, err)
		}
		b, err = raw.awaitID(r.Slow(patience), "hello")
		if err != nil {
			return fmt.Errorf("client %d: %w", i, err)
		}
		var m struct{ Result string }
		json.Unmarshal(b, &m)
		p.id = m.Result
	}

	// the programs
	stalled := time.Now()
	for i, cl := range c.Clients {
		if cl.Stall > 0 && peers[i].raw != nil {
			d := time.Duration(cl.Stall) * time.Millisecond
			peers[i].raw.stall(d)
			if e := time.Now().Add(d); e.After(stalled) {
				stalled = e
			}
			r.Label("stall %ds", cl.Stall/1000)
		}
	}
	errs := make([]error, len(c.Clients))
	var wg sync.WaitGroup
	for i, cl := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var calls sync.WaitGroup
			var mu sync.Mutex
			fail := func(err error) {
				mu.Lock()
				if errs[i] == nil {
					errs[i] = fmt.Errorf("client %d: %w", i, err)
				}
				mu.Unlock()
			}
			for j, op := range cl.Ops {
				id := fmt.Sprintf("op%d", j)
				var msg jlib.Message = jlib.NewRequestMessage(id, "op", []any{i, j})
				if op.Notify {
					msg = jlib.NewNotifyMessage("op", []any{i, j})
				}
				if p := peers[i]; p.raw != nil {
					b, _ := jlib.MessageBytes(msg)
					if err := p.raw.send(b); err != nil {
						fail(fmt.Errorf("sending: %w", err))
						return
					}
					if op.Wait && !op.Notify {
						if _, err := p.raw.awaitID(r.Slow(patience), id); err != nil {
							fail(err)
							return
						}
					}
				} else if op.Notify {
					if err := p.lib.Send(context.Background(), msg); err != nil {
						fail(fmt.Errorf("sending: %w", err))
						return
					}
				} else {
					call := func() {
						res, err := lbCall(r, p.lib, msg.(*jlib.RequestMessage))
						if err != nil {
							fail(err)
							return
						}
						want := MsgSpec{Kind: "result", ID: pbt.StrID(id), Result: pbt.Raw(c.result(op, i, j))}
						if err := want.checkFull(res); err != nil {
							fail(fmt.Errorf("reply %s: %w", id, err))
						}
					}
					if op.Wait || c.Serial || cl.End != "" {
						call()
					} else {
						calls.Add(1)
						go func() { defer calls.Done(); call() }()
					}
				}
			}
			calls.Wait()
			if cl.End != "" {
				hangUp(i, cl.End)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	// all of it is handled
	time.Sleep(time.Until(stalled))
	missing := ""
	clock := pbt.StartClock()
	if !eventually(r.Slow(patience), func() bool {
		st.mu.Lock()
		defer st.mu.Unlock()
		missing = ""
		for i, cl := range c.Clients {
			if cl.End != "" {
				// what it sent last may be lost, what arrived is finished
				if st.active[i] > 0 {
					missing = fmt.Sprintf("a handler of client %d still runs", i)
				}
				continue
			}
			for j := range cl.Ops {
				if st.handled[[2]int{i, j}] == 0 {
					missing = fmt.Sprintf("operation %d of client %d has not been handled", j, i)
				}
			}
		}
		if st.after > 0 {
			missing = "a push does not return"
		}
		return missing == ""
	}) {
		return clock.Late("%s", missing)
	}
	// everything that was sent before is received before this reply; what a
	// handler of a client that hung up still pushes may come later
	ended := map[int]bool{}
	for i, cl := range c.Clients {
		ended[i] = cl.End != ""
	}
	for i, cl := range c.Clients {
		if cl.End != "" {
			continue
		}
		msg := jlib.NewRequestMessage("sync!", "sync", nil)
		if p := peers[i]; p.lib != nil {
			res, err := lbCall(r, p.lib, msg)
			if err != nil {
				return fmt.Errorf("client %d: sync: %w", i, err)
			}
			if !res.IsResult() {
				return fmt.Errorf("client %d: sync is answered %v", i, res.MustError())
			}
		} else {
			// the replies may still be on their way
			calls := 0
			for _, op := range cl.Ops {
				if !op.Notify {
					calls++
				}
			}
			seen := 0
			if _, err := p.raw.await(r.Slow(patience), func(b []byte) bool {
				if strings.HasPrefix(rawID(b), "op") && !rawHas(b, "method") && !strings.HasPrefix(rawTrace(b), "push/") {
					seen++
				}
				return seen == calls
			}); err != nil {
				return fmt.Errorf("client %d got %d of %d replies: %w", i, seen, calls, err)
			}
			b, _ := jlib.MessageBytes(msg)
			if err := p.raw.send(b); err != nil {
				return fmt.Errorf("client %d: %w", i, err)
			}
			if _, err := p.raw.awaitID(r.Slow(patience), "sync!"); err != nil {
				return fmt.Errorf("client %d: %w", i, err)
			}
		}
	}
	for i, cl := range c.Clients {
		var got [][]byte
		if p := peers[i]; p.raw != nil {
			got, _ = p.raw.received()
		} else {
			p.mu.Lock()
			got = p.got
			p.mu.Unlock()
		}
		if err := c.checkReceived(r, i, got, cl, ended); err != nil {
			return fmt.Errorf("client %d: %w", i, err)
		}
	}

	// hanging up
	for i, cl := range c.Clients {
		if cl.End == "" {
			hangUp(i, []string{"clean", "abrupt", "reset"}[i%3])
		}
	}
	clock = pbt.StartClock()
	if !eventually(r.Slow(patience), func() bool {
		st.mu.Lock()
		defer st.mu.Unlock()
		return len(st.closed) >= len(c.Clients)*len(actors)
	}) {
		st.mu.Lock()
		defer st.mu.Unlock()
		return clock.Late("%d clients hung up, %d close callbacks of %d ran", len(c.Clients), len(st.closed), len(c.Clients)*len(actors))
	}
	srv.cancel()
	time.Sleep(time.Millisecond)
	st.mu.Lock()
	defer st.mu.Unlock()
	if len(st.errs) > 0 {
		return st.errs[0]
	}
	owner := map[string]int{}
	for i := range c.Clients {
		if len(st.ids[i]) != 1 {
			return fmt.Errorf("the requests of client %d come with the session ids %v", i, pbt.Keys(st.ids[i]))
		}
		for id := range st.ids[i] {
			if id == "" {
				return fmt.Errorf("the session id of client %d is empty", i)
			}
			if j, dup := owner[id]; dup {
				return fmt.Errorf("clients %d and %d have the same session id", i, j)
			}
			owner[id] = i
			if peers[i].id != id {
				return fmt.Errorf("client %d was told session id %q, its requests have %q", i, peers[i].id, id)
			}
		}
	}
	count := map[int]int{}
	for _, cl := range st.closed {
		i, ok := owner[cl.id]
		if !ok || cl.header != fmt.Sprint(i) {
			return fmt.Errorf("a close callback got session %q of client %q", cl.id, cl.header)
		}
		if cl.session != st.objs[i] {
			return fmt.Errorf("the close callback of client %d got another session than its requests", i)
		}
		if !cl.after {
			return fmt.Errorf("the close callback of client %d ran before it hung up", i)
		}
		count[i]++
	}
	for i, n := range count {
		if n != len(actors) {
			return fmt.Errorf("%d close callbacks ran for client %d, want %d", n, i, len(actors))
		}
	}
	if c.Serial {
		for i, cl := range c.Clients {
			if cl.Lib && !c.sequential(cl) {
				continue
			}
			for k, j := range st.order[i] {
				if k != j {
					return fmt.Errorf("client %d: the messages are handled in the order %v", i, st.order[i])
				}
			}
		}
	}
	for k, n := range st.handled {
		if n != 1 {
			return fmt.Errorf("operation %d of client %d was handled %d times", k[1], k[0], n)
		}
	}
	return nil
}

// sequential tells whether a library client sends in order.
func (c c16Case) sequential(cl c16Client) bool { return c.Serial }

func (c c16Case) checkReceived(r *pbt.Rec, me int, got [][]byte, cl c16Client, ended map[int]bool) error {
	type key struct{ client, op int }
	next := map[key]int{}
	replied := map[int]bool{}
	lastReply := -1
	pushes := 0
	for n, b := range got {
		id := rawID(b)
		trace := rawTrace(b)
		if strings.HasPrefix(trace, "push/") {
			var from, i, k int
			fmt.Sscanf(trace, "push/%d/%d/%d", &from, &i, &k)
			if from >= len(c.Clients) || i >= len(c.Clients[from].Ops) {
				return fmt.Errorf("message %d has a trace id nobody sent: %s", n, trace)
			}
			op := c.Clients[from].Ops[i]
			if op.Same && k == 0 {
				k = next[key{from, i}]
			}
			if !op.All && (from+op.To)%len(c.Clients) != me {
				return fmt.Errorf("message %d belongs to client %d: %s", n, (from+op.To)%len(c.Clients), trace)
			}
			if want := next[key{from, i}]; k != want {
				return fmt.Errorf("message %d is push %d of operation %d of client %d, the next one is %d", n, k, i, from, want)
			}
			if k >= op.N+op.After {
				return fmt.Errorf("message %d was never sent: %s", n, trace)
			}
			if k < op.N && from == me && !cl.Lib && !op.Notify && replied[i] {
				return fmt.Errorf("push %d of operation %d came after its reply", k, i)
			}
			if c.Serial && !cl.Lib && from == me && k < op.N && lastReply > i {
				return fmt.Errorf("push %d of operation %d came after the reply of operation %d", k, i, lastReply)
			}
			next[key{from, i}]++
			if err := c.push(op, from, i, k).checkBytes(b); err != nil {
				return fmt.Errorf("push %s arrived changed: %w", trace, err)
			}
			pushes++
			continue
		}
		if cl.Lib {
			return fmt.Errorf("message %d was never pushed: %.200s", n, b)
		}
		if id == "hello" || id == "sync!" {
			continue
		}
		var j int
		if _, err := fmt.Sscanf(id, "op%d", &j); err != nil || j >= len(cl.Ops) || cl.Ops[j].Notify {
			return fmt.Errorf("message %d was never sent: %.200s", n, b)
		}
		if replied[j] {
			return fmt.Errorf("operation %d got two replies", j)
		}
		replied[j] = true
		want := MsgSpec{Kind: "result", ID: pbt.StrID(id), Result: pbt.Raw(c.result(cl.Ops[j], me, j))}
		if err := want.checkBytes(b); err != nil {
			return fmt.Errorf("reply %s: %w", id, err)
		}
		if c.Serial && j < lastReply {
			return fmt.Errorf("the reply of operation %d came after that of %d", j, lastReply)
		}
		lastReply = j
	}
	if len(cl.Ops) > 1 && pushes > 1 {
		r.NonTrivial()
	}
	if pushes > 100 {
		r.Label("over 100 pushes")
	}
	if ended[me] {
		return nil
	}
	for j, op := range cl.Ops {
		if !op.Notify && !cl.Lib && !replied[j] {
			return fmt.Errorf("operation %d got no reply", j)
		}
	}
	for from, f := range c.Clients {
		if ended[from] {
			continue
		}
		for i, op := range f.Ops {
			if !op.All && (from+op.To)%len(c.Clients) != me {
				continue
			}
			if next[key{from, i}] != op.N+op.After {
				return fmt.Errorf("%d of the %d pushes of operation %d of client %d arrived", next[key{from, i}], op.N+op.After, i, from)
			}
		}
	}
	return nil
}

func c16Gen(t *rapid.T) c16Case {
	route := lbStreaming[pbt.Uniform(t, len(lbStreaming), "route")]
	c := c16Case{Server: route.Server, Client: strings.TrimSuffix(route.Client, "-sys"), Children: pbt.Weighted(t, "children", 70, 20, 10)}
	if !strings.HasPrefix(c.Server, "gw") {
		c.Serial = pbt.Chance(t, 40, "serial")
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "pool"); i < n; i++ {
		m := genMsgSpec(t, pbt.Pick(t, "kind", "notify", "notify", "notify", "request", "result", "error"))
		c.Pool = append(c.Pool, m)
	}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "clients"); i < n; i++ {
		cl := c16Client{Lib: pbt.Chance(t, 30, "lib")}
		if pbt.Chance(t, 20, "delay?") {
			cl.Delay = rapid.IntRange(1, 30).Draw(t, "delay")
		}
		for j, k := 0, 1+pbt.Size(t, 5, 40, "ops"); j < k; j++ {
			op := c16Op{Notify: pbt.Chance(t, 25, "notify"), Wait: pbt.Chance(t, 25, "wait"), All: pbt.Chance(t, 10, "all")}
			if pbt.Chance(t, 30, "cross") {
				op.To = rapid.IntRange(0, n-1).Draw(t, "to")
			}
			op.N = pbt.Size(t, 4, 150, "n")
			if pbt.Chance(t, 25, "after?") {
				op.After = pbt.Size(t, 4, 150, "after")
			}
			if pbt.Chance(t, 5, "pad?") {
				op.Pad = pbt.Size(t, 100, 100000, "pad")
			}
			if pbt.Chance(t, 5, "big?") {
				op.Big = pbt.Size(t, 100, 30000, "big")
			}
			if pbt.Chance(t, 8, "bad?") {
				op.Bad = rapid.IntRange(1, 4).Draw(t, "bad")
			}
			op.Same = pbt.Chance(t, 12, "same")
			if op.To == 0 && !op.All && !op.Same && pbt.Chance(t, 15, "held") {
				op.Held = true
			}
			if pbt.Chance(t, 20, "sleep?") {
				op.Sleep = rapid.IntRange(-1, 2).Draw(t, "sleep")
			}
			if !c.Serial && j+1 < k && pbt.Chance(t, 8, "block") {
				op.Block, op.Wait = true, false
			}
			cl.Ops = append(cl.Ops, op)
		}
		if pbt.Chance(t, 25, "end?") {
			cl.End = pbt.Pick(t, "end", "clean", "abrupt", "cancel", "reset")
			for j := range cl.Ops {
				cl.Ops[j].Held, cl.Ops[j].Block = false, false
			}
		}
		c.Clients = append(c.Clients, cl)
	}
	return c
}

// c16StallGen has a client that reads nothing for seconds while much more is
// pushed to it than the connection and the queue hold.
func c16StallGen(t *rapid.T) c16Case {
	c := c16Gen(t)
	for i := range c.Pool {
		c.Pool[i] = genMsgSpec(t, pbt.Pick(t, "kind", "notify", "request"))
	}
	if len(c.Clients) > 2 {
		c.Clients = c.Clients[:2]
	}
	for i, cl := range c.Clients {
		for j := range cl.Ops {
			op := &c.Clients[i].Ops[j]
			op.Held, op.Block, op.Wait, op.To, op.All = false, false, false, 0, false
		}
		c.Clients[i].End = ""
	}
	c.Clients[0] = c16Client{Stall: pbt.Pick(t, "stall", 1200, 5500, 11000), Ops: []c16Op{{Notify: pbt.Chance(t, 40, "notify"), N: 1},
		{Notify: pbt.Chance(t, 40, "notify"), N: 250 + pbt.Uniform(t, 60, "n"), Big: 60000, After: pbt.Pick(t, "after", 0, 20)}}}
	return c
}

type c16Lanes struct {
	Lanes []c16Case `json:"lanes"`
}

func c16LanesGen(t *rapid.T) c16Lanes {
	var l c16Lanes
	for i, n := 0, 3+pbt.Uniform(t, 3, "lanes"); i < n; i++ {
		l.Lanes = append(l.Lanes, c16StallGen(t))
	}
	return l
}

func c16LanesRun(r *pbt.Rec, l c16Lanes) error {
	errs := make([]error, len(l.Lanes))
	var wg sync.WaitGroup
	for i := range l.Lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			errs[i] = c16Run(r, l.Lanes[i])
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("lane %d: %w", i, err)
		}
	}
	return nil
}

func TestC16(t *testing.T) {
	pbt.Check(t, "C16",
		pbt.Part[c16Case]{Name: "sessions", Quick: 3000, Gen: c16Gen, Run: c16Run},
		pbt.Part[c16Streams]{Name: "streams", Quick: 2400, Gen: c16StreamsGen, Run: c16StreamsRun},
		pbt.Part[c16Lanes]{Name: "stall", Quick: 8, Gen: c16LanesGen, Run: c16LanesRun, Limit: 3 * time.Minute},
	)
}
