package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// The streaming client over an in-memory transport, on a virtual clock.
//
// All times are microseconds after the start. Calls start at whole
// milliseconds, replies arrive with 100us, pushes with 300us and connection
// events with 500us on top of one, so that no two kinds coincide.

type sReply struct {
	Delay int64           `json:"delay"` // ms after the request was written
	Err   bool            `json:"err,omitempty"`
	Body  json.RawMessage `json:"body"`
}

type sCall struct {
	At      int64    `json:"at"` // ms
	ID      pbt.ID   `json:"id"`
	IDType  string   `json:"idtype,omitempty"`
	Trace   string   `json:"trace,omitempty"`
	Params  []any    `json:"params,omitempty"`
	Replies []sReply `json:"replies,omitempty"`
	Unwrap  bool     `json:"unwrap,omitempty"`
}

type sPush struct {
	At   int64  `json:"at"`
	Kind string `json:"kind"` // notify, request, result, error, nullerr, none (a frame that is no message)
}

// sEvent ends the connection that is open at the time.
type sEvent struct {
	At   int64  `json:"at"`
	Kind string `json:"kind"` // drop, readerr, close, reset, writefail (the next write fails), refuse (the next connect fails)
}

type sSend struct {
	At int64 `json:"at"`
}

type sCase struct {
	Calls    []sCall       `json:"calls"`
	Sends    []sSend       `json:"sends,omitempty"` // notifications sent by the client
	Pushes   []sPush       `json:"pushes,omitempty"`
	Events   []sEvent      `json:"events,omitempty"`
	Blocks   map[int]int64 `json:"blocks,omitempty"` // the nth write takes so many ms
	Lags     map[int]int64 `json:"lags,omitempty"`   // the nth connection's read returns so many ms after the client closed it
	OnConn   string        `json:"onconn,omitempty"` // "", count, send, call
	OnMsg    string        `json:"onmsg,omitempty"`  // "", send: the message handler sends a notification for each push
	Waiters  int           `json:"waiters,omitempty"`
	NoHandle bool          `json:"nohandle,omitempty"` // no message handler
	Explicit bool          `json:"explicit,omitempty"` // connect at the start with a context of its own
}

func (c sCall) id() any {
	if c.ID.I == nil {
		return *c.ID.S
	}
	i := *c.ID.I
	switch c.IDType {
	case "int64":
		return i
	case "int32":
		return int32(i)
	case "int16":
		return int16(i)
	case "int8":
		return int8(i)
	case "uint":
		return uint(i)
	case "uint8":
		return uint8(i)
	case "uint16":
		return uint16(i)
	case "uint32":
		return uint32(i)
	case "uint64":
		return uint64(i)
	}
	return int(i)
}

const sTimeout = 10 * time.Second

// sConn is one connection of the fake transport.
type sConn struct {
	n      int
	in     chan sFrame
	closed chan struct{}
	once   sync.Once
	ended  time.Duration // when it ended, as seen by the server
	local  bool          // it was closed by the client
	errs   []error       // what its reads and writes have failed with before it ended
}

type sFrame struct {
	msg  jlib.Message
	call int // 1+index of the call this replies to
	err  error
}

type sWrite struct {
	at   time.Duration
	conn int
	msg  jlib.Message
	call int // 1+index, 0 for others
	fail bool
}

type sDelivered struct {
	at   time.Duration
	json string
	call int
	conn int
}

// sTransport implements jlibhttp.Transport.
type sTransport struct {
	mu        sync.Mutex
	w         *sWorld
	conn      *sConn
	conns     []*sConn
	refuse    int
	failNext  int
	refusals  []time.Duration
	replaced  bool // a handler that was refused ran
	writes    []sWrite
	delivered []sDelivered
	writers   int
	overlap   bool
	settled   bool // no more faults
}

type sWorld struct {
	c      sCase
	t0     time.Time
	tr     *sTransport
	client *jlibhttp.StreamingClient
	mu     sync.Mutex
	errs   []error
	got    []string // messages handed to the message handler
	wg     sync.WaitGroup
	stop   chan struct{}
}

func (w *sWorld) now() time.Duration { return time.Since(w.t0) }

func (w *sWorld) fail(format string, args ...any) {
	w.mu.Lock()
	w.errs = append(w.errs, fmt.Errorf(format, args...))
	w.mu.Unlock()
}

var errBadFrame = errors.New("bad frame")
var errBrokenPipe = errors.New("broken pipe")
var errReset = errors.New("reset by the user")

// failed notes an error the client sees on the connection.
func (t *sTransport) failed(c *sConn, err error) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !c.local {
		c.errs = append(c.errs, err)
	}
	return err
}

func (t *sTransport) Connect(ctx context.Context, u *url.URL, h http.Header) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.conn != nil {
		t.w.fail("Connect on a transport that is connected")
	}
	if t.refuse > 0 {
		t.refuse--
		t.refusals = append(t.refusals, t.w.now())
		return jlibhttp.TransportConnectFailed
	}
	t.conn = &sConn{n: len(t.conns), in: make(chan sFrame, 10000), closed: make(chan struct{})}
	t.conns = append(t.conns, t.conn)
	return nil
}

// end closes the connection at the server's or the client's side.
func (t *sTransport) end(c *sConn) {
	c.once.Do(func() { c.ended = t.w.now(); close(c.closed) })
}

func (t *sTransport) Close() {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.conn != nil {
		t.conn.once.Do(func() { t.conn.ended, t.conn.local = t.w.now(), true; close(t.conn.closed) })
		t.conn = nil
	}
}

func (t *sTransport) Connected() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.conn != nil
}

func (t *sTransport) ReadMessage() (jlib.Message, bool, error) {
	t.mu.Lock()
	c := t.conn
	t.mu.Unlock()
	if c == nil {
		return nil, false, jlibhttp.TransportClosed
	}
	select {
	case f := <-c.in:
		if f.err != nil {
			return nil, false, t.failed(c, f.err)
		}
		if f.msg == nil {
			return nil, false, nil
		}
		t.mu.Lock()
		t.delivered = append(t.delivered, sDelivered{t.w.now(), msgText(f.msg), f.call, c.n})
		t.mu.Unlock()
		return f.msg, true, nil
	case <-c.closed:
		if lag := t.w.c.Lags[c.n]; lag > 0 && c.local {
			time.Sleep(time.Duration(lag) * time.Millisecond)
		}
		return nil, false, t.failed(c, jlibhttp.TransportClosed)
	}
}

func msgText(m jlib.Message) string {
	b, err := jlib.MessageBytes(m)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return string(b)
}

func (t *sTransport) WriteMessage(m jlib.Message) error {
	b, err := jlib.MessageBytes(m)
	if err != nil {
		return err
	}
	seen, err := jlib.ParseBytes(b)
	if err != nil {
		return err
	}
	t.mu.Lock()
	c := t.conn
	n := len(t.writes)
	t.writers++
	if t.writers > 1 {
		t.overlap = true
	}
	block := t.w.c.Blocks[n]
	if t.settled {
		block = 0
	}
	wr := sWrite{at: t.w.now(), msg: seen, conn: -1}
	if c != nil {
		wr.conn = c.n
	}
	if m := seen.IsRequestOrNotify(); m {
		fmt.Sscanf(seen.MustMethod(), "m%d", &wr.call)
	}
	if t.failNext > 0 {
		t.failNext--
		wr.fail = true
	}
	t.writes = append(t.writes, wr)
	t.mu.Unlock()
	defer func() { t.mu.Lock(); t.writers--; t.mu.Unlock() }()
	if c == nil {
		return jlibhttp.TransportClosed
	}
	if wr.fail {
		t.end(c)
		return t.failed(c, errBrokenPipe)
	}
	if block > 0 {
		select {
		case <-time.After(time.Duration(block) * time.Millisecond):
		case <-c.closed:
			return t.failed(c, errBrokenPipe)
		}
	}
	select {
	case <-c.closed:
		return t.failed(c, errBrokenPipe)
	default:
	}
	if wr.call > 0 && wr.call <= len(t.w.c.Calls) {
		t.w.answer(c, wr.call, seen)
	}
	if seen.IsRequest() && seen.MustMethod() == "hello" {
		c.in <- sFrame{msg: mustParse(map[string]any{"jsonrpc": "2.0", "id": seen.MustId(), "result": "hi"})}
	}
	return nil
}

func mustParse(v any) jlib.Message {
	m, err := jlib.ParseBytes(pbt.Raw(v))
	if err != nil {
		panic(err)
	}
	return m
}

// answer schedules the planned replies of a call.
func (w *sWorld) answer(c *sConn, call int, seen jlib.Message) {
	at := w.now().Truncate(time.Millisecond)
	for _, rp := range w.c.Calls[call-1].Replies {
		o := map[string]any{"jsonrpc": "2.0", "id": seen.MustId()}
		if tr := seen.TraceId(); tr != "" {
			o["traceid"] = tr
		}
		if rp.Err {
			o["error"] = map[string]any{"code": 100 + call, "message": "no", "data": rp.Body}
		} else {
			o["result"] = []any{call, rp.Body}
		}
		due := at + time.Duration(rp.Delay)*time.Millisecond + 100*time.Microsecond - w.now()
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			select {
			case <-time.After(due):
			case <-w.stop:
				return
			}
			select {
			case <-c.closed:
			default:
				c.in <- sFrame{msg: mustParse(o), call: call}
			}
		}()
	}
}

type sOutcome struct {
	start, end time.Duration
	msg        jlib.Message
	out        json.RawMessage
	err        error
	unwrap     bool
}

// sHello is a use of the client by the connected handler.
type sHello struct {
	start, end time.Duration
	err        error
}

// sWait is the end of a wait for the first connection.
type sWait struct {
	at  time.Duration
	err error
}

type sResult struct {
	replaced  bool // a handler that was refused ran
	hellos    []sHello
	out       []sOutcome
	closes    []time.Duration
	connects  []time.Duration
	waits     []sWait
	sendErr   []error
	conns     []*sConn
	writes    []sWrite
	delivered []sDelivered
	got       []string
	refusals  []time.Duration
	t0        time.Time
}

// sRun executes the case in a bubble and checks everything that holds of it.
func sRun(r *pbt.Rec, c sCase) (err error) {
	defer func() {
		if p := recover(); p != nil && err == nil {
			buf := make([]byte, 1<<20)
			err = fmt.Errorf("panic: %v\n%s", p, bubbleStacks(string(buf[:runtime.Stack(buf, true)])))
		}
	}()
	synctest.Test(r.T, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = sBubble(r, c)
		time.Sleep(time.Minute) // for timers that are still running
	})
	return err
}

// bubbleStacks keeps the goroutines that belong to a bubble.
func bubbleStacks(s string) string {
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(strings.SplitN(g, "\n", 2)[0], "synctest bubble") && len(keep) < 12 {
			keep = append(keep, g)
		}
	}
	return strings.Join(keep, "\n\n")
}

func sBubble(r *pbt.Rec, c sCase) error {
	w := &sWorld{c: c, t0: time.Now(), stop: make(chan struct{})}
	u, _ := url.Parse("ws://nowhere:1/")
	w.tr = &sTransport{w: w}
	client := &jlibhttp.StreamingClient{}
	client.InitStreaming(u, w.tr)
	w.client = client
	bg := context.Background()
	res := &sResult{t0: w.t0, sendErr: make([]error, len(c.Sends)), out: make([]sOutcome, len(c.Calls))}
	var mu sync.Mutex
	onClose := func() { mu.Lock(); res.closes = append(res.closes, w.now()); mu.Unlock() }
	if err := client.OnClose(onClose); err != nil {
		return err
	}
	if !c.NoHandle {
		err := client.OnMessage(func(m jlib.Message) {
			mu.Lock()
			if s := msgText(m); !helloText(s) {
				res.got = append(res.got, s)
			}
			mu.Unlock()
			if c.OnMsg == "send" && m.IsNotify() && client.Connected() {
				client.Send(bg, jlib.NewNotifyMessage("ack", nil))
			}
		})
		if err != nil {
			return err
		}
	}
	if c.OnConn != "" {
		err := client.OnConnected(func() {
			mu.Lock()
			res.connects = append(res.connects, w.now())
			mu.Unlock()
			switch c.OnConn {
			case "send":
				h := sHello{start: w.now()}
				if err := client.Send(bg, jlib.NewNotifyMessage("hello", nil)); err != nil {
					h.err = fmt.Errorf("the connected handler cannot send: %v", err)
				}
				h.end = w.now()
				mu.Lock()
				res.hellos = append(res.hellos, h)
				mu.Unlock()
			case "call":
				hs := w.now()
				resmsg, err := client.Call(bg, jlib.NewRequestMessage("hello-id", "hello", nil))
				h := sHello{start: hs, end: w.now()}
				if err != nil {
					h.err = fmt.Errorf("the connected handler cannot call: %v", err)
				} else if !resmsg.IsResult() {
					h.err = fmt.Errorf("the connected handler's call returned %s", msgText(resmsg))
				}
				mu.Lock()
				res.hellos = append(res.hellos, h)
				mu.Unlock()
			}
		})
		if err != nil {
			return err
		}
	}
	// handlers stay what they are
	extra := func(what string, err error) error {
		if err == nil {
			return fmt.Errorf("a second %s handler is accepted", what)
		}
		return nil
	}
	again := func() { mu.Lock(); res.replaced = true; mu.Unlock() }
	if err := extra("close", client.OnClose(again)); err != nil {
		return err
	}
	if !c.NoHandle {
		if err := extra("message", client.OnMessage(func(jlib.Message) { again() })); err != nil {
			return err
		}
	}
	if c.OnConn != "" {
		if err := extra("connected", client.OnConnected(again)); err != nil {
			return err
		}
	}
	if client.Wait() != nil {
		return errors.New("Wait before any connection returned an error")
	}
	var calls sync.WaitGroup
	connectCtx, cancelConnect := context.WithCancel(bg)
	defer cancelConnect()
	if c.Explicit {
		if err := client.Connect(connectCtx); err != nil {
			return fmt.Errorf("Connect: %v", err)
		}
		for i := 0; i < c.Waiters; i++ {
			go func() {
				err := client.Wait()
				mu.Lock()
				res.waits = append(res.waits, sWait{w.now(), err})
				mu.Unlock()
			}()
		}
		synctest.Wait()
	}
	for i := range c.Calls {
		call := c.Calls[i]
		calls.Add(1)
		go func() {
			defer calls.Done()
			time.Sleep(time.Duration(call.At) * time.Millisecond)
			req := jlib.NewRequestMessage(call.id(), "m"+strconv.Itoa(i+1), pbt.MustDec(pbt.Raw(call.Params)))
			req.SetTraceId(call.Trace)
			o := sOutcome{start: w.now(), unwrap: call.Unwrap}
			if call.Unwrap {
				var v any
				o.err = client.UnwrapCall(bg, req, &v)
				if o.err == nil {
					o.out = pbt.Raw(v)
				}
			} else {
				o.msg, o.err = client.Call(bg, req)
			}
			o.end = w.now()
			if !eqID(req.Id, call.id()) || req.TraceId() != call.Trace {
				w.fail("the caller's request was changed by the call: id %v trace %q", req.Id, req.TraceId())
			}
			mu.Lock()
			res.out[i] = o
			mu.Unlock()
		}()
	}
	for i := range c.Sends {
		s := c.Sends[i]
		calls.Add(1)
		go func() {
			defer calls.Done()
			time.Sleep(time.Duration(s.At)*time.Millisecond + 20*time.Microsecond)
			err := client.Send(bg, jlib.NewNotifyMessage("s"+strconv.Itoa(i+1), nil))
			mu.Lock()
			res.sendErr[i] = err
			mu.Unlock()
		}()
	}
	for i := range c.Pushes {
		p := c.Pushes[i]
		calls.Add(1)
		go func() {
			defer calls.Done()
			time.Sleep(time.Duration(p.At)*time.Millisecond + 300*time.Microsecond + time.Duration(i)*50*time.Nanosecond)
			w.tr.mu.Lock()
			conn := w.tr.conn
			w.tr.mu.Unlock()
			if conn == nil {
				return
			}
			var f sFrame
			switch p.Kind {
			case "notify":
				f.msg = mustParse(map[string]any{"jsonrpc": "2.0", "method": "push", "params": []any{i}})
			case "request":
				f.msg = mustParse(map[string]any{"jsonrpc": "2.0", "id": 1000000 + i, "method": "ask", "params": []any{i}})
			case "result":
				f.msg = mustParse(map[string]any{"jsonrpc": "2.0", "id": fmt.Sprintf("nobody-%d", i), "result": i})
			case "error":
				f.msg = mustParse(map[string]any{"jsonrpc": "2.0", "id": 2000000 + i, "error": map[string]any{"code": 1, "message": "x"}})
			}
			select {
			case <-conn.closed:
			case conn.in <- f:
			}
		}()
	}
	events, kinds := make([]time.Duration, 0), make([]string, 0)
	for i := range c.Events {
		e := c.Events[i]
		calls.Add(1)
		go func() {
			defer calls.Done()
			time.Sleep(time.Duration(e.At)*time.Millisecond + 500*time.Microsecond + time.Duration(i)*time.Microsecond)
			mu.Lock()
			events, kinds = append(events, w.now()), append(kinds, e.Kind)
			mu.Unlock()
			w.tr.mu.Lock()
			conn := w.tr.conn
			if e.Kind == "writefail" {
				w.tr.failNext = 1
			}
			if e.Kind == "refuse" {
				w.tr.refuse = 1
			}
			w.tr.mu.Unlock()
			switch e.Kind {
			case "drop":
				if conn != nil {
					w.tr.end(conn)
				}
			case "readerr":
				if conn != nil {
					conn.in <- sFrame{err: errBadFrame}
				}
			case "close":
				client.Close()
			case "reset":
				client.Reset(errReset)
			case "cancel":
				cancelConnect()
			}
		}()
	}
	calls.Wait()
	// everything has settled: is the client still usable?
	time.Sleep(5 * time.Minute)
	synctest.Wait()
	w.tr.mu.Lock()
	w.tr.failNext, w.tr.refuse, w.tr.settled = 0, 0, true
	w.tr.mu.Unlock()
	start := w.now()
	msg, err := client.Call(bg, jlib.NewRequestMessage("final", "hello", nil))
	if err != nil || !msg.IsResult() {
		return fmt.Errorf("at the end a call should work, but got %v %v after %v", msg, err, w.now()-start)
	}
	if w.now() != start {
		return fmt.Errorf("at the end a call took %v", w.now()-start)
	}
	synctest.Wait()
	mu.Lock()
	closesBefore := len(res.closes)
	mu.Unlock()
	w.tr.mu.Lock()
	nconns := len(w.tr.conns)
	w.tr.mu.Unlock()
	if nconns == 1 && closesBefore != 0 {
		return fmt.Errorf("the close handler ran while the connection is open")
	}
	if nconns > 1 && closesBefore < 1 {
		return fmt.Errorf("%d connections have ended, but the close handler has not run", nconns-1)
	}
	if c.OnConn != "" && len(res.connects) != nconns {
		return fmt.Errorf("%d connections were established, but the connected handler ran %d times", nconns, len(res.connects))
	}
	// and the wait for this last connection returns after it ends
	done := make(chan struct{})
	go func() { client.Wait(); close(done) }()
	synctest.Wait()
	select {
	case <-done:
		return fmt.Errorf("Wait returned though the connection is open")
	default:
	}
	close(w.stop)
	w.wg.Wait()
	client.Close()
	synctest.Wait()
	time.Sleep(time.Minute) // for a read that returns late
	synctest.Wait()
	select {
	case <-done:
	default:
		return fmt.Errorf("Wait did not return after Close")
	}
	if client.Connected() {
		return fmt.Errorf("connected after Close")
	}
	mu.Lock()
	defer mu.Unlock()
	if len(res.closes) > nconns {
		return fmt.Errorf("the close handler ran %d times for %d connections", len(res.closes), nconns)
	}
	if nconns == 1 && len(res.closes) != 1 {
		return fmt.Errorf("the close handler ran %d times for the first connection", len(res.closes))
	}
	if res.replaced {
		return fmt.Errorf("a handler ran whose registration was refused")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) > 0 {
		return w.errs[0]
	}
	if w.tr.overlap {
		return fmt.Errorf("two messages were written at the same time")
	}
	res.conns, res.writes, res.delivered, res.refusals = w.tr.conns, w.tr.writes, w.tr.delivered, w.tr.refusals
	return sJudge(r, c, res, events, kinds)
}

func eqID(a, b any) bool { return fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b) }

// sJudge compares what happened with what the property prescribes.
func sJudge(r *pbt.Rec, c sCase, res *sResult, events []time.Duration, kinds []string) error {
	// when did connections end (or refuse to open)?
	var breaks []time.Duration
	for _, cn := range res.conns[:len(res.conns)-1] {
		breaks = append(breaks, cn.ended)
	}
	breaks = append(breaks, res.refusals...)
	breaks = append(breaks, events...)
	blocked := len(c.Blocks) > 0
	broken := func(s, e time.Duration) bool {
		for _, b := range breaks {
			if b >= s && b <= e {
				return true
			}
		}
		return false
	}
	consumed := map[int]bool{} // indices into delivered
	writtenOf := map[int][]sWrite{}
	for _, w := range res.writes {
		if w.call > 0 {
			writtenOf[w.call] = append(writtenOf[w.call], w)
		}
	}
	for _, h := range res.hellos {
		if h.err != nil && !broken(h.start, h.end) && !blocked {
			return h.err
		}
		if h.end-h.start > sTimeout {
			return fmt.Errorf("a call of the connected handler took %v", h.end-h.start)
		}
	}
	replied, timedout, failed := 0, 0, 0
	for i, call := range c.Calls {
		o := res.out[i]
		name := fmt.Sprintf("call %d (id %v, started at %v)", i+1, call.id(), o.start)
		ws := writtenOf[i+1]
		// a call that connects first waits for the connected handler
		late := o.start
		for _, h := range res.hellos {
			if h.start == o.start && h.end > h.start {
				late = h.end
				break
			}
		}
		if o.end-late > sTimeout {
			return fmt.Errorf("%s took %v", name, o.end-o.start)
		}
		if len(ws) > 1 {
			return fmt.Errorf("%s was written %d times", name, len(ws))
		}
		for _, w := range ws {
			req, ok := w.msg.(*jlib.RequestMessage)
			if !ok {
				return fmt.Errorf("%s was written as %s", name, msgText(w.msg))
			}
			if req.TraceId() != call.Trace {
				return fmt.Errorf("%s has trace id %q, but %q was written", name, call.Trace, req.TraceId())
			}
			got, err := pbt.ToJSON(req.Params)
			if err != nil {
				return err
			}
			want, _ := pbt.Dec(pbt.Raw(call.Params))
			if call.Params == nil {
				want = []any{}
			}
			if err := pbt.Diff(want, got); err != nil {
				return fmt.Errorf("%s: params written: %v", name, err)
			}
		}
		excused := broken(o.start, o.end)
		if len(ws) == 0 && !excused && !blocked {
			return fmt.Errorf("%s was never written though the connection is fine", name)
		}
		if len(ws) == 1 && ws[0].at != o.start && ws[0].at != late && !excused && !blocked {
			return fmt.Errorf("%s was written only at %v", name, ws[0].at)
		}
		// the first reply that reached the client
		first := -1
		for j, d := range res.delivered {
			if d.call == i+1 {
				first = j
				break
			}
		}
		inTime := first >= 0 && res.delivered[first].at < o.start+sTimeout
		if first >= 0 && late != o.start && res.delivered[first].at < late+sTimeout && o.end == res.delivered[first].at {
			inTime = true
		}
		switch {
		case inTime:
			d := res.delivered[first]
			consumed[first] = true
			replied++
			if o.end != d.at {
				return fmt.Errorf("%s got its reply at %v but returned at %v (%v, %v)", name, d.at, o.end, o.msg, o.err)
			}
			rp := call.Replies[0]
			for _, x := range call.Replies {
				if x.Delay < rp.Delay {
					rp = x
				}
			}
			if err := checkSReply(name, i+1, call, rp, o); err != nil {
				return err
			}
		default:
			if o.unwrap && o.err == nil {
				return fmt.Errorf("%s returned a value without a reply", name)
			}
			if o.err != nil && !o.unwrap {
				if !excused {
					return fmt.Errorf("%s failed with %v though the connection is fine", name, o.err)
				}
				failed++
				break
			}
			var code *int
			if o.unwrap {
				var re *jlib.RPCError
				if errors.As(o.err, &re) {
					code = &re.Code
				} else if excused {
					failed++
					break
				} else {
					return fmt.Errorf("%s failed with %v though the connection is fine", name, o.err)
				}
			} else {
				if !o.msg.IsError() {
					return fmt.Errorf("%s without a reply returned %s", name, msgText(o.msg))
				}
				if !eqID(o.msg.MustId(), call.id()) {
					return fmt.Errorf("%s: the timeout error has id %v", name, o.msg.MustId())
				}
				code = &o.msg.MustError().Code
			}
			if *code != jlib.ErrTimeout.Code {
				return fmt.Errorf("%s without a reply returned error code %d", name, *code)
			}
			if o.end != o.start+sTimeout && o.end != late+sTimeout {
				return fmt.Errorf("%s timed out at %v instead of ten seconds after its start", name, o.end)
			}
			timedout++
		}
	}
	// everything else went to the message handler, in order
	if !c.NoHandle {
		var want []string
		for j, d := range res.delivered {
			if !consumed[j] && !helloText(d.json) {
				want = append(want, d.json)
			}
		}
		if len(want) != len(res.got) {
			return fmt.Errorf("the message handler should get %d messages, but got %d: want %s got %s", len(want), len(res.got), pbt.Short(want), pbt.Short(res.got))
		}
		for j := range want {
			if want[j] != res.got[j] {
				return fmt.Errorf("message %d for the message handler should be %s, but is %s", j, want[j], res.got[j])
			}
		}
		if len(want) > 0 {
			r.Label("messages for the handler")
		}
	}
	// notifications of the client: once each, in order
	if !blocked {
		seen := map[string]int{}
		for _, w := range res.writes {
			if w.msg.IsNotify() {
				seen[w.msg.MustMethod()]++
			}
		}
		for i, s := range c.Sends {
			at := time.Duration(s.At)*time.Millisecond + 20*time.Microsecond
			n := seen["s"+strconv.Itoa(i+1)]
			if n > 1 {
				return fmt.Errorf("notification %d was written %d times", i+1, n)
			}
			if n == 0 && !broken(at, at) {
				return fmt.Errorf("notification %d was never written though the connection is fine", i+1)
			}
			if res.sendErr[i] != nil && !broken(at, at) {
				return fmt.Errorf("notification %d failed with %v though the connection is fine", i+1, res.sendErr[i])
			}
		}
	}
	// a single wait tells what has ended the connection
	if c.Explicit && c.Waiters == 1 && len(res.waits) == 1 {
		first := res.conns[0]
		ok := len(first.errs) == 0 && len(res.conns) == 1 && res.waits[0].err == nil // closed at the end
		for i, at := range events {
			if at <= first.ended && kinds[i] == "cancel" {
				// noticed when the write that is under way is over
				ok = ok || res.waits[0].err == nil
			}
			if at == first.ended {
				switch kinds[i] {
				case "close":
					ok = ok || res.waits[0].err == nil
				case "reset":
					ok = ok || errors.Is(res.waits[0].err, errReset)
				}
			}
		}
		for _, err := range first.errs {
			ok = ok || errors.Is(res.waits[0].err, err)
		}
		if !ok {
			return fmt.Errorf("the connection, whose reads and writes failed with %v, ended at %v, but the wait returned %v", first.errs, first.ended, res.waits[0].err)
		}
		if res.waits[0].err != nil {
			r.Label("wait returned an error")
		}
	}
	// waits for the first connection end with it
	if c.Explicit {
		if len(res.waits) != c.Waiters {
			return fmt.Errorf("%d of %d waits for the first connection returned", len(res.waits), c.Waiters)
		}
		for _, wt := range res.waits {
			if wt.at != res.conns[0].ended {
				return fmt.Errorf("the connection ended at %v, but the wait returned at %v", res.conns[0].ended, wt.at)
			}
		}
	}
	if len(c.Calls) > 1 && replied > 0 {
		r.NonTrivial()
	}
	if timedout > 0 {
		r.Label("timeouts")
	}
	if failed > 0 {
		r.Label("connection errors")
	}
	if len(res.conns) > 2 {
		r.Label("reconnected")
	}
	if len(c.Calls) > 100 {
		r.Label("over 100 calls")
	}
	return nil
}

func helloText(s string) bool {
	var o struct {
		Result any `json:"result"`
	}
	return json.Unmarshal([]byte(s), &o) == nil && o.Result == "hi"
}

func checkSReply(name string, n int, call sCall, rp sReply, o sOutcome) error {
	body := pbt.MustDec(rp.Body)
	if o.unwrap {
		if rp.Err {
			var re *jlib.RPCError
			if !errors.As(o.err, &re) || re.Code != 100+n {
				return fmt.Errorf("%s was answered with error %d, but returned %v", name, 100+n, o.err)
			}
			return nil
		}
		if o.err != nil {
			return fmt.Errorf("%s was answered, but returned %v", name, o.err)
		}
		got, err := pbt.Dec(o.out)
		if err != nil {
			return err
		}
		if err := pbt.DiffNum([]any{json.Number(strconv.Itoa(n)), body}, got); err != nil {
			return fmt.Errorf("%s returned another call's or a changed value: %v", name, err)
		}
		return nil
	}
	if o.err != nil {
		return fmt.Errorf("%s was answered, but returned %v", name, o.err)
	}
	m := o.msg
	if !m.IsResultOrError() {
		return fmt.Errorf("%s returned %s", name, msgText(m))
	}
	if !eqID(m.MustId(), call.id()) {
		return fmt.Errorf("%s returned a reply with id %v", name, m.MustId())
	}
	if m.TraceId() != call.Trace {
		return fmt.Errorf("%s returned a reply with trace id %q", name, m.TraceId())
	}
	if m.IsError() != rp.Err {
		return fmt.Errorf("%s returned %s", name, msgText(m))
	}
	if rp.Err {
		e := m.MustError()
		got, err := pbt.ToJSON(e.Data)
		if err != nil {
			return err
		}
		if e.Code != 100+n || pbt.Diff(body, got) != nil {
			return fmt.Errorf("%s returned another call's or a changed error: %s", name, msgText(m))
		}
		return nil
	}
	got, err := pbt.ToJSON(m.MustResult())
	if err != nil {
		return err
	}
	if err := pbt.Diff([]any{json.Number(strconv.Itoa(n)), body}, got); err != nil {
		return fmt.Errorf("%s returned another call's or a changed result: %v", name, err)
	}
	return nil
}

// genSCalls draws calls over a short or a long time.
func genSCalls(t *rapid.T, span int64) []sCall {
	n := rapid.IntRange(1, 8).Draw(t, "ncalls")
	if pbt.Chance(t, 15, "more") {
		n = 10 + pbt.Uniform(t, 60, "ncalls")
	}
	if pbt.Chance(t, 4, "many") {
		n = 101 + pbt.Uniform(t, 120, "ncalls")
	}
	// many at one time that nobody answers
	crowd := pbt.Chance(t, 2, "crowd")
	if crowd {
		n = pbt.Pick(t, "ncrowd", 140, 270, 520) + pbt.Uniform(t, 60, "ncalls")
	}
	var out []sCall
	kin := pbt.Pick(t, "ids", "mixed", "same", "few", "distinct", "typed")
	for i := 0; i < n; i++ {
		c := sCall{At: pbt.Pick(t, "at", int64(0), 0, 0, int64(pbt.Uniform(t, int(span)+1, "t")))}
		switch kin {
		case "same":
			c.ID = pbt.IntID(1)
		case "few":
			c.ID = pbt.Pick(t, "id", pbt.IntID(1), pbt.IntID(0), pbt.StrID("1"), pbt.StrID(""), pbt.IntID(-1))
		case "distinct":
			c.ID = pbt.IntID(int64(1000 + i))
		case "typed":
			c.ID = pbt.IntID(int64(1 + pbt.Uniform(t, 20, "id")))
			c.IDType = pbt.Pick(t, "idtype", "int", "int64", "int32", "int16", "int8", "uint", "uint8", "uint16", "uint32", "uint64")
		default:
			c.ID = pbt.GenID(t, "id")
			if pbt.Chance(t, 30, "again") && i > 0 {
				c.ID = out[pbt.Uniform(t, i, "which")].ID
			}
		}
		if pbt.Chance(t, 20, "trace") {
			c.Trace = pbt.Ident(t, "traceid")
		}
		if pbt.Chance(t, 20, "params") {
			c.Params = pbt.List(t, 1, "params")
		}
		c.Unwrap = pbt.Chance(t, 25, "unwrap")
		k := pbt.Weighted(t, "replies", 10, 80, 10)
		if crowd {
			c.At = min(c.At, 5)
			if i < n-10 && k > 0 {
				k = pbt.Weighted(t, "replies", 80, 20)
			}
		}
		for j := 0; j < k; j++ {
			rp := sReply{Err: pbt.Chance(t, 20, "err"), Body: pbt.Raw(pbt.JSON(t, 1, "body"))}
			rp.Delay = pbt.Pick(t, "delay", int64(0), 1, 5, int64(pbt.Uniform(t, 300, "d")), int64(pbt.Uniform(t, 9900, "d2")), 9998, 9999, 10000, 10050, 15000)
			if j > 0 && rp.Delay == c.Replies[0].Delay {
				rp.Delay++ // no two at the same time
			}
			c.Replies = append(c.Replies, rp)
		}
		out = append(out, c)
	}
	// an id that is used twice must not leave a stale reply behind: it would
	// be indistinguishable from the reply to its next user
	used := map[string]int{}
	for _, c := range out {
		used[wireKey(c)]++
	}
	for i := range out {
		if used[wireKey(out[i])] > 1 {
			if len(out[i].Replies) > 1 {
				out[i].Replies = out[i].Replies[:1]
			}
			if len(out[i].Replies) == 1 && out[i].Replies[0].Delay > 9990 {
				out[i].Replies = nil
			}
		}
	}
	return out
}

func wireKey(c sCall) string { return string(pbt.Raw(c.ID)) }
