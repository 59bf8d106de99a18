package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// h1Out is what the handler of one HTTP request does.
type h1Out struct {
	outcomeSpec
	Bad     string              `json:"bad,omitempty"` // a value that has no JSON form
	BadData bool                `json:"baddata,omitempty"`
	Wrapped bool                `json:"wrapped,omitempty"`
	Simple  bool                `json:"simple,omitempty"` // an own response without headers
	Status  int                 `json:"status,omitempty"`
	Header  map[string][]string `json:"header,omitempty"`
	Body    []byte              `json:"body,omitempty"`
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("no JSON form") }

func unencodable(kind string) any {
	switch kind {
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "nan":
		return math.NaN()
	case "inf":
		return []any{1, math.Inf(1)}
	case "number":
		return json.Number("12x")
	case "marshaler":
		return map[string]any{"a": badJSON{}}
	}
	return complex(1, 2)
}

var badKinds = []string{"chan", "func", "nan", "inf", "number", "marshaler", "complex"}

func (o h1Out) run() (any, error) {
	if o.Wrapped || o.Simple {
		h := http.Header{}
		for k, vs := range o.Header {
			h[k] = append([]string{}, vs...)
		}
		err := error(&jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: o.Status, Header: h}, Body: o.outcomeBody()})
		if o.Simple {
			err = &jlibhttp.SimpleResponse{Code: o.Status, Body: o.outcomeBody()}
		}
		err = wrapErr(err, o.Wrap)
		if o.Panic {
			panic(err)
		}
		return nil, err
	}
	if o.Bad != "" {
		if o.BadData {
			return nil, &jlib.RPCError{Code: 5, Message: "m", Data: unencodable(o.Bad)}
		}
		return unencodable(o.Bad), nil
	}
	return o.outcomeSpec.run()
}

func (o h1Out) outcomeBody() []byte { return append([]byte{}, o.Body...) }

type c12Req struct {
	Method  string `json:"method"`
	Msg     MsgSpec
	Raw     []byte `json:"raw,omitempty"` // sent instead of the message
	IsRaw   bool   `json:"israw,omitempty"`
	Fill    int    `json:"fill,omitempty"` // so many more bytes in the params
	Pad     string `json:"pad,omitempty"`
	Trace   string `json:"trace,omitempty"` // the trace header
	CType   string `json:"ctype,omitempty"`
	Chunked bool   `json:"chunked,omitempty"`
	Unknown bool   `json:"unknown,omitempty"` // call a method nobody registered
	Out     h1Out  `json:"out"`
}

type c12Case struct {
	Serve    string   `json:"serve"` // h1 h2 gateway
	Wire     bool     `json:"wire,omitempty"`
	Parallel bool     `json:"parallel,omitempty"`
	Reqs     []c12Req `json:"reqs"`
}

// genTrace draws a trace id a header can carry.
func genTrace(t *rapid.T) string {
	switch pbt.Weighted(t, "tracekind", 50, 30, 20) {
	case 0:
		return rapid.StringMatching(`[0-9a-f]{1,32}`).Draw(t, "trace")
	case 1:
		if pbt.Chance(t, 10, "wide") {
			return pbt.Pick(t, "widetrace", "é", "日本", "a\u2028b", "😀")
		}
		return rapid.StringMatching(`[!-~]([ -~]{0,30}[!-~])?`).Draw(t, "trace")
	default:
		return strings.Repeat(pbt.Pick(t, "tc", "x", "0-", "{}"), pbt.Size(t, 10, 400, "tracelen")+1)
	}
}

func genH1Out(t *rapid.T) h1Out {
	switch pbt.Weighted(t, "h1out", 65, 15, 20) {
	case 1:
		o := h1Out{Bad: pbt.Pick(t, "bad", badKinds...), BadData: pbt.Chance(t, 30, "baddata")}
		return o
	case 2:
		o := h1Out{Wrapped: true, Status: pbt.Pick(t, "status", 200, 201, 202, 301, 302, 400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 599), Header: map[string][]string{}}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "headers"); i < n; i++ {
			k := pbt.Pick(t, "hname", "X-A", "X-B-C", "Set-Cookie", "Content-Type", "X-Location", "Cache-Control")
			m := 1
			if k != "Content-Type" {
				m = rapid.IntRange(1, 3).Draw(t, "hvalues")
			}
			var vs []string
			for j := 0; j < m; j++ {
				vs = append(vs, rapid.StringMatching(`[!-~]([ -~]{0,10}[!-~])?`).Draw(t, "hv"))
			}
			o.Header[k] = vs
		}
		o.Body = []byte(pbt.Str(t, "body"))
		if pbt.Chance(t, 20, "bigbody") {
			o.Body = bytes.Repeat([]byte{0, 'x', 0xff}, pbt.Size(t, 10, 40000, "bodylen"))
		}
		o.Wrap = rapid.SliceOfN(rapid.SampledFrom([]string{"fmt", "pkg", "own", "stack"}), 0, 2).Draw(t, "wrap")
		o.Panic = pbt.Chance(t, 20, "panic")
		return o
	}
	o := h1Out{outcomeSpec: genOutcome(t)}
	if o.Do == "message" { // a message under another id is C09's subject
		o.Do, o.Msg, o.Value = "value", nil, pbt.Raw(pbt.JSON(t, 2, "v"))
	}
	return o
}

func genC12Req(t *rapid.T) c12Req {
	q := c12Req{Method: "POST", Out: genH1Out(t)}
	if pbt.Chance(t, 15, "method?") {
		q.Method = pbt.Pick(t, "method", "GET", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "post", "TRACE", "X")
	}
	q.Msg = genMsgSpec(t, pbt.Pick(t, "kind", "request", "request", "request", "request", "notify", "notify", "result", "error"))
	q.Msg.Trace = ""
	if len(q.Msg.Params) == 0 {
		q.Msg.Params, q.Msg.List = json.RawMessage("[]"), true
	}
	if pbt.Chance(t, 40, "bodytrace") {
		q.Msg.Trace = genTrace(t)
		if pbt.Chance(t, 10, "oddtrace") {
			q.Msg.Trace = pbt.Pick(t, "oddtracev", "\x00", "a\nb", "\r\nX-Injected: 1", "x\x1fy", "\x7f", "a\r\n\r\nb", "\n")
		}
	}
	if pbt.Chance(t, 40, "headertrace") {
		q.Trace = genTrace(t)
		if q.Msg.Trace != "" && pbt.Chance(t, 70, "onetrace") {
			q.Msg.Trace = ""
		}
	}
	if pbt.Chance(t, 20, "raw?") {
		q.IsRaw = true
		switch pbt.Weighted(t, "rawkind", 30, 30, 20, 20, 20) {
		case 0:
			b := genC02Bytes(t)
			q.Raw = b.B
		case 1:
			q.Raw = pbt.Raw(pbt.JSON(t, 2, "j"))
		case 2:
			full := pbt.Raw(q.Msg.object())
			q.Raw = full[:pbt.Uniform(t, len(full), "cut")]
		case 4: // a good message between other bytes
			full := pbt.Raw(q.Msg.object())
			junk := pbt.Pick(t, "junk", "\ufeff", "\x00", ")]}'", ",", "[", "]", "}", "null", "0", "\xff", "\u00a0", "\v", "//", "{}", string(full))
			if pbt.Chance(t, 50, "before") {
				q.Raw = append([]byte(junk), full...)
			} else {
				q.Raw = append(full, junk...)
			}
		default:
			q.Raw = []byte(pbt.Pick(t, "rawtext", "", " ", "[]", "{}", "null", "[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"m\",\"params\":[]}]", "x=1&y=2", "\xff\xfe", "{\"id\":{},\"method\":\"m\",\"params\":[]}", "{\"id\":1,\"method\":5,\"params\":[]}", "{\"method\":\"m\"}"))
		}
	}
	if !q.IsRaw && q.Msg.List && (q.Msg.Kind == "request" || q.Msg.Kind == "notify") && pbt.Chance(t, 6, "fill?") {
		q.Fill = 1 << pbt.Uniform(t, 23, "fill")
	}
	if q.Out.Wrapped && q.Msg.Kind == "notify" && pbt.Chance(t, 50, "simple") {
		// for a request it is an error as any other
		q.Out.Wrapped, q.Out.Simple, q.Out.Header = false, true, nil
	}
	q.Pad = pbt.Pick(t, "pad", "", "", "\n", " \t\r\n ")
	q.CType = pbt.Pick(t, "ctype", "application/json", "", "text/plain", "application/x-www-form-urlencoded", "application/json; charset=utf-8")
	q.Chunked = pbt.Chance(t, 25, "chunked")
	q.Unknown = pbt.Chance(t, 10, "unknown")
	return q
}

func c12Gen(t *rapid.T) c12Case {
	c := c12Case{Serve: pbt.Pick(t, "serve", "h1", "h1", "h2", "gateway", "gateway-insecure"), Wire: pbt.Chance(t, 40, "wire"), Parallel: pbt.Chance(t, 25, "parallel")}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "reqs"); i < n; i++ {
		c.Reqs = append(c.Reqs, genC12Req(t))
	}
	return c
}

// wireServer is one HTTP server per process that serves the case at hand.
var (
	wireOnce    sync.Once
	wireURL     string
	wireHandler http.Handler
	wireMu      sync.RWMutex
	wireClient  *http.Client
)

func wireTo(h http.Handler) (string, *http.Client) {
	wireOnce.Do(func() {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			wireMu.RLock()
			h := wireHandler
			wireMu.RUnlock()
			h.ServeHTTP(w, r)
		}))
		wireURL = s.URL
		wireClient = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16, DisableCompression: true},
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	})
	wireMu.Lock()
	wireHandler = h
	wireMu.Unlock()
	return wireURL, wireClient
}

func c12Run(r *pbt.Rec, c c12Case) error {
	c.Reqs = append([]c12Req{}, c.Reqs...)
	for i, q := range c.Reqs {
		if q.Fill > 0 {
			l := append(append([]any{}, q.Msg.paramList()...), strings.Repeat("x", q.Fill))
			c.Reqs[i].Msg.Params = pbt.Raw(l)
			r.Label("fill>=%dK", q.Fill>>10)
		}
	}
	actor := jlibhttp.NewActor()
	type seenT struct {
		trace  string
		method string
		params []any
	}
	var mu sync.Mutex
	seen := map[int][]seenT{}
	for i, q := range c.Reqs {
		if q.Unknown {
			continue
		}
		if err := actor.OnRequest(fmt.Sprintf("m%d", i), func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			mu.Lock()
			seen[i] = append(seen[i], seenT{req.Msg().TraceId(), req.Msg().MustMethod(), params})
			mu.Unlock()
			return q.Out.run()
		}); err != nil {
			return err
		}
	}
	// a message of a raw body may call this one
	stray := 0
	actor.On("m", func([]any) (any, error) { mu.Lock(); stray++; mu.Unlock(); return 1, nil })
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var handler http.Handler
	switch c.Serve {
	case "h1":
		handler = jlibhttp.NewH1Handler(actor)
	case "h2":
		handler = jlibhttp.NewH2Handler(ctx, actor)
	case "gateway":
		handler = jlibhttp.NewGatewayHandler(ctx, actor, false)
	default:
		handler = jlibhttp.NewGatewayHandler(ctx, actor, true)
	}
	url, client := "", (*http.Client)(nil)
	if c.Wire {
		url, client = wireTo(handler)
	}
	r.Label("%s wire=%v", c.Serve, c.Wire)
	send := func(i int) (*http.Response, []byte, error) {
		q := c.Reqs[i]
		q.Msg.Method = fmt.Sprintf("m%d", i)
		body := q.Raw
		if !q.IsRaw {
			body = []byte(q.Pad + string(pbt.Raw(q.Msg.object())) + q.Pad)
		}
		if q.Method == "TRACE" {
			body = nil
		}
		var rd io.Reader = bytes.NewReader(body)
		if q.Chunked {
			rd = struct{ io.Reader }{rd}
		}
		if !c.Wire {
			req := httptest.NewRequest(q.Method, "/", rd)
			if q.CType != "" {
				req.Header.Set("Content-Type", q.CType)
			}
			if q.Trace != "" {
				req.Header.Set("X-Trace-Id", q.Trace)
			}
			rec := httptest.NewRecorder()
			handler.ServeHTTP(rec, req)
			res := rec.Result()
			b, err := io.ReadAll(res.Body)
			return res, b, err
		}
		req, err := http.NewRequest(q.Method, url, rd)
		if err != nil {
			return nil, nil, err
		}
		if q.CType != "" {
			req.Header.Set("Content-Type", q.CType)
		}
		if q.Trace != "" {
			req.Header.Set("X-Trace-Id", q.Trace)
		}
		res, err := client.Do(req)
		if err != nil {
			return nil, nil, err
		}
		defer res.Body.Close()
		b, err := io.ReadAll(res.Body)
		return res, b, err
	}
	one := func(i int) error {
		q := c.Reqs[i]
		q.Msg.Method = fmt.Sprintf("m%d", i)
		res, body, err := send(i)
		if err != nil {
			if c.Wire {
				return pbt.Soft("request %d: %v", i, err)
			}
			return err
		}
		mu.Lock()
		ran := append([]seenT{}, seen[i]...)
		mu.Unlock()
		if q.Method != "POST" {
			r.Label("not POST")
			if res.StatusCode != 405 {
				return fmt.Errorf("request %d: %s is answered %d", i, q.Method, res.StatusCode)
			}
			if len(ran) != 0 {
				return fmt.Errorf("request %d: the handler ran for %s", i, q.Method)
			}
			return nil
		}
		if q.IsRaw {
			if _, err := jlib.ParseBytes(q.Raw); err == nil {
				r.Label("raw body that parses")
				return nil
			}
			r.Label("malformed")
			r.NonTrivial()
			if res.StatusCode != 400 {
				return fmt.Errorf("request %d: body %.200q is answered %d", i, q.Raw, res.StatusCode)
			}
			if len(ran) != 0 {
				return fmt.Errorf("request %d: the handler ran for a malformed body", i)
			}
			return nil
		}
		calls := 0
		if (q.Msg.Kind == "request" || q.Msg.Kind == "notify") && !q.Unknown {
			calls = 1
		}
		if len(ran) != calls {
			return fmt.Errorf("request %d (%s): the handler ran %d times", i, q.Msg.Kind, len(ran))
		}
		if calls == 1 {
			r.NonTrivial()
			if err := pbt.Diff(any(q.Msg.paramList()), any(ran[0].params)); err != nil {
				return fmt.Errorf("request %d: params seen by the handler: %w", i, err)
			}
			if q.Msg.Trace == "" || q.Trace == "" {
				if want := q.Msg.Trace + q.Trace; ran[0].trace != want {
					return fmt.Errorf("request %d: the handler sees trace id %q, sent %q in the body and %q in the header", i, ran[0].trace, q.Msg.Trace, q.Trace)
				}
			}
		}
		if calls == 1 && (q.Out.Wrapped || q.Out.Simple) {
			r.Label("own response to a %s", q.Msg.Kind)
			if res.StatusCode != q.Out.Status {
				return fmt.Errorf("request %d: wrapped status %d is relayed as %d", i, q.Out.Status, res.StatusCode)
			}
			if !bytes.Equal(body, q.Out.Body) {
				return fmt.Errorf("request %d: wrapped body %.100q is relayed as %.100q", i, q.Out.Body, body)
			}
			for k, vs := range q.Out.Header {
				if fmt.Sprint(res.Header.Values(k)) != fmt.Sprint(vs) {
					return fmt.Errorf("request %d: wrapped header %s %q is relayed as %q", i, k, vs, res.Header.Values(k))
				}
			}
			return nil
		}
		if q.Msg.Kind != "request" {
			failed := q.Msg.Kind == "notify" && !q.Unknown && (q.Out.Crash != "" || q.Out.BadData || (q.Out.Bad == "" && q.Out.Do != "value"))
			r.Label("%s failed=%v", q.Msg.Kind, failed)
			if failed {
				if res.StatusCode != 500 {
					return fmt.Errorf("request %d: a failed notification is answered %d", i, res.StatusCode)
				}
				if _, err := jlib.ParseBytes(body); err == nil {
					return fmt.Errorf("request %d: a notification is answered with %.200q", i, body)
				}
				return nil
			}
			if res.StatusCode != 200 || len(body) != 0 {
				return fmt.Errorf("request %d: a %s is answered %d with %.200q", i, q.Msg.Kind, res.StatusCode, body)
			}
			return nil
		}
		if res.StatusCode != 200 {
			return fmt.Errorf("request %d %+v: status %d", i, q.Out, res.StatusCode)
		}
		if ct := res.Header.Get("Content-Type"); strings.TrimSpace(strings.Split(ct, ";")[0]) != "application/json" {
			return fmt.Errorf("request %d: content type %q", i, ct)
		}
		if res.Header.Get("X-Injected") != "" {
			return fmt.Errorf("request %d: its trace id %q makes another header", i, q.Msg.Trace)
		}
		// a trace id that no header can carry
		odd := strings.ContainsFunc(q.Msg.Trace, func(c rune) bool { return c < ' ' || c == 0x7f })
		if q.Msg.Trace == "" || q.Trace == "" {
			want := q.Msg.Trace + q.Trace
			if odd {
				want = ""
			}
			if got := res.Header.Get("X-Trace-Id"); got != want {
				return fmt.Errorf("request %d: trace id %q comes back as %q", i, want, got)
			}
			r.Label("trace body=%v header=%v", q.Msg.Trace != "", q.Trace != "")
		}
		want := q.Msg
		switch {
		case q.Unknown:
			want = MsgSpec{Kind: "error", Code: jlib.ErrMethodNotFound.Code, Msg: jlib.ErrMethodNotFound.Message}
			r.Label("unknown method")
		case q.Out.Bad != "":
			want = MsgSpec{Kind: "error", Code: jlib.ErrInternalError.Code, Msg: jlib.ErrInternalError.Message}
			r.Label("unencodable")
		default:
			want = q.Out.reply(q.Msg)
		}
		want.ID, want.Trace = q.Msg.ID, ""
		if odd {
			// it may come back in the body, if it comes back
			if reply, err := jlib.ParseBytes(body); err == nil && reply.TraceId() == q.Msg.Trace {
				want.Trace = q.Msg.Trace
			}
		}
		if err := want.checkBytes(bytes.TrimSpace(body)); err != nil {
			return fmt.Errorf("request %d: body: %w", i, err)
		}
		return nil
	}
	if !c.Parallel {
		for i := range c.Reqs {
			if err := one(i); err != nil {
				return err
			}
		}
		return nil
	}
	errs := make([]error, len(c.Reqs))
	var wg sync.WaitGroup
	for i := range c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("request %d: panics: %v", i, p)
				}
			}()
			errs[i] = one(i)
		}()
	}
	wg.Wait()
	return errors.Join(errs...)
}

func TestC12(t *testing.T) {
	pbt.Check(t, "C12", pbt.Part[c12Case]{Name: "endpoint", Quick: 40000, Gen: c12Gen, Run: c12Run})
}
