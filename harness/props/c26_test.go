package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/textproto"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c26Push struct {
	Kind string          `json:"kind"` // notify, request
	Body json.RawMessage `json:"body"`
	Late bool            `json:"late,omitempty"` // after the reply was sent
}

type c26Case struct {
	Tool    string            `json:"tool"` // call notify watch benchmark
	Route   lbRoute           `json:"route"`
	Method  string            `json:"method"`
	Args    []string          `json:"args"`
	Files   map[string]string `json:"files,omitempty"`
	Headers []string          `json:"headers,omitempty"`
	URL     string            `json:"url"`              // flag, env, both: how the url is given
	Dashes  bool              `json:"dashes,omitempty"` // a -- before the method
	Fault   string            `json:"fault,omitempty"`
	Auth    string            `json:"auth,omitempty"` // right, wrong, absent
	Value   json.RawMessage   `json:"value,omitempty"`
	Code    int               `json:"code,omitempty"` // an RPC error instead
	Text    string            `json:"text,omitempty"`
	Pushes  []c26Push         `json:"pushes,omitempty"`
	M       int               `json:"m,omitempty"`
	N       int               `json:"n,omitempty"`
	Delays  []int             `json:"delays,omitempty"` // milliseconds the calls of a benchmark take, over and over
	Gate    bool              `json:"gate,omitempty"`   // the first calls of a benchmark wait for each other
	Retry   int               `json:"retry,omitempty"`
	Drop    int               `json:"drop,omitempty"` // the connection is cut so many times
}

var (
	c26CertOnce sync.Once
	c26Cert     string
)

func c26Root(srv *lbServer) string {
	c26CertOnce.Do(func() {
		c26Cert = filepath.Join(pbtWork(), fmt.Sprintf("c26-%d.pem", os.Getpid()))
		os.WriteFile(c26Cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: srv.srv.Certificate().Raw}), 0o644)
	})
	return c26Cert
}

type c26Got struct {
	kind   string
	method string
	id     any
	params any
	header http.Header
}

var c26Stats = regexp.MustCompile(`^avg=([-+0-9.e]+)s, min=([-+0-9.e]+)s, p95=([-+0-9.e]+)s, max=([-+0-9.e]+)s\n$`)

// lineBuf collects what a tool prints.
type c26Buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *c26Buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *c26Buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// values splits the output into JSON values; the last may be unfinished.
func (b *c26Buf) values() (out []any, rest string, err error) {
	text := b.String()
	dec := json.NewDecoder(bufio.NewReader(strings.NewReader(text)))
	dec.UseNumber()
	for {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			rest := text[dec.InputOffset():]
			if strings.TrimSpace(rest) == "" || strings.Contains(err.Error(), "unexpected EOF") {
				return out, rest, nil
			}
			return out, rest, err
		}
		v, err := pbt.Dec(raw)
		if err != nil {
			return out, "", err
		}
		out = append(out, v)
	}
}

func c26Run(r *pbt.Rec, c c26Case) error {
	dir, err := os.MkdirTemp(pbtWork(), "c26-")
	if err != nil {
		return pbt.Inconclusive(err)
	}
	defer os.RemoveAll(dir)
	for name, txt := range c.Files {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(txt), 0o600); err != nil {
			return pbt.Inconclusive(err)
		}
	}

	// what is to arrive
	params := []any{}
	badArg := false
	for _, a := range c.Args {
		v, refused, _ := spelled(a, c.Files)
		badArg = badArg || refused
		params = append(params, v)
	}
	wantHeader := http.Header{}
	badHeader := false
	for _, h := range c.Headers {
		i := strings.IndexByte(h, '=')
		if i < 0 {
			badHeader = true
			continue
		}
		wantHeader.Add(strings.Trim(h[:i], " "), strings.Trim(h[i+1:], " "))
	}

	// the server
	var mu sync.Mutex
	var got []c26Got
	inFlight, most := 0, 0
	var durations []float64
	gate, gated, alone := make(chan struct{}), c.Gate, false
	actor := jlibhttp.NewActor()
	record := func(req *jlibhttp.RPCRequest) {
		g := c26Got{header: req.HttpRequest().Header.Clone()}
		switch m := req.Msg().(type) {
		case *jlib.RequestMessage:
			g.kind, g.method, g.id = "request", m.Method, m.Id
			g.params, _ = pbt.ToJSON(m.Params)
		case *jlib.NotifyMessage:
			g.kind, g.method = "notify", m.Method
			g.params, _ = pbt.ToJSON(m.Params)
		}
		mu.Lock()
		got = append(got, g)
		mu.Unlock()
	}
	push := func(s jlibhttp.RPCSession, i int) {
		p := []any{i, pbt.MustDec(c.Pushes[i].Body)}
		if c.Pushes[i].Kind == "request" {
			s.Send(jlib.NewRequestMessage(fmt.Sprintf("push%d", i), "pushed", p))
		} else {
			s.Send(jlib.NewNotifyMessage("pushed", p))
		}
	}
	var lateWG sync.WaitGroup
	defer lateWG.Wait()
	actor.OnRequest(c.Method, func(req *jlibhttp.RPCRequest, _ []any) (any, error) {
		mu.Lock()
		began, nth := time.Now(), len(got)
		inFlight++
		most = max(most, inFlight)
		if most == c.M && gated {
			gated = false
			close(gate)
		}
		wait := gated
		mu.Unlock()
		defer func() {
			mu.Lock()
			inFlight--
			durations = append(durations, time.Since(began).Seconds())
			mu.Unlock()
		}()
		record(req)
		if wait {
			select {
			case <-gate:
			case <-time.After(3 * time.Second):
				mu.Lock()
				alone = true
				mu.Unlock()
			}
		}
		if len(c.Delays) > 0 {
			time.Sleep(time.Duration(c.Delays[nth%len(c.Delays)]) * time.Millisecond)
		}
		if s := req.Session(); s != nil && c.Tool == "watch" {
			late := len(c.Pushes)
			for i := range c.Pushes {
				if c.Pushes[i].Late {
					late = i
					break
				}
				push(s, i)
			}
			if late < len(c.Pushes) {
				lateWG.Add(1)
				go func() {
					defer lateWG.Done()
					time.Sleep(2 * time.Millisecond)
					for i := late; i < len(c.Pushes); i++ {
						push(s, i)
					}
				}()
			}
		}
		if c.Code != 0 {
			return nil, &jlib.RPCError{Code: c.Code, Message: c.Text}
		}
		return pbt.MustDec(c.Value), nil
	})
	actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		record(req)
		return nil, jlib.ErrMethodNotFound
	})
	opts := lbOptions{}
	if c.Auth != "" {
		cfg := &jlibhttp.AuthConfig{Bearer: []jlibhttp.BearerAuthConfig{{Token: "letmein"}}}
		protect := func(h http.Handler) http.Handler { return jlibhttp.NewAuthHandler(cfg, h) }
		opts.wrap = protect
		if c.Route.Server == "h2c" {
			h2 := jlibhttp.NewH2Handler(context.Background(), actor)
			opts.wrap = func(http.Handler) http.Handler { return h2c.NewHandler(protect(h2), &http2.Server{}) }
		}
	}
	var cur atomic.Pointer[http.Handler]
	if inner := opts.wrap; c.Drop > 0 {
		opts.wrap = func(h http.Handler) http.Handler {
			if inner != nil {
				h = inner(h)
			}
			cur.Store(&h)
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { (*cur.Load()).ServeHTTP(w, r) })
		}
	}
	srv := lbStart(c.Route.Server, actor, opts)
	defer srv.close()
	restart := func() {
		// the sessions end, new ones are welcome
		ctx, cancel := context.WithCancel(context.Background())
		old := srv.cancel
		srv.cancel = cancel
		h := lbHandler(ctx, c.Route.Server, actor, false)
		cur.Store(&h)
		old()
		time.Sleep(200 * time.Millisecond)
		srv.drop()
	}

	// the command
	url := srv.url(c.Route.Client)
	switch c.Fault {
	case "unreachable":
		url = strings.Replace(url, srv.addr(), "127.0.0.1:1", 1)
	case "scheme":
		url = "ftp" + url[strings.Index(url, ":"):]
	case "noscheme":
		url = srv.addr()
	case "badurl":
		url = strings.TrimSuffix(url, "/") + "%zz"
	case "badhost":
		url = "http://[::1"
	case "h1watch":
		url = "http://" + srv.addr() + "/"
	}
	var args []string
	env := []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "NO_PROXY=*"}
	switch c.URL {
	case "flag":
		args = append(args, "-c", url)
	case "env":
		env = append(env, "JSONRPC_CONNECT="+url)
	case "both":
		args = append(args, "-c="+url)
		env = append(env, "JSONRPC_CONNECT=http://127.0.0.1:1/")
	}
	if secure(c.Route.Server) && strings.HasSuffix(c.Route.Client, "-sys") {
		env = append(env, "SSL_CERT_FILE="+c26Root(srv), "SSL_CERT_DIR="+dir)
	} else {
		env = append(env, "SSL_CERT_FILE=/dev/null", "SSL_CERT_DIR="+dir)
	}
	for i, h := range c.Headers {
		if i%2 == 0 {
			args = append(args, "-header", h)
		} else {
			args = append(args, "--header="+h)
		}
	}
	switch c.Auth {
	case "right":
		args = append(args, "-header", "Authorization=Bearer letmein")
	case "wrong":
		args = append(args, "-header", "Authorization=Bearer letmeout")
	}
	switch c.Tool {
	case "benchmark":
		args = append(args, "-m", strconv.Itoa(c.M), "-n", strconv.Itoa(c.N))
	case "watch":
		if c.Retry != 1 {
			args = append(args, "-retry", strconv.Itoa(c.Retry))
		}
	}
	if c.Fault == "badflag" {
		args = append(args, "-nosuchflag", "1")
	}
	if c.Dashes {
		args = append(args, "--")
	}
	if c.Fault != "nomethod" {
		args = append(args, c.Method)
		args = append(args, c.Args...)
	}
	cmd := exec.Command(filepath.Join(pbtWork(), "jlib-"+c.Tool), args...)
	cmd.Dir = dir
	cmd.Env = env
	var stdout, stderr c26Buf
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	began := time.Now()
	clock := pbt.StartClock()
	if err := cmd.Start(); err != nil {
		return pbt.Inconclusive(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	defer cmd.Process.Kill()

	fails := badArg || badHeader || c.Auth == "wrong" || c.Auth == "absent" || c.Fault != "" ||
		secure(c.Route.Server) && !strings.HasSuffix(c.Route.Client, "-sys")
	what := fmt.Sprintf("jlib-%s %q", c.Tool, args)
	outcome := func() string {
		return fmt.Sprintf("stdout %.600q stderr %.600q", stdout.String(), stderr.String())
	}
	arrived := func() int { mu.Lock(); defer mu.Unlock(); return len(got) }

	if c.Tool == "watch" && !fails {
		return c26Watch(r, c, srv, cmd, done, &stdout, clock, what, outcome, func() []c26Got {
			mu.Lock()
			defer mu.Unlock()
			return append([]c26Got(nil), got...)
		}, params, wantHeader, restart)
	}

	werr, ok := receive(done, r.Slow(patience))
	if !ok {
		return clock.Late("%s does not end; %s", what, outcome())
	}
	took := time.Since(began)
	code := cmd.ProcessState.ExitCode()
	if code == -1 {
		return pbt.Inconclusive(fmt.Errorf("%s was ended: %v", what, werr))
	}
	if fails {
		r.Label("%s fails %s%s", c.Tool, c.Fault, c.Auth)
		r.NonTrivial()
		if n := arrived(); n != 0 {
			return fmt.Errorf("%s: %d messages arrived; %s", what, n, outcome())
		}
		if code == 0 && !(c.Tool == "benchmark" && !badArg && !badHeader && c.Fault != "badurl" && c.Fault != "scheme" && c.Fault != "badflag" && c.Fault != "nomethod") {
			return fmt.Errorf("%s exits with 0; %s", what, outcome())
		}
		if c.Tool == "call" && stdout.String() != "" {
			return fmt.Errorf("%s fails and prints; %s", what, outcome())
		}
		if c.Tool == "benchmark" && code == 0 {
			// all its calls have failed, and have taken time
			if err := c26Times(c, stdout.String(), took, nil); err != nil {
				return fmt.Errorf("%s: %w; %s", what, err, outcome())
			}
		}
		return nil
	}
	if c.Tool != "notify" && c.Tool != "benchmark" && time.Since(clock.Start()) > 4900*time.Millisecond {
		return clock.Late("%s takes %v; %s", what, took, outcome())
	}
	if code != 0 {
		if c.Tool == "notify" && c.Code != 0 && !c.Route.streaming() {
			r.Label("failed notification")
		} else {
			return fmt.Errorf("%s exits with %d; %s", what, code, outcome())
		}
	}
	wantN, wantKind := 1, "request"
	switch c.Tool {
	case "benchmark":
		wantN = c.M * c.N
	case "notify":
		wantKind = "notify"
		if !eventually(r.Slow(patience), func() bool { return arrived() >= 1 }) {
			return clock.Late("%s exits with %d and nothing arrives; %s", what, code, outcome())
		}
	}
	r.NonTrivial()
	r.Label("%s %s", c.Tool, c.Route.Client)
	mu.Lock()
	defer mu.Unlock()
	if len(got) != wantN {
		return fmt.Errorf("%s: %d messages arrived, not %d; %s", what, len(got), wantN, outcome())
	}
	ids := map[any]bool{}
	for _, g := range got {
		if err := c26Same(c, g, wantKind, params, wantHeader); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		ids[g.id] = true
	}
	switch c.Tool {
	case "call":
		v, err := pbt.Dec([]byte(stdout.String()))
		if err != nil {
			return fmt.Errorf("%s prints no JSON: %v; %s", what, err, outcome())
		}
		return c26Reply(c, what, got[0].id, v)
	case "notify":
		if stdout.String() != "" {
			return fmt.Errorf("%s prints; %s", what, outcome())
		}
	case "benchmark":
		if len(ids) != wantN {
			return fmt.Errorf("%s: %d different ids in %d calls", what, len(ids), wantN)
		}
		if most > c.M {
			return fmt.Errorf("%s: %d calls at once", what, most)
		}
		if alone {
			return clock.Late("%s: %d calls at once at most", what, most)
		}
		if err := c26Times(c, stdout.String(), took, durations); err != nil {
			return fmt.Errorf("%s: %w; %s", what, err, outcome())
		}
	}
	return nil
}

// c26Times checks the statistics of a benchmark against the time it ran and
// the times the server spent in each call.
func c26Times(c c26Case, stdout string, took time.Duration, served []float64) error {
	m := c26Stats.FindStringSubmatch(stdout)
	if m == nil {
		return fmt.Errorf("no statistics")
	}
	var f [4]float64
	for i := range f {
		var err error
		if f[i], err = strconv.ParseFloat(m[i+1], 64); err != nil {
			return err
		}
	}
	n := c.M * c.N
	avg, mn, p95, mx := f[0], f[1], f[2], f[3]
	const eps = 1e-8 // whole nanoseconds
	if mn <= 0 || mn > avg+eps || avg > mx+eps || mn > p95 || p95 > mx || mx > took.Seconds() || avg*float64(n) > float64(c.M)*took.Seconds() {
		return fmt.Errorf("the statistics do not fit each other or the %v it ran", took)
	}
	if n == 1 && mn != mx {
		return fmt.Errorf("one call with min %v and max %v", mn, mx)
	}
	if len(served) != n {
		return nil
	}
	// no call is shorter than its handler ran, so that the k-th shortest is
	// not shorter than the k-th shortest run
	sort.Float64s(served)
	sum := 0.0
	for _, d := range served {
		sum += d
	}
	at95 := max(0, int(0.95*float64(n))-1)
	if mn < served[0] || mx < served[n-1] || p95 < served[at95] || avg+eps < sum/float64(n) {
		return fmt.Errorf("the handler ran for at least %v, at most %v, %v on average and %v at 95 percent", served[0], served[n-1], sum/float64(n), served[at95])
	}
	return nil
}

func c26Same(c c26Case, g c26Got, kind string, params []any, header http.Header) error {
	if g.kind != kind || g.method != c.Method {
		return fmt.Errorf("a %s of %q arrived, not a %s of %q", g.kind, g.method, kind, c.Method)
	}
	if err := pbt.Diff(any(params), g.params); err != nil {
		return fmt.Errorf("params: %w", err)
	}
	for k := range header {
		if fmt.Sprint(header[k]) != fmt.Sprint(g.header[k]) {
			return fmt.Errorf("header %s: %q arrived, not %q", k, g.header[k], header[k])
		}
	}
	for _, k := range []string{"X-A", "X-B", "X-C"} {
		if k = textproto.CanonicalMIMEHeaderKey(k); header[k] == nil && g.header[k] != nil {
			return fmt.Errorf("header %s: %q arrived, none was given", k, g.header[k])
		}
	}
	return nil
}

func c26Reply(c c26Case, what string, id any, v any) error {
	want := map[string]any{"jsonrpc": "2.0", "id": id}
	if c.Code != 0 {
		want["error"] = map[string]any{"code": json.Number(strconv.Itoa(c.Code)), "message": c.Text}
	} else {
		want["result"] = pbt.MustDec(c.Value)
	}
	m, ok := v.(map[string]any)
	if !ok {
		return fmt.Errorf("%s prints %s", what, pbt.Short(v))
	}
	if e, ok := m["error"].(map[string]any); ok && e["data"] == nil {
		delete(e, "data")
	}
	if m["traceid"] == "" {
		delete(m, "traceid")
	}
	if err := pbt.Diff(any(want), any(m)); err != nil {
		return fmt.Errorf("%s prints another reply: %w", what, err)
	}
	return nil
}

func c26Watch(r *pbt.Rec, c c26Case, srv *lbServer, cmd *exec.Cmd, done chan error, stdout *c26Buf, clock pbt.Clock, what string, outcome func() string, got func() []c26Got, params []any, header http.Header, restart func()) error {
	r.NonTrivial()
	r.Label("watch %s drops=%d", c.Route.Client, c.Drop)
	seen := 0
	for round := 0; round <= c.Drop; round++ {
		need := seen + 1 + len(c.Pushes)
		var vals []any
		var perr error
		ended := false
		if !eventually(r.Slow(patience), func() bool {
			vals, _, perr = stdout.values()
			select {
			case err := <-done:
				done <- err
				ended = true
			default:
			}
			return perr != nil || len(vals) >= need || ended
		}) {
			return clock.Late("%s: %d of %d messages printed; %s", what, len(vals), need, outcome())
		}
		if perr != nil {
			return fmt.Errorf("%s prints no JSON: %v; %s", what, perr, outcome())
		}
		if len(vals) < need {
			err := fmt.Errorf("%s ended with %d of %d messages printed; %s", what, len(vals), need, outcome())
			if round > 0 {
				// the end may have come before it waited for it
				return pbt.Soft("%v", err)
			}
			return err
		}
		if len(vals) > need {
			return fmt.Errorf("%s: %d messages printed, %d were sent; %s", what, len(vals), need, outcome())
		}
		g := got()
		if len(g) != round+1 {
			return fmt.Errorf("%s: %d messages arrived in %d connections", what, len(g), round+1)
		}
		if err := c26Same(c, g[round], "request", params, header); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		next, replies := 0, 0
		for _, v := range vals[seen:] {
			m, _ := v.(map[string]any)
			if m["method"] == nil {
				replies++
				if err := c26Reply(c, what, g[round].id, v); err != nil {
					return err
				}
				continue
			}
			if next >= len(c.Pushes) {
				return fmt.Errorf("%s prints a message too many: %s", what, pbt.Short(v))
			}
			want := map[string]any{"jsonrpc": "2.0", "method": "pushed", "params": []any{json.Number(strconv.Itoa(next)), pbt.MustDec(c.Pushes[next].Body)}}
			if c.Pushes[next].Kind == "request" {
				want["id"] = fmt.Sprintf("push%d", next)
			}
			if m["traceid"] == "" {
				delete(m, "traceid")
			}
			if err := pbt.Diff(any(want), any(m)); err != nil {
				return fmt.Errorf("%s prints message %d wrong: %w", what, next, err)
			}
			next++
		}
		if replies != 1 {
			return fmt.Errorf("%s prints %d replies; %s", what, replies, outcome())
		}
		seen = need
		if round < c.Drop {
			time.Sleep(30 * time.Millisecond)
			restart()
		}
	}
	select {
	case <-done:
		return fmt.Errorf("%s ended while it was connected; %s", what, outcome())
	default:
	}
	if c.Retry == 1 || c.Drop > 0 {
		// the server goes away for good
		if c.Retry == 1 {
			time.Sleep(time.Millisecond)
			srv.srv.Listener.Close()
			srv.drop()
			if _, ok := receive(done, r.Slow(patience)); !ok {
				return clock.Late("%s goes on though its server has gone; %s", what, outcome())
			}
		}
	}
	return nil
}

func c26Gen(t *rapid.T) c26Case {
	c := c26Case{Tool: pbt.Pick(t, "tool", "call", "call", "call", "notify", "notify", "watch", "watch", "benchmark"), Files: map[string]string{}, Retry: 1}
	var route lbRoute
	for {
		route = lbRoutes[pbt.Uniform(t, len(lbRoutes), "route")]
		if c.Tool == "watch" && !route.streaming() {
			continue
		}
		if secure(route.Server) && !strings.HasSuffix(route.Client, "-sys") && !pbt.Chance(t, 15, "untrusted") {
			continue
		}
		break
	}
	c.Route = route
	c.Method = rapid.StringMatching(`[A-Za-z_.:/#\\&][A-Za-z0-9_.:/#\\&+-]{0,12}`).Draw(t, "method")
	for i, n := 0, pbt.Pick(t, "n", 0, 1, 1, 2, 3, 5); i < n; i++ {
		a := genArg(t, c.Files)
		_, refused, open := spelled(a, c.Files)
		if open || strings.ContainsRune(a, 0) || refused && !pbt.Chance(t, 40, "bad arg") {
			a = "x"
		}
		c.Args = append(c.Args, a)
	}
	for i, n := 0, pbt.Pick(t, "headers", 0, 0, 1, 2, 3); i < n; i++ {
		h := pbt.Pick(t, "name", "X-A", "x-a", "X-B", "X-C") + pbt.Pick(t, "eq", "=", "=", " = ") + rapid.StringMatching(`[!-~]([ -~]{0,10}[!-~])?`).Draw(t, "value")
		if pbt.Chance(t, 4, "bad header") {
			h = pbt.Pick(t, "bad", "X-A", "X-A: v", "")
		}
		c.Headers = append(c.Headers, h)
	}
	c.URL = pbt.Pick(t, "url", "flag", "flag", "env", "both")
	c.Dashes = pbt.Chance(t, 20, "dashes")
	if pbt.Chance(t, 15, "fault") {
		c.Fault = pbt.Pick(t, "which", "unreachable", "unreachable", "scheme", "noscheme", "badurl", "badhost", "badflag", "nomethod", "h1watch")
		if c.Fault == "nomethod" && c.Tool == "watch" {
			c.Fault = "h1watch"
		}
		if c.Fault == "h1watch" && c.Tool != "watch" {
			c.Fault = "badflag"
		}
	}
	if (c.Route.Client != "h2c" || c.Route.Server == "h2c") && c.Fault == "" && pbt.Chance(t, 15, "auth") {
		c.Auth = pbt.Pick(t, "which auth", "right", "right", "wrong", "absent")
	}
	c.Value = pbt.Raw(pbt.JSON(t, 3, "value"))
	if pbt.Chance(t, 20, "error") {
		c.Code, c.Text = rapid.IntRange(-40000, 999).Draw(t, "code"), pbt.Str(t, "text")
		if c.Code == 0 {
			c.Code = -1
		}
	}
	switch c.Tool {
	case "watch":
		for i, n := 0, pbt.Pick(t, "pushes", 0, 1, 3, 10, 40); i < n; i++ {
			c.Pushes = append(c.Pushes, c26Push{Kind: pbt.Pick(t, "kind", "notify", "notify", "request"), Body: pbt.Raw(pbt.JSON(t, 2, "body")), Late: pbt.Chance(t, 20, "late")})
		}
		if pbt.Chance(t, 6, "drop") && c.Fault == "" && c.Auth == "" {
			c.Drop, c.Retry = 1+pbt.Weighted(t, "drops", 50, 40, 10), 2
		}
	case "benchmark":
		c.M, c.N = rapid.IntRange(1, 5).Draw(t, "m"), rapid.IntRange(1, 12).Draw(t, "n")
		c.Gate = rapid.Bool().Draw(t, "gate")
		if pbt.Chance(t, 60, "delays") {
			c.Delays = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 4}), 1, 20).Draw(t, "delays")
		}
	case "notify":
		if c.Route.streaming() {
			c.Code = 0 // ends the session
		}
	}
	return c
}

func TestC26(t *testing.T) {
	pbt.Check(t, "C26", pbt.Part[c26Case]{Name: "tools", Quick: 4000, Gen: c26Gen, Run: c26Run},
		pbt.Part[c26Cut]{Name: "cut", Quick: 96, Gen: c26CutGen, Run: c26CutRun})
}
