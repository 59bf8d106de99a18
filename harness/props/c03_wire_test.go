package props

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"pgregory.net/rapid"

	"verif/pbt"
)

// c03Wire is a stream that one end of an HTTP/2 session of the library reads.
type c03Wire struct {
	Server string  `json:"server"` // "" for the client's end
	Stream c03Case `json:"stream"`
}

func c03WireGen(t *rapid.T) c03Wire {
	w := c03Wire{Server: pbt.Pick(t, "server", "", "", "h2c", "h2c", "h2", "gw", "gws"), Stream: c03Gen(t)}
	w.Stream.Broken = false
	return w
}

// pieces cuts the stream, into not too many.
func (c c03Case) pieces(stream []byte) (out [][]byte) {
	for i := 0; len(stream) > 0; i++ {
		n := min(len(stream), max(c.Chunks[i%len(c.Chunks)], len(stream)/100))
		out = append(out, stream[:n])
		stream = stream[n:]
	}
	return out
}

func c03WireRun(r *pbt.Rec, w c03Wire) error {
	c := w.Stream
	stream, spans, cut, err := c.stream()
	if err != nil {
		return err
	}
	whole := 0
	for _, s := range spans {
		if s.to <= cut {
			whole++
		}
	}
	if whole > 1 {
		r.NonTrivial()
	}
	r.Label("read by the %s", map[bool]string{true: "client", false: "server"}[w.Server == ""])
	pieces := c.pieces(stream[:cut])

	var mu sync.Mutex
	var got []jlib.Message
	record := func(m jlib.Message) {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, m)
	}
	ended := make(chan struct{}, 10)
	if w.Server == "" {
		srv := httptest.NewUnstartedServer(h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(200)
			w.(http.Flusher).Flush()
			for _, p := range pieces {
				w.Write(p)
				w.(http.Flusher).Flush()
			}
		}), &http2.Server{}))
		srv.Config.ErrorLog = quietLog
		srv.Start()
		defer func() {
			srv.CloseClientConnections()
			go srv.Close()
		}()
		client := jlibhttp.NewH2Client(mustURL("h2c://" + srv.Listener.Addr().String()))
		defer closeClient(client)
		client.OnMessage(record)
		client.OnClose(func() { ended <- struct{}{} })
		clock := pbt.StartClock()
		_, err, ok := within(r.Slow(patience), func() (any, error) { return nil, client.Connect(context.Background()) })
		if !ok {
			return clock.Late("connecting does not return")
		}
		if envProblem(err) {
			return pbt.Inconclusive(err)
		}
		if err != nil {
			return fmt.Errorf("the client does not connect: %v", err)
		}
	} else {
		actor := jlibhttp.NewActor()
		actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			record(req.Msg())
			return nil, nil
		})
		actor.OnClose(func(*http.Request, jlibhttp.RPCSession) { ended <- struct{}{} })
		srv := lbStart(w.Server, actor, lbOptions{serial: true})
		defer srv.close()
		kind := "h2c"
		if srv.srv.TLS != nil {
			kind = "h2"
		}
		raw, err := rawDial(srv, kind, nil, 0)
		if envProblem(err) {
			return pbt.Inconclusive(err)
		}
		if err != nil {
			return fmt.Errorf("cannot connect: %v", err)
		}
		defer raw.done()
		for _, p := range pieces {
			if err := raw.bytes(p, false); err != nil {
				return fmt.Errorf("the server takes no more of the stream: %v", err)
			}
		}
		raw.close("clean")
	}
	clock := pbt.StartClock()
	if _, ok := receive(ended, r.Slow(patience)); !ok {
		return clock.Late("the session does not end with the stream")
	}
	ordered := w.Server == "" || w.Server == "h2c" || w.Server == "h2"
	if !ordered {
		// handled at the same time, some perhaps after the end
		clock := pbt.StartClock()
		if !eventually(r.Slow(patience), func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(got) >= whole
		}) {
			return clock.Late("%d of %d messages arrive", len(got), whole)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if len(got) != whole {
		return fmt.Errorf("%d messages arrive, %d are complete (stream cut at %d of %d)", len(got), whole, cut, len(stream))
	}
	left := make([]MsgSpec, whole)
	for i := range left {
		left[i] = c.Msgs[i]
		left[i].Native = false
	}
	for i, m := range got {
		if ordered {
			if err := left[i].checkFull(m); err != nil {
				return fmt.Errorf("message %d: %w", i, err)
			}
			continue
		}
		at := -1
		for k, s := range left {
			if s.checkFull(m) == nil {
				at = k
				break
			}
		}
		if at < 0 {
			return fmt.Errorf("a message arrives that was not sent (again): %s", jlib.MessageString(m))
		}
		left = append(left[:at:at], left[at+1:]...)
	}
	return nil
}
