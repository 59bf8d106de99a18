package props

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"pgregory.net/rapid"

	"verif/pbt"
)

// Clients of every transport in front of a protected server.

type c18Client struct {
	Route lbRoute    `json:"route"`
	Auth  authSpec   `json:"auth"`
	Creds []credSpec `json:"creds"` // one client each
	Calls int        `json:"calls"`
	Do    []string   `json:"do"` // call, connect, send, by client
}

// sendable headers come out of every client as they went in
func sendable(h string) bool {
	if h != strings.TrimSpace(h) || len(h) > 4000 {
		return false
	}
	for _, c := range []byte(h) {
		if c < ' ' || c > '~' {
			return false
		}
	}
	return true
}

func c18RunClient(r *pbt.Rec, c c18Client) error {
	cfg, err := c.Auth.config("struct")
	if err != nil {
		return err
	}
	type seenT struct {
		info *jlibhttp.AuthInfo
		has  bool
	}
	var mu sync.Mutex
	seen := map[string][]seenT{}
	actor := jlibhttp.NewActor()
	actor.OnRequest("who", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		info, has := jlibhttp.AuthInfoFromContext(req.Context())
		mu.Lock()
		defer mu.Unlock()
		name := params[0].(string)
		seen[name] = append(seen[name], seenT{info, has})
		return name, nil
	})
	protect := func(h http.Handler) http.Handler { return jlibhttp.NewAuthHandler(cfg, h) }
	wrap := protect
	if c.Route.Server == "h2c" {
		// the preface of the cleartext protocol carries no credentials
		h2 := jlibhttp.NewH2Handler(context.Background(), actor)
		wrap = func(http.Handler) http.Handler { return h2c.NewHandler(protect(h2), &http2.Server{}) }
	}
	srv := lbStart(c.Route.Server, actor, lbOptions{wrap: wrap})
	defer srv.close()
	start := time.Now()
	for i, cr := range c.Creds {
		h := cr.header(start)
		if !sendable(h) {
			r.Label("not sendable")
			continue
		}
		ids, open := c.Auth.admits(cr, 0, start)
		if open {
			r.Label("open")
			continue
		}
		client, err := srv.client(c.Route.Client)
		if err != nil {
			return err
		}
		defer closeClient(client)
		if cr.Kind != "none" {
			client.SetExtraHeader(http.Header{"Authorization": {h}})
			r.NonTrivial()
		}
		r.Label("%s %s admitted=%v", c.Route.Client, cr.Kind, len(ids) > 0)
		sent := 0
		for k := 0; k < c.Calls; k++ {
			name := fmt.Sprintf("who%d", i)
			var res jlib.Message
			var err error
			do := c.Do[i]
			if sc, ok := client.(jlibhttp.Streamable); ok && do == "connect" {
				clock := pbt.StartClock()
				_, err, ok = within(r.Slow(patience), func() (any, error) { return nil, sc.Connect(context.Background()) })
				if !ok {
					return clock.Late("client %d: Connect does not return", i)
				}
			} else if do == "send" {
				clock := pbt.StartClock()
				var ok bool
				_, err, ok = within(r.Slow(patience), func() (any, error) {
					return nil, client.Send(context.Background(), jlib.NewNotifyMessage("who", []any{name}))
				})
				if !ok {
					return clock.Late("client %d: Send does not return", i)
				}
				if err == nil {
					sent++
				}
			} else {
				res, err = lbCall(r, client, jlib.NewRequestMessage(k+1, "who", []any{name}))
				if err == nil {
					sent++
				}
			}
			if envProblem(err) {
				return pbt.Inconclusive(err)
			}
			if len(ids) == 0 {
				if err == nil {
					return fmt.Errorf("client %d (%s) with %q: %s succeeds with %s; must be refused", i, c.Route.Client, h, do, pbt.Short(res))
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("client %d (%s) with %q: %s fails: %v; must be admitted", i, c.Route.Client, h, do, err)
			}
			if res != nil && (!res.IsResult() || res.MustResult() != name) {
				return fmt.Errorf("client %d: the call returns %s", i, pbt.Short(res))
			}
		}
		name := fmt.Sprintf("who%d", i)
		clock := pbt.StartClock()
		if !eventually(r.Slow(patience), func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(seen[name]) >= sent
		}) {
			return clock.Late("client %d: %d messages were sent and %d arrived", i, sent, len(seen[name]))
		}
		mu.Lock()
		got := seen[name]
		mu.Unlock()
		if len(got) != sent {
			return fmt.Errorf("client %d with %q: the handler ran %d times for %d messages", i, h, len(got), sent)
		}
		for _, s := range got {
			if c.Auth.None {
				if s.has {
					return fmt.Errorf("client %d: identity %v without authentication", i, s.info)
				}
				continue
			}
			if !s.has || s.info == nil {
				return fmt.Errorf("client %d: the handler sees no identity", i)
			}
			if err := sameIdentity(ids, s.info, i); err != nil {
				return err
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for i, cr := range c.Creds {
		if ids, open := c.Auth.admits(cr, 0, start); !open && len(ids) == 0 && len(seen[fmt.Sprintf("who%d", i)]) > 0 {
			return fmt.Errorf("client %d with %q was refused and its message was handled", i, cr.header(start))
		}
	}
	return nil
}

func c18GenClient(t *rapid.T) c18Client {
	var route lbRoute
	for {
		route = lbRoutes[pbt.Uniform(t, len(lbRoutes), "route")]
		// see wrap above
		if route.Server == "h2c" || route.Client != "h2c" {
			break
		}
	}
	c := c18Client{Route: route, Auth: genAuth(t), Calls: rapid.IntRange(1, 3).Draw(t, "calls")}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "creds"); i < n; i++ {
		c.Creds = append(c.Creds, genCred(t, c.Auth))
		c.Do = append(c.Do, pbt.Pick(t, "do", "call", "call", "connect", "send"))
	}
	return c
}
