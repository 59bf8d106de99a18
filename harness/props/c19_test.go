package props

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// c19Step: pass some time, then present tokens (at the same time when parallel).
type c19Step struct {
	Sleep    int64     `json:"sleep,omitempty"` // milliseconds
	Dress    *reqDress `json:"dress,omitempty"`
	Handler  int       `json:"handler,omitempty"`
	Tokens   []int     `json:"tokens"`
	Parallel bool      `json:"parallel,omitempty"`
	Repeat   int       `json:"repeat,omitempty"`
}

type c19Case struct {
	Secrets []string    `json:"secrets"` // one handler each
	Tokens  []tokenSpec `json:"tokens"`
	Steps   []c19Step   `json:"steps"`
}

func c19Gen(t *rapid.T) c19Case {
	c := c19Case{Secrets: []string{"s1"}}
	if pbt.Chance(t, 30, "two") {
		c.Secrets = append(c.Secrets, pbt.Pick(t, "s2", "s2", "s1"))
	}
	n := 1 + pbt.Uniform(t, 6, "ntokens")
	if pbt.Chance(t, 12, "many") {
		n = 90 + pbt.Uniform(t, 140, "manytokens")
	}
	exps := []int64{5, 10, 30, 60, 100, 3600, -5, 0}
	base := genTokenSpec(t, c.Secrets)
	for i := 0; i < n; i++ {
		var s tokenSpec
		if n < 20 {
			s = genTokenSpec(t, c.Secrets)
		} else {
			s = base
			s.Alg, s.Damage, s.Secret = "HS256", "", c.Secrets[i%len(c.Secrets)]
			s.User = fmt.Sprintf("u%d", i)
			s.Settings = nil
		}
		e := exps[pbt.Uniform(t, len(exps), "exp")]
		s.Exp = &e
		if n < 20 && pbt.Chance(t, 8, "noexp") {
			s.Exp = nil
		}
		c.Tokens = append(c.Tokens, s)
		if n < 20 && i > 0 && pbt.Chance(t, 25, "kin") {
			// the same user with another life
			c.Tokens[i].User = c.Tokens[i-1].User
			c.Tokens[i].Secret = c.Tokens[i-1].Secret
		}
		if i > 0 && pbt.Chance(t, 20, "twin") {
			// the same token but for one part
			c.Tokens[i] = c.Tokens[pbt.Uniform(t, i, "of")]
			tw := &c.Tokens[i]
			switch pbt.Uniform(t, 4, "twinpart") {
			case 0: // another signature
				tw.Damage, tw.At = pbt.Pick(t, "twindamage", "sigbyte", "nosig", "case", "pad", "parts"), rapid.IntRange(0, 500).Draw(t, "twinat")
			case 1: // signed by somebody else
				tw.Secret = pbt.Pick(t, "twinsecret", "s1", "s2", "", "S1")
			case 2: // another life under the same signature
				tw.Damage = pbt.Pick(t, "twinbody", "payload", "expiry")
			default:
				tw.Alg = pbt.Pick(t, "twinalg", "HS256", "HS384", "HS512", "none")
			}
		}
	}
	for i, k := 0, rapid.IntRange(1, 14).Draw(t, "steps"); i < k; i++ {
		s := c19Step{Handler: pbt.Uniform(t, len(c.Secrets), "handler"), Parallel: pbt.Chance(t, 20, "parallel")}
		if pbt.Chance(t, 60, "sleep?") {
			s.Sleep = pbt.Pick(t, "sleep", int64(1), 500, 4000, 5001, 5500, 9999, 10500, 20000, 30500, 61000, 3600000)
		}
		if n >= 20 && pbt.Chance(t, 40, "all") {
			for j := range c.Tokens {
				s.Tokens = append(s.Tokens, j)
			}
		} else {
			for j, m := 0, rapid.IntRange(1, 5).Draw(t, "present"); j < m; j++ {
				s.Tokens = append(s.Tokens, pbt.Uniform(t, n, "token"))
			}
		}
		s.Dress = genDress(t)
		c.Steps = append(c.Steps, s)
	}
	return c
}

func c19Run(r *pbt.Rec, c c19Case) (err error) {
	synctest.Test(r.T, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = c19Bubble(r, c)
	})
	return err
}

func c19Bubble(r *pbt.Rec, c c19Case) error {
	type seenKey struct{}
	type seenT struct {
		ran  int
		info *jlibhttp.AuthInfo
	}
	var handlers []*jlibhttp.AuthHandler
	newHandler := func(i int) (*jlibhttp.AuthHandler, error) {
		a := authSpec{Secret: &c.Secrets[i]}
		cfg, err := a.config("struct")
		if err != nil {
			return nil, err
		}
		return jlibhttp.NewAuthHandler(cfg, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s := r.Context().Value(seenKey{}).(*seenT)
			s.info, _ = jlibhttp.AuthInfoFromContext(r.Context())
			s.ran++
			w.WriteHeader(222)
		})), nil
	}
	for i := range c.Secrets {
		h, err := newHandler(i)
		if err != nil {
			return err
		}
		handlers = append(handlers, h)
	}
	start := time.Now()
	headers := make([]string, len(c.Tokens))
	for i, s := range c.Tokens {
		headers[i] = "Bearer " + s.make(start)
	}
	used := map[int]bool{}
	expired := false
	one := func(si, k int) error {
		st := c.Steps[si]
		ti := st.Tokens[k]
		a := authSpec{Secret: &c.Secrets[st.Handler]}
		cr := credSpec{Kind: "token", Token: &c.Tokens[ti]}
		el := time.Since(start)
		ids, open := a.admits(cr, int64(el/time.Second), start)
		req := st.Dress.request("/")
		req.Header.Set("Authorization", headers[ti])
		s := &seenT{}
		req = req.WithContext(contextWith(req.Context(), seenKey{}, s))
		rec := httptest.NewRecorder()
		handlers[st.Handler].ServeHTTP(rec, req)
		who := fmt.Sprintf("step %d after %v: token %d %+v", si, el, ti, c.Tokens[ti])
		if open {
			// undecided, but the same as for a handler that has seen nothing
			fresh, err := newHandler(st.Handler)
			if err != nil {
				return err
			}
			s2 := &seenT{}
			req := st.Dress.request("/")
			req.Header.Set("Authorization", headers[ti])
			rec2 := httptest.NewRecorder()
			fresh.ServeHTTP(rec2, req.WithContext(contextWith(req.Context(), seenKey{}, s2)))
			if rec.Code != rec2.Code || s.ran != s2.ran {
				return fmt.Errorf("%s: status %d, the handler ran %d times; a handler that has seen nothing answers %d, %d", who, rec.Code, s.ran, rec2.Code, s2.ran)
			}
			r.Label("compared with a new handler")
			return nil
		}
		if len(ids) == 0 {
			if rec.Code != 401 || s.ran != 0 {
				return fmt.Errorf("%s: status %d, the handler ran %d times; must be refused", who, rec.Code, s.ran)
			}
			return nil
		}
		if rec.Code != 222 || s.ran != 1 || s.info == nil {
			return fmt.Errorf("%s: status %d, the handler ran %d times, identity %v; must be admitted", who, rec.Code, s.ran, s.info)
		}
		return sameIdentity(ids, s.info, si)
	}
	if len(c.Tokens) > 100 {
		r.Label("more tokens than the cache holds")
	}
	if len(c.Secrets) > 1 {
		r.Label("two handlers")
	}
	for si, st := range c.Steps {
		time.Sleep(time.Duration(st.Sleep) * time.Millisecond)
		now := int64(time.Since(start) / time.Second)
		for _, ti := range st.Tokens {
			if e := c.Tokens[ti].Exp; used[ti] && e != nil {
				r.NonTrivial()
				if *e < now {
					expired = true
				}
			}
			used[ti] = true
		}
		if !st.Parallel {
			for k := range st.Tokens {
				if err := one(si, k); err != nil {
					return err
				}
			}
			continue
		}
		errs := make([]error, len(st.Tokens))
		var wg sync.WaitGroup
		for k := range st.Tokens {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[k] = fmt.Errorf("step %d panics: %v", si, p)
					}
				}()
				errs[k] = one(si, k)
			}()
		}
		wg.Wait()
		if err := errors.Join(errs...); err != nil {
			return err
		}
	}
	if expired {
		r.Label("a token presented before is presented expired")
	}
	return nil
}

func TestC19(t *testing.T) {
	pbt.Check(t, "C19", pbt.Part[c19Case]{Name: "history", Quick: 12000, Gen: c19Gen, Run: c19Run})
}
