package props

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/superisaac/jlib/http"
	yaml "gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

type basicSpec struct {
	User     string          `json:"user"`
	Pass     string          `json:"pass"`
	Settings json.RawMessage `json:"settings,omitempty"`
}

type bearerSpec struct {
	Token    string          `json:"token"`
	User     string          `json:"user,omitempty"`
	Settings json.RawMessage `json:"settings,omitempty"`
}

type authSpec struct {
	None   bool         `json:"none,omitempty"` // no configuration at all
	Basic  []basicSpec  `json:"basic,omitempty"`
	Bearer []bearerSpec `json:"bearer,omitempty"`
	Secret *string      `json:"secret,omitempty"`
}

// tokenSpec is a signed token, made by this file rather than by the library.
type tokenSpec struct {
	Alg      string          `json:"alg"` // HS256 HS384 HS512 none ES256
	Secret   string          `json:"secret"`
	User     string          `json:"user"`
	Settings json.RawMessage `json:"settings,omitempty"`
	Exp      *int64          `json:"exp,omitempty"` // seconds from the start
	Damage   string          `json:"damage,omitempty"`
	At       int             `json:"at,omitempty"`
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

var ecKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)

func (s tokenSpec) make(start time.Time) string {
	claims := map[string]any{"username": s.User}
	if len(s.Settings) > 0 {
		claims["settings"] = pbt.MustDec(s.Settings)
	}
	if s.Exp != nil {
		claims["exp"] = start.Unix() + *s.Exp
	}
	head := b64(pbt.Raw(map[string]any{"alg": s.Alg, "typ": "JWT"}))
	body := b64(pbt.Raw(claims))
	text := head + "." + body
	var sig []byte
	mac := func(h func() hash.Hash) []byte {
		m := hmac.New(h, []byte(s.Secret))
		m.Write([]byte(text))
		return m.Sum(nil)
	}
	switch s.Alg {
	case "HS256":
		sig = mac(sha256.New)
	case "HS384":
		sig = mac(sha512.New384)
	case "HS512":
		sig = mac(sha512.New)
	case "ES256":
		h := sha256.Sum256([]byte(text))
		r, ss, _ := ecdsa.Sign(rand.Reader, ecKey, h[:])
		sig = append(r.FillBytes(make([]byte, 32)), ss.FillBytes(make([]byte, 32))...)
	}
	tok := text + "." + b64(sig)
	switch s.Damage {
	case "payload": // another user under the same signature
		claims["username"] = s.User + "x"
		tok = head + "." + b64(pbt.Raw(claims)) + "." + b64(sig)
	case "expiry": // a longer life under the same signature
		claims["exp"] = start.Unix() + 1000000000
		claims["x"] = 1
		tok = head + "." + b64(pbt.Raw(claims)) + "." + b64(sig)
	case "nosig":
		tok = text + "."
	case "cut":
		tok = tok[:1+s.At%(len(tok)-1)]
	case "parts":
		tok = text
	case "swapalg":
		tok = b64(pbt.Raw(map[string]any{"alg": "none", "typ": "JWT"})) + "." + body + "."
	case "sigbyte":
		if len(sig) > 0 {
			sig[s.At%len(sig)] ^= 1
		}
		tok = text + "." + b64(sig)
		if len(sig) == 0 {
			tok += "AA"
		}
	}
	switch s.Damage {
	case "case": // one letter in the other case
		b := []byte(tok)
		for i := range b {
			if c := &b[(s.At*7+i)%len(b)]; *c|32 >= 'a' && *c|32 <= 'z' {
				*c ^= 32
				break
			}
		}
		tok = string(b)
	case "pad":
		tok += "=="[:1+s.At%2]
	}
	return tok
}

// good tells whether the token is signed with the secret, and whether that is
// certain (a cut token may still be whole).
func (s tokenSpec) good(secret string) bool {
	return s.Damage == "" && strings.HasPrefix(s.Alg, "HS") && sameKey(s.Alg, s.Secret, secret)
}

// sameKey tells whether two secrets are one HMAC key: keys are filled up with
// zeros, and long ones replaced by their hash.
func sameKey(alg, a, b string) bool {
	h := sha256.New
	switch alg {
	case "HS384":
		h = sha512.New384
	case "HS512":
		h = sha512.New
	}
	x, y := hmac.New(h, []byte(a)), hmac.New(h, []byte(b))
	return hmac.Equal(x.Sum(nil), y.Sum(nil))
}

type credSpec struct {
	Kind   string     `json:"kind"` // none basic bearer token raw
	User   string     `json:"user,omitempty"`
	Pass   string     `json:"pass,omitempty"`
	Text   string     `json:"text,omitempty"` // bearer token, or the whole header when raw
	Token  *tokenSpec `json:"token,omitempty"`
	Direct bool       `json:"direct,omitempty"` // use TryAuth
	Dress  *reqDress  `json:"dress,omitempty"`
}

// reqDress is what of a request has no say in its admission.
type reqDress struct {
	Method string            `json:"method"`
	Query  string            `json:"query,omitempty"`
	Host   string            `json:"host,omitempty"`
	Remote string            `json:"remote,omitempty"`
	Header map[string]string `json:"header,omitempty"`
}

// request makes a request to the path.
func (d *reqDress) request(path string) *http.Request {
	if d == nil {
		return httptest.NewRequest("POST", path, nil)
	}
	req := httptest.NewRequest(d.Method, path+d.Query, nil)
	if d.Host != "" {
		req.Host = d.Host
	}
	if d.Remote != "" {
		req.RemoteAddr = d.Remote
	}
	for k, v := range d.Header {
		req.Header.Set(k, v)
	}
	return req
}

func genDress(t *rapid.T) *reqDress {
	if pbt.Chance(t, 40, "plain") {
		return nil
	}
	d := &reqDress{Method: pbt.Pick(t, "httpmethod", "POST", "GET", "OPTIONS", "HEAD", "PUT", "PRI", "DELETE", "PATCH", "TRACE", "post", "X")}
	d.Query = pbt.Pick(t, "query", "", "", "?", "?x=1", "?token=&access_token=x", "?health")
	d.Host = pbt.Pick(t, "host", "", "", "localhost", "127.0.0.1:80", "[::1]")
	d.Remote = pbt.Pick(t, "remote", "", "", "127.0.0.1:4000", "[::1]:4000", "@", "10.0.0.1:1")
	for i, n := 0, pbt.Uniform(t, 3, "headers"); i < n; i++ {
		if d.Header == nil {
			d.Header = map[string]string{}
		}
		h := pbt.Pick(t, "header", [2]string{"Upgrade", "websocket"}, [2]string{"Connection", "Upgrade"}, [2]string{"Origin", "http://localhost"}, [2]string{"X-Forwarded-For", "127.0.0.1"},
			[2]string{"X-Real-Ip", "127.0.0.1"}, [2]string{"Cookie", "session=1; token=x"}, [2]string{"Access-Control-Request-Method", "POST"}, [2]string{"User-Agent", "kube-probe/1.0"},
			[2]string{"X-Http-Method-Override", "OPTIONS"}, [2]string{"Proxy-Authorization", "Basic Og=="}, [2]string{"Content-Type", "application/json"}, [2]string{"Sec-Websocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="})
		d.Header[h[0]] = h[1]
	}
	return d
}

type c18Case struct {
	Auth     authSpec   `json:"auth"`
	Form     string     `json:"form"` // struct json yaml
	Creds    []credSpec `json:"creds"`
	Parallel bool       `json:"parallel,omitempty"`
}

type identity struct {
	user     string
	settings any
}

func (a authSpec) config(form string) (*jlibhttp.AuthConfig, error) {
	settings := func(raw json.RawMessage) map[string]any {
		if len(raw) == 0 {
			return nil
		}
		var m map[string]any
		json.Unmarshal(raw, &m)
		return m
	}
	if form == "struct" {
		if a.None {
			return nil, nil
		}
		c := &jlibhttp.AuthConfig{}
		for _, b := range a.Basic {
			c.Basic = append(c.Basic, jlibhttp.BasicAuthConfig{Username: b.User, Password: b.Pass, Settings: settings(b.Settings)})
		}
		for _, b := range a.Bearer {
			c.Bearer = append(c.Bearer, jlibhttp.BearerAuthConfig{Token: b.Token, Username: b.User, Settings: settings(b.Settings)})
		}
		if a.Secret != nil {
			c.Jwt = &jlibhttp.JwtAuthConfig{Secret: *a.Secret}
		}
		return c, nil
	}
	doc := map[string]any{}
	if len(a.Basic) > 0 {
		var l []any
		for _, b := range a.Basic {
			m := map[string]any{"username": b.User, "password": b.Pass}
			if len(b.Settings) > 0 {
				m["settings"] = pbt.MustDec(b.Settings)
			}
			l = append(l, m)
		}
		doc["basic"] = l
	}
	if len(a.Bearer) > 0 {
		var l []any
		for _, b := range a.Bearer {
			m := map[string]any{"token": b.Token}
			if b.User != "" {
				m["username"] = b.User
			}
			if len(b.Settings) > 0 {
				m["settings"] = pbt.MustDec(b.Settings)
			}
			l = append(l, m)
		}
		doc["bearer"] = l
	}
	if a.Secret != nil {
		doc["jwt"] = map[string]any{"secret": *a.Secret}
	}
	var c *jlibhttp.AuthConfig
	var text any = doc
	if a.None {
		text = nil
	}
	if form == "json" {
		err := json.Unmarshal(pbt.Raw(text), &c)
		return c, err
	}
	// a YAML document of plain Go values; strings are quoted as JSON strings
	err := yaml.Unmarshal([]byte(yamlFlow(text)), &c)
	return c, err
}

// yamlFlow writes a JSON value as YAML flow text with ASCII-only strings.
func yamlFlow(v any) string {
	switch x := v.(type) {
	case map[string]any:
		var parts []string
		for _, k := range pbt.Keys(x) {
			parts = append(parts, yamlFlow(k)+": "+yamlFlow(x[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case []any:
		var parts []string
		for _, e := range x {
			parts = append(parts, yamlFlow(e))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case string:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, c := range x {
			switch {
			case c == '"' || c == '\\':
				sb.WriteByte('\\')
				sb.WriteRune(c)
			case c >= 0x20 && c < 0x7f:
				sb.WriteRune(c)
			case c < 0x10000:
				fmt.Fprintf(&sb, "\\u%04x", c)
			default:
				fmt.Fprintf(&sb, "\\U%08x", c)
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case nil:
		return "null"
	}
	return string(pbt.Raw(v))
}

// header is the Authorization header of the credentials, "" for none.
func (c credSpec) header(start time.Time) string {
	switch c.Kind {
	case "basic":
		return "Basic " + base64.StdEncoding.EncodeToString([]byte(c.User+":"+c.Pass))
	case "bearer":
		return "Bearer " + c.Text
	case "token":
		return "Bearer " + c.Token.make(start)
	case "raw":
		return c.Text
	}
	return ""
}

// admits lists the identities the credentials may stand for; open when the
// prescription does not decide.
func (a authSpec) admits(c credSpec, now int64, start time.Time) (ids []identity, open bool) {
	h := c.header(start)
	if a.None {
		return []identity{{"", nil}}, false
	}
	if len(a.Basic) == 0 && len(a.Bearer) == 0 && a.Secret == nil {
		return nil, true // a configuration that configures nothing
	}
	dec := func(raw json.RawMessage) any {
		if len(raw) == 0 {
			return nil
		}
		return pbt.MustDec(raw)
	}
	if c.Kind == "basic" {
		for _, b := range a.Basic {
			// the first colon separates user and password
			if b.User+":"+b.Pass == c.User+":"+c.Pass && !strings.Contains(b.User, ":") {
				ids = append(ids, identity{b.User, dec(b.Settings)})
			}
		}
	}
	if strings.HasPrefix(h, "Bearer ") {
		for _, b := range a.Bearer {
			if h == "Bearer "+b.Token {
				u := b.User
				if u == "" {
					u = b.Token
				}
				ids = append(ids, identity{u, dec(b.Settings)})
			}
		}
	} else if c.Kind == "raw" && len(h) > 6 && (strings.EqualFold(h[:6], "bearer") || strings.EqualFold(h[:5], "basic")) {
		open = true // spelled in another case, with other white space
	}
	if c.Kind == "token" && c.Token.Damage == "pad" {
		open = true // base64 is sometimes written so
	}
	if c.Kind == "token" && a.Secret != nil && c.Token.good(*a.Secret) {
		if e := c.Token.Exp; e != nil {
			switch {
			case *e > now:
				ids = append(ids, identity{c.Token.User, dec(c.Token.Settings)})
			case *e == now:
				open = true
			}
		}
	}
	return ids, open
}

func genSettings(t *rapid.T) json.RawMessage {
	if pbt.Chance(t, 50, "nosettings") {
		return nil
	}
	m := map[string]any{}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "settings"); i < n; i++ {
		var v any
		switch pbt.Uniform(t, 5, "sk") {
		case 0:
			v = json.Number(fmt.Sprint(rapid.IntRange(-1000, 1000000).Draw(t, "sn")))
		case 1:
			v = pbt.Str(t, "ss")
		case 2:
			v = rapid.Bool().Draw(t, "sb")
		case 3:
			v = []any{"a", map[string]any{"n": nil, "ns": pbt.Ident(t, "sid")}}
		default:
			v = map[string]any{"k": json.Number("1.5"), "role": pbt.Ident(t, "role")}
		}
		m[pbt.Ident(t, "skey")] = v
	}
	return pbt.Raw(m)
}

func nonEmpty(t *rapid.T, label string) string {
	s := pbt.Str(t, label)
	if s == "" {
		return "s"
	}
	return s
}

// genToken draws a bearer token a header can carry.
func genBearer(t *rapid.T) string {
	return rapid.StringMatching(`[!-~]{1,20}`).Draw(t, "bearer")
}

func genAuth(t *rapid.T) authSpec {
	a := authSpec{}
	if pbt.Chance(t, 4, "none") {
		a.None = true
		return a
	}
	if pbt.Chance(t, 70, "basic") {
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nbasic"); i < n; i++ {
			b := basicSpec{User: strings.ReplaceAll(nonEmpty(t, "user"), ":", ";"), Pass: nonEmpty(t, "pass"), Settings: genSettings(t)}
			if i > 0 && pbt.Chance(t, 30, "related") {
				b.User = a.Basic[0].User + pbt.Pick(t, "usuffix", "", "x", " ")
			}
			if i > 0 && pbt.Chance(t, 20, "samepass") {
				b.Pass = a.Basic[0].Pass
			}
			a.Basic = append(a.Basic, b)
		}
	}
	if pbt.Chance(t, 70, "bearers") {
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nbearer"); i < n; i++ {
			b := bearerSpec{Token: genBearer(t), Settings: genSettings(t)}
			if pbt.Chance(t, 60, "named") {
				b.User = nonEmpty(t, "buser")
			}
			if i > 0 && pbt.Chance(t, 30, "relatedtoken") {
				b.Token = a.Bearer[0].Token + pbt.Pick(t, "tsuffix", "x", "=", ".")
			}
			a.Bearer = append(a.Bearer, b)
		}
	}
	if pbt.Chance(t, 60, "jwt") {
		s := nonEmpty(t, "secret")
		a.Secret = &s
	}
	return a
}

func genTokenSpec(t *rapid.T, secrets []string) tokenSpec {
	s := tokenSpec{Alg: pbt.Pick(t, "alg", "HS256", "HS256", "HS256", "HS384", "HS512", "none", "ES256"), User: pbt.Str(t, "tuser"), Settings: genSettings(t)}
	s.Secret = pbt.Pick(t, "tsecret", secrets...)
	if pbt.Chance(t, 12, "wrongsecret") {
		s.Secret = pbt.Str(t, "wrong")
	}
	if pbt.Chance(t, 95, "exp?") {
		e := pbt.Pick(t, "exp", int64(3600), 1000000, 60, -60, -3600, -1)
		s.Exp = &e
	}
	if pbt.Chance(t, 25, "damage?") {
		s.Damage = pbt.Pick(t, "damage", "payload", "expiry", "nosig", "cut", "parts", "swapalg", "sigbyte", "case", "pad")
		s.At = rapid.IntRange(0, 500).Draw(t, "at")
	}
	return s
}

func genCred(t *rapid.T, a authSpec) credSpec {
	mangle := func(s, label string) string {
		switch pbt.Weighted(t, label, 60, 10, 10, 10, 10) {
		case 1:
			return s + pbt.Pick(t, "more", "x", " ", "\x00", ":")
		case 2:
			if len(s) > 0 {
				return s[:len(s)-1]
			}
		case 3:
			return strings.ToUpper(s)
		case 4:
			return pbt.Str(t, "other")
		}
		return s
	}
	clean := func(s string) string { // what a header can carry
		return strings.TrimSpace(strings.Map(func(r rune) rune {
			if r < 0x20 || r == 0x7f {
				return '_'
			}
			return r
		}, s))
	}
	c := credSpec{Direct: pbt.Chance(t, 20, "direct"), Dress: genDress(t)}
	switch pbt.Weighted(t, "cred", 8, 30, 25, 30, 7) {
	case 0:
		c.Kind = "none"
	case 1:
		c.Kind = "basic"
		c.User, c.Pass = "nobody", "nothing"
		if len(a.Basic) > 0 {
			c.User = a.Basic[pbt.Uniform(t, len(a.Basic), "bu")].User
			c.Pass = a.Basic[pbt.Uniform(t, len(a.Basic), "bp")].Pass
			if i := pbt.Uniform(t, len(a.Basic), "pair"); pbt.Chance(t, 60, "paired") {
				c.User, c.Pass = a.Basic[i].User, a.Basic[i].Pass
			}
		}
		if pbt.Chance(t, 40, "mangled") {
			c.User, c.Pass = mangle(c.User, "mu"), mangle(c.Pass, "mp")
		}
	case 2:
		c.Kind = "bearer"
		c.Text = "token"
		if len(a.Bearer) > 0 {
			c.Text = a.Bearer[pbt.Uniform(t, len(a.Bearer), "bt")].Token
		} else if len(a.Basic) > 0 {
			c.Text = a.Basic[0].Pass
		}
		if pbt.Chance(t, 30, "mangled") {
			c.Text = mangle(c.Text, "mt")
		}
		if pbt.Chance(t, 6, "empty") {
			c.Text = ""
		}
		c.Text = clean(c.Text)
	case 3:
		c.Kind = "token"
		secrets := []string{"s"}
		if a.Secret != nil {
			secrets = []string{*a.Secret}
		}
		s := genTokenSpec(t, secrets)
		c.Token = &s
	default:
		c.Kind = "raw"
		c.Text = clean(pbt.Pick(t, "raw", "Bearer", "Basic", "Basic ", "Bearer  ", "Basic !!!", "Basic Og==", "Digest username=x", "bearer x", "basic Og==", "Bearer a b c", "Bearer a.b.c", "Bearer ..", "Bearer", "x", "Basic "+base64.StdEncoding.EncodeToString([]byte("nocolon")), clean(pbt.Str(t, "rawtext"))))
	}
	return c
}

func c18Run(r *pbt.Rec, c c18Case) error {
	cfg, err := c.Auth.config(c.Form)
	if err != nil {
		return fmt.Errorf("the configuration does not load from %s: %v", c.Form, err)
	}
	if err := cfg.ValidateValues(); err != nil {
		return fmt.Errorf("ValidateValues refuses a proper configuration: %v", err)
	}
	type seenT struct {
		ran  int
		info *jlibhttp.AuthInfo
		has  bool
	}
	var mu sync.Mutex
	seen := map[string]*seenT{}
	h := jlibhttp.NewAuthHandler(cfg, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		info, has := jlibhttp.AuthInfoFromContext(r.Context())
		mu.Lock()
		defer mu.Unlock()
		s := seen[r.URL.Path]
		s.ran++
		s.info, s.has = info, has
		w.WriteHeader(222)
	}))
	start := time.Now()
	one := func(i int) error {
		cr := c.Creds[i]
		path := fmt.Sprintf("/%d", i)
		req := cr.Dress.request(path)
		if hd := cr.header(start); cr.Kind != "none" {
			req.Header.Set("Authorization", hd)
		}
		mu.Lock()
		s := &seenT{}
		seen[path] = s
		mu.Unlock()
		ids, open := c.Auth.admits(cr, 0, start)
		status := 0
		if cr.Direct {
			info, ok := h.TryAuth(req)
			status = 401
			if ok {
				status, s.ran, s.info, s.has = 222, 1, info, info != nil
			}
		} else {
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, req)
			status = rec.Code
		}
		what := cr.Kind
		if cr.Token != nil {
			what += " " + cr.Token.Damage
		}
		if open {
			r.Label("open")
			return nil
		}
		r.Label("%s %s admitted=%v", c.Form, what, len(ids) > 0)
		if cr.Kind != "none" {
			r.NonTrivial()
		}
		if len(ids) == 0 {
			if status != 401 || s.ran != 0 {
				return fmt.Errorf("request %d with %q: status %d, handler ran %d times; must be refused", i, cr.header(start), status, s.ran)
			}
			return nil
		}
		if status != 222 || s.ran != 1 {
			return fmt.Errorf("request %d with %q: status %d, handler ran %d times; must be admitted", i, cr.header(start), status, s.ran)
		}
		if c.Auth.None {
			if s.has {
				return fmt.Errorf("request %d: identity %v without authentication", i, s.info)
			}
			return nil
		}
		if !s.has || s.info == nil {
			return fmt.Errorf("request %d: the handler sees no identity", i)
		}
		return sameIdentity(ids, s.info, i)
	}
	if !c.Parallel {
		for i := range c.Creds {
			if err := one(i); err != nil {
				return err
			}
		}
		return nil
	}
	errs := make([]error, len(c.Creds))
	var wg sync.WaitGroup
	for i := range c.Creds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("request %d panics: %v", i, p)
				}
			}()
			errs[i] = one(i)
		}()
	}
	wg.Wait()
	return errors.Join(errs...)
}

func sameIdentity(ids []identity, info *jlibhttp.AuthInfo, i int) error {
	var first error
	for _, id := range ids {
		err := func() error {
			if info.Username != id.user {
				return fmt.Errorf("request %d: user %q, should be %q", i, info.Username, id.user)
			}
			var got any
			if info.Settings != nil {
				g, err := pbt.ToJSON(info.Settings)
				if err != nil {
					return err
				}
				got = g
			}
			if m, ok := id.settings.(map[string]any); ok && len(m) == 0 && got == nil {
				return nil
			}
			if err := pbt.DiffNum(id.settings, got); err != nil {
				return fmt.Errorf("request %d: settings of %q: %w", i, info.Username, err)
			}
			return nil
		}()
		if err == nil {
			return nil
		}
		if first == nil {
			first = err
		}
	}
	return first
}

type c18Bad struct {
	Auth authSpec `json:"auth"`
	Form string   `json:"form"`
	What string   `json:"what"`
	At   int      `json:"at"`
}

func c18RunBad(r *pbt.Rec, c c18Bad) error {
	r.NonTrivial()
	empty := ""
	a := c.Auth
	switch c.What {
	case "user":
		a.Basic[c.At%len(a.Basic)].User = ""
	case "pass":
		a.Basic[c.At%len(a.Basic)].Pass = ""
	case "token":
		a.Bearer[c.At%len(a.Bearer)].Token = ""
	case "secret":
		a.Secret = &empty
	}
	cfg, err := a.config(c.Form)
	if err != nil {
		return nil // refused earlier
	}
	r.Label("empty %s in %s", c.What, c.Form)
	if cfg.ValidateValues() == nil {
		return fmt.Errorf("a configuration with an empty %s is valid", c.What)
	}
	return nil
}

func TestC18(t *testing.T) {
	pbt.Check(t, "C18",
		pbt.Part[c18Case]{Name: "requests", Quick: 40000, Gen: func(t *rapid.T) c18Case {
			c := c18Case{Auth: genAuth(t), Form: pbt.Pick(t, "form", "struct", "json", "yaml"), Parallel: pbt.Chance(t, 25, "parallel")}
			for i, n := 0, rapid.IntRange(1, 8).Draw(t, "creds"); i < n; i++ {
				if i > 0 && pbt.Chance(t, 20, "again") {
					c.Creds = append(c.Creds, c.Creds[i-1])
					continue
				}
				c.Creds = append(c.Creds, genCred(t, c.Auth))
			}
			return c
		}, Run: c18Run},
		pbt.Part[c18Bad]{Name: "invalid", Quick: 5000, Gen: func(t *rapid.T) c18Bad {
			c := c18Bad{Auth: genAuth(t), Form: pbt.Pick(t, "form", "struct", "json", "yaml"), At: rapid.IntRange(0, 9).Draw(t, "at")}
			c.Auth.None = false
			opts := []string{"secret"}
			if len(c.Auth.Basic) > 0 {
				opts = append(opts, "user", "pass")
			}
			if len(c.Auth.Bearer) > 0 {
				opts = append(opts, "token")
			}
			c.What = pbt.Pick(t, "what", opts...)
			return c
		}, Run: c18RunBad},
		pbt.Part[c18Client]{Name: "clients", Quick: 4000, Gen: c18GenClient, Run: c18RunClient},
	)
}
