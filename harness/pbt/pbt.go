// Package pbt is the small property-based testing framework the checks share.
//
// A check is a set of parts. A part draws a JSON-serialisable case from rapid
// generators and decides it with a pure function of the case. The last failing
// case rapid ends up with (the shrunk one) becomes the replay file; a replay
// bypasses rapid completely.
package pbt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Rec collects what a case exercised.
type Rec struct {
	nontrivial bool
	labels     map[string]bool
	mu         sync.Mutex
	Attempt    int // 0 on the first execution, >0 when a soft failure is confirmed
	T          *testing.T
}

// NonTrivial marks the case as non-trivial by the part's rule.
func (r *Rec) NonTrivial() { r.mu.Lock(); r.nontrivial = true; r.mu.Unlock() }

// Label counts the case in a class.
func (r *Rec) Label(format string, args ...any) {
	r.mu.Lock()
	r.labels[fmt.Sprintf(format, args...)] = true
	r.mu.Unlock()
}

// Slow scales a real-time patience bound: later attempts are more patient.
func (r *Rec) Slow(d time.Duration) time.Duration { return d * time.Duration(1+2*r.Attempt) }

type softError struct{ error }

// Soft marks a failure that depends on elapsed real time; it only counts when
// it persists through two more executions with longer deadlines.
func Soft(format string, args ...any) error { return softError{fmt.Errorf(format, args...)} }

// Inconclusive is an environment problem (no port, no file): the case is dropped.
type inconclusive struct{ error }

func Inconclusive(err error) error { return inconclusive{err} }

type stats struct {
	Evaluations  int            `json:"evaluations"`
	Nontrivial   []string       `json:"nontrivial"`
	Samples      []any          `json:"samples"`
	Labels       map[string]int `json:"labels"`
	Inconclusive int            `json:"inconclusive"`
	Soft         int            `json:"soft_unconfirmed"`
	Known        map[string]int `json:"known"`
	TimeUp       bool           `json:"time_up"`
}

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

// AnyPart is a part with its case type hidden.
type AnyPart interface {
	run(t *testing.T, e *env)
	replay(t *testing.T, e *env, raw json.RawMessage) error
	name() string
}

// Part describes one generated check.
type Part[C any] struct {
	Name     string
	Quick    int // cases over all shards, quick tier
	Thorough int // cases over all shards, thorough tier (default 15 x quick)
	Gen      func(t *rapid.T) C
	Run      func(r *Rec, c C) error
	Limit    time.Duration // one execution may take this long before it counts as a hang
	Fixed    []C           // cases always executed, by shard 0
	Shrink   time.Duration
}

func (p Part[C]) name() string { return p.Name }

type env struct {
	property         string
	out, tier        string
	shard, shards    int
	seed             uint64
	stop             time.Time
	st               *stats
	seen             map[string]bool
	known            map[string]bool
	mu               sync.Mutex
	frozen           bool
	lastCaseFailFile string
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func loadEnv(property string) *env {
	e := &env{property: property, out: os.Getenv("VERIF_OUT"), tier: getenv("VERIF_TIER", "quick")}
	if e.out == "" {
		e.out = filepath.Join(os.TempDir(), "verif-out")
		os.MkdirAll(e.out, 0o755)
	}
	e.shard, _ = strconv.Atoi(getenv("VERIF_SHARD", "0"))
	e.shards, _ = strconv.Atoi(getenv("VERIF_SHARDS", "1"))
	s, _ := strconv.ParseInt(getenv("VERIF_SEED", "1"), 10, 64)
	e.seed = uint64(s)
	secs, _ := strconv.ParseFloat(getenv("VERIF_STOP_AFTER", "100000"), 64)
	e.stop = time.Now().Add(time.Duration(secs * float64(time.Second)))
	e.st = &stats{Labels: map[string]int{}, Known: map[string]int{}}
	e.seen = map[string]bool{}
	e.known = map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\x1f") {
		if k != "" {
			e.known[k] = true
		}
	}
	return e
}

func (e *env) partSeed(part string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d/%s", e.property, part, e.seed, e.shard, e.tier)
	v := h.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func (e *env) writeFailure(part string, cs json.RawMessage, err error) {
	b, _ := json.MarshalIndent(failure{e.property, part, err.Error(), cs}, "", " ")
	writeAtomic(filepath.Join(e.out, fmt.Sprintf("fail-%d.json", e.shard)), b)
}

func (e *env) current(part string, cs json.RawMessage) {
	b, _ := json.Marshal(failure{e.property, part, "process died", cs})
	writeAtomic(filepath.Join(e.out, fmt.Sprintf("current-%d.json", e.shard)), b)
}

func (e *env) flush() {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.st.Nontrivial = e.st.Nontrivial[:0]
	for k := range e.seen {
		e.st.Nontrivial = append(e.st.Nontrivial, k)
	}
	sort.Strings(e.st.Nontrivial)
	b, _ := json.Marshal(e.st)
	writeAtomic(filepath.Join(e.out, fmt.Sprintf("stats-%d.json", e.shard)), b)
}

// KnownError carries the signature under which a known finding is listed.
type KnownError struct {
	Sig string
	Err error
}

func (k KnownError) Error() string { return "[" + k.Sig + "] " + k.Err.Error() }

// Sig attaches a signature to a failure.
func Sig(sig string, err error) error {
	if err == nil {
		return nil
	}
	return KnownError{sig, err}
}

func safely[C any](p Part[C], r *Rec, c C) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v\n%s", x, trimStack(string(debug.Stack())))
		}
	}()
	return p.Run(r, c)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// decide executes the case, re-executing soft failures.
func (p Part[C]) decide(t *testing.T, e *env, c C, raw json.RawMessage) (rec *Rec, err error) {
	limit := p.Limit
	if limit == 0 {
		limit = 120 * time.Second
	}
	for attempt := 0; ; attempt++ {
		rec = &Rec{labels: map[string]bool{}, Attempt: attempt, T: t}
		timer := time.AfterFunc(limit*time.Duration(1+attempt), func() {
			e.writeFailure(p.Name, raw, fmt.Errorf("HANG: the case did not finish within %v", limit*time.Duration(1+attempt)))
			buf := debug.Stack()
			fmt.Fprintf(os.Stderr, "HANG in %s\n%s\n", p.Name, buf)
			os.Exit(7)
		})
		err = safely(p, rec, c)
		timer.Stop()
		var se softError
		if errors.As(err, &se) && attempt < 2 {
			e.st.Soft++
			continue
		}
		return rec, err
	}
}

func (p Part[C]) one(t *testing.T, e *env, c C, shrinking bool) error {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("case does not marshal: %v", err))
	}
	e.current(p.Name, raw)
	rec, err := p.decide(t, e, c, raw)
	var inc inconclusive
	if errors.As(err, &inc) {
		e.st.Inconclusive++
		if e.st.Inconclusive <= 5 {
			fmt.Fprintf(os.Stderr, "inconclusive: %v\n", err)
		}
		return nil
	}
	if !shrinking {
		e.st.Evaluations++
		for l := range rec.labels {
			e.st.Labels[p.Name+"/"+l]++
		}
		e.st.Labels[p.Name]++
		if rec.nontrivial {
			h := sha256.Sum256(append([]byte(p.Name+"\x00"), raw...))
			k := hex.EncodeToString(h[:8])
			if !e.seen[k] {
				e.seen[k] = true
				n := e.st.Labels[p.Name+"#nt"]
				e.st.Labels[p.Name+"#nt"]++
				if (n == 5 || n == 50) && len(raw) < 4000 {
					e.st.Samples = append(e.st.Samples, map[string]any{"part": p.Name, "case": json.RawMessage(raw)})
				}
			}
		}
	}
	if err != nil {
		var ke KnownError
		if errors.As(err, &ke) && e.known[p.Name+":"+ke.Sig] {
			e.st.Known[p.Name+":"+ke.Sig]++
			return nil
		}
		e.writeFailure(p.Name, raw, err)
		return err
	}
	return nil
}

func (p Part[C]) run(t *testing.T, e *env) {
	if e.shard == 0 {
		for i, c := range p.Fixed {
			if err := p.one(t, e, c, false); err != nil {
				t.Fatalf("fixed case %d: %v", i, err)
			}
		}
	}
	if p.Gen == nil {
		return
	}
	total := p.Quick
	if e.tier == "thorough" {
		total = p.Thorough
		if total == 0 {
			total = p.Quick * 15
		}
	}
	if os.Getenv("VERIF_RACED") != "" {
		// slower, for the race detector
		total = (total + 2) / 3
	}
	n := total / e.shards
	if e.shard < total%e.shards {
		n++
	}
	if n == 0 {
		return
	}
	shrink := p.Shrink
	if shrink == 0 {
		shrink = 15 * time.Second
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(e.partSeed(p.Name), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrink.String())
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Now().After(e.stop) {
			e.st.TimeUp = true
			return
		}
		c := p.Gen(rt)
		if err := p.one(t, e, c, failed); err != nil {
			failed = true
			rt.Fatalf("%s", firstLine(err.Error()))
		}
	})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (p Part[C]) replay(t *testing.T, e *env, raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("replay does not decode: %w", err)
	}
	e.current(p.Name, raw)
	rec, err := p.decide(t, e, c, raw)
	_ = rec
	if err != nil {
		e.writeFailure(p.Name, raw, err)
	}
	return err
}

// Check runs all parts of a property, or replays one case.
func Check(t *testing.T, property string, parts ...AnyPart) {
	log.SetLevel(log.PanicLevel)
	log.SetOutput(discard{})
	e := loadEnv(property)
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var fl failure
		if err := json.Unmarshal(b, &fl); err != nil {
			t.Fatal(err)
		}
		for _, p := range parts {
			if p.name() == fl.Part {
				if err := p.replay(t, e, fl.Case); err != nil {
					t.Fatalf("REPLAY-FAILS %v", err)
				}
				return
			}
		}
		t.Fatalf("no part %q", fl.Part)
	}
	only := os.Getenv("VERIF_PART")
	defer e.flush()
	for _, p := range parts {
		if only != "" && p.name() != only {
			continue
		}
		start := time.Now()
		ok := t.Run(p.name(), func(t *testing.T) { p.run(t, e) })
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "shard %d part %s: %v\n", e.shard, p.name(), time.Since(start))
		}
		if !ok {
			return
		}
	}
	if os.Getenv("VERIF_VERBOSE") != "" && e.shard == 0 {
		var ks []string
		for k := range e.st.Labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(os.Stderr, "  %-40s %d\n", k, e.st.Labels[k])
		}
	}
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// writeAtomic never leaves a half written file behind.
func writeAtomic(path string, b []byte) {
	if os.WriteFile(path+".tmp", b, 0o644) == nil {
		os.Rename(path+".tmp", path)
	}
}
