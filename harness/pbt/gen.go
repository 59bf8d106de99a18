package pbt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

var bit = rapid.Bool()

// Uniform draws 0..n-1 with equal chances (rapid's own ranges prefer small values).
func Uniform(t *rapid.T, n int, label string) int {
	k := bits.Len(uint(n-1)) + 2
	if n&(n-1) == 0 {
		k -= 2
	}
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if bit.Draw(t, label) {
			v |= 1
		}
	}
	return v * n >> k
}

// Chance is true in about pct of 100 cases.
func Chance(t *rapid.T, pct int, label string) bool {
	return Uniform(t, 100, label) >= 100-pct
}

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, vs ...T) T {
	return vs[Uniform(t, len(vs), label)]
}

// Weighted draws an index by weight; index 0 is what shrinking prefers.
func Weighted(t *rapid.T, label string, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	n := Uniform(t, sum, label)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return len(ws) - 1
}

// Size is heavy-tailed: mostly small, sometimes next to a literal of the code.
func Size(t *rapid.T, small, max int, label string) int {
	switch Weighted(t, label+"?", 85, 10, 5) {
	case 0:
		return rapid.IntRange(0, small).Draw(t, label)
	case 1:
		ds := DictSizes(max)
		return ds[Uniform(t, len(ds), label)]
	default:
		return rapid.IntRange(0, max).Draw(t, label)
	}
}

var strPieces = []string{
	"", " ", "a", "Z", "0", "_", "-", ".", "/", "\\", "\"", "'", "<", ">", "&", "<script>", "\n", "\r", "\t", "\x00", "\x01", "\x1f", "\x7f",
	"é", "ß", "日本", "😀", "\u2028", "\u2029", "\ufeff", "\ufffd", "\U0010ffff", "e\u0301", "\u202e", "null", "true", "1", "-1.5e3", "{}", "[]", "{\"a\":1}", "@x", "%s", "%d", "$", "\u00a0", "İ", "K", "ſ",
}

// Str is a valid UTF-8 string with awkward content.
func Str(t *rapid.T, label string) string {
	switch Weighted(t, label+"#", 38, 28, 14, 9, 5, 6) {
	case 0:
		return rapid.StringMatching("[a-z]{0,6}").Draw(t, label)
	case 5:
		// spelled like something else
		return Pick(t, label+"like", func() string { return rapid.StringMatching("-?[0-9]{1,25}").Draw(t, label) },
			func() string { return string(NumLit(t, label)) },
			func() string { return rapid.StringMatching("[0-9a-f]{8,32}").Draw(t, label) },
			func() string {
				return Pick(t, label, "TRUE", "False", "nil", "NaN", "Infinity", "-Inf", "undefined", "0x1F", "1_000", "+5", "007", "1e5", ".5", "5.", "2026-01-02T03:04:05Z", "10s", "aGVsbG8=", "a,b", "a=b", "key: value", "\"q\"", "a b", "Bearer x", "//", "../x", "rpc.x", "http://h/?a=b#c")
			})()
	case 1:
		n := rapid.IntRange(1, 4).Draw(t, label+"n")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(Pick(t, label, strPieces...))
		}
		return sb.String()
	case 2:
		ds := DictStrs()
		return ds[Uniform(t, len(ds), label)]
	case 3:
		s := rapid.String().Draw(t, label)
		if !utf8.ValidString(s) {
			return strings.ToValidUTF8(s, "?")
		}
		return s
	default:
		n := Size(t, 30, 2000, label+"len")
		return strings.Repeat(Pick(t, label, "x", "é", "<", "\"", "\U0001f600"), n)
	}
}

// Ident is a simple identifier.
func Ident(t *rapid.T, label string) string {
	return rapid.StringMatching("[a-z][a-z0-9_]{0,7}").Draw(t, label)
}

// Int64 prefers boundaries.
func Int64(t *rapid.T, label string) int64 {
	switch Weighted(t, label+"#", 40, 30, 20, 10) {
	case 0:
		return rapid.Int64Range(-20, 20).Draw(t, label)
	case 1:
		b := Pick(t, label, int64(math.MaxInt64), math.MinInt64, 1<<31, -(1 << 31), 1<<32, 1<<53, -(1 << 53), 1<<24, 1000000, 255, 65535, 1<<63-2, 1<<62)
		d := rapid.Int64Range(-2, 2).Draw(t, label+"d")
		if (b > 0 && d > 0 && b > math.MaxInt64-d) || (b < 0 && d < 0 && b < math.MinInt64-d) {
			return b
		}
		return b + d
	case 2:
		ds := DictInts()
		return int64(ds[Uniform(t, len(ds), label)]) + rapid.Int64Range(-1, 1).Draw(t, label+"d")
	default:
		return rapid.Int64().Draw(t, label)
	}
}

// NumLit is a JSON number literal of any kind.
func NumLit(t *rapid.T, label string) json.Number {
	switch Weighted(t, label+"!", 50, 15, 15, 20) {
	case 0:
		return json.Number(strconv.FormatInt(Int64(t, label), 10))
	case 1:
		return json.Number(Pick(t, label, "0", "-0", "0.0", "-0.0", "1.0", "1.10", "100.00", "1e2", "1E+2", "1E5", "1e-7", "12345678901234567890", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "9007199254740993", "0.1", "0.30000000000000004", "1e400", "-1e-400", "3.141592653589793238462643383279", "1.7976931348623157e308", "5e-324", "100000000000000000000000000000001"))
	case 2:
		f := rapid.Float64Range(-1e6, 1e6).Draw(t, label)
		b, _ := json.Marshal(f)
		return json.Number(b)
	default:
		var sb strings.Builder
		if rapid.Bool().Draw(t, label+"neg") {
			sb.WriteByte('-')
		}
		n := rapid.IntRange(1, 30).Draw(t, label+"digits")
		for i := 0; i < n; i++ {
			d := rapid.IntRange(0, 9).Draw(t, label)
			if i == 0 && n > 1 && d == 0 {
				d = 1
			}
			sb.WriteByte(byte('0' + d))
		}
		if Chance(t, 50, label+"frac") {
			sb.WriteByte('.')
			m := rapid.IntRange(1, 25).Draw(t, label+"fd")
			for i := 0; i < m; i++ {
				sb.WriteByte(byte('0' + rapid.IntRange(0, 9).Draw(t, label)))
			}
		}
		if Chance(t, 20, label+"exp") {
			fmt.Fprintf(&sb, "e%d", rapid.IntRange(-330, 330).Draw(t, label+"e"))
		}
		return json.Number(sb.String())
	}
}

// JSON draws a JSON value as nil, bool, json.Number, string, []any, map[string]any.
func JSON(t *rapid.T, depth int, label string) any {
	w := []int{12, 10, 25, 25, 14, 14}
	if depth <= 0 {
		w[4], w[5] = 1, 1
	}
	switch Weighted(t, label, w...) {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "b")
	case 2:
		return NumLit(t, "n")
	case 3:
		return Str(t, "s")
	case 4:
		if depth <= 0 {
			return []any{}
		}
		return List(t, depth, label)
	default:
		if depth <= 0 {
			return map[string]any{}
		}
		n := rapid.IntRange(0, 4).Draw(t, "keys")
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[Str(t, "key")] = JSON(t, depth-1, label)
		}
		return m
	}
}

// List draws a JSON list, sometimes long, sometimes nested very deeply.
func List(t *rapid.T, depth int, label string) []any {
	switch Weighted(t, "listkind", 88, 6, 6) {
	case 0:
		n := rapid.IntRange(0, 4).Draw(t, "len")
		a := make([]any, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, JSON(t, depth-1, label))
		}
		return a
	case 1:
		n := Size(t, 20, 300, "longlen")
		a := make([]any, 0, n)
		base := JSON(t, 0, label)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				a = append(a, base)
			} else {
				a = append(a, json.Number(strconv.Itoa(i)))
			}
		}
		return a
	default:
		n := rapid.IntRange(5, 40).Draw(t, "nest")
		var v any = JSON(t, 0, label)
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				v = map[string]any{"k": v, "i": json.Number(strconv.Itoa(i))}
			} else {
				v = []any{v}
			}
		}
		return []any{v}
	}
}

// Raw encodes a value without HTML escaping.
func Raw(v any) json.RawMessage {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		panic(err)
	}
	return json.RawMessage(bytes.TrimRight(buf.Bytes(), "\n"))
}

// Dec decodes exactly one JSON value keeping number literals.
func Dec(raw []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	var rest any
	if err := d.Decode(&rest); err == nil || err.Error() != "EOF" {
		return nil, fmt.Errorf("trailing data after JSON value")
	}
	return v, nil
}

// MustDec decodes or panics.
func MustDec(raw []byte) any {
	if len(raw) == 0 {
		return nil
	}
	v, err := Dec(raw)
	if err != nil {
		panic(fmt.Sprintf("%v: %.200q", err, raw))
	}
	return v
}

// Fresh is a deep copy of a JSON value.
func Fresh(v any) any {
	switch x := v.(type) {
	case []any:
		a := make([]any, len(x))
		for i := range x {
			a[i] = Fresh(x[i])
		}
		return a
	case map[string]any:
		m := make(map[string]any, len(x))
		for k := range x {
			m[k] = Fresh(x[k])
		}
		return m
	}
	return v
}

// ToJSON marshals any Go value and decodes it again, so that two values can be
// compared as the JSON they denote.
func ToJSON(v any) (any, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	return Dec(b)
}

// Diff compares two decoded JSON values; numbers must have the same literal.
func Diff(want, got any) error { return diff("$", want, got, false) }

// DiffNum compares two decoded JSON values; numbers must be numerically equal.
func DiffNum(want, got any) error { return diff("$", want, got, true) }

// DiffGo compares the JSON denoted by two Go values, numbers exactly.
func DiffGo(want, got any) error {
	w, err := ToJSON(want)
	if err != nil {
		return fmt.Errorf("want does not encode: %v", err)
	}
	g, err := ToJSON(got)
	if err != nil {
		return fmt.Errorf("got does not encode: %v", err)
	}
	return diff("$", w, g, false)
}

func short(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	if len(b) > 200 {
		return string(b[:200]) + "..."
	}
	return string(b)
}

// Short prints a value for a message.
func Short(v any) string { return short(v) }

func diff(path string, want, got any, num bool) error {
	bad := func() error {
		return fmt.Errorf("at %s: want %s (%T), got %s (%T)", path, short(want), want, short(got), got)
	}
	switch w := want.(type) {
	case nil:
		if got != nil {
			return bad()
		}
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return bad()
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return bad()
		}
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		if g != w {
			if !num || !NumEq(w, g) {
				return bad()
			}
		}
	case []any:
		g, ok := got.([]any)
		if !ok {
			return bad()
		}
		if len(g) != len(w) {
			return fmt.Errorf("at %s: want %d items, got %d (want %s got %s)", path, len(w), len(g), short(want), short(got))
		}
		for i := range w {
			if err := diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i], num); err != nil {
				return err
			}
		}
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return bad()
		}
		if len(g) != len(w) {
			return fmt.Errorf("at %s: want members %q, got %q", path, Keys(w), Keys(g))
		}
		for k := range w {
			gv, ok := g[k]
			if !ok {
				return fmt.Errorf("at %s: missing member %q", path, k)
			}
			if err := diff(path+"."+k, w[k], gv, num); err != nil {
				return err
			}
		}
	default:
		return fmt.Errorf("at %s: unexpected type %T in expected value", path, want)
	}
	return nil
}

// NumEq compares two literals as rationals.
func NumEq(a, b json.Number) bool {
	x, ok1 := new(big.Rat).SetString(string(a))
	y, ok2 := new(big.Rat).SetString(string(b))
	return ok1 && ok2 && x.Cmp(y) == 0
}

// Keys are the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ID is a message id as it appears in a case.
type ID struct {
	I *int64  `json:"i,omitempty"`
	S *string `json:"s,omitempty"`
}

// Value is the Go value a parsed message carries for this id.
func (d ID) Value() any {
	if d.I != nil {
		return int(*d.I)
	}
	if d.S != nil {
		return *d.S
	}
	return nil
}

// JSON is the id as decoded JSON.
func (d ID) JSON() any {
	if d.I != nil {
		return json.Number(strconv.FormatInt(*d.I, 10))
	}
	if d.S != nil {
		return *d.S
	}
	return nil
}

// IntID and StrID build ids.
func IntID(i int64) ID  { return ID{I: &i} }
func StrID(s string) ID { return ID{S: &s} }

// GenID draws an integer or string id.
func GenID(t *rapid.T, label string) ID {
	if rapid.Bool().Draw(t, label+"kind") {
		s := Str(t, label)
		return ID{S: &s}
	}
	i := Int64(t, label)
	return ID{I: &i}
}
