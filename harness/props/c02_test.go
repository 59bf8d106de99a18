package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

// ---- an independent classifier of JSON objects ----

type verdict int

const (
	vReject verdict = iota
	vAccept
	vOpen // the prescription leaves it open
)

func isInt64Lit(n json.Number) (int64, bool) {
	i, err := strconv.ParseInt(string(n), 10, 64)
	return i, err == nil
}

// classify says what a JSON object (exact member names, no duplicates) is.
func classify(o map[string]any) (verdict, MsgSpec) {
	var m MsgSpec
	open := false
	idOf := func() bool {
		switch x := o["id"].(type) {
		case nil:
			return true
		case string:
			m.ID = pbt.StrID(x)
			return true
		case json.Number:
			if i, ok := isInt64Lit(x); ok {
				m.ID = pbt.IntID(i)
				return true
			}
			// an integer that does not fit an int is left open
			open = !strings.ContainsAny(string(x), ".eE")
			return false
		}
		return false
	}
	str := func(k string) (string, bool) {
		switch x := o[k].(type) {
		case nil:
			return "", true
		case string:
			return x, true
		}
		return "", false
	}
	trace, ok := str("traceid")
	if !ok {
		return vReject, m
	}
	m.Trace = trace
	method, ok := str("method")
	if !ok {
		return vReject, m
	}
	rej := func() (verdict, MsgSpec) {
		if open {
			return vOpen, m
		}
		return vReject, m
	}
	switch {
	case o["error"] != nil:
		if o["result"] != nil {
			return vReject, m
		}
		e, ok := o["error"].(map[string]any)
		if !ok {
			return vReject, m
		}
		m.Kind = "error"
		switch c := e["code"].(type) {
		case json.Number:
			i, ok := isInt64Lit(c)
			if !ok {
				if f, err := c.Float64(); (err == nil && f == math.Trunc(f)) || err != nil {
					return vOpen, m
				}
				return vReject, m
			}
			m.Code = int(i)
		case nil:
			open = true
		default:
			return vReject, m
		}
		switch s := e["message"].(type) {
		case string:
			m.Msg = s
		case nil:
			open = true
		default:
			return vReject, m
		}
		if e["data"] != nil {
			m.Data = pbt.Raw(e["data"])
		}
		if open {
			return vOpen, m
		}
		if !idOf() {
			return rej()
		}
	case o["result"] != nil:
		m.Kind = "result"
		m.Result = pbt.Raw(o["result"])
		if !idOf() {
			return rej()
		}
	case method != "":
		m.Kind = "notify"
		m.Method = method
		p, has := o["params"]
		if !has || p == nil {
			return vReject, m
		}
		m.Params = pbt.Raw(p)
		_, m.List = p.([]any)
		if !idOf() {
			return rej()
		}
		if m.ID.Value() != nil {
			m.Kind = "request"
		}
	case o["id"] != nil:
		m.Kind = "result"
		m.Result = json.RawMessage("null")
		if !idOf() {
			return rej()
		}
	default:
		return vReject, m
	}
	return vAccept, m
}

// ---- cases ----

type c02Object struct {
	O     json.RawMessage `json:"o"`
	Order []int           `json:"order"`
}

func genMemberValue(t *rapid.T, key string) any {
	if pbt.Chance(t, 12, "anyvalue") {
		return pbt.JSON(t, 2, "v")
	}
	switch key {
	case "id":
		switch pbt.Weighted(t, "idk", 50, 25, 25) {
		case 0:
			return pbt.GenID(t, "id").JSON()
		case 1:
			return pbt.NumLit(t, "idn")
		default:
			return pbt.Pick[any](t, "idx", nil, true, false, []any{}, map[string]any{}, []any{json.Number("1")}, json.Number("1.5"), json.Number("-0"), json.Number("0"), "")
		}
	case "method", "traceid":
		return pbt.Pick[any](t, key, pbt.Str(t, "s"), pbt.Str(t, "s"), pbt.Str(t, "s"), nil, "", json.Number("5"), true, []any{}, map[string]any{})
	case "params":
		switch pbt.Weighted(t, "pk", 50, 30, 20) {
		case 0:
			return pbt.List(t, 2, "p")
		case 1:
			return genBare(t)
		default:
			return nil
		}
	case "result":
		return pbt.JSON(t, 2, "r")
	case "error":
		switch pbt.Weighted(t, "ek", 60, 30, 10) {
		case 0:
			e := map[string]any{"code": json.Number(strconv.FormatInt(pbt.Int64(t, "code"), 10)), "message": pbt.Str(t, "msg")}
			if pbt.Chance(t, 50, "data") {
				e["data"] = pbt.JSON(t, 2, "d")
			}
			return e
		case 1:
			e := map[string]any{}
			if pbt.Chance(t, 80, "code?") {
				e["code"] = pbt.Pick[any](t, "c", json.Number("1"), json.Number("1.5"), "1", nil, true, []any{}, pbt.NumLit(t, "cn"))
			}
			if pbt.Chance(t, 80, "msg?") {
				e["message"] = pbt.Pick[any](t, "m", "m", json.Number("1"), nil, false, map[string]any{}, []any{"m"})
			}
			if pbt.Chance(t, 50, "data") {
				e["data"] = pbt.JSON(t, 2, "d")
			}
			return e
		default:
			return pbt.Pick[any](t, "e", nil, "error", json.Number("5"), true, false, []any{}, []any{json.Number("1"), "m"}, map[string]any{})
		}
	}
	return pbt.JSON(t, 1, "x")
}

func genC02Object(t *rapid.T) c02Object {
	o := map[string]any{}
	if pbt.Chance(t, 60, "clean") {
		// a proper message with a few members changed, dropped or added
		m := genMsgSpec(t)
		o = m.object()
		n := rapid.IntRange(0, 2).Draw(t, "perturb")
		for i := 0; i < n; i++ {
			k := pbt.Pick(t, "which", "id", "method", "params", "result", "error", "traceid")
			if pbt.Chance(t, 30, "drop") {
				delete(o, k)
			} else {
				o[k] = genMemberValue(t, k)
			}
		}
		return c02Object{O: pbt.Raw(o), Order: rapid.SliceOfN(rapid.IntRange(0, 7), 0, 5).Draw(t, "order")}
	}
	for _, k := range []string{"id", "method", "params", "result", "error", "traceid"} {
		p := map[string]int{"id": 70, "method": 65, "params": 60, "result": 35, "error": 35, "traceid": 30}[k]
		if pbt.Chance(t, p, k+"?") {
			o[k] = genMemberValue(t, k)
		}
	}
	if pbt.Chance(t, 60, "jsonrpc?") {
		o["jsonrpc"] = pbt.Pick[any](t, "jsonrpc", "2.0", "2.0", "1.0", nil, json.Number("2"))
	}
	if pbt.Chance(t, 25, "extra?") {
		o["x"+pbt.Ident(t, "extra")] = pbt.JSON(t, 2, "xv")
	}
	return c02Object{O: pbt.Raw(o), Order: rapid.SliceOfN(rapid.IntRange(0, 7), 0, 5).Draw(t, "order")}
}

// reparse: whatever is accepted can be encoded and parsed again to the same message
func reparse(msg jlib.Message) error {
	b, err := jlib.MessageBytes(msg)
	if err != nil {
		return fmt.Errorf("accepted message does not encode: %v", err)
	}
	back, err := jlib.ParseBytes(b)
	if err != nil {
		return fmt.Errorf("accepted message's encoding %.200q is rejected: %v", b, err)
	}
	return sameMessage(msg, back)
}

// sameMessage compares two messages through accessors and encodings.
func sameMessage(a, b jlib.Message) error {
	if a.IsRequest() != b.IsRequest() || a.IsNotify() != b.IsNotify() || a.IsResult() != b.IsResult() || a.IsError() != b.IsError() {
		return fmt.Errorf("kinds differ: %T %T", a, b)
	}
	if !a.IsNotify() && a.MustId() != b.MustId() {
		return fmt.Errorf("ids differ: %v (%T) %v (%T)", a.MustId(), a.MustId(), b.MustId(), b.MustId())
	}
	if a.TraceId() != b.TraceId() {
		return fmt.Errorf("trace ids differ: %q %q", a.TraceId(), b.TraceId())
	}
	if a.IsRequestOrNotify() {
		if a.MustMethod() != b.MustMethod() {
			return fmt.Errorf("methods differ: %q %q", a.MustMethod(), b.MustMethod())
		}
		if err := pbt.DiffGo(a.MustParams(), b.MustParams()); err != nil {
			return fmt.Errorf("params: %w", err)
		}
	}
	ab, err := jlib.MessageBytes(a)
	if err != nil {
		return err
	}
	bb, err := jlib.MessageBytes(b)
	if err != nil {
		return err
	}
	av, err := pbt.Dec(ab)
	if err != nil {
		return err
	}
	bv, err := pbt.Dec(bb)
	if err != nil {
		return err
	}
	return pbt.Diff(av, bv)
}

func c02RunObject(r *pbt.Rec, c c02Object) error {
	o := pbt.MustDec(c.O).(map[string]any)
	text := orderedObject(o, c.Order, "")
	v, m := classify(o)
	msg, err := jlib.ParseBytes(text)
	if (msg == nil) == (err == nil) {
		return fmt.Errorf("parse returned message %v and error %v", msg, err)
	}
	switch v {
	case vAccept:
		r.Label("accept %s", m.Kind)
		r.NonTrivial()
		if err != nil {
			return fmt.Errorf("a valid %s is rejected: %v: %.300s", m.Kind, err, text)
		}
		if err := m.checkFull(msg); err != nil {
			return fmt.Errorf("%w: %.300s", err, text)
		}
	case vReject:
		r.Label("reject")
		if len(o) >= 2 {
			r.NonTrivial()
		}
		if err == nil {
			return fmt.Errorf("an invalid message is accepted as %T: %.300s", msg, text)
		}
	default:
		r.Label("open")
	}
	if msg != nil {
		return reparse(msg)
	}
	return nil
}

// arbitrary bytes: valid messages with byte-level damage, JSON that is no
// object, random bytes
type c02Bytes struct {
	B []byte `json:"b"`
}

func genC02Bytes(t *rapid.T) c02Bytes {
	switch pbt.Weighted(t, "bk", 55, 15, 15, 10, 5) {
	case 0:
		c := genC02Object(t)
		b := append([]byte{}, orderedObject(pbt.MustDec(c.O).(map[string]any), c.Order, "")...)
		n := rapid.IntRange(1, 4).Draw(t, "muts")
		for i := 0; i < n && len(b) > 0; i++ {
			at := pbt.Uniform(t, len(b), "at")
			switch pbt.Weighted(t, "mut", 30, 25, 25, 20) {
			case 0:
				b[at] = pbt.Pick(t, "ch", '{', '}', '[', ']', '"', ':', ',', '\\', ' ', '0', '1', '-', '.', 'e', 'n', 't', byte(0), byte(0xff), byte(0xc3))
			case 1:
				b = append(b[:at:at], b[at+1:]...)
			case 2:
				b = b[:at]
			default:
				end := rapid.IntRange(at, len(b)).Draw(t, "end")
				ins := append([]byte{}, b[at:end]...)
				b = append(b[:at:at], append(ins, b[at:]...)...)
			}
		}
		return c02Bytes{b}
	case 1:
		return c02Bytes{pbt.Raw(pbt.JSON(t, 3, "v"))}
	case 2:
		return c02Bytes{rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b")}
	case 3:
		// duplicate and differently spelled members
		parts := rapid.SliceOfN(rapid.SampledFrom([]string{`"id":1`, `"ID":"x"`, `"Id":null`, `"id":[1]`, `"method":"m"`, `"METHOD":5`, `"method":""`, `"params":[]`, `"params":{}`, `"Params":null`, `"params":5`,
			`"result":0`, `"result":null`, `"RESULT":[]`, `"error":{}`, `"error":null`, `"error":[]`, `"Error":{"code":1,"message":"x"}`, `"error":{"code":1,"CODE":"x","message":"y"}`, `"traceid":"t"`, `"traceId":7`, `"id":9223372036854775808`, `"id":-1e1000`, `"\u0069d":3`}), 0, 7).Draw(t, "parts")
		return c02Bytes{[]byte("{" + strings.Join(parts, ",") + "}")}
	default:
		n := pbt.Pick(t, "depth", 100, 5000, 9990, 10001, 20000)
		op := pbt.Pick(t, "op", "[", `{"a":`, `{"params":`, `{"error":`, `{"result":[`, `{"id":`)
		s := strings.Repeat(op, n)
		if rapid.Bool().Draw(t, "close") && op == "[" {
			s += strings.Repeat("]", n)
		}
		pre := pbt.Pick(t, "pre", "", `{"id":1,"method":"m","params":`, `{"id":1,"result":`, `{"id":1,"error":`)
		if pre != "" && op == "[" {
			s = pre + s + "}"
		}
		return c02Bytes{[]byte(s)}
	}
}

func c02RunBytes(r *pbt.Rec, c c02Bytes) error {
	msg, err := jlib.ParseBytes(c.B)
	if (msg == nil) == (err == nil) {
		return fmt.Errorf("parse returned message %v and error %v", msg, err)
	}
	if json.Valid(c.B) {
		r.Label("valid JSON")
		r.NonTrivial()
	}
	if err != nil {
		r.Label("rejected")
		var se *json.SyntaxError
		if !errors.As(err, &se) && len(c.B) > 3 {
			r.NonTrivial()
		}
	} else {
		r.Label("accepted")
		r.NonTrivial()
		if !bytes.HasPrefix(bytes.TrimLeft(c.B, " \t\r\n"), []byte("{")) {
			return fmt.Errorf("accepted although it is not an object: %.200q", c.B)
		}
		if err := reparse(msg); err != nil {
			return err
		}
	}
	// the streaming entry point agrees
	msg2, err2 := jlib.DecodeMessage(json.NewDecoder(bytes.NewReader(c.B)))
	if (err == nil) != (err2 == nil) {
		return fmt.Errorf("ParseBytes err=%v but DecodeMessage err=%v", err, err2)
	}
	if err == nil {
		return sameMessage(msg, msg2)
	}
	return nil
}

func TestC02(t *testing.T) {
	pbt.Check(t, "C02",
		pbt.Part[c02Object]{Name: "objects", Quick: 80000, Gen: genC02Object, Run: c02RunObject},
		pbt.Part[c02Bytes]{Name: "bytes", Quick: 50000, Gen: genC02Bytes, Run: c02RunBytes},
	)
}
