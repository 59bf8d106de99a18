package props

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

// MsgSpec describes a message independently of the library's types.
type MsgSpec struct {
	Kind   string          `json:"kind"` // request notify result error
	ID     pbt.ID          `json:"id"`
	Method string          `json:"method,omitempty"`
	Params json.RawMessage `json:"params,omitempty"` // JSON list when List, else one bare value; absent = nil params
	List   bool            `json:"list,omitempty"`
	Result json.RawMessage `json:"result,omitempty"`
	Code   int             `json:"code,omitempty"`
	Msg    string          `json:"msg,omitempty"`
	Data   json.RawMessage `json:"data,omitempty"`
	Trace  string          `json:"trace,omitempty"`
	// Native turns number leaves into Go numbers where that is exact.
	Native bool `json:"native,omitempty"`

	anyID bool // the id is not compared
}

func genMsgSpec(t *rapid.T, kinds ...string) MsgSpec {
	if len(kinds) == 0 {
		kinds = []string{"request", "notify", "result", "error"}
	}
	m := MsgSpec{Kind: pbt.Pick(t, "kind", kinds...)}
	m.Native = pbt.Chance(t, 25, "native")
	if m.Kind != "notify" {
		m.ID = pbt.GenID(t, "id")
	}
	if pbt.Chance(t, 50, "trace?") {
		m.Trace = pbt.Str(t, "trace")
	}
	switch m.Kind {
	case "request", "notify":
		m.Method = genMethod(t)
		switch pbt.Weighted(t, "paramkind", 60, 25, 15) {
		case 0:
			m.List = true
			m.Params = pbt.Raw(pbt.List(t, 3, "p"))
		case 1:
			// one bare value: an object or a scalar, neither null nor a list
			m.Params = pbt.Raw(genBare(t))
		default:
			m.List = true
		}
	case "result":
		m.Result = pbt.Raw(pbt.JSON(t, 3, "r"))
	case "error":
		m.Code = int(pbt.Int64(t, "code"))
		m.Msg = pbt.Str(t, "msg")
		if pbt.Chance(t, 60, "data?") {
			v := pbt.JSON(t, 3, "d")
			if v != nil {
				m.Data = pbt.Raw(v)
			}
		}
	}
	return m
}

func genMethod(t *rapid.T) string {
	if pbt.Chance(t, 60, "plainmethod") {
		return rapid.StringMatching(`[a-z][a-z0-9._:+-]{0,10}`).Draw(t, "method")
	}
	s := pbt.Str(t, "method")
	if s == "" {
		s = "m"
	}
	return s
}

func genBare(t *rapid.T) any {
	switch pbt.Weighted(t, "bare", 60, 20, 10, 10) {
	case 0:
		n := rapid.IntRange(0, 4).Draw(t, "keys")
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[pbt.Str(t, "key")] = pbt.JSON(t, 2, "v")
		}
		return m
	case 1:
		return pbt.Str(t, "s")
	case 2:
		return pbt.NumLit(t, "n")
	default:
		return rapid.Bool().Draw(t, "b")
	}
}

// native replaces number leaves by Go numbers that encode to the same number.
func native(v any, on bool) any {
	if !on {
		return v
	}
	n := 0
	var walk func(v any) any
	walk = func(v any) any {
		switch x := v.(type) {
		case json.Number:
			n++
			if i, err := strconv.ParseInt(string(x), 10, 64); err == nil && strconv.FormatInt(i, 10) == string(x) {
				switch n % 3 {
				case 0:
					return i
				case 1:
					return int(i)
				}
				if i >= 0 && i <= math.MaxUint32 {
					return uint32(i)
				}
				return i
			}
			if u, err := strconv.ParseUint(string(x), 10, 64); err == nil && strconv.FormatUint(u, 10) == string(x) {
				return u
			}
			if f, err := strconv.ParseFloat(string(x), 64); err == nil {
				if b, err := json.Marshal(f); err == nil && string(b) == string(x) {
					return f
				}
			}
			return x
		case []any:
			a := make([]any, len(x))
			for i := range x {
				a[i] = walk(x[i])
			}
			return a
		case map[string]any:
			m := make(map[string]any, len(x))
			for _, k := range pbt.Keys(x) {
				m[k] = walk(x[k])
			}
			return m
		}
		return v
	}
	return walk(v)
}

func (m MsgSpec) params() any { return pbt.MustDec(m.Params) }

// build constructs the message through the public constructors.
func (m MsgSpec) build() jlib.Message {
	var msg jlib.Message
	switch m.Kind {
	case "request":
		msg = jlib.NewRequestMessage(m.ID.Value(), m.Method, m.goParams())
	case "notify":
		msg = jlib.NewNotifyMessage(m.Method, m.goParams())
	case "result":
		req := jlib.NewRequestMessage(m.ID.Value(), "m", nil)
		msg = jlib.NewResultMessage(req, native(pbt.MustDec(m.Result), m.Native))
	case "error":
		msg = jlib.RPCErrorMessageFromId(m.ID.Value(), "", m.Code, m.Msg, native(pbt.MustDec(m.Data), m.Native))
	default:
		panic("kind " + m.Kind)
	}
	msg.SetTraceId(m.Trace)
	return msg
}

func (m MsgSpec) goParams() any {
	if len(m.Params) == 0 {
		return nil
	}
	v := native(m.params(), m.Native)
	return v
}

// object is the JSON object this message must be encoded as.
func (m MsgSpec) object() map[string]any {
	o := map[string]any{"jsonrpc": "2.0"}
	if m.Trace != "" {
		o["traceid"] = m.Trace
	}
	switch m.Kind {
	case "request", "notify":
		o["method"] = m.Method
		if len(m.Params) == 0 {
			o["params"] = []any{}
		} else {
			o["params"] = m.params()
		}
		if m.Kind == "request" {
			o["id"] = m.ID.JSON()
		}
	case "result":
		o["id"] = m.ID.JSON()
		o["result"] = pbt.MustDec(m.Result)
	case "error":
		o["id"] = m.ID.JSON()
		e := map[string]any{"code": json.Number(strconv.Itoa(m.Code)), "message": m.Msg}
		if len(m.Data) > 0 {
			e["data"] = pbt.MustDec(m.Data)
		}
		o["error"] = e
	}
	return o
}

// paramList is what MustParams must show.
func (m MsgSpec) paramList() []any {
	if len(m.Params) == 0 {
		return []any{}
	}
	if l, ok := m.params().([]any); ok && m.List {
		return l
	}
	return []any{m.params()}
}

// checkMsg compares a message with its description through every accessor.
func (m MsgSpec) checkMsg(msg jlib.Message) error {
	if msg == nil {
		return fmt.Errorf("no message")
	}
	kinds := map[string]bool{"request": msg.IsRequest(), "notify": msg.IsNotify(), "result": msg.IsResult(), "error": msg.IsError()}
	for k, v := range kinds {
		if v != (k == m.Kind) {
			return fmt.Errorf("kind: want %s, Is%s=%v", m.Kind, k, v)
		}
	}
	if msg.IsRequestOrNotify() != (m.Kind == "request" || m.Kind == "notify") || msg.IsResultOrError() != (m.Kind == "result" || m.Kind == "error") {
		return fmt.Errorf("kind queries disagree for %s", m.Kind)
	}
	switch m.Kind {
	case "request":
		if _, ok := msg.(*jlib.RequestMessage); !ok {
			return fmt.Errorf("a request is a %T", msg)
		}
	case "notify":
		if _, ok := msg.(*jlib.NotifyMessage); !ok {
			return fmt.Errorf("a notification is a %T", msg)
		}
	case "result":
		if _, ok := msg.(*jlib.ResultMessage); !ok {
			return fmt.Errorf("a result is a %T", msg)
		}
	case "error":
		if _, ok := msg.(*jlib.ErrorMessage); !ok {
			return fmt.Errorf("an error is a %T", msg)
		}
	}
	if msg.TraceId() != m.Trace {
		return fmt.Errorf("trace id: want %q got %q", m.Trace, msg.TraceId())
	}
	if m.Kind != "notify" && !m.anyID {
		if err := sameID(m.ID.Value(), msg.MustId()); err != nil {
			return err
		}
	}
	switch m.Kind {
	case "request", "notify":
		if msg.MustMethod() != m.Method {
			return fmt.Errorf("method: want %q got %q", m.Method, msg.MustMethod())
		}
		got, err := pbt.ToJSON(msg.MustParams())
		if err != nil {
			return err
		}
		if err := pbt.Diff(any(m.paramList()), got); err != nil {
			return fmt.Errorf("params: %w", err)
		}
	case "result":
		got, err := pbt.ToJSON(msg.MustResult())
		if err != nil {
			return err
		}
		if err := pbt.Diff(pbt.MustDec(m.Result), got); err != nil {
			return fmt.Errorf("result: %w", err)
		}
	case "error":
		e := msg.MustError()
		if e == nil {
			return fmt.Errorf("nil error body")
		}
		if e.Code != m.Code || e.Message != m.Msg {
			return fmt.Errorf("error: want %d %q got %d %q", m.Code, m.Msg, e.Code, e.Message)
		}
		got, err := pbt.ToJSON(e.Data)
		if err != nil {
			return err
		}
		if err := pbt.Diff(pbt.MustDec(m.Data), got); err != nil {
			return fmt.Errorf("error data: %w", err)
		}
	}
	return nil
}

func sameID(want, got any) error {
	if want != got {
		return fmt.Errorf("id: want %v (%T) got %v (%T)", want, want, got, got)
	}
	return nil
}

// checkBytes compares the encoded form with the JSON object it must be.
func (m MsgSpec) checkBytes(b []byte) error {
	got, err := pbt.Dec(b)
	if err != nil {
		return fmt.Errorf("encoding is not one JSON value: %v: %.200q", err, b)
	}
	if err := pbt.Diff(m.object(), got); err != nil {
		return fmt.Errorf("encoding: %w", err)
	}
	return nil
}

// checkFull checks accessors and encoding.
func (m MsgSpec) checkFull(msg jlib.Message) error {
	if err := m.checkMsg(msg); err != nil {
		return err
	}
	b, err := jlib.MessageBytes(msg)
	if err != nil {
		return fmt.Errorf("MessageBytes: %v", err)
	}
	return m.checkBytes(b)
}

func hasBigNumber(v any) bool {
	switch x := v.(type) {
	case json.Number:
		f, err := x.Float64()
		if err != nil {
			return true
		}
		b, _ := json.Marshal(f)
		return string(b) != string(x)
	case []any:
		for _, e := range x {
			if hasBigNumber(e) {
				return true
			}
		}
	case map[string]any:
		for _, e := range x {
			if hasBigNumber(e) {
				return true
			}
		}
	}
	return false
}
