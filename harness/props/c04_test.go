package props

import (
	"fmt"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c04Case struct {
	M      MsgSpec `json:"m"`
	Parsed bool    `json:"parsed"` // the original comes from parsing
	NewID  pbt.ID  `json:"new_id"`
	Reply  MsgSpec `json:"reply"` // its result or error is used for replies
	Twice  bool    `json:"twice"`
}

func c04Gen(t *rapid.T) c04Case {
	return c04Case{M: genMsgSpec(t), Parsed: rapid.Bool().Draw(t, "parsed"), NewID: pbt.GenID(t, "newid"),
		Reply: genMsgSpec(t, "result", "error"), Twice: rapid.Bool().Draw(t, "twice")}
}

func mustPanic(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return false
}

func c04Run(r *pbt.Rec, c c04Case) error {
	m := c.M
	var msg jlib.Message
	if c.Parsed {
		m.Native = false
		p, err := jlib.ParseBytes(pbt.Raw(m.object()))
		if err != nil {
			return err
		}
		msg = p
	} else {
		msg = m.build()
	}
	r.Label("%s parsed=%v", m.Kind, c.Parsed)
	if m.Kind == "request" && !m.List && len(m.Params) > 0 {
		r.Label("request with bare params")
	}
	r.NonTrivial()

	// accessors panic exactly when the kind has no such member
	isCall := m.Kind == "request" || m.Kind == "notify"
	for _, a := range []struct {
		name string
		has  bool
		f    func()
	}{
		{"MustId", m.Kind != "notify", func() { msg.MustId() }},
		{"MustMethod", isCall, func() { msg.MustMethod() }},
		{"MustParams", isCall, func() { msg.MustParams() }},
		{"MustResult", m.Kind == "result", func() { msg.MustResult() }},
		{"MustError", m.Kind == "error", func() { msg.MustError() }},
		{"ReplaceId", m.Kind != "notify", func() { msg.ReplaceId(c.NewID.Value()) }},
	} {
		if p := mustPanic(a.f); p == a.has {
			return fmt.Errorf("%s of a %s: panicked=%v", a.name, m.Kind, p)
		}
	}
	if err := m.checkFull(msg); err != nil {
		return fmt.Errorf("accessors changed the message: %w", err)
	}
	if m.Kind != "notify" {
		want := m
		want.ID = c.NewID
		derived := []jlib.Message{msg.ReplaceId(c.NewID.Value())}
		if rq, ok := msg.(*jlib.RequestMessage); ok {
			derived = append(derived, rq.Clone(c.NewID.Value()))
		}
		if c.Twice {
			derived = append(derived, msg.ReplaceId("tmp").ReplaceId(c.NewID.Value()))
		}
		for i, d := range derived {
			if err := want.checkFull(d); err != nil {
				return fmt.Errorf("derived %d: %w", i, err)
			}
		}
		if err := m.checkFull(msg); err != nil {
			return fmt.Errorf("original changed: %w", err)
		}
		// changing the trace id of the copy does not reach back
		derived[0].SetTraceId("other-trace")
		if err := m.checkFull(msg); err != nil {
			return fmt.Errorf("original changed by the copy's trace id: %w", err)
		}
	}
	if rq, ok := msg.(*jlib.RequestMessage); ok {
		want := c.Reply
		want.ID, want.Trace = m.ID, m.Trace
		data := native(pbt.MustDec(c.Reply.Data), c.Reply.Native)
		if want.Kind == "result" {
			rs := jlib.NewResultMessage(rq, native(pbt.MustDec(want.Result), want.Native))
			if err := want.checkFull(rs); err != nil {
				return fmt.Errorf("NewResultMessage: %w", err)
			}
		} else {
			body := &jlib.RPCError{Code: want.Code, Message: want.Msg, Data: data}
			for name, e := range map[string]*jlib.ErrorMessage{
				"NewErrorMessage":         jlib.NewErrorMessage(rq, body),
				"NewErrorMessageFromId":   jlib.NewErrorMessageFromId(rq.MustId(), rq.TraceId(), body),
				"RPCErrorMessage":         jlib.RPCErrorMessage(rq, want.Code, want.Msg, data),
				"RPCErrorMessageFromId":   jlib.RPCErrorMessageFromId(rq.MustId(), rq.TraceId(), want.Code, want.Msg, data),
				"ToMessage":               body.ToMessage(rq),
				"ToMessageFromId":         body.ToMessageFromId(rq.MustId(), rq.TraceId()),
				"WithData.ToMessage":      (&jlib.RPCError{Code: want.Code, Message: want.Msg}).WithData(data).ToMessage(rq),
				"WithData over ToMessage": (&jlib.RPCError{Code: want.Code, Message: want.Msg, Data: "old"}).WithData(data).ToMessage(rq),
			} {
				if err := want.checkFull(e); err != nil {
					return fmt.Errorf("%s: %w", name, err)
				}
			}
			if err := pbt.DiffGo(data, body.Data); err != nil || body.Code != want.Code || body.Message != want.Msg {
				return fmt.Errorf("the error body was changed: %v", err)
			}
		}
		if err := m.checkFull(msg); err != nil {
			return fmt.Errorf("request changed by replies: %w", err)
		}
		// shared errors never change
		for _, sh := range []*jlib.RPCError{jlib.ErrMethodNotFound, jlib.ErrInternalError, jlib.ErrServerError, jlib.ErrTimeout, jlib.ErrInvalidSchema, jlib.ErrInvalidRequest, jlib.ErrParseMessage} {
			before := *sh
			d := sh.WithData(data)
			if d == sh && data != nil {
				return fmt.Errorf("WithData returned the shared error itself")
			}
			if d.Code != before.Code || d.Message != before.Message {
				return fmt.Errorf("WithData changed code or message")
			}
			if err := pbt.DiffGo(data, d.Data); err != nil {
				return fmt.Errorf("WithData: %w", err)
			}
			// again, on an error that has data already
			again := d.WithData("other")
			if again.Code != before.Code || again.Message != before.Message || again.Data != any("other") {
				return fmt.Errorf("WithData over data gives %+v", again)
			}
			if err := pbt.DiffGo(data, d.Data); err != nil || d.Code != before.Code || d.Message != before.Message {
				return fmt.Errorf("WithData changed the error it is called on: %v", err)
			}
			em := sh.ToMessage(rq)
			em.Error.Data = "scribble"
			em.Error.Code++
			em2 := sh.ToMessageFromId(rq.Id, "")
			em2.Error.Message += "scribble"
			if sh.Code != before.Code || sh.Message != before.Message || sh.Data != before.Data {
				return fmt.Errorf("the shared error %d was altered through a message built from it: %+v", before.Code, sh)
			}
		}
	}
	return nil
}

type c04Key struct {
	A, B   MsgSpec
	P1, P2 string
}

func c04GenKey(t *rapid.T) c04Key {
	gen := func() MsgSpec {
		return MsgSpec{Kind: "request", ID: pbt.GenID(t, "id"), Method: rapid.StringMatching(`[a-z][a-z0-9._:+-]{0,3}`).Draw(t, "m"),
			List: true, Params: pbt.Raw(pbt.List(t, 2, "p")), Trace: pbt.Str(t, "trace"), Native: pbt.Chance(t, 20, "nat")}
	}
	a := gen()
	b := gen()
	switch pbt.Weighted(t, "rel", 30, 30, 15, 15, 10) {
	case 0:
		b.Method, b.Params = a.Method, a.Params
	case 1:
		b.Method = a.Method
		// params differing in one small place
		l := pbt.Fresh(a.params()).([]any)
		switch {
		case len(l) == 0 || pbt.Chance(t, 30, "append"):
			l = append(l, pbt.JSON(t, 0, "x"))
		default:
			l[pbt.Uniform(t, len(l), "i")] = pbt.JSON(t, 1, "x")
		}
		b.Params = pbt.Raw(l)
	case 2:
		b.Params = a.Params
	case 4:
		// a method that looks like the other one with its params
		text := string(a.Params)
		b.Method = a.Method + text[:rapid.IntRange(1, len(text)).Draw(t, "part")]
		if pbt.Chance(t, 70, "whole") {
			b.Method = a.Method + text
		}
		if pbt.Chance(t, 70, "noparams") {
			b.Params = pbt.Raw([]any{})
		}
	}
	return c04Key{A: a, B: b, P1: pbt.Str(t, "p1"), P2: pbt.Str(t, "p2")}
}

func c04RunKey(r *pbt.Rec, c c04Key) error {
	a, b := c.A.build().(*jlib.RequestMessage), c.B.build().(*jlib.RequestMessage)
	c.A.Native, c.B.Native = false, false
	same := c.A.Method == c.B.Method && pbt.Diff(c.A.params(), c.B.params()) == nil
	r.Label("same=%v", same)
	r.NonTrivial()
	ka, kb := a.CacheKey(c.P1), b.CacheKey(c.P1)
	if (ka == kb) != same {
		return fmt.Errorf("cache keys equal=%v but method and params equal=%v: %q %q", ka == kb, same, ka, kb)
	}
	if a.CacheKey(c.P1) != ka {
		return fmt.Errorf("cache key is not stable")
	}
	if (c.P1 == c.P2) != (a.CacheKey(c.P2) == ka) {
		return fmt.Errorf("prefixes %q and %q: %q %q", c.P1, c.P2, ka, a.CacheKey(c.P2))
	}
	if k := a.Clone("zzz").CacheKey(c.P1); k != ka {
		return fmt.Errorf("cache key depends on the id: %q %q", k, ka)
	}
	back, err := jlib.ParseBytes([]byte(jlib.MessageString(a)))
	if err != nil {
		return err
	}
	if k := back.(*jlib.RequestMessage).CacheKey(c.P1); k != ka {
		return fmt.Errorf("cache key after a round trip: %q %q", k, ka)
	}
	return nil
}

func TestC04(t *testing.T) {
	pbt.Check(t, "C04",
		pbt.Part[c04Case]{Name: "derive", Quick: 60000, Gen: c04Gen, Run: c04Run},
		pbt.Part[c04Key]{Name: "cachekey", Quick: 40000, Gen: c04GenKey, Run: c04RunKey},
	)
}
