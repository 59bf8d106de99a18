package props

import (
	"encoding/json"
	"fmt"
	"sync"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

func c01Run(r *pbt.Rec, m MsgSpec) error {
	r.Label("%s", m.Kind)
	if m.Native {
		r.Label("native")
	}
	if m.Kind == "request" || m.Kind == "notify" {
		if !m.List {
			r.Label("bare params")
		}
		if hasBigNumber(m.params()) {
			r.Label("number a float64 cannot hold")
		}
		if len(m.Params) > 10 {
			r.NonTrivial()
		}
	} else {
		r.NonTrivial()
	}
	msg := m.build()
	if err := m.checkMsg(msg); err != nil {
		return fmt.Errorf("constructed: %w", err)
	}
	b, err := jlib.MessageBytes(msg)
	if err != nil {
		return fmt.Errorf("MessageBytes: %v", err)
	}
	if err := m.checkBytes(b); err != nil {
		return err
	}
	// all encoded forms denote the same object
	if err := m.checkBytes([]byte(jlib.MessageString(msg))); err != nil {
		return fmt.Errorf("MessageString: %w", err)
	}
	p, err := jlib.EncodePretty(msg)
	if err != nil {
		return fmt.Errorf("EncodePretty: %v", err)
	}
	if err := m.checkBytes([]byte(p)); err != nil {
		return fmt.Errorf("EncodePretty: %w", err)
	}
	mp, err := jlib.MessageMap(msg)
	if err != nil {
		return fmt.Errorf("MessageMap: %v", err)
	}
	mb, err := json.Marshal(mp)
	if err != nil {
		return fmt.Errorf("MessageMap does not encode: %v", err)
	}
	if err := m.checkBytes(mb); err != nil {
		return fmt.Errorf("MessageMap: %w", err)
	}
	ib, err := json.Marshal(msg.Interface())
	if err != nil {
		return err
	}
	if err := m.checkBytes(ib); err != nil {
		return fmt.Errorf("Interface: %w", err)
	}
	// encoding must not have changed the message
	if err := m.checkMsg(msg); err != nil {
		return fmt.Errorf("after encoding: %w", err)
	}
	for i, enc := range [][]byte{b, []byte(p), mb} {
		back, err := jlib.ParseBytes(enc)
		if err != nil {
			return fmt.Errorf("parse form %d: %v", i, err)
		}
		if err := m.checkFull(back); err != nil {
			return fmt.Errorf("round trip of form %d: %w", i, err)
		}
	}
	return nil
}

// c01Text starts from JSON text written by the generator instead of from the
// library's encoder, with members in any order, and goes text -> message -> text.
type c01Text struct {
	M     MsgSpec `json:"m"`
	Order []int   `json:"order"`
	Extra bool    `json:"extra"`
	WS    string  `json:"ws"`
}

func (c c01Text) text() []byte {
	o := c.M.object()
	if c.Extra {
		o["x-unknown"] = map[string]any{"a": []any{nil}}
	}
	return orderedObject(o, c.Order, c.WS)
}

func orderedObject(o map[string]any, order []int, ws string) []byte {
	ks := pbt.Keys(o)
	for i := range ks {
		if len(order) > 0 {
			j := order[i%len(order)] % len(ks)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	out := ws + "{" + ws
	for i, k := range ks {
		if i > 0 {
			out += "," + ws
		}
		out += string(pbt.Raw(k)) + ws + ":" + ws + string(pbt.Raw(o[k]))
	}
	return []byte(out + ws + "}" + ws)
}

// c01Kept encodes and parses several messages, one after the other or at the
// same time, and looks at what came out only when all of it is there: what one
// call returned belongs to its caller, whatever is encoded or parsed later, and
// the bytes a message was parsed from are the caller's to use again.
type c01Kept struct {
	Msgs     []MsgSpec `json:"msgs"`
	Parallel bool      `json:"parallel"`
}

func c01KeptRun(r *pbt.Rec, c c01Kept) error {
	n := len(c.Msgs)
	if n > 1 {
		r.NonTrivial()
	}
	if c.Parallel {
		r.Label("parallel")
	}
	type outT struct {
		msg    jlib.Message
		b      []byte
		s, p   string
		mp     map[string]any
		parsed jlib.Message
		err    error
	}
	outs := make([]outT, n)
	one := func(i int, buf []byte) {
		o := &outs[i]
		o.msg = c.Msgs[i].build()
		if o.b, o.err = jlib.MessageBytes(o.msg); o.err != nil {
			return
		}
		o.s = jlib.MessageString(o.msg)
		if o.p, o.err = jlib.EncodePretty(o.msg); o.err != nil {
			return
		}
		if o.mp, o.err = jlib.MessageMap(o.msg); o.err != nil {
			return
		}
		buf = append(buf[:0], pbt.Raw(c.Msgs[i].object())...)
		o.parsed, o.err = jlib.ParseBytes(buf)
		buf = buf[:cap(buf)]
		for j := range buf {
			buf[j] = '#'
		}
	}
	if c.Parallel {
		var wg sync.WaitGroup
		for i := range c.Msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				one(i, nil)
			}()
		}
		wg.Wait()
	} else {
		buf := make([]byte, 0, 4096)
		for i := range c.Msgs {
			one(i, buf)
		}
	}
	for i, o := range outs {
		if o.err != nil {
			return fmt.Errorf("message %d of %d: %v", i, n, o.err)
		}
		mb, err := json.Marshal(o.mp)
		if err != nil {
			return err
		}
		for _, f := range []struct {
			name string
			b    []byte
		}{{"MessageBytes", o.b}, {"MessageString", []byte(o.s)}, {"EncodePretty", []byte(o.p)}, {"MessageMap", mb}} {
			if err := c.Msgs[i].checkBytes(f.b); err != nil {
				return fmt.Errorf("message %d of %d, %s kept: %w", i, n, f.name, err)
			}
		}
		if err := c.Msgs[i].checkMsg(o.msg); err != nil {
			return fmt.Errorf("message %d of %d kept: %w", i, n, err)
		}
		m := c.Msgs[i]
		m.Native = false
		if err := m.checkFull(o.parsed); err != nil {
			return fmt.Errorf("message %d of %d parsed and kept: %w", i, n, err)
		}
	}
	return nil
}

func TestC01(t *testing.T) {
	pbt.Check(t, "C01",
		pbt.Part[c01Kept]{Name: "kept", Quick: 8000, Gen: func(t *rapid.T) c01Kept {
			c := c01Kept{Parallel: pbt.Chance(t, 30, "parallel")}
			for i, n := 0, 1+pbt.Uniform(t, 6, "n"); i < n; i++ {
				c.Msgs = append(c.Msgs, genMsgSpec(t))
			}
			return c
		}, Run: c01KeptRun},
		pbt.Part[MsgSpec]{Name: "construct", Quick: 70000, Gen: func(t *rapid.T) MsgSpec { return genMsgSpec(t) }, Run: c01Run},
		pbt.Part[c01Text]{Name: "text", Quick: 50000, Gen: func(t *rapid.T) c01Text {
			return c01Text{M: genMsgSpec(t), Order: rapid.SliceOfN(rapid.IntRange(0, 7), 0, 7).Draw(t, "order"),
				Extra: pbt.Chance(t, 20, "extra"), WS: pbt.Pick(t, "ws", "", " ", "\n\t ", "\r\n")}
		}, Run: func(r *pbt.Rec, c c01Text) error {
			r.Label("%s", c.M.Kind)
			if len(c.Order) > 0 || c.M.Trace != "" {
				r.NonTrivial()
			}
			c.M.Native = false
			msg, err := jlib.ParseBytes(c.text())
			if err != nil {
				return fmt.Errorf("parse %.300q: %v", c.text(), err)
			}
			if err := c.M.checkFull(msg); err != nil {
				return fmt.Errorf("%w (from %.300q)", err, c.text())
			}
			return nil
		}},
	)
}
