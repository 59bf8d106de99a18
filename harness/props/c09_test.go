package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"testing"

	pkgerrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// outcomeSpec is what a handler does.
type outcomeSpec struct {
	Do    string          `json:"do"` // value error rpc message both
	Panic bool            `json:"panic,omitempty"`
	Wrap  []string        `json:"wrap,omitempty"` // layers around an error
	Value json.RawMessage `json:"value,omitempty"`
	Code  int             `json:"code,omitempty"`
	Text  string          `json:"text,omitempty"`
	Data  json.RawMessage `json:"data,omitempty"`
	Msg   *MsgSpec        `json:"msg,omitempty"`
	Crash string          `json:"crash,omitempty"` // runtime error to provoke
}

type ownError struct {
	text  string
	inner error
}

func (e *ownError) Error() string { return e.text }
func (e *ownError) Unwrap() error { return e.inner }

func wrapErr(err error, layers []string) error {
	for _, l := range layers {
		switch l {
		case "fmt":
			err = fmt.Errorf("layer: %w", err)
		case "pkg":
			err = pkgerrors.Wrap(err, "layer")
		case "stack":
			err = pkgerrors.WithStack(err)
		case "join":
			err = errors.Join(errors.New("other"), err)
		case "own":
			err = &ownError{"layer", err}
		case "multi":
			err = fmt.Errorf("a %w b %w", errors.New("other"), err)
		}
	}
	return err
}

var sharedRPCErrors = map[string]*jlib.RPCError{
	"ErrServerError": jlib.ErrServerError, "ErrNotAllowed": jlib.ErrNotAllowed, "ErrTimeout": jlib.ErrTimeout,
	"ErrInvalidRequest": jlib.ErrInvalidRequest, "ErrMethodNotFound": jlib.ErrMethodNotFound, "ErrInternalError": jlib.ErrInternalError,
}

// run behaves as a handler.
func (o outcomeSpec) run() (any, error) {
	raise := func(err error) (any, error) {
		if o.Panic {
			panic(err)
		}
		return nil, err
	}
	switch o.Crash {
	case "nil map":
		var m map[string]int
		m["x"] = 1
	case "index":
		var l []int
		return l[len(o.Crash)], nil
	case "nil pointer":
		var e *jlib.RPCError
		return e.Code, nil
	case "conversion":
		var x any = "s"
		return x.(int), nil
	case "divide":
		return len(o.Crash) / len(o.Text), nil
	}
	switch o.Do {
	case "value":
		return native(pbt.MustDec(o.Value), true), nil
	case "error":
		return raise(wrapErr(errors.New(o.Text), o.Wrap))
	case "both": // a value beside an error does not count
		_, err := raise(wrapErr(errors.New(o.Text), o.Wrap))
		return pbt.MustDec(o.Value), err
	case "shared":
		return raise(wrapErr(sharedRPCErrors[o.Text], o.Wrap))
	case "rpc":
		e := &jlib.RPCError{Code: o.Code, Message: o.Text}
		if len(o.Data) > 0 {
			e.Data = native(pbt.MustDec(o.Data), true)
		}
		return raise(wrapErr(e, o.Wrap))
	case "message":
		return o.Msg.build(), nil
	}
	panic("outcome " + o.Do)
}

// reply is the message a request with the id and trace must be answered with.
func (o outcomeSpec) reply(req MsgSpec) MsgSpec {
	m := MsgSpec{ID: req.ID, Trace: req.Trace}
	internal := func() {
		m.Kind, m.Code, m.Msg = "error", jlib.ErrInternalError.Code, jlib.ErrInternalError.Message
	}
	if o.Crash != "" {
		internal()
		return m
	}
	switch o.Do {
	case "value":
		m.Kind, m.Result = "result", o.Value
	case "rpc":
		m.Kind, m.Code, m.Msg, m.Data = "error", o.Code, o.Text, o.Data
	case "shared":
		e := sharedRPCErrors[o.Text]
		m.Kind, m.Code, m.Msg = "error", e.Code, e.Message
	case "message":
		return *o.Msg
	default:
		internal()
	}
	return m
}

func genOutcome(t *rapid.T) outcomeSpec {
	o := outcomeSpec{}
	if pbt.Chance(t, 10, "crash") {
		o.Crash = pbt.Pick(t, "crashkind", "nil map", "index", "nil pointer", "conversion", "divide")
		return o
	}
	o.Do = []string{"value", "rpc", "error", "message", "shared", "both"}[pbt.Weighted(t, "do", 30, 30, 15, 10, 10, 5)]
	if o.Do != "value" && o.Do != "message" {
		o.Panic = pbt.Chance(t, 40, "panic")
		for i, n := 0, pbt.Weighted(t, "layers", 40, 30, 20, 10); i < n; i++ {
			o.Wrap = append(o.Wrap, pbt.Pick(t, "layer", "fmt", "pkg", "stack", "join", "own", "multi"))
		}
	}
	switch o.Do {
	case "value", "both":
		o.Value = pbt.Raw(pbt.JSON(t, 2, "v"))
		o.Text = pbt.Str(t, "text")
	case "rpc":
		o.Code, o.Text = int(pbt.Int64(t, "code")), pbt.Str(t, "text")
		if pbt.Chance(t, 50, "data") {
			if v := pbt.JSON(t, 2, "d"); v != nil {
				o.Data = pbt.Raw(v)
			}
		}
	case "error":
		o.Text = pbt.Str(t, "text")
	case "shared":
		o.Text = pbt.Pick(t, "shared", pbt.Keys(sharedRPCErrors)...)
	case "message":
		m := genMsgSpec(t, "result", "error")
		o.Msg = &m
	}
	return o
}

type c09Call struct {
	Msg MsgSpec     `json:"msg"`
	Out outcomeSpec `json:"out"`
	How string      `json:"how"` // root child grandchild missing
}

type c09Case struct {
	Calls    []c09Call `json:"calls"`
	Parallel bool      `json:"parallel,omitempty"`
}

func c09Run(r *pbt.Rec, c c09Case) error {
	root, child, grand := jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()
	child.AddChild(grand)
	root.AddChild(child)
	var missing sync.Map
	root.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		o, ok := missing.Load(req.Msg().MustMethod())
		if !ok {
			return nil, errors.New("unexpected call of the missing handler")
		}
		return o.(outcomeSpec).run()
	})
	for i, cl := range c.Calls {
		method := fmt.Sprintf("m%d", i)
		o := cl.Out
		at := map[string]*jlibhttp.Actor{"root": root, "child": child, "grandchild": grand}[cl.How]
		switch {
		case at == nil:
			missing.Store(method, o)
		case i%3 == 0:
			at.On(method, func([]any) (any, error) { return o.run() })
		case i%3 == 1:
			at.OnContext(method, func(context.Context, []any) (any, error) { return o.run() })
		default:
			if err := at.OnRequest(method, func(*jlibhttp.RPCRequest, []any) (any, error) { return o.run() }); err != nil {
				return err
			}
		}
	}
	one := func(i int) error {
		cl := c.Calls[i]
		cl.Msg.Method = fmt.Sprintf("m%d", i)
		msg := cl.Msg.build()
		res, err := root.Feed(jlibhttp.NewRPCRequest(context.Background(), msg, jlibhttp.TransportHTTP, nil))
		if cl.Msg.Kind == "notify" {
			if res != nil {
				return fmt.Errorf("call %d: a notification is answered with %s", i, jlib.MessageString(res))
			}
			return nil
		}
		if err != nil || res == nil {
			return fmt.Errorf("call %d %+v: no reply, error %v", i, cl.Out, err)
		}
		want := cl.Out.reply(cl.Msg)
		if err := want.checkFull(res); err != nil {
			return fmt.Errorf("call %d %+v %s: %w", i, cl.Out, cl.How, err)
		}
		if err := cl.Msg.checkMsg(msg); err != nil {
			return fmt.Errorf("call %d: the request was changed: %w", i, err)
		}
		return nil
	}
	for _, cl := range c.Calls {
		what := cl.Out.Do
		if cl.Out.Crash != "" {
			what = "runtime error"
		} else if cl.Out.Panic {
			what = "panic " + what
		}
		if len(cl.Out.Wrap) > 0 {
			what += " wrapped"
		}
		r.Label("%s %s from %s", cl.Msg.Kind, what, cl.How)
		if cl.Out.Do != "value" {
			r.NonTrivial()
		}
	}
	if !c.Parallel {
		for i := range c.Calls {
			if err := one(i); err != nil {
				return err
			}
		}
		return nil
	}
	errs := make([]error, len(c.Calls))
	var wg sync.WaitGroup
	for i := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("call %d: Feed panics: %v", i, p)
				}
			}()
			errs[i] = one(i)
		}()
	}
	wg.Wait()
	return errors.Join(errs...)
}

func TestC09(t *testing.T) {
	pbt.Check(t, "C09", pbt.Part[c09Case]{Name: "outcomes", Quick: 30000, Gen: func(t *rapid.T) c09Case {
		c := c09Case{Parallel: pbt.Chance(t, 20, "parallel")}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "calls"); i < n; i++ {
			kind := "request"
			if pbt.Chance(t, 30, "notify") {
				kind = "notify"
			}
			c.Calls = append(c.Calls, c09Call{genMsgSpec(t, kind), genOutcome(t), pbt.Pick(t, "how", "root", "child", "grandchild", "missing")})
		}
		return c
	}, Run: c09Run})
}
