package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"pgregory.net/rapid"

	"verif/pbt"
)

// c11Case: one typed handler and the calls made to it.
type c11Case struct {
	How      string    `json:"how"` // typed typedrequest typedcontext
	Args     []TD      `json:"args"`
	Ret      TD        `json:"ret"`
	RPCErr   bool      `json:"rpcerr"`         // the second output is *jlib.RPCError
	Rest     bool      `json:"rest,omitempty"` // the last argument is variadic, of this element type
	Parallel bool      `json:"parallel,omitempty"`
	Calls    []c11Call `json:"calls"`
}

type c11Call struct {
	Params json.RawMessage `json:"params"`
	Bare   bool            `json:"bare,omitempty"` // the params are one value, no list
	Notify bool            `json:"notify,omitempty"`
	Ret    json.RawMessage `json:"ret,omitempty"`
	Err    *outcomeSpec    `json:"err,omitempty"`
}

type c11Key struct{}

var (
	reqType = reflect.TypeOf((*jlibhttp.RPCRequest)(nil))
	ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
	errType = reflect.TypeOf((*error)(nil)).Elem()
	rpcType = reflect.TypeOf((*jlib.RPCError)(nil))
	anyType = basicTypes["any"]
)

func c11Gen(t *rapid.T) c11Case {
	c := c11Case{How: pbt.Pick(t, "how", "typed", "typedrequest", "typedcontext"), RPCErr: pbt.Chance(t, 30, "rpcerr"), Parallel: pbt.Chance(t, 25, "parallel")}
	n := pbt.Weighted(t, "nargs", 10, 30, 30, 20, 5, 5)
	for i := 0; i < n; i++ {
		c.Args = append(c.Args, genTD(t, 2))
	}
	c.Rest = n > 0 && pbt.Chance(t, 20, "rest")
	c.Ret = genTD(t, 2)
	if pbt.Chance(t, 30, "anyret") {
		c.Ret = TD{K: "any"}
	}
	for k := rapid.IntRange(1, 4).Draw(t, "calls"); k > 0; k-- {
		bad := pbt.Pick(t, "badness", 0, 0, 0, 8)
		ps := []any{}
		for _, a := range c.Args {
			ps = append(ps, genFor(t, a, bad))
		}
		if c.Rest {
			for i := pbt.Weighted(t, "more", 30, 30, 20, 10, 10); i > 0; i-- {
				ps = append(ps, genFor(t, c.Args[n-1], bad))
			}
		}
		call := c11Call{Notify: pbt.Chance(t, 15, "notify")}
		switch pbt.Weighted(t, "len", 60, 20, 15, 5) {
		case 1:
			ps = ps[:rapid.IntRange(0, len(ps)).Draw(t, "cut")]
		case 2:
			for i := rapid.IntRange(1, 3).Draw(t, "extra"); i > 0; i-- {
				ps = append(ps, pbt.JSON(t, 1, "x"))
			}
		case 3:
			if len(ps) > 0 {
				ps, call.Bare = ps[:1], true
				if _, list := ps[0].([]any); list || ps[0] == nil {
					call.Bare = false
				}
			}
		}
		call.Params = pbt.Raw(ps)
		if call.Bare {
			call.Params = pbt.Raw(ps[0])
		}
		if pbt.Chance(t, 30, "err") {
			if c.RPCErr {
				call.Err = &outcomeSpec{Do: "rpc"}
			} else {
				call.Err = &outcomeSpec{Do: pbt.Pick(t, "do", "error", "rpc"), Wrap: rapid.SliceOfN(rapid.SampledFrom([]string{"fmt", "pkg", "own"}), 0, 2).Draw(t, "wrap")}
			}
			call.Err.Text = pbt.Str(t, "text")
			call.Err.Code = int(pbt.Int64(t, "code"))
			if pbt.Chance(t, 40, "data") {
				if v := pbt.JSON(t, 2, "data"); v != nil {
					call.Err.Data = pbt.Raw(v)
				}
			}
		}
		call.Ret = pbt.Raw(genConforming(t, c.Ret))
		c.Calls = append(c.Calls, call)
	}
	return c
}

// jsonSlack tells whether a nil list, map or pointer occurs in the type: the
// JSON of such a result may be null or empty.
func sameResult(d TD, want, got any) error {
	if want == nil && got != nil {
		empty := false
		switch x := got.(type) {
		case []any:
			empty = d.K == "list" && len(x) == 0
		case map[string]any:
			empty = (d.K == "map" && len(x) == 0) || (d.K == "ptr" && len(x) == 0)
		}
		if empty {
			return nil
		}
	}
	switch d.K {
	case "list":
		w, ok1 := want.([]any)
		g, ok2 := got.([]any)
		if ok1 && ok2 && len(w) == len(g) {
			for i := range w {
				if err := sameResult(*d.Elem, w[i], g[i]); err != nil {
					return fmt.Errorf("[%d] %w", i, err)
				}
			}
			return nil
		}
	case "map":
		w, ok1 := want.(map[string]any)
		g, ok2 := got.(map[string]any)
		if ok1 && ok2 && len(w) == len(g) {
			for k := range w {
				gv, ok := g[k]
				if !ok {
					return fmt.Errorf("missing member %q", k)
				}
				if err := sameResult(*d.Elem, w[k], gv); err != nil {
					return fmt.Errorf(".%s %w", k, err)
				}
			}
			return nil
		}
	case "struct":
		w, ok1 := want.(map[string]any)
		g, ok2 := got.(map[string]any)
		if ok1 && ok2 && len(w) == len(g) {
			for _, f := range d.Fields {
				gv, ok := g[f.key()]
				if !ok {
					return fmt.Errorf("missing member %q", f.key())
				}
				if err := sameResult(f.T, w[f.key()], gv); err != nil {
					return fmt.Errorf(".%s %w", f.key(), err)
				}
			}
			return nil
		}
	case "ptr":
		if want != nil {
			return sameResult(*d.Elem, want, got)
		}
	}
	return pbt.Diff(want, got)
}

type c11Seen struct {
	args  []any
	first any
	n     int
}

func c11Run(r *pbt.Rec, c c11Case) error {
	var in []reflect.Type
	lead := 0
	switch c.How {
	case "typedrequest":
		in, lead = append(in, reqType), 1
	case "typedcontext":
		in, lead = append(in, ctxType), 1
	}
	for i, a := range c.Args {
		typ := a.typ()
		if c.Rest && i == len(c.Args)-1 {
			typ = reflect.SliceOf(typ)
		}
		in = append(in, typ)
	}
	second := errType
	if c.RPCErr {
		second = rpcType
	}
	ftyp := reflect.FuncOf(in, []reflect.Type{c.Ret.typ(), second}, c.Rest)
	// sequential calls find their call by cur; parallel calls are all alike
	var mu sync.Mutex
	var seen []c11Seen
	cur := 0
	body := func(args []reflect.Value) []reflect.Value {
		mu.Lock()
		defer mu.Unlock()
		s := c11Seen{n: len(args)}
		if lead == 1 {
			s.first = args[0].Interface()
		}
		args = args[lead:]
		if c.Rest {
			rest := args[len(args)-1]
			args = args[: len(args)-1 : len(args)-1]
			for i := 0; i < rest.Len(); i++ {
				args = append(args, rest.Index(i))
			}
		}
		for _, a := range args {
			j, err := pbt.ToJSON(a.Interface())
			if err != nil {
				j = "does not encode: " + err.Error()
			}
			s.args = append(s.args, j)
		}
		seen = append(seen, s)
		call := c.Calls[cur]
		ret := reflect.New(c.Ret.typ()).Elem()
		ret.Set(c.Ret.make(pbt.MustDec(call.Ret)))
		e := reflect.Zero(second)
		if call.Err != nil {
			_, err := call.Err.run()
			e = reflect.ValueOf(err).Convert(second)
		}
		return []reflect.Value{ret, e}
	}
	fn := reflect.MakeFunc(ftyp, body).Interface()
	actor := jlibhttp.NewActor()
	var rerr error
	if p := panics(func() {
		switch c.How {
		case "typed":
			actor.OnTyped("m", fn)
		case "typedrequest":
			rerr = actor.OnTypedRequest("m", fn)
		case "typedcontext":
			rerr = actor.OnTypedContext("m", fn)
		}
	}); p != nil || rerr != nil {
		return fmt.Errorf("%v is refused: %v %v", ftyp, p, rerr)
	}
	if c.Parallel {
		r.Label("parallel")
	}
	feed := func(i, times int) error {
		call := c.Calls[i]
		spec := MsgSpec{Kind: "request", ID: pbt.IntID(int64(i + 1)), Method: "m", Params: call.Params}
		if call.Notify {
			spec.Kind = "notify"
		}
		cur, seen = i, nil
		type reply struct {
			msg jlib.Message
			err error
			req *jlibhttp.RPCRequest
			ctx context.Context
			p   any
		}
		replies := make([]reply, times)
		var wg sync.WaitGroup
		for k := 0; k < times; k++ {
			wg.Add(1)
			ctx := context.WithValue(context.Background(), c11Key{}, k)
			msg, err := jlib.ParseBytes(pbt.Raw(spec.object()))
			if err != nil {
				return err
			}
			req := jlibhttp.NewRPCRequest(ctx, msg, jlibhttp.TransportHTTP, nil)
			replies[k].req, replies[k].ctx = req, ctx
			run := func() {
				defer wg.Done()
				replies[k].p = panics(func() { replies[k].msg, replies[k].err = actor.Feed(req) })
			}
			if times > 1 {
				go run()
			} else {
				run()
			}
		}
		wg.Wait()
		var params []any
		if call.Bare {
			params = []any{pbt.MustDec(call.Params)}
		} else {
			params = pbt.MustDec(call.Params).([]any)
		}
		o := oOK
		var wants []any
		types := c.Args
		if c.Rest {
			last := types[len(types)-1]
			types = types[: len(types)-1 : len(types)-1]
			for len(types) < len(params) {
				types = append(types, last)
				r.Label("variadic")
			}
		}
		if len(params) < len(types) {
			o = oBad
			r.Label("too few")
		} else {
			for j, a := range types {
				ao, w := a.expect(params[j])
				o = worse(o, ao)
				wants = append(wants, w)
				if params[j] == nil {
					r.Label("null argument")
				}
			}
		}
		if o == oOK && len(params) > len(types) {
			r.Label("extra params")
		}
		for k, rep := range replies {
			if rep.p != nil {
				return fmt.Errorf("call %d panics: %v", i, rep.p)
			}
			if call.Notify && rep.msg != nil {
				return fmt.Errorf("call %d: a notification is answered", i)
			}
			_ = k
		}
		if o == oOpen {
			r.Label("open")
			return nil
		}
		if o == oBad {
			r.Label("bad")
			r.NonTrivial()
			if len(seen) != 0 {
				return fmt.Errorf("call %d: the handler %v was called with params %s: %s", i, ftyp, pbt.Short(params), pbt.Short(seen[0].args))
			}
			for _, rep := range replies {
				if call.Notify {
					continue
				}
				em, ok := rep.msg.(*jlib.ErrorMessage)
				if !ok || rep.err != nil {
					return fmt.Errorf("call %d: params %s for %v: no error reply but %T %v", i, pbt.Short(params), ftyp, rep.msg, rep.err)
				}
				if em.Error.Code != -32602 {
					return fmt.Errorf("call %d: params %s for %v: error code %d, not the params error", i, pbt.Short(params), ftyp, em.Error.Code)
				}
				if em.Id != any(spec.ID.Value()) {
					return fmt.Errorf("call %d: reply id %v", i, em.Id)
				}
			}
			return nil
		}
		r.Label("ok %s", c.How)
		if len(c.Args) > 0 {
			r.NonTrivial()
		}
		if len(seen) != times {
			return fmt.Errorf("call %d: the handler ran %d times for %d calls with params %s for %v", i, len(seen), times, pbt.Short(params), ftyp)
		}
		firsts := map[any]bool{}
		for _, s := range seen {
			if s.n != len(in) {
				return fmt.Errorf("call %d: %d arguments", i, s.n)
			}
			if c.Rest && len(s.args) != len(wants) {
				return fmt.Errorf("call %d: %d arguments for %d params", i, len(s.args), len(wants))
			}
			for j, w := range wants {
				if err := pbt.Diff(w, s.args[j]); err != nil {
					return fmt.Errorf("call %d: argument %d of type %v from %s: %w", i, j, types[j].typ(), pbt.Short(params[j]), err)
				}
			}
			if lead == 1 {
				switch x := s.first.(type) {
				case *jlibhttp.RPCRequest:
					firsts[x] = true
				case context.Context:
					firsts[x.Value(c11Key{})] = true
				}
			}
		}
		if lead == 1 {
			for k, rep := range replies {
				if (c.How == "typedrequest" && !firsts[rep.req]) || (c.How == "typedcontext" && !firsts[k]) {
					return fmt.Errorf("call %d: the first argument is not this call's request or context", i)
				}
			}
		}
		if call.Notify {
			return nil
		}
		for _, rep := range replies {
			if rep.err != nil || rep.msg == nil {
				return fmt.Errorf("call %d: no reply: %v", i, rep.err)
			}
			if call.Err != nil {
				r.Label("error returned")
				want := call.Err.reply(spec)
				if err := want.checkFull(rep.msg); err != nil {
					return fmt.Errorf("call %d: reply to the error returned: %w", i, err)
				}
				continue
			}
			rm, ok := rep.msg.(*jlib.ResultMessage)
			if !ok {
				return fmt.Errorf("call %d: reply of %v is %s", i, ftyp, jlib.MessageString(rep.msg))
			}
			want, err := pbt.ToJSON(c.Ret.make(pbt.MustDec(call.Ret)).Interface())
			if err != nil {
				return err
			}
			got, err := pbt.ToJSON(rm.Result)
			if err != nil {
				return fmt.Errorf("call %d: the result of %v does not encode: %v", i, ftyp, err)
			}
			if rm.Id != any(spec.ID.Value()) {
				return fmt.Errorf("call %d: reply id %v", i, rm.Id)
			}
			if err := sameResult(c.Ret, want, got); err != nil {
				return fmt.Errorf("call %d: result of type %v: %w", i, c.Ret.typ(), err)
			}
		}
		return nil
	}
	for i := range c.Calls {
		times := 1
		if c.Parallel {
			times = 4
		}
		if err := feed(i, times); err != nil {
			return err
		}
	}
	return nil
}

// c11Sig is a function signature, or no function at all.
type c11Sig struct {
	How  string   `json:"how"`
	Func bool     `json:"func"`
	In   []string `json:"in"`
	Out  []string `json:"out"`
	Val  string   `json:"val,omitempty"`
}

type otherError struct{}

func (otherError) Error() string { return "other" }

var sigTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(0), "string": reflect.TypeOf(""), "any": anyType, "error": errType, "*RPCError": rpcType,
	"*RPCRequest": reqType, "RPCRequest": reqType.Elem(), "Context": ctxType, "**RPCRequest": reflect.PointerTo(reqType), "*Context": reflect.PointerTo(ctxType),
	"list": reflect.TypeOf([]int{}), "map": reflect.TypeOf(map[string]any{}), "*WrappedResponse": reflect.TypeOf((*jlibhttp.WrappedResponse)(nil)),
	"bool": reflect.TypeOf(true), "*http.Request": reflect.TypeOf((*jlib.RequestMessage)(nil)),
}

func c11GenSig(t *rapid.T) c11Sig {
	names := pbt.Keys(sigTypes)
	pick := func() string { return names[pbt.Uniform(t, len(names), "type")] }
	s := c11Sig{How: pbt.Pick(t, "how", "typed", "typedrequest", "typedcontext"), Func: pbt.Chance(t, 92, "func")}
	if !s.Func {
		s.Val = pbt.Pick(t, "val", "nil", "int", "string", "struct", "*func", "map")
		return s
	}
	n := pbt.Weighted(t, "in", 20, 30, 30, 20)
	for i := 0; i < n; i++ {
		if i == 0 && pbt.Chance(t, 60, "lead") {
			s.In = append(s.In, pbt.Pick(t, "leadtype", "*RPCRequest", "Context"))
		} else {
			s.In = append(s.In, pick())
		}
	}
	m := pbt.Weighted(t, "out", 8, 12, 65, 15)
	for i := 0; i < m; i++ {
		if i == 1 && pbt.Chance(t, 70, "err") {
			s.Out = append(s.Out, pbt.Pick(t, "errtype", "error", "*RPCError"))
		} else {
			s.Out = append(s.Out, pick())
		}
	}
	return s
}

func c11RunSig(r *pbt.Rec, s c11Sig) error {
	fits := s.Func && len(s.Out) == 2 && sigTypes[s.Out[1]].Implements(errType)
	lead := 0
	if s.How != "typed" {
		want := map[string]string{"typedrequest": "*RPCRequest", "typedcontext": "Context"}[s.How]
		lead = 1
		if len(s.In) == 0 || s.In[0] != want {
			fits = false
		}
	}
	var fn any
	ran := 0
	if s.Func {
		var in, out []reflect.Type
		for _, n := range s.In {
			in = append(in, sigTypes[n])
		}
		for _, n := range s.Out {
			out = append(out, sigTypes[n])
		}
		fn = reflect.MakeFunc(reflect.FuncOf(in, out, false), func([]reflect.Value) []reflect.Value {
			ran++
			var res []reflect.Value
			for _, o := range out {
				res = append(res, reflect.Zero(o))
			}
			return res
		}).Interface()
	} else {
		f := func() (int, error) { return 0, nil }
		fn = map[string]any{"nil": nil, "int": 5, "string": "f", "struct": otherError{}, "*func": &f, "map": map[string]any{}}[s.Val]
	}
	actor := jlibhttp.NewActor()
	var err error
	p := panics(func() {
		switch s.How {
		case "typed":
			actor.OnTyped("m", fn)
		case "typedrequest":
			err = actor.OnTypedRequest("m", fn)
		case "typedcontext":
			err = actor.OnTypedContext("m", fn)
		}
	})
	taken := p == nil && err == nil
	if taken != fits {
		return fmt.Errorf("%s registration of %T: taken %v, should be %v (%v, %v)", s.How, fn, taken, fits, p, err)
	}
	if taken != actor.Has("m") {
		return fmt.Errorf("%s registration of %T taken=%v but Has is %v", s.How, fn, taken, actor.Has("m"))
	}
	r.Label("fits %v", fits)
	r.NonTrivial()
	if !taken {
		return nil
	}
	// with nulls for all arguments it is called once
	ps := make([]any, len(s.In)-lead)
	req := jlibhttp.NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", ps), jlibhttp.TransportHTTP, nil)
	var msg jlib.Message
	var ferr error
	if p := panics(func() { msg, ferr = actor.Feed(req) }); p != nil {
		return fmt.Errorf("calling %T with nulls panics: %v", fn, p)
	}
	var wr *jlibhttp.WrappedResponse
	if ran != 1 || ferr != nil && !errors.As(ferr, &wr) {
		return fmt.Errorf("calling %T with nulls: ran %d times, %v %v", fn, ran, msg, ferr)
	}
	if s.Out[1] == "error" || s.Out[1] == "*RPCError" {
		if _, ok := msg.(*jlib.ResultMessage); !ok && s.Out[0] != "any" {
			return fmt.Errorf("calling %T with nulls and returning no error: %T %s", fn, msg, pbt.Short(msg))
		}
	}
	return nil
}

func TestC11(t *testing.T) {
	pbt.Check(t, "C11",
		pbt.Part[c11Case]{Name: "calls", Quick: 40000, Gen: c11Gen, Run: c11Run},
		pbt.Part[c11Sig]{Name: "signatures", Quick: 15000, Gen: c11GenSig, Run: c11RunSig},
	)
}
