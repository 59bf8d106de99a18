package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c10Method struct {
	S    *Sch   `json:"s,omitempty"`
	Form string `json:"form"` // object json yaml
	How  string `json:"how"`
	At   int    `json:"at"`
}

type c10Call struct {
	M      int             `json:"m"`
	Params json.RawMessage `json:"params"`
	Notify bool            `json:"notify,omitempty"`
	ID     pbt.ID          `json:"id"`
	Trace  string          `json:"trace,omitempty"`
	Toggle bool            `json:"toggle,omitempty"` // first switch checking on or off for the actor with the method
}

type c10Case struct {
	Methods  []c10Method `json:"methods"`
	Calls    []c10Call   `json:"calls"`
	Off      [3]bool     `json:"off,omitempty"` // checking switched off, by actor
	Parallel bool        `json:"parallel,omitempty"`
}

func c10Run(r *pbt.Rec, c c10Case) error {
	actors := []*jlibhttp.Actor{jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()}
	actors[0].AddChild(actors[1])
	actors[1].AddChild(actors[2])
	offs := c.Off
	for i, a := range actors {
		a.ValidateSchema = !offs[i]
	}
	var mu sync.Mutex
	ran := map[int]int{} // calls seen by handlers, by method
	for i, m := range c.Methods {
		var setters []jlibhttp.HandlerSetter
		if m.S != nil {
			desc := pbt.Raw(m.S.desc())
			switch m.Form {
			case "json":
				setters = append(setters, jlibhttp.WithSchemaJson(string(desc)))
			case "yaml":
				y, ok := yamlText(any(m.S.desc()), false)
				if !ok {
					y = desc
					if _, ok := yamlText(any(m.S.desc()), true); !ok {
						return nil
					}
				}
				setters = append(setters, jlibhttp.WithSchemaYaml(string(y)))
			case "built":
				s, err := jlibschema.NewSchemaBuilder().BuildBytes(desc)
				if err != nil {
					return err
				}
				setters = append(setters, jlibhttp.WithSchema(s))
			default:
				setters = append(setters, jlibhttp.WithSchema(m.S.direct()))
			}
		}
		if ok, _ := register(actors[m.At], m.How, fmt.Sprintf("m%d", i), setters, func(*jlibhttp.RPCRequest, []any) (any, error) {
			mu.Lock()
			ran[i]++
			mu.Unlock()
			return "done", nil
		}); !ok {
			return fmt.Errorf("method %d %+v is refused", i, m)
		}
	}
	one := func(i int) (mayRun, mustRun bool, err error) {
		cl := c.Calls[i]
		m := c.Methods[cl.M]
		if cl.Toggle && !c.Parallel {
			offs[m.At] = !offs[m.At]
			actors[m.At].ValidateSchema = !offs[m.At]
			r.Label("switched between calls")
		}
		off := offs[m.At]
		if offs != [3]bool{} && offs != [3]bool{true, true, true} {
			r.Label("checking on for some actors")
		}
		params := pbt.MustDec(cl.Params)
		spec := MsgSpec{Kind: "request", ID: cl.ID, Method: fmt.Sprintf("m%d", cl.M), Params: cl.Params, Trace: cl.Trace}
		if cl.Notify {
			spec.Kind, spec.ID = "notify", pbt.ID{}
		}
		_, spec.List = params.([]any)
		mayRun, mustRun = true, true
		if m.S != nil && !off {
			list, isList := params.([]any)
			if !isList {
				list = []any{params}
			}
			b := check(*m.S, map[string]any{"params": list})
			mayRun = len(b.paths) == 0 || b.open
			mustRun = len(b.paths) == 0 && !b.open && isList
		}
		switch {
		case mayRun != mustRun:
			r.Label("open")
		case off && m.S != nil:
			r.Label("checking off")
		case m.S == nil:
			r.Label("no schema")
		case mustRun:
			r.Label("conforming %s at %d", spec.Kind, m.At)
			if len(m.S.Kids) > 0 {
				r.NonTrivial()
			}
		default:
			r.Label("refused %s at %d", spec.Kind, m.At)
			r.NonTrivial()
		}
		b := spec.build()
		parsed, perr := jlib.ParseBytes(pbt.Raw(spec.object()))
		if perr != nil {
			return mayRun, mustRun, fmt.Errorf("parse: %v", perr)
		}
		if i%2 == 0 {
			b = parsed
		}
		res, err := actors[0].Feed(jlibhttp.NewRPCRequest(context.Background(), b, jlibhttp.TransportHTTP, nil))
		where := func(format string, args ...any) error {
			return fmt.Errorf("call %d with params %s, schema %s: %w", i, cl.Params, pbt.Short(m.S), fmt.Errorf(format, args...))
		}
		if cl.Notify {
			if res != nil {
				return mayRun, mustRun, where("a notification is answered")
			}
			return mayRun, mustRun, nil
		}
		if res == nil || err != nil {
			return mayRun, mustRun, where("no reply, error %v", err)
		}
		if err := sameID(cl.ID.Value(), res.MustId()); err != nil || res.TraceId() != cl.Trace {
			return mayRun, mustRun, where("reply %v trace %q", err, res.TraceId())
		}
		done := res.IsResult() && res.MustResult() == "done"
		if !done && !(res.IsError() && res.MustError().Code == jlib.ErrInvalidSchema.Code) {
			return mayRun, mustRun, where("answered %s", jlib.MessageString(res))
		}
		if done && !mayRun || !done && mustRun {
			return mayRun, mustRun, where("answered %s", jlib.MessageString(res))
		}
		return mayRun, mustRun, nil
	}
	min, max := map[int]int{}, map[int]int{}
	if !c.Parallel {
		for i, cl := range c.Calls {
			may, must, err := one(i)
			if err != nil {
				return err
			}
			if may {
				max[cl.M]++
			}
			if must {
				min[cl.M]++
			}
			if n := ran[cl.M]; n < min[cl.M] || n > max[cl.M] {
				return fmt.Errorf("call %d with params %s, schema %s: the handler ran %d times so far, expected %d to %d", i, cl.Params, pbt.Short(c.Methods[cl.M].S), n, min[cl.M], max[cl.M])
			}
		}
		return nil
	}
	r.Label("parallel")
	errs := make([]error, len(c.Calls))
	var wg sync.WaitGroup
	for i, cl := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("call %d: Feed panics: %v", i, p)
				}
			}()
			for k := 0; k < 5; k++ {
				may, must, err := one(i)
				mu.Lock()
				if may {
					max[cl.M]++
				}
				if must {
					min[cl.M]++
				}
				mu.Unlock()
				if err != nil {
					errs[i] = err
					return
				}
			}
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return err
	}
	for m := range c.Methods {
		if n := ran[m]; n < min[m] || n > max[m] {
			return fmt.Errorf("method %d, schema %s: ran %d times, expected %d to %d", m, pbt.Short(c.Methods[m].S), n, min[m], max[m])
		}
	}
	return nil
}

func genC10(t *rapid.T) c10Case {
	c := c10Case{Parallel: pbt.Chance(t, 10, "parallel")}
	if pbt.Chance(t, 25, "off") {
		c.Off = pbt.Pick(t, "offs", [3]bool{true, true, true}, [3]bool{true, true, true}, [3]bool{true, false, false}, [3]bool{false, true, false}, [3]bool{false, false, true}, [3]bool{true, true, false}, [3]bool{false, true, true})
	}
	n := rapid.IntRange(1, 3).Draw(t, "methods")
	for i := 0; i < n; i++ {
		m := c10Method{Form: pbt.Pick(t, "form", "object", "json", "yaml", "built"), How: pbt.Pick(t, "how", "request", "on", "context", "typed", "typedrequest", "typedcontext"), At: pbt.Uniform(t, 3, "at")}
		if pbt.Chance(t, 90, "schema") {
			s := genSchK(t, "method", rapid.IntRange(1, 3).Draw(t, "depth"))
			m.S = &s
		}
		c.Methods = append(c.Methods, m)
	}
	for i, k := 0, rapid.IntRange(1, 5).Draw(t, "calls"); i < k; i++ {
		cl := c10Call{M: pbt.Uniform(t, n, "m"), Notify: pbt.Chance(t, 30, "notify"), ID: pbt.GenID(t, "id")}
		cl.Toggle = pbt.Chance(t, 5, "toggle")
		if pbt.Chance(t, 40, "trace") {
			cl.Trace = pbt.Str(t, "tr")
		}
		var p any
		if s := c.Methods[cl.M].S; s != nil {
			var l any = genPositions(t, *s, 4)
			if pbt.Chance(t, 25, "miss") {
				l = nearMiss(t, l)
			}
			p = l
		} else {
			p = pbt.List(t, 1, "p")
		}
		if _, ok := p.([]any); !ok || pbt.Chance(t, 4, "bare") {
			p = genBare(t)
		}
		cl.Params = pbt.Raw(p)
		c.Calls = append(c.Calls, cl)
	}
	return c
}

func TestC10(t *testing.T) {
	pbt.Check(t, "C10", pbt.Part[c10Case]{Name: "enforce", Quick: 20000, Gen: genC10, Run: c10Run})
}
