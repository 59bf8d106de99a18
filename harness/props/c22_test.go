package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c22Case struct {
	Fields []TF            `json:"fields"`
	Init   json.RawMessage `json:"init"`
	Params json.RawMessage `json:"params"`
}

func c22Gen(t *rapid.T) c22Case {
	n := pbt.Pick(t, "nf", 1, 2, 3, 4, 5, 0, 9)
	var fs []TF
	for i := 0; i < n; i++ {
		f := TF{Name: fmt.Sprintf("F%d", i), T: genTD(t, 2)}
		if pbt.Chance(t, 20, "unexported") {
			f.Name = fmt.Sprintf("u%d", i)
			f.T = TD{K: pbt.Pick(t, "uk", "int", "string")}
		} else if pbt.Chance(t, 50, "tag") {
			f.JSON = pbt.Pick(t, "tagkind", fmt.Sprintf("j%d", i), fmt.Sprintf("j%d", i), "-", ",omitempty", fmt.Sprintf("j%d,omitempty", i), "-,", fmt.Sprintf("F%d", n-1-i), "same")
		}
		fs = append(fs, f)
	}
	bad := pbt.Pick(t, "badness", 0, 0, 0, 10)
	var params, init []any
	for _, f := range fs {
		init = append(init, genConforming(t, f.T))
		if f.Name[0] == 'u' {
			continue
		}
		params = append(params, genFor(t, f.T, bad))
	}
	switch pbt.Weighted(t, "len", 50, 25, 25) {
	case 1:
		params = params[:rapid.IntRange(0, len(params)).Draw(t, "cut")]
	case 2:
		for i := rapid.IntRange(1, 3).Draw(t, "extra"); i > 0; i-- {
			params = append(params, pbt.JSON(t, 1, "x"))
		}
	}
	if params == nil {
		params = []any{}
	}
	return c22Case{Fields: fs, Init: pbt.Raw(init), Params: pbt.Raw(params)}
}

// fieldJSON is the JSON of a field's value, readable even when unexported.
func fieldJSON(v reflect.Value) (any, error) {
	if !v.CanInterface() {
		switch v.Kind() {
		case reflect.Int:
			return pbt.ToJSON(v.Int())
		case reflect.String:
			return pbt.ToJSON(v.String())
		}
	}
	return pbt.ToJSON(v.Interface())
}

func c22Run(r *pbt.Rec, c c22Case) error {
	typ := structOf(c.Fields)
	init, _ := pbt.MustDec(c.Init).([]any)
	params := pbt.MustDec(c.Params).([]any)
	ptr := reflect.New(typ)
	for i, f := range c.Fields {
		if f.Name[0] != 'u' {
			ptr.Elem().Field(i).Set(f.T.make(init[i]))
		}
	}
	before := make([]any, len(c.Fields))
	for i := range c.Fields {
		b, err := fieldJSON(ptr.Elem().Field(i))
		if err != nil {
			return err
		}
		before[i] = b
	}
	paramsCopy := pbt.Fresh(params)
	err := jlib.DecodeParams(params, ptr.Interface())
	if derr := pbt.Diff(paramsCopy, any(params)); derr != nil {
		return fmt.Errorf("params were changed: %w", derr)
	}
	o := oOK
	j := 0
	wants := make([]any, len(c.Fields))
	for i, f := range c.Fields {
		if f.Name[0] == 'u' || j >= len(params) {
			wants[i] = before[i]
			continue
		}
		fo, w := f.T.expect(params[j])
		if params[j] == nil {
			r.Label("null param")
		}
		j++
		o = worse(o, fo)
		wants[i] = w
	}
	if len(c.Fields) > 1 && len(params) > 0 {
		r.NonTrivial()
	}
	switch o {
	case oOpen:
		r.Label("open")
		return nil
	case oBad:
		r.Label("bad")
		if err == nil {
			return fmt.Errorf("a param of the wrong type is accepted: %s into %v", pbt.Short(params), typ)
		}
		return nil
	}
	r.Label("ok")
	if err != nil {
		return fmt.Errorf("DecodeParams(%s, %v): %v", pbt.Short(params), typ, err)
	}
	for i, f := range c.Fields {
		g, err := fieldJSON(ptr.Elem().Field(i))
		if err != nil {
			return err
		}
		if err := pbt.Diff(wants[i], g); err != nil {
			return fmt.Errorf("field %d %s %v: %w", i, f.Name, f.T.typ(), err)
		}
	}
	return nil
}

type c22Target struct {
	Kind   string          `json:"kind"`
	Params json.RawMessage `json:"params"`
}

func c22RunTarget(r *pbt.Rec, c c22Target) error {
	r.NonTrivial()
	r.Label("%s", c.Kind)
	type S struct{ A, B any }
	var target any
	i := 5
	switch c.Kind {
	case "nil":
	case "struct":
		target = S{}
	case "int":
		target = 5
	case "*int":
		target = &i
	case "map":
		target = map[string]any{}
	case "*map":
		target = &map[string]any{}
	case "**struct":
		s := &S{}
		target = &s
	case "nil *struct":
		target = (*S)(nil)
	case "string":
		target = "x"
	case "func":
		target = func() {}
	case "slice":
		target = []S{{}}
	case "*slice":
		target = &[]S{{}}
	}
	if err := jlib.DecodeParams(pbt.MustDec(c.Params).([]any), target); err == nil {
		return fmt.Errorf("a %s is accepted as target", c.Kind)
	}
	return nil
}

// ---- one value into a variable

type c22Value struct {
	T     TD              `json:"t"`
	Value json.RawMessage `json:"value"`
}

func c22RunValue(r *pbt.Rec, c c22Value) error {
	v := pbt.MustDec(c.Value)
	typ := c.T.typ()
	ptr := reflect.New(typ)
	before := pbt.Fresh(v)
	err := jlib.DecodeInterface(v, ptr.Interface())
	if derr := pbt.Diff(before, v); derr != nil {
		return fmt.Errorf("the value was changed: %w", derr)
	}
	o, want := c.T.expect(v)
	switch c.T.K {
	case "list", "map", "struct", "ptr":
		r.NonTrivial()
	}
	switch o {
	case oOpen:
		r.Label("open")
		return nil
	case oBad:
		r.Label("bad")
		if err == nil {
			return fmt.Errorf("%s is decoded into %v", pbt.Short(v), typ)
		}
		return nil
	}
	r.Label("ok")
	if err != nil {
		return fmt.Errorf("DecodeInterface(%s, %v): %v", pbt.Short(v), typ, err)
	}
	got, err := pbt.ToJSON(ptr.Elem().Interface())
	if err != nil {
		return err
	}
	if err := pbt.Diff(want, got); err != nil {
		return fmt.Errorf("%s in %v: %w", pbt.Short(v), typ, err)
	}
	return nil
}

func TestC22(t *testing.T) {
	pbt.Check(t, "C22",
		pbt.Part[c22Value]{Name: "value", Quick: 30000, Gen: func(t *rapid.T) c22Value {
			d := genTD(t, 3)
			return c22Value{T: d, Value: pbt.Raw(genFor(t, d, pbt.Pick(t, "badness", 0, 0, 0, 10)))}
		}, Run: c22RunValue},
		pbt.Part[c22Case]{Name: "fields", Quick: 60000, Gen: c22Gen, Run: c22Run},
		pbt.Part[c22Target]{Name: "targets", Quick: 4000, Gen: func(t *rapid.T) c22Target {
			n := rapid.IntRange(1, 3).Draw(t, "n")
			var ps []any
			for i := 0; i < n; i++ {
				ps = append(ps, pbt.JSON(t, 1, "p"))
			}
			return c22Target{Kind: pbt.Pick(t, "kind", "nil", "struct", "int", "*int", "map", "*map", "**struct", "nil *struct", "string", "func", "slice", "*slice"), Params: pbt.Raw(ps)}
		}, Run: c22RunTarget},
	)
}
