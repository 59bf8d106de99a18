package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"testing"

	"github.com/superisaac/jlib/schema"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c07Case struct {
	S    Sch               `json:"s"`
	Perm int               `json:"perm"`
	Docs []json.RawMessage `json:"docs,omitempty"`
}

// shuffled writes a value with its object members in a rotated order.
func shuffled(v any, rot int) []byte {
	switch x := v.(type) {
	case []any:
		out := []byte{'['}
		for i, e := range x {
			if i > 0 {
				out = append(out, ',')
			}
			out = append(out, shuffled(e, rot)...)
		}
		return append(out, ']')
	case map[string]any:
		ks := pbt.Keys(x)
		out := []byte{'{'}
		for i := range ks {
			k := ks[(i+rot)%len(ks)]
			if rot%2 == 1 {
				k = ks[(2*len(ks)-1-i-rot%len(ks))%len(ks)]
			}
			if i > 0 {
				out = append(out, ',')
			}
			out = append(out, pbt.Raw(k)...)
			out = append(out, ':')
			out = append(out, shuffled(x[k], rot)...)
		}
		return append(out, '}')
	}
	return pbt.Raw(v)
}

func equalBoth(a, b jlibschema.Schema, want bool) error {
	if a.Equal(b) != want || b.Equal(a) != want {
		return fmt.Errorf("Equal: %v one way, %v the other way, expected %v: %s / %s", a.Equal(b), b.Equal(a), want, jlibschema.SchemaToString(a), jlibschema.SchemaToString(b))
	}
	return nil
}

func c07Rebuild(r *pbt.Rec, c c07Case) error {
	r.Label("root %s", c.S.K)
	if len(c.S.Kids)+len(c.S.Props) > 0 || c.S.Min != nil || c.S.Max != nil || c.S.MinN != nil || c.S.MaxN != nil {
		r.NonTrivial()
	}
	b := jlibschema.NewSchemaBuilder()
	a1, err := b.BuildBytes(pbt.Raw(c.S.desc()))
	if err != nil {
		return fmt.Errorf("build: %v", err)
	}
	for _, orig := range []jlibschema.Schema{a1, c.S.direct()} {
		text := jlibschema.SchemaToString(orig)
		back, err := b.BuildBytes([]byte(text))
		if err != nil {
			return fmt.Errorf("rebuild from %s: %v", text, err)
		}
		if err := sameSchema(c.S, back); err != nil {
			return fmt.Errorf("rebuilt from %s: %w", text, err)
		}
		if err := equalBoth(orig, back, true); err != nil {
			return fmt.Errorf("rebuilt: %w", err)
		}
		if err := equalBoth(orig, orig, true); err != nil {
			return fmt.Errorf("itself: %w", err)
		}
		// the map form is the same description
		mb, err := json.Marshal(orig.Map())
		if err != nil {
			return fmt.Errorf("Map does not encode: %v", err)
		}
		again, err := b.BuildBytes(mb)
		if err != nil {
			return fmt.Errorf("rebuild from Map %s: %v", mb, err)
		}
		if err := equalBoth(orig, again, true); err != nil {
			return fmt.Errorf("rebuilt from Map: %w", err)
		}
		for _, d := range c.Docs {
			if err := schVerdict(check(c.S, pbt.MustDec(d)), jlibschema.NewSchemaValidator().ValidateBytes(back, d)); err != nil {
				return fmt.Errorf("rebuilt schema %s, document %s: %w", text, d, err)
			}
		}
	}
	if m, ok := c.S.direct().(*jlibschema.MethodSchema); ok && c.S.Ret == nil {
		// made without a schema of what it returns, which takes anything
		r.Label("method without returns")
		m.Returns = nil
		back, err := b.BuildBytes([]byte(jlibschema.SchemaToString(m)))
		if err != nil {
			return fmt.Errorf("rebuild from %s: %v", jlibschema.SchemaToString(m), err)
		}
		if err := sameSchema(c.S, back); err != nil {
			return fmt.Errorf("rebuilt from %s: %w", jlibschema.SchemaToString(m), err)
		}
		if err := equalBoth(m, m, true); err != nil {
			return fmt.Errorf("itself: %w", err)
		}
		for _, d := range c.Docs {
			if err := schVerdict(check(c.S, pbt.MustDec(d)), jlibschema.NewSchemaValidator().ValidateBytes(m, d)); err != nil {
				return fmt.Errorf("schema without returns %s, document %s: %w", jlibschema.SchemaToString(m), d, err)
			}
		}
	}
	other, err := b.BuildBytes(shuffled(c.S.desc(), c.Perm))
	if err != nil {
		return fmt.Errorf("build with other member order: %v", err)
	}
	if err := equalBoth(a1, other, true); err != nil {
		return fmt.Errorf("other member order: %w", err)
	}
	return nil
}

type c07Pair struct {
	A    Sch    `json:"a"`
	B    Sch    `json:"b"`
	Edit string `json:"edit"`
}

func c07Differ(r *pbt.Rec, c c07Pair) error {
	if pbt.DiffGo(c.A.norm(), c.B.norm()) == nil {
		r.Label("no difference")
		return nil
	}
	r.NonTrivial()
	r.Label("edit %s", c.Edit)
	b := jlibschema.NewSchemaBuilder()
	x, err := b.BuildBytes(pbt.Raw(c.A.desc()))
	if err != nil {
		return fmt.Errorf("build: %v", err)
	}
	y, err := b.BuildBytes(pbt.Raw(c.B.desc()))
	if err != nil {
		return fmt.Errorf("build: %v", err)
	}
	if err := equalBoth(x, y, false); err != nil {
		return err
	}
	return equalBoth(c.A.direct(), c.B.direct(), false)
}

func cloneSch(s Sch) Sch {
	b, _ := json.Marshal(s)
	var n Sch
	if err := json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	return n
}

// editSch changes exactly one thing somewhere in s.
func editSch(t *rapid.T, s *Sch) string {
	// go down?
	var subs []*Sch
	for i := range s.Kids {
		subs = append(subs, &s.Kids[i])
	}
	for i := range s.Props {
		subs = append(subs, &s.Props[i].S)
	}
	if s.Add != nil {
		subs = append(subs, s.Add)
	}
	if s.Ret != nil {
		subs = append(subs, s.Ret)
	}
	if len(subs) > 0 && pbt.Chance(t, 60, "down") {
		return editSch(t, subs[pbt.Uniform(t, len(subs), "sub")])
	}
	type edit struct {
		name string
		do   func()
	}
	es := []edit{
		{"name", func() { s.Name += pbt.Pick(t, "tail", "x", " ", "é") }},
		{"description", func() { s.Desc += pbt.Pick(t, "tail", "x", " ", "é") }},
		{"another schema", func() { *s = genSch(t, 1) }},
	}
	bound := func(name string, p **json.Number) {
		es = append(es, edit{s.K + " " + name, func() {
			if *p != nil && rapid.Bool().Draw(t, "drop") {
				*p = nil
				return
			}
			if *p != nil {
				if i, err := (*p).Int64(); err == nil && i < 1<<50 && i > -(1<<50) {
					n := json.Number(strconv.FormatInt(i+1, 10))
					*p = &n
					return
				}
			}
			*p = genBound(t, s.K == "integer")
		}})
	}
	flag := func(name string, p **bool) {
		es = append(es, edit{s.K + " " + name, func() {
			v := true
			if *p != nil {
				v = !**p
			}
			*p = &v
		}})
	}
	count := func(name string, p **int) {
		es = append(es, edit{s.K + " " + name, func() {
			switch {
			case *p == nil:
				*p = genCount(t)
			case rapid.Bool().Draw(t, "drop"):
				*p = nil
			default:
				v := **p + 1
				*p = &v
			}
		}})
	}
	kids := func() {
		es = append(es, edit{s.K + " more kids", func() { s.Kids = append(s.Kids, genSch(t, 0)) }})
		if len(s.Kids) > 0 {
			es = append(es, edit{s.K + " fewer kids", func() { s.Kids = s.Kids[:len(s.Kids)-1] }})
		}
		if len(s.Kids) > 1 {
			es = append(es, edit{s.K + " kids swapped", func() {
				i := rapid.IntRange(0, len(s.Kids)-2).Draw(t, "swap")
				s.Kids[i], s.Kids[i+1] = s.Kids[i+1], s.Kids[i]
			}})
		}
	}
	add := func() {
		es = append(es, edit{s.K + " additional", func() {
			if s.Add != nil {
				s.Add = nil
			} else {
				a := genSch(t, 0)
				s.Add = &a
			}
		}})
	}
	switch s.K {
	case "number", "integer":
		bound("minimum", &s.Min)
		bound("maximum", &s.Max)
		flag("exclusiveMinimum", &s.ExMin)
		flag("exclusiveMaximum", &s.ExMax)
	case "string":
		count("minLength", &s.MinN)
		count("maxLength", &s.MaxN)
	case "list":
		count("minItems", &s.MinN)
		count("maxItems", &s.MaxN)
		es = append(es, edit{"list to tuple", func() { s.K, s.MinN, s.MaxN = "tuple", nil, nil }})
	case "tuple":
		kids()
		add()
	case "anyOf", "allOf":
		kids()
		es = append(es, edit{"anyOf to allOf", func() {
			if s.K == "anyOf" {
				s.K = "allOf"
			} else {
				s.K = "anyOf"
			}
		}})
	case "method":
		kids()
		add()
		es = append(es, edit{"returns", func() {
			if s.Ret != nil {
				s.Ret = nil
			} else {
				a := genSch(t, 0)
				s.Ret = &a
			}
		}})
	case "object":
		add()
		es = append(es, edit{"more props", func() {
			n := genPropName(t)
			if s.prop(n) == nil {
				s.Props = append(s.Props, SchProp{n, genSch(t, 0)})
			}
		}})
		if len(s.Props) > 0 {
			i := pbt.Uniform(t, len(s.Props), "prop")
			es = append(es, edit{"requires", func() {
				n := s.Props[i].Name
				if s.required(n) {
					var l []string
					for _, x := range s.Req {
						if x != n {
							l = append(l, x)
						}
					}
					s.Req = l
				} else {
					s.Req = append(s.Req, n)
				}
			}}, edit{"prop renamed", func() {
				n := genPropName(t)
				if s.prop(n) == nil && !s.required(s.Props[i].Name) {
					s.Props[i].Name = n
				}
			}})
			if len(s.Props) > 1 && len(s.Req) > 0 {
				es = append(es, edit{"other required", func() {
					for _, p := range s.Props {
						if !s.required(p.Name) {
							s.Req[0] = p.Name
							return
						}
					}
				}})
			}
		}
	}
	special := es[3:]
	es = append(append(append(es, special...), special...), special...)
	e := es[pbt.Uniform(t, len(es), "edit")]
	e.do()
	return e.name
}

func TestC07(t *testing.T) {
	pbt.Check(t, "C07",
		pbt.Part[c07Case]{Name: "rebuild", Quick: 25000, Gen: func(t *rapid.T) c07Case {
			c := c07Case{S: genDepth(t), Perm: rapid.IntRange(0, 5).Draw(t, "perm")}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "docs"); i < n; i++ {
				c.Docs = append(c.Docs, genDocFor(t, c.S))
			}
			return c
		}, Run: c07Rebuild},
		pbt.Part[c07Pair]{Name: "differ", Quick: 40000, Gen: func(t *rapid.T) c07Pair {
			a := genDepth(t)
			b := cloneSch(a)
			e := editSch(t, &b)
			return c07Pair{a, b, e}
		}, Run: c07Differ})
}
