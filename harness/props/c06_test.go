package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"testing"

	"github.com/superisaac/jlib/schema"
	yaml "gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/pbt"
)

// ---- forms of one description

// yamlText writes a description as YAML, block or flow style; ok is false when
// the text would not mean the same in YAML.
func yamlText(desc any, flow bool) ([]byte, bool) {
	want := plainNumbers(desc)
	var text []byte
	if flow {
		text = pbt.Raw(desc)
	} else {
		b, err := yaml.Marshal(want)
		if err != nil {
			return nil, false
		}
		text = b
	}
	return text, yamlMeans(text, want)
}

// yamlMeans says whether a YAML parser reads the text as the value.
func yamlMeans(text []byte, want any) bool {
	var got any
	if err := yaml.Unmarshal(text, &got); err != nil {
		return false
	}
	return reflect.DeepEqual(want, got)
}

// plainNumbers turns JSON numbers into the Go values a YAML parser gives.
func plainNumbers(v any) any {
	switch x := v.(type) {
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return int(i)
		}
		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return u
		}
		f, _ := x.Float64()
		return f
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = plainNumbers(x[i])
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k := range x {
			m[k] = plainNumbers(x[k])
		}
		return m
	}
	return v
}

// mixedKeys turns the maps of every second level into maps with keys of any type.
func mixedKeys(v any, any0 bool) any {
	switch x := v.(type) {
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = mixedKeys(x[i], any0)
		}
		return l
	case map[string]any:
		if any0 {
			m := map[any]any{}
			for k := range x {
				m[k] = mixedKeys(x[k], false)
			}
			return m
		}
		m := map[string]any{}
		for k := range x {
			m[k] = mixedKeys(x[k], true)
		}
		return m
	}
	return v
}

// anyKeys turns every map into a map with keys of any type.
func anyKeys(v any) any {
	switch x := v.(type) {
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = anyKeys(x[i])
		}
		return l
	case map[string]any:
		m := map[any]any{}
		for k := range x {
			m[k] = anyKeys(x[k])
		}
		return m
	}
	return v
}

type c06Case struct {
	S     Sch               `json:"s"`
	Short string            `json:"short"` // which shorthand chances to take, cycled: "1"=take
	Perm  int               `json:"perm"`
	Docs  []json.RawMessage `json:"docs,omitempty"`
}

func (c c06Case) short() func(string) bool {
	i := 0
	return func(string) bool {
		if len(c.Short) == 0 {
			return false
		}
		i++
		return c.Short[(i-1)%len(c.Short)] == '1'
	}
}

// built builds one description in every form.
func buildForms(r *pbt.Rec, desc any, perm int, yield func(form string, s jlibschema.Schema, err error) error) error {
	try := func(form string, f func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error)) error {
		b := jlibschema.NewSchemaBuilder()
		s, err := f(b)
		return yield(form, s, err)
	}
	text := shuffled(desc, perm)
	if err := try("JSON "+string(text), func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error) { return b.BuildBytes(text) }); err != nil {
		return err
	}
	if err := try("decoded JSON", func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error) { return b.Build(pbt.Fresh(desc)) }); err != nil {
		return err
	}
	if err := try("Go values", func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error) { return b.Build(plainNumbers(desc)) }); err != nil {
		return err
	}
	if err := try("YAML values", func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error) {
		return b.BuildYamlInterface(anyKeys(plainNumbers(desc)))
	}); err != nil {
		return err
	}
	if err := try("YAML values with maps of two types", func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error) {
		return b.BuildYamlInterface(mixedKeys(plainNumbers(desc), perm%2 == 1))
	}); err != nil {
		return err
	}
	for _, flow := range []bool{false, true} {
		y, ok := yamlText(desc, flow)
		if !ok {
			r.Label("no such YAML")
			continue
		}
		r.Label("YAML flow=%v", flow)
		if err := try("YAML "+string(y), func(b *jlibschema.SchemaBuilder) (jlibschema.Schema, error) { return b.BuildYamlBytes(y) }); err != nil {
			return err
		}
	}
	return nil
}

func c06Forms(r *pbt.Rec, c c06Case) error {
	r.Label("root %s", c.S.K)
	if len(c.S.Kids)+len(c.S.Props) > 0 || c.S.Min != nil || c.S.Max != nil || c.S.MinN != nil || c.S.MaxN != nil {
		r.NonTrivial()
	}
	ref := c.S.direct()
	one := func(form string, s jlibschema.Schema, err error) error {
		if err != nil {
			return fmt.Errorf("%s: refused: %v", form, err)
		}
		if err := sameSchema(c.S, s); err != nil {
			return fmt.Errorf("%s: %w", form, err)
		}
		if err := equalBoth(ref, s, true); err != nil {
			return fmt.Errorf("%s: %w", form, err)
		}
		for _, d := range c.Docs {
			if err := schVerdict(check(c.S, pbt.MustDec(d)), jlibschema.NewSchemaValidator().ValidateBytes(s, d)); err != nil {
				return fmt.Errorf("%s: document %s: %w", form, d, err)
			}
		}
		return nil
	}
	if err := buildForms(r, any(c.S.desc()), c.Perm, one); err != nil {
		return fmt.Errorf("spelled out: %w", err)
	}
	if err := buildForms(r, c.S.node(c.short()), c.Perm, one); err != nil {
		return fmt.Errorf("shorthand: %w", err)
	}
	return nil
}

// ---- malformed descriptions

type c06Bad struct {
	Desc json.RawMessage `json:"desc"`
	// Keys: paths through the description at which a map gets a non-string key.
	Key  string          `json:"key,omitempty"` // int bool null float
	Path []string        `json:"path,omitempty"`
	Raw  json.RawMessage `json:"raw,omitempty"`
	What string          `json:"what"`
	Perm int             `json:"perm"`
}

func yamlKey(kind string) any {
	switch kind {
	case "int":
		return 1
	case "bool":
		return true
	case "null":
		return nil
	}
	return 1.5
}

// addKey puts a non-string key to the map at the path.
func addKey(v any, path []string, key any, all bool) any {
	conv := func(m map[any]any) any {
		if !all {
			s := map[string]any{}
			for k, e := range m {
				n, ok := k.(string)
				if !ok {
					return m
				}
				s[n] = e
			}
			return s
		}
		return m
	}
	switch x := v.(type) {
	case map[string]any:
		m := map[any]any{}
		for k, e := range x {
			if len(path) > 0 && k == path[0] {
				m[k] = addKey(e, path[1:], key, all)
			} else {
				m[k] = addKey(e, []string{"\x00none"}, key, all)
			}
		}
		if len(path) == 0 {
			m[key] = map[string]any{"type": "string"}
		}
		return conv(m)
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			if len(path) > 0 && path[0] == strconv.Itoa(i) {
				l[i] = addKey(e, path[1:], key, all)
			} else {
				l[i] = addKey(e, []string{"\x00none"}, key, all)
			}
		}
		return l
	}
	return v
}

func c06Refuse(r *pbt.Rec, c c06Bad) error {
	r.Label("%s", c.What)
	r.NonTrivial()
	desc := pbt.MustDec(c.Desc)
	if c.Key != "" {
		for _, all := range []bool{true, false} {
			bad := addKey(plainNumbers(desc), c.Path, yamlKey(c.Key), all)
			if _, err := jlibschema.NewSchemaBuilder().BuildYamlInterface(bad); err == nil {
				return fmt.Errorf("YAML values with a %s key at %q are accepted: %s", c.Key, c.Path, c.Desc)
			}
			text, err := yaml.Marshal(bad)
			if err != nil {
				continue
			}
			if s, err := jlibschema.NewSchemaBuilder().BuildYamlBytes(text); err == nil {
				return fmt.Errorf("YAML with a %s key is accepted as %s:\n%s", c.Key, jlibschema.SchemaToString(s), text)
			}
		}
		return nil
	}
	return buildForms(r, desc, c.Perm, func(form string, s jlibschema.Schema, err error) error {
		if err == nil {
			return fmt.Errorf("%s is accepted although %s: %s", form, c.What, jlibschema.SchemaToString(s))
		}
		return nil
	})
}

// node finds the schema nodes of a description.
type descNode struct {
	path []string
	s    Sch
	m    map[string]any
	set  func(any) // replace the node in its parent
	ret  bool      // a returns node
}

func descNodes(s Sch, v any, path []string, set func(any), ret bool, out *[]descNode) {
	m, ok := v.(map[string]any)
	if !ok {
		*out = append(*out, descNode{path: path, s: s, set: set, ret: ret})
		return
	}
	*out = append(*out, descNode{path, s, m, set, ret})
	at := func(ks ...string) []string { return append(append([]string{}, path...), ks...) }
	list := func(key string) {
		l := m[key].([]any)
		for i := range l {
			i := i
			descNodes(s.Kids[i], l[i], at(key, strconv.Itoa(i)), func(n any) { l[i] = n }, false, out)
		}
	}
	child := func(key string, c *Sch, ret bool) {
		if c != nil {
			descNodes(*c, m[key], at(key), func(n any) { m[key] = n }, ret, out)
		}
	}
	switch s.K {
	case "anyOf", "allOf":
		list(s.K)
	case "not":
		child("not", &s.Kids[0], false)
	case "list":
		child("items", &s.Kids[0], false)
	case "tuple":
		list("items")
		child("additionalItems", s.Add, false)
	case "object":
		if ps, ok := m["properties"].(map[string]any); ok {
			for i := range s.Props {
				n := s.Props[i].Name
				descNodes(s.Props[i].S, ps[n], at("properties", n), func(x any) { ps[n] = x }, false, out)
			}
		}
		child("additionalProperties", s.Add, false)
	case "method":
		list("params")
		child("additionalParams", s.Add, false)
		child("returns", s.Ret, true)
	}
}

func notSchema(t *rapid.T) any {
	return pbt.Pick[any](t, "notschema", json.Number("5"), nil, true, false, json.Number("1.5"), "", "strin", "String", "integer ", "float", "nosuch")
}

func genC06Bad(t *rapid.T) c06Bad {
	s := genDepth(t)
	shorts := genShort(t)
	c := c06Bad{Perm: rapid.IntRange(0, 5).Draw(t, "perm")}
	var desc any = s.node(c06Case{Short: shorts}.short())
	var nodes []descNode
	descNodes(s, desc, nil, func(n any) { desc = n }, false, &nodes)
	nd := nodes[pbt.Uniform(t, len(nodes), "node")]
	if pbt.Chance(t, 70, "inner") { // prefer nodes with a structure to damage
		var inner []descNode
		for _, n := range nodes {
			switch n.s.K {
			case "list", "tuple", "anyOf", "allOf", "not", "object", "method":
				if n.m != nil {
					inner = append(inner, n)
				}
			}
		}
		if len(inner) > 0 {
			nd = inner[pbt.Uniform(t, len(inner), "innernode")]
		}
	} else if pbt.Chance(t, 40, "returns") {
		for _, n := range nodes {
			if n.ret {
				nd = n
			}
		}
	}
	var opts []struct {
		what string
		do   func()
	}
	opt := func(what string, do func()) {
		opts = append(opts, struct {
			what string
			do   func()
		}{what, do})
	}
	m := nd.m
	opt("a child that is not a schema", func() { nd.set(notSchema(t)) })
	opt("an unknown type", func() {
		bad := pbt.Pick[any](t, "badtype", "nosuch", "", "", "", "Integer", "array", "boolean", "float", nil, json.Number("5"), true, []any{"string"}, []any{}, map[string]any{}, map[string]any{"type": "string"}, "tuple")
		if m == nil {
			nd.set(map[string]any{"type": bad})
			return
		}
		m["type"] = bad
	})
	if m == nil {
		if len(nd.path) == 0 {
			opts = opts[1:]
		}
	} else {
		key := func(k string) func() {
			return func() { delete(m, k); m["type"] = map[string]string{"tuple": "list"}[nd.s.K]; fixType(m, nd.s.K) }
		}
		bad := func(k string, vs ...any) func() {
			return func() { m[k] = vs[pbt.Uniform(t, len(vs), "bad")]; fixType(m, nd.s.K) }
		}
		five := any(json.Number("5"))
		opt("a name that is not a string", bad("name", five, nil, true, []any{}, []any{"n"}, map[string]any{}))
		opt("a description that is not a string", bad("description", five, nil, false, []any{}, map[string]any{"a": "b"}))
		switch nd.s.K {
		case "null", "bool", "number", "integer", "string", "list", "tuple", "any":
			if !nd.ret {
				opt("no type", func() { delete(m, "type") })
			}
		}
		general := len(opts)
		switch nd.s.K {
		case "list", "tuple":
			opt("no items", key("items"))
			opt("items that are no schema", bad("items", five, nil, "nosuch", true, []any{five}, []any{nil}, []any{"string", "nosuch"}, map[string]any{}))
			if nd.s.K == "tuple" {
				opt("additional items that are no schema", bad("additionalItems", five, nil, true, "nosuch", []any{}, map[string]any{}))
			}
		case "anyOf", "allOf":
			opt("no "+nd.s.K, key(nd.s.K))
			opt("choices that are no list of schemas", bad(nd.s.K, five, nil, "string", map[string]any{"type": "string"}, []any{five}, []any{nil}, []any{[]any{}}, []any{"string", "nosuch"}, []any{map[string]any{}}))
		case "not":
			opt("no not", key("not"))
			opt("not without a schema", bad("not", five, nil, "nosuch", []any{}, []any{"string"}, map[string]any{}, true))
		case "object":
			opt("properties that are no object", bad("properties", five, nil, "string", "x", []any{}, []any{"string"}, true))
			opt("a property that is no schema", func() {
				m["properties"] = map[string]any{genPropName(t): pbt.Pick[any](t, "badprop", five, nil, "nosuch", []any{}, map[string]any{}, true)}
				delete(m, "requires")
			})
			opt("a required property that is not declared", func() {
				rs, _ := m["requires"].([]any)
				name := genPropName(t)
				if nd.s.prop(name) != nil {
					name = "undeclared\x01"
				}
				at := rapid.IntRange(0, len(rs)).Draw(t, "at")
				m["requires"] = append(append(append([]any{}, rs[:at]...), name), rs[at:]...)
			})
			opt("requires that are no list of strings", bad("requires", five, nil, "a", []any{five}, []any{nil}, map[string]any{}, []any{[]any{}}, true))
			opt("additional properties that are no schema", bad("additionalProperties", five, nil, true, false, "nosuch", []any{}, map[string]any{}))
		case "method":
			opt("no params", key("params"))
			opt("params that are no list of schemas", bad("params", five, nil, "string", map[string]any{"type": "string"}, []any{five}, []any{nil}, []any{[]any{}}, []any{"string", "nosuch"}, []any{map[string]any{}}, true))
			opt("additional params that are no schema", bad("additionalParams", five, nil, true, "nosuch", []any{}, map[string]any{}))
			opt("returns that are no schema", bad("returns", five, nil, true, "nosuch", []any{}, []any{"string"}))
		}
		special := opts[general:]
		opts = append(append(append(opts, special...), special...), special...)
		// YAML keys
		for i := 0; i < 2; i++ {
			opt("a key that is not a string", func() {
				c.Key = pbt.Pick(t, "keykind", "int", "bool", "null", "float")
				c.Path = nd.path
				if nd.s.K == "object" && m["properties"] != nil && rapid.Bool().Draw(t, "inprops") {
					c.Path = append(append([]string{}, nd.path...), "properties")
				} else if pbt.Chance(t, 40, "instray") {
					// below a member that means nothing
					m["xstray"] = pbt.Pick[any](t, "stray", map[string]any{}, []any{map[string]any{}}, map[string]any{"0": []any{map[string]any{}}}, []any{[]any{map[string]any{}}})
					at := append(append([]string{}, nd.path...), "xstray")
					for v := m["xstray"]; ; {
						if l, ok := v.([]any); ok {
							v = l[0]
						} else if x, ok := v.(map[string]any)["0"]; ok {
							v = x
						} else {
							break
						}
						at = append(at, "0")
					}
					c.Path = at
				}
			})
		}
	}
	o := opts[pbt.Uniform(t, len(opts), "damage")]
	o.do()
	c.What = o.what
	c.Desc = pbt.Raw(desc)
	return c
}

func fixType(m map[string]any, k string) {
	if k == "tuple" {
		k = "list"
	}
	m["type"] = k
}

// ---- anything at all

type c06Any struct {
	Desc json.RawMessage `json:"desc,omitempty"`
	Text string          `json:"text,omitempty"`
	Perm int             `json:"perm"`
}

func c06Total(r *pbt.Rec, c c06Any) error {
	if c.Desc == nil {
		// bytes: only must not crash
		r.Label("bytes")
		for _, f := range []func([]byte) (jlibschema.Schema, error){jlibschema.NewSchemaBuilder().BuildBytes, jlibschema.NewSchemaBuilder().BuildYamlBytes} {
			s, err := f([]byte(c.Text))
			if (s == nil) == (err == nil) {
				return fmt.Errorf("%q gives schema %v and error %v", c.Text, s, err)
			}
			if s != nil {
				r.NonTrivial()
				r.Label("bytes accepted")
				jlibschema.SchemaToString(s)
			}
		}
		return nil
	}
	desc := pbt.MustDec(c.Desc)
	var first jlibschema.Schema
	n := 0
	return buildForms(r, desc, c.Perm, func(form string, s jlibschema.Schema, err error) error {
		if (s == nil) == (err == nil) {
			return fmt.Errorf("%s gives schema %v and error %v", form, s, err)
		}
		n++
		if n == 1 {
			first = s
			if s != nil {
				r.Label("accepted")
				r.NonTrivial()
				back, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(jlibschema.SchemaToString(s)))
				if err != nil {
					return fmt.Errorf("%s gives a schema that cannot be rebuilt: %v", form, err)
				}
				return equalBoth(s, back, true)
			}
			r.Label("refused")
			return nil
		}
		if (s == nil) != (first == nil) {
			return fmt.Errorf("accepted=%v from JSON but %v (%v) from %s: %s", first != nil, s != nil, err, form, c.Desc)
		}
		if s != nil {
			if err := equalBoth(first, s, true); err != nil {
				return fmt.Errorf("%s: %w", form, err)
			}
		}
		return nil
	})
}

var schKeys = []string{"type", "name", "description", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "items", "additionalItems", "minItems", "maxItems", "anyOf", "allOf", "not", "properties", "requires", "additionalProperties", "params", "additionalParams", "returns"}

func genLoose(t *rapid.T, depth int) any {
	switch pbt.Weighted(t, "loose", 55, 15, 15, 15) {
	case 0:
		m := map[string]any{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "keys"); i < n; i++ {
			k := pbt.Pick(t, "key", schKeys...)
			if k == "type" {
				m[k] = pbt.Pick[any](t, "type", "any", "null", "bool", "number", "integer", "string", "anyOf", "allOf", "not", "list", "object", "method", "x")
			} else if depth > 0 {
				m[k] = genLoose(t, depth-1)
			}
		}
		return m
	case 1:
		l := []any{}
		if depth > 0 {
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "len"); i < n; i++ {
				l = append(l, genLoose(t, depth-1))
			}
		}
		return l
	case 2:
		return pbt.Pick[any](t, "word", "string", "number", "integer", "bool", "null", "any", "a", "")
	}
	v := pbt.JSON(t, 1, "v")
	if n, ok := v.(json.Number); ok { // no infinities: JSON and YAML differ there
		if f, err := n.Float64(); err != nil || math.IsInf(f, 0) {
			return json.Number("7")
		}
	}
	return v
}

func genC06Any(t *rapid.T) c06Any {
	c := c06Any{Perm: rapid.IntRange(0, 5).Draw(t, "perm")}
	switch pbt.Weighted(t, "any", 40, 30, 30) {
	case 0:
		c.Desc = pbt.Raw(genLoose(t, 3))
	case 1:
		s := genSch(t, rapid.IntRange(0, 3).Draw(t, "depth"))
		var desc any = s.node(c06Case{Short: genShort(t)}.short())
		var nodes []descNode
		descNodes(s, desc, nil, func(n any) { desc = n }, false, &nodes)
		nodes[pbt.Uniform(t, len(nodes), "node")].set(genLoose(t, 2))
		c.Desc = pbt.Raw(desc)
	default:
		b := pbt.Raw(genSch(t, rapid.IntRange(0, 2).Draw(t, "depth")).desc())
		if rapid.Bool().Draw(t, "yaml") {
			if y, err := yaml.Marshal(plainNumbers(pbt.MustDec(b))); err == nil {
				b = y
			}
		}
		c.Text = string(b)
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "edits"); i < n; i++ {
			at := rapid.IntRange(0, len(c.Text)).Draw(t, "at")
			switch pbt.Weighted(t, "edit", 40, 30, 30) {
			case 0:
				c.Text = c.Text[:at] + pbt.Pick(t, "ins", "{", "}", "[", "]", "\"", ",", ":", " ", "\n", "- ", "&a ", "*a", "!!int ", "<<: ", "|", "? ", "\t", "1", "null", "~", "%", "#", "---\n", "\x00") + c.Text[at:]
			case 1:
				c.Text = c.Text[:at]
			default:
				c.Text = c.Text[at:]
			}
		}
	}
	return c
}

func genShort(t *rapid.T) string {
	return rapid.StringMatching("[01]{1,7}").Draw(t, "short")
}

func TestC06(t *testing.T) {
	pbt.Check(t, "C06",
		pbt.Part[c06Case]{Name: "forms", Quick: 16000, Gen: func(t *rapid.T) c06Case {
			c := c06Case{S: genDepth(t), Short: genShort(t), Perm: rapid.IntRange(0, 5).Draw(t, "perm")}
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "docs"); i < n; i++ {
				c.Docs = append(c.Docs, genDocFor(t, c.S))
			}
			return c
		}, Run: c06Forms},
		pbt.Part[c06Bad]{Name: "refuse", Quick: 24000, Gen: genC06Bad, Run: c06Refuse},
		pbt.Part[c06Any]{Name: "total", Quick: 24000, Gen: genC06Any, Run: c06Total})
}
