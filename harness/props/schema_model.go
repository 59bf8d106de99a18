package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"

	"github.com/superisaac/jlib/schema"
	"pgregory.net/rapid"

	"verif/pbt"
)

// Sch is the harness's own description of a schema: the reference validator works
// on it, and it is rendered to JSON, YAML, shorthand and the library's structs.
type Sch struct {
	K     string       `json:"k"` // any null bool number integer string anyOf allOf not list tuple object method
	Name  string       `json:"name,omitempty"`
	Desc  string       `json:"desc,omitempty"`
	Min   *json.Number `json:"min,omitempty"`
	Max   *json.Number `json:"max,omitempty"`
	ExMin *bool        `json:"exMin,omitempty"`
	ExMax *bool        `json:"exMax,omitempty"`
	MinN  *int         `json:"minN,omitempty"`
	MaxN  *int         `json:"maxN,omitempty"`
	Kids  []Sch        `json:"kids,omitempty"` // choices, tuple items, params; one for not and list
	Add   *Sch         `json:"add,omitempty"`
	Ret   *Sch         `json:"ret,omitempty"`
	Props []SchProp    `json:"props,omitempty"`
	Req   []string     `json:"req,omitempty"`
}

// SchProp is one property of an object.
type SchProp struct {
	Name string `json:"name"`
	S    Sch    `json:"s"`
}

func (s Sch) prop(name string) *Sch {
	for i := range s.Props {
		if s.Props[i].Name == name {
			return &s.Props[i].S
		}
	}
	return nil
}

func (s Sch) required(name string) bool {
	for _, r := range s.Req {
		if r == name {
			return true
		}
	}
	return false
}

// ---- reference validator

type broken struct {
	paths map[string]bool // every place where a rule is broken
	open  bool            // the verdict hangs on something the property leaves open
}

func (b *broken) at(path string) { b.paths[path] = true }

func check(s Sch, v any) *broken {
	b := &broken{paths: map[string]bool{}}
	s.check(b, "", v)
	return b
}

func (s Sch) sub(b *broken, path string, v any) *broken {
	n := &broken{paths: map[string]bool{}}
	s.check(n, path, v)
	b.open = b.open || n.open
	return n
}

func (s Sch) check(b *broken, path string, v any) {
	switch s.K {
	case "any":
	case "null":
		if v != nil {
			b.at(path)
		}
	case "bool":
		if _, ok := v.(bool); !ok {
			b.at(path)
		}
	case "number":
		n, ok := v.(json.Number)
		if !ok {
			b.at(path)
			return
		}
		r, _ := new(big.Rat).SetString(string(n))
		f, _ := n.Float64()
		exact := s.outOfRange(func(bound json.Number) int {
			x, _ := new(big.Rat).SetString(string(bound))
			return r.Cmp(x)
		})
		rounded := s.outOfRange(func(bound json.Number) int {
			x, _ := bound.Float64()
			if f < x {
				return -1
			} else if f > x {
				return 1
			}
			return 0
		})
		if exact != rounded {
			b.open = true // differs from the bound beyond float precision
		} else if exact {
			b.at(path)
		}
	case "integer":
		n, ok := v.(json.Number)
		if !ok {
			b.at(path)
			return
		}
		i, err := strconv.ParseInt(string(n), 10, 64)
		if err != nil {
			r, _ := new(big.Rat).SetString(string(n))
			if r.IsInt() {
				b.open = true // 1.0, 1e3 or beyond 64 bits
			} else {
				b.at(path)
			}
			return
		}
		if s.outOfRange(func(bound json.Number) int {
			x, _ := bound.Int64()
			if i < x {
				return -1
			} else if i > x {
				return 1
			}
			return 0
		}) {
			b.at(path)
		}
	case "string":
		x, ok := v.(string)
		if !ok || (s.MinN != nil && len(x) < *s.MinN) || (s.MaxN != nil && len(x) > *s.MaxN) {
			b.at(path)
		}
	case "anyOf":
		for _, k := range s.Kids {
			if len(k.sub(b, path, v).paths) == 0 {
				return
			}
		}
		b.at(path)
	case "allOf":
		for _, k := range s.Kids {
			k.check(b, path, v)
		}
	case "not":
		if len(s.Kids[0].sub(b, path, v).paths) == 0 {
			b.at(path)
		}
	case "list":
		l, ok := v.([]any)
		if !ok {
			b.at(path)
			return
		}
		if (s.MinN != nil && len(l) < *s.MinN) || (s.MaxN != nil && len(l) > *s.MaxN) {
			b.at(path)
		}
		for i, e := range l {
			s.Kids[0].check(b, fmt.Sprintf("%s[%d]", path, i), e)
		}
	case "tuple":
		l, ok := v.([]any)
		if !ok {
			b.at(path)
			return
		}
		s.positions(b, path, l)
	case "object":
		m, ok := v.(map[string]any)
		if !ok {
			b.at(path)
			return
		}
		for _, p := range s.Props {
			if pv, ok := m[p.Name]; ok {
				p.S.check(b, path+"."+p.Name, pv)
			} else if s.required(p.Name) {
				b.at(path + "." + p.Name)
				b.at(path)
			}
		}
		if s.Add != nil {
			for k, pv := range m {
				if s.prop(k) == nil {
					s.Add.check(b, path+"."+k, pv)
				}
			}
		}
	case "method":
		m, ok := v.(map[string]any)
		if !ok {
			b.at(path)
			return
		}
		params, hasParams := m["params"]
		result, hasResult := m["result"]
		if hasParams && hasResult {
			b.open = true // neither a call nor a reply
		}
		if l, ok := params.([]any); ok {
			s.positions(b, path+".params", l)
		} else if hasResult {
			if s.Ret != nil {
				s.Ret.check(b, path+".result", result)
			}
		} else {
			b.at(path)
		}
	default:
		panic("bad kind " + s.K)
	}
}

func (s Sch) positions(b *broken, path string, l []any) {
	if len(l) < len(s.Kids) || (len(l) > len(s.Kids) && s.Add == nil) {
		b.at(path)
	}
	for i, e := range l {
		p := fmt.Sprintf("%s[%d]", path, i)
		if i < len(s.Kids) {
			s.Kids[i].check(b, p, e)
		} else if s.Add != nil {
			s.Add.check(b, p, e)
		}
	}
}

// cmp says how the value compares to a bound.
func (s Sch) outOfRange(cmp func(bound json.Number) int) bool {
	if s.Max != nil {
		if c := cmp(*s.Max); c > 0 || (c == 0 && s.ExMax != nil && *s.ExMax) {
			return true
		}
	}
	if s.Min != nil {
		if c := cmp(*s.Min); c < 0 || (c == 0 && s.ExMin != nil && *s.ExMin) {
			return true
		}
	}
	return false
}

// ---- rendering

// desc is the spelled out description.
func (s Sch) desc() map[string]any { return s.render(func(string) bool { return false }) }

// render gives a description; short is asked whether to use a shorthand here.
func (s Sch) render(short func(what string) bool) map[string]any {
	m := map[string]any{"type": s.K}
	if s.Name != "" {
		m["name"] = s.Name
	}
	if s.Desc != "" {
		m["description"] = s.Desc
	}
	num := func(k string, n *json.Number) {
		if n != nil {
			m[k] = *n
		}
	}
	flag := func(k string, b *bool) {
		if b != nil {
			m[k] = *b
		}
	}
	cnt := func(k string, n *int) {
		if n != nil {
			m[k] = json.Number(strconv.Itoa(*n))
		}
	}
	kids := func() []any {
		l := []any{}
		for _, k := range s.Kids {
			l = append(l, k.node(short))
		}
		return l
	}
	noType := func() {
		if short("type") {
			delete(m, "type")
		}
	}
	switch s.K {
	case "number", "integer":
		num("minimum", s.Min)
		num("maximum", s.Max)
		flag("exclusiveMinimum", s.ExMin)
		flag("exclusiveMaximum", s.ExMax)
	case "string":
		cnt("minLength", s.MinN)
		cnt("maxLength", s.MaxN)
	case "anyOf", "allOf":
		m[s.K] = kids()
		noType()
	case "not":
		m["not"] = s.Kids[0].node(short)
		noType()
	case "list":
		m["items"] = s.Kids[0].node(short)
		cnt("minItems", s.MinN)
		cnt("maxItems", s.MaxN)
	case "tuple":
		m["type"] = "list"
		m["items"] = kids()
		if s.Add != nil {
			m["additionalItems"] = s.Add.node(short)
		}
	case "object":
		ps := map[string]any{}
		for _, p := range s.Props {
			ps[p.Name] = p.S.node(short)
		}
		if len(ps) > 0 || !short("noprops") {
			m["properties"] = ps
			noType()
		}
		rs := []any{}
		for _, r := range s.Req {
			rs = append(rs, r)
		}
		if len(rs) > 0 && short("required twice") {
			rs = append(rs, rs[0])
		}
		if len(rs) > 0 || !short("noreq") {
			m["requires"] = rs
		}
		if s.Add != nil {
			m["additionalProperties"] = s.Add.node(short)
		}
	case "method":
		m["params"] = kids()
		if s.Add != nil {
			m["additionalParams"] = s.Add.node(short)
		}
		if s.Ret != nil {
			r := s.Ret.node(short)
			if rm, ok := r.(map[string]any); ok && s.Ret.K == "any" && short("returns any") {
				delete(rm, "type")
			}
			m["returns"] = r
		}
		noType()
	}
	return m
}

func (s Sch) node(short func(string) bool) any {
	m := s.render(short)
	if len(m) == 1 {
		switch s.K {
		case "string", "number", "integer", "bool", "null":
			if short("word") {
				return s.K
			}
		}
	}
	return m
}

// norm is the schema as the library should hold it.
func (s Sch) norm() Sch {
	n := s
	n.Kids, n.Props, n.Req = nil, nil, nil
	for _, k := range s.Kids {
		n.Kids = append(n.Kids, k.norm())
	}
	for _, p := range s.Props {
		n.Props = append(n.Props, SchProp{p.Name, p.S.norm()})
	}
	sort.Slice(n.Props, func(i, j int) bool { return n.Props[i].Name < n.Props[j].Name })
	seen := map[string]bool{}
	for _, r := range s.Req {
		if !seen[r] {
			seen[r] = true
			n.Req = append(n.Req, r)
		}
	}
	sort.Strings(n.Req)
	if s.Add != nil {
		a := s.Add.norm()
		n.Add = &a
	}
	if s.Ret != nil {
		a := s.Ret.norm()
		n.Ret = &a
	} else if s.K == "method" {
		n.Ret = &Sch{K: "any"}
	}
	fl := func(x *json.Number) *json.Number {
		if x == nil || s.K != "number" {
			return x
		}
		f, _ := x.Float64()
		b, _ := json.Marshal(f)
		y := json.Number(b)
		return &y
	}
	n.Min, n.Max = fl(s.Min), fl(s.Max)
	return n
}

// direct builds the library's structs without its builder.
func (s Sch) direct() jlibschema.Schema {
	var out jlibschema.Schema
	kids := func() []jlibschema.Schema {
		l := make([]jlibschema.Schema, 0)
		for _, k := range s.Kids {
			l = append(l, k.direct())
		}
		return l
	}
	f := func(n *json.Number) *float64 {
		if n == nil {
			return nil
		}
		v, _ := n.Float64()
		return &v
	}
	i := func(n *json.Number) *int64 {
		if n == nil {
			return nil
		}
		v, _ := n.Int64()
		return &v
	}
	switch s.K {
	case "any":
		out = &jlibschema.AnySchema{}
	case "null":
		out = &jlibschema.NullSchema{}
	case "bool":
		out = &jlibschema.BoolSchema{}
	case "number":
		out = &jlibschema.NumberSchema{Minimum: f(s.Min), Maximum: f(s.Max), ExclusiveMinimum: s.ExMin, ExclusiveMaximum: s.ExMax}
	case "integer":
		out = &jlibschema.IntegerSchema{Minimum: i(s.Min), Maximum: i(s.Max), ExclusiveMinimum: s.ExMin, ExclusiveMaximum: s.ExMax}
	case "string":
		out = &jlibschema.StringSchema{MinLength: s.MinN, MaxLength: s.MaxN}
	case "anyOf":
		out = &jlibschema.AnyOfSchema{Choices: kids()}
	case "allOf":
		out = &jlibschema.AllOfSchema{Choices: kids()}
	case "not":
		out = &jlibschema.NotSchema{Child: s.Kids[0].direct()}
	case "list":
		out = &jlibschema.ListSchema{Item: s.Kids[0].direct(), MinItems: s.MinN, MaxItems: s.MaxN}
	case "tuple":
		t := &jlibschema.TupleSchema{Children: kids()}
		if s.Add != nil {
			t.AdditionalSchema = s.Add.direct()
		}
		out = t
	case "object":
		o := jlibschema.NewObjectSchema()
		for _, p := range s.Props {
			o.Properties[p.Name] = p.S.direct()
		}
		for _, r := range s.Req {
			o.Requires[r] = true
		}
		if s.Add != nil {
			o.AdditionalProperties = s.Add.direct()
		}
		out = o
	case "method":
		m := &jlibschema.MethodSchema{Params: kids()}
		if s.Add != nil {
			m.AdditionalSchema = s.Add.direct()
		}
		if s.Ret != nil {
			m.Returns = s.Ret.direct()
		} else {
			m.Returns = &jlibschema.AnySchema{}
		}
		out = m
	}
	out.SetName(s.Name)
	out.SetDescription(s.Desc)
	return out
}

// readBack reads a library schema into a normalised Sch, without its Equal or Map.
func readBack(x jlibschema.Schema) (Sch, error) {
	if x == nil {
		return Sch{}, fmt.Errorf("nil schema")
	}
	s := Sch{Name: x.GetName(), Desc: x.GetDescription()}
	var err error
	sub := func(y jlibschema.Schema) *Sch {
		if y == nil {
			return nil
		}
		r, e := readBack(y)
		if e != nil {
			err = e
		}
		return &r
	}
	kids := func(l []jlibschema.Schema) {
		for _, y := range l {
			if k := sub(y); k != nil {
				s.Kids = append(s.Kids, *k)
			}
		}
	}
	f := func(v *float64) *json.Number {
		if v == nil {
			return nil
		}
		b, _ := json.Marshal(*v)
		n := json.Number(b)
		return &n
	}
	i := func(v *int64) *json.Number {
		if v == nil {
			return nil
		}
		n := json.Number(strconv.FormatInt(*v, 10))
		return &n
	}
	typ := ""
	switch y := x.(type) {
	case *jlibschema.AnySchema:
		s.K = "any"
	case *jlibschema.NullSchema:
		s.K = "null"
	case *jlibschema.BoolSchema:
		s.K = "bool"
	case *jlibschema.NumberSchema:
		s.K, s.Min, s.Max, s.ExMin, s.ExMax = "number", f(y.Minimum), f(y.Maximum), y.ExclusiveMinimum, y.ExclusiveMaximum
	case *jlibschema.IntegerSchema:
		s.K, s.Min, s.Max, s.ExMin, s.ExMax = "integer", i(y.Minimum), i(y.Maximum), y.ExclusiveMinimum, y.ExclusiveMaximum
	case *jlibschema.StringSchema:
		s.K, s.MinN, s.MaxN = "string", y.MinLength, y.MaxLength
	case *jlibschema.AnyOfSchema:
		s.K = "anyOf"
		kids(y.Choices)
	case *jlibschema.AllOfSchema:
		s.K = "allOf"
		kids(y.Choices)
	case *jlibschema.NotSchema:
		s.K = "not"
		kids([]jlibschema.Schema{y.Child})
	case *jlibschema.ListSchema:
		s.K, s.MinN, s.MaxN = "list", y.MinItems, y.MaxItems
		kids([]jlibschema.Schema{y.Item})
	case *jlibschema.TupleSchema:
		s.K, typ = "tuple", "list"
		kids(y.Children)
		s.Add = sub(y.AdditionalSchema)
	case *jlibschema.ObjectSchema:
		s.K = "object"
		for _, k := range pbt.Keys(y.Properties) {
			if c := sub(y.Properties[k]); c != nil {
				s.Props = append(s.Props, SchProp{k, *c})
			}
		}
		for _, k := range pbt.Keys(y.Requires) {
			if y.Requires[k] {
				s.Req = append(s.Req, k)
			}
		}
		s.Add = sub(y.AdditionalProperties)
	case *jlibschema.MethodSchema:
		s.K = "method"
		kids(y.Params)
		s.Add = sub(y.AdditionalSchema)
		s.Ret = sub(y.Returns)
	default:
		return s, fmt.Errorf("unknown schema type %T", x)
	}
	if typ == "" {
		typ = s.K
	}
	if err == nil && x.Type() != typ {
		err = fmt.Errorf("a %s schema says its type is %q", s.K, x.Type())
	}
	return s.norm(), err
}

// same compares a library schema with the model.
func sameSchema(want Sch, got jlibschema.Schema) error {
	g, err := readBack(got)
	if err != nil {
		return err
	}
	return pbt.DiffGo(want.norm(), g)
}

// ---- generators

func genSch(t *rapid.T, depth int) Sch {
	w := []int{8, 6, 8, 18, 18, 18, 10, 8, 8, 14, 14, 20, 5}
	ks := []string{"any", "null", "bool", "number", "integer", "string", "anyOf", "allOf", "not", "list", "tuple", "object", "method"}
	if depth <= 0 {
		for i := 6; i < len(w); i++ {
			w[i] = 0
		}
	}
	return genSchK(t, ks[pbt.Weighted(t, "kind", w...)], depth)
}

func genBound(t *rapid.T, integer bool) *json.Number {
	var n json.Number
	if integer {
		n = json.Number(strconv.FormatInt(pbt.Int64(t, "bound"), 10))
	} else {
		switch pbt.Weighted(t, "boundkind", 40, 25, 20, 15) {
		case 0:
			n = json.Number(strconv.Itoa(rapid.IntRange(-20, 20).Draw(t, "bound")))
		case 1:
			n = json.Number(strconv.FormatFloat(float64(rapid.IntRange(-200, 200).Draw(t, "bound"))/8, 'f', -1, 64))
		case 2:
			n = json.Number(strconv.FormatInt(pbt.Int64(t, "bound"), 10))
		default:
			n = json.Number(pbt.Pick(t, "bound", "1e2", "1E+3", "-2.5e-3", "0.1", "1e300", "-1e300", "9007199254740993", "18446744073709551615", "9223372036854775808", "-9223372036854775809", "1e18", "1.0", "0.0"))
		}
	}
	return &n
}

func genBool(t *rapid.T, label string) *bool {
	b := rapid.Bool().Draw(t, label)
	return &b
}

func genCount(t *rapid.T) *int {
	n := pbt.Pick(t, "count", 0, 1, 2, 3, 5, 10, rapid.IntRange(0, 40).Draw(t, "countv"))
	if pbt.Chance(t, 3, "bigcount") {
		n = pbt.Size(t, 300, 600, "bigcountv")
	}
	return &n
}

// genMany draws a number of items that is large now and then.
func genMany(t *rapid.T, n, pct int) int {
	if pbt.Chance(t, pct, "many") {
		return pbt.Size(t, 150, 600, "manyv")
	}
	return n
}

var propNames = []string{"a", "b", "id", "name", "type", "items", "properties", "requires", "params", "returns", "anyOf", "allOf", "not", "description", "additionalProperties", "method", "minimum", "maxLength", "A", "", " ", ".", "a.b", "[0]", "é", "x-y", "0", "1", "true", "null", "~", "\"q\"", "日本"}

func genPropName(t *rapid.T) string {
	if pbt.Chance(t, 70, "propname") {
		return pbt.Pick(t, "prop", propNames...)
	}
	return pbt.Str(t, "prop")
}

func genSchK(t *rapid.T, k string, depth int) Sch {
	s := Sch{K: k}
	if pbt.Chance(t, 12, "named") {
		s.Name = pbt.Str(t, "schname")
	}
	if pbt.Chance(t, 10, "described") {
		s.Desc = pbt.Str(t, "schdesc")
	}
	kids := func(lo int) {
		n := rapid.IntRange(lo, 4).Draw(t, "kids")
		for i := 0; i < n; i++ {
			s.Kids = append(s.Kids, genSch(t, depth-1))
		}
	}
	add := func(pct int) {
		if pbt.Chance(t, pct, "add") {
			a := genSch(t, depth-1)
			s.Add = &a
		}
	}
	switch k {
	case "number", "integer":
		in := k == "integer"
		if pbt.Chance(t, 55, "min") {
			s.Min = genBound(t, in)
		}
		if pbt.Chance(t, 55, "max") {
			s.Max = genBound(t, in)
			if s.Min != nil {
				switch pbt.Weighted(t, "near", 50, 25, 25) {
				case 1: // one value only
					*s.Max = *s.Min
				case 2: // a small range above the minimum
					if i, err := s.Min.Int64(); err == nil && i < 1<<62 {
						*s.Max = json.Number(strconv.FormatInt(i+int64(rapid.IntRange(0, 4).Draw(t, "width")), 10))
					}
				}
			}
		}
		if pbt.Chance(t, 35, "exmin") {
			s.ExMin = genBool(t, "exminv")
		}
		if pbt.Chance(t, 35, "exmax") {
			s.ExMax = genBool(t, "exmaxv")
		}
	case "string":
		if pbt.Chance(t, 50, "minlen") {
			s.MinN = genCount(t)
		}
		if pbt.Chance(t, 50, "maxlen") {
			s.MaxN = genCount(t)
		}
	case "anyOf", "allOf":
		if pbt.Chance(t, 50, "alike") {
			kk := pbt.Pick(t, "alikekind", "integer", "number", "string", "object", "list")
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "kids"); i < n; i++ {
				s.Kids = append(s.Kids, genSchK(t, kk, depth-1))
			}
		} else {
			kids(0)
		}
	case "not":
		s.Kids = []Sch{genSch(t, depth-1)}
	case "list":
		s.Kids = []Sch{genSch(t, depth-1)}
		if pbt.Chance(t, 40, "minitems") {
			s.MinN = genCount(t)
		}
		if pbt.Chance(t, 40, "maxitems") {
			s.MaxN = genCount(t)
		}
	case "tuple":
		kids(0)
		add(45)
	case "object":
		if depth < 0 {
			break
		}
		n := rapid.IntRange(0, 5).Draw(t, "props")
		for i := 0; i < n; i++ {
			name := genPropName(t)
			if s.prop(name) == nil {
				s.Props = append(s.Props, SchProp{name, genSch(t, depth-1)})
				if pbt.Chance(t, 45, "req") {
					s.Req = append(s.Req, name)
				}
			}
		}
		add(40)
	case "method":
		kids(0)
		add(35)
		if pbt.Chance(t, 60, "ret") {
			r := genSch(t, depth-1)
			s.Ret = &r
		}
	}
	return s
}

// genDoc draws a document near the schema: mostly conforming or one step away.
func genDoc(t *rapid.T, s Sch, depth int) any {
	if pbt.Chance(t, 4, "wild") {
		return pbt.JSON(t, 1, "wildv")
	}
	switch s.K {
	case "null":
		return nil
	case "bool":
		return rapid.Bool().Draw(t, "b")
	case "number", "integer":
		var near *json.Number
		if s.Min != nil && (s.Max == nil || rapid.Bool().Draw(t, "which")) {
			near = s.Min
		} else {
			near = s.Max
		}
		if near == nil || pbt.Chance(t, 25, "free") {
			if s.K == "integer" && pbt.Chance(t, 80, "int") {
				return json.Number(strconv.FormatInt(pbt.Int64(t, "i"), 10))
			}
			return pbt.NumLit(t, "n")
		}
		d := pbt.Pick(t, "delta", 0, 1, -1, 2, -2)
		if i, err := near.Int64(); err == nil && i < 1<<62 && i > -(1<<62) {
			if pbt.Chance(t, 15, "half") {
				return json.Number(fmt.Sprintf("%d.5", i+int64(d)))
			}
			return json.Number(strconv.FormatInt(i+int64(d), 10))
		}
		r, _ := new(big.Rat).SetString(string(*near))
		if d == 0 {
			return *near
		}
		f, _ := r.Add(r, big.NewRat(int64(d), 8)).Float64()
		b, _ := json.Marshal(f)
		return json.Number(b)
	case "string":
		n := rapid.IntRange(0, 6).Draw(t, "len")
		if s.MinN != nil && (s.MaxN == nil || rapid.Bool().Draw(t, "which")) {
			n = *s.MinN + pbt.Pick(t, "delta", 0, 1, -1)
		} else if s.MaxN != nil {
			n = *s.MaxN + pbt.Pick(t, "delta", 0, -1, 1)
		}
		str := ""
		for len(str) < n {
			str += pbt.Pick(t, "c", "a", "b", "é", "日", "\"", "\n", "\U0001f600", "<")
		}
		return str
	case "anyOf", "allOf":
		if len(s.Kids) > 0 {
			return genDoc(t, s.Kids[pbt.Uniform(t, len(s.Kids), "choice")], depth)
		}
	case "not":
		if pbt.Chance(t, 40, "inner") {
			return genDoc(t, s.Kids[0], depth)
		}
	case "list":
		n := rapid.IntRange(0, 3).Draw(t, "len")
		if s.MinN != nil && (s.MaxN == nil || rapid.Bool().Draw(t, "which")) {
			n = *s.MinN + pbt.Pick(t, "delta", 0, 1, -1)
		} else if s.MaxN != nil {
			n = *s.MaxN + pbt.Pick(t, "delta", 0, -1, 1)
		}
		if depth > 50 {
			n = genMany(t, n, 5)
		}
		l := []any{}
		var prev any
		for i := 0; i < n; i++ {
			if i < 4 || i == n-1 && pbt.Chance(t, 60, "last") {
				prev = genDoc(t, s.Kids[0], depth-1)
			}
			l = append(l, pbt.Fresh(prev))
		}
		if n > 20 && pbt.Chance(t, 50, "late") {
			i := n - 1 - pbt.Uniform(t, n/2, "lateat")
			l[i] = nearMiss(t, l[i])
		}
		return l
	case "tuple":
		return genPositions(t, s, depth)
	case "object":
		m := map[string]any{}
		for _, p := range s.Props {
			has := 60
			if s.required(p.Name) {
				has = 93
			}
			if pbt.Chance(t, has, "has") {
				m[p.Name] = genDoc(t, p.S, depth-1)
			}
		}
		if pbt.Chance(t, 40, "extra") {
			for i, n := 0, rapid.IntRange(1, 2).Draw(t, "extras"); i < n; i++ {
				name := genPropName(t)
				if s.prop(name) == nil {
					if s.Add != nil {
						m[name] = genDoc(t, *s.Add, depth-1)
					} else {
						m[name] = pbt.JSON(t, 1, "extrav")
					}
				}
			}
			if depth > 50 {
				var prev any
				n := genMany(t, 0, 5)
				for i := 0; i < n; i++ {
					if i < 3 || i == n-1 {
						prev = pbt.JSON(t, 1, "extrav")
						if s.Add != nil {
							prev = genDoc(t, *s.Add, depth-1)
						}
					}
					if name := fmt.Sprintf("k%d", i); s.prop(name) == nil {
						m[name] = pbt.Fresh(prev)
					}
				}
			}
		}
		return m
	case "method":
		if rapid.Bool().Draw(t, "reply") {
			var v any
			if s.Ret != nil {
				v = genDoc(t, *s.Ret, depth-1)
			} else {
				v = pbt.JSON(t, 1, "result")
			}
			return map[string]any{"result": v}
		}
		return map[string]any{"params": genPositions(t, s, depth), "method": "m"}
	}
	return pbt.JSON(t, min(depth, 2), "free")
}

func genPositions(t *rapid.T, s Sch, depth int) []any {
	n := len(s.Kids)
	switch pbt.Weighted(t, "size", 50, 10, 40) {
	case 1:
		n = max(0, n-1)
	case 2:
		n += rapid.IntRange(0, 3).Draw(t, "over")
		if depth > 50 {
			n = genMany(t, n, 4)
		}
	}
	l := []any{}
	for i := 0; i < n; i++ {
		switch {
		case i < len(s.Kids):
			l = append(l, genDoc(t, s.Kids[i], depth-1))
		case i > len(s.Kids)+4 && i < n-1:
			l = append(l, pbt.Fresh(l[i-1]))
		case s.Add != nil:
			l = append(l, genDoc(t, *s.Add, depth-1))
		default:
			l = append(l, pbt.JSON(t, 1, "over"))
		}
	}
	return l
}

// nearMiss changes one place of a document.
func nearMiss(t *rapid.T, v any) any {
	if pbt.Chance(t, 8, "retype") {
		return retype(t, v)
	}
	switch x := v.(type) {
	case []any:
		if len(x) > 0 && pbt.Chance(t, 70, "down") {
			i := pbt.Uniform(t, len(x), "at")
			x[i] = nearMiss(t, x[i])
			return x
		}
		if len(x) > 0 && rapid.Bool().Draw(t, "drop") {
			return x[:len(x)-1]
		}
		return append(x, pbt.JSON(t, 1, "more"))
	case map[string]any:
		ks := pbt.Keys(x)
		if len(ks) > 0 {
			k := ks[pbt.Uniform(t, len(ks), "key")]
			switch pbt.Weighted(t, "edit", 70, 20, 10) {
			case 0:
				x[k] = nearMiss(t, x[k])
			case 1:
				delete(x, k)
			default:
				x[genPropName(t)] = pbt.JSON(t, 1, "new")
			}
			return x
		}
	case json.Number:
		if pbt.Chance(t, 50, "num") {
			return pbt.NumLit(t, "other")
		}
	case string:
		if pbt.Chance(t, 60, "grow") {
			return x + "x"
		}
	}
	return pbt.JSON(t, 1, "other")
}

// retype gives a value of another type that prints alike.
func retype(t *rapid.T, v any) any {
	switch x := v.(type) {
	case []any:
		if len(x) > 0 && pbt.Chance(t, 80, "down") {
			i := pbt.Uniform(t, len(x), "at")
			y := retype(t, x[i])
			if pbt.Chance(t, 25, "besides") {
				return append(x, y)
			}
			x[i] = y
			return x
		}
	case map[string]any:
		if ks := pbt.Keys(x); len(ks) > 0 && pbt.Chance(t, 80, "down") {
			k := ks[pbt.Uniform(t, len(ks), "key")]
			x[k] = retype(t, x[k])
			return x
		}
	case string:
		if _, err := strconv.ParseFloat(x, 64); err == nil && json.Valid([]byte(x)) {
			return json.Number(x)
		}
		switch x {
		case "true":
			return true
		case "false":
			return false
		case "null", "<nil>", "":
			return nil
		}
		return []any{x}
	case nil:
		return pbt.Pick(t, "nil", "<nil>", "null", "")
	}
	if pbt.Chance(t, 30, "text") {
		return string(pbt.Raw(v))
	}
	return fmt.Sprint(v)
}

// genDeep nests the schema in many others.
func genDeep(t *rapid.T, s Sch) Sch {
	for i, m := 0, rapid.IntRange(5, 40).Draw(t, "nest"); i < m; i++ {
		switch pbt.Pick(t, "wrap", "list", "object", "anyOf", "not", "allOf", "tuple", "more", "method", "returns") {
		case "list":
			s = Sch{K: "list", Kids: []Sch{s}}
		case "object":
			s = Sch{K: "object", Props: []SchProp{{"k", s}}, Req: []string{"k"}}
		case "anyOf":
			s = Sch{K: "anyOf", Kids: []Sch{{K: "null"}, s}}
		case "allOf":
			s = Sch{K: "allOf", Kids: []Sch{s}}
		case "tuple":
			s = Sch{K: "tuple", Kids: []Sch{s}}
		case "more":
			add := s
			s = Sch{K: pbt.Pick(t, "moreof", "tuple", "object"), Add: &add}
		case "method":
			s = Sch{K: "method", Kids: []Sch{s}}
		case "returns":
			ret := s
			s = Sch{K: "method", Ret: &ret}
		default:
			s = Sch{K: "not", Kids: []Sch{s}}
		}
	}
	return s
}

// genDepth draws a schema of any depth.
func genDepth(t *rapid.T) Sch {
	if pbt.Chance(t, 4, "deep") {
		return genDeep(t, genSch(t, 1))
	}
	return genSch(t, pbt.Weighted(t, "depth", 15, 30, 30, 15, 10))
}

// kinds collects the schema kinds used.
func (s Sch) each(f func(Sch, int), depth int) {
	f(s, depth)
	for _, k := range s.Kids {
		k.each(f, depth+1)
	}
	for _, p := range s.Props {
		p.S.each(f, depth+1)
	}
	if s.Add != nil {
		s.Add.each(f, depth+1)
	}
	if s.Ret != nil {
		s.Ret.each(f, depth+1)
	}
}
