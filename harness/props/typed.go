package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/pbt"
)

// TD describes a Go type that can be rebuilt from a replay file.
type TD struct {
	K      string `json:"k"` // int.. uint.. float32 float64 string bool any list map struct ptr
	Elem   *TD    `json:"elem,omitempty"`
	Fields []TF   `json:"fields,omitempty"`
}

// TF is a struct field; Name is the Go name, JSON the tag ("" = untagged).
type TF struct {
	Name string `json:"name"`
	JSON string `json:"json"`
	T    TD     `json:"t"`
}

func (f TF) key() string {
	if f.JSON != "" {
		return f.JSON
	}
	return f.Name
}

var basicTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
	"any": reflect.TypeOf((*any)(nil)).Elem(),
}

func (d TD) typ() reflect.Type {
	if t, ok := basicTypes[d.K]; ok {
		return t
	}
	switch d.K {
	case "list":
		return reflect.SliceOf(d.Elem.typ())
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), d.Elem.typ())
	case "ptr":
		return reflect.PointerTo(d.Elem.typ())
	case "struct":
		return structOf(d.Fields)
	}
	panic("type " + d.K)
}

func structOf(fs []TF) reflect.Type {
	var out []reflect.StructField
	for _, f := range fs {
		sf := reflect.StructField{Name: f.Name, Type: f.T.typ()}
		if f.JSON != "" {
			sf.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s"`, f.JSON))
		}
		if c := f.Name[0]; c >= 'a' && c <= 'z' {
			sf.PkgPath = "verif/props"
		}
		out = append(out, sf)
	}
	return reflect.StructOf(out)
}

func genTD(t *rapid.T, depth int) TD {
	basics := []string{"int", "string", "float64", "bool", "any", "int64", "uint64", "uint", "int32", "uint8", "int8", "float32", "uint32"}
	if depth <= 0 || pbt.Chance(t, 55, "basic") {
		return TD{K: pbt.Pick(t, "basic", basics...)}
	}
	switch pbt.Weighted(t, "td", 30, 20, 30, 20) {
	case 0:
		e := genTD(t, depth-1)
		if e.K == "uint8" { // byte slices have their own JSON form
			e.K = "int"
		}
		return TD{K: "list", Elem: &e}
	case 1:
		e := genTD(t, depth-1)
		return TD{K: "map", Elem: &e}
	case 2:
		return TD{K: "struct", Fields: genFields(t, depth-1, 4)}
	default:
		e := genTD(t, depth-1)
		if e.K == "any" || e.K == "ptr" {
			e = TD{K: "int"}
		}
		return TD{K: "ptr", Elem: &e}
	}
}

func genFields(t *rapid.T, depth, max int) []TF {
	n := rapid.IntRange(0, max).Draw(t, "fields")
	var fs []TF
	for i := 0; i < n; i++ {
		f := TF{Name: fmt.Sprintf("F%d", i), T: genTD(t, depth)}
		if pbt.Chance(t, 75, "tagged") {
			f.JSON = fmt.Sprintf("%s%d", pbt.Pick(t, "tag", "a", "name_", "x-", "k"), i)
		}
		fs = append(fs, f)
	}
	return fs
}

// genFor draws a JSON value that conforms to the type (bad=0) or strays from
// it with the given percentage at each node.
func genFor(t *rapid.T, d TD, bad int) any {
	if bad > 0 && pbt.Chance(t, bad, "stray") {
		return pbt.JSON(t, 1, "stray")
	}
	if pbt.Chance(t, 10, "null") {
		return nil
	}
	switch d.K {
	case "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint":
		bits := basicTypes[d.K].Bits()
		var v int64
		if strings.HasPrefix(d.K, "u") {
			m := int64(math.MaxInt64)
			if bits < 64 {
				m = 1<<bits - 1
			}
			v = pbt.Pick(t, "u", 0, 1, m, m-1, rapid.Int64Range(0, m).Draw(t, "uv"))
		} else {
			lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
			v = pbt.Pick(t, "i", 0, -1, lo, hi, rapid.Int64Range(lo, hi).Draw(t, "iv"))
		}
		return json.Number(strconv.FormatInt(v, 10))
	case "float32", "float64":
		return pbt.NumLit(t, "f")
	case "string":
		return pbt.Str(t, "s")
	case "bool":
		return rapid.Bool().Draw(t, "b")
	case "any":
		return pbt.JSON(t, 2, "any")
	case "list":
		n := rapid.IntRange(0, 4).Draw(t, "n")
		if pbt.Chance(t, 4, "long") {
			n = pbt.Size(t, 10, 150, "n")
		}
		a := []any{}
		for i := 0; i < n; i++ {
			a = append(a, genFor(t, *d.Elem, bad))
		}
		return a
	case "map":
		n := rapid.IntRange(0, 3).Draw(t, "n")
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[pbt.Str(t, "k")] = genFor(t, *d.Elem, bad)
		}
		return m
	case "struct":
		m := map[string]any{}
		for _, f := range d.Fields {
			if pbt.Chance(t, 85, "has") {
				m[f.key()] = genFor(t, f.T, bad)
			}
		}
		if pbt.Chance(t, 20, "extra") {
			m["unknown_"+pbt.Ident(t, "extra")] = pbt.JSON(t, 1, "extra")
		}
		return m
	case "ptr":
		return genFor(t, *d.Elem, bad)
	}
	panic("type " + d.K)
}

type outcome int

const (
	oOK outcome = iota
	oOpen
	oBad
)

func worse(a, b outcome) outcome {
	// open dominates: what else happens to an open value is not prescribed
	if a == oBad || b == oBad {
		return oBad
	}
	if a == oOpen || b == oOpen {
		return oOpen
	}
	return oOK
}

// zero is the JSON value of the type's zero value.
func (d TD) zero() any {
	switch d.K {
	case "string":
		return ""
	case "bool":
		return false
	case "any", "list", "map", "ptr":
		return nil
	case "struct":
		m := map[string]any{}
		for _, f := range d.Fields {
			m[f.key()] = f.T.zero()
		}
		return m
	}
	return json.Number("0")
}

// expect is what converting a JSON value to the type must give.
func (d TD) expect(v any) (outcome, any) {
	if v == nil {
		return oOK, d.zero()
	}
	switch d.K {
	case "ptr":
		return d.Elem.expect(v)
	case "any":
		return oOK, v
	case "bool":
		if b, ok := v.(bool); ok {
			return oOK, b
		}
		return oBad, nil
	case "string":
		switch x := v.(type) {
		case string:
			return oOK, x
		case json.Number:
			return oOpen, nil // a json.Number is a Go string
		}
		return oBad, nil
	case "list":
		l, ok := v.([]any)
		if !ok {
			return oBad, nil
		}
		o, out := oOK, []any{}
		for _, e := range l {
			eo, ev := d.Elem.expect(e)
			o = worse(o, eo)
			out = append(out, ev)
		}
		return o, out
	case "map":
		m, ok := v.(map[string]any)
		if !ok {
			return oBad, nil
		}
		o, out := oOK, map[string]any{}
		for k, e := range m {
			eo, ev := d.Elem.expect(e)
			o = worse(o, eo)
			out[k] = ev
		}
		return o, out
	case "struct":
		m, ok := v.(map[string]any)
		if !ok {
			return oBad, nil
		}
		o, out := oOK, map[string]any{}
		for _, f := range d.Fields {
			e, has := m[f.key()]
			if !has {
				for k := range m {
					if strings.EqualFold(k, f.key()) {
						return oOpen, nil
					}
				}
				out[f.key()] = f.T.zero()
				continue
			}
			eo, ev := f.T.expect(e)
			o = worse(o, eo)
			out[f.key()] = ev
		}
		return o, out
	}
	// numbers
	n, ok := v.(json.Number)
	if !ok {
		return oBad, nil
	}
	t := basicTypes[d.K]
	switch t.Kind() {
	case reflect.Float64, reflect.Float32:
		f, err := strconv.ParseFloat(string(n), 64)
		if err != nil {
			return oOpen, nil
		}
		var b []byte
		if t.Kind() == reflect.Float32 {
			if math.IsInf(float64(float32(f)), 0) {
				return oOpen, nil
			}
			b, _ = json.Marshal(float32(f))
		} else {
			b, _ = json.Marshal(f)
		}
		return oOK, json.Number(b)
	}
	i, err := strconv.ParseInt(string(n), 10, 64)
	if err != nil {
		f, ferr := strconv.ParseFloat(string(n), 64)
		if ferr == nil && f != math.Trunc(f) {
			return oBad, nil // a fraction is no integer
		}
		return oOpen, nil // out of range, or spelled 1.0 or 1e2
	}
	s := strconv.FormatInt(i, 10)
	if strings.HasPrefix(d.K, "u") {
		if i < 0 {
			return oBad, nil
		}
		if n[0] == '-' {
			return oOpen, nil // -0
		}
		if t.Bits() < 64 && i >= 1<<t.Bits() {
			return oOpen, nil
		}
		return oOK, json.Number(s)
	}
	if b := t.Bits(); b < 64 && (i < -(1<<(b-1)) || i >= 1<<(b-1)) {
		return oOpen, nil
	}
	return oOK, json.Number(s)
}

// make builds a Go value of the type from a conforming JSON value.
func (d TD) make(v any) reflect.Value {
	t := d.typ()
	out := reflect.New(t).Elem()
	if v == nil {
		return out
	}
	switch d.K {
	case "ptr":
		p := reflect.New(d.Elem.typ())
		p.Elem().Set(d.Elem.make(v))
		out.Set(p)
	case "any":
		out.Set(reflect.ValueOf(v))
	case "bool":
		out.SetBool(v.(bool))
	case "string":
		out.SetString(v.(string))
	case "list":
		l := v.([]any)
		s := reflect.MakeSlice(t, len(l), len(l))
		for i := range l {
			s.Index(i).Set(d.Elem.make(l[i]))
		}
		out.Set(s)
	case "map":
		m := reflect.MakeMap(t)
		for k, e := range v.(map[string]any) {
			m.SetMapIndex(reflect.ValueOf(k), d.Elem.make(e))
		}
		out.Set(m)
	case "struct":
		m := v.(map[string]any)
		for i, f := range d.Fields {
			if e, ok := m[f.key()]; ok {
				out.Field(i).Set(f.T.make(e))
			}
		}
	default:
		n := string(v.(json.Number))
		switch t.Kind() {
		case reflect.Float32, reflect.Float64:
			f, _ := strconv.ParseFloat(n, 64)
			out.SetFloat(f)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			u, _ := strconv.ParseUint(n, 10, 64)
			out.SetUint(u)
		default:
			i, _ := strconv.ParseInt(n, 10, 64)
			out.SetInt(i)
		}
	}
	return out
}

// conforming draws a value for which expect is certain.
func genConforming(t *rapid.T, d TD) any {
	v := genFor(t, d, 0)
	if o, e := d.expect(v); o == oOK {
		return e
	}
	return d.zero()
}

func hasKind(d TD, k string) bool {
	if d.K == k {
		return true
	}
	if d.Elem != nil && hasKind(*d.Elem, k) {
		return true
	}
	for _, f := range d.Fields {
		if hasKind(f.T, k) {
			return true
		}
	}
	return false
}
