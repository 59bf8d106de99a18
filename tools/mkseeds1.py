from seedlib import seed

seed("c01-error-data-float", "C01", "an error message whose data holds a number beyond float64 precision",
     "parsing an error message turns its data's numbers to float64, so re-encoding alters them",
     [("parse.go", "		errdec.UseNumber()\n", "")],
     '''
package jlib

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	msg, err := ParseBytes([]byte(`{"jsonrpc":"2.0","id":1,"error":{"code":3,"message":"m","data":{"n":9007199254740993}}}`))
	if err != nil {
		t.Fatal(err)
	}
	if s := MessageString(msg); !strings.Contains(s, "9007199254740993") {
		t.Fatal(s)
	}
}
''')

seed("c02-id-zero", "C02", "a message whose id is the number 0",
     "id 0 is taken as no id: a request with id 0 is classified as a notification",
     [("parse.go", "	if err := json.Unmarshal(*un.Id, &intId); err == nil {\n		return intId, nil",
       "	if err := json.Unmarshal(*un.Id, &intId); err == nil {\n		if intId == 0 {\n			return nil, nil\n		}\n		return intId, nil")],
     '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	msg, err := ParseBytes([]byte(`{"jsonrpc":"2.0","id":0,"method":"m","params":[]}`))
	if err != nil {
		t.Fatal(err)
	}
	if !msg.IsRequest() || msg.MustId() != 0 {
		t.Fatalf("%#v", msg)
	}
}
''')

seed("c03-union-reuse", "C03", "a stream where a message with a trace id is followed by one without",
     "the decoding scratch object is reused and the trace id of the previous message leaks into the next",
     [("parse.go", "	var un msgUnion\n	if err := decoder.Decode(&un); err != nil {\n		return nil, err\n	}\n",
       "	un := unionPool.Get().(*msgUnion)\n	defer unionPool.Put(un)\n	un.Id, un.Result, un.Error, un.Params, un.Method = nil, nil, nil, nil, \"\"\n	if err := decoder.Decode(un); err != nil {\n		return nil, err\n	}\n"),
      ("parse.go", "	\"encoding/json\"\n)", "	\"encoding/json\"\n	\"sync\"\n)\n\nvar unionPool = sync.Pool{New: func() interface{} { return &msgUnion{} }}"),
      ("parse.go", "		id, err := decodeId(&un)\n		if err != nil {\n			return nil, err\n		}\n\n		errmsg", "		id, err := decodeId(un)\n		if err != nil {\n			return nil, err\n		}\n\n		errmsg"),
      ("parse.go", "		id, err := decodeId(&un)\n		if err != nil {\n			return nil, err\n		}\n\n		resmsg := rawResultMessage(id, res)", "		id, err := decodeId(un)\n		if err != nil {\n			return nil, err\n		}\n\n		resmsg := rawResultMessage(id, res)"),
      ("parse.go", "		params, islist, err := decodeParams(&un)", "		params, islist, err := decodeParams(un)"),
      ("parse.go", "		id, err := decodeId(&un)\n		if err != nil {\n			return nil, err\n		}\n\n		if id != nil", "		id, err := decodeId(un)\n		if err != nil {\n			return nil, err\n		}\n\n		if id != nil"),
      ("parse.go", "		// parse id\n		id, err := decodeId(&un)", "		// parse id\n		id, err := decodeId(un)"),
      ],
     '''
package jlib

import (
	"encoding/json"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dec := json.NewDecoder(strings.NewReader(strings.Repeat(`{"jsonrpc":"2.0","method":"a","params":[],"traceid":"t1"} {"jsonrpc":"2.0","method":"b","params":[]}`, 50)))
	for i := 0; i < 100; i++ {
		msg, err := DecodeMessage(dec)
		if err != nil {
			t.Fatal(err)
		}
		if want := map[bool]string{true: "t1", false: ""}[i%2 == 0]; msg.TraceId() != want {
			t.Fatalf("message %d: trace id %q", i, msg.TraceId())
		}
	}
}
''')

seed("c04-cachekey", "C04", "two requests of one method whose params differ only in how strings split",
     "CacheKey of different params can be equal",
     [("messageimpl.go", "	paramBytes, err := json.Marshal(self.Params)\n	if err != nil {\n		panic(err)\n	}\n	return fmt.Sprintf(\"%s%s%s\", prefix, self.Method, string(paramBytes))",
       "	return fmt.Sprintf(\"%s%s%v\", prefix, self.Method, self.Params)")],
     '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	a := NewRequestMessage(1, "m", []interface{}{"a b"})
	b := NewRequestMessage(1, "m", []interface{}{"a", "b"})
	if a.CacheKey("p") == b.CacheKey("p") {
		t.Fatal("same key")
	}
}
''')

seed("c06-maxitems-zero", "C06", "a list schema with maxItems 0",
     "maxItems 0 is ignored, so non-empty lists are accepted",
     [("schema/builder.go", "ok && maxItems >= 0", "ok && maxItems > 0")],
     '''
package jlibschema

import "testing"

func TestZZDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"list","items":"string","maxItems":0}`))
	if err != nil {
		t.Fatal(err)
	}
	if NewSchemaValidator().Validate(s, []interface{}{"x"}) == nil {
		t.Fatal("accepted")
	}
}
''', "schema")

seed("c07-requires-subset", "C07", "two object schemas where the required names of one are a subset of the other's",
     "schemas that require different properties are equal",
     [("schema/schema.go", "func SchemaMapValueEqual[T comparable](m1 map[string]T, m2 map[string]T) bool {\n	if m1 != nil && m2 != nil {\n		if len(m1) != len(m2) {\n			return false\n		}\n",
       "func SchemaMapValueEqual[T comparable](m1 map[string]T, m2 map[string]T) bool {\n	if m1 != nil && m2 != nil {\n")],
     '''
package jlibschema

import "testing"

func TestZZDemo(t *testing.T) {
	build := func(s string) Schema {
		x, err := NewSchemaBuilder().BuildBytes([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		return x
	}
	a := build(`{"type":"object","properties":{"a":"string","b":"string"},"requires":["a"]}`)
	b := build(`{"type":"object","properties":{"a":"string","b":"string"},"requires":["a","b"]}`)
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("equal")
	}
}
''', "schema")

seed("c08-grandchild", "C08", "a method registered on a grandchild actor",
     "Has looks at one level of children only, so calls to a grandchild's method are not found",
     [("http/request.go", "		if child.Has(method) {\n			return true\n		}\n	}\n	return false", "		if _, exist := child.methodHandlers[method]; exist {\n			return true\n		}\n	}\n	return false")],
     '''
package jlibhttp

import "testing"

func TestZZDemo(t *testing.T) {
	root, child, grand := NewActor(), NewActor(), NewActor()
	root.AddChild(child)
	child.AddChild(grand)
	grand.On("m", func(params []interface{}) (interface{}, error) { return 1, nil })
	if !root.Has("m") {
		t.Fatal("no method")
	}
}
''', "http")

seed("c09-wrapped-rpcerror", "C09", "a handler returning an RPC error wrapped in another error",
     "a wrapped RPC error is answered as an internal error",
     [("http/request.go", "		var rpcErr *jlib.RPCError\n", ""),
      ("http/request.go", "		if errors.As(err, &rpcErr) {", "		if rpcErr, ok := err.(*jlib.RPCError); ok {")],
     '''
package jlibhttp

import (
	"context"
	"testing"

	"github.com/pkg/errors"
	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) {
		return nil, errors.Wrap(&jlib.RPCError{Code: 77, Message: "x"}, "wrapped")
	})
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", nil), TransportHTTP, nil))
	if err != nil || res.MustError().Code != 77 {
		t.Fatal(res, err)
	}
}
''', "http")

seed("c10-notify-unchecked", "C10", "a notification with params that break the method's schema",
     "the schema is enforced on requests only",
     [("http/request.go", "		if handler.schema != nil && self.ValidateSchema {", "		if handler.schema != nil && self.ValidateSchema && msg.IsRequest() {")],
     '''
package jlibhttp

import (
	"context"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	a, ran := NewActor(), false
	a.On("m", func(params []interface{}) (interface{}, error) { ran = true; return nil, nil },
		WithSchemaJson(`{"type":"method","params":["string"],"returns":"string"}`))
	a.Feed(NewRPCRequest(context.Background(), jlib.NewNotifyMessage("m", []interface{}{true}), TransportHTTP, nil))
	if ran {
		t.Fatal("ran")
	}
}
''', "http")

seed("c11-weak-types", "C11", "an argument of another JSON type than declared, such as \"5\" for an integer",
     "arguments are converted weakly, so wrongly typed ones reach the handler",
     [("http/typewrap.go", "func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, error) {\n	output := reflect.Zero(outputType).Interface()\n	config := &mapstructure.DecoderConfig{\n		Metadata: nil,\n",
       "func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, error) {\n	output := reflect.Zero(outputType).Interface()\n	config := &mapstructure.DecoderConfig{\n		Metadata: nil,\n\n		WeaklyTypedInput: outputType.Kind() == reflect.Slice,\n")],
     '''
package jlibhttp

import (
	"context"
	"testing"

	"github.com/superisaac/jlib"
)

func TestZZDemo(t *testing.T) {
	a, ran := NewActor(), false
	a.OnTyped("m", func(l []int) (int, error) { ran = true; return len(l), nil })
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{[]interface{}{"5", true}}), TransportHTTP, nil))
	if err != nil || ran || !res.IsError() {
		t.Fatal(res, err, ran)
	}
}
''', "http")

seed("c21-int32", "C21", "an integer argument beyond 53 bits",
     "integers over 32 bits become floats and lose digits",
     [("utils.go", "	iv, err := strconv.ParseInt(input, 10, 64)", "	iv, err := strconv.ParseInt(input, 10, 32)")],
     '''
package jlib

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	v, err := GuessJson("9007199254740993")
	if err != nil {
		t.Fatal(err)
	}
	if b, _ := json.Marshal(v); string(b) != "9007199254740993" {
		t.Fatal(string(b))
	}
}
''')

seed("c23-uint64", "C23", "a big integer between 2^63 and 2^64",
     "values that fit an unsigned but not a signed 64-bit integer are written negative",
     [("utils.go", "	bi := big.Int(self)\n	return", "	bi := big.Int(self)\n	if bi.IsUint64() {\n		// short enough to format directly\n		return []byte(fmt.Sprintf(`\"%d\"`, bi.Int64())), nil\n	}\n	return")],
     '''
package jlib

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var b Bigint
	b.Load("18446744073709551615")
	if d, err := json.Marshal(b); err != nil || string(d) != `"18446744073709551615"` {
		t.Fatal(string(d), err)
	}
}
''')

seed("c24-multiline", "C24", "a name with a line break",
     "a name is accepted when one of its lines is a proper name",
     [("validators.go", "regexp.MatchString(`^[0-9a-zA-Z\\-\\_\\:\\+\\.]+$`, name)", "regexp.MatchString(`(?m)^[0-9a-zA-Z\\-\\_\\:\\+\\.]+$`, name)")],
     '''
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	if IsMethod("abc\\n;drop") {
		t.Fatal("accepted")
	}
}
''')

seed("c05-exclusive-min", "C05", "an integer equal to an exclusive minimum",
     "the exclusive minimum of an integer schema admits the bound itself",
     [("schema/schema.go", "			return validator.NewErrorPos(\"value < minimum\")\n		}\n\n		if exmin && *self.Minimum >= v {", "			return validator.NewErrorPos(\"value < minimum\")\n		}\n\n		if exmin && *self.Minimum > v {")],
     """
package jlibschema

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"integer","minimum":5,"exclusiveMinimum":true}`))
	if err != nil {
		t.Fatal(err)
	}
	if NewSchemaValidator().Validate(s, json.Number("5")) == nil {
		t.Fatal("accepted")
	}
}
""", "schema")

seed("c22-missing-reset", "C22", "fewer params than fields, into a struct that already holds values",
     "fields beyond the params are reset instead of left alone",
     [("utils.go", "		if len(params) <= idx {\n			continue\n		}", "		if len(params) <= idx {\n			ptrValue.Elem().FieldByIndex(field.Index).Set(reflect.Zero(field.Type))\n			continue\n		}")],
     """
package jlib

import "testing"

func TestZZDemo(t *testing.T) {
	s := struct{ A, B int }{7, 8}
	if err := DecodeParams([]interface{}{1}, &s); err != nil {
		t.Fatal(err)
	}
	if s.A != 1 || s.B != 8 {
		t.Fatal(s)
	}
}
""")
