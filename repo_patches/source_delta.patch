From 81cbb772511c8902e6097f2f6cc7459e49c8bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 01/44] fix: cloning a request keeps whether its params are a
 list

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..bdfec86 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -319,6 +319,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
+	newReq.paramsAreList = self.paramsAreList
 	newReq.SetTraceId(self.traceId)
 	return newReq
 }
-- 
2.43.0


From 139cf473d5558363a9423ef55f6fbffe5a369cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 02/44] fix: GuessJson takes the words nan and inf as plain
 strings, which can be sent

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index c7f7505..594de1a 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"math"
 	"math/big"
 	"net/http"
 	"os"
@@ -42,7 +43,8 @@ func GuessJson(input string) (interface{}, error) {
 		return iv, nil
 	}
 	fv, err := strconv.ParseFloat(input, 64)
-	if err == nil {
+	if err == nil && !math.IsNaN(fv) && !math.IsInf(fv, 0) {
+		// NaN and infinity have no JSON form, they are plain words
 		return fv, nil
 	}
 
-- 
2.43.0


From 15b35a7302dd89e2252aa2293205f6554128d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 03/44] fix: GuessJson refuses data after an array, object,
 quoted string or file

---
 utils.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/utils.go b/utils.go
index 594de1a..3aeed9d 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"io"
 	"math"
 	"math/big"
 	"net/http"
@@ -24,6 +25,19 @@ func MarshalJson(data interface{}) (string, error) {
 	return string(marshaled), nil
 }
 
+// decodeWhole decodes the only JSON value in reader
+func decodeWhole(reader io.Reader, output interface{}) error {
+	dec := json.NewDecoder(reader)
+	dec.UseNumber()
+	if err := dec.Decode(output); err != nil {
+		return err
+	}
+	if _, err := dec.Token(); err != io.EOF {
+		return errors.New("unexpected data after json value")
+	}
+	return nil
+}
+
 func GuessJson(input string) (interface{}, error) {
 	if len(input) == 0 {
 		return "", nil
@@ -58,40 +72,28 @@ func GuessJson(input string) (interface{}, error) {
 		defer f.Close()
 
 		var v interface{}
-		dec := json.NewDecoder(f)
-		dec.UseNumber()
-		err = dec.Decode(&v)
-		if err != nil {
+		if err := decodeWhole(f, &v); err != nil {
 			return nil, err
 		}
 		return v, nil
 	case '[':
 		// maybe a list
 		var arr []interface{}
-		dec := json.NewDecoder(strings.NewReader(input))
-		dec.UseNumber()
-		err := dec.Decode(&arr)
-		if err != nil {
+		if err := decodeWhole(strings.NewReader(input), &arr); err != nil {
 			return nil, err
 		}
 		return arr, nil
 	case '{':
 		// maybe an object
 		var m map[string]interface{}
-		dec := json.NewDecoder(strings.NewReader(input))
-		dec.UseNumber()
-		err := dec.Decode(&m)
-		if err != nil {
+		if err := decodeWhole(strings.NewReader(input), &m); err != nil {
 			return nil, err
 		}
 		return m, nil
 	case '"':
 		// a string quote
 		var s string
-		dec := json.NewDecoder(strings.NewReader(input))
-		dec.UseNumber()
-		err := dec.Decode(&s)
-		if err != nil {
+		if err := decodeWhole(strings.NewReader(input), &s); err != nil {
 			return nil, err
 		}
 		return s, nil
-- 
2.43.0


From ac215d659846b45a06da73d82714ff21bf0d4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 04/44] fix: DecodeParams sets an interface field to its zero
 value for a null param

---
 utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 3aeed9d..ebf5a72 100644
--- a/utils.go
+++ b/utils.go
@@ -175,8 +175,12 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 			return errors.Wrap(err, "mapstruct.Decode")
 		}
 
-		ptrValue.Elem().FieldByIndex(field.Index).Set(
-			reflect.ValueOf(ov))
+		fv := reflect.ValueOf(ov)
+		if !fv.IsValid() {
+			// null param to an interface field
+			fv = reflect.Zero(field.Type)
+		}
+		ptrValue.Elem().FieldByIndex(field.Index).Set(fv)
 	}
 	return nil
 }
-- 
2.43.0


From 4385a129963c672a676853e767917f7436953715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 05/44] fix: DecodeParams refuses a nil output instead of
 crashing

---
 utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index ebf5a72..dde0478 100644
--- a/utils.go
+++ b/utils.go
@@ -140,7 +140,7 @@ func DecodeInterface(input interface{}, output interface{}) error {
 // / Convert params to a struct field by field
 func DecodeParams(params []interface{}, outputPtr interface{}) error {
 	ptrType := reflect.TypeOf(outputPtr)
-	if ptrType.Kind() != reflect.Ptr {
+	if ptrType == nil || ptrType.Kind() != reflect.Ptr {
 		return errors.New("output is not a pointer")
 	}
 	outputType := ptrType.Elem()
@@ -150,6 +150,9 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 
 	fields := reflect.VisibleFields(outputType)
 	ptrValue := reflect.ValueOf(outputPtr)
+	if ptrValue.IsNil() {
+		return errors.New("output is a nil pointer")
+	}
 	idx := 0
 	for _, field := range fields {
 		if !field.IsExported() {
-- 
2.43.0


From ef82644f1fe1c96ab15a3d2554b2450631307a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 06/44] fix: Bigint refuses JSON that is no decimal integer

---
 utils.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index dde0478..0582948 100644
--- a/utils.go
+++ b/utils.go
@@ -199,12 +199,19 @@ func (self *Bigint) UnmarshalJSON(data []byte) error {
 	sd := string(data)
 	bi := (*big.Int)(self)
 
+	if sd == "null" {
+		return nil
+	}
 	if strings.HasPrefix(sd, `"`) {
 		// string repr
-		bi.SetString(sd[1:len(sd)-1], 10)
-	} else {
-		bi.SetString(sd, 10)
+		sd = sd[1 : len(sd)-1]
+	}
+	// parse to a fresh value, SetString leaves it undefined on failure
+	parsed, ok := new(big.Int).SetString(sd, 10)
+	if !ok {
+		return errors.New("not a decimal integer")
 	}
+	bi.Set(parsed)
 	return nil
 }
 
-- 
2.43.0


From bcfa21a587bdf188f2d1c7c6821ac85379369ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 07/44] fix: a schema's properties may have any name and must
 be an object

---
 schema/convert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/convert.go b/schema/convert.go
index 81ea882..e9fd7fc 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -121,7 +121,12 @@ func convertAttrFloat(node map[string]interface{}, attrName string, optional boo
 }
 
 func convertAttrMapOfMap(node map[string](interface{}), attrName string, optional bool) (map[string](map[string]interface{}), bool) {
-	if mm, ok := convertAttrMap(node, attrName, false); ok {
+	if v, ok := node[attrName]; ok {
+		// a plain map, not a schema whose type can be guessed
+		mm, ok := v.(map[string]interface{})
+		if !ok {
+			return nil, false
+		}
 		resMap := make(map[string](map[string]interface{}))
 		for name, value := range mm {
 			mv, ok := convertTypeMap(value)
-- 
2.43.0


From 99232653c41fdadfa6d319103d966e948d3c9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 08/44] fix: a schema's description has all of its constraints

---
 schema/schema.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index 307aa0f..cbe1af0 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -132,16 +132,16 @@ func (self NumberSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	if self.Maximum != nil {
 		tp["maximum"] = *self.Maximum
-		if self.ExclusiveMaximum != nil {
-			tp["exclusiveMaximum"] = *self.ExclusiveMaximum
-		}
+	}
+	if self.ExclusiveMaximum != nil {
+		tp["exclusiveMaximum"] = *self.ExclusiveMaximum
 	}
 
 	if self.Minimum != nil {
 		tp["minimum"] = *self.Minimum
-		if self.ExclusiveMinimum != nil {
-			tp["exclusiveMinimum"] = *self.ExclusiveMinimum
-		}
+	}
+	if self.ExclusiveMinimum != nil {
+		tp["exclusiveMinimum"] = *self.ExclusiveMinimum
 	}
 	return tp
 }
@@ -203,16 +203,16 @@ func (self IntegerSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	if self.Maximum != nil {
 		tp["maximum"] = *self.Maximum
-		if self.ExclusiveMaximum != nil {
-			tp["exclusiveMaximum"] = *self.ExclusiveMaximum
-		}
+	}
+	if self.ExclusiveMaximum != nil {
+		tp["exclusiveMaximum"] = *self.ExclusiveMaximum
 	}
 
 	if self.Minimum != nil {
 		tp["minimum"] = *self.Minimum
-		if self.ExclusiveMinimum != nil {
-			tp["exclusiveMinimum"] = *self.ExclusiveMinimum
-		}
+	}
+	if self.ExclusiveMinimum != nil {
+		tp["exclusiveMinimum"] = *self.ExclusiveMinimum
 	}
 	return tp
 }
@@ -283,7 +283,14 @@ func (self StringSchema) Type() string {
 	return "string"
 }
 func (self StringSchema) Map() map[string]interface{} {
-	return self.rebuildType(self.Type())
+	tp := self.rebuildType(self.Type())
+	if self.MaxLength != nil {
+		tp["maxLength"] = *self.MaxLength
+	}
+	if self.MinLength != nil {
+		tp["minLength"] = *self.MinLength
+	}
+	return tp
 }
 
 func (self StringSchema) Equal(other Schema) bool {
@@ -440,6 +447,12 @@ func (self ListSchema) Equal(other Schema) bool {
 func (self ListSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	tp["items"] = self.Item.Map()
+	if self.MaxItems != nil {
+		tp["maxItems"] = *self.MaxItems
+	}
+	if self.MinItems != nil {
+		tp["minItems"] = *self.MinItems
+	}
 	return tp
 }
 
@@ -491,6 +504,9 @@ func (self TupleSchema) Map() map[string]interface{} {
 		arr = append(arr, child.Map())
 	}
 	tp["items"] = arr
+	if self.AdditionalSchema != nil {
+		tp["additionalItems"] = self.AdditionalSchema.Map()
+	}
 	return tp
 }
 
-- 
2.43.0


From 12811d0dde44fd02a24e3cddd4d8f72cffd4ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 09/44] fix: a method schema whose returns is no schema is
 refused

---
 schema/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index 7b4a6c4..5fdc39e 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -311,6 +311,9 @@ func (self *SchemaBuilder) buildMethodSchema(node map[string](interface{}), path
 			return nil, err
 		}
 		schema.Returns = c
+	} else {
+		newPaths := append(paths, ".returns")
+		return nil, NewBuildError("returns is not a schema", newPaths)
 	}
 	return schema, nil
 }
-- 
2.43.0


From a9de22e59dda28736dceb735edd39998aab67750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 10/44] fix: a YAML schema may be a bare type name, as in JSON

---
 schema/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/builder.go b/schema/builder.go
index 5fdc39e..1bbaee6 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -92,7 +92,7 @@ func (self *SchemaBuilder) BuildYamlInterface(data interface{}) (Schema, error)
 }
 
 func (self *SchemaBuilder) BuildYamlBytes(bytes []byte) (Schema, error) {
-	data := make(map[interface{}]interface{})
+	var data interface{}
 	err := yaml.Unmarshal(bytes, &data)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bff2413939cdbea42cc557b77fd86a4b2ea6049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 11/44] fix: a non-string YAML key is refused at any depth

---
 schema/builder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index 1bbaee6..b999ebd 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -63,6 +63,17 @@ func (self SchemaBuilder) FixYamlMaps(src interface{}, paths ...string) (interfa
 			}
 		}
 		return strMap, nil
+	} else if anyMap, ok := src.(map[string]interface{}); ok {
+		strMap := make(map[string]interface{})
+		for k, v := range anyMap {
+			newPaths := append(paths, fmt.Sprintf(".%s", k))
+			newV, err := self.FixYamlMaps(v, newPaths...)
+			if err != nil {
+				return nil, err
+			}
+			strMap[k] = newV
+		}
+		return strMap, nil
 	} else if anyList, ok := src.([]interface{}); ok {
 		list1 := make([]interface{}, 0)
 		for i, elem := range anyList {
-- 
2.43.0


From dc2203ae7a850988f3cdbe7b208a03c81d136d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 12/44] fix: a YAML number bound over 63 bits is kept, as in
 JSON

---
 schema/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/convert.go b/schema/convert.go
index e9fd7fc..750814d 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -104,6 +104,9 @@ func convertAttrFloat(node map[string]interface{}, attrName string, optional boo
 	if v, ok := node[attrName]; ok {
 		if n, ok := v.(int); ok {
 			return float64(n), true
+		} else if n, ok := v.(uint64); ok {
+			// integers over 63 bits come from yaml in this type
+			return float64(n), true
 		} else if n, ok := v.(float64); ok {
 			return n, true
 		} else if n, ok := v.(json.Number); ok {
-- 
2.43.0


From df77873e2fd43923097617b2c27d45208666c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 13/44] fix: GetSchema answers for the handler a call would
 reach

---
 http/request.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http/request.go b/http/request.go
index 41b9330..a696279 100644
--- a/http/request.go
+++ b/http/request.go
@@ -268,12 +268,12 @@ func (self Actor) MethodList() []string {
 
 // get the schema of a method
 func (self Actor) GetSchema(method string) (jlibschema.Schema, bool) {
-	if h, ok := self.getHandler(method); ok && h.schema != nil {
-		return h.schema, true
+	if h, ok := self.getHandler(method); ok {
+		return h.schema, h.schema != nil
 	}
 	for _, child := range self.children {
-		if s, ok := child.GetSchema(method); ok {
-			return s, ok
+		if child.Has(method) {
+			return child.GetSchema(method)
 		}
 	}
 	return nil, false
-- 
2.43.0


From 5e2dca8fd4a32d0098d8c00b23bb11621b1bc105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 14/44] fix: null is a valid argument for an interface
 parameter of a typed handler

---
 http/typewrap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 5367bb8..8c22d72 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -29,7 +29,12 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 	if err != nil {
 		return reflect.Value{}, err
 	}
-	return reflect.ValueOf(output), nil
+	value := reflect.ValueOf(output)
+	if !value.IsValid() {
+		// null given to an interface type
+		return reflect.Zero(outputType), nil
+	}
+	return value, nil
 }
 
 func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
-- 
2.43.0


From 7728d0eefe06c38cc156eedd71e3b7cf35e6b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 15/44] fix: a typed handler returning a nil pointer as its
 error has succeeded

---
 http/typewrap.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 8c22d72..566e282 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -60,6 +60,15 @@ func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
 	return output, nil
 }
 
+// a nil pointer of a concrete error type means no error, as a nil error does
+func isNilValue(v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	}
+	return false
+}
+
 type FirstArgSpec interface {
 	Check(firstArgType reflect.Type) bool
 	Value(req *RPCRequest) interface{}
@@ -157,8 +166,9 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 		// wrap result
 		resValues := reflect.ValueOf(tfunc).Call(fnArgs)
 		resType := funcType.Out(0)
-		errRes := resValues[1].Interface()
-		if errRes != nil {
+		errValue := resValues[1]
+		if !isNilValue(errValue) {
+			errRes := errValue.Interface()
 			if err, ok := errRes.(error); ok {
 				return nil, err
 			} else {
-- 
2.43.0


From f1aa21cd5eb3f74d718258237a29beca825e1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 16/44] fix: the HTTP/1 reply carries its content type and
 trace id headers

---
 http/h1_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..8dccf5c 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -83,12 +83,13 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
+		// headers are sent by WriteHeader, set them before
 		w.Header().Set("Content-Type", "application/json")
 
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From eab78b994e7657bcc7491df47bcfaa0e3d60feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 17/44] fix: the internal error for an unencodable HTTP/1
 result has its trace id in the header only

---
 http/h1_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 8dccf5c..32502d1 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -80,7 +80,7 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		data, err1 := jlib.MessageBytes(resmsg)
 		if err1 != nil {
 			resmsg.Log().Warnf("error marshaling msg %s", err1)
-			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), "")
 			data, _ = jlib.MessageBytes(errmsg)
 		}
 		// headers are sent by WriteHeader, set them before
-- 
2.43.0


From c4e14ba615762241b741c71843e0217abf7f6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 18/44] fix: the HTTP/1 server takes the trace id its clients
 send in a header

---
 http/h1_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/h1_server.go b/http/h1_server.go
index 32502d1..0dfefe8 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -42,6 +42,11 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if msg.TraceId() == "" {
+		// http clients send the trace id in a header
+		msg.SetTraceId(r.Header.Get("X-Trace-Id"))
+	}
+
 	req := NewRPCRequest(r.Context(), msg, TransportHTTP, r)
 	resmsg, err := self.Actor.Feed(req)
 	if err != nil {
-- 
2.43.0


From d8f50a0f49798373cd57516fe5e9a70f5a86fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 19/44] fix: the settings of basic and bearer users have the
 JSON name settings

---
 http/auth_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..15b6325 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -27,7 +27,7 @@ func AuthInfoFromContext(ctx context.Context) (*AuthInfo, bool) {
 type BasicAuthConfig struct {
 	Username string                 `yaml:"username" json:"username"`
 	Password string                 `yaml:"password" json:"password"`
-	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings.omitempty"`
+	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings,omitempty"`
 }
 
 type BearerAuthConfig struct {
@@ -35,7 +35,7 @@ type BearerAuthConfig struct {
 
 	// username attached to request when token authorized
 	Username string                 `yaml:"username,omitempty" json:"username,omitempty"`
-	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings.omitempty"`
+	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings,omitempty"`
 }
 
 type JwtAuthConfig struct {
-- 
2.43.0


From 03d5ebe5af3d329ef50c463070548a8eb5d92868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 20/44] fix: an Authorization header of just Bearer crashed the
 jwt check

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 15b6325..6c398b2 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -121,7 +121,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From bed54217dbb1e8fbcda524ee6c9b020271a4f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 21/44] fix: concurrent streaming calls with one id no longer
 take each other's place

---
 http/streaming_client.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..4f67df2 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -337,17 +337,17 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	}
 	ch := make(chan jlib.Message, 10)
 
-	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
-
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
 		resultChannel: ch,
 		expire:        time.Now().Add(time.Second * 10),
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
+
+	sendmsg := reqmsg
+	if _, loaded := self.pendingRequests.LoadOrStore(reqmsg.Id, p); loaded {
+		sendmsg = reqmsg.Clone(jlib.NewUuid())
+		self.pendingRequests.Store(sendmsg.Id, p)
+	}
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
-- 
2.43.0


From 3eb6ae8d87e09128fb2da6375f62657252ce06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 22/44] fix: a streaming call whose id is another integer type
 than int gets its reply

---
 http/streaming_client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 4f67df2..aa6cda6 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -344,7 +344,14 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	}
 
 	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.LoadOrStore(reqmsg.Id, p); loaded {
+	reusable := false
+	switch reqmsg.Id.(type) {
+	case int, string:
+		// the types of the ids in parsed replies
+		_, loaded := self.pendingRequests.LoadOrStore(reqmsg.Id, p)
+		reusable = !loaded
+	}
+	if !reusable {
 		sendmsg = reqmsg.Clone(jlib.NewUuid())
 		self.pendingRequests.Store(sendmsg.Id, p)
 	}
-- 
2.43.0


From f05f774fbd941962eafa8871bc187a9f8b48c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 23/44] fix: the timer of an answered streaming call no longer
 ends a later call with its id

---
 http/streaming_client.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index aa6cda6..75b8ac4 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"net/url"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -16,6 +17,15 @@ type pendingRequest struct {
 	reqmsg        *jlib.RequestMessage
 	resultChannel chan jlib.Message
 	expire        time.Time
+
+	// set by the one who ends the request, by a reply or by a timeout
+	ended int32
+}
+
+// end returns true for the first one to end the request, who then
+// removes it from the pending requests.
+func (self *pendingRequest) end() bool {
+	return atomic.CompareAndSwapInt32(&self.ended, 0, 1)
 }
 
 // errors
@@ -271,13 +281,14 @@ func (self *StreamingClient) recvLoop() {
 
 func (self *StreamingClient) handleResult(msg jlib.Message) {
 	msgId := msg.MustId()
-	v, loaded := self.pendingRequests.LoadAndDelete(msgId)
-	if !loaded {
+	v, loaded := self.pendingRequests.Load(msgId)
+	if !loaded || !v.(*pendingRequest).end() {
 		if self.messageHandler != nil {
 			self.messageHandler(msg)
 		}
 		return
 	}
+	self.pendingRequests.Delete(msgId)
 
 	if pending, ok := v.(*pendingRequest); ok {
 		if msgId != pending.reqmsg.Id {
@@ -289,19 +300,14 @@ func (self *StreamingClient) handleResult(msg jlib.Message) {
 	}
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
-	// ctx, cancel := context.WithCancel(rootCtx)
-	// defer cancel()
+// expire ends the pending request when it is not answered in time
+func (self *StreamingClient) expire(k interface{}, pending *pendingRequest, after time.Duration) {
 	select {
-	// case <- ctx.Done():
-	// 	return
 	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
+		if pending.end() {
+			self.pendingRequests.Delete(k)
+			timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
+			pending.resultChannel <- timeout
 		}
 	}
 }
@@ -360,7 +366,7 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	if err != nil {
 		return nil, err
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
+	go self.expire(sendmsg.Id, p, time.Second*10)
 
 	resmsg, ok := <-ch
 	if !ok {
-- 
2.43.0


From 16d3527a8ae92603ba431f09ad99dadc743e5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 24/44] fix: a streaming connection ends exactly once and never
 takes a later one with it

---
 http/streaming_client.go | 193 ++++++++++++++++++++++++++-------------
 1 file changed, 128 insertions(+), 65 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 75b8ac4..cccf4c0 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -42,6 +42,23 @@ type Transport interface {
 	WriteMessage(msg jlib.Message) error
 }
 
+// streamConnection is the state of one connection, from the time it is
+// established until it ends
+type streamConnection struct {
+	// func accompanied by context, this func is called when
+	// client want to deliberatly close the connection
+	cancelFunc func()
+
+	// send channel to write messsage sequencially
+	sendChannel chan jlib.Message
+
+	// channel to wait until connection closed
+	closeChannel chan error
+
+	// closed when the connection ends
+	ended chan struct{}
+}
+
 type StreamingClient struct {
 	// the server url it connects to
 	serverUrl *url.URL
@@ -64,15 +81,11 @@ type StreamingClient struct {
 	// on close handler
 	closeHandler CloseHandler
 
-	// func accompanied by context, this func is called when
-	// client want to deliberatly close the connection
-	cancelFunc func()
+	// the current connection, nil when there is none
+	connection *streamConnection
 
-	// send channel to write messsage sequencially
-	sendChannel chan jlib.Message
-
-	// channel to wait until connection closed
-	closeChannel chan error
+	// lock of the current connection and the close handler
+	stateLock sync.Mutex
 
 	// the underline transport adaptor in charge of read/write
 	// bytes
@@ -111,18 +124,26 @@ func (self *StreamingClient) ServerURL() *url.URL {
 func (self *StreamingClient) InitStreaming(serverUrl *url.URL, transport Transport) {
 	self.serverUrl = serverUrl
 	self.transport = transport
-	self.sendChannel = nil
-	self.closeChannel = nil
+	self.connection = nil
+}
+
+func (self *StreamingClient) currentConnection() *streamConnection {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+	return self.connection
 }
 
 func (self *StreamingClient) CloseChannel() chan error {
-	return self.closeChannel
+	if conn := self.currentConnection(); conn != nil {
+		return conn.closeChannel
+	}
+	return nil
 }
 
 // wait connection close and return error
 func (self *StreamingClient) Wait() error {
-	if self.closeChannel != nil {
-		err := <-self.closeChannel
+	if closeChannel := self.CloseChannel(); closeChannel != nil {
+		err := <-closeChannel
 		return err
 	} else {
 		// client not connected, just return
@@ -137,17 +158,24 @@ func (self *StreamingClient) Close() {
 }
 
 func (self *StreamingClient) Reset(err error) {
-	if self.cancelFunc != nil {
-		self.cancelFunc()
-		self.cancelFunc = nil
-	}
+	self.endConnection(self.currentConnection(), err)
+}
 
-	if self.closeChannel != nil {
-		self.closeChannel <- err
-		self.closeChannel = nil
+// endConnection ends the given connection, once, and leaves any later
+// connection alone.
+func (self *StreamingClient) endConnection(conn *streamConnection, err error) {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+
+	if conn == nil || self.connection != conn {
+		return
 	}
+	self.connection = nil
 	self.transport.Close()
-	self.sendChannel = nil
+	conn.cancelFunc()
+	close(conn.ended)
+	conn.closeChannel <- err
+	close(conn.closeChannel)
 }
 
 func (self *StreamingClient) OnMessage(handler MessageHandler) error {
@@ -167,6 +195,9 @@ func (self *StreamingClient) OnConnected(handler ConnectedHandler) error {
 }
 
 func (self *StreamingClient) OnClose(handler CloseHandler) error {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+
 	if self.closeHandler != nil {
 		return errors.New("close handler already exist!")
 	}
@@ -175,37 +206,61 @@ func (self *StreamingClient) OnClose(handler CloseHandler) error {
 }
 
 func (self *StreamingClient) Connect(rootCtx context.Context) error {
+	_, err := self.connect(rootCtx)
+	return err
+}
+
+// connect returns the current connection, after establishing it if
+// necessary
+func (self *StreamingClient) connect(rootCtx context.Context) (*streamConnection, error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
-	if !self.transport.Connected() {
-		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
-			//self.connectErr = err
-			return err
-		}
-		if self.connectedHandler != nil {
-			self.connectedHandler()
-		}
-		connCtx, cancel := context.WithCancel(rootCtx)
-		self.cancelFunc = cancel
-		self.sendChannel = make(chan jlib.Message, 100)
-		self.closeChannel = make(chan error, 10)
-		go self.sendLoop(connCtx)
-		go self.recvLoop()
-	} else {
+	conn := self.currentConnection()
+	if conn != nil && self.transport.Connected() {
 		self.Log().Debug("client already connected")
+		return conn, nil
 	}
-	return nil
+	self.endConnection(conn, TransportClosed)
+
+	if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
+		//self.connectErr = err
+		return nil, err
+	}
+	if self.connectedHandler != nil {
+		self.connectedHandler()
+	}
+	connCtx, cancel := context.WithCancel(rootCtx)
+	conn = &streamConnection{
+		cancelFunc:   cancel,
+		sendChannel:  make(chan jlib.Message, 100),
+		closeChannel: make(chan error, 10),
+		ended:        make(chan struct{}),
+	}
+	self.stateLock.Lock()
+	self.connection = conn
+	self.stateLock.Unlock()
+
+	go self.sendLoop(connCtx, conn)
+	go self.recvLoop(conn)
+	return conn, nil
 }
 
-func (self *StreamingClient) handleError(err error) {
+func (self *StreamingClient) handleError(conn *streamConnection, err error) {
 	if errors.Is(err, TransportClosed) {
 		self.Log().Debug("transport closed")
 	}
-	self.Reset(err)
-	if self.closeHandler != nil {
-		self.closeHandler()
-		self.closeHandler = nil
+	self.endConnection(conn, err)
+}
+
+func (self *StreamingClient) handleClose() {
+	self.stateLock.Lock()
+	closeHandler := self.closeHandler
+	self.closeHandler = nil
+	self.stateLock.Unlock()
+
+	if closeHandler != nil {
+		closeHandler()
 	}
 }
 
@@ -213,8 +268,7 @@ func (self *StreamingClient) Connected() bool {
 	return self.transport.Connected()
 }
 
-func (self *StreamingClient) sendLoop(connCtx context.Context) {
-	//defer self.Reset(nil)
+func (self *StreamingClient) sendLoop(connCtx context.Context, conn *streamConnection) {
 	defer func() {
 		self.Log().Debug("sendLoop stop")
 	}()
@@ -223,43 +277,40 @@ func (self *StreamingClient) sendLoop(connCtx context.Context) {
 
 	self.Log().Debug("sendLoop start")
 	for {
-		if !self.transport.Connected() {
-			return
-		}
 		select {
 		case <-ctx.Done():
 			self.Log().Debug("ctx Done")
-			self.Close()
+			self.endConnection(conn, nil)
 			return
-		case msg, ok := <-self.sendChannel:
-			if !ok {
-				return
-			}
-			if !self.transport.Connected() {
+		case msg := <-conn.sendChannel:
+			if self.currentConnection() != conn {
 				return
 			}
 			err := self.transport.WriteMessage(msg)
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
-				self.handleError(err)
+				self.handleError(conn, err)
 				return
 			}
 		}
 	}
 }
 
-func (self *StreamingClient) recvLoop() {
+func (self *StreamingClient) recvLoop(conn *streamConnection) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
 		self.Log().Debug("recvLoop stop")
 	}()
+	// the connection has ended when the loop is over
+	defer self.handleClose()
+
 	for {
-		if !self.transport.Connected() {
+		if self.currentConnection() != conn {
 			return
 		}
 		msg, readed, err := self.transport.ReadMessage()
 		if err != nil {
-			self.handleError(err)
+			self.handleError(conn, err)
 			return
 		}
 		if !readed {
@@ -337,7 +388,7 @@ func (self *StreamingClient) Call(rootCtx context.Context, reqmsg *jlib.RequestM
 }
 
 func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.RequestMessage) (jlib.Message, error) {
-	err := self.Connect(rootCtx)
+	conn, err := self.connect(rootCtx)
 	if err != nil {
 		return nil, err
 	}
@@ -362,12 +413,20 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 		self.pendingRequests.Store(sendmsg.Id, p)
 	}
 
-	err = self.Send(rootCtx, sendmsg)
-	if err != nil {
-		return nil, err
-	}
 	go self.expire(sendmsg.Id, p, time.Second*10)
 
+	select {
+	case conn.sendChannel <- sendmsg:
+	case <-conn.ended:
+		if p.end() {
+			self.pendingRequests.Delete(sendmsg.Id)
+		}
+		return nil, TransportClosed
+	case resmsg := <-ch:
+		// no time left to send it
+		return resmsg, nil
+	}
+
 	resmsg, ok := <-ch
 	if !ok {
 		return nil, errors.New("result channel closed")
@@ -376,10 +435,14 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
-	err := self.Connect(rootCtx)
+	conn, err := self.connect(rootCtx)
 	if err != nil {
 		return err
 	}
-	self.sendChannel <- msg
-	return nil
+	select {
+	case conn.sendChannel <- msg:
+		return nil
+	case <-conn.ended:
+		return TransportClosed
+	}
 }
-- 
2.43.0


From e81ca13aead40ceaae1d53ea0f1a2ef64f28c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 25/44] fix: the connected handler may use its streaming client

---
 http/streaming_client.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index cccf4c0..3b7b49c 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -213,22 +213,28 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 // connect returns the current connection, after establishing it if
 // necessary
 func (self *StreamingClient) connect(rootCtx context.Context) (*streamConnection, error) {
+	conn, established, err := self.establish(rootCtx)
+	// the handler may use the client, hence it's called without lock
+	if established && self.connectedHandler != nil {
+		self.connectedHandler()
+	}
+	return conn, err
+}
+
+func (self *StreamingClient) establish(rootCtx context.Context) (conn *streamConnection, established bool, err error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
-	conn := self.currentConnection()
+	conn = self.currentConnection()
 	if conn != nil && self.transport.Connected() {
 		self.Log().Debug("client already connected")
-		return conn, nil
+		return conn, false, nil
 	}
 	self.endConnection(conn, TransportClosed)
 
 	if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
 		//self.connectErr = err
-		return nil, err
-	}
-	if self.connectedHandler != nil {
-		self.connectedHandler()
+		return nil, false, err
 	}
 	connCtx, cancel := context.WithCancel(rootCtx)
 	conn = &streamConnection{
@@ -243,7 +249,7 @@ func (self *StreamingClient) connect(rootCtx context.Context) (*streamConnection
 
 	go self.sendLoop(connCtx, conn)
 	go self.recvLoop(conn)
-	return conn, nil
+	return conn, true, nil
 }
 
 func (self *StreamingClient) handleError(conn *streamConnection, err error) {
-- 
2.43.0


From 49a54fef61eb49cc0767ef4f0e6430ecd359c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 26/44] fix: closing a streaming client no longer takes the
 connection from under its reader and writer

---
 http/h2_client.go | 33 ++++++++++++++++++++++++++++-----
 http/ws_client.go | 32 +++++++++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index f3aad83..ff00724 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -29,7 +29,11 @@ type H2Client struct {
 }
 
 type h2Transport struct {
-	client  *H2Client
+	client *H2Client
+
+	// the lock of the connection, which Close() takes away from the
+	// reader and the writer
+	lock    sync.Mutex
 	resp    *http.Response
 	decoder *json.Decoder
 	writer  io.Writer
@@ -93,6 +97,8 @@ func (self *H2Client) String() string {
 
 // http2 transport methods
 func (self *h2Transport) Close() {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.resp != nil {
 		self.resp.Body.Close()
 		self.resp = nil
@@ -102,7 +108,9 @@ func (self *h2Transport) Close() {
 	}
 }
 
-func (self h2Transport) Connected() bool {
+func (self *h2Transport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	return self.resp != nil
 }
 
@@ -120,6 +128,8 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.writer = pipeWriter
 	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
@@ -148,14 +158,27 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 	}
 
 	marshaled = append(marshaled, []byte("\n")...)
-	if _, err := self.writer.Write(marshaled); err != nil {
+	self.lock.Lock()
+	writer := self.writer
+	self.lock.Unlock()
+	if writer == nil {
+		return TransportClosed
+	}
+	if _, err := writer.Write(marshaled); err != nil {
 		return self.handleHttp2Error(err)
 	}
 	return nil
 }
 
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
-	msg, err := jlib.DecodeMessage(self.decoder)
+	self.lock.Lock()
+	decoder := self.decoder
+	connected := self.resp != nil
+	self.lock.Unlock()
+	if !connected {
+		return nil, false, TransportClosed
+	}
+	msg, err := jlib.DecodeMessage(decoder)
 	if err != nil {
 		if errors.Is(err, io.EOF) {
 			return nil, false, TransportClosed
@@ -164,7 +187,7 @@ func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
 		}
 		self.client.Log().Warnf(
 			"bad jsonrpc message %s %s, at pos %d",
-			reflect.TypeOf(err), err, self.decoder.InputOffset())
+			reflect.TypeOf(err), err, decoder.InputOffset())
 		return nil, false, err
 	}
 	return msg, true, nil
diff --git a/http/ws_client.go b/http/ws_client.go
index 80023e7..5f9a75a 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -12,6 +12,7 @@ import (
 	"net/http"
 	"net/url"
 	"reflect"
+	"sync"
 )
 
 type WSClient struct {
@@ -19,7 +20,10 @@ type WSClient struct {
 }
 
 type wsTransport struct {
-	ws *websocket.Conn
+	// the lock of ws, which Close() takes away from the reader and
+	// the writer
+	lock sync.Mutex
+	ws   *websocket.Conn
 
 	client *WSClient
 }
@@ -40,14 +44,22 @@ func (self *WSClient) String() string {
 
 // websocket transport methods
 func (self *wsTransport) Close() {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.ws != nil {
 		self.ws.Close()
 		self.ws = nil
 	}
 }
 
-func (self wsTransport) Connected() bool {
-	return self.ws != nil
+func (self *wsTransport) conn() *websocket.Conn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.ws
+}
+
+func (self *wsTransport) Connected() bool {
+	return self.conn() != nil
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
@@ -62,6 +74,8 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		}
 		return errors.Wrap(err, "wstransport.connect")
 	}
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.ws = ws
 	return nil
 }
@@ -87,14 +101,22 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
+	ws := self.conn()
+	if ws == nil {
+		return TransportClosed
+	}
+	if err := ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 		return self.handleWebsocketError(err)
 	}
 	return nil
 }
 
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
-	messageType, msgBytes, err := self.ws.ReadMessage()
+	ws := self.conn()
+	if ws == nil {
+		return nil, false, TransportClosed
+	}
+	messageType, msgBytes, err := ws.ReadMessage()
 	if err != nil {
 		return nil, false, self.handleWebsocketError(err)
 	}
-- 
2.43.0


From f7258b607823494e3820f0efd77a3682e3c937c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 27/44] fix: the HTTP/1 client over TLS switched to HTTP/2,
 where the server takes its request for a stream

---
 http/h1_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..9a50910 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -53,6 +53,10 @@ func (self *H1Client) connect() {
 			MaxIdleConns:        30,
 			MaxIdleConnsPerHost: 10,
 			IdleConnTimeout:     30 * time.Second,
+
+			// no switch to HTTP/2, whose requests the server
+			// takes for streaming sessions
+			TLSNextProto: make(map[string]func(string, *tls.Conn) http.RoundTripper),
 		}
 		if self.clientTLS != nil {
 			tr.TLSClientConfig = self.clientTLS
-- 
2.43.0


From 1aa4c9add965ac76db9be818a32c5cba48d39620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 28/44] fix: the HTTP/1 client removed the trace id from the
 caller's message

---
 http/h1_client.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index 9a50910..25508ec 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -99,14 +99,33 @@ func (self *H1Client) Call(rootCtx context.Context, reqmsg *jlib.RequestMessage)
 	return resmsg, nil
 }
 
+// bodyBytes encodes the message without its trace id, which goes to a
+// http header, and leaves the message as it is
+func (self *H1Client) bodyBytes(msg jlib.Message) ([]byte, error) {
+	switch m := msg.(type) {
+	case *jlib.RequestMessage:
+		copied := *m
+		msg = &copied
+	case *jlib.NotifyMessage:
+		copied := *m
+		msg = &copied
+	case *jlib.ResultMessage:
+		copied := *m
+		msg = &copied
+	case *jlib.ErrorMessage:
+		copied := *m
+		msg = &copied
+	}
+	msg.SetTraceId("")
+	return jlib.MessageBytes(msg)
+}
+
 func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessage) (jlib.Message, error) {
 	self.connect()
 
 	traceId := reqmsg.TraceId()
 
-	reqmsg.SetTraceId("")
-
-	marshaled, err := jlib.MessageBytes(reqmsg)
+	marshaled, err := self.bodyBytes(reqmsg)
 	if err != nil {
 		return nil, err
 	}
@@ -176,9 +195,8 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	self.connect()
 
 	traceId := msg.TraceId()
-	msg.SetTraceId("")
 
-	marshaled, err := jlib.MessageBytes(msg)
+	marshaled, err := self.bodyBytes(msg)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 956441b15ff46664654b417a305572c728ed68bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 29/44] fix: the TLS settings of a websocket client applied to
 every user of the default dialer

---
 http/ws_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/ws_client.go b/http/ws_client.go
index 5f9a75a..3bdd949 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -63,7 +63,8 @@ func (self *wsTransport) Connected() bool {
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
-	dailer := websocket.DefaultDialer
+	// a copy, the default dialer is shared by all clients
+	dailer := *websocket.DefaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
 	ws, _, err := dailer.Dial(serverUrl.String(), header)
 	if err != nil {
-- 
2.43.0


From 68e3b74050784e36bc63b146b9518423bd14b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 30/44] fix: the gateway did not take Upgrade: WebSocket for a
 websocket

---
 http/gateway_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/gateway_handler.go b/http/gateway_handler.go
index 5c8791d..06714c2 100644
--- a/http/gateway_handler.go
+++ b/http/gateway_handler.go
@@ -3,6 +3,7 @@ package jlibhttp
 import (
 	"context"
 	"net/http"
+	"strings"
 )
 
 // shared handler serve http1/http2/websocket server over the same port
@@ -44,7 +45,8 @@ func (self *GatewayHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	upgradeHeader := r.Header.Get("Upgrade")
+	// the names of protocols are case insensitive
+	upgradeHeader := strings.ToLower(r.Header.Get("Upgrade"))
 	if upgradeHeader == "websocket" {
 		// maybe websocket handler
 		self.wsHandler.ServeHTTP(w, r)
-- 
2.43.0


From 0807dfa73dc67ea27ef90b1de8f4b8ac7a98162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 31/44] fix: a message handled when its websocket session ended
 crashed the process

---
 http/ws_server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..75c3465 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -66,7 +66,6 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
 }
 
 // websocket session
-- 
2.43.0


From 777cf6ffc6df7fa40593f6c3c9a03cc483cab4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 32/44] fix: a message sent when its HTTP/2 session ended
 crashed the process

---
 http/h2_server.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..f49f582 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"net/http"
 	"sync"
+	"time"
 )
 
 type H2Handler struct {
@@ -32,7 +33,9 @@ type H2Session struct {
 	flusher     http.Flusher
 	httpRequest *http.Request
 	rootCtx     context.Context
+	cancelFunc  func()
 	done        chan error
+	sendDone    chan struct{}
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -82,9 +85,12 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	flusher.Flush()
 
 	decoder := json.NewDecoder(r.Body)
+	rootCtx, cancel := context.WithCancel(r.Context())
 	session := &H2Session{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     rootCtx,
+		cancelFunc:  cancel,
+		sendDone:    make(chan struct{}),
 		httpRequest: r,
 		writer:      w,
 		flusher:     flusher,
@@ -93,6 +99,7 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
+	defer session.stopSending()
 	defer func() {
 		r.Body.Close()
 		self.Actor.HandleClose(r, session)
@@ -170,6 +177,22 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 	}
 }
 
+// stopSending waits until the send loop has stopped, because nothing
+// may be written after the http handler has returned.
+func (self *H2Session) stopSending() {
+	self.cancelFunc()
+	select {
+	case <-self.sendDone:
+		return
+	case <-time.After(time.Second):
+	}
+	// the client does not read, stop waiting for it
+	if w, ok := self.writer.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		w.SetWriteDeadline(time.Now())
+	}
+	<-self.sendDone
+}
+
 func (self *H2Session) Send(msg jlib.Message) {
 	self.sendChannel <- msg
 }
@@ -179,6 +202,8 @@ func (self H2Session) SessionID() string {
 }
 
 func (self *H2Session) sendLoop() {
+	defer close(self.sendDone)
+
 	ctx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
 
-- 
2.43.0


From 4b7f8b275f53033dd440b616546ccb41e3bc0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 33/44] fix: after a result that cannot be encoded a streaming
 session answered nothing any more

---
 http/h2_server.go | 11 ++++++++++-
 http/ws_server.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index f49f582..12a1839 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -221,7 +221,16 @@ func (self *H2Session) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				if !msg.IsResultOrError() {
+					continue
+				}
+				// the caller still waits for a reply
+				errmsg := jlib.ErrInternalError.ToMessageFromId(
+					msg.MustId(), msg.TraceId())
+				marshaled, err = jlib.MessageBytes(errmsg)
+				if err != nil {
+					continue
+				}
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
diff --git a/http/ws_server.go b/http/ws_server.go
index 75c3465..3aabba2 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -169,7 +169,16 @@ func (self *WSSession) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				if !msg.IsResultOrError() {
+					continue
+				}
+				// the caller still waits for a reply
+				errmsg := jlib.ErrInternalError.ToMessageFromId(
+					msg.MustId(), msg.TraceId())
+				marshaled, err = jlib.MessageBytes(errmsg)
+				if err != nil {
+					continue
+				}
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
-- 
2.43.0


From a3ded52c1f9725bec082535c5d5229c9ac3b3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 34/44] fix: whoever sent to a streaming session after its end
 could block forever

---
 http/h2_server.go | 30 +++++++++++++++++++++---------
 http/ws_server.go | 35 +++++++++++++++++++++++++----------
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index 12a1839..c87a692 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -140,7 +140,7 @@ func (self *H2Session) recvLoop() {
 			if errors.Is(err, io.EOF) {
 				break
 			} else {
-				self.done <- err
+				self.finish(err)
 				return
 			}
 		}
@@ -151,7 +151,7 @@ func (self *H2Session) recvLoop() {
 		}
 	}
 	// end of scanning
-	self.done <- nil
+	self.finish(nil)
 	return
 }
 
@@ -165,15 +165,11 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
@@ -194,7 +190,23 @@ func (self *H2Session) stopSending() {
 }
 
 func (self *H2Session) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	if self.rootCtx.Err() != nil {
+		// the session has ended, nobody takes the message
+		return
+	}
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+	}
+}
+
+// finish ends the session
+func (self *H2Session) finish(err error) {
+	select {
+	case self.done <- err:
+	default:
+		// it has been ended often enough
+	}
 }
 
 func (self H2Session) SessionID() string {
diff --git a/http/ws_server.go b/http/ws_server.go
index 3aabba2..6890e6b 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -53,9 +53,12 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	defer ws.Close()
 
+	rootCtx, cancel := context.WithCancel(r.Context())
+	defer cancel()
+
 	session := &WSSession{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     rootCtx,
 		httpRequest: r,
 		ws:          ws,
 		done:        make(chan error, 10),
@@ -98,7 +101,7 @@ func (self *WSSession) recvLoop() {
 	for {
 		messageType, msgBytes, err := self.ws.ReadMessage()
 		if err != nil {
-			self.done <- errors.Wrap(err, "ws.ReadMessage()")
+			self.finish(errors.Wrap(err, "ws.ReadMessage()"))
 			return
 		}
 		if messageType != websocket.TextMessage {
@@ -118,7 +121,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	msg, err := jlib.ParseBytes(msgBytes)
 	if err != nil {
 		log.Warnf("bad jsonrpc message %s", msgBytes)
-		self.done <- errors.New("bad jsonrpc message")
+		self.finish(errors.New("bad jsonrpc message"))
 		return
 	}
 
@@ -131,20 +134,32 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
 func (self *WSSession) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	if self.rootCtx.Err() != nil {
+		// the session has ended, nobody takes the message
+		return
+	}
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+	}
+}
+
+// finish ends the session
+func (self *WSSession) finish(err error) {
+	select {
+	case self.done <- err:
+	default:
+		// it has been ended often enough
+	}
 }
 
 func (self WSSession) SessionID() string {
-- 
2.43.0


From b1231ec516886957bc4ee804359b665868d3158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 35/44] fix: after a failed write a streaming session stayed
 open and blocked whoever sent to it

---
 http/h2_server.go | 1 +
 http/ws_server.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/http/h2_server.go b/http/h2_server.go
index c87a692..b0c4cbc 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -248,6 +248,7 @@ func (self *H2Session) sendLoop() {
 			marshaled = append(marshaled, []byte("\n")...)
 			if _, err := self.writer.Write(marshaled); err != nil {
 				log.Warnf("h2 writedata warning message %s\n", err)
+				self.finish(errors.Wrap(err, "h2 write"))
 				return
 			}
 			self.flusher.Flush()
diff --git a/http/ws_server.go b/http/ws_server.go
index 6890e6b..5661d73 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -198,6 +198,7 @@ func (self *WSSession) sendLoop() {
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 				log.Warnf("write warning message %s", err)
+				self.finish(errors.Wrap(err, "ws.WriteMessage()"))
 				return
 			}
 		}
-- 
2.43.0


From f83bbc8552bbbc10924c26f7dd263d23e67ac832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 36/44] fix: a closed HTTP/2 client kept its connection and
 used it again after the server had gone

---
 http/h2_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h2_client.go b/http/h2_client.go
index ff00724..bf69b24 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -101,6 +101,9 @@ func (self *h2Transport) Close() {
 	defer self.lock.Unlock()
 	if self.resp != nil {
 		self.resp.Body.Close()
+		// leave no connection behind, which a later session would
+		// use though its server may be gone
+		self.client.HTTPClient().CloseIdleConnections()
 		self.resp = nil
 		self.writer = nil
 		self.flusher = nil
-- 
2.43.0


From 355350ffab7ca592fa6669ca1cb7f612501e7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:22 +0000
Subject: [PATCH 37/44] fix: the notify tool exited before a streaming client
 had sent the message

---
 cli/notify/main.go       | 11 +++++++
 http/h2_client.go        | 11 +++++++
 http/streaming_client.go | 63 ++++++++++++++++++++++++++++++++++++++--
 http/ws_client.go        | 11 +++++++
 4 files changed, 94 insertions(+), 2 deletions(-)

diff --git a/cli/notify/main.go b/cli/notify/main.go
index a39aeeb..088bb0f 100644
--- a/cli/notify/main.go
+++ b/cli/notify/main.go
@@ -7,6 +7,7 @@ import (
 	"github.com/superisaac/jlib"
 	"github.com/superisaac/jlib/http"
 	"os"
+	"time"
 )
 
 func main() {
@@ -64,4 +65,14 @@ func main() {
 		fmt.Fprintf(os.Stderr, "rpc error: %s\n", err)
 		os.Exit(1)
 	}
+
+	// a streaming client only puts the message into a queue
+	if sc, ok := c.(interface{ Finish(context.Context) error }); ok {
+		ctx, cancel := context.WithTimeout(context.Background(), time.Second*10)
+		defer cancel()
+		if err := sc.Finish(ctx); err != nil {
+			fmt.Fprintf(os.Stderr, "rpc error: %s\n", err)
+			os.Exit(1)
+		}
+	}
 }
diff --git a/http/h2_client.go b/http/h2_client.go
index bf69b24..82afcd3 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -173,6 +173,17 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 	return nil
 }
 
+// Finish ends the request body
+func (self *h2Transport) Finish() error {
+	self.lock.Lock()
+	writer := self.writer
+	self.lock.Unlock()
+	if closer, ok := writer.(io.Closer); ok {
+		return closer.Close()
+	}
+	return TransportClosed
+}
+
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
 	self.lock.Lock()
 	decoder := self.decoder
diff --git a/http/streaming_client.go b/http/streaming_client.go
index 3b7b49c..b619558 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -42,6 +42,12 @@ type Transport interface {
 	WriteMessage(msg jlib.Message) error
 }
 
+// finishable is a transport that can tell the server that no more
+// messages follow, upon which the server ends the connection
+type finishable interface {
+	Finish() error
+}
+
 // streamConnection is the state of one connection, from the time it is
 // established until it ends
 type streamConnection struct {
@@ -49,9 +55,13 @@ type streamConnection struct {
 	// client want to deliberatly close the connection
 	cancelFunc func()
 
-	// send channel to write messsage sequencially
+	// send channel to write messsage sequencially, a nil message
+	// finishes the connection
 	sendChannel chan jlib.Message
 
+	// closed when the messages before the nil one are written
+	finished chan struct{}
+
 	// channel to wait until connection closed
 	closeChannel chan error
 
@@ -157,6 +167,36 @@ func (self *StreamingClient) Close() {
 	}
 }
 
+// Finish closes the connection after the messages sent so far have
+// got to the server.
+func (self *StreamingClient) Finish(rootCtx context.Context) error {
+	conn := self.currentConnection()
+	if conn == nil {
+		return TransportClosed
+	}
+	select {
+	case conn.sendChannel <- nil:
+	case <-conn.ended:
+		return TransportClosed
+	case <-rootCtx.Done():
+		return rootCtx.Err()
+	}
+
+	// the server ends the connection
+	select {
+	case <-conn.ended:
+	case <-rootCtx.Done():
+		self.Close()
+		return rootCtx.Err()
+	}
+	select {
+	case <-conn.finished:
+		return nil
+	default:
+		return TransportClosed
+	}
+}
+
 func (self *StreamingClient) Reset(err error) {
 	self.endConnection(self.currentConnection(), err)
 }
@@ -240,6 +280,7 @@ func (self *StreamingClient) establish(rootCtx context.Context) (conn *streamCon
 	conn = &streamConnection{
 		cancelFunc:   cancel,
 		sendChannel:  make(chan jlib.Message, 100),
+		finished:     make(chan struct{}),
 		closeChannel: make(chan error, 10),
 		ended:        make(chan struct{}),
 	}
@@ -282,16 +323,23 @@ func (self *StreamingClient) sendLoop(connCtx context.Context, conn *streamConne
 	defer cancel()
 
 	self.Log().Debug("sendLoop start")
+	sendChannel := conn.sendChannel
 	for {
 		select {
 		case <-ctx.Done():
 			self.Log().Debug("ctx Done")
 			self.endConnection(conn, nil)
 			return
-		case msg := <-conn.sendChannel:
+		case msg := <-sendChannel:
 			if self.currentConnection() != conn {
 				return
 			}
+			if msg == nil {
+				self.finish(conn)
+				// no more messages follow
+				sendChannel = nil
+				continue
+			}
 			err := self.transport.WriteMessage(msg)
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
@@ -302,6 +350,17 @@ func (self *StreamingClient) sendLoop(connCtx context.Context, conn *streamConne
 	}
 }
 
+func (self *StreamingClient) finish(conn *streamConnection) {
+	close(conn.finished)
+	transport, ok := self.transport.(finishable)
+	if !ok {
+		self.endConnection(conn, nil)
+	} else if err := transport.Finish(); err != nil {
+		self.Log().Warnf("finish error %s", err)
+		self.handleError(conn, err)
+	}
+}
+
 func (self *StreamingClient) recvLoop(conn *streamConnection) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
diff --git a/http/ws_client.go b/http/ws_client.go
index 3bdd949..eb6df3b 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -112,6 +112,17 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 	return nil
 }
 
+// Finish starts the closing handshake
+func (self *wsTransport) Finish() error {
+	ws := self.conn()
+	if ws == nil {
+		return TransportClosed
+	}
+	return ws.WriteMessage(
+		websocket.CloseMessage,
+		websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+}
+
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
 	ws := self.conn()
 	if ws == nil {
-- 
2.43.0


From 57bbc374f391ab9d055a4bd7d8c60f20a91c0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 38/44] fix: the watch tool exited with 0 when it could not
 connect

---
 cli/watch/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/watch/main.go b/cli/watch/main.go
index d37a6e8..996b9c0 100644
--- a/cli/watch/main.go
+++ b/cli/watch/main.go
@@ -88,8 +88,9 @@ func main() {
 		params:     params,
 	}
 
-	watcher.run()
-
+	if err := watcher.run(); err != nil {
+		os.Exit(1)
+	}
 }
 
 type jsonrpcWatcher struct {
@@ -100,7 +101,7 @@ type jsonrpcWatcher struct {
 	connectretry int
 }
 
-func (self *jsonrpcWatcher) run() {
+func (self *jsonrpcWatcher) run() error {
 	for {
 		if err := self.connect(); err != nil {
 			if errors.Is(err, jlibhttp.TransportConnectFailed) ||
@@ -110,17 +111,17 @@ func (self *jsonrpcWatcher) run() {
 				self.connectretry++
 				log.Infof("connect failed %d/%d times", self.connectretry, self.retrylimit)
 				if self.connectretry >= self.retrylimit {
-					break
+					return err
 				} else {
 					time.Sleep(1 * time.Second)
 					continue
 				}
 			} else {
 				log.Errorf("watch error %s, %s", reflect.TypeOf(err), err)
-				break
+				return err
 			}
 		} else {
-			break
+			return nil
 		}
 	}
 }
-- 
2.43.0


From fc487b02bf23b9e62b51e48e034caa302232069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 39/44] fix: the HTTP/2 client took a refusal of the server for
 a connection

---
 http/h2_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/h2_client.go b/http/h2_client.go
index 82afcd3..2d92102 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -131,6 +131,11 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		resp.Body.Close()
+		pipeWriter.Close()
+		return errors.Errorf("h2transport.connect: abnormal response %d", resp.StatusCode)
+	}
 	self.lock.Lock()
 	defer self.lock.Unlock()
 	self.writer = pipeWriter
-- 
2.43.0


From bfb92a8dffb2dd83b555b018834b037ea1a6a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 40/44] fix: recover from a panic of the missing handler for
 results and errors too

---
 http/request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http/request.go b/http/request.go
index a696279..ac68917 100644
--- a/http/request.go
+++ b/http/request.go
@@ -293,8 +293,7 @@ func (self *Actor) Feed(req *RPCRequest) (jlib.Message, error) {
 	msg := req.Msg()
 	if !msg.IsRequestOrNotify() {
 		if self.missingHandler != nil {
-			res, err := self.missingHandler(req)
-			return self.wrapResult(res, err, msg)
+			return self.recoverCallMissingHandler(req)
 		} else {
 			req.Log().Info("no handler to handle this message")
 			return nil, nil
-- 
2.43.0


From f3376f0b146e83da384a2ad28f33bcebb4ed8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 41/44] fix: an HTTP/1 response that is no reply fails the call

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 25508ec..20cc130 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -187,6 +187,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, err
 	}
+	if !respmsg.IsResultOrError() {
+		return nil, errors.New("the response is neither a result nor an error")
+	}
 	respmsg.SetTraceId(traceId)
 	return respmsg, nil
 }
-- 
2.43.0


From 8b6079b3092648121450354d7c30ac5827a0f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 42/44] fix: connecting honours the context of the caller

---
 http/h2_client.go | 2 +-
 http/ws_client.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 2d92102..aaeea13 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -127,7 +127,7 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		Body:   pipeReader,
 	}
 
-	resp, err := self.client.HTTPClient().Do(req)
+	resp, err := self.client.HTTPClient().Do(req.WithContext(rootCtx))
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
diff --git a/http/ws_client.go b/http/ws_client.go
index eb6df3b..e1a38f5 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -66,7 +66,7 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	// a copy, the default dialer is shared by all clients
 	dailer := *websocket.DefaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
-	ws, _, err := dailer.Dial(serverUrl.String(), header)
+	ws, _, err := dailer.DialContext(rootCtx, serverUrl.String(), header)
 	if err != nil {
 		var opErr *net.OpError
 		if errors.As(err, &opErr) {
-- 
2.43.0


From 235eef0d11d4005d6fe0c62fba0a0a6ae7d26e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 43/44] fix: a trace id that no header can carry does not break
 the HTTP reply

---
 http/h1_server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 0dfefe8..b369abb 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"github.com/pkg/errors"
 	"github.com/superisaac/jlib"
+	"golang.org/x/net/http/httpguts"
 	//"io"
 	"net/http"
 )
@@ -80,7 +81,12 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	//if msg.IsRequest() {
 	if resmsg != nil {
 		traceId := resmsg.TraceId()
-		resmsg.SetTraceId("")
+		if httpguts.ValidHeaderFieldValue(traceId) {
+			resmsg.SetTraceId("")
+		} else {
+			// no header can carry it, it stays in the body
+			traceId = ""
+		}
 
 		data, err1 := jlib.MessageBytes(resmsg)
 		if err1 != nil {
-- 
2.43.0


From 5ab95268117727e2ce40b0dbf55c8c8322ff7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 44/44] fix: typed handlers may be variadic

---
 http/typewrap.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 566e282..5c44443 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -136,9 +136,18 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 		return nil, errors.New("second output does not implement error")
 	}
 
+	// the last argument of a variadic function takes the rest of the
+	// params, each of its element type
+	numFixed := numIn
+	var restType reflect.Type
+	if funcType.IsVariadic() {
+		numFixed--
+		restType = funcType.In(numFixed).Elem()
+	}
+
 	handler := func(req *RPCRequest, params []interface{}) (interface{}, error) {
 		// check inputs
-		if numIn > len(params)+firstArgNum {
+		if numFixed > len(params)+firstArgNum {
 			return nil, jlib.ParamsError("no enough params size")
 		}
 
@@ -149,8 +158,11 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 			fnArgs = append(fnArgs, reflect.ValueOf(v))
 		}
 		j := 0
-		for i := firstArgNum; i < numIn; i++ {
-			argType := funcType.In(i)
+		for i := firstArgNum; i < numFixed || (restType != nil && j < len(params)); i++ {
+			argType := restType
+			if i < numFixed {
+				argType = funcType.In(i)
+			}
 			param := params[j]
 			j++
 
-- 
2.43.0

