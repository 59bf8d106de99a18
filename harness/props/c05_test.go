package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"testing"

	"github.com/superisaac/jlib/schema"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c05Step struct {
	S    int             `json:"s"`
	Doc  json.RawMessage `json:"doc"`
	Form string          `json:"form"` // parsed bytes native
}

type c05Case struct {
	Schemas []Sch     `json:"schemas"`
	Steps   []c05Step `json:"steps"`
}

// nativeDoc turns number literals into Go ints and floats.
func nativeDoc(v any) any {
	switch x := v.(type) {
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return int(i)
		}
		f, _ := x.Float64()
		return f
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = nativeDoc(x[i])
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k := range x {
			m[k] = nativeDoc(x[k])
		}
		return m
	}
	return v
}

func schVerdict(want *broken, got *jlibschema.ErrorPos) error {
	if want.open {
		return nil
	}
	if got == nil {
		if len(want.paths) > 0 {
			return fmt.Errorf("accepted although rules are broken at %q", pbt.Keys(want.paths))
		}
		return nil
	}
	if len(want.paths) == 0 {
		return fmt.Errorf("conforming document rejected: %v", got)
	}
	if !want.paths[got.Path()] {
		return fmt.Errorf("rejected at %q, rules are broken at %q", got.Path(), pbt.Keys(want.paths))
	}
	return nil
}

func c05Run(r *pbt.Rec, c c05Case) error {
	var built, direct []jlibschema.Schema
	for _, s := range c.Schemas {
		d := pbt.Raw(s.desc())
		b, err := jlibschema.NewSchemaBuilder().BuildBytes(d)
		if err != nil {
			return fmt.Errorf("building %s: %v", d, err)
		}
		built = append(built, b)
		direct = append(direct, s.direct())
		s.each(func(k Sch, depth int) {
			if depth == 0 {
				r.Label("root %s", k.K)
			} else {
				r.Label("inner %s", k.K)
			}
		}, 0)
	}
	shared := jlibschema.NewSchemaValidator()
	rejected := false
	type kept struct {
		at   int
		pos  *jlibschema.ErrorPos
		path string
		text string
	}
	var keep []kept
	for i, st := range c.Steps {
		s := c.Schemas[st.S]
		doc := pbt.MustDec(st.Doc)
		want := check(s, doc)
		if want.open {
			r.Label("open")
		} else if len(want.paths) > 0 {
			r.Label("rejected")
			rejected = true
		} else {
			r.Label("accepted")
			if s.K != "any" {
				r.NonTrivial()
			}
		}
		if rejected && i > 0 {
			r.Label("validator reused after a rejection")
		}
		given := func() any {
			if st.Form == "native" {
				return nativeDoc(doc)
			}
			return pbt.Fresh(doc)
		}
		where := func(what string, err error) error {
			return fmt.Errorf("step %d, %s, schema %s, document %s: %w", i, what, pbt.Short(s.desc()), pbt.Short(doc), err)
		}
		run := func(v *jlibschema.SchemaValidator, x jlibschema.Schema) (pos *jlibschema.ErrorPos) {
			if st.Form == "bytes" {
				pos = v.ValidateBytes(x, st.Doc)
			} else {
				pos = v.Validate(x, given())
			}
			if pos != nil {
				keep = append(keep, kept{i, pos, pos.Path(), pos.Error()})
			}
			return pos
		}
		if err := schVerdict(want, run(shared, built[st.S])); err != nil {
			return where("shared validator", err)
		}
		if err := schVerdict(want, run(jlibschema.NewSchemaValidator(), built[st.S])); err != nil {
			return where("fresh validator", err)
		}
		if err := schVerdict(want, run(shared, direct[st.S])); err != nil {
			return where("directly made schema", err)
		}
		if ms, ok := built[st.S].(*jlibschema.MethodSchema); ok {
			if m, ok := given().(map[string]any); ok {
				if l, ok := m["params"].([]any); ok && m["result"] == nil {
					if err := schVerdict(check(s, map[string]any{"params": pbt.MustDec(st.Doc).(map[string]any)["params"]}), ms.ScanParams(shared, l)); err != nil {
						return where("ScanParams", err)
					}
				} else if res, ok := m["result"]; ok && !want.open {
					if err := schVerdict(want, ms.ScanResult(shared, res)); err != nil {
						return where("ScanResult", err)
					}
				}
			}
		}
	}
	// what was reported stays what it was
	for _, k := range keep {
		if k.pos.Path() != k.path || k.pos.Error() != k.text {
			return fmt.Errorf("step %d: the reported path was %q and became %q", k.at, k.path, k.pos.Path())
		}
	}
	// nothing was changed by validating
	for i, s := range c.Schemas {
		if err := sameSchema(s, built[i]); err != nil {
			return fmt.Errorf("schema changed by validating or built wrong: %w", err)
		}
	}
	return nil
}

func genC05(t *rapid.T) c05Case {
	c := c05Case{}
	n := pbt.Pick(t, "schemas", 1, 1, 2)
	for i := 0; i < n; i++ {
		c.Schemas = append(c.Schemas, genSch(t, pbt.Weighted(t, "depth", 15, 30, 30, 15, 10)))
	}
	if pbt.Chance(t, 4, "deep") {
		c.Schemas[0] = genDeep(t, genSch(t, 0))
	}
	m := rapid.IntRange(1, 5).Draw(t, "steps")
	for i := 0; i < m; i++ {
		k := rapid.IntRange(0, n-1).Draw(t, "which")
		st := c05Step{k, genDocFor(t, c.Schemas[k]), pbt.Pick(t, "form", "parsed", "bytes", "native")}
		if i > 0 && pbt.Chance(t, 15, "alike") {
			// a document much like an earlier one
			was := c.Steps[pbt.Uniform(t, i, "like")]
			st.S, st.Doc = was.S, pbt.Raw(retype(t, pbt.MustDec(was.Doc)))
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func genDocFor(t *rapid.T, s Sch) json.RawMessage {
	d := genDoc(t, s, 60)
	if pbt.Chance(t, 30, "miss") {
		d = nearMiss(t, d)
	}
	return pbt.Raw(d)
}

func TestC05(t *testing.T) {
	pbt.Check(t, "C05",
		pbt.Part[c05Case]{Name: "verdicts", Quick: 60000, Gen: genC05, Run: c05Run})
}
