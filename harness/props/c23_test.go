package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

type c23Case struct {
	Digits string `json:"digits"`
	Old    string `json:"old"`
	Form   string `json:"form"` // alone, struct, slice, map, pointer
	Bare   bool   `json:"bare"`
	WS     bool   `json:"ws"`
	Zeros  int    `json:"zeros,omitempty"` // leading zeros
}

type c23Struct struct {
	Before string        `json:"before"`
	V      jlib.Bigint   `json:"v"`
	P      *jlib.Bigint  `json:"p"`
	L      []jlib.Bigint `json:"l"`
}

func genDigits(t *rapid.T, label string) string {
	n := pbt.Size(t, 30, 2000, label+"len")
	if n == 0 {
		return "0"
	}
	var sb strings.Builder
	if rapid.Bool().Draw(t, label+"neg") {
		sb.WriteByte('-')
	}
	sb.WriteByte(byte('1' + rapid.IntRange(0, 8).Draw(t, label)))
	pat := rapid.StringMatching("[0-9]{1,40}").Draw(t, label+"pat")
	for sb.Len() < n {
		sb.WriteString(pat)
	}
	return sb.String()
}

func c23Run(r *pbt.Rec, c c23Case) error {
	want, ok := new(big.Int).SetString(c.Digits, 10)
	if !ok {
		return fmt.Errorf("bad case")
	}
	r.Label("%s bare=%v", c.Form, c.Bare)
	if len(c.Digits) > 20 {
		r.Label("over 64 bits")
		r.NonTrivial()
	}
	if len(c.Digits) > 300 {
		r.Label("over 300 digits")
	}
	mk := func(s string) *jlib.Bigint {
		b, _ := new(big.Int).SetString(s, 10)
		return (*jlib.Bigint)(b)
	}
	check := func(what string, b *jlib.Bigint) error {
		if b.Value().Cmp(want) != 0 {
			return fmt.Errorf("%s: want %s got %s", what, want, b.Value())
		}
		if b.String() != want.String() {
			return fmt.Errorf("%s: prints %s, is %s", what, b.String(), want)
		}
		return nil
	}
	src := mk(c.Digits)
	if err := check("built", src); err != nil {
		return err
	}
	var l jlib.Bigint
	l.Load(c.Digits)
	if err := check("Load", &l); err != nil {
		return err
	}
	lit := c.Digits
	if c.Zeros > 0 {
		sign, digits := "", lit
		if digits[0] == '-' {
			sign, digits = "-", digits[1:]
		}
		padded := sign + strings.Repeat("0", c.Zeros) + digits
		var z, q jlib.Bigint
		z.Load(padded)
		if err := check("Load with leading zeros", &z); err != nil {
			return err
		}
		if err := json.Unmarshal([]byte(`"`+padded+`"`), &q); err != nil {
			return fmt.Errorf("%q with leading zeros: %v", padded, err)
		}
		if err := check("leading zeros", &q); err != nil {
			return err
		}
		r.Label("leading zeros")
	}
	if !c.Bare {
		lit = `"` + lit + `"`
	}
	ws := ""
	if c.WS {
		ws = " \n"
	}
	var enc []byte
	var err error
	old := mk(c.Old)
	switch c.Form {
	case "alone":
		enc, err = json.Marshal(*src)
		lit = ws + lit + ws
	case "pointer":
		enc, err = json.Marshal(src)
	case "struct":
		enc, err = json.Marshal(c23Struct{Before: "b", V: *src, P: src, L: []jlib.Bigint{*src, *mk(c.Old), *src}})
		lit = `{"before":"b","v":` + ws + lit + `,"p":` + lit + ws + `,"l":[` + lit + `,"` + c.Old + `",` + lit + `]}`
	case "slice":
		enc, err = json.Marshal([]*jlib.Bigint{src, src})
		lit = "[" + lit + "," + ws + lit + "]"
	case "map":
		enc, err = json.Marshal(map[string]*jlib.Bigint{"k": src})
		lit = `{"k":` + lit + `}`
	}
	if err != nil {
		return fmt.Errorf("marshal: %v", err)
	}
	if n := strings.Count(string(enc), `"`+want.String()+`"`); n == 0 || c.Form == "struct" && n < 4 || c.Form == "slice" && n != 2 {
		return fmt.Errorf("%.200s is not %s in quotes", enc, want)
	}
	if err := check("source after marshalling", src); err != nil {
		return err
	}
	for _, text := range [][]byte{enc, []byte(lit)} {
		if !strings.Contains(string(text), want.String()) {
			return fmt.Errorf("encoding %.200s lacks the digits of %s", text, want)
		}
		switch c.Form {
		case "alone":
			v := *old
			if err := json.Unmarshal(text, &v); err != nil {
				return fmt.Errorf("unmarshal %.100s: %v", text, err)
			}
			if err := check("alone", &v); err != nil {
				return err
			}
			if err := v.UnmarshalJSON([]byte(strings.TrimSpace(string(text)))); err != nil {
				return err
			}
			if err := check("direct", &v); err != nil {
				return err
			}
		case "pointer":
			v := mk(c.Old)
			if err := json.Unmarshal(text, &v); err != nil {
				return err
			}
			if err := check("pointer", v); err != nil {
				return err
			}
		case "struct":
			var s c23Struct
			s.P = mk(c.Old)
			if err := json.Unmarshal(text, &s); err != nil {
				return err
			}
			if len(s.L) != 3 || s.Before != "b" {
				return fmt.Errorf("structure damaged: %s", text)
			}
			for i, b := range []*jlib.Bigint{&s.V, s.P, &s.L[0], &s.L[2]} {
				if err := check(fmt.Sprintf("struct place %d", i), b); err != nil {
					return err
				}
			}
			if s.L[1].Value().Cmp(mk(c.Old).Value()) != 0 {
				return fmt.Errorf("neighbour damaged: %s", s.L[1].String())
			}
		case "slice":
			var s []*jlib.Bigint
			if err := json.Unmarshal(text, &s); err != nil {
				return err
			}
			if len(s) != 2 {
				return fmt.Errorf("slice of %d", len(s))
			}
			for _, b := range s {
				if err := check("slice", b); err != nil {
					return err
				}
			}
		case "map":
			var m map[string]*jlib.Bigint
			if err := json.Unmarshal(text, &m); err != nil {
				return err
			}
			if m["k"] == nil {
				return fmt.Errorf("map lost the key")
			}
			if err := check("map", m["k"]); err != nil {
				return err
			}
		}
	}
	return nil
}

type c23Bad struct {
	Text string `json:"text"`
}

func c23RunBad(r *pbt.Rec, c c23Bad) error {
	r.NonTrivial()
	var b jlib.Bigint
	if err := json.Unmarshal([]byte(c.Text), &b); err == nil {
		return fmt.Errorf("%s is accepted as %s", c.Text, b.String())
	}
	var s c23Struct
	if err := json.Unmarshal([]byte(`{"v":`+c.Text+`}`), &s); err == nil {
		return fmt.Errorf("%s is accepted inside a struct as %s", c.Text, s.V.String())
	}
	return nil
}

func c23GenBad(t *rapid.T) c23Bad {
	d := genDigits(t, "d")
	switch pbt.Weighted(t, "bad", 30, 30, 40) {
	case 0:
		// bare JSON that is no integer
		return c23Bad{pbt.Pick(t, "bare", "true", "false", "[]", "{}", "["+d+"]", `{"a":`+d+`}`, d+".5", d+"e3", d+".0", "1E400", "1e-2", d+".125e2")}
	case 1:
		return c23Bad{pbt.Pick(t, "quoted", `""`, `"abc"`, `"0x10"`, `" "`, `"-"`, `"--1"`, `"1-"`, `"true"`, `"null"`, `"NaN"`, `"1,000"`, `"1_000"`, `"0x_1F"`, `"0b1"`, `"0o7"`, `"-0x1"`, `"`+d+`_0"`, `"`+d+` "`, `" `+d+`"`, `"`+d+`.5"`, `"`+d+`e3"`, `"`+d+`x"`, `"x`+d+`"`, `"`+d+`\n"`, `"٣"`)}
	default:
		at := rapid.IntRange(0, len(d)).Draw(t, "at")
		if at > 0 && pbt.Chance(t, 15, "sign") {
			return c23Bad{`"` + d[:at] + pbt.Pick(t, "sg", "+", "-") + d[at:] + `"`}
		}
		return c23Bad{`"` + d[:at] + pbt.Pick(t, "ch", "a", "x", ".", ",", " ", "e", "/", "é", "O", "%", "_") + d[at:] + `"`}
	}
}

func TestC23(t *testing.T) {
	pbt.Check(t, "C23",
		pbt.Part[c23Case]{Name: "roundtrip", Quick: 40000, Gen: func(t *rapid.T) c23Case {
			zeros := 0
			if pbt.Chance(t, 15, "zeros?") {
				zeros = rapid.IntRange(1, 5).Draw(t, "zeros")
			}
			return c23Case{Zeros: zeros, Digits: genDigits(t, "d"), Old: genDigits(t, "old"), Form: pbt.Pick(t, "form", "alone", "struct", "slice", "map", "pointer"), Bare: rapid.Bool().Draw(t, "bare"), WS: rapid.Bool().Draw(t, "ws")}
		}, Run: c23Run},
		pbt.Part[c23Bad]{Name: "refuse", Quick: 20000, Gen: c23GenBad, Run: c23RunBad},
	)
}
