package props

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

var jsonInt = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var jsonNum = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// spelled says what a command line value spells; open = not prescribed (it must
// still be sendable).
func spelled(in string, files map[string]string) (v any, refused, open bool) {
	if in == "" {
		return "", false, false
	}
	switch in {
	case "true":
		return true, false, false
	case "false":
		return false, false, false
	case "null":
		return nil, false, false
	}
	if jsonInt.MatchString(in) {
		if i, err := strconv.ParseInt(in, 10, 64); err == nil {
			return json.Number(strconv.FormatInt(i, 10)), false, false
		}
	}
	if jsonNum.MatchString(in) {
		f, err := strconv.ParseFloat(in, 64)
		if err != nil || math.IsInf(f, 0) {
			return nil, false, true
		}
		b, _ := json.Marshal(f)
		return json.Number(b), false, false
	}
	switch in[0] {
	case '@':
		text, ok := files[in[1:]]
		if !ok {
			return nil, true, false
		}
		v, err := pbt.Dec([]byte(text))
		return v, err != nil, false
	case '[', '{', '"':
		v, err := pbt.Dec([]byte(in))
		return v, err != nil, false
	}
	if _, err := strconv.ParseFloat(in, 64); err == nil || strings.Contains(err.Error(), "range") {
		// +5, .5, 007, 0x10, inf, nan: spellings that are no JSON
		return nil, false, true
	}
	if _, err := strconv.ParseInt(in, 10, 64); err == nil {
		return nil, false, true
	}
	return in, false, false
}

type c21Case struct {
	Args  []string          `json:"args"`
	Files map[string]string `json:"files,omitempty"`
}

func genArg(t *rapid.T, files map[string]string) string {
	switch pbt.Weighted(t, "argkind", 18, 12, 18, 12, 10, 10, 10, 10) {
	case 0:
		return string(pbt.NumLit(t, "n"))
	case 1:
		return pbt.Pick(t, "word", "true", "false", "null", "True", "NULL", "nul", "nan", "NaN", "inf", "-Inf", "+inf", "Infinity", "infinity", "-infinity", "+5", ".5", "5.", "-", "+", "1e", "0x10", "0x1p-2", "007", "-0", "1_000", "", " ", " 1", "1 ", "12abc", "--5", "1e999", "-1e999", "e5", "٣")
	case 2:
		v := pbt.JSON(t, 3, "v")
		if pbt.Chance(t, 1, "large") {
			v = []any{strings.Repeat(pbt.Pick(t, "fill", "x", "é"), pbt.Pick(t, "size", 2000, 4096, 33000, 66000)+pbt.Uniform(t, 50, "size")), v}
		}
		return string(pbt.Raw(v))
	case 3:
		// damaged JSON
		b := string(pbt.Raw(pbt.Pick[any](t, "j", pbt.List(t, 2, "l"), map[string]any{"a": pbt.JSON(t, 1, "v")}, pbt.Str(t, "s"))))
		switch pbt.Weighted(t, "dmg", 40, 30, 30) {
		case 0:
			return b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
		case 1:
			return b + pbt.Pick(t, "tail", "]", "}", "x", ",", "[]", " ", "\n", "1", "\"")
		default:
			at := rapid.IntRange(0, len(b)).Draw(t, "at")
			return strings.ToValidUTF8(b[:at]+pbt.Pick(t, "ins", ",", "\"", "{", "]", "x")+b[at:], "?")
		}
	case 4:
		name := fmt.Sprintf("f%d.json", len(files))
		if pbt.Chance(t, 15, "missing") {
			return "@missing-" + name
		}
		v := pbt.JSON(t, 3, "file")
		if pbt.Chance(t, 3, "large") {
			v = []any{strings.Repeat(pbt.Pick(t, "fill", "x", "é", "\\", " "), pbt.Pick(t, "size", 2000, 4096, 33000, 66000, 140000)+pbt.Uniform(t, 50, "size")), v}
		}
		txt := pbt.Pick(t, "ws", "", "\n", "  ") + string(pbt.Raw(v))
		switch pbt.Weighted(t, "fdmg", 70, 15, 15) {
		case 1:
			txt = txt[:rapid.IntRange(0, len(txt)).Draw(t, "cut")]
			txt = strings.ToValidUTF8(txt, "?")
		case 2:
			txt += pbt.Pick(t, "tail", "\n", " x", "]", "{}")
		}
		files[name] = txt
		return "@" + name
	case 5:
		return pbt.Str(t, "s")
	case 6:
		return strconv.FormatInt(pbt.Int64(t, "i"), 10)
	default:
		return pbt.Ident(t, "word")
	}
}

func c21Run(r *pbt.Rec, c c21Case) error {
	files := map[string]string{}
	args := append([]string{}, c.Args...)
	if len(c.Files) > 0 {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "c21-")
		if err != nil {
			return pbt.Inconclusive(err)
		}
		defer os.RemoveAll(dir)
		for name, txt := range c.Files {
			p := filepath.Join(dir, name)
			if err := os.WriteFile(p, []byte(txt), 0o600); err != nil {
				return pbt.Inconclusive(err)
			}
			files[p] = txt
		}
		for i, a := range args {
			if len(a) > 1 && a[0] == '@' {
				if _, ok := c.Files[a[1:]]; ok {
					args[i] = "@" + filepath.Join(dir, a[1:])
				}
			}
		}
	}
	var wants []any
	opens := map[int]bool{}
	anyRefused := false
	for i, a := range args {
		if strings.ContainsRune(a, 0) {
			return nil // cannot be a command line argument
		}
		want, refused, open := spelled(a, files)
		got, err := jlib.GuessJson(a)
		if open {
			opens[i] = true
			r.Label("open")
		}
		if len(a) > 0 && !open {
			r.Label("starts %q", kindOf(a))
			r.NonTrivial()
		}
		if refused {
			anyRefused = true
			r.Label("refused")
			if err == nil {
				return fmt.Errorf("%q is malformed but becomes %s", a, pbt.Short(got))
			}
			continue
		}
		if err != nil {
			if open {
				anyRefused = true
				continue
			}
			return fmt.Errorf("%q is refused: %v", a, err)
		}
		gv, err := pbt.ToJSON(got)
		if err != nil {
			return fmt.Errorf("%q becomes %v, which cannot be sent as JSON: %v", a, got, err)
		}
		if open {
			want = gv
		}
		wants = append(wants, want)
		if err := pbt.Diff(want, gv); err != nil {
			return fmt.Errorf("%q: %w", a, err)
		}
		// written as JSON it spells the same value
		text, err := jlib.MarshalJson(got)
		if err != nil {
			return fmt.Errorf("%q becomes %v, which MarshalJson refuses: %v", a, got, err)
		}
		dec, err := pbt.Dec([]byte(text))
		if err != nil {
			return fmt.Errorf("%q: MarshalJson gives %s: %v", a, text, err)
		}
		if err := pbt.Diff(want, dec); err != nil {
			return fmt.Errorf("%q: MarshalJson: %w", a, err)
		}
		means, refused, open := spelled(text, nil)
		if refused || open {
			continue // a number beyond the floats, from a file
		}
		again, err := jlib.GuessJson(text)
		if err != nil {
			return fmt.Errorf("%q becomes %s, which is refused: %v", a, text, err)
		}
		av, err := pbt.ToJSON(again)
		if err != nil {
			return err
		}
		if err := pbt.DiffNum(means, av); err != nil {
			return fmt.Errorf("%q becomes %s, which means something else: %w", a, text, err)
		}
	}
	got, err := jlib.GuessJsonArray(args)
	if anyRefused != (err != nil) {
		return fmt.Errorf("list %q: one refused=%v, list error=%v", args, anyRefused, err)
	}
	if err != nil {
		return nil
	}
	if len(got) != len(args) {
		return fmt.Errorf("list %q: %d values", args, len(got))
	}
	for i := range got {
		gv, err := pbt.ToJSON(got[i])
		if err != nil {
			return err
		}
		if err := pbt.Diff(wants[i], gv); err != nil {
			return fmt.Errorf("list element %d (%q): %w", i, args[i], err)
		}
	}
	// the list can be sent
	req := jlib.NewRequestMessage(1, "m", got)
	b, err := jlib.MessageBytes(req)
	if err != nil {
		return fmt.Errorf("list %q cannot be sent: %v", args, err)
	}
	back, err := jlib.ParseBytes(b)
	if err != nil {
		return err
	}
	if wants == nil {
		wants = []any{}
	}
	gv, err := pbt.ToJSON(back.MustParams())
	if err != nil {
		return err
	}
	return pbt.Diff(any(wants), gv)
}

func kindOf(a string) string {
	switch c := a[0]; {
	case c == '@' || c == '[' || c == '{' || c == '"':
		return string(c)
	case c == '-' || (c >= '0' && c <= '9'):
		return "digit"
	}
	return "other"
}

func TestC21(t *testing.T) {
	pbt.Check(t, "C21", pbt.Part[c21Case]{Name: "args", Quick: 60000, Gen: func(t *rapid.T) c21Case {
		n := pbt.Pick(t, "n", 1, 1, 1, 2, 3, 0, 8)
		c := c21Case{Files: map[string]string{}}
		for i := 0; i < n; i++ {
			c.Args = append(c.Args, genArg(t, c.Files))
		}
		return c
	}, Run: c21Run})
}
