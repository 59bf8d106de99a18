package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
	"pgregory.net/rapid"

	"verif/pbt"
)

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func wantMethod(s string) bool {
	for i := 0; i < len(s); i++ {
		if !alnum(s[i]) && strings.IndexByte("-_:+.", s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

func wantPublic(s string) bool {
	if s == "" || !alnum(s[0]) || (len(s) >= 4 && s[:4] == "rpc.") {
		return false
	}
	for i := 1; i < len(s); i++ {
		if !alnum(s[i]) && strings.IndexByte(`-_:+./\&#`, s[i]) < 0 {
			return false
		}
	}
	return true
}

func checkName(s string) error {
	if g := jlib.IsMethod(s); g != wantMethod(s) {
		return fmt.Errorf("IsMethod(%q) = %v", s, g)
	}
	if g := jlib.IsPublicMethod(s); g != wantPublic(s) {
		return fmt.Errorf("IsPublicMethod(%q) = %v", s, g)
	}
	return nil
}

type c24Case struct {
	B []byte `json:"b"`
}

func TestC24(t *testing.T) {
	pbt.Check(t, "C24",
		pbt.Part[int]{Name: "all-one-and-two-byte-names", Fixed: fixedRange(0, 256), Run: func(r *pbt.Rec, hi int) error {
			r.NonTrivial()
			if err := checkName(string([]byte{byte(hi)})); err != nil {
				return err
			}
			for lo := 0; lo < 256; lo++ {
				for _, s := range []string{string([]byte{byte(hi), byte(lo)})} {
					if err := checkName(s); err != nil {
						return err
					}
				}
			}
			for _, pre := range []string{"rpc.", "rpc", "RPC.", "a", "rpc.a", "ab.c"} {
				if err := checkName(pre + string([]byte{byte(hi)})); err != nil {
					return err
				}
				if err := checkName(string([]byte{byte(hi)}) + pre); err != nil {
					return err
				}
			}
			return nil
		}},
		pbt.Part[c24Case]{Name: "names", Quick: 80000, Gen: func(t *rapid.T) c24Case {
			const good = "abzAZ019-_:+./\\&#"
			n := pbt.Size(t, 10, 300, "n")
			if pbt.Chance(t, 5, "long") {
				n = pbt.Pick(t, "len", 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096, 5000) - pbt.Uniform(t, 3, "less")
			}
			var sb strings.Builder
			sb.WriteString(pbt.Pick(t, "pre", "", "", "rpc.", "rpc", "Rpc.", "rpc:", ".rpc.", "rpc.rpc.", "-", "#", "rp", "rpc .", "ｒpc."))
			for i := 0; i < n; i++ {
				if n > 300 && i > 20 {
					sb.WriteByte(good[i*i%9])
				} else {
					sb.WriteByte(good[pbt.Uniform(t, len(good), "c")])
				}
			}
			s := []byte(sb.String())
			if pbt.Chance(t, 40, "odd?") {
				at := pbt.Pick(t, "where", 0, len(s), rapid.IntRange(0, len(s)).Draw(t, "at"))
				ins := []byte(pbt.Pick(t, "odd", "\n", " ", "\r", "\t", "\x00", "é", "日", "٣", "K", "ſ", "²", "\xff", "\xc3", "*", "@", "$", "(", ")", "[", "]", "{", "}", "^", "|", "?", "!", "~", "`", "'", "\"", "<", ">", ",", ";", "=", "%", "\u2028", "\u00a0"))
				s = append(s[:at:at], append(ins, s[at:]...)...)
			}
			if pbt.Chance(t, 10, "random") {
				s = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "raw")
			}
			return c24Case{s}
		}, Run: func(r *pbt.Rec, c c24Case) error {
			s := string(c.B)
			r.Label("method=%v public=%v", wantMethod(s), wantPublic(s))
			if len(s) > 1 {
				r.NonTrivial()
			}
			return checkName(s)
		}},
	)
}

func fixedRange(a, b int) []int {
	var out []int
	for i := a; i < b; i++ {
		out = append(out, i)
	}
	return out
}
