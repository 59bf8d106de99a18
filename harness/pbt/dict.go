package pbt

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Repo is where the code under test lives.
func Repo() string { return getenv("VERIF_REPO", "/repo") }

var dictOnce sync.Once
var dictInts []int
var dictStrs []string

func harvest() {
	ints := map[int]bool{0: true, 1: true, 2: true, 10: true, 64: true, 100: true, 256: true}
	strs := map[string]bool{}
	filepath.Walk(Repo(), func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if n := info.Name(); n == ".git" || n == "examples" || n == "bin" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					ints[int(v)] = true
				}
			case token.STRING:
				if v, err := strconv.Unquote(l.Value); err == nil && len(v) > 0 && len(v) <= 40 && !strings.Contains(v, "%") {
					strs[v] = true
					// format-like and spaced messages are of no use as names
				}
			}
			return true
		})
		return nil
	})
	for k := range ints {
		dictInts = append(dictInts, k)
	}
	sort.Ints(dictInts)
	for k := range strs {
		dictStrs = append(dictStrs, k)
	}
	sort.Strings(dictStrs)
}

// DictInts are the integer literals of the code under test.
func DictInts() []int { dictOnce.Do(harvest); return dictInts }

// DictStrs are the short string literals of the code under test.
func DictStrs() []string { dictOnce.Do(harvest); return dictStrs }

// DictSizes are the literals usable as sizes up to max, with their neighbours.
func DictSizes(max int) []int {
	m := map[int]bool{}
	for _, v := range DictInts() {
		for _, d := range []int{-1, 0, 1} {
			if w := v + d; w >= 0 && w <= max {
				m[w] = true
			}
		}
	}
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
