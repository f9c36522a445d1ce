package model

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The dictionary holds the texts and numbers that stand in the sources of the project: what the code treats in a
// way of its own it has to name. They only steer generators, a case holds all it needs.
var dict struct {
	once sync.Once
	text [][]string // by file
	num  []int
	addr [2][]U
}

func loadDict() {
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	nums := map[int]bool{}
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			switch d.Name() {
			case ".git", "target", "build", "testdata", "node_modules":
				return filepath.SkipDir
			}
			return nil
		}
		switch filepath.Ext(p) {
		case ".go", ".java", ".rs":
		default:
			return nil
		}
		if strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/test/") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil || len(src) > 1<<20 {
			return nil
		}
		set := map[string]bool{}
		// the other languages are near enough for their literals
		var s scanner.Scanner
		f := token.NewFileSet()
		s.Init(f.AddFile(p, -1, len(src)), src, func(token.Position, string) {}, 0)
		prev := token.ILLEGAL
		imports := false
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			if tok == token.IMPORT {
				imports = true
			} else if tok == token.SEMICOLON && lit == "\n" && prev != token.STRING {
				imports = false
			}
			prev = tok
			switch tok {
			case token.STRING, token.CHAR:
				v, err := strconv.Unquote(lit)
				if err == nil && !imports && len(v) > 0 && len(v) <= 40 && utf8.ValidString(v) {
					set[v] = true
				}
			case token.INT:
				if n, err := strconv.ParseInt(lit, 0, 64); err == nil && n > 1 && n <= 70000 {
					nums[int(n)] = true
				}
			}
		}
		var l []string
		for v := range set {
			l = append(l, v)
		}
		sort.Strings(l)
		if len(l) > 0 {
			dict.text = append(dict.text, l)
		}
		return nil
	})
	seen := map[Addr]bool{}
	for _, l := range dict.text {
		for _, s := range l {
			n, _, _ := strings.Cut(s, "/")
			if a, ok := ParseAddr(n); ok && !seen[a] {
				seen[a] = true
				if a.V6 {
					dict.addr[1] = append(dict.addr[1], a.U)
				} else {
					dict.addr[0] = append(dict.addr[0], a.U)
				}
			}
		}
	}
	for n := range nums {
		dict.num = append(dict.num, n)
	}
	sort.Ints(dict.num)
	if len(dict.text) == 0 {
		dict.text = [][]string{{"x"}}
	}
	if len(dict.num) == 0 {
		dict.num = []int{2}
	}
}

// DictText draws a text that stands in the sources.
func DictText(t *rapid.T) string {
	dict.once.Do(loadDict)
	f := rapid.IntRange(0, len(dict.text)-1).Draw(t, "dictfile")
	return rapid.SampledFrom(dict.text[f]).Draw(t, "dict")
}

// DictNum draws a number near one of the sources, from 1 to max.
func DictNum(t *rapid.T, max int) int {
	dict.once.Do(loadDict)
	n := rapid.SampledFrom(dict.num).Draw(t, "dictnum") + rapid.SampledFrom([]int{-1, 0, 0, 1}).Draw(t, "dictoff")
	if n > max || n < 1 {
		n = max
	}
	return n
}

// DictMix draws a text of the sources, alone or beside s.
func DictMix(t *rapid.T, s string) string {
	d := DictText(t)
	switch rapid.IntRange(0, 3).Draw(t, "dictmix") {
	case 0:
		return d + s
	case 1:
		return s + d
	case 2:
		return d + s + DictText(t)
	}
	return d
}

// Clean replaces control characters.
func Clean(s string) string { return clean(s, ValueOpts{}) }

// taken are names of columns that have a meaning in one of the formats, in lower case.
var taken = map[string]bool{}

func init() {
	for _, f := range strings.Fields(`country province city isp asn continent line district utcoffset latitude longitude chinaadmincode
		country_name region_name city_name isp_domain continent_code utc_offset china_admin_code as_number asnumber owner ispdomain region`) {
		taken[f] = true
	}
}

// DictName draws a text of the sources that may name a column of no meaning, if there is one at hand.
func DictName(t *rapid.T) string {
	s := DictText(t)
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r == '-' || r == ' ' || r >= '0' && r <= '9')) {
			return ""
		}
	}
	if taken[strings.ToLower(s)] || strings.ToUpper(s) == s {
		return ""
	}
	return s
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func dictAddrs(v6 bool) []U {
	dict.once.Do(loadDict)
	if v6 {
		return dict.addr[1]
	}
	return dict.addr[0]
}
