package burl_url

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

func vTrim(rs []rune) int {
	n := len(rs)
	cut := func(c rune, most int) {
		for n > 0 && rs[n-1] == c && most != 0 {
			n--
			most--
		}
	}
	cut('#', 1)
	cut('&', -1)
	cut('?', 1)
	cut('/', -1)
	return n
}

func vTail(u string) map[string]bool {
	out := map[string]bool{}
	if u == "" {
		return out
	}
	rs := []rune(u)
	for n := vTrim(rs); n <= len(rs); n++ {
		out[string(rs[:n])] = true
	}
	return out
}

func vVariants(u string) map[string]bool {
	out := vTail(u)
	var other map[string]bool
	if strings.HasPrefix(u, "http:") {
		other = vTail("https:" + strings.TrimPrefix(u, "http:"))
	} else if strings.HasPrefix(u, "https:") {
		other = vTail("http:" + strings.TrimPrefix(u, "https:"))
	}
	for k := range other {
		out[k] = true
	}
	return out
}

func vList(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func vCompare(t *testing.T, name, u string, got []string, want map[string]bool) {
	gm := map[string]bool{}
	for _, g := range got {
		gm[g] = true
	}
	a, b := vList(gm), vList(want)
	if strings.Join(a, "\x00") != strings.Join(b, "\x00") || len(a) != len(b) {
		vfail(t, "%s(%q) gives %q, want %q", name, u, a, b)
	}
}

func vURL(t *testing.T, u string) {
	vrun(t, fmt.Sprintf("UrlVariants(%q)", u), func() {
		vCompare(t, "UrlVariants", u, UrlVariants(u), vVariants(u))
	})
	vrun(t, fmt.Sprintf("RedundantTailVariants(%q)", u), func() {
		vCompare(t, "RedundantTailVariants", u, RedundantTailVariants(u), vTail(u))
	})
}

func TestVerifC11(t *testing.T) {
	alphabet := []string{"a", "/", "?", "&", "#", "é", "\xff"}
	words := []string{""}
	for from, l := 0, 0; l < 5; l++ {
		to := len(words)
		for ; from < to; from++ {
			for _, c := range alphabet {
				words = append(words, words[from]+c)
			}
		}
	}
	heads := []string{"", "http:", "https:", "http://a", "https://a", "HTTP:", "xhttp:", "http", "https", "ftp://a", "http:https:", "https:http:"}
	for _, h := range heads {
		for _, w := range words {
			vURL(t, h+w)
		}
	}
	for _, w := range []string{"/", "&", "#", "?", "//?", "?&", "&#", "/?&#", "a/"} {
		for _, n := range []int{9, 33, 100} {
			vURL(t, "http://orgmode.org"+strings.Repeat(w, n))
			vURL(t, "https://orgmode.org"+strings.Repeat(w, n)+"#")
			vURL(t, "https://orgmode.org"+strings.Repeat(w, n)+"?&&#")
		}
	}
}
