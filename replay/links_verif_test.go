package burl_links

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"
	"time"
)

type vLink struct {
	URL, Descr string
	Line       int
	Path       string
}

// the syntax of links, s stands for the schemes
func vLinkPattern(s string) string {
	suffix := `(?:[^][ \t\n(\)<>]|\((?:[^][ \t\n(\)<>]|\([^][ \t\n(\)<>]*\))*\))+(?:[^[:punct:] \t\n]|/|\((?:[^][ \t\n(\)<>]|\([^][ \t\n(\)<>]*\))*\))`
	return `\[\[((?:[^\]\[]|\\(?:\\\\)*[\]\[]|\\+[^\]\[])+)](?:\[((?:.|` + "\n" + `)+?)\])?\]` +
		"|<(" + s + "):(" + "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*" + ")>" +
		`|\b(` + s + "):(" + suffix + ")"
}

func vHasScheme(schemes []string, u string) bool {
	for _, s := range schemes {
		s = strings.TrimSuffix(s, ":")
		if s == "" {
			continue
		}
		full := regexp.MustCompile("^(?:" + s + ")$")
		for k := 0; k < len(u); k++ {
			if u[k] == ':' && full.MatchString(u[:k]) {
				return true
			}
		}
	}
	return false
}

func vOrgReference(text string, schemes []string, filter Filter) (res []vLink) {
	var uniq []string
	for _, s := range schemes {
		s = strings.TrimSuffix(s, ":")
		seen := s == ""
		for _, x := range uniq {
			seen = seen || x == s
		}
		if !seen {
			uniq = append(uniq, s)
		}
	}
	link := regexp.MustCompile(vLinkPattern(strings.Join(uniq, "|")))
	head := regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
	type heading struct {
		level, line int
		text        string
	}
	var stack []heading
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i, l := range lines {
		l = strings.TrimSuffix(l, "\r")
		if m := head.FindStringSubmatch(l); m != nil {
			for len(stack) > 0 && stack[len(stack)-1].level >= len(m[1]) {
				stack = stack[:len(stack)-1]
			}
			stack = append(append([]heading{}, stack...), heading{len(m[1]), i + 1, m[2]})
		}
		path := ""
		for _, h := range stack {
			path += fmt.Sprintf("/%d %q", h.line, h.text)
		}
		for _, m := range link.FindAllStringSubmatch(l, -1) {
			u, d := "", ""
			switch {
			case m[1] != "":
				if !vHasScheme(schemes, m[1]) {
					continue
				}
				u, d = m[1], m[2]
			case m[3] != "":
				u = m[3] + ":" + m[4]
			case m[5] != "":
				u = m[5] + ":" + m[6]
			default:
				continue
			}
			if filter == nil || filter(&Link{URL: u}) {
				res = append(res, vLink{u, d, i + 1, path})
			}
		}
	}
	return
}

// vFlatten lists the links of a tree with the headings above them.
func vFlatten(n TreeBaseNode, path string, out *[]vLink) {
	switch x := n.(type) {
	case *TreeLeafNode:
		for _, l := range x.Links {
			*out = append(*out, vLink{l.URL, l.Description, l.LineNo, path})
		}
	case *TreeChildrenNode:
		if h, ok := x.Props.(*Heading); ok {
			path += fmt.Sprintf("/%d %q", h.LineNo, h.RawText)
		}
		for _, c := range x.Children {
			vFlatten(c, path, out)
		}
	}
}

func vDiff(got, want []vLink) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("link no. %d %+v is missing", i, want[i])
		case i >= len(want):
			return fmt.Sprintf("link no. %d %+v is not in the source", i, got[i])
		case got[i] != want[i]:
			return fmt.Sprintf("link no. %d is %+v, want %+v", i, got[i], want[i])
		}
	}
	return ""
}

var vFilter = Filter(func(l *Link) bool { return len(l.URL)%2 == 0 })

func vCheckOrg(t *testing.T, schemes []string, text string, useFilter bool) {
	in := fmt.Sprintf("schemes %q, filter %v, Org text %q", schemes, useFilter, text)
	vrun(t, in, func() {
		var f Filter
		if useFilter {
			f = vFilter
		}
		tree, err := OrgLinkSource("f").Extract(strings.NewReader(text), f)
		if err != nil {
			vfail(t, "%s: %v", in, err)
		}
		var got []vLink
		vFlatten(tree, "", &got)
		if d := vDiff(got, vOrgReference(text, schemes, f)); d != "" {
			vfail(t, "%s: %s", in, d)
		}
	})
}

func vReset(t *testing.T, schemes []string) {
	if err := UpdateRe(schemes); err != nil {
		vfail(t, "schemes %q are refused: %v", schemes, err)
	}
}

var vDefault = []string{"doi", "https?", "mid"}

var vPieces = []string{"[[https://a.b/c][Descr one]]", "[[http://x.y]]", "[[file:a.org][f]]", "<https://an.gle/p q>", "<mid:1@x>",
	"doi:10.1/ab", "https://pl.ain/a_(b)", "http://e.org.", "word", "xmid:abc", "[[id:123][x]]", "[[mid:z][]]", "[[", "]]", "([[doi:1]])",
	"[[https:a][b [c] d]]", "foo:bar", "<foo:bar>", "[[foo:bar][baz]]", "[[see https://no.t][n]]", "https://same.u https://same.u", "[[news+ssh://h/p]]", "[[xhttps://q]]",
	"[[doi]]", "[[doi:]]", "https:/", "[[httpsx:y]]", "*", "\t", "Ünï https://ü.de/ö"}

func vHeadLine(r *rand.Rand) string {
	s := strings.Repeat("*", 1+r.Intn(5)+r.Intn(2)*r.Intn(9))
	s += []string{" ", "  ", "\t", "", " "}[r.Intn(5)]
	return s + []string{"Head", "Two words ", "TODO [[https://in.head][h]] tail", "", "http://h.e", "x  "}[r.Intn(6)]
}

func vOrgText(r *rand.Rand) string {
	n := 1 + r.Intn(9)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			b.WriteString(vHeadLine(r))
		} else {
			for k := r.Intn(4); k >= 0; k-- {
				b.WriteString(vPieces[r.Intn(len(vPieces))])
				if r.Intn(4) != 0 {
					b.WriteString(" ")
				}
			}
		}
		if i+1 < n || r.Intn(3) != 0 {
			b.WriteString([]string{"\n", "\n", "\n", "\r\n", "\n\n", "\n \n"}[r.Intn(6)])
		}
	}
	return b.String()
}

func vChain(levels []int) string {
	var b strings.Builder
	for i, l := range levels {
		fmt.Fprintf(&b, "%s H%d\nhttps://l.i/%d\n", strings.Repeat("*", l), i, i)
	}
	return b.String()
}

func TestVerifC15(t *testing.T) {
	start := time.Now()
	for _, text := range []string{"", "\n", "https://a.b", "[[https://a.b][d]]\n", "https://t.op\n* A\n** B\nhttps://b\n* C\nhttps://c\n",
		vChain([]int{1, 2, 3}), vChain([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}), strings.ReplaceAll(vChain([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 3, 2}), "\n", "\n\n"), vChain([]int{1, 3, 2}), vChain([]int{3, 2, 1}), vChain([]int{2, 4, 4, 3, 1, 5, 2}), vChain([]int{3, 2, 3, 3}),
		"* A\nhttps://1\n** \nhttps://2\n**\nhttps://3\n", "* A\n** B\n*** C\nhttps://deep\n** D\nhttps://d\nhttps://d2\n",
		"* H https://in.h\nhttps://x\n", "https://a https://a\n[[https://a][x]]\n"} {
		vCheckOrg(t, vDefault, text, false)
		vCheckOrg(t, vDefault, text, true)
	}
	// each list of up to four headings with a link under some
	for n := 0; n < 4*4*4*4*8 && vmore(start, 20); n++ {
		var b strings.Builder
		k := n
		for i := 0; i < 4; i++ {
			fmt.Fprintf(&b, "%s H%d\n", strings.Repeat("*", 1+k%4), i)
			k /= 4
			if i == 3 || k>>uint(2*(3-i)+i)&1 == 0 {
				fmt.Fprintf(&b, "https://l.i/%d\n", i)
			}
		}
		vCheckOrg(t, vDefault, b.String(), false)
	}
	r := vrand()
	for vmore(start, 40) {
		vCheckOrg(t, vDefault, vOrgText(r), r.Intn(3) == 0)
	}
	// a failure of the source is reported
	vrun(t, "a source that fails", func() {
		_, err := OrgLinkSource("f").Extract(vBroken{strings.NewReader("* A\nhttps://a\n")}, nil)
		if err == nil {
			vfail(t, "a source that fails in the middle: no error")
		}
	})
}

type vBroken struct{ r *strings.Reader }

func (b vBroken) Read(p []byte) (int, error) {
	if b.r.Len() == 0 {
		return 0, fmt.Errorf("broken")
	}
	return b.r.Read(p)
}

func TestVerifC17(t *testing.T) {
	start := time.Now()
	r := vrand()
	texts := append([]string{}, vPieces...)
	for _, a := range []string{"doi", "http", "https", "mid", "foo", "news", "xdoi", "doix", "x-mid", "file", "ftp"} {
		texts = append(texts, "[["+a+":b][c]]", "<"+a+":b>", a+":b/c", "[[x "+a+":b]]", "[["+a+"b]]", "[[:"+a+":b]]")
	}
	for _, x := range texts {
		vCheckOrg(t, vDefault, x, false)
	}
	for _, l := range [][]string{nil, {""}, {":"}, {"", ":"}} {
		l := l
		vrun(t, fmt.Sprintf("schemes %q", l), func() {
			if err := UpdateRe(l); err == nil {
				vfail(t, "schemes %q: no error", l)
			}
			for _, x := range texts {
				vCheckOrg(t, vDefault, x, false)
			}
		})
	}
	vrun(t, "schemes that are not patterns", func() {
		if err := UpdateRe([]string{"ok", "(broken"}); err == nil {
			vfail(t, "schemes [ok (broken]: no error")
		}
	})
	for _, x := range texts {
		vCheckOrg(t, vDefault, x, false)
	}
	// valid once but too deep in the syntax of links
	for n := 300; n < 1100; n++ {
		s := strings.Repeat("(?:x|y", n) + strings.Repeat(")", n)
		if UpdateRe([]string{s}) == nil {
			vReset(t, vDefault)
			continue
		}
		for _, x := range texts {
			vCheckOrg(t, vDefault, x, false)
		}
		if _, err := regexp.Compile("^(?:" + s + "):"); err != nil {
			break
		}
	}
	pool := []string{"[A-Z]oo", "[a-z]oo", "FOO", "doi", "https?", "mid", "foo", "foo:", "news", ":", "", "file", "ftp", "x-mid", "a|doi", "doi", "ftp", "[a-z]oo"}
	for vmore(start, 30) {
		var l []string
		for k := r.Intn(5); k >= 0; k-- {
			l = append(l, pool[r.Intn(len(pool))])
		}
		ok := false
		for _, s := range l {
			ok = ok || strings.TrimSuffix(s, ":") != ""
		}
		if !ok {
			continue
		}
		vrun(t, fmt.Sprintf("schemes %q", l), func() { vReset(t, append([]string{}, l...)) })
		for k := 0; k < 20; k++ {
			vCheckOrg(t, l, texts[r.Intn(len(texts))], false)
			vCheckOrg(t, l, vOrgText(r), false)
		}
	}
}
