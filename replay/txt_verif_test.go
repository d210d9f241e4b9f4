package burl_links

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"
	"time"
)

var vTxtRe = regexp.MustCompile(`(?:([[:alpha:]]+:(\/\/)?))?((?:(?:[\p{L}0-9][\p{L}0-9_-]{0,62})?[\p{L}0-9]\.){0,16}((?:\p{L}){2,64}\.?))?((?:/(?:[\p{L}0-9.@,~_-]|(?:%[0-9a-fA-F]{2}))*)*)?`)

// what the links of a text are: in each word of each line the matches that are
// neither empty, nor a scheme, nor a path, nor a word alone
func vTxtReference(text string, f Filter) (res []vLink) {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i, l := range lines {
		for _, w := range strings.Fields(l) {
			for _, m := range vTxtRe.FindAllStringSubmatch(w, -1) {
				if m[0] == "" || m[0] == m[1] || m[0] == m[4] || m[0] == m[5] || m[1] == "" && m[3] == m[4] {
					continue
				}
				if f == nil || f(&Link{m[0], "", i + 1}) {
					res = append(res, vLink{m[0], "", i + 1, ""})
				}
			}
		}
	}
	return
}

func vCheckTxt(t *testing.T, text string, f Filter, kind string) {
	in := fmt.Sprintf("%s, text %q", kind, text)
	vrun(t, in, func() {
		tree, err := TxtLinkSource("f").Extract(strings.NewReader(text), f)
		if err != nil {
			vfail(t, "%s: %v", in, err)
		}
		var got []vLink
		vFlatten(tree, "", &got)
		if d := vDiff(got, vTxtReference(text, f)); d != "" {
			vfail(t, "%s: %s", in, d)
		}
	})
}

var vTxtPieces = []string{"https://a.bc/d", "http://", "mailto:", "a.bc", "a.bc/d", "www.example.org", "word", "/usr/bin", "word/x", "x", "(https://a.bc)", "https://a.bc,https://d.ef/g",
	"see:https://a.bc", "<a.bc>", "'http://x.yz/'", "a_b.cd", "1.5", "foo://bar/baz", "ünï.cöde/päth", "%41.bc", "a.bc/%41%zz", "ftp:x.yz", "..", "localhost/x", "http://localhost/x", "a.b", "q.we.rt.", "a.bc//d", "://", "tel:55", "x.yz?q=a.bc"}

func vTxtText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(6); n >= 0; n-- {
		for k := r.Intn(5); k > 0; k-- {
			b.WriteString([]string{"", "", " ", "\t", "  ", "\u00a0", "\u2003"}[r.Intn(7)])
			b.WriteString(vTxtPieces[r.Intn(len(vTxtPieces))])
			b.WriteString([]string{" ", " ", "\t", "  ", "\u00a0", "\u2003", ""}[r.Intn(7)])
		}
		if n > 0 || r.Intn(2) == 0 {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func TestVerifC16(t *testing.T) {
	start := time.Now()
	reject := func(k int) Filter {
		return func(l *Link) bool { return (len(l.URL)+l.LineNo)%k != 0 }
	}
	for i, a := range vTxtPieces {
		vCheckTxt(t, a, nil, "no filter")
		for _, b := range vTxtPieces[i:] {
			for _, sep := range []string{" ", "\n", "\n\n", "", ",", "\t \u2003"} {
				vCheckTxt(t, a+sep+b+" ", nil, "no filter")
				vCheckTxt(t, " "+b+sep+a+"\n", reject(2), "filter of even length")
			}
		}
	}
	r := vrand()
	vCheckTxt(t, strings.Repeat("https://a.bc/d x.yz\n", 3000), nil, "no filter")
	vCheckTxt(t, strings.Repeat("https://a.bc/d x.yz, ", 2500), nil, "no filter")
	for vmore(start, 20) {
		x := vTxtText(r)
		vCheckTxt(t, x, nil, "no filter")
		vCheckTxt(t, x, reject(2), "filter of even length")
		vCheckTxt(t, x, reject(3), "filter of three")
	}
	vrun(t, "a source that fails", func() {
		_, err := TxtLinkSource("f").Extract(vBroken{strings.NewReader("a\nhttps://a.bc\n")}, nil)
		if err == nil {
			vfail(t, "a source that fails in the middle: no error")
		}
	})
}
