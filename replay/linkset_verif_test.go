package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

const vPlainTail = `(?:[^][ \t\n(\)<>]|\((?:[^][ \t\n(\)<>]|\([^][ \t\n(\)<>]*\))*\))+(?:[^[:punct:] \t\n]|/|\((?:[^][ \t\n(\)<>]|\([^][ \t\n(\)<>]*\))*\))`

var vPrefixRe = regexp.MustCompile("^(?:(?i)[a-z][a-z0-9]*(?:[-+][a-z0-9]+)*)(:[^\n]*)?$")

type vSource struct {
	org  bool
	text string
}

// vWanted gives the prefixes as they have to begin a link, false for a list that has to be refused.
func vWanted(prefixes []string) (res []string, ok bool) {
	for _, p := range prefixes {
		m := vPrefixRe.FindStringSubmatch(p)
		if m == nil {
			return nil, false
		}
		if m[1] == "" {
			p += ":"
		}
		res = append(res, p)
	}
	return res, len(res) > 0
}

func vBegins(u string, wanted []string) bool {
	for _, p := range wanted {
		if strings.HasPrefix(u, p) {
			return true
		}
	}
	return false
}

// vSetReference gives the links of the sources that begin with one of the prefixes.
func vSetReference(src []vSource, wanted []string) map[string]bool {
	var q []string
	for _, p := range wanted {
		q = append(q, regexp.QuoteMeta(p))
	}
	base := "(?:" + strings.Join(q, "|") + ")"
	org := regexp.MustCompile(`\[\[((?:[^\]\[]|\\(?:\\\\)*[\]\[]|\\+[^\]\[])+)](?:\[((?:.|` + "\n" + `)+?)\])?\]` + "|<(" + base + "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*)>|\\b(" + base + vPlainTail + ")")
	txt := regexp.MustCompile(`\b(` + base + vPlainTail + ")")
	res := map[string]bool{}
	for _, s := range src {
		for _, l := range strings.Split(s.text, "\n") {
			if !s.org {
				for _, m := range txt.FindAllStringSubmatch(l, -1) {
					res[m[1]] = true
				}
				continue
			}
			for _, m := range org.FindAllStringSubmatch(l, -1) {
				switch {
				case m[1] != "":
					if vBegins(m[1], wanted) {
						res[m[1]] = true
					}
				case m[3] != "":
					res[m[3]] = true
				default:
					res[m[4]] = true
				}
			}
		}
	}
	return res
}

func vSources(t *testing.T, d string, src []vSource) (list []burl_links.TextLinkSource) {
	for i, s := range src {
		n := filepath.Join(d, fmt.Sprintf("s%d", i))
		if err := os.WriteFile(n, []byte(s.text), 0644); err != nil {
			t.Fatal(err)
		}
		if s.org {
			if i%2 == 0 {
				list = append(list, burl_links.OrgLinkSource(n))
			} else {
				list = append(list, burl_links.OrgLinkSource("").Clone(n))
			}
		} else {
			if i%2 == 0 {
				list = append(list, burl_links.TxtLinkSource(n))
			} else {
				list = append(list, burl_links.TxtLinkSource("").Clone(n))
			}
		}
	}
	return
}

func vCheckSet(t *testing.T, d string, src []vSource, prefixes []string) {
	in := fmt.Sprintf("prefixes %q, sources %+v", prefixes, src)
	vrun(t, in, func() {
		b := NewBurlBackendPtr(&BurlBackendArgs{LinkSources: vSources(t, d, src)})
		var reply burl_rpc.LinkSetResponse
		err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: append([]string{}, prefixes...)}, &reply)
		wanted, ok := vWanted(prefixes)
		ok = ok && len(prefixes) <= 16
		if !ok {
			if err == nil && (len(src) > 0 || len(prefixes) > 16) {
				vfail(t, "%s: answered with %q instead of an error", in, reply.Urls)
			}
			if err != nil && reply.Urls != nil {
				vfail(t, "%s: an error and links %q", in, reply.Urls)
			}
			return
		}
		if err != nil {
			vfail(t, "%s: %v", in, err)
		}
		for _, u := range reply.Urls {
			if !vBegins(u, wanted) {
				vfail(t, "%s: link %q begins with none of the prefixes", in, u)
			}
		}
		var want []string
		for u := range vSetReference(src, wanted) {
			want = append(want, u)
		}
		got := append([]string(nil), reply.Urls...)
		sort.Strings(want)
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			vfail(t, "%s: links %q, want %q", in, got, want)
		}
	})
}

var vSetLinks = []string{"https://a.bc/d", "http://a.bc", "mid:x@y.z", "doi:10.1/2", "HTTP://A.BC/D", "tel:+1", "x+y:abc", "x-y:abc", "https://a.bc/d?q=(1)", "file:/etc/x", "xhttp://q.rs", "http:x", "https://a.bc/de", "a.b:cd", "zz:é", "id:1234"}
var vSetPrefixes = []string{"http", "https", "http:", "https:", "https://a.bc", "https://a.bc/d", "mid", "doi:10.1", "HTTP", "tel", "x+y", "x-y", "tel:+1", "zz", "file", "id:", "https://a.bc/d?q=(1)", "a.b", "a+", "h", "x", "", "1x", "ht tp", "x y:", "a\nb", "a:\nb", "https://a.*", "mid:x@y.z", ":", "doi:"}

func vSetText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(5); n > 0; n-- {
		for k := r.Intn(4); k > 0; k-- {
			l := vSetLinks[r.Intn(len(vSetLinks))]
			fmt.Fprintf(&b, []string{"%s ", "<%s> ", "[[%s]] ", "[[%s][x]] ", "(%s), ", "\"%s\"", "[[%s][", "x%s ", "[[:%s]] ", "[[/%s][y]] ", "[[file:%s]] ", "[[ %s]]", "[[%%%s]]"}[r.Intn(13)], l)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func vSetSearch(t *testing.T, budget float64) {
	start := time.Now()
	d := vscratch(t)
	r := vrand()
	all := ""
	for _, l := range vSetLinks {
		all += l + " <" + l + "> [[" + l + "-b]] [[" + l + "-c][x]]\n"
		for _, c := range "!/:.%(<* \"'x1-+?" {
			all += "[[" + string(c) + l + "-d]] "
		}
	}
	for _, p := range vSetPrefixes {
		vCheckSet(t, d, []vSource{{true, all}}, []string{p})
		vCheckSet(t, d, []vSource{{false, all}}, []string{p})
		vCheckSet(t, d, []vSource{{false, all}, {true, "tel:+2"}}, []string{"tel", p})
		vCheckSet(t, d, nil, []string{p})
	}
	for n := 0; n < 40; n++ {
		var l []string
		for k := 0; k < n; k++ {
			l = append(l, fmt.Sprintf("p%d", k))
		}
		vCheckSet(t, d, []vSource{{n%2 == 0, "p0:a1 p15:b1 p16:c1 [[p9:d1]]\np10:e1"}}, l)
		if n > 0 {
			l[0] = ""
			vCheckSet(t, d, []vSource{{n%2 == 0, "p0:a1"}}, l)
			l[n-1], l[0] = "1", "p0"
			vCheckSet(t, d, []vSource{{n%2 == 0, "p0:a1"}}, l)
		}
	}
	for vmore(start, budget) {
		var src []vSource
		for k := r.Intn(4); k > 0; k-- {
			src = append(src, vSource{r.Intn(2) == 0, vSetText(r)})
		}
		var l []string
		for k := r.Intn(4); k >= 0; k-- {
			l = append(l, vSetPrefixes[r.Intn(len(vSetPrefixes)-r.Intn(2)*12)])
		}
		vCheckSet(t, d, src, l)
	}
}

func TestVerifC18(t *testing.T) { vSetSearch(t, 30) }

func TestVerifC09(t *testing.T) {
	d := vscratch(t)
	src := []vSource{{true, "https://a.bc/d\n"}, {false, "https://a.bc/e\n"}}
	// switched off
	for _, l := range [][]string{nil, {"https"}, {""}, {"https", "http"}} {
		in := fmt.Sprintf("linkSet switched off, prefixes %q", l)
		vrun(t, in, func() {
			b := NewBurlBackendPtr(&BurlBackendArgs{LinkSources: vSources(t, d, src), DisableLinkSet: true})
			var reply burl_rpc.LinkSetResponse
			if err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: l}, &reply); err == nil || reply.Urls != nil {
				vfail(t, "%s: %v, links %q", in, err, reply.Urls)
			}
		})
	}
	// a source that cannot be read, at each place
	for k := 0; k < 4; k++ {
		for _, kind := range []string{"missing", "a folder", "too long a line"} {
			for _, org := range []bool{false, true} {
				in := fmt.Sprintf("source no. %d of 4 is %s, org %v", k, kind, org)
				vrun(t, in, func() {
					list := vSources(t, d, []vSource{{true, "https://a.bc/1\n"}, {false, "https://a.bc/2\n"}, {true, "https://a.bc/3"}, {false, "https://a.bc/4"}})
					n := filepath.Join(d, "bad")
					os.RemoveAll(n)
					switch kind {
					case "a folder":
						os.Mkdir(n, 0755)
					case "too long a line":
						os.WriteFile(n, append([]byte("https://a.bc/5\n"), bytes.Repeat([]byte("x"), 100000)...), 0644)
					}
					list[k] = burl_links.TxtLinkSource(n)
					if org {
						list[k] = burl_links.OrgLinkSource(n)
					}
					b := NewBurlBackendPtr(&BurlBackendArgs{LinkSources: list})
					var reply burl_rpc.LinkSetResponse
					if err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"https"}}, &reply); err == nil || reply.Urls != nil {
						vfail(t, "%s: error %v, links %q", in, err, reply.Urls)
					}
				})
			}
		}
	}
	// many sources
	var many []vSource
	for k := 0; k < 12; k++ {
		many = append(many, vSource{k%3 == 0, fmt.Sprintf("https://a.bc/%d https://a.bc/same\n", k)})
		vCheckSet(t, d, many, []string{"https"})
		vCheckSet(t, d, append(append([]vSource{}, many...), vSource{true, ""}), []string{"doi", "https"})
	}
	vSetSearch(t, 25)
}
