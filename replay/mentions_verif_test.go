package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

var vUrls = []string{"https://a.org/x", "https://b.org/y", "https://c.org/z", "https://d.org/w"}

// vText gives an Org file and its links in order.
func vText(r *rand.Rand) (text string, links []string) {
	for n := r.Intn(14); n > 0; n-- {
		if r.Intn(3) == 0 {
			for s := 1 + r.Intn(4); s > 0; s-- {
				text += "*"
			}
			text += fmt.Sprintf(" H%d\n", r.Intn(100))
			continue
		}
		u := vUrls[r.Intn(len(vUrls))]
		text += "see [[" + u + "]] there\n"
		links = append(links, u)
	}
	return
}

// vBackend writes the texts below dir and gives a backend for them and missing files ("\x00").
func vMentions(dir string, texts []string) (*BurlBackend, []string) {
	var args BurlBackendArgs
	var names []string
	for i, text := range texts {
		name := filepath.Join(dir, fmt.Sprintf("f%d.org", i))
		if text == "\x00" {
			os.Remove(name)
		} else if err := ioutil.WriteFile(name, []byte(text), 0600); err != nil {
			panic(err)
		}
		names = append(names, name)
		args.LinkSources = append(args.LinkSources, burl_links.OrgLinkSource(name))
	}
	return NewBurlBackendPtr(&args), names
}

type vNode struct {
	Path     string   `json:"path"`
	Total    int      `json:"total"`
	Filtered int      `json:"filtered"`
	Children []*vNode `json:"children"`
	Links    []struct {
		URL string `json:"url"`
	} `json:"links"`
}

func vAsk(b *BurlBackend, limit int, urls ...string) (root *vNode, text string, err error) {
	var reply burl_links.LimitCountNode
	err = b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: urls, Options: &burl_rpc.UrlMentionsOptions{CountLimit: limit}}, &reply)
	if err != nil {
		return nil, "", err
	}
	data, err := json.Marshal(&reply)
	if err != nil {
		panic(err)
	}
	root = &vNode{}
	if err := json.Unmarshal(data, root); err != nil {
		panic(err)
	}
	return root, string(data), nil
}

func vFiles(n *vNode, res *[]string) {
	if n.Path != "" {
		*res = append(*res, n.Path)
	}
	for _, c := range n.Children {
		vFiles(c, res)
	}
}

func vTree(v interface{}) string {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(data)
}

func vRounds(t *testing.T, round func(r *rand.Rand, dir string)) {
	dir, err := ioutil.TempDir("", "govmentions")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	end := time.Now().Add(10 * time.Second)
	for seed := int64(1); time.Now().Before(end) && seed < 3000 && !t.Failed(); seed++ {
		round(rand.New(rand.NewSource(seed)), dir)
	}
}

func TestVerifC10(t *testing.T) {
	vRounds(t, func(r *rand.Rand, dir string) {
		var texts []string
		var want, wantUrls []string
		missing, any := false, false
		for n := 1 + r.Intn(4); n > 0; n-- {
			if r.Intn(8) == 0 {
				texts = append(texts, "\x00")
				missing = true
				continue
			}
			text, links := vText(r)
			texts = append(texts, text)
			if len(links) > 0 {
				any = true
				want = append(want, filepath.Join(dir, fmt.Sprintf("f%d.org", len(texts)-1)))
				wantUrls = append(wantUrls, links...)
			}
		}
		b, _ := vMentions(dir, texts)
		for q := 0; q < 3; q++ {
			root, text, err := vAsk(b, 1000, vUrls...)
			if missing || !any {
				if err == nil {
					vfail(t, "files %q: query %d answered %s", texts, q, text)
				}
				continue
			}
			if err != nil {
				vfail(t, "files %q: query %d: %v", texts, q, err)
				continue
			}
			var got []string
			vFiles(root, &got)
			if !reflect.DeepEqual(got, want) || root.Total != len(wantUrls) {
				vfail(t, "files %q: query %d: files %q with %d links, want %q with %d", texts, q, got, root.Total, want, len(wantUrls))
			}
		}
	})
}

func TestVerifC14(t *testing.T) {
	vRounds(t, func(r *rand.Rand, dir string) {
		var texts []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			text, _ := vText(r)
			texts = append(texts, text)
		}
		b, _ := vMentions(dir, texts)
		if _, _, err := vAsk(b, 3, vUrls[0]); err != nil {
			return
		}
		index := vTree(b.fileGroup)
		answers := map[string]string{}
		for q := 0; q < 8; q++ {
			limit := r.Intn(7) - 1
			urls := []string{vUrls[r.Intn(len(vUrls))], vUrls[r.Intn(len(vUrls))]}
			_, text, err := vAsk(b, limit, urls...)
			if err != nil {
				vfail(t, "files %q: %v", texts, err)
			}
			key := fmt.Sprint(limit, urls)
			if was, ok := answers[key]; ok && was != text {
				vfail(t, "files %q: query %s answered %s before and now %s", texts, key, was, text)
			}
			answers[key] = text
			if now := vTree(b.fileGroup); now != index {
				vfail(t, "files %q: query %s has changed the index from %s to %s", texts, key, index, now)
			}
		}
	})
}

// vSpellings gives addresses that count as u, and some that do not.
func vSpellings(u string) (same, other []string) {
	return []string{u, u + "#", u + "/", u + "?", "http" + u[5:]}, []string{u + "/z", u + "#a", u[:len(u)-1], u[:8] + strings.ToUpper(u[8:]), u[:len(u)-1] + strings.ToUpper(u[len(u)-1:]), "see-" + u, "ftp" + u[5:]}
}

func vSums(n *vNode) (bad string) {
	sum := 0
	for _, c := range n.Children {
		sum += c.Total
		if b := vSums(c); b != "" {
			return b
		}
	}
	if len(n.Children) > 0 && n.Total != sum {
		return fmt.Sprintf("a node with total %d has children with %d", n.Total, sum)
	}
	if len(n.Links) > n.Total {
		return fmt.Sprintf("a node with total %d has %d links", n.Total, len(n.Links))
	}
	return ""
}

func TestVerifC12(t *testing.T) {
	vRounds(t, func(r *rand.Rand, dir string) {
		var texts, all []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			text, links := vText(r)
			// other spellings and other addresses
			for i, u := range links {
				same, other := vSpellings(u)
				if r.Intn(3) == 0 {
					other = append(other, same...)
					links[i] = other[r.Intn(len(other))]
					text = strings.Replace(text, "[["+u+"]]", "[["+links[i]+"]] ", 1)
				} else {
					text = strings.Replace(text, "[["+u+"]]", "[["+u+"]] ", 1)
				}
				text = strings.Replace(text, "]]  there", "]] there!", 1)
			}
			if len(links) > 0 && r.Intn(2) == 0 {
				for n := r.Intn(12); n > 0; n-- {
					u := vUrls[r.Intn(2)]
					text += ("* Last\nsee [[" + u + "]] and [[" + u + "]]\n")[r.Intn(2)*7:]
				}
			}
			if len(links) > 0 && r.Intn(8) == 0 {
				for n := 1 + r.Intn(40); n > 0; n-- {
					text += fmt.Sprintf("%s deep\nsee [[%s]]\n", strings.Repeat("*", 41-n), vUrls[r.Intn(2)])
				}
			}
			texts = append(texts, text)
			all = vLinksOf(all, text)
		}
		b, _ := vMentions(dir, texts)
		for q := 0; q < 6; q++ {
			ask := []string{vUrls[r.Intn(len(vUrls))]}
			if r.Intn(2) == 0 {
				u := vUrls[r.Intn(len(vUrls))]
				if r.Intn(2) == 0 {
					_, other := vSpellings(ask[0])
					u = other[0]
				}
				ask = append(ask, u)
			}
			switch i := r.Intn(len(ask)); r.Intn(4) {
			case 0:
				ask[i] += "/"
			case 1:
				ask[i] = "http" + ask[i][5:]
			}
			if r.Intn(4) == 0 {
				ask = append(ask, "")
			}
			want := 0
			for _, l := range all {
				for _, u := range ask {
					if u != "" && vSame(l, u) {
						want++
						break
					}
				}
			}
			var reply burl_links.LimitCountNode
			err := b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: ask, Options: &burl_rpc.UrlMentionsOptions{CountLimit: r.Intn(12) - 1}}, &reply)
			if err != nil {
				if len(all) > 0 {
					vfail(t, "files %q: %v", texts, err)
				}
				return
			}
			if reply.Attrs.Count != want {
				vfail(t, "files %q: %d mentions of %q, want %d: %s", texts, reply.Attrs.Count, ask, want, vTree(&reply))
			}
			root, text, err := vAsk(b, len(all)+1, ask...)
			if err != nil {
				vfail(t, "files %q: %v", texts, err)
			} else if bad := vSums(root); bad != "" {
				vfail(t, "files %q: query %q: %s: %s", texts, ask, bad, text)
			}
		}
	})
}

var vLinkRe = regexp.MustCompile(`\[\[([^]]*)\]\]`)

func vLinksOf(all []string, text string) []string {
	for _, m := range vLinkRe.FindAllStringSubmatch(text, -1) {
		if u, _ := url.Parse(m[1]); u.Scheme == "http" || u.Scheme == "https" {
			all = append(all, m[1])
		}
	}
	return all
}

// vSame tells whether l is a spelling of the address u, which ends in a letter or a slash.
func vSame(l, u string) bool {
	rest := u[strings.Index(u, ":"):]
	for _, p := range []string{"https" + rest, "http" + rest} {
		if l == p || l == strings.TrimSuffix(p, "/") {
			return true
		}
	}
	return false
}

// vShares gives what is to be left of the answer n when it is limited to limit mentions, and how many that is.
func vShares(n *burl_links.LimitCountNode, limit int) (string, int) {
	if leaf, ok := n.Node.(*burl_links.TreeLeafNode); ok {
		seen := map[string]bool{}
		text := ""
		for _, l := range leaf.Links {
			if !seen[l.URL] && (len(seen) < limit || len(seen) == 0) {
				seen[l.URL] = true
				text += fmt.Sprintf(" %s@%d", l.URL, l.LineNo)
			}
		}
		return fmt.Sprintf("(%d of %d:%s)", len(seen), n.Attrs.Count, text), len(seen)
	}
	section := n.Node.(*burl_links.TreeChildrenNode)
	var kids []*burl_links.LimitCountNode
	for _, c := range section.Children {
		kids = append(kids, c.(*burl_links.LimitCountNode))
	}
	// the largest, of equal ones the first
	rank := make([]int, len(kids))
	for i := range kids {
		for j := range kids {
			if kids[j].Attrs.Count > kids[i].Attrs.Count || kids[j].Attrs.Count == kids[i].Attrs.Count && j < i {
				rank[i]++
			}
		}
	}
	share := make([]int, len(kids))
	rest := 0
	for i := range kids {
		if rank[i] < limit {
			rest += kids[i].Attrs.Count
		}
	}
	for at := len(kids) - 1; at >= 0; at-- {
		for i := range kids {
			if rank[i] == at && at < limit {
				if share[i] = kids[i].Attrs.Count * limit / rest; share[i] == 0 {
					share[i] = 1
				}
				rest -= kids[i].Attrs.Count
				limit -= share[i]
			}
		}
	}
	text, sum := "", 0
	for i, c := range kids {
		if share[i] > 0 {
			s, k := vShares(c, share[i])
			text += " " + s
			sum += k
		}
	}
	return fmt.Sprintf("<%d of %d %s:%s>", sum, n.Attrs.Count, vTree(section.Props), text), sum
}

func vLeft(n *burl_links.LimitCountNode) string {
	if leaf, ok := n.Node.(*burl_links.TreeLeafNode); ok {
		text := ""
		for _, l := range leaf.Links {
			text += fmt.Sprintf(" %s@%d", l.URL, l.LineNo)
		}
		return fmt.Sprintf("(%d of %d:%s)", n.Attrs.TargetCount, n.Attrs.Count, text)
	}
	section := n.Node.(*burl_links.TreeChildrenNode)
	text := ""
	for _, c := range section.Children {
		text += " " + vLeft(c.(*burl_links.LimitCountNode))
	}
	return fmt.Sprintf("<%d of %d %s:%s>", n.Attrs.TargetCount, n.Attrs.Count, vTree(section.Props), text)
}

func TestVerifC13(t *testing.T) {
	vRounds(t, func(r *rand.Rand, dir string) {
		var texts []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			text := ""
			for k := r.Intn(3); k >= 0; k-- {
				more, _ := vText(r)
				text += more
			}
			for k := r.Intn(4) * r.Intn(6); k > 0; k-- {
				text += "* Twin\nsee [[" + vUrls[r.Intn(2)] + "]] there\n"
			}
			texts = append(texts, text)
		}
		b, _ := vMentions(dir, texts)
		for q := 0; q < 8; q++ {
			asked := map[string]bool{vUrls[r.Intn(4)]: true, vUrls[r.Intn(4)]: true, vUrls[r.Intn(4)]: true}
			var query burl_rpc.UrlMentionsQuery
			for _, u := range vUrls {
				if asked[u] {
					query.Variants = append(query.Variants, u)
				}
			}
			limit := 8
			if r.Intn(6) > 0 {
				limit = r.Intn(14) - 2
				switch r.Intn(12) {
				case 0:
					limit = -1 << uint(r.Intn(63))
				case 1:
					limit = 1 << uint(r.Intn(63))
				}
				query.Options = &burl_rpc.UrlMentionsOptions{CountLimit: limit}
			}
			var reply burl_links.LimitCountNode
			if err := b.UrlMentions(&query, &reply); err != nil {
				return
			}
			all := burl_links.CountDescendants(b.fileGroup, func(l *burl_links.Link) bool { return asked[l.URL] })
			most := limit
			if most < 0 {
				most = 0
			} else if most > all.Attrs.Count {
				most = all.Attrs.Count
			}
			want, kept := vShares(all, most)
			got := vLeft(&reply)
			if got != want || kept > most {
				vfail(t, "files %q: query %q with limit %d: %s, want %s", texts, query.Variants, limit, got, want)
			}
		}
	})
}
