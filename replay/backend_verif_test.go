package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_emacs"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

func vBackend(disableLinkSet bool, names ...string) *BurlBackend {
	args := &BurlBackendArgs{DisableLinkSet: disableLinkSet}
	for i, n := range names {
		if i%2 == 0 {
			args.LinkSources = append(args.LinkSources, burl_links.OrgLinkSource(n))
		} else {
			args.LinkSources = append(args.LinkSources, burl_links.TxtLinkSource(n))
		}
	}
	return NewBurlBackendPtr(args)
}

func vArgv(extra ...string) []string {
	return append(append(append([]string{}, burl_emacs.UserArgs...), burl_emacs.Args...), extra...)
}

func vClean(pieces []string) []string {
	var out []string
	for _, s := range pieces {
		out = append(out, strings.ReplaceAll(strings.ReplaceAll(s, "\x00", ""), "\x01", ""))
	}
	return out
}

func TestVerifC05(t *testing.T) {
	start := time.Now()
	ed := vNewEditor(t)
	burl_emacs.Command = ed.path
	r := vrand()
	strs, ints := vdict()
	check := func(names []string, path string, line int, fail, rc string) {
		in := fmt.Sprintf("sources %q, asked for file %q line %d (editor run %s exits %s)", names, path, line, fail, rc)
		vrun(t, in, func() {
			ed.reset("org-protocol", fail, rc)
			ok := false
			before := append([]string{}, names...)
			b := vBackend(false, names...)
			err := b.Visit(&burl_rpc.Location{FilePath: path, LineNo: line}, &ok)
			got := ed.runs()
			allowed := false
			for _, n := range before {
				allowed = allowed || n == path
			}
			if !allowed {
				if err == nil || len(got) != 0 || ok {
					vfail(t, "%s: the file is not configured, yet error=%v result=%v editor runs %q", in, err, ok, got)
				}
				return
			}
			visit := []string{"--no-wait"}
			if line > 0 {
				visit = append(visit, "+"+strconv.Itoa(line))
			}
			want := [][]string{vArgv("--eval", burl_emacs.EnsureFrameLisp), vArgv(append(visit, path)...)}
			if fail == "1" {
				want = want[:1]
			}
			bad := fail == "1" || fail == "2"
			if !vSameRuns(got, want) || (err != nil) != bad || ok != !bad {
				vfail(t, "%s: error=%v result=%v editor runs\n%q\nwant error=%v and\n%q", in, err, ok, got, bad, want)
			}
		})
	}
	names := [][]string{nil, {"/a/b.org"}, {"/a/b.org", "/a/c.txt"}, {"", "x"}, {"/A", "/a"}, {"notes.org", "./notes.org", "dir/notes.org"}, {"-"}, {"a\nb"}}
	paths := []string{"/a/b.org", "/a/c.txt", "/a/../a/b.org", "/a//b.org", "b.org", "/a/b", "/a/b.org ", "/A/B.ORG", "", "x", "/a", "/A", "notes.org", "./notes.org", "/a/b.org/", "/a", "-", "--eval", "a", "a\nb", "/a/b.org\n", "/etc/passwd", "/a/b.org.txt", "xx"}
	for _, n := range names {
		for _, p := range paths {
			check(n, p, 7, "0", "0")
		}
	}
	for _, rc := range []string{"1", "9", "127"} {
		for _, f := range []string{"1", "2"} {
			check(names[2], "/a/c.txt", 3, f, rc)
			check(names[2], "/etc/passwd", 3, f, rc)
		}
	}
	for _, l := range []int{-5, -1, 0, 1, 2, 9, 10, 1 << 31, 1 << 40} {
		check(names[1], "/a/b.org", l, "0", "0")
	}
	for _, l := range ints {
		if l < 1000000 {
			check(names[1], "/a/b.org", l, "0", "0")
		}
	}
	pieces := vClean(append([]string{"a", "/", ".", "..", ".org", " ", "A", "é", "-"}, strs...))
	for vmore(start, 20) {
		var ns []string
		for i := r.Intn(5); i > 0; i-- {
			ns = append(ns, vstring(r, pieces, 3))
		}
		p := vstring(r, pieces, 3)
		if len(ns) > 0 && r.Intn(2) == 0 {
			p = ns[r.Intn(len(ns))]
			switch r.Intn(6) {
			case 0:
				p += pieces[r.Intn(len(pieces))]
			case 1:
				p = strings.ToUpper(p)
			case 2:
				p = "./" + p
			}
		}
		check(ns, p, r.Intn(12)-2, []string{"0", "0", "0", "1", "2"}[r.Intn(5)], []string{"1", "9", "2"}[r.Intn(3)])
	}
}

func TestVerifC06(t *testing.T) {
	start := time.Now()
	ed := vNewEditor(t)
	burl_emacs.Command = ed.path
	r := vrand()
	strs, _ := vdict()
	check := func(format, uri string, qerr interface{}, out, fail, rc string) {
		in := fmt.Sprintf("format %q, link %q, error %#v (editor prints %q, run %s exits %s)", format, uri, qerr, out, fail, rc)
		vrun(t, in, func() {
			ed.reset(out, fail, rc)
			q := &burl_rpc.CaptureQuery{Format: format, Version: "0.2", Error: qerr}
			q.Data.Url = uri
			q.Data.Body = "body"
			var reply burl_rpc.CaptureResponse
			err := vBackend(false, "/a").Capture(q, &reply)
			got := ed.runs()
			if format != "org-protocol" || qerr == nil && !strings.HasPrefix(uri, "org-protocol:") {
				if err == nil || len(got) != 0 || reply != (burl_rpc.CaptureResponse{}) {
					vfail(t, "%s: accepted: error=%v reply=%+v editor runs %q", in, err, reply, got)
				}
				return
			}
			if qerr != nil {
				if err != nil || len(got) != 0 || reply != (burl_rpc.CaptureResponse{Preview: true, Status: "preview"}) {
					vfail(t, "%s: want a preview without the editor: error=%v reply=%+v editor runs %q", in, err, reply, got)
				}
				return
			}
			want := [][]string{vArgv("--eval", burl_emacs.CheckOrgProtocolLisp), vArgv("--eval", burl_emacs.EnsureFrameLisp), vArgv(uri)}
			n := 3
			if !strings.HasPrefix(out, "org-protocol") {
				n = 1
			}
			bad := n < 3
			if f, _ := strconv.Atoi(fail); f > 0 && f <= n {
				n, bad = f, true
			}
			wantReply := burl_rpc.CaptureResponse{Preview: false, Status: "success"}
			if bad {
				wantReply = burl_rpc.CaptureResponse{}
			}
			if !vSameRuns(got, want[:n]) || (err != nil) != bad || reply != wantReply {
				vfail(t, "%s: error=%v reply=%+v editor runs\n%q\nwant error=%v and\n%q", in, err, reply, got, bad, want[:n])
			}
		})
	}
	uris := []string{"org-protocol:", "org-protocol://capture?x=1", "org-protocol:/capture", "ORG-PROTOCOL://x", "org-protocol", " org-protocol:x", "http://x", "", "--eval", "xorg-protocol:", "org-protocolx:", "org:x", "(org-protocol:)", "org-protocol:\n(x)", "file:org-protocol:x"}
	for _, f := range []string{"org-protocol", "org", "", "ORG-PROTOCOL", "org-protocol ", "object"} {
		for _, u := range uris {
			for _, e := range []interface{}{nil, "x", "", false, map[string]interface{}{}, 0} {
				check(f, u, e, "org-protocol", "0", "0")
			}
		}
	}
	for _, out := range []string{"org-protocol", "org-protocol\n", "nil", "", "nil\norg-protocol", " org-protocol", "org-protoco", "*ERROR*: org-protocol"} {
		for _, fail := range []string{"0", "1", "2", "3"} {
			for _, rc := range []string{"1", "9"} {
				check("org-protocol", "org-protocol://capture", nil, out, fail, rc)
			}
		}
	}
	pieces := vClean(append([]string{"org-protocol:", "a", ":", "/", "-", " "}, strs...))
	for vmore(start, 20) {
		f := "org-protocol"
		if r.Intn(4) == 0 {
			f = pieces[r.Intn(len(pieces))]
		}
		u := vstring(r, pieces, 3)
		if r.Intn(2) == 0 {
			u = "org-protocol:" + u
		}
		check(f, u, []interface{}{nil, nil, nil, "x", 1.5}[r.Intn(5)], []string{"org-protocol", "nil"}[r.Intn(2)], strconv.Itoa(r.Intn(6)), []string{"1", "9"}[r.Intn(2)])
	}
}

func TestVerifC08(t *testing.T) {
	start := time.Now()
	r := vrand()
	strs, _ := vdict()
	formats := append([]string{"org-protocol", "org-protocol", "org-protocol", "org", "object", "", "ORG-PROTOCOL"}, strs...)
	versions := append([]string{"", "0.2", "0.1", "1"}, strs...)
	for i := 0; vmore(start, 10); i++ {
		q := &burl_rpc.HelloQuery{Version: versions[r.Intn(len(versions))]}
		for k := r.Intn(5); k > 0; k-- {
			q.Formats = append(q.Formats, burl_rpc.HelloFormat{Format: formats[r.Intn(len(formats))], Version: versions[r.Intn(len(versions))]})
			if r.Intn(2) == 0 {
				q.Formats[len(q.Formats)-1].Version = "0.2"
			}
		}
		nsrc, disabled := r.Intn(4), r.Intn(2) == 0
		names := []string{"/a", "/b", "/c"}[:nsrc%4]
		in := fmt.Sprintf("offered formats %+v, %d sources, link sets disabled %v", q.Formats, nsrc, disabled)
		vrun(t, in, func() {
			version := ""
			for _, f := range q.Formats {
				if f.Format == "org-protocol" {
					version = f.Version
					break
				}
			}
			var reply burl_rpc.HelloResponse
			b := vBackend(disabled, names...)
			err := b.Hello(q, &reply)
			if (err == nil) != (version != "") {
				vfail(t, "%s: error %v", in, err)
			}
			if err != nil {
				if !reflect.DeepEqual(reply, burl_rpc.HelloResponse{}) {
					vfail(t, "%s: refused but replied %+v", in, reply)
				}
				return
			}
			var caps []string
			if nsrc > 0 {
				caps = append(caps, "visit", "urlMentions")
				if !disabled {
					caps = append(caps, "linkSet")
				}
			}
			if reply.Format != "org-protocol" || reply.Version != version || len(caps)+len(reply.Capabilities) > 0 && !reflect.DeepEqual(reply.Capabilities, caps) {
				vfail(t, "%s: replied %+v, want version %q capabilities %q", in, reply, version, caps)
			}
			if disabled {
				var ls burl_rpc.LinkSetResponse
				if b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"http"}}, &ls) == nil {
					vfail(t, "%s: a disabled link set request succeeded", in)
				}
			}
		})
	}
}
