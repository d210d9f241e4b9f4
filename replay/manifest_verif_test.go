package webextensions

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
)

func vManifestOK(m *Manifest) bool {
	if (len(m.AllowedOrigins) > 0) == (len(m.AllowedExtensions) > 0) {
		return false
	}
	if m.Name == "" || m.ManifestPath == "" || !strings.HasPrefix(m.Path, "/") {
		return false
	}
	if m.ManifestPath == "-" {
		return true
	}
	p := m.ManifestPath
	for len(p) > 0 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	base := p[strings.LastIndex(p, "/")+1:]
	dot := strings.LastIndex(base, ".")
	return dot >= 0 && strings.ToLower(base[dot:]) == ".json" && base[:dot] == m.Name
}

func TestVerifC26(t *testing.T) {
	start := time.Now()
	strs, _ := vdict()
	names := []string{"", "a", "burl", "a.json", "x.y", "a b", ".", "json", "-", "é", "a/b", "burl.JSON"}
	exts := []string{"", ".json", ".JSON", ".Json", ".txt", ".json.bak", "json", ".jsonx", ".", ".json/", ".json ", ".jsón"}
	dirs := []string{"", "/", "./", "/d/", "d/", "../", "/d.json/", "//", "-/"}
	lists := [][]string{nil, {}, {"x"}, {""}, {"x", "y"}}
	paths := []string{"", "/", "/b", "b", "./b", "../b", "-", "~/b", " /b", "C:\\b", "\\b", "/b c"}
	check := func(m Manifest) {
		in := fmt.Sprintf("%#v", m)
		vrun(t, in, func() {
			before := m
			want := vManifestOK(&m)
			err := m.Init()
			if (err == nil) != want {
				vfail(t, "%s: error %v, want accepted=%v", in, err, want)
			}
			if err == nil && m.Type != "stdio" {
				vfail(t, "%s: accepted with type %q", in, m.Type)
			}
			if err != nil && m.Type != before.Type {
				vfail(t, "%s: rejected but the type became %q", in, m.Type)
			}
			m.Type = before.Type
			if !reflect.DeepEqual(m, before) {
				vfail(t, "%s: other fields were changed: %#v", in, m)
			}
		})
	}
	for _, o := range lists {
		for _, e := range lists {
			for _, p := range paths {
				for _, mp := range []string{"", "-", "/d/a.json", "/d/b.json", "a.JSON"} {
					check(Manifest{Name: "a", Path: p, AllowedOrigins: o, AllowedExtensions: e, ManifestPath: mp})
				}
			}
		}
	}
	for _, n := range names {
		for _, n2 := range names {
			for _, d := range dirs {
				for _, x := range exts {
					check(Manifest{Name: n, Path: "/bin/b", AllowedOrigins: []string{"x"}, ManifestPath: d + n2 + x})
				}
			}
		}
	}
	r := vrand()
	pieces := append([]string{"a", "/", ".json", ".", "-", "b"}, strs...)
	for vmore(start, 10) {
		m := Manifest{Name: vstring(r, pieces, 3), Path: vstring(r, pieces, 3), Type: vstring(r, pieces, 1), Description: vstring(r, pieces, 1),
			AllowedOrigins: lists[r.Intn(len(lists))], AllowedExtensions: lists[r.Intn(len(lists))], ManifestPath: vstring(r, pieces, 4)}
		if r.Intn(2) == 0 {
			m.Path = "/" + m.Path
		}
		if r.Intn(2) == 0 {
			m.ManifestPath = vstring(r, pieces, 2) + "/" + m.Name + exts[r.Intn(len(exts))]
		}
		check(m)
	}
}
