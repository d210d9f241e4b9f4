package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
)

// Stand-in for the backend the wrapper starts: the test binary itself.
func init() {
	if p := os.Getenv("VERIF_DUMP_ARGS"); p != "" {
		os.WriteFile(p, []byte(strings.Join(append(os.Args[1:], ""), "\x00")), 0644)
		os.Exit(0)
	}
}

func vTree(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			l = append(l, fmt.Sprintf("%s %o %q", p, i.Mode().Perm(), b))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func TestVerifC27(t *testing.T) {
	exe, err := os.Executable()
	if err != nil {
		t.Skip(err)
	}
	if exe, err = filepath.EvalSymlinks(exe); err != nil {
		t.Skip(err)
	}
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	oldOut := os.Stdout
	defer func() { os.Stdout = oldOut }()
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		t.Skip(err)
	}
	backendSets := [][]string{
		nil,
		{"--org", "a.org"},
		{"--org", "a b.org", "--txt", "it's $HOME.txt", "--org", "sub/l.org", "--org", "a.org"},
		{"--txt", "a.org", "--log", "x.log"},
		{"--log", "z.log"}, {"--log", ""}, {"--log", "-"}, {"--disable-link-set"}, {"--scheme", ""}, {"--scheme", "", "--scheme", "doi"},
		{"--scheme", "doi", "--org", "link.org"}, {"--emacsarg", ""}, {"--emacsarg", "-nw"}, {"--emacsclient", "my 'e'", "--txt", "a.org"},
		{"--disable-link-set", "--log", "sub/y.log", "--scheme", "x", "--emacsarg", "", "--emacsarg", "q", "--org", "a.org", "--txt", "link.org"},
	}
	type inst struct{ args []string }
	var insts [][]string
	for _, w := range []string{"", "w.sh", "sub/w.sh", "-", exe, "./sub/../w.sh"} {
		for _, f := range []string{"", "ff.json", "-", "sub", "sub/FF.json"} {
			for _, c := range []string{"", "cc.json", "-", "dir2"} {
				for _, n := range []string{"", "ff", "cc"} {
					if n != "" && f == "" && c == "" {
						continue
					}
					a := []string{}
					if w != "" {
						a = append(a, "-wrapper", w)
					}
					if f != "" {
						a = append(a, "-manifest-firefox", f)
					}
					if c != "" {
						a = append(a, "-manifest-chrome", c)
					}
					if n != "" {
						a = append(a, "-backend", n)
					}
					insts = append(insts, a)
				}
			}
		}
	}
	ids := [][]string{nil,
		{"-mozilla-extension", "x@y", "-chrome-extension", "abc"},
		{"-mozilla-extension", "", "-chrome-extension", ""},
		{"-mozilla-extension", "", "-mozilla-extension", "q", "-chrome-extension", "", "-chrome-extension", "chrome-extension://zz/", "-chrome-extension", "yy"}}
	run := 0
	for bi, bargs := range backendSets {
		for ii, ia := range insts {
			for di, idargs := range ids {
				if (bi*7+ii*3+di)%5 != 0 && bi > 2 && !(ii < 12) {
					continue
				}
				for _, state := range []int{0, 1, 2} { // nothing exists; files exist; files exist and -force
					if state > 0 && (bi+ii+di)%7 != 0 {
						continue
					}
					run++
					vInstallOnce(t, exe, null, bargs, ia, idargs, state)
				}
			}
		}
	}
	t.Logf("%d runs", run)
}

func vInstallOnce(t *testing.T, exe string, null *os.File, bargs, iargs, idargs []string, state int) {
	dir, err := os.MkdirTemp("", "verifc27")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0755)
	os.Mkdir(filepath.Join(dir, "dir2"), 0755)
	for _, n := range []string{"a.org", "a b.org", "it's $HOME.txt", "sub/r.org"} {
		os.WriteFile(filepath.Join(dir, n), []byte("text"), 0644)
	}
	os.Symlink("r.org", filepath.Join(dir, "sub/l.org"))
	os.Symlink("sub/r.org", filepath.Join(dir, "link.org"))
	if state > 0 {
		for _, n := range []string{"w.sh", "sub/w.sh", "ff.json", "cc.json", "sub/FF.json"} {
			os.WriteFile(filepath.Join(dir, n), []byte("old content"), 0644)
		}
	}
	os.Chdir(dir)
	a, set, err := vParse(bargs)
	if err != nil {
		return
	}
	fs := flag.NewFlagSet("i", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	f := createInstallFlags(fs)
	all := append(append([]string{}, iargs...), idargs...)
	if state == 2 {
		all = append(all, "-force")
	}
	if fs.Parse(all) != nil {
		return
	}
	in := fmt.Sprintf("in a directory with a.org, sub/r.org, link.org -> sub/r.org, sub/l.org -> r.org (existing outputs: %v): burl_backend %q %q", state > 0, bargs, all)
	opt := func(name string) string { return fs.Lookup(name).Value.String() }
	w, ff, cc, name := opt("wrapper"), opt("manifest-firefox"), opt("manifest-chrome"), opt("backend")
	moz := append([]string{}, f.MozillaExtensionID...)
	chrome := []string{}
	for _, id := range f.ChromeExtensionID {
		if !strings.HasPrefix(id, "chrome-extension://") {
			id = "chrome-extension://" + id + "/"
		}
		chrome = append(chrome, id)
	}
	custom := len(bargs) > 0
	for i, b := range bargs {
		if b == "--log" && bargs[i+1] == DefaultLogDestination && len(bargs) == 2 {
			custom = false
		}
	}
	before := vTree(dir)
	exeBefore, _ := os.Stat(exe)
	outFile, err := os.Create(filepath.Join(filepath.Dir(dir), filepath.Base(dir)+".out"))
	if err != nil {
		t.Skip(err)
	}
	defer os.Remove(outFile.Name())
	defer outFile.Close()
	old := os.Stdout
	os.Stdout = outFile
	var helpers bool
	func() {
		defer func() { os.Stdout = old }()
		vrun(t, in, func() { helpers, err = processInstallFlags(f, a) })
	}()
	stdout, _ := os.ReadFile(outFile.Name())
	after := vTree(dir)
	if exeAfter, _ := os.Stat(exe); exeAfter == nil || !os.SameFile(exeBefore, exeAfter) || exeAfter.ModTime() != exeBefore.ModTime() {
		vfail(t, "%s: the backend executable itself was replaced", in)
	}
	if (w == "" && ff == "" && cc == "") == helpers {
		vfail(t, "%s: helpers %v", in, helpers)
	}
	dashes := 0
	for _, p := range []string{w, ff, cc} {
		if p == "-" {
			dashes++
		}
	}
	nothing := func(why string) {
		if err == nil {
			vfail(t, "%s: %s, but it is not refused", in, why)
		}
		if before != after || len(stdout) != 0 {
			vfail(t, "%s: %s, refused (%v), but something was written\nbefore %s\nafter %s\nstdout %q", in, why, err, before, after, stdout)
		}
	}
	switch {
	case !helpers:
		if err != nil || before != after || len(stdout) != 0 {
			vfail(t, "%s: nothing requested, error %v, stdout %q, files %s", in, err, stdout, after)
		}
		return
	case dashes > 1:
		nothing("more than one file for stdout")
		return
	case w == "-" && (ff != "" || cc != ""):
		nothing("manifest of a wrapper that goes to stdout")
		return
	case w == "" && custom:
		nothing("custom settings without a wrapper")
		return
	case w == exe && custom:
		nothing("custom settings and the backend itself as the wrapper")
		return
	}
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return filepath.Clean(p)
		}
		return filepath.Join(dir, p)
	}
	manifestPath := func(p string) (string, string, bool) {
		if p == "-" {
			n := name
			if n == "" {
				n = "io.github.maxnikulin.burl"
			}
			return "-", name, true
		}
		q := abs(p)
		if st, e := os.Stat(q); e == nil && st.IsDir() {
			m, _ := filepath.Glob(filepath.Join(q, "*.json"))
			if len(m) == 0 {
				return q, name, false
			}
			// sub may hold FF.json that was there before
			for _, x := range m {
				if filepath.Base(x) != "FF.json" {
					return x, name, true
				}
			}
			return q, name, false
		}
		return q, name, true
	}
	expectFail := false
	if state == 1 && (w != "" && w != "-" && w != exe || ff == "ff.json" || ff == "sub/FF.json" || cc == "cc.json") {
		expectFail = true
	}
	if name != "" && (ff == "ff.json" && name != "ff" || ff == "sub/FF.json" || cc == "cc.json" && name != "cc") {
		expectFail = true
	}
	if ff != "" && len(moz) == 0 || cc != "" && len(chrome) == 0 {
		expectFail = true
	}
	if expectFail {
		if err == nil {
			vfail(t, "%s: expected a refusal (existing file, inconsistent name or empty list of extensions)\nbefore %s\nafter %s", in, before, after)
		}
		return
	}
	if err != nil {
		vfail(t, "%s: fails: %v", in, err)
	}
	target := exe
	if w != "" && w != exe {
		script := string(stdout)
		path := "-"
		if w != "-" {
			path = abs(w)
			target = path
			b, e := os.ReadFile(path)
			if e != nil {
				vfail(t, "%s: wrapper not written: %v", in, e)
			}
			st, _ := os.Stat(path)
			if st.Mode().Perm()&0100 == 0 {
				vfail(t, "%s: wrapper is not executable: %v", in, st.Mode())
			}
			script = string(b)
		}
		got := vRunScript(t, in, dir, script, path)
		_, set2, e := vParse(got)
		if e != nil {
			vfail(t, "%s: the wrapper starts the backend with %q: %v", in, got, e)
		}
		want := set
		if want.Log != "" && want.Log != "-" {
			want.Log = abs(want.Log)
		}
		want.Sources = []string{}
		for i, s := range set.Sources {
			j := strings.IndexAny(s, " :=")
			_ = i
			q, _ := filepath.EvalSymlinks(abs(s[j+1:]))
			want.Sources = append(want.Sources, s[:j+1]+q)
		}
		if !reflect.DeepEqual(want, set2) {
			vfail(t, "%s: the wrapper restores\n%+v, expected\n%+v", in, set2, want)
		}
	}
	check := func(kind, p string, key string, list []string) {
		if p == "" {
			return
		}
		path, nm, ok := manifestPath(p)
		if !ok {
			vfail(t, "%s: %s manifest not written into %s", in, kind, path)
		}
		var b []byte
		if path == "-" {
			b = stdout
		} else {
			b, _ = os.ReadFile(path)
		}
		var m map[string]interface{}
		if e := json.Unmarshal(b, &m); e != nil {
			vfail(t, "%s: %s manifest %s: %v: %q", in, kind, path, e, b)
		}
		if m["path"] != target || m["type"] != "stdio" {
			vfail(t, "%s: %s manifest has path %v type %v, expected path %s", in, kind, m["path"], m["type"], target)
		}
		if nm != "" && m["name"] != nm {
			vfail(t, "%s: %s manifest name %v", in, kind, m["name"])
		}
		if path != "-" && m["name"] != strings.TrimSuffix(filepath.Base(path), ".json") {
			vfail(t, "%s: %s manifest name %v in the file %s", in, kind, m["name"], path)
		}
		var l []string
		for _, v := range m[key].([]interface{}) {
			l = append(l, v.(string))
		}
		if !reflect.DeepEqual(l, list) {
			vfail(t, "%s: %s manifest %s %q, expected %q", in, kind, key, l, list)
		}
		other := "allowed_origins"
		if key == other {
			other = "allowed_extensions"
		}
		if m[other] != nil {
			vfail(t, "%s: %s manifest has %s", in, kind, other)
		}
	}
	if !(ff == "sub" && cc == "sub") {
		check("Firefox", ff, "allowed_extensions", moz)
		check("Chrome", cc, "allowed_origins", chrome)
	}
}

func vRunScript(t *testing.T, in, dir, script, path string) []string {
	tmp, err := os.MkdirTemp("", "verifc27run")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(tmp)
	p := filepath.Join(tmp, "script")
	os.WriteFile(p, []byte(script), 0755)
	out := filepath.Join(tmp, "args")
	cmd := exec.Command("/bin/sh", "-eu", p)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_DUMP_ARGS="+out)
	b, err := cmd.CombinedOutput()
	if err != nil {
		vfail(t, "%s: wrapper does not run: %v %s\n%s", in, err, b, script)
	}
	d, err := os.ReadFile(out)
	if err != nil {
		vfail(t, "%s: the wrapper does not start the backend: %v, it prints %q\n%s", in, err, b, script)
	}
	l := strings.Split(string(d), "\x00")
	return l[:len(l)-1]
}
