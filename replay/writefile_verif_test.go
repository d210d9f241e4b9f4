package burl_fileutil

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

type vOld struct {
	kind string // absent, file, dir, nodir
	data []byte
	perm os.FileMode
}

func vShort(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", b[:30], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func vListing(dir string) map[string]bool {
	m := map[string]bool{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		m[e.Name()] = true
	}
	return m
}

func vCheckWrite(t *testing.T, root string, old vOld, content []byte, mode os.FileMode, force bool, limit int64) {
	in := fmt.Sprintf("existing %s %s mode %o, WriteFile(%s, mode %o, force %v), file size limit %d", old.kind, vShort(old.data), old.perm, vShort(content), mode, force, limit)
	dir, err := os.MkdirTemp(root, "w")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	target := filepath.Join(dir, "d", "target")
	os.Mkdir(filepath.Join(dir, "d"), 0755)
	os.WriteFile(filepath.Join(dir, "d", "other"), []byte("other"), 0600)
	switch old.kind {
	case "file":
		os.WriteFile(target, old.data, 0600)
		os.Chmod(target, old.perm)
		os.Link(target, filepath.Join(dir, "alias"))
	case "dir":
		os.Mkdir(target, 0755)
	case "nodir":
		target = filepath.Join(dir, "no", "target")
	}
	before := vListing(filepath.Join(dir, "d"))
	vrun(t, in, func() {
		if limit > 0 {
			var l syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
			n := l
			n.Cur = uint64(limit)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &n)
			defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
		}
		err = WriteFile(target, append([]byte{}, content...), mode, force)
	})
	after := vListing(filepath.Join(dir, "d"))
	got, rerr := os.ReadFile(target)
	if err == nil {
		if rerr != nil || !bytes.Equal(got, content) {
			vfail(t, "%s: success is reported but the file holds %s (%v)", in, vShort(got), rerr)
		}
		st, _ := os.Stat(target)
		if mode&0100 != 0 && st.Mode()&0100 == 0 {
			vfail(t, "%s: success is reported but the file is not executable: %o", in, st.Mode())
		}
		if !force && old.kind == "file" && !bytes.Equal(old.data, content) {
			vfail(t, "%s: a different file is overwritten without force", in)
		}
		before["target"] = true
	} else if old.kind == "file" {
		if rerr != nil || !bytes.Equal(got, old.data) {
			vfail(t, "%s: error %v but the file is changed to %s (%v)", in, err, vShort(got), rerr)
		}
	} else if old.kind == "absent" && rerr == nil {
		vfail(t, "%s: error %v but a file %s has been made", in, err, vShort(got))
	}
	if fmt.Sprint(before) != fmt.Sprint(after) {
		vfail(t, "%s: error %v, files %v become %v", in, err, before, after)
	}
	if o, _ := os.ReadFile(filepath.Join(dir, "d", "other")); string(o) != "other" {
		vfail(t, "%s: another file is changed", in)
	}
	if old.kind == "file" {
		if a, _ := os.ReadFile(filepath.Join(dir, "alias")); !bytes.Equal(a, old.data) {
			vfail(t, "%s: the existing file is written in place, so a reader or a crash can see a part of it: its other link holds %s", in, vShort(a))
		}
	}
	if err != nil && limit == 0 && (old.kind == "absent" || old.kind == "file" && (force || bytes.Equal(old.data, content) && !bytes.HasPrefix(content, []byte("#!/x")) && len(content) > 0 && len(content) < 4000)) {
		vfail(t, "%s: error %v although nothing is wrong", in, err)
	}
}

func TestVerifC22(t *testing.T) {
	start := time.Now()
	signal.Ignore(syscall.SIGXFSZ)
	root := vscratch(t)
	defer os.RemoveAll(root)
	r := vrand()
	mk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%7)
		}
		switch r.Intn(3) {
		case 0:
			copy(b, "#!/bin/sh\n")
		case 1:
			copy(b, "{\"a\":")
		}
		return b
	}
	lens := []int{0, 1, 5, 20, 500, 4095, 4096, 4097, 5000, 8192, 9000, 4096 + 4097}
	_, ints := vdict()
	for _, n := range ints {
		if n > 0 && n < 20000 {
			lens = append(lens, n, n+1)
		}
	}
	perms := []os.FileMode{0644, 0600, 0444, 0755, 0500, 0400, 0100, 0200, 0}
	one := func(kind string, content []byte, rel int, force bool, mode, perm os.FileMode, limit int64) {
		var data []byte
		switch rel {
		case 0:
			data = append(data, content...)
		case 1:
			data = append(append(data, content...), mk(1+r.Intn(20))...)
		case 2:
			data = append(data, content[:len(content)/2]...)
		case 3:
			data = mk(lens[r.Intn(len(lens))])
		case 4:
			if len(content) > 0 {
				data = append(data, content...)
				data[len(data)-1] ^= 1
			}
		}
		if kind != "file" {
			data = nil
		}
		vCheckWrite(t, root, vOld{kind, data, perm}, content, mode, force, limit)
	}
	for _, n := range lens {
		for rel := 0; rel < 5; rel++ {
			for _, force := range []bool{false, true} {
				one("file", mk(n), rel, force, 0755, 0644, 0)
			}
		}
	}
	kinds := []string{"absent", "file", "file", "file", "dir", "nodir"}
	for vmore(start, 20) {
		n := lens[r.Intn(len(lens))]
		limit := int64(0)
		if r.Intn(3) == 0 && n > 1 {
			limit = int64(1 + r.Intn(n))
		}
		mode := []os.FileMode{0755, 0644, 0600, 0700}[r.Intn(4)]
		one(kinds[r.Intn(len(kinds))], mk(n), r.Intn(5), r.Intn(2) == 0, mode, perms[r.Intn(len(perms))], limit)
	}
	// standard output
	f, err := os.Create(filepath.Join(root, "stdout"))
	if err != nil {
		t.Fatal(err)
	}
	saved := os.Stdout
	os.Stdout = f
	err = WriteFile("-", []byte("to stdout"), 0755, false)
	os.Stdout = saved
	f.Close()
	if b, _ := os.ReadFile(filepath.Join(root, "stdout")); err != nil || string(b) != "to stdout" {
		vfail(t, "WriteFile to \"-\" writes %q to standard output, error %v", b, err)
	}
}
