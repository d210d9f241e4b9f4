package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

// TestVerifC04 runs the whole backend on a list of method names.
func TestVerifC04(t *testing.T) {
	d := vscratch(t)
	src := filepath.Join(d, "notes.txt")
	os.WriteFile(src, []byte("http://a.b/c\n"), 0644)
	strs, _ := vdict()
	published := map[string]bool{}
	for _, p := range []string{"linkremark.", "burl."} {
		for _, m := range []string{"hello", "capture", "visit", "urlMentions", "linkSet"} {
			published[p+m] = true
		}
	}
	published["hello"] = true
	published["capture"] = true
	names := []string{""}
	seen := map[string]bool{"": true}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	for n := range published {
		add(n)
		add(strings.ToUpper(n))
		add("unknown." + n)
		add(n + " ")
		add(strings.TrimPrefix(n, "burl."))
	}
	for _, p := range []string{"", "burl.", "linkremark.", "Burl.", "BurlBackend.", "unknown.", "unknown.Burl."} {
		for _, m := range []string{"Hello", "Capture", "Visit", "UrlMentions", "LinkSet", "Search", "search", "hello", "linkset", "visit"} {
			add(p + m)
		}
	}
	for _, s := range strs {
		if len(s) < 60 {
			add(s)
		}
	}
	pick := func(n string) interface{} {
		// nothing here gets as far as the editor
		return map[string]interface{}{"format": "none", "filePath": "/nowhere", "variants": []string{}, "formats": []interface{}{}, "prefix": []string{"1:"}, "query": "x", "version": "1"}
	}
	inR, inW, _ := os.Pipe()
	outR, outW, _ := os.Pipe()
	oi, oo, oa := os.Stdin, os.Stdout, os.Args
	os.Stdin, os.Stdout, os.Args = inR, outW, []string{"burl_backend", src}
	defer func() { os.Stdin, os.Stdout, os.Args = oi, oo, oa }()
	vResetFlags()
	go func() {
		for i, n := range names {
			b, _ := json.Marshal(map[string]interface{}{"id": i, "method": n, "params": []interface{}{pick(n)}})
			h := make([]byte, 4)
			binary.LittleEndian.PutUint32(h, uint32(len(b)))
			inW.Write(append(h, b...))
		}
	}()
	done := make(chan error, 1)
	go func() { done <- mainWithGracefulShutdown() }()
	type rep struct {
		Id    int
		Error interface{}
	}
	got := map[int]string{}
	ch := make(chan rep)
	go func() {
		for {
			h := make([]byte, 4)
			if _, err := io.ReadFull(outR, h); err != nil {
				close(ch)
				return
			}
			b := make([]byte, binary.LittleEndian.Uint32(h))
			io.ReadFull(outR, b)
			var r rep
			json.NewDecoder(bytes.NewReader(b)).Decode(&r)
			ch <- r
		}
	}()
	timeout := time.After(20 * time.Second)
	for len(got) < len(names) {
		select {
		case r := <-ch:
			got[r.Id] = fmt.Sprint(r.Error)
		case err := <-done:
			os.Stdout = oo
			vfail(t, "the backend ends with %v after %d of %d replies", err, len(got), len(names))
		case <-timeout:
			os.Stdout = oo
			vfail(t, "%d of %d requests are answered", len(got), len(names))
		}
	}
	os.Stdout = oo
	for i, n := range names {
		reached := !strings.HasPrefix(got[i], "rpc: ")
		if reached != published[n] {
			vfail(t, "method %q: published %v, reply error %q", n, published[n], got[i])
		}
	}
}
