package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_links"
)

// vStart runs the backend on the arguments with no requests.
func vStart(t *testing.T, args []string) error {
	oldArgs, oldFlags, oldIn, oldOut, oldErr := os.Args, flag.CommandLine, os.Stdin, os.Stdout, os.Stderr
	defer func() { os.Args, flag.CommandLine, os.Stdin, os.Stdout, os.Stderr = oldArgs, oldFlags, oldIn, oldOut, oldErr }()
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer null.Close()
	os.Args = append([]string{"burl_backend"}, args...)
	flag.CommandLine = flag.NewFlagSet("burl_backend", flag.PanicOnError)
	os.Stdin, os.Stdout, os.Stderr = null, null, null
	return mainWithGracefulShutdown()
}

func TestVerifC17Main(t *testing.T) {
	start := time.Now()
	r := vrand()
	pool := []string{"foo", "news:", "ftp", "doi", "x-[a-z]+"}
	probes := []string{"doi", "https", "http", "mid", "foo", "news", "ftp", "x-a", "xfoo", "foox", "file"}
	defaults := append([]string{}, burl_links.SchemeVariants...)
	for n := 0; n < 80 && vmore(start, 15); n++ {
		list := append([]string{}, defaults...)
		var args []string
		if n > 0 && r.Intn(3) == 0 {
			args = append(args, "-scheme=")
			list = nil
		}
		for k := r.Intn(4); n > 0 && k >= 0; k-- {
			s := pool[r.Intn(len(pool))]
			args = append(args, "-scheme="+s)
			list = append(list, s)
		}
		if len(list) == 0 {
			continue
		}
		in := fmt.Sprintf("options %q", args)
		vrun(t, in, func() {
			burl_links.SchemeVariants = append([]string{}, defaults...)
			if err := burl_links.UpdateRe(defaults); err != nil {
				t.Fatal(err)
			}
			// a source that is not there is only looked at by a request
			if err := vStart(t, append(args, "-org", "/nonexistent")); err != nil {
				// one process registers the endpoint once
				if !strings.Contains(err.Error(), "register RPC") {
					vfail(t, "%s: %v", in, err)
				}
			}
			for _, p := range probes {
				want := false
				for _, s := range list {
					want = want || regexp.MustCompile("^(?:"+strings.TrimSuffix(s, ":")+")$").MatchString(p)
				}
				tree, err := burl_links.OrgLinkSource("f").Extract(strings.NewReader("[["+p+":x][d]]\n"), nil)
				if err != nil {
					vfail(t, "%s: %v", in, err)
				}
				if got := !tree.Empty(); got != want {
					vfail(t, "%s: link with scheme %q recorded: %v, want %v", in, p, got, want)
				}
			}
		})
	}
}
