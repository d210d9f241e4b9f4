package main

import (
	"flag"
	"fmt"
	"io"
	"os/exec"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_emacs"
	"github.com/maxnikulin/burl/pkg/burl_links"
)

type vSettings struct {
	Log, Command            string
	NoSet                   bool
	Scheme, Emacs, Sources  []string
}

func vParse(args []string) (*BurlBackendArgs, vSettings, error) {
	burl_emacs.Command = "emacsclient"
	burl_emacs.UserArgs = append(make([]string, 0, 8), vDefaultEmacs...)
	burl_links.SchemeVariants = append(make([]string, 0, 8), vDefaultScheme...)
	fs := flag.NewFlagSet("t", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	a := AddBackendFlags(fs)
	err := fs.Parse(args)
	if err == nil && fs.NArg() != 0 {
		err = fmt.Errorf("arguments left: %q", fs.Args())
	}
	return a, vSettingsOf(a), err
}

func vSettingsOf(a *BurlBackendArgs) vSettings {
	s := vSettings{Log: a.LogFile, Command: burl_emacs.Command, NoSet: a.DisableLinkSet,
		Scheme: append([]string{}, burl_links.SchemeVariants...), Emacs: append([]string{}, burl_emacs.UserArgs...), Sources: []string{}}
	for _, l := range a.LinkSources {
		s.Sources = append(s.Sources, fmt.Sprintf("%T:%s", l, l.Name()))
	}
	return s
}

var vDefaultScheme = append([]string{}, burl_links.SchemeVariants...)
var vDefaultEmacs = append([]string{}, burl_emacs.UserArgs...)

func TestVerifC24(t *testing.T) {
	start := time.Now()
	r := vrand()
	pieces := []string{"a", "b c", "'", "\"", "é", "$x", "\n", "--org=x", "-", "=", "\\", "http", "https", "--"}
	for n := 0; vmore(start, 25); n++ {
		args := []string{}
		want := vSettings{Log: DefaultLogDestination, Command: "emacsclient", Scheme: append([]string{}, vDefaultScheme...), Emacs: append([]string{}, vDefaultEmacs...), Sources: []string{}}
		resetS, resetE := false, false
		for i := 0; i < 6; i++ {
			v := vstring(r, pieces, 3)
			switch r.Intn(11) {
			case 0:
				args, want.Log = append(args, "--log", v), v
			case 1:
				args, want.NoSet = append(args, "--disable-link-set"), true
			case 2:
				args, want.Command = append(args, "--emacsclient="+v), v
			case 3:
				if v != "" {
					args, want.Emacs = append(args, "--emacsarg", v), append(want.Emacs, v)
					resetE = true
				}
			case 4:
				if v != "" {
					args, want.Scheme = append(args, "--scheme="+v), append(want.Scheme, v)
					resetS = true
				}
			case 5, 6:
				args, want.Sources = append(args, "--org="+v), append(want.Sources, "burl_links.OrgLinkSource:"+v)
			case 7, 8:
				args, want.Sources = append(args, "--txt", v), append(want.Sources, "burl_links.TxtLinkSource:"+v)
			case 9:
				if !resetE {
					args, want.Emacs = append(args, "--emacsarg="), []string{}
					resetE = true
				}
			case 10:
				if !resetS {
					args, want.Scheme = append(args, "--scheme="), []string{}
					resetS = true
				}
			}
		}
		in := fmt.Sprintf("command line %q", args)
		vrun(t, in, func() {
			a, got, err := vParse(args)
			if err != nil || !reflect.DeepEqual(got, want) {
				vfail(t, "%s is parsed as %+v (%v), want %+v", in, got, err, want)
			}
			words, err := a.AsShellCommand()
			if err != nil {
				vfail(t, "%s: AsShellCommand: %v", in, err)
			}
			if after := vSettingsOf(a); !reflect.DeepEqual(after, want) {
				vfail(t, "%s: AsShellCommand changes the settings to %+v", in, after)
			}
			out, err := exec.Command("/bin/sh", "-c", "printf '%s\\0' "+strings.Join(words, " ")).Output()
			if err != nil {
				vfail(t, "%s: sh cannot read the words %q: %v", in, words, err)
			}
			again := strings.Split(strings.TrimSuffix(string(out), "\x00"), "\x00")
			_, got, err = vParse(again)
			if err != nil || !reflect.DeepEqual(got, want) {
				vfail(t, "%s: the generated words %q are parsed as %+v (%v), want %+v", in, words, got, err, want)
			}
		})
	}
}
