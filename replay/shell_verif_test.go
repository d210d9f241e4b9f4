package burl_fileutil

import (
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"
)

// vShWords lets sh split words into arguments.
func vShWords(words string, locale string) ([]string, error) {
	cmd := exec.Command("/bin/sh", "-c", "printf '%s\\0' "+words)
	cmd.Env = append(os.Environ(), "LC_ALL="+locale)
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	return strings.Split(strings.TrimSuffix(string(out), "\x00"), "\x00"), nil
}

func vCheckWords(t *testing.T, args []string, locale string) {
	words := []string{}
	for _, a := range args {
		w, err := EscapeShellArg(a)
		if err != nil {
			vfail(t, "EscapeShellArg(%q): error %v", a, err)
		}
		words = append(words, w)
	}
	got, err := vShWords(strings.Join(words, " "), locale)
	ok := err == nil && len(got) == len(args)
	for i := 0; ok && i < len(args); i++ {
		ok = got[i] == args[i]
	}
	if ok {
		return
	}
	if len(args) > 1 {
		for _, a := range args {
			vCheckWords(t, []string{a}, locale)
		}
	}
	vfail(t, "LC_ALL=%s: EscapeShellArg of %q gives %q, which sh reads as %q (%v)", locale, args, words, got, err)
}

func TestVerifC23(t *testing.T) {
	start := time.Now()
	r := vrand()
	dict, _ := vdict()
	pieces := []string{"a", " ", "'", "\"", "\\", "$", "`", "\n", "\t", "\r", "!", "#", "&", ";", "|", "<", ">", "(", ")", "*", "?", "[", "]", "{", "}", "~", "=", "%", "-", "é", "\xff", "\x01", "\x7f", "^", ",", "/", "привет", "$'", "'\\''", "%s"}
	for b := 1; b < 256; b++ {
		pieces = append(pieces, string([]byte{byte(b)}))
	}
	for _, s := range dict {
		if !strings.Contains(s, "\x00") {
			pieces = append(pieces, s)
		}
	}
	locales := []string{"C", "C.UTF-8"}
	first := append([]string{""}, pieces...)
	for len(first) > 0 {
		n := 40
		if n > len(first) {
			n = len(first)
		}
		for _, l := range locales {
			vCheckWords(t, first[:n], l)
		}
		first = first[n:]
	}
	for vmore(start, 20) {
		args := []string{}
		for i := 0; i < 30; i++ {
			args = append(args, vstring(r, pieces, 6))
		}
		vCheckWords(t, args, locales[r.Intn(2)])
	}
}
