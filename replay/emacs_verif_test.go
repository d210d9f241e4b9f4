package burl_emacs

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func vArgv(user, fixed []string, extra ...string) []string {
	return append(append(append([]string{}, user...), fixed...), extra...)
}

func TestVerifC07(t *testing.T) {
	start := time.Now()
	ed := vNewEditor(t)
	Command = ed.path
	r := vrand()
	strs, ints := vdict()
	pieces := append([]string{"a", "-x", "--eval", " ", "'", "\"", "\n", "é", "", "+1", "\\", "$HOME", "*"}, strs...)
	for i, s := range pieces {
		pieces[i] = strings.ReplaceAll(strings.ReplaceAll(s, "\x00", ""), "\x01", "")
	}
	word := func() string { return vstring(r, pieces, 2) }
	for round := 0; vmore(start, 20); round++ {
		nu, nf := round%6, round/6%4
		capacity := nu + []int{0, 1, 4, 16}[round%4]
		full := make([]string, capacity)
		for i := range full {
			full[i] = fmt.Sprintf("spare%d", i)
		}
		for i := 0; i < nu; i++ {
			full[i] = word()
		}
		UserArgs = full[:nu]
		fullArgs := make([]string, nf+round%3)
		for i := range fullArgs {
			fullArgs[i] = word()
		}
		Args = fullArgs[:nf]
		before := append(append([]string{}, full...), fullArgs...)
		user, fixed := append([]string{}, UserArgs...), append([]string{}, Args...)
		path := word()
		line := ints[r.Intn(len(ints))] - 1
		if r.Intn(2) == 0 {
			line = r.Intn(5) - 1
		}
		in := fmt.Sprintf("user arguments %q (capacity %d), fixed arguments %q, file %q, line %d", user, capacity, fixed, path, line)
		vrun(t, in, func() {
			ed.reset("org-protocol", "0", "0")
			e1, e2, e3 := VisitFile(path, line), OrgProtocol("org-protocol:"+path), OrgProtocol("http:"+path)
			visit := []string{"--no-wait"}
			if line > 0 {
				visit = append(visit, "+"+strconv.Itoa(line))
			}
			visit = append(visit, path)
			want := [][]string{
				vArgv(user, fixed, "--eval", EnsureFrameLisp), vArgv(user, fixed, visit...),
				vArgv(user, fixed, "--eval", CheckOrgProtocolLisp), vArgv(user, fixed, "--eval", EnsureFrameLisp), vArgv(user, fixed, "org-protocol:"+path)}
			if e1 != nil || e2 != nil || e3 == nil {
				vfail(t, "%s: errors %v, %v, %v", in, e1, e2, e3)
			}
			if got := ed.runs(); !vSameRuns(got, want) {
				vfail(t, "%s: the editor was run as\n%q\nwant\n%q", in, got, want)
			}
		})
		for i, s := range append(append([]string{}, full...), fullArgs...) {
			if s != before[i] {
				vfail(t, "%s: shared configuration memory was overwritten at %d: %q became %q", in, i, before[i], s)
			}
		}
		if round%8 != 7 {
			continue
		}
		// overlapping requests
		ed.reset("org-protocol", "0", "0")
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				CheckOrgProtocol()
				EnsureFrame()
				VisitFile(fmt.Sprintf("file%d", k), k+1)
				OrgProtocol(fmt.Sprintf("org-protocol:%d", k))
			}(k)
		}
		wg.Wait()
		count := map[string]int{}
		for _, a := range ed.runs() {
			count[fmt.Sprintf("%q", a)]++
		}
		want := map[string]int{}
		want[fmt.Sprintf("%q", vArgv(user, fixed, "--eval", CheckOrgProtocolLisp))] = 16
		want[fmt.Sprintf("%q", vArgv(user, fixed, "--eval", EnsureFrameLisp))] = 24
		for k := 0; k < 8; k++ {
			want[fmt.Sprintf("%q", vArgv(user, fixed, "--no-wait", fmt.Sprintf("+%d", k+1), fmt.Sprintf("file%d", k)))]++
			want[fmt.Sprintf("%q", vArgv(user, fixed, fmt.Sprintf("org-protocol:%d", k)))]++
		}
		for a, n := range count {
			if want[a] != n {
				vfail(t, "%s: 8 overlapping requests of each kind ran the editor %d times as %s, want %d times", in, n, a, want[a])
			}
		}
	}
}
