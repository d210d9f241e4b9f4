package burl_util

import (
	"fmt"
	"reflect"
	"testing"
	"time"
)

func vSame(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func vCheckFlag(t *testing.T, defaults, log []string, capacity int) {
	in := fmt.Sprintf("defaults %q (capacity %d), settings %q", defaults, capacity, log)
	vrun(t, in, func() {
		cur := make([]string, len(defaults), capacity)
		copy(cur, defaults)
		f := NewMultiStringFlag(&cur)
		want := append([]string{}, defaults...)
		state := 0
		for i, v := range log {
			err := f.Set(v)
			bad := v == "" && state == 1
			if (err != nil) != bad {
				vfail(t, "%s: setting no. %d: error %v", in, i, err)
			}
			if !bad {
				if v == "" {
					want, state = nil, 2
				} else {
					want = append(want, v)
					if state == 0 {
						state = 1
					}
				}
			}
			if !vSame(cur, want) || !vSame(f.Values(), want) {
				vfail(t, "%s: after setting no. %d the list is %q (Values %q), want %q", in, i, cur, f.Values(), want)
			}
			if f.IsModified() != (state != 0) {
				vfail(t, "%s: after setting no. %d IsModified is %v", in, i, f.IsModified())
			}
			again := append(make([]string, 0, len(defaults)), defaults...)
			g := NewMultiStringFlag(&again)
			mv := append([]string{}, f.ModifiedValues()...)
			for _, m := range mv {
				if err := g.Set(m); err != nil {
					vfail(t, "%s: after setting no. %d the captured settings %q do not replay: %v", in, i, mv, err)
				}
			}
			if !vSame(again, want) {
				vfail(t, "%s: after setting no. %d the captured settings %q replay to %q, want %q", in, i, mv, again, want)
			}
		}
	})
}

func TestVerifC25(t *testing.T) {
	start := time.Now()
	strs, _ := vdict()
	alpha := []string{"", "a", "b"}
	var rec func(log []string, n int)
	rec = func(log []string, n int) {
		for _, d := range [][]string{nil, {"x"}, {"x", "y"}, {"a", ""}} {
			vCheckFlag(t, d, log, len(d))
			vCheckFlag(t, d, log, len(d)+3)
		}
		if n == 0 {
			return
		}
		for _, a := range alpha {
			rec(append(append([]string{}, log...), a), n-1)
		}
	}
	rec(nil, 5)
	r := vrand()
	pieces := append([]string{"", "", "a", "-x", "--", "'", " "}, strs...)
	for vmore(start, 8) {
		n := r.Intn(12)
		var log, d []string
		for i := 0; i < n; i++ {
			log = append(log, pieces[r.Intn(len(pieces))])
		}
		for i := r.Intn(5); i > 0; i-- {
			d = append(d, pieces[r.Intn(len(pieces))])
		}
		vCheckFlag(t, d, log, len(d)+r.Intn(8))
	}
}
