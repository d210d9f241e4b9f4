package burl_fuzzy

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

func vOracle(p, w []rune) EditorDistance {
	d := make([][]int, len(p)+1)
	for i := range d {
		d[i] = make([]int, len(w)+1)
		for j := range d[i] {
			if i == 0 {
				continue
			}
			m := d[i-1][j] + 1
			if j > 0 {
				if x := d[i][j-1] + 1; x < m {
					m = x
				}
				c := 1
				if p[i-1] == w[j-1] {
					c = 0
				}
				if x := d[i-1][j-1] + c; x < m {
					m = x
				}
				if i > 1 && j > 1 && p[i-1] == w[j-2] && p[i-2] == w[j-1] {
					if x := d[i-2][j-2] + 1; x < m {
						m = x
					}
				}
			}
			d[i][j] = m
		}
	}
	best := 32767
	for _, x := range d[len(p)] {
		if x < best {
			best = x
		}
	}
	return EditorDistance(best)
}

func vCheckDL(t *testing.T, p, w string) {
	vrun(t, fmt.Sprintf("SearchDistanceDL(%q, %q)", p, w), func() {
		want := vOracle([]rune(strings.ToLower(p)), []rune(strings.ToLower(w)))
		if got := SearchDistanceDL(p, w); got != want {
			vfail(t, "SearchDistanceDL(%q, %q) = %d, the least cost over all substrings is %d", p, w, got, want)
		}
	})
	pr, wr := []rune(p), []rune(w)
	vrun(t, fmt.Sprintf("EditorDistanceRunes(%q, %q)", p, w), func() {
		if got, want := EditorDistanceRunes(pr, wr), vOracle([]rune(p), []rune(w)); got != want {
			vfail(t, "EditorDistanceRunes(%q, %q) = %d, the least cost over all substrings is %d", p, w, got, want)
		}
		if string(pr) != string([]rune(p)) || string(wr) != string([]rune(w)) {
			vfail(t, "EditorDistanceRunes(%q, %q) changed its arguments", p, w)
		}
	})
}

func TestVerifC20(t *testing.T) {
	start := time.Now()
	var gen func(alpha []string, n int) []string
	gen = func(alpha []string, n int) []string {
		out := []string{""}
		last := out
		for i := 0; i < n; i++ {
			var next []string
			for _, s := range last {
				for _, a := range alpha {
					next = append(next, s+a)
				}
			}
			out = append(out, next...)
			last = next
		}
		return out
	}
	ps, ws := gen([]string{"a", "b", "c"}, 4), gen([]string{"a", "b", "c"}, 5)
	for _, p := range ps {
		for _, w := range ws {
			vCheckDL(t, p, w)
		}
	}
	for _, p := range gen([]string{"a", "B"}, 6) {
		for _, w := range gen([]string{"A", "b"}, 6) {
			vCheckDL(t, p, w)
		}
	}
	strs, ints := vdict()
	r := vrand()
	pieces := append([]string{"a", "b", "ab", "ba", "é", "É", "Ж", "ж", "日", "\xff", "x"}, strs...)
	for _, n := range ints {
		if n > 0 && n <= 300 {
			for _, k := range []int{n - 1, n, n + 1} {
				vCheckDL(t, strings.Repeat("ab", k/2+1)[:k], strings.Repeat("ba", k))
				vCheckDL(t, strings.Repeat("x", k), "yyy"+strings.Repeat("xy", k/2+1)[:k])
				vCheckDL(t, "abc", strings.Repeat("zy", k)+"acb")
			}
		}
	}
	vCheckDL(t, strings.Repeat("a", 40000), strings.Repeat("b", 3))
	vCheckDL(t, strings.Repeat("a", 33000), "")
	for vmore(start, 40) {
		p := vstring(r, pieces, 8)
		w := vstring(r, pieces, 3) + p + vstring(r, pieces, 3)
		ru := []rune(w)
		for k := r.Intn(4); k > 0 && len(ru) > 1; k-- {
			i := r.Intn(len(ru) - 1)
			switch r.Intn(3) {
			case 0:
				ru[i], ru[i+1] = ru[i+1], ru[i]
			case 1:
				ru = append(ru[:i], ru[i+1:]...)
			case 2:
				ru[i] = 'q'
			}
		}
		vCheckDL(t, p, string(ru))
		vCheckDL(t, string(ru), p)
	}
}
