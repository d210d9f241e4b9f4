package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solver struct {
	name string
	args func(file string, secs int) []string
}

var solvers = []solver{
	{"z3-4.8.12", func(f string, s int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), "smt.auto_config=true", f}
	}},
	{"z3-4.8.12/ematch", func(f string, s int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false", f}
	}},
	{"z3-4.8.12/noext", func(f string, s int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false", "smt.array.extensional=false", f}
	}},
	{"z3-new", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"z3-new/ematch", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false", f}
	}},
	{"cvc5-1.1.2", func(f string, s int) []string { return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), f} }},
	{"z3-4.8.12/seed", func(f string, s int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false", "smt.random_seed=7", "smt.arith.solver=2", f}
	}},
}

type solveStats struct {
	sync.Mutex
	byBackend map[string]int
	ms        int64
	queries   int
	slow      map[string]int64
}

var stats = solveStats{byBackend: map[string]int{}, slow: map[string]int64{}}

// asmInfo is what slicing needs to know about one assumption.
type asmInfo struct {
	text  string
	guard string   // reachability symbol it depends on, if that is all its condition
	def   string   // symbol it defines
	syms  []string // symbols of the task in it
}

func localSym(s string) bool {
	i := strings.IndexByte(s, '!')
	return i > 0 && !strings.HasPrefix(s, "lit!")
}

func isReachSym(s string) bool { return strings.HasPrefix(s, "e!") || strings.HasPrefix(s, "r!") }

func parseAsm(a string) *asmInfo {
	x := &asmInfo{text: a}
	toks := symTokens(a)
	seen := map[string]bool{}
	for _, s := range toks {
		if localSym(s) && !seen[s] {
			seen[s] = true
			x.syms = append(x.syms, s)
		}
	}
	if strings.HasPrefix(a, "(=> ") && a[4] != '(' {
		x.guard = toks[1]
	}
	if strings.HasPrefix(a, "(= ") && a[3] != '(' && isReachSym(toks[1]) {
		x.def = toks[1]
	}
	return x
}

// sliced gives the assumptions that can matter for the obligation: those of blocks from which it
// can be reached, and the definitions these use. Leaving assumptions out is sound.
func (o *Ob) sliced() (asm, lazy []string) {
	t := o.Task
	t.infoMu.Lock()
	if t.info == nil {
		t.info = map[string]*asmInfo{}
	}
	get := func(a string) *asmInfo {
		x := t.info[a]
		if x == nil {
			x = parseAsm(a)
			t.info[a] = x
		}
		return x
	}
	var all []*asmInfo
	for _, a := range t.asm[:o.NAsm] {
		all = append(all, get(a))
	}
	for _, a := range t.lazy {
		all = append(all, get(a))
	}
	t.infoMu.Unlock()
	defs := map[string]*asmInfo{}
	for _, x := range all {
		if x.def != "" && defs[x.def] == nil {
			defs[x.def] = x
		}
	}
	isReach := isReachSym
	anc := map[string]bool{}
	var up func(s string)
	up = func(s string) {
		if anc[s] || !isReach(s) {
			return
		}
		anc[s] = true
		if d := defs[s]; d != nil {
			for _, y := range d.syms {
				up(y)
			}
		}
	}
	need := map[string]bool{}
	var work []string
	want := func(s string) {
		if localSym(s) && !need[s] {
			need[s] = true
			work = append(work, s)
		}
	}
	for _, s := range append(symTokens(o.Reach), symTokens(o.Goal)...) {
		up(s)
		want(s)
	}
	bySym := map[string][]int{}
	for i, x := range all {
		for _, s := range x.syms {
			bySym[s] = append(bySym[s], i)
		}
	}
	keep := make([]bool, len(all))
	add := func(i int) {
		if !keep[i] {
			keep[i] = true
			for _, s := range all[i].syms {
				want(s)
			}
		}
	}
	for i, x := range all {
		if len(x.syms) == 0 {
			add(i)
		} else if x.guard != "" && isReach(x.guard) && anc[x.guard] {
			add(i)
		}
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range bySym[s] {
			x := all[i]
			switch {
			case keep[i]:
			case x.def != "":
				if x.def == s {
					add(i)
				}
			case x.guard != "" && isReach(x.guard):
				// of a block that does not lead here
				if anc[x.guard] {
					add(i)
				}
			default:
				add(i)
			}
		}
	}
	for i, x := range all {
		if keep[i] {
			if i < o.NAsm {
				asm = append(asm, x.text)
			} else {
				lazy = append(lazy, x.text)
			}
		}
	}
	return
}

func (o *Ob) query(v *Verifier) string {
	t := o.Task
	asm, lazy := o.sliced()
	if os.Getenv("GOV_NOSLICE") != "" {
		asm, lazy = t.asm[:o.NAsm], t.lazy
	}
	var texts []string
	texts = append(texts, asm...)
	texts = append(texts, lazy...)
	texts = append(texts, o.Reach, o.Goal)
	decls, axioms := t.reg.closure(texts, o.Excl)
	var b strings.Builder
	b.WriteString("(set-option :print-success false)\n")
	b.WriteString("(set-logic ALL)\n")
	type item struct {
		order     int
		text, sym string
	}
	var sorts, rest []item
	for _, d := range decls {
		if strings.HasPrefix(d.Text, "(declare-sort") || strings.HasPrefix(d.Text, "(declare-datatypes") {
			sorts = append(sorts, item{d.order, d.Text, d.Sym})
		} else {
			rest = append(rest, item{d.order, d.Text, d.Sym})
		}
	}
	// datatypes may mention sequence sorts declared later: sort by dependency
	for _, s := range orderSorts(decls) {
		b.WriteString(s + "\n")
	}
	_ = sorts
	pos := map[string]int{}
	for _, x := range texts {
		for _, s := range symTokens(x) {
			if _, ok := pos[s]; !ok {
				pos[s] = len(pos)
			}
		}
	}
	for _, a := range axioms {
		for _, s := range symTokens(a.Text) {
			if _, ok := pos[s]; !ok {
				pos[s] = len(pos)
			}
		}
	}
	at := func(d item) int {
		if p, ok := pos[d.sym]; ok {
			return p
		}
		return 1 << 30
	}
	def := func(d item) int {
		if strings.HasPrefix(d.text, "(define-") {
			return 1
		}
		return 0
	}
	sort.SliceStable(rest, func(i, j int) bool {
		if di, dj := def(rest[i]), def(rest[j]); di != dj || di == 1 {
			return di < dj
		}
		return at(rest[i]) < at(rest[j])
	})
	for _, r := range rest {
		b.WriteString(r.text + "\n")
	}
	for _, a := range axioms {
		if a.Kind == "lemma" {
			t.v.noteLemma(a.Name)
		}
		if a.Kind == "axiom" {
			t.v.noteAxiom(a.Name)
		}
		b.WriteString("(assert " + a.Text + ")\n")
	}
	for _, a := range asm {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, a := range lazy {
		b.WriteString("(assert " + a + ")\n")
	}
	if o.Reach != "true" {
		b.WriteString("(assert " + o.Reach + ")\n")
	}
	b.WriteString("(assert (not " + o.Goal + "))\n(check-sat)\n")
	return b.String()
}

var noteMu sync.Mutex

func (v *Verifier) noteLemma(n string) {
	noteMu.Lock()
	v.usedLemmas[n] = true
	noteMu.Unlock()
}

func (v *Verifier) noteAxiom(n string) {
	noteMu.Lock()
	v.usedLemmas[n] = true
	noteMu.Unlock()
}

func orderSorts(decls []*Decl) []string {
	bySym := map[string]*Decl{}
	for _, d := range decls {
		if strings.HasPrefix(d.Text, "(declare-sort") || strings.HasPrefix(d.Text, "(declare-datatypes") {
			bySym[d.Sym] = d
		}
	}
	var syms []string
	for s := range bySym {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(i, j int) bool { return bySym[syms[i]].order < bySym[syms[j]].order })
	var out []string
	done := map[string]bool{}
	var visit func(s string)
	visit = func(s string) {
		if done[s] {
			return
		}
		done[s] = true
		for _, x := range symTokens(bySym[s].Text) {
			if bySym[x] != nil && x != s {
				visit(x)
			}
		}
		out = append(out, bySym[s].Text)
	}
	for _, s := range syms {
		visit(s)
	}
	return out
}

var tmpDir string
var fileNo int
var fileMu sync.Mutex

func writeQuery(q string) string {
	fileMu.Lock()
	fileNo++
	n := fileNo
	fileMu.Unlock()
	f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(q), 0644)
	return f
}

var slots = make(chan struct{}, 8)

func runSolver(ctx context.Context, s solver, file string, secs int) string {
	slots <- struct{}{}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return "cancelled"
	}
	a := s.args(file, secs)
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	ms := time.Since(t0).Milliseconds()
	stats.Lock()
	stats.queries++
	stats.ms += ms
	stats.Unlock()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return l
		}
	}
	if ctx.Err() != nil {
		return "cancelled"
	}
	if c2.Err() != nil {
		return "timeout"
	}
	return strings.TrimSpace(out.String())
}

// solve decides one obligation.
var failures int32

func (o *Ob) solve(v *Verifier, tier string) {
	if o.Status != "" {
		return
	}
	q := o.query(v)
	file := writeQuery(q)
	t0 := time.Now()
	defer func() {
		o.Millis = time.Since(t0).Milliseconds()
		if os.Getenv("GOV_KEEP") == "" {
			os.Remove(file)
		} else {
			o.Model = file
		}
	}()
	if o.Vac {
		r := runSolver(context.Background(), solvers[1], file, 3)
		if r == "unsat" {
			o.Status = "failed"
			o.Reason = "vacuous: the assumptions are contradictory"
		} else {
			o.Status = "ok"
		}
		return
	}
	reasons := map[string]string{}
	first := []int{2, 1}
	second := []int{0, 1, 2, 3, 4, 5, 6}
	t1, t2 := 4, 25
	switch {
	case tier == "thorough":
		t2 = 120
	case tier == "guess":
		t2 = 6
	case atomic.LoadInt32(&failures) < 2:
		t2 = 45
	case atomic.LoadInt32(&failures) >= 6:
		// the verdict is clear, what else fails is only reported
		t2 = 5
	}
	for _, i := range first {
		r := runSolver(context.Background(), solvers[i], file, t1)
		reasons[solvers[i].name] = r
		if r == "unsat" {
			o.proved(solvers[i].name)
			return
		}
		if strings.HasPrefix(r, "(error") {
			o.Status = "failed"
			o.Reason = "solver error: " + r
			return
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		i int
		r string
	}
	ch := make(chan res, len(second))
	for _, i := range second {
		go func(i int) { ch <- res{i, runSolver(ctx, solvers[i], file, t2)} }(i)
	}
	for range second {
		r := <-ch
		if r.r == "unsat" {
			o.proved(solvers[r.i].name)
			return
		}
		reasons[solvers[r.i].name] = r.r
	}
	o.Status = "failed"
	if tier != "guess" {
		atomic.AddInt32(&failures, 1)
	}
	var rs []string
	for k, x := range reasons {
		rs = append(rs, k+": "+x)
	}
	sort.Strings(rs)
	o.Reason = strings.Join(rs, "; ")
}

func (o *Ob) proved(by string) {
	o.Status = "ok"
	o.Backend = by
	stats.Lock()
	stats.byBackend[by]++
	stats.Unlock()
}

func solveAll(v *Verifier, obs []*Ob, tier string) {
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, o := range obs {
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Ob) {
			defer wg.Done()
			defer func() { <-sem }()
			o.solve(v, tier)
		}(o)
	}
	wg.Wait()
}
