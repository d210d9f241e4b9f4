package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type checkReport struct {
	prop     string
	tasks    []*Task
	obs      []*Ob
	lemmas   []string
	axioms   []string
	failed   []*Ob
	proved   int
	probes   int
	elapsed  time.Duration
	verifier *Verifier
}

// a guessed loop invariant: the name without entry or preserved
var loopGuess = regexp.MustCompile(`^.*/loop\d+/(auto-|frame-)[^/]*/`)

func runCheck(v *Verifier, prop, tier string, only string) *checkReport {
	t0 := time.Now()
	r := &checkReport{prop: prop, verifier: v}
	r.tasks = v.tasksFor(prop)
	// invariants the verifier guesses are dropped when they do not hold
	for round := 0; round < 6; round++ {
		var auto []*Ob
		for _, t := range r.tasks {
			for _, o := range t.obs {
				if strings.Contains(o.Name, "/auto-") || strings.Contains(o.Name, "/frame-") {
					auto = append(auto, o)
				}
			}
		}
		solveAll(v, auto, "guess")
		dropped := false
		for _, o := range auto {
			if o.Status == "ok" {
				continue
			}
			if !loopGuess.MatchString(o.Name) {
				o.Status = ""
				continue
			}
			k := loopGuess.FindString(o.Name)
			if !v.dropped[k] {
				v.dropped[k] = true
				dropped = true
			}
		}
		if !dropped {
			break
		}
		r.tasks = v.tasksFor(prop)
	}
	if t := v.regexTask(prop); t != nil {
		r.tasks = append(r.tasks, t)
	}
	for _, t := range r.tasks {
		for _, o := range t.obs {
			if only == "" || strings.Contains(o.Name, only) {
				r.obs = append(r.obs, o)
			}
		}
	}
	solveAll(v, r.obs, tier)
	// lemmas in use
	done := map[string]bool{}
	for {
		var todo []string
		for n := range v.usedLemmas {
			if !done[n] {
				todo = append(todo, n)
				done[n] = true
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Strings(todo)
		var obs []*Ob
		for _, n := range todo {
			l := v.lemmas[n]
			if l == nil || l.Kind == "axiom" {
				r.axioms = append(r.axioms, n)
				continue
			}
			r.lemmas = append(r.lemmas, n)
			t := v.proveLemma(l, prop)
			r.tasks = append(r.tasks, t)
			for _, o := range t.obs {
				if only == "" || strings.Contains(o.Name, only) {
					obs = append(obs, o)
				}
			}
		}
		solveAll(v, obs, tier)
		r.obs = append(r.obs, obs...)
	}
	for _, o := range r.obs {
		if o.Vac {
			r.probes++
		}
		if o.Status != "ok" {
			if o.Vac && strings.Contains(o.Name, "loop") {
				continue
			}
			r.failed = append(r.failed, o)
		} else if !o.Vac {
			r.proved++
		}
	}
	r.elapsed = time.Since(t0)
	return r
}

func main() {
	repo := flag.String("repo", envOr("GOV_REPO", "/repo"), "source tree")
	root := flag.String("verif", envOr("GOV_VERIF", "/verif"), "verification tree")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	only := flag.String("only", "", "only obligations with this substring (development)")
	verbose := flag.Bool("v", false, "list obligations")
	dev := flag.Bool("dev", false, "no evidence, no replay")
	flag.Parse()
	os.Setenv("GOFLAGS", "-mod=mod -buildvcs=false")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	var err error
	tmpDir, err = os.MkdirTemp("", "gov")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("internal error:", r)
			if os.Getenv("GOV_TRACE") != "" {
				debug.PrintStack()
			}
			if os.Getenv("GOV_KEEP") != "" {
				debug.PrintStack()
			}
			code = 2
		}
		if os.Getenv("GOV_KEEP") == "" {
			os.RemoveAll(tmpDir)
		}
		os.Exit(code)
	}()
	args := flag.Args()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gov check PROP | list | obs PROP")
		return
	}
	switch args[0] {
	case "ssa":
		p, err := loadProgram(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		var ks []string
		for k := range p.funcs {
			if len(args) < 2 || strings.Contains(k, args[1]) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
			if len(args) > 1 {
				p.funcs[k].WriteTo(os.Stdout)
			}
		}
		code = 0
		return
	case "replay":
		rr := runReplay(*repo, *root, args[1], *tier, nil)
		fmt.Println("found:", rr.found, "ran:", rr.ran)
		fmt.Println(rr.output)
		code = 0
		return
	case "check":
		code = doCheck(*repo, *root, args[1], *tier, *only, *verbose, *dev)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
	}
}

func envOr(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

func doCheck(repo, root, prop, tier, only string, verbose, dev bool) int {
	t0 := time.Now()
	v, err := newVerifier(repo, loadSpecs(filepath.Join(root, "contracts")))
	var rep *checkReport
	if err != nil {
		rep = &checkReport{prop: prop}
		rep.failed = []*Ob{{Name: prop + "/load", Reason: err.Error(), Desc: "source or specification does not load"}}
	} else {
		rep = runCheck(v, prop, tier, only)
	}
	if verbose {
		for _, o := range rep.obs {
			if o.Vac {
				continue
			}
			s := "ok  "
			if o.Status != "ok" {
				s = "FAIL"
			}
			fmt.Printf("%s %6dms %-18s %s  [%s] %s %s\n", s, o.Millis, o.Backend, o.Name, o.Where, o.Desc, o.Model)
		}
	}
	if v != nil {
		for _, e := range v.specErrors {
			fmt.Println("spec:", e)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d failed, %d probes, %.1fs\n", prop, rep.proved+len(rep.failed), rep.proved, len(rep.failed), rep.probes, time.Since(t0).Seconds())
	for _, o := range rep.failed {
		fmt.Printf("  failed obligation %s [%s] %s: %s %s\n", o.Name, o.Where, o.Desc, o.Reason, o.Model)
	}
	if dev {
		if len(rep.failed) > 0 {
			return 1
		}
		return 0
	}
	return finish(repo, root, prop, tier, rep, t0)
}

func writeJSON(path string, x interface{}) error {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
