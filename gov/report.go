package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// replayConf is /verif/replay/<prop>/conf.json
type replayConf struct {
	Pkg   string   `json:"pkg"`   // package directory relative to the repository
	Files []string `json:"files"` // test files, relative to /verif/replay
	Run   string   `json:"run"`
	Race  bool     `json:"race"`
	// templates replay/<name>.go.txt instantiated for the package, besides common
	Shared []string `json:"shared"`
}

// bounded is the report a harness leaves behind
type replayResult struct {
	found   bool
	output  string
	cases   int
	ran     bool
	timeout bool
}

func runReplay(repo, root, prop, tier string, rep *checkReport) replayResult {
	var res replayResult
	b, err := os.ReadFile(filepath.Join(root, "replay", prop+".json"))
	if err != nil {
		return res
	}
	var confs []replayConf
	if err := json.Unmarshal(b, &confs); err != nil {
		res.output = err.Error()
		return res
	}
	for _, c := range confs {
		dir := filepath.Join(tmpDir, "replay")
		os.MkdirAll(dir, 0755)
		over := map[string]string{}
		for _, f := range c.Files {
			over[filepath.Join(repo, c.Pkg, "zz_verif_"+strings.ReplaceAll(f, "/", "_"))] = filepath.Join(root, "replay", f)
		}
		pkg := "main"
		if len(c.Files) > 0 {
			first, _ := os.ReadFile(filepath.Join(root, "replay", c.Files[0]))
			for _, l := range strings.Split(string(first), "\n") {
				if strings.HasPrefix(l, "package ") {
					pkg = strings.Fields(l)[1]
					break
				}
			}
		}
		for _, tf := range append([]string{"common"}, c.Shared...) {
			src, err := os.ReadFile(filepath.Join(root, "replay", tf+".go.txt"))
			if err != nil {
				continue
			}
			cf := filepath.Join(dir, pkg+"_"+tf+"_test.go")
			os.WriteFile(cf, []byte(strings.Replace(string(src), "package PKG", "package "+pkg, 1)), 0644)
			over[filepath.Join(repo, c.Pkg, "zz_verif_"+tf+"_test.go")] = cf
		}
		of := filepath.Join(dir, "overlay.json")
		writeJSON(of, map[string]interface{}{"Replace": over})
		args := []string{"test", "-count=1", "-vet=off", "-overlay", of, "-run", c.Run, "-timeout", "240s"}
		if c.Race {
			args = append(args, "-race")
		}
		args = append(args, "./"+c.Pkg)
		ctx, cancel := context.WithTimeout(context.Background(), 280*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repo
		scratch := filepath.Join(dir, "scratch")
		os.MkdirAll(scratch, 0777)
		out := filepath.Join(dir, "found.txt")
		os.Remove(out)
		cmd.Env = append(os.Environ(), "VERIF_REPLAY_OUT="+out, "VERIF_SCRATCH="+scratch, "VERIF_REPLAY_DIR="+filepath.Join(root, "replay"), "VERIF_REPO="+repo)
		o, err := cmd.CombinedOutput()
		cancel()
		res.ran = true
		if f, e2 := os.ReadFile(out); e2 == nil && len(f) > 0 {
			res.found = true
			res.output += "harness: go " + strings.Join(args, " ") + "\n" + string(f) + "\n" + tail(string(o), 4000)
			return res
		}
		if err != nil {
			s := string(o)
			// a crash of the code under test inside the harness is a failing input too
			if (strings.Contains(s, "panic:") || c.Race && strings.Contains(s, "WARNING: DATA RACE") || strings.Contains(s, "fatal error:")) && !strings.Contains(s, "test timed out") && !strings.Contains(s, "[build failed]") {
				res.found = true
				res.output += "harness: go " + strings.Join(args, " ") + "\n" + tail(s, 8000)
				return res
			}
			res.output += "harness gave no verdict: " + err.Error() + "\n" + tail(s, 3000)
		}
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

type knownFinding struct {
	prop, ob, text string
}

// known-findings: lines "known: property=<id> obligation=<prefix> <text>"
func loadKnown(root string) []knownFinding {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 4 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(fs[1], "property="), strings.TrimPrefix(fs[2], "obligation="), strings.Join(fs[3:], " ")})
	}
	return out
}

func finish(repo, root, prop, tier string, rep *checkReport, t0 time.Time) int {
	var failed []*Ob
	for _, o := range rep.failed {
		known := false
		for _, k := range loadKnown(root) {
			if k.prop == prop && k.ob == o.Name {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				known = true
			}
		}
		if !known {
			failed = append(failed, o)
		}
	}
	code := 0
	violations := 0
	var rr replayResult
	if len(failed) > 0 {
		code = 1
		violations = 1
		rr = runReplay(repo, root, prop, tier, rep)
		rp := filepath.Join(root, "evidence", prop+".replay.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\nundischarged obligations (each was discharged on the unchanged tree):\n", prop)
		for _, o := range failed {
			fmt.Fprintf(&b, "  %s\n    at %s\n    %s\n    solvers: %s\n", o.Name, o.Where, o.Desc, o.Reason)
		}
		if rep.verifier != nil {
			for _, e := range rep.verifier.specErrors {
				fmt.Fprintf(&b, "  specification no longer matches the source: %s\n", e)
			}
		}
		b.WriteString("\n")
		suffix := ""
		if rr.found {
			b.WriteString("failing input on the real code:\n" + rr.output + "\n")
		} else {
			suffix = " no-failing-input-found"
			b.WriteString("no failing input was found on the real code.\n" + rr.output + "\n")
		}
		os.WriteFile(rp, []byte(b.String()), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	}
	writeEvidence(root, prop, tier, rep, t0, violations)
	return code
}

func writeEvidence(root, prop, tier string, rep *checkReport, t0 time.Time, violations int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v := rep.verifier
	var funcs []map[string]interface{}
	notes := map[string]bool{}
	var slowest int64
	slowName := ""
	for _, t := range rep.tasks {
		if t.con != nil && t.fn != nil {
			n, d := 0, 0
			var ms int64
			for _, o := range t.obs {
				if !o.Vac {
					n++
					if o.Status == "ok" {
						d++
					}
					ms += o.Millis
				}
			}
			funcs = append(funcs, map[string]interface{}{"function": t.con.Key, "at": t.p.funcPos(t.fn), "obligations": n, "discharged": d, "ms": ms})
		}
		for k, b := range t.notes {
			if b {
				notes[k] = true
			}
		}
	}
	var obNames []string
	for _, o := range rep.obs {
		if !o.Vac {
			obNames = append(obNames, o.Name)
		}
		if o.Millis > slowest {
			slowest, slowName = o.Millis, o.Name
		}
	}
	trusted := []string{"gov (the condition generator in /verif/gov) and golang.org/x/tools/go/ssa", "z3 4.8.12, z3-new, cvc5 1.1.2"}
	if v != nil {
		for k := range v.usedExterns {
			c := v.contracts[k]
			trusted = append(trusted, "assumed contract of "+k+" ("+c.Kind+")")
		}
		for _, a := range rep.axioms {
			why := ""
			if l := v.lemmas[a]; l != nil {
				why = ": " + l.Why
			}
			trusted = append(trusted, "axiom "+a+why)
		}
	}
	sort.Strings(trusted)
	assumptions := []string{
		"machine integers: an operation whose exact result fits its type is exact; otherwise the result is left arbitrary within the type (wrap-around is not relied upon)",
		"termination is not verified (partial correctness)",
		"bodies executed by one goroutine; interference by other goroutines is outside the contracts unless a clause says otherwise",
		"slices and strings are shorter than 2^48 (the address space)",
	}
	for k := range notes {
		assumptions = append(assumptions, k)
	}
	sort.Strings(assumptions[4:])
	samples := obNames
	if len(samples) > 12 {
		var s []string
		for i := 0; i < 12; i++ {
			s = append(s, obNames[i*len(obNames)/12])
		}
		samples = s
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations":              rep.proved + len(rep.failed),
			"discharged":               rep.proved,
			"checker_cmd":              "/verif/check.sh " + prop + " " + tier,
			"trusted_base":             trusted,
			"functions_under_contract": funcs,
			"lemmas_proved":            rep.lemmas,
			"discharged_by_backend":    stats.byBackend,
			"solver_queries":           stats.queries,
			"solver_ms":                stats.ms,
			"slowest_obligation":       slowName,
			"slowest_ms":               slowest,
			"vacuity_probes":           rep.probes,
			"samples":                  samples,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	writeJSON(filepath.Join(root, "evidence", prop+".json"), ev)
}
