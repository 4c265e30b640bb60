package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- results of one verification subprocess --------------------------------

type oblJSON struct {
	Func, Name, Kind, Result, Solver, Detail, Pos string
	Ms                                            int64
}

type resJSON struct {
	Func    string
	File    string
	Trusted bool
	Note    string
	Err     string
	Obls    []oblJSON
	Used    []string
	Inlined []string
	Models  []string
	Assump  []string
	Assumes []string
	Defs    []string
	Paths   int
	Ms      int64
	Solvers map[string][2]int64 // name -> calls, ms
	Inds    []string            // proved induction lemmas (only for -inds)
	retried bool
}

func (r *resJSON) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Result != "proved" {
			return false
		}
	}
	return true
}

func toJSON(r *Result) *resJSON {
	j := &resJSON{Func: r.Func, Err: r.Err, Used: r.Used, Inlined: r.Inlined, Models: r.Models, Assump: r.Assump, Paths: r.Paths, Ms: r.Ms, Solvers: map[string][2]int64{}}
	if r.Con != nil {
		j.File = filepath.Base(r.Con.file)
		j.Trusted = r.Con.Trusted
		j.Note = r.Con.Note
		for _, a := range r.Con.Assumes {
			j.Assumes = append(j.Assumes, a.Text)
		}
		for _, a := range r.Con.Defs {
			j.Defs = append(j.Defs, a.Text)
		}
	}
	for _, o := range r.Obls {
		j.Obls = append(j.Obls, oblJSON{o.Func, o.Name, o.Kind, o.Result, o.Solver, trunc(o.Detail, 1500), o.Pos, o.Ms})
	}
	statMu.Lock()
	for n, s := range solverStats {
		j.Solvers[n] = [2]int64{s.n, s.ns / 1e6}
	}
	statMu.Unlock()
	return j
}

// ---- driver ------------------------------------------------------------------

type checker struct {
	self, repo, specs, verif string
	prop, tier               string
	seed                     int
	inds                     string
	known                    []knownFinding
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func (c *checker) sub(timeout time.Duration, scale string, args ...string) *resJSON {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	a := append([]string{"-repo", c.repo, "-contracts", c.specs, "-json"}, args...)
	cmd := exec.CommandContext(ctx, c.self, a...)
	cmd.Env = append(os.Environ(), "GOV_INDS="+c.inds, "GOV_SCALE="+scale)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	i := bytes.LastIndex(out.Bytes(), []byte("\n@@JSON "))
	if i < 0 {
		return &resJSON{Err: fmt.Sprintf("verifier process gave no result: %v %s", err, trunc(errb.String(), 800))}
	}
	var r resJSON
	if e := json.Unmarshal(out.Bytes()[i+8:], &r); e != nil {
		return &resJSON{Err: "verifier process: " + e.Error()}
	}
	return &r
}

type harnessFail struct {
	Test string `json:"test"`
	Key  string `json:"key"`
	Case string `json:"case"`
	Msg  string `json:"msg"`
	Seed int64  `json:"seed"`
	N    int    `json:"n"`
}

type harnessRun struct {
	File     string
	Pkg      string
	Built    bool
	BuildErr string
	Fails    []harnessFail
	Stats    []map[string]interface{}
	Ms       int64
	Cmd      string
	Crash    string
}

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod")
}

func overlayLib(c *checker, m map[string]string) {
	lib := filepath.Join(c.verif, "harness", "lib")
	filepath.Walk(lib, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(lib, p)
			m[filepath.Join(c.repo, "zzverif", rel)] = p
		}
		return nil
	})
}

// runHarness compiles one harness file into the package it names (through an
// overlay; /repo is not touched) and runs its TestVerif functions.
func (c *checker) runHarness(file string, depth, budget int) *harnessRun {
	timeout := time.Duration(budget+90) * time.Second
	t0 := time.Now()
	h := &harnessRun{File: filepath.Base(file)}
	src, _ := os.ReadFile(file)
	pkg := "."
	if m := regexp.MustCompile(`(?m)^// pkg: (\S+)`).FindSubmatch(src); m != nil {
		pkg = string(m[1])
	}
	h.Pkg = pkg
	tmp, err := os.MkdirTemp("", "govh")
	if err != nil {
		h.BuildErr = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	overlayLib(c, rep)
	base := strings.TrimSuffix(filepath.Base(file), ".go")
	base = strings.TrimSuffix(base, "_test")
	rep[filepath.Join(c.repo, pkg, "zz_"+base+"_verif_test.go")] = file
	// the package's own tests are irrelevant here: replaced by nothing
	old, _ := filepath.Glob(filepath.Join(c.repo, pkg, "*_test.go"))
	for _, o := range old {
		rep[o] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	bin := filepath.Join(tmp, "h.test")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	bc := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+pkg)
	bc.Dir = c.repo
	bc.Env = goEnv()
	if out, err := bc.CombinedOutput(); err != nil {
		h.BuildErr = trunc(string(out), 1500)
		h.Ms = time.Since(t0).Milliseconds()
		return h
	}
	h.Built = true
	ctx2, cancel2 := context.WithTimeout(context.Background(), timeout)
	defer cancel2()
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0755)
	rc := exec.CommandContext(ctx2, bin, "-test.run", "^TestVerif", "-test.timeout", (timeout + 10*time.Second).String(), "-test.v")
	rc.Dir = scratch
	rc.Env = append(goEnv(), "VERIF_DEPTH="+strconv.Itoa(depth), "VERIF_BUDGET_S="+strconv.Itoa(budget), "VERIF_SEED="+strconv.Itoa(c.seed), "VERIF_REPO="+c.repo, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch)
	var out bytes.Buffer
	rc.Stdout = &out
	rc.Stderr = &out
	err = rc.Run()
	for _, ln := range strings.Split(out.String(), "\n") {
		if i := strings.Index(ln, "VERIF-FAIL "); i >= 0 {
			var f harnessFail
			if json.Unmarshal([]byte(ln[i+11:]), &f) == nil {
				h.Fails = append(h.Fails, f)
			}
		}
		if i := strings.Index(ln, "VERIF-STAT "); i >= 0 {
			var f map[string]interface{}
			if json.Unmarshal([]byte(ln[i+11:]), &f) == nil {
				h.Stats = append(h.Stats, f)
			}
		}
	}
	if err != nil && len(h.Fails) == 0 {
		h.Crash = fmt.Sprintf("%v: %s", err, trunc(tail(out.String(), 3000), 3000))
	}
	h.Ms = time.Since(t0).Milliseconds()
	return h
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	for _, e := range c.Ensures {
		for _, q := range e.Props {
			if q == p {
				return true
			}
		}
	}
	return false
}

func runCheck(repo, specs, verif, prop string) int {
	t0 := time.Now()
	self, _ := os.Executable()
	c := &checker{self: self, repo: repo, specs: specs, verif: verif, prop: prop, tier: os.Getenv("VERIF_TIER"), seed: 1}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		c.seed = s
	}
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &c.known)
	}
	depth, budget := 6, 60
	if c.tier == "thorough" {
		depth, budget = 150, 600
	}

	// bounded harness runs, concurrently with the proofs
	files, _ := filepath.Glob(filepath.Join(verif, "harness", prop, "*.go"))
	sort.Strings(files)
	var hruns []*harnessRun
	var hmu sync.Mutex
	var hwg sync.WaitGroup
	hsem := make(chan struct{}, 2)
	for _, f := range files {
		hwg.Add(1)
		go func(f string) {
			defer hwg.Done()
			hsem <- struct{}{}
			defer func() { <-hsem }()
			h := c.runHarness(f, depth, budget)
			hmu.Lock()
			hruns = append(hruns, h)
			hmu.Unlock()
		}(f)
	}

	// proofs
	var results []*resJSON
	loadErr := ""
	P, err := loadProgram(repo)
	if err != nil {
		loadErr = "load: " + err.Error()
	} else if err = P.loadContracts(specs); err != nil {
		loadErr = "contracts: " + err.Error()
	}
	if loadErr == "" {
		// the lemmas of the contract files in use are assumed here and proved below
		c.inds = "all"
		results = c.verifyAll(P, t0, func() bool {
			hwg.Wait()
			hmu.Lock()
			defer hmu.Unlock()
			for _, h := range hruns {
				for _, f := range h.Fails {
					if c.isKnown(f.Key) == "" {
						return true
					}
				}
			}
			return false
		})
		fs := map[string]bool{}
		for _, r := range results {
			if k := P.contracts[r.Func]; k != nil {
				fs[k.file] = true
			}
		}
		var fl []string
		for f := range fs {
			fl = append(fl, f)
		}
		sort.Strings(fl)
		if len(fl) > 0 {
			c.inds = ""
			ind := c.sub(200*time.Second, "1", "-inds", "-files", strings.Join(fl, ","))
			if !ind.ok() && time.Since(t0) < 500*time.Second {
				ind2 := c.sub(300*time.Second, "3", "-inds", "-files", strings.Join(fl, ","))
				ind2.retried = true
				ind = ind2
			}
			if len(ind.Obls) > 0 || ind.Err != "" {
				results = append(results, ind)
			}
		}
	}
	hwg.Wait()
	sort.Slice(hruns, func(i, j int) bool { return hruns[i].File < hruns[j].File })

	// which obligations failed
	type failedObl struct {
		Func string
		O    oblJSON
	}
	var failed []failedObl
	nob, ndis := 0, 0
	for _, r := range results {
		for _, o := range r.Obls {
			nob++
			if o.Result == "proved" {
				ndis++
			} else {
				failed = append(failed, failedObl{r.Func, o})
			}
		}
		if r.Err != "" {
			nob++
			failed = append(failed, failedObl{r.Func, oblJSON{Func: r.Func, Name: "all obligations of " + r.Func, Kind: "contract", Result: "unproved", Detail: r.Err}})
		}
	}
	if loadErr != "" {
		nob++
		failed = append(failed, failedObl{"(load)", oblJSON{Name: "load", Kind: "load", Result: "unproved", Detail: loadErr}})
	}
	collect := func() (bad []harnessFail, knownHits []harnessFail) {
		for _, h := range hruns {
			for _, f := range h.Fails {
				if c.isKnown(f.Key) != "" {
					knownHits = append(knownHits, f)
				} else {
					bad = append(bad, f)
				}
			}
			if h.Crash != "" {
				bad = append(bad, harnessFail{Test: h.File, Key: "crash", Case: "harness process died", Msg: h.Crash})
			}
		}
		return
	}
	bad, knownHits := collect()
	var failedReal []failedObl
	for _, f := range failed {
		if c.isKnown(f.Func+"/"+f.O.Name) == "" {
			failedReal = append(failedReal, f)
		} else {
			knownHits = append(knownHits, harnessFail{Test: f.Func, Key: f.Func + "/" + f.O.Name, Msg: f.O.Detail})
		}
	}
	if len(failedReal) > 0 && len(bad) == 0 && len(files) > 0 && c.tier != "thorough" {
		// a proof failed: search harder for a failing input on the real code
		hruns = nil
		for _, f := range files {
			hwg.Add(1)
			go func(f string) {
				defer hwg.Done()
				h := c.runHarness(f, 40, 120)
				hmu.Lock()
				hruns = append(hruns, h)
				hmu.Unlock()
			}(f)
		}
		hwg.Wait()
		sort.Slice(hruns, func(i, j int) bool { return hruns[i].File < hruns[j].File })
		bad, _ = collect()
	}

	viol := 0
	seenK := map[string]bool{}
	for _, k := range knownHits {
		if !seenK[k.Key] {
			seenK[k.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, c.isKnown(k.Key))
		}
	}
	exit := 0
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	rfile := filepath.Join(rdir, prop+".json")
	if len(bad) > 0 || len(failedReal) > 0 {
		viol = len(bad)
		if viol == 0 {
			viol = len(failedReal)
		}
		rep := map[string]interface{}{"property": prop, "seed": c.seed, "failing_inputs": bad}
		var fo []map[string]interface{}
		for _, f := range failedReal {
			fo = append(fo, map[string]interface{}{"function": f.Func, "obligation": f.O.Name, "kind": f.O.Kind, "at": f.O.Pos, "result": f.O.Result, "solver": f.O.Solver, "verifier_output": f.O.Detail})
		}
		rep["failed_obligations"] = fo
		rep["rerun"] = fmt.Sprintf("cd /verif && VERIF_SEED=%d ./check.sh %s", c.seed, prop)
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(rfile, b, 0644)
		for i, f := range failedReal {
			if i < 6 {
				fmt.Printf("failed obligation: %s %s %q @%s: %s\n", f.Func, f.O.Kind, f.O.Name, f.O.Pos, trunc(strings.ReplaceAll(f.O.Detail, "\n", " "), 200))
			}
		}
		for i, f := range bad {
			if i < 4 {
				fmt.Printf("failing input (%s): %s\n  %s\n", f.Test, trunc(f.Case, 400), trunc(f.Msg, 600))
			}
		}
		if len(bad) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rfile)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rfile)
		}
		exit = 1
	} else {
		os.Remove(rfile)
	}
	c.evidence(results, hruns, nob, ndis, viol, time.Since(t0), len(knownHits))
	if exit == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d wall=%.1fs\n", prop, nob, ndis, time.Since(t0).Seconds())
	}
	return exit
}

func (c *checker) isKnown(key string) string {
	for _, k := range c.known {
		if k.Property == c.prop && k.Key == key && k.Status == "known" {
			return k.What
		}
	}
	return ""
}

// verifyAll verifies the contracts of the property and, transitively, every
// contract their proofs rely on.
func (c *checker) verifyAll(P *Program, t0 time.Time, found func() bool) []*resJSON {
	done := map[string]bool{}
	var results []*resJSON
	var todo []string
	for n, k := range P.contracts {
		if hasProp(k, c.prop) {
			todo = append(todo, n)
		}
	}
	sort.Strings(todo)
	var mu sync.Mutex
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	var start func(n string)
	start = func(n string) { // mu held
		if done[n] || P.contracts[n] == nil {
			return
		}
		done[n] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := c.sub(420*time.Second, "1", "-func", n)
			r.Func = n
			mu.Lock()
			defer mu.Unlock()
			results = append(results, r)
			for _, u := range r.Used {
				start(u)
			}
		}()
	}
	mu.Lock()
	for _, n := range todo {
		start(n)
	}
	mu.Unlock()
	wg.Wait()
	// retry failures alone, with longer solver limits: a loaded machine must
	// not turn into an alarm (pointless when an input already fails)
	if found() {
		return results
	}
	for i, r := range results {
		left := 500*time.Second - time.Since(t0)
		if c.tier == "thorough" {
			left = 280 * time.Second
		}
		if left < 20*time.Second {
			break
		}
		if left > 280*time.Second {
			left = 280 * time.Second
		}
		if !r.ok() && !strings.Contains(r.Err, "not found in the current source") && !strings.Contains(r.Err, "out of the verifier's reach") {
			r2 := c.sub(left, "3", "-func", r.Func)
			r2.Func = r.Func
			r2.retried = true
			results[i] = r2
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].Func < results[j].Func })
	return results
}

func (c *checker) evidence(results []*resJSON, hruns []*harnessRun, nob, ndis, viol int, wall time.Duration, known int) {
	type fn struct {
		Function    string   `json:"function"`
		Contract    string   `json:"contract"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Trusted     bool     `json:"trusted,omitempty"`
		Inlined     []string `json:"inlined_callees,omitempty"`
		Callees     []string `json:"callee_contracts,omitempty"`
		Paths       int      `json:"paths"`
		Ms          int64    `json:"ms"`
		Error       string   `json:"error,omitempty"`
	}
	var fns []fn
	models := map[string]bool{}
	assum := map[string]bool{}
	backs := map[string]int{}
	solver := map[string][2]int64{}
	kinds := map[string]int{}
	for _, r := range results {
		f := fn{Function: r.Func, Contract: r.File, Trusted: r.Trusted, Inlined: r.Inlined, Callees: r.Used, Paths: r.Paths, Ms: r.Ms, Error: r.Err}
		for _, o := range r.Obls {
			f.Obligations++
			kinds[o.Kind]++
			if o.Result == "proved" {
				f.Discharged++
				s := o.Solver
				if s == "" {
					s = "gov-simplifier"
				}
				backs[s]++
			}
		}
		fns = append(fns, f)
		for _, m := range r.Models {
			models["stdlib model: "+m] = true
		}
		for _, a := range r.Assump {
			assum[a] = true
		}
		for _, a := range r.Assumes {
			assum[r.Func+": assumed clause: "+a] = true
		}
		for _, a := range r.Defs {
			assum[r.Func+": ghost definition: "+a] = true
		}
		if r.Trusted {
			assum["trusted contract (body not verified): "+r.Func+" "+r.Note] = true
		}
		for n, s := range r.Solvers {
			v := solver[n]
			solver[n] = [2]int64{v[0] + s[0], v[1] + s[1]}
		}
	}
	tb := []string{"go/ssa translation of the current /repo source (golang.org/x/tools)", "gov verification-condition generator (/verif/gov)", "z3, cvc5"}
	tb = append(tb, keysOf(models)...)
	base := []string{
		"int/uint arithmetic of 64 bits is mathematical (no wrap-around); narrower integer types and conversions wrap as in Go",
		"float64/float32 arithmetic is real arithmetic",
		"partial correctness: termination is not proved",
		"distinct pointer parameters do not alias each other's fields unless the code makes them",
		"memory is never exhausted; no data races; callbacks supplied by the user do not touch library state",
	}
	as := append(base, keysOf(assum)...)
	var bounded []map[string]interface{}
	evals := 0
	for _, h := range hruns {
		b := map[string]interface{}{"file": h.File, "package": h.Pkg, "compiled": h.Built, "ms": h.Ms, "stats": h.Stats, "failures": len(h.Fails)}
		if h.BuildErr != "" {
			b["build_error"] = h.BuildErr
		}
		for _, s := range h.Stats {
			if v, ok := s["cases"].(float64); ok {
				evals += int(v)
			}
		}
		bounded = append(bounded, b)
	}
	sv := map[string]interface{}{}
	for n, s := range solver {
		sv[n] = map[string]int64{"calls": s[0], "ms": s[1]}
	}
	cov := map[string]interface{}{
		"obligations": nob, "discharged": ndis,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s (gov check: go/ssa VC generation over /repo, z3/cvc5)", c.prop),
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"obligation_kinds":         kinds,
		"discharged_by":            backs,
		"solver":                   sv,
		"bounded_replay_harness":   bounded,
		"bounded_cases_run":        evals,
		"bounded_note":             "the harness runs generated inputs against the real code and an independent oracle; it supplies failing inputs for failed obligations and is a bounded stand-in for functions outside the verifier's reach; its cases are not counted as obligations",
		"known_findings_hit":       known,
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": wall.Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0644)
}
