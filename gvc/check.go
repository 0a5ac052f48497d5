package main

// The check driver: decides one property. It verifies every function under
// contract for the property together with the contracts those proofs use,
// has Lean re-check the lemmas, and runs the bounded driver that searches a
// concrete failing input on the real code.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type workReq struct {
	Key   string `json:"key"`
	Scale int    `json:"scale"`
}

// runWorker verifies the functions named on stdin, one report per line.
func runWorker(repo, cdir string) {
	if n, _ := strconv.Atoi(os.Getenv("GVC_SOLVERS")); n > 0 {
		solverSem = make(chan struct{}, n)
	}
	w, err := loadWorld(repo)
	if err != nil {
		fmt.Printf("{\"load_error\":%q}\n", err.Error())
		return
	}
	reg, err := LoadContracts(cdir)
	if err != nil {
		fmt.Printf("{\"load_error\":%q}\n", err.Error())
		return
	}
	h0, q0, f0 := houdiniTO, quickTO, fnTimeout
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	for in.Scan() {
		var rq workReq
		if json.Unmarshal(in.Bytes(), &rq) != nil {
			continue
		}
		k := time.Duration(rq.Scale)
		houdiniTO, quickTO, fnTimeout = h0*k, q0*k, f0*k
		rep := VerifyFn(w.prog, reg, reg.cons[rq.Key], w.fns[rq.Key])
		b, _ := json.Marshal(rep)
		fmt.Printf("%s\n", b)
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(ctx context.Context, repo, cdir string) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.CommandContext(ctx, self, "-repo", repo, "-contracts", cdir, "-worker")
	c.Env = append(os.Environ(), "GVC_SOLVERS=3")
	c.Dir = repo
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &worker{c, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

type answer struct {
	FnReport
	LoadError string `json:"load_error"`
}

func (w *worker) do(key string, scale int) (*FnReport, string) {
	b, _ := json.Marshal(workReq{key, scale})
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, "worker ended: " + err.Error()
	}
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, "worker ended: " + err.Error()
	}
	var a answer
	if err := json.Unmarshal(l, &a); err != nil {
		return nil, "worker output: " + err.Error()
	}
	if a.LoadError != "" {
		return nil, "load: " + a.LoadError
	}
	return &a.FnReport, ""
}

type knownFinding struct {
	Property   string `json:"property"`
	Case       string `json:"case,omitempty"`       // identifier of a driver case
	Obligation string `json:"obligation,omitempty"` // function: name of the obligation
	What       string `json:"what"`
}

type driverResult struct {
	Ran      bool              `json:"ran"`
	Note     string            `json:"note,omitempty"`
	Evals    int               `json:"evaluations"`
	Distinct int               `json:"distinct_nontrivial"`
	Rule     string            `json:"rule,omitempty"`
	Samples  []string          `json:"samples,omitempty"`
	Groups   map[string]int    `json:"groups,omitempty"`
	Fails    []json.RawMessage `json:"failures,omitempty"`
	failIDs  []string
	WallS    float64 `json:"wall_s"`
}

type checkCfg struct {
	prop, tier, repo, cdir, verif string
	seed                          int
}

func runCheck(cf checkCfg) int {
	t0 := time.Now()
	thorough := cf.tier == "thorough"
	budget := 760 * time.Second
	if thorough {
		budget = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	reg, err := LoadContracts(cf.cdir)
	if err != nil {
		fmt.Println("CONTRACT-ERROR", err)
		return 3
	}

	var wg sync.WaitGroup
	var leanErr string
	var leanN int
	var leanS float64
	wg.Add(1)
	go func() {
		defer wg.Done()
		t := time.Now()
		leanN, leanErr = leanCheck(ctx, reg, cf.verif)
		leanS = time.Since(t).Seconds()
	}()
	var drv driverResult
	wg.Add(1)
	go func() {
		defer wg.Done()
		drv = runDriver(ctx, cf)
	}()

	// schedule: closure under use
	type job struct {
		key   string
		scale int
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	seen := map[string]bool{}
	pending := 0
	add := func(k string) {
		if seen[k] {
			return
		}
		seen[k] = true
		c := reg.cons[k]
		if c == nil || c.assumed || c.inline {
			return
		}
		queue = append(queue, job{k, 1})
	}
	for _, k := range reg.order {
		if hasWord(reg.cons[k].props, cf.prop) {
			add(k)
		}
	}
	reports := map[string]*FnReport{}
	wErr := ""
	nw := 6
	if len(queue) == 0 {
		nw = 0
	}
	var pw sync.WaitGroup
	for i := 0; i < nw; i++ {
		pw.Add(1)
		go func() {
			defer pw.Done()
			var w *worker
			for {
				mu.Lock()
				for len(queue) == 0 && pending > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					if w != nil {
						w.in.Close()
						w.cmd.Wait()
					}
					return
				}
				j := queue[0]
				queue = queue[1:]
				pending++
				mu.Unlock()
				var rep *FnReport
				es := ""
				for try := 0; try < 2 && rep == nil && ctx.Err() == nil; try++ {
					if w == nil {
						w, err = startWorker(ctx, cf.repo, cf.cdir)
						if err != nil {
							es = err.Error()
							w = nil
							continue
						}
					}
					rep, es = w.do(j.key, j.scale)
					if rep == nil {
						w.cmd.Process.Kill()
						w.cmd.Wait()
						w = nil
					}
				}
				mu.Lock()
				pending--
				if rep == nil {
					if ctx.Err() != nil {
						es = "the time limit of the check ran out"
					}
					rep = &FnReport{Key: j.key, Unsup: es}
					wErr = es
				}
				for _, u := range rep.Used {
					add(u)
				}
				if len(rep.Failed()) > 0 && j.scale == 1 && ctx.Err() == nil && !rep.Missing {
					// once more, with longer limits
					queue = append(queue, job{j.key, 4})
				}
				reports[j.key] = rep
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	pw.Wait()
	wg.Wait()

	kf := loadKnown(cf)
	var keysR []string
	for k := range reports {
		keysR = append(keysR, k)
	}
	sort.Strings(keysR)
	nObl, nOK := 0, 0
	back := map[string]int{}
	kinds := map[string]int{}
	var solverMs float64
	var failed []string
	var knownLines []string
	trusted := map[string]bool{}
	nconf := 0
	nloops := 0
	type fnEv struct {
		Fn       string  `json:"function"`
		At       string  `json:"at"`
		Obls     int     `json:"obligations"`
		OK       int     `json:"discharged"`
		Configs  int     `json:"alias_configurations"`
		WallS    float64 `json:"wall_s"`
		Inlined  int     `json:"inlined_helpers,omitempty"`
		Contract string  `json:"contract"`
	}
	var fns []fnEv
	var notes []string
	for _, k := range keysR {
		r := reports[k]
		if r.Missing && !exportedKey(k) {
			notes = append(notes, k+" is not in the tree any more: its callers are verified against whatever they call now")
			continue
		}
		ok := 0
		for _, o := range r.Obls {
			kinds[o.Kind]++
			if o.OK {
				ok++
				back[o.Backend]++
			}
			solverMs += o.Ms
		}
		nObl += len(r.Obls)
		nOK += ok
		nconf += r.Configs
		nloops += r.Loops
		fns = append(fns, fnEv{k, r.File, len(r.Obls), ok, r.Configs, r.WallS, len(r.Inlined), filepath.Base(r.Contract)})
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		if len(r.Obls) == 0 && r.Unsup == "" && !r.Missing {
			failed = append(failed, k+": no obligation was generated")
		}
		for _, f := range r.Failed() {
			if w := kf.obligation(f); w != "" {
				knownLines = append(knownLines, w)
				continue
			}
			failed = append(failed, f)
		}
	}
	if leanErr != "" {
		failed = append(failed, "lean: "+leanErr)
	}
	var dfails []json.RawMessage
	for i, f := range drv.Fails {
		if w := kf.driver(drv.failIDs[i]); w != "" {
			knownLines = append(knownLines, w)
			continue
		}
		dfails = append(dfails, f)
	}
	violations := 0
	if len(failed) > 0 || len(dfails) > 0 {
		violations = 1
	}
	for _, a := range reg.assumedFor(keysR, reports) {
		trusted[a] = true
	}
	tb := append([]string{}, standardTrust...)
	tb = append(tb, keys(trusted)...)
	level := "proof"
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nOK,
		"checker_cmd":              "/verif/check " + cf.prop,
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"alias_configurations":     nconf,
		"loops_with_invariants":    nloops,
		"obligations_by_backend":   back,
		"obligations_by_kind":      kinds,
		"solver_ms":                int(solverMs),
		"lean_lemmas_checked":      leanN,
		"lean_s":                   leanS,
		"notes":                    notes,
		"bounded_driver":           drv,
	}
	ev := map[string]interface{}{
		"property": cf.prop, "tier": cf.tier, "seed": cf.seed, "level": level, "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": standardAssumptions,
	}
	os.MkdirAll(filepath.Join(cf.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(cf.verif, "evidence", cf.prop+".json"), append(b, '\n'), 0644)

	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d Lean lemmas, driver %d evaluations, %.0f s\n",
		cf.prop, len(fns), nOK, nObl, leanN, drv.Evals, time.Since(t0).Seconds())
	if drv.Note != "" {
		fmt.Println("driver:", drv.Note)
	}
	sort.Strings(knownLines)
	for i, l := range knownLines {
		if i == 0 || l != knownLines[i-1] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", cf.prop, l)
		}
	}
	if violations == 0 {
		if len(fns) == 0 {
			fmt.Println("no function under contract: nothing was decided")
			return 3
		}
		return 0
	}
	rd := filepath.Join(cf.verif, "evidence", "replays")
	os.MkdirAll(rd, 0755)
	rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", cf.prop, cf.tier, cf.seed))
	var det []interface{}
	for _, k := range keysR {
		for _, o := range reports[k].Obls {
			if !o.OK && len(det) < 40 {
				det = append(det, map[string]interface{}{"function": k, "obligation": o})
			}
		}
	}
	sort.Strings(failed)
	rb, _ := json.MarshalIndent(map[string]interface{}{
		"property": cf.prop, "seed": cf.seed,
		"failing_inputs":     dfails,
		"failed_obligations": failed,
		"details":            det,
		"worker_error":       wErr,
		"how_to_replay":      "bash /verif/check " + cf.prop + " (VERIF_SEED=" + strconv.Itoa(cf.seed) + "); failing_inputs names the call, its arguments, the value obtained and the value the property demands",
	}, "", " ")
	os.WriteFile(rp, append(rb, '\n'), 0644)
	for i, f := range failed {
		if i == 25 {
			fmt.Printf("... %d more\n", len(failed)-i)
			break
		}
		fmt.Println("FAILED-OBLIGATION", trunc(f, 400))
	}
	for i, f := range dfails {
		if i < 5 {
			fmt.Println("FAILING-INPUT", trunc(string(f), 1500))
		}
	}
	tail := ""
	if len(dfails) == 0 {
		tail = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", cf.prop, rp, tail)
	return 1
}

func hasWord(s []string, w string) bool {
	for _, f := range s {
		if f == w {
			return true
		}
	}
	return false
}

func exportedKey(k string) bool {
	n := lastName(k)
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

// assumedFor lists the assumed contracts the proofs relied on.
func (r *Registry) assumedFor(ks []string, reps map[string]*FnReport) []string {
	m := map[string]bool{}
	for _, k := range ks {
		for _, u := range reps[k].Used {
			if c := r.cons[u]; c != nil && c.assumed {
				m["assumed contract of "+u+" (not verified): "+strings.Join(c.notes, "; ")] = true
			}
		}
	}
	return keys(m)
}

var standardTrust = []string{
	"gvc, the verification-condition generator (/verif/gvc), its term simplifier and invariant inference (inferred invariants are themselves discharged as obligations)",
	"golang.org/x/tools go/packages and go/ssa v0.52.0 as the reading of the Go source; the Go compiler and runtime as its executor",
	"z3 5.3.2 and cvc5 1.1.2 as SMT back ends; Lean 4.33.0 with Mathlib as the kernel for the lemmas (axioms propext, Classical.choice, Quot.sound)",
	"models of math/bits, encoding/binary and unsafe 8-word block access built into gvc",
}

var standardAssumptions = []string{
	"partial correctness: termination is not proved",
	"pointer and slice parameters are non-nil unless the contract says otherwise; slice parameters listed as split are either the same slice or in different memory blocks (partial overlap is excluded)",
	"each goroutine runs alone: no data race is considered",
	"memory allocation succeeds, len and cap of slices stay below 2^62",
	"machine integers are exact: uint64/int arithmetic is modelled with wrap-around, not as mathematical integers",
}

type knownSet []knownFinding

func loadKnown(cf checkCfg) knownSet {
	b, err := os.ReadFile(filepath.Join(cf.verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	var out knownSet
	for _, k := range f.Findings {
		if k.Property == cf.prop {
			out = append(out, k)
		}
	}
	return out
}

func (ks knownSet) obligation(s string) string {
	for _, k := range ks {
		if k.Obligation != "" && strings.HasPrefix(s, k.Obligation) {
			return k.What
		}
	}
	return ""
}

func (ks knownSet) driver(id string) string {
	for _, k := range ks {
		if k.Case != "" && k.Case == id {
			return k.What
		}
	}
	return ""
}

// leanCheck has Lean check that every lemma used as an axiom in the SMT
// queries is the statement proved in /verif/lean/Lemmas.lean.
func leanCheck(ctx context.Context, reg *Registry, verif string) (int, string) {
	gen, n := leanFile(reg)
	if n == 0 {
		return 0, ""
	}
	src, err := os.ReadFile(filepath.Join(verif, "lean", "Lemmas.lean"))
	if err != nil {
		return 0, err.Error()
	}
	d, err := os.MkdirTemp("", "gvclean")
	if err != nil {
		return 0, err.Error()
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "L.lean")
	os.WriteFile(f, append(src, []byte("\n"+gen)...), 0644)
	c := exec.CommandContext(ctx, "lean", f)
	c.Dir = d
	o, err := c.CombinedOutput()
	out := string(o)
	if err != nil || strings.Contains(out, "error") || strings.Contains(out, "sorry") {
		return 0, "the lemma file is rejected: " + trunc(out, 600)
	}
	got := 0
	for _, l := range strings.Split(out, "\n") {
		if !strings.Contains(l, "depends on axioms") && !strings.Contains(l, "does not depend on any axioms") {
			continue
		}
		got++
		if i := strings.Index(l, "["); i >= 0 {
			for _, a := range strings.Split(strings.Trim(l[i:], "[] \n"), ",") {
				switch strings.TrimSpace(a) {
				case "propext", "Classical.choice", "Quot.sound":
				default:
					return 0, "unexpected axiom " + a
				}
			}
		}
	}
	if got != n {
		return 0, fmt.Sprintf("%d of %d lemmas checked: %s", got, n, trunc(out, 400))
	}
	return n, ""
}

// runDriver compiles the property's bounded driver against the current tree
// (through an overlay, nothing is written to the repository) and runs it.
func runDriver(ctx context.Context, cf checkCfg) (res driverResult) {
	t0 := time.Now()
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	src := filepath.Join(cf.verif, "drivers", cf.prop, "driver_test.go")
	if _, err := os.Stat(src); err != nil {
		res.Note = "no driver for this property"
		return
	}
	d, err := os.MkdirTemp("", "gvcdrv")
	if err != nil {
		res.Note = err.Error()
		return
	}
	defer os.RemoveAll(d)
	rep := map[string]string{}
	vdir := filepath.Join(cf.repo, "zz_verif", strings.ToLower(cf.prop))
	ms, _ := filepath.Glob(filepath.Join(cf.verif, "drivers", cf.prop, "*.go"))
	for _, m := range append(ms, filepath.Join(cf.verif, "drivers", "common_test.go")) {
		rep[filepath.Join(vdir, filepath.Base(m))] = m
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(d, "overlay.json")
	os.WriteFile(ov, ob, 0644)
	out := filepath.Join(d, "out.jsonl")
	bin := filepath.Join(d, "driver.test")
	bt := exec.CommandContext(ctx, "go", "test", "-vet=off", "-c", "-overlay", ov, "-o", bin, "./zz_verif/"+strings.ToLower(cf.prop))
	bt.Dir = cf.repo
	if o, err := bt.CombinedOutput(); err != nil {
		res.Note = "the driver does not compile against this tree: " + trunc(string(o), 600)
		return
	}
	secs, limit := 20, 300
	if cf.tier == "thorough" {
		secs, limit = 900, 3000
	}
	wd := filepath.Join(d, "wd")
	os.MkdirAll(wd, 0755)
	c := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif", "-test.timeout", fmt.Sprintf("%ds", limit))
	c.Dir = wd
	c.Env = append(os.Environ(), "VERIF_OUT="+out, fmt.Sprintf("VERIF_BUDGET_S=%d", secs), fmt.Sprintf("VERIF_SEED=%d", cf.seed), "GOTRACEBACK=single")
	var ob2 bytes.Buffer
	c.Stdout, c.Stderr = &limitedWriter{&ob2, 1 << 20}, &limitedWriter{&ob2, 1 << 20}
	rerr := c.Run()
	res.Ran = true
	res.Groups = map[string]int{}
	b, _ := os.ReadFile(out)
	last, finished := "", false
	for _, l := range strings.Split(string(b), "\n") {
		var e struct {
			Kind, ID, Group, Rule, Sample string
			Evals, Distinct               int
		}
		if json.Unmarshal([]byte(l), &e) != nil {
			continue
		}
		switch e.Kind {
		case "start":
			last = e.Group
		case "group":
			res.Groups[e.Group] = e.Evals
			res.Evals += e.Evals
			res.Distinct += e.Distinct
			last = ""
		case "sample":
			if len(res.Samples) < 12 {
				res.Samples = append(res.Samples, e.Group+": "+e.Sample)
			}
		case "rule":
			res.Rule = e.Rule
		case "done":
			finished = true
		case "fail":
			res.Fails = append(res.Fails, json.RawMessage(l))
			res.failIDs = append(res.failIDs, e.ID)
		}
	}
	if !finished && ctx.Err() == nil {
		m, _ := json.Marshal(map[string]string{"Kind": "fail", "ID": "abort:" + last, "Group": last, "What": "the process running this group of calls ended abnormally", "Output": trunc(ob2.String(), 3000), "Error": fmt.Sprint(rerr)})
		res.Fails = append(res.Fails, m)
		res.failIDs = append(res.failIDs, "abort:"+last)
	}
	return
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}
