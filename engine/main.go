package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// RunSpec is one harness of a check: one entry point, executed symbolically.
type RunSpec struct {
	Mod    string         // module directory, relative to the repository
	Dir    string         // package directory, relative to the repository
	Pkg    string         // import path
	Files  []string       // harness files laid over the tree
	Entry  string         // harness function
	P      map[string]int // quick parameters
	TP     map[string]int // thorough parameters (over P)
	Secs   [2]int         // time budget quick, thorough
	Reach  []string       // labels that some path must reach
	Bounds string
	Native bool // counterexamples replay natively (required before reporting)
	Stress int  // native attempts for schedule-dependent counterexamples
	TOnly  bool // thorough tier only
	Fake   bool // replay under Go's virtual clock (-tags faketime), same instants as in the model
	Steps  int64
	Alone  bool // with core's own copies of the generated packages
}

type CheckSpec struct {
	ID          string
	Runs        []RunSpec
	Assumptions []string
}

func main() {
	debug.SetGCPercent(200)
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check ID | list | dump")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, c := range checks {
			fmt.Println(c.ID, len(c.Runs))
		}
	case "check":
		os.Exit(cmdCheck(repo, verif, os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

type runResult struct {
	spec      *RunSpec
	e         *Engine
	err       error
	wall      time.Duration
	loadTime  time.Duration
	confirmed []*Violation
	unconf    []*Violation
	validated int
}

func cmdCheck(repo, verif string, args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "run only this entry")
	verbose := fs.Bool("v", false, "details")
	workers := fs.Int("j", 0, "workers")
	dbg := fs.Bool("debug", false, "let engine panics through")
	noReplay := fs.Bool("noreplay", false, "report counterexamples without native replay")
	scale := fs.Float64("scale", 1, "time budget factor")
	smtlog := fs.String("smtlog", "", "log the SMT session (one worker)")
	id := ""
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		id, args = args[0], args[1:]
	}
	fs.Parse(args)
	smtLog = *smtlog
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	ti := 0
	if *tier == "thorough" {
		ti = 1
	}
	debugPanics = *dbg
	var spec *CheckSpec
	for i := range checks {
		if checks[i].ID == id {
			spec = &checks[i]
		}
	}
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	t0 := time.Now()
	w, err := newWorkspace(repo, verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer w.Close()
	bin := defaultSolver()
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		bin = strings.Fields(s)
	}
	type loadKey struct{ pkg, files string }
	type loaded struct {
		e   *Engine
		err error
	}
	cache := map[loadKey]*loaded{}
	var results []*runResult
	var runs []*RunSpec
	for i := range spec.Runs {
		r := &spec.Runs[i]
		if (*only == "" || r.Entry == *only) && !(r.TOnly && ti == 0) {
			runs = append(runs, r)
		}
	}
	secsOf := func(r *RunSpec) float64 {
		if s := r.Secs[ti]; s != 0 {
			return float64(s)
		}
		return []float64{60, 300}[ti]
	}
	// allot is the time for the ri-th run: its own limit, and its share of
	// what is left of the time for all.
	allot := func(ri int) time.Duration {
		sum := 0.0
		for _, r := range runs[ri:] {
			sum += secsOf(r)
		}
		s := secsOf(runs[ri])
		left := 780 - time.Since(t0).Seconds() - 5*float64(len(runs)-ri)
		return time.Duration(math.Min(s, math.Max(10, left*s/sum)) * *scale * float64(time.Second))
	}
	for ri, r := range runs {
		if time.Since(t0) > 500*time.Second && len(results) > 0 && len(results[len(results)-1].confirmed) > 0 {
			break // there is a violation already
		}
		res := &runResult{spec: r}
		results = append(results, res)
		tl := time.Now()
		k := loadKey{r.Pkg, strings.Join(r.Files, ",")}
		if cache[k] == nil {
			// at most one program in memory
			cache = map[loadKey]*loaded{}
			prog, root, vm, err := w.load(r)
			cache[k] = &loaded{&Engine{prog: prog, root: root, vm: vm}, err}
		}
		l := cache[k]
		res.loadTime = time.Since(tl)
		if l.err != nil {
			res.err = l.err
			fmt.Fprintf(os.Stderr, "cannot encode %s: %v\n", r.Entry, l.err)
			continue
		}
		e := &Engine{prog: l.e.prog, root: l.e.root, vm: l.e.vm, repoDir: repo, solverBin: bin, solverTO: 20000, stopFirst: true, maxSteps: 30_000_000}
		e.baseSec, e.baseNsec = 1700000000, 123456789
		if r.Fake {
			e.baseSec, e.baseNsec = 1257894000, 0
		}
		if r.Steps > 0 {
			e.maxSteps = r.Steps
		}
		e.entry = l.e.root.Func(r.Entry)
		if e.entry == nil {
			res.err = fmt.Errorf("no function %s", r.Entry)
			continue
		}
		e.params = map[string]int{}
		for k, v := range r.P {
			e.params[k] = v
		}
		if ti == 1 {
			for k, v := range r.TP {
				e.params[k] = v
			}
		}
		ts := time.Now()
		e.deadline = ts.Add(allot(ri))
		e.violPer, e.violMax = 3, 6
		e.Run(*workers)
		if forkProf {
			printForks()
		}
		res.e = e
		res.wall = time.Since(ts)
		fmt.Printf("%s %s: paths=%d completed=%d assumed=%d truncated=%d unsupported=%d remaining=%d asserts=%d proved=%d unknown=%d/%d queries=%d solver=%.1fs wall=%.1fs load=%.1fs\n",
			id, r.Entry, e.st.Paths, e.st.Completed, e.st.Assumed, e.st.Truncated, e.st.Unsupported, e.st.Remaining, e.st.Asserts, e.st.AssertProved, e.st.UnknownAssert, e.st.UnknownBranch, e.st.Queries, e.st.SolverTime.Seconds(), res.wall.Seconds(), res.loadTime.Seconds())
		for _, k := range sortedKeys(e.st.UnsupMsgs) {
			fmt.Printf("  not encoded (%d paths): %s\n", e.st.UnsupMsgs[k], k)
		}
		for _, l := range r.Reach {
			if e.st.Reach[l] == 0 {
				fmt.Printf("  WARNING: label %q not reached\n", l)
			}
		}
		if *verbose {
			fmt.Println("  reach:", e.st.Reach)
			fmt.Println("  asserts:", e.st.AssertBy)
			for _, v := range e.violations {
				printViolation(v)
			}
		}
		w.confirm(r, e, res, *noReplay, *verbose)
		if len(res.confirmed) == 0 && len(res.unconf) > 0 && !*noReplay {
			// none of the counterexamples reproduced: look for others
			first := res.unconf
			res.unconf = nil
			e2 := &Engine{prog: e.prog, root: e.root, vm: e.vm, repoDir: repo, solverBin: bin, solverTO: 20000, stopFirst: true, maxSteps: e.maxSteps,
				baseSec: e.baseSec, baseNsec: e.baseNsec, entry: e.entry, params: e.params, violPer: 30, violMax: 60}
			e2.deadline = time.Now().Add(allot(ri))
			e2.Run(*workers)
			w.confirm(r, e2, res, false, *verbose)
			fmt.Printf("  second search for counterexamples: %d more, %d reproduced\n", len(e2.violations), len(res.confirmed))
			res.unconf = append(first, res.unconf...)
			if len(res.confirmed) > 0 {
				res.e = e2
			}
		}
		w.dropReplayBinary(r)
	}
	code := 0
	failed := 0
	knownHits := map[string]*KnownHit{}
	nviol := 0
	for _, res := range results {
		if res.err != nil {
			failed++
			continue
		}
		for k, h := range res.e.known {
			knownHits[k] = h
		}
		for _, v := range res.unconf {
			fmt.Printf("UNCONFIRMED (not reported: did not reproduce natively) %s %s: %s at %s\n", id, res.spec.Entry, v.Msg, v.Pos)
		}
		for _, v := range res.confirmed {
			nviol++
			p := writeReplay(verif, id, nviol, res, v)
			fmt.Printf("  %s: %s at %s (native replay: %v)\n", res.spec.Entry, v.Msg, v.Pos, v.NativeOK)
			printViolation(v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			code = 1
		}
	}
	for _, k := range sortedKeys(knownHits) {
		listed := knownListed(verif, id, k)
		h := knownHits[k]
		b, _ := json.Marshal(h.Model)
		if listed == "" {
			nviol++
			p := filepath.Join(verif, "evidence", fmt.Sprintf("%s-replay-%d.json", id, nviol))
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, b, 0o644)
			fmt.Printf("  %s: %s with %s\n", k, h.Msg, b)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			code = 1
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s (e.g. %s)\n", id, listed, b)
	}
	writeEvidence(verif, spec, *tier, results, nviol, time.Since(t0))
	if code == 0 && failed == len(results) {
		fmt.Fprintln(os.Stderr, "nothing could be encoded: no answer")
		return 2
	}
	return code
}

var smtLog string

func tail(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n    ")
}

func printViolation(v *Violation) {
	fmt.Printf("  counterexample (%s): %s at %s\n", v.Kind, v.Msg, v.Pos)
	for _, i := range v.Inputs {
		t := i.Text
		if t == "" {
			t = fmt.Sprint(i.Int)
		}
		fmt.Printf("    %s = %s\n", i.Name, t)
	}
	for _, s := range v.Stack {
		fmt.Printf("    in %s\n", s)
	}
	n := len(v.Trace)
	for k, t := range v.Trace {
		if k < 8 || k > n-50 {
			fmt.Printf("    | %s\n", t)
		}
	}
}

type replayFile struct {
	Property string         `json:"property"`
	Entry    string         `json:"entry"`
	Package  string         `json:"package"`
	Msg      string         `json:"message"`
	Kind     string         `json:"kind"`
	Pos      string         `json:"position"`
	Params   map[string]int `json:"params"`
	Inputs   []ReplayInput  `json:"inputs"`
	Schedule bool           `json:"depends_on_schedule"`
	Prefix   []uint16       `json:"decisions"`
	Native   bool           `json:"reproduced_natively"`
	Stack    []string       `json:"stack,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
}

func mkReplay(id string, r *RunSpec, e *Engine, v *Violation) []byte {
	b, _ := json.MarshalIndent(replayFile{id, r.Entry, r.Pkg, v.Msg, v.Kind, v.Pos, e.params, v.Inputs, v.Sched, v.Prefix, v.NativeOK, v.Stack, v.Trace}, "", " ")
	return b
}

func writeReplay(verif, id string, n int, res *runResult, v *Violation) string {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-replay-%d.json", id, n))
	os.WriteFile(p, mkReplay(id, res.spec, res.e, v), 0o644)
	return p
}

// ---- native replay

var replayBins sync.Map

func (w *Workspace) dropReplayBinary(r *RunSpec) {
	if p, ok := replayBins.LoadAndDelete(r.Dir + r.Entry); ok {
		os.Remove(p.(string))
	}
}

func (w *Workspace) replayBinary(r *RunSpec, pkgName string) (string, error) {
	if p, ok := replayBins.Load(r.Dir + r.Entry); ok {
		return p.(string), nil
	}
	ov := map[string]string{}
	dir := filepath.Join(w.repo, r.Dir)
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(dir, e.Name())] = ""
		}
	}
	for _, f := range r.Files {
		ov[filepath.Join(w.repo, f)] = filepath.Join(w.verif, "harness", f)
	}
	drv := filepath.Join(w.tmp, "drv_"+r.Entry+"_test.go")
	src := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\t\"verif/vsym\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tvsym.RunReplay(map[string]func(){%q: %s})\n}\n", pkgName, r.Entry, r.Entry)
	if err := os.WriteFile(drv, []byte(src), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(dir, "zz_verif_replay_test.go")] = drv
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(w.tmp, "ov_"+r.Entry+".json")
	os.WriteFile(ovf, js, 0o644)
	bin := filepath.Join(w.tmp, "replay_"+r.Entry)
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	if r.Fake {
		args = append(args, "-tags", "faketime")
	}
	what := "."
	if r.Alone {
		dir, what = filepath.Join(w.repo, r.Mod), r.Pkg
	}
	out, err := runCmd(dir, w.env("0", r.Alone), "go", append(args, what)...)
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	replayBins.Store(r.Dir+r.Entry, bin)
	return bin, nil
}

func (w *Workspace) replay(r *RunSpec, e *Engine, v *Violation, tries int) (bool, string) {
	bin, err := w.replayBinary(r, e.root.Pkg.Name())
	if err != nil {
		return false, err.Error()
	}
	f := filepath.Join(w.tmp, fmt.Sprintf("in_%s_%d.json", r.Entry, time.Now().UnixNano()))
	os.WriteFile(f, mkReplay("", r, e, v), 0o644)
	defer os.Remove(f)
	last := ""
	until := time.Now().Add(60 * time.Second)
	for i := 0; i < tries && time.Now().Before(until); i++ {
		ok, out := w.nativeRun(r, bin, f)
		last = out
		if ok {
			return true, out
		}
	}
	return false, last
}

// confirm replays the counterexamples against the compiled code.
func (w *Workspace) confirm(r *RunSpec, e *Engine, res *runResult, noReplay, verbose bool) {
	byMsg := map[string]bool{}
	for _, v := range e.violations {
		if byMsg[v.Kind+v.Msg] {
			continue
		}
		if noReplay {
			res.confirmed = append(res.confirmed, v)
			byMsg[v.Kind+v.Msg] = true
			continue
		}
		if r.Native && (!v.Sched || r.Stress > 0) {
			tries := 1
			if v.Sched {
				tries = r.Stress
			}
			ok, out := w.replay(r, e, v, tries)
			v.NativeOK = ok
			if verbose {
				fmt.Println("  native replay:", ok, tail(out, 12))
			}
			if !ok && !v.Sched {
				res.unconf = append(res.unconf, v)
				continue
			}
		}
		byMsg[v.Kind+v.Msg] = true
		res.confirmed = append(res.confirmed, v)
	}
}

// nativeRun: true if the real code violated an assertion, crashed or hung.
func (w *Workspace) nativeRun(r *RunSpec, bin, input string) (bool, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	timeout := "30s"
	if r.Fake { // virtual
		timeout = "2000000h"
	}
	c := exec.CommandContext(ctx, bin, "-test.run", "TestVerifReplay", "-test.timeout", timeout)
	c.Env = append(os.Environ(), "VERIF_REPLAY="+input)
	c.Dir = w.tmp
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	s := b.String()
	if strings.Contains(s, "VERIF-ERROR") {
		return false, s
	}
	if strings.Contains(s, "VERIF-ASSERT") || strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "DATA RACE") {
		return true, s
	}
	if strings.Contains(s, "VERIF-OK") || strings.Contains(s, "VERIF-ASSUME") {
		return false, s
	}
	return err != nil, s // os.Exit by the code, or killed after hanging
}

// ---- known findings

// knownListed returns the text of the entry for property id and finding key.
func knownListed(verif, id, key string) string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + id + " " + key + " "
		if strings.HasPrefix(l, p) {
			return strings.TrimSpace(strings.TrimPrefix(l, "finding: property="+id))
		}
	}
	return ""
}

// ---- evidence

func writeEvidence(verif string, spec *CheckSpec, tier string, results []*runResult, nviol int, wall time.Duration) {
	funcs := map[string]int{}
	stubs := map[string]int{}
	var runs []any
	paths, trans, nat := 0, 0, 0
	var asserts, proved, queries, unk int
	var st time.Duration
	var samples []any
	exhaustive := true
	for _, res := range results {
		r := res.spec
		if res.err != nil {
			runs = append(runs, map[string]any{"harness": r.Entry, "error": res.err.Error()})
			exhaustive = false
			continue
		}
		e := res.e
		for k, v := range e.funcs {
			funcs[k] += v
		}
		for k, v := range e.stubs {
			stubs[k] += v
		}
		s := e.st
		paths += s.Paths
		trans += s.Branches + s.SchedChoices + s.Forks
		asserts += s.Asserts
		proved += s.AssertProved
		queries += s.Queries
		unk += s.UnknownAssert + s.UnknownBranch
		st += s.SolverTime
		nat += res.validated
		complete := s.Remaining == 0 && s.Truncated == 0 && s.Unsupported == 0 && s.UnknownAssert == 0 && s.UnknownBranch == 0
		exhaustive = exhaustive && complete
		un := map[string]int{}
		for k, v := range s.UnsupMsgs {
			un[k] = v
		}
		var miss []string
		for _, l := range r.Reach {
			if s.Reach[l] == 0 {
				miss = append(miss, l)
			}
		}
		runs = append(runs, map[string]any{
			"harness": r.Entry, "package": r.Pkg, "bounds": r.Bounds, "parameters": e.params, "paths": s.Paths, "completed": s.Completed,
			"infeasible_or_assumed_away": s.Assumed, "truncated": s.Truncated, "not_encodable": s.Unsupported, "unexplored_forks_at_deadline": s.Remaining,
			"assertions_decided": s.Asserts, "assertions_proved_on_their_path": s.AssertProved, "solver_unknown": s.UnknownAssert + s.UnknownBranch,
			"queries": s.Queries, "sat": s.Sat, "unsat": s.Unsat, "solver_seconds": s.SolverTime.Seconds(), "wall_seconds": res.wall.Seconds(),
			"interpreted_instructions": s.Steps, "max_goroutines": s.MaxThreads, "not_encoded_reasons": un, "complete_within_bounds": complete,
			"reached": s.Reach, "not_reached": miss, "assertions": s.AssertBy, "unconfirmed_counterexamples": len(res.unconf), "load_seconds": res.loadTime.Seconds(),
		})
		for i, v := range append(append([]*Violation{}, res.confirmed...), res.unconf...) {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.Entry, "message": v.Msg, "inputs": v.Inputs, "native": v.NativeOK})
			}
		}
		for _, l := range sortedKeys(s.AssertBy) {
			if len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.Entry, "obligation": l, "decided_on_paths": s.AssertBy[l]})
			}
		}
	}
	fl := sortedKeys(funcs)
	sl := sortedKeys(stubs)
	sort.Strings(sl)
	if len(samples) == 0 {
		samples = []any{"none"}
	}
	ev := map[string]any{
		"property": spec.ID, "tier": tier, "seed": seed(), "level": "model_checking", "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": spec.Assumptions,
		"coverage": map[string]any{
			"states": paths, "transitions": trans, "traces_validated_against_impl": nat, "samples": samples, "exhaustive": exhaustive,
			"obligations": asserts, "discharged": proved, "queries": queries, "solver_unknown": unk, "solver_seconds": st.Seconds(),
			"functions_encoded": fl, "stubs_and_models": sl, "runs": runs, "solver": "z3 (SMT-LIB2, one process per worker)",
			"explanation": "states = symbolic paths executed to their end over the SSA of the current /repo tree; transitions = solver-decided branches, forks and scheduling choices; obligations = assertions (harness assertions and implicit panic/deadlock checks) decided by the solver over all values of their path",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", spec.ID+".json"), b, 0o644)
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
