package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"go/types"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type violation struct {
	Property string            `json:"property"`
	Job      string            `json:"job"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Pos      string            `json:"position"`
	Inputs   map[string]string `json:"inputs"`
	Native   any               `json:"observed_on_real_code"`
	How      string            `json:"confirmed_by"`
	Run      string            `json:"run"`
}

type confirmer struct {
	prog   *Program
	cfg    *Config
	dir    string
	tmp    string
	normal *Native
	asan   *Native
	race   *Native
	built  map[string]error
}

func (c *confirmer) variant(kind string) (*Native, error) {
	p := &c.asan
	flags := []string{"-asan"}
	if kind == "race" {
		p = &c.race
		flags = []string{"-race", "-gcflags=all=-d=checkptr=0"}
	}
	if err, ok := c.built[kind]; ok && err != nil {
		return nil, err
	}
	if *p == nil {
		bin := filepath.Join(c.tmp, "native-"+kind)
		err := buildNative(c.dir, bin, flags...)
		c.built[kind] = err
		if err != nil {
			return nil, err
		}
		*p = &Native{bin: bin, timeout: 60 * time.Second}
	}
	return *p, nil
}

// replay a counterexample against the compiled code
func (c *confirmer) confirm(j *Job, f *Finding) (bool, string, any) {
	if j.Native == "engine" {
		// this host cannot run the code in the mode under test: concrete re-execution of the counterexample
		o := runJob(c.prog, c.cfg, j, f.Inputs)
		for _, g := range o.res.Findings {
			if g.Kind == f.Kind && g.Msg == f.Msg {
				return true, "concrete re-execution of the SSA of the real code (the host is little-endian)", g.Obs
			}
		}
		return false, "", nil
	}
	req := NativeReq{Job: j.ID, Inputs: f.Inputs}
	r := c.normal.Run(req)
	bad := func(r NativeRes) bool { return r.died != "" || r.Panic != "" || len(r.Fails) > 0 }
	if !r.Assume && bad(r) {
		return true, "replay against the compiled code", r.summary()
	}
	switch f.Kind {
	case "memory", "panic", "hang":
		n, err := c.variant("asan")
		if err == nil {
			r = n.Run(req)
			if !r.Assume && bad(r) {
				return true, "replay against the compiled code with the address sanitizer", r.summary()
			}
		}
	case "frozen":
		n, err := c.variant("race")
		if err == nil {
			r = n.Run(req)
			if !r.Assume && bad(r) {
				return true, "replay against the compiled code with two goroutines under the race detector", r.summary()
			}
		}
	}
	return false, "", r.summary()
}

func (r NativeRes) summary() any {
	m := map[string]any{}
	if r.died != "" {
		m["process"] = r.died
	}
	if r.Panic != "" {
		m["panic"] = r.Panic
	}
	if len(r.Fails) > 0 {
		m["failed_assertions"] = r.Fails
	}
	if r.Assume {
		m["assumption"] = "not met natively"
	}
	if len(r.Obs) > 0 {
		o := r.Obs
		if len(o) > 24 {
			o = o[:24]
		}
		m["observed"] = o
	}
	return m
}

// compare a symbolic path with the native run of the same inputs
func agree(t *Trace, r NativeRes) string {
	if r.died != "" {
		return r.died
	}
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Assume {
		return "assumption fails natively"
	}
	if len(r.Fails) > 0 {
		return "assertion fails natively: " + r.Fails[0]
	}
	if len(r.Obs) != len(t.Obs) {
		return fmt.Sprintf("%d observations, native %d", len(t.Obs), len(r.Obs))
	}
	for i, o := range t.Obs {
		if r.Obs[i][0] != o.Name || r.Obs[i][1] != o.Val {
			return fmt.Sprintf("observation %s: engine %s, native %s=%s", o.Name, o.Val, r.Obs[i][0], r.Obs[i][1])
		}
	}
	if strings.Join(r.Reach, ",") != strings.Join(t.Reach, ",") {
		return fmt.Sprintf("reached %v, native %v", t.Reach, r.Reach)
	}
	return ""
}

type knownEnt struct{ prop, job, msg, what string }

func readKnown(file string) (out []knownEnt) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var e knownEnt
		for _, f := range strings.Split(strings.TrimPrefix(l, "finding: "), "; ") {
			k, v, _ := strings.Cut(f, "=")
			switch strings.TrimSpace(k) {
			case "property":
				e.prop = v
			case "job":
				e.job = v
			case "message":
				e.msg = v
			case "what":
				e.what = v
			}
		}
		out = append(out, e)
	}
	return
}

func report(prog *Program, cfg *Config, bin, tmp string, outs []*jobOut, t0 time.Time, setup time.Duration) int {
	c := &confirmer{prog: prog, cfg: cfg, dir: *fDir, tmp: tmp, normal: &Native{bin: bin}, built: map[string]error{}}
	defer func() {
		for _, n := range []*Native{c.normal, c.asan, c.race} {
			if n != nil {
				n.Close()
			}
		}
	}()
	known := readKnown(*fKnown)
	var viols []violation
	knownHit := map[int]bool{}
	spurious, mismatches := []string{}, []string{}
	validated, total := 0, JobResult{Unsupp: map[string]int{}, Reached: map[string]int{}, Notes: map[string]int{}}
	fns := map[string]int{}
	var q [6]int
	var spent time.Duration
	incomplete := []string{}
	errs := []string{}
	samples := []any{}
	bounds := []string{}
	jobsDone := []any{}
	rng := rand.New(rand.NewSource(cfg.seed))
	_ = rng
	for _, o := range outs {
		r := o.res
		total.Paths += r.Paths
		total.Infeasible += r.Infeasible
		total.Steps += r.Steps
		total.Forks += r.Forks
		total.Merges += r.Merges
		total.Asserts += r.Asserts
		total.AssertsTriv += r.AssertsTriv
		total.AssertsSMT += r.AssertsSMT
		for k, n := range r.Reached {
			total.Reached[k] += n
		}
		for k, n := range r.Notes {
			total.Notes[k] += n
		}
		for k, n := range r.Unsupp {
			incomplete = append(incomplete, fmt.Sprintf("%s: unsupported (%d paths): %s", o.job.Name, n, k))
		}
		for _, t := range r.Truncated {
			incomplete = append(incomplete, o.job.Name+": "+t)
		}
		if len(r.Unknown) > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d queries without an answer (%s)", o.job.Name, len(r.Unknown), r.Unknown[0]))
		}
		if o.err != "" {
			errs = append(errs, o.job.Name+": "+o.err)
		}
		for k, n := range o.fns {
			fns[k] += n
		}
		for i := range q {
			q[i] += o.sol[i]
		}
		spent += o.spent
		if o.job.Bounds != "" {
			bounds = append(bounds, o.job.Name+": "+o.job.Bounds)
		}
		jobsDone = append(jobsDone, map[string]any{"job": o.job.Name, "paths": r.Paths, "steps": r.Steps, "queries": o.sol[0], "seconds": round2(o.wall.Seconds())})
		// counterexamples
		for i := range r.Findings {
			f := &r.Findings[i]
			done := false
			for _, v := range viols {
				if v.Job == o.job.Name && v.Kind == f.Kind && v.Msg == f.Msg {
					done = true
				}
			}
			if done || len(viols) >= 25 {
				continue
			}
			ok, how, nat := c.confirm(o.job, f)
			if !ok {
				spurious = append(spurious, fmt.Sprintf("%s: %s: %s at %s (inputs %v, native %v)", o.job.Name, f.Kind, f.Msg, f.Pos, f.Inputs, nat))
				continue
			}
			hit := false
			for k, e := range known {
				if e.prop == o.job.Prop && e.job == o.job.Name && e.msg == f.Msg {
					hit = true
					knownHit[k] = true
				}
			}
			if hit {
				continue
			}
			viols = append(viols, violation{Property: o.job.Prop, Job: o.job.Name, Kind: f.Kind, Msg: f.Msg, Pos: f.Pos, Inputs: f.Inputs, Native: nat, How: how})
		}
		if o.job.Native == "engine" && !o.job.BE { // big-endian paths are compared with the little-endian code: the same observations are due
			continue
		}
		for i := range r.Traces {
			t := &r.Traces[i]
			if why := agree(t, c.normal.Run(NativeReq{o.job.ID, t.Inputs})); why != "" {
				mismatches = append(mismatches, fmt.Sprintf("%s: %s (inputs %v)", o.job.Name, why, t.Inputs))
			} else {
				validated++
				if len(samples) < 6 && i == 0 {
					obs := t.Obs
					if len(obs) > 8 {
						obs = obs[:8]
					}
					samples = append(samples, map[string]any{"job": o.job.Name, "inputs": t.Inputs, "observed": obs})
				}
			}
		}
	}
	prop := *fProp
	if prop == "" {
		prop = "ALL"
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (job %s: %s)\n", known[k].prop, known[k].what, known[k].job, known[k].msg)
	}
	replayOf := func(i int) string {
		return filepath.Join(*fReplay, fmt.Sprintf("%s-%d.json", prop, i))
	}
	if *fReplay != "" {
		os.MkdirAll(*fReplay, 0o755)
		old, _ := filepath.Glob(filepath.Join(*fReplay, prop+"-*.json"))
		for _, f := range old {
			os.Remove(f)
		}
	}
	for i := range viols {
		v := &viols[i]
		v.Run = "./run.sh replay " + replayOf(i)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(replayOf(i), append(b, '\n'), 0o644)
		fmt.Printf("violated: job %s: %s: %s at %s\n", v.Job, v.Kind, v.Msg, v.Pos)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, replayOf(i))
	}
	for _, s := range limit(mismatches, 10) {
		fmt.Println("engine/native mismatch:", s)
	}
	for _, s := range limit(spurious, 10) {
		fmt.Println("counterexample not reproduced by the compiled code (not reported):", s)
	}
	for _, s := range limit(incomplete, 20) {
		fmt.Println("incomplete:", s)
	}
	for _, s := range limit(errs, 10) {
		fmt.Println("error:", s)
	}
	var fl []string
	for k := range fns {
		fl = append(fl, k)
	}
	sort.Strings(fl)
	wall := time.Since(t0)
	ev := map[string]any{
		"property": prop, "tier": *fTier, "seed": cfg.seed, "level": "model_checking", "wall_s": round2(wall.Seconds()), "violations": len(viols),
		"coverage": map[string]any{
			"states": total.Steps, "transitions": total.Forks + total.Paths, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":           "symbolic execution of the SSA of the current source of /repo; states = SSA instructions executed symbolically, transitions = path branches decided plus paths completed; every sampled path was re-run natively and compared",
			"jobs":                  jobsDone,
			"paths_completed":       total.Paths,
			"paths_infeasible":      total.Infeasible,
			"diamonds_merged":       total.Merges,
			"assertions_checked":    total.Asserts,
			"assertions_by_solver":  total.AssertsSMT,
			"assertions_simplified": total.AssertsTriv,
			"queries":               q[0], "queries_sat": q[1], "queries_unsat": q[2], "queries_unknown": q[3], "queries_second_solver": q[4], "solver_errors": q[5],
			"solver_seconds":      round2(spent.Seconds()),
			"functions_encoded":   fl,
			"bounds":              bounds,
			"incomplete":          incomplete,
			"trace_mismatches":    mismatches,
			"not_reproduced":      spurious,
			"engine_errors":       errs,
			"reached":             total.Reached,
			"notes":               total.Notes,
			"setup_seconds":       round2(setup.Seconds()),
			"known_findings_seen": len(knownHit),
		},
		"assumptions": []string{
			"Go memory model as implemented by the engine: 64-bit gc layout, byte-addressed objects, allocations never adjacent",
			"the intrinsics listed in DESIGN.md (reflect, fmt, sync, sha256) behave as the Go library",
			"bounds as listed; behaviour outside them is not covered",
			"z3 4.8.12, and z3 5.x / cvc5 where it gave up, answer correctly",
		},
	}
	if len(samples) == 0 {
		ev["coverage"].(map[string]any)["samples"] = []any{}
	}
	if *fEv != "" {
		os.MkdirAll(filepath.Dir(*fEv), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*fEv, append(b, '\n'), 0o644); err != nil {
			return fail("%v", err)
		}
	}
	fmt.Printf("%s %s: %d jobs, %d paths, %d steps, %d assertions (%d by solver), %d queries (%d unknown), %.1fs solver, %d traces validated, %d violations, %.1fs\n",
		prop, *fTier, len(outs), total.Paths, total.Steps, total.Asserts, total.AssertsSMT, q[0], q[3], spent.Seconds(), validated, len(viols), wall.Seconds())
	if len(viols) > 0 {
		return 1
	}
	if len(errs) > 0 {
		fmt.Println("note: some jobs ended with an engine error")
	}
	return 0
}

func limit(s []string, n int) []string {
	if len(s) > n {
		return append(s[:n:n], fmt.Sprintf("... and %d more", len(s)-n))
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// run a recorded counterexample again
func replay(prog *Program, cfg *Config, all []*Job, bin, tmp string) int {
	b, err := os.ReadFile(*fOne)
	if err != nil {
		return fail("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		return fail("%v", err)
	}
	for _, j := range all {
		if j.Prop != v.Property || j.Name != v.Job {
			continue
		}
		c := &confirmer{prog: prog, cfg: cfg, dir: *fDir, tmp: tmp, normal: &Native{bin: bin}, built: map[string]error{}}
		defer func() {
			for _, n := range []*Native{c.normal, c.asan, c.race} {
				if n != nil {
					n.Close()
				}
			}
		}()
		ok, how, nat := c.confirm(j, &Finding{Kind: v.Kind, Msg: v.Msg, Inputs: v.Inputs})
		s, _ := json.MarshalIndent(nat, "", " ")
		if ok {
			fmt.Printf("reproduced (%s):\n%s\nVIOLATION property=%s replay=%s\n", how, s, v.Property, *fOne)
			return 1
		}
		fmt.Printf("not reproduced: %s\n", s)
		return 0
	}
	return fail("no job %s of %s", v.Job, v.Property)
}
