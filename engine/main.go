package main

// Driver: lists the jobs of the harness, executes them symbolically, validates
// sampled paths and every counterexample against the natively compiled code,
// and reports.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	trace   bool
	traces  int
	jobTime time.Duration
	seed    int64
	end     time.Time // of all jobs
}

type Job struct {
	ID      int    `json:"id"`
	Prop    string `json:"prop"`
	Name    string `json:"name"`
	Tier    string `json:"tier"`
	BE      bool   `json:"be"`
	Bounds  string `json:"bounds"`
	Seconds int    `json:"seconds"`
	Native  string `json:"native"` // how counterexamples are confirmed: "", "engine" (concrete re-execution in the engine)
}

type NativeReq struct {
	Job    int               `json:"job"`
	Inputs map[string]string `json:"inputs"`
}

type NativeRes struct {
	Obs    [][2]string `json:"obs"`
	Reach  []string    `json:"reach"`
	Fails  []string    `json:"fails"`
	Panic  string      `json:"panic"`
	Assume bool        `json:"assume"`
	died   string
}

// ---- package initialisation ----

func (ex *Exec) setup() error {
	st := &State{tok: new(tag), ftok: new(tag), known: map[*Expr]bool{}, eqs: map[*Expr]uint64{}, rng: map[*Expr][2]uint64{},
		model: NewModel(), cnt: map[string]int{}, pools: map[uint64][]Val{}, notes: map[string]bool{}}
	ex.base = st
	ex.deadline = time.Now().Add(60 * time.Second)
	order := ex.prog.initOrder()
	for _, p := range order {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				ti := ex.lay.Info(deref(g.Type()))
				ex.globals[g] = ex.alloc(st, ti.size, "global "+p.Pkg.Name()+"."+n)
			}
		}
	}
	for _, p := range order {
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		before := len(ex.res.Unsupp)
		ex.pushFrame(st, fn, nil, nil, nil)
		st.frames[0].discard = true
		why := ex.runState(st, 0)
		if why != "return" || len(ex.res.Findings) > 0 || len(ex.work) > 0 {
			if isUnder(p.Pkg.Path(), zsszPath) || isUnder(p.Pkg.Path(), harnessPath) {
				return fmt.Errorf("initialisation of %s: %s %v %v", p.Pkg.Path(), why, ex.res.Unsupp, ex.res.Findings)
			}
			if ex.cfg.trace {
				fmt.Printf("init of %s failed: %s %v\n", p.Pkg.Path(), why, ex.res.Unsupp)
			}
			st.frames = nil
			ex.work = nil
			ex.res.Findings = nil
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					ex.owned(st, ex.globals[g]).uninit = true
				}
			}
		}
		_ = before
	}
	ex.res = newResult()
	ex.fnStepsReset()
	return nil
}

func (ex *Exec) fnStepsReset() {
	for _, fi := range ex.fns {
		fi.steps = 0
	}
}

func (p *Program) initOrder() []*ssa.Package {
	var out []*ssa.Package
	seen := map[string]bool{}
	var visit func(q *ssa.Package)
	visit = func(q *ssa.Package) {
		if q == nil || seen[q.Pkg.Path()] {
			return
		}
		seen[q.Pkg.Path()] = true
		imps := q.Pkg.Imports()
		for _, i := range imps {
			visit(p.byPkg[i.Path()])
		}
		if p.execPkg(q.Pkg.Path()) {
			out = append(out, q)
		}
	}
	visit(p.main)
	return out
}

// ---- one job ----

type jobOut struct {
	job   *Job
	res   *JobResult
	fns   map[string]int
	sol   [6]int
	spent time.Duration
	wall  time.Duration
	exprs int
	err   string
}

func runJob(p *Program, cfg *Config, j *Job, concrete map[string]string) (out *jobOut) {
	out = &jobOut{job: j, fns: map[string]int{}}
	t0 := time.Now()
	ex := NewExec(p, cfg, j.BE)
	if concrete != nil {
		ex.b.fixed = map[string]uint64{}
		for k, v := range concrete {
			x, _ := strconv.ParseUint(v, 10, 64)
			ex.b.fixed[k] = x
		}
	}
	defer func() {
		out.res = ex.res
		out.wall = time.Since(t0)
		for _, s := range []*Solver{ex.sol, ex.sol2, ex.solInj} {
			if s != nil {
				for i, n := range []int{s.queries, s.sat, s.unsat, s.unknown, s.fallback, s.errors} {
					out.sol[i] += n
				}
				out.spent += s.spent
				s.Close()
			}
		}
		for _, fi := range ex.fns {
			if fi.steps > 0 && fi.intr == nil && isUnder(pkgPathOf(fi.fn), zsszPath) {
				out.fns[fi.name] += fi.steps
			}
		}
		if r := recover(); r != nil {
			out.err = fmt.Sprintf("engine: %v", r)
			if cfg.trace || os.Getenv("ENGINE_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", j.Name, r, debug.Stack())
			}
		}
	}()
	if err := ex.setup(); err != nil {
		out.err = err.Error()
		return
	}
	d := cfg.jobTime
	if j.Seconds > 0 {
		d = time.Duration(j.Seconds) * time.Second
	}
	ex.deadline = time.Now().Add(d)
	if !cfg.end.IsZero() && concrete == nil && cfg.end.Before(ex.deadline) {
		ex.deadline = cfg.end
	}
	st := ex.base.clone()
	fn := p.main.Func("RunJob")
	ex.pushFrame(st, fn, []Val{sv(ex.c64(uint64(j.ID)))}, nil, nil)
	ex.work = []*State{st}
	rng := rand.New(rand.NewSource(cfg.seed + int64(j.ID)))
	for len(ex.work) > 0 {
		if time.Now().After(ex.deadline) {
			ex.truncate("time limit: %d branches left", len(ex.work))
			break
		}
		if ex.res.Paths >= ex.maxPaths {
			ex.truncate("path limit: %d branches left", len(ex.work))
			break
		}
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		why := ex.runState(s, 0)
		ex.res.MaxDepth = max(ex.res.MaxDepth, len(s.pc))
		switch why {
		case "return":
			ex.res.Paths++
			for _, r := range s.reached {
				ex.res.Reached[r]++
			}
			n := len(ex.res.Traces)
			if n < cfg.traces {
				ex.sample(s, rng, -1)
			} else if k := rng.Intn(ex.res.Paths); k < cfg.traces {
				ex.sample(s, rng, k)
			}
		case "assume":
			ex.res.Infeasible++
		default:
			ex.res.Ended++
			if ex.res.Ends == nil {
				ex.res.Ends = map[string]int{}
			}
			ex.res.Ends[why]++
		}
	}
	out.exprs = len(ex.b.tab)
	return
}

// a concrete execution following the path of s
func (ex *Exec) sample(s *State, rng *rand.Rand, slot int) {
	if s.noModel {
		r, m := ex.sol.Check(s.pc)
		if r != Sat {
			return
		}
		s.model, s.noModel = m, false
	}
	m := s.model
	used := map[*Expr]bool{}
	seen := map[*Expr]bool{}
	for _, c := range s.pc {
		varsOf(c, used, seen)
	}
	m2 := NewModel()
	m2.vals = make([]uint64, len(ex.b.varlst))
	for i, v := range ex.b.varlst {
		if used[v] {
			m2.vals[i] = m.eval(v)
		} else {
			m2.vals[i] = rng.Uint64() & mask(v.w)
		}
	}
	for _, c := range s.pc {
		if m2.eval(c) != 1 {
			ex.res.Notes["path not sampled (hash interpretation)"]++
			return
		}
	}
	t := Trace{Inputs: ex.inputsOf(m2, nil), Obs: ex.obsOf(s, m2), Reach: append([]string(nil), s.reached...)}
	if slot < 0 {
		ex.res.Traces = append(ex.res.Traces, t)
	} else {
		ex.res.Traces[slot] = t
	}
}

func varsOf(e *Expr, out, seen map[*Expr]bool) {
	if e == nil || seen[e] {
		return
	}
	seen[e] = true
	if e.op == OVar {
		out[e] = true
		return
	}
	varsOf(e.a, out, seen)
	varsOf(e.b, out, seen)
	varsOf(e.d, out, seen)
	for _, a := range e.args {
		varsOf(a, out, seen)
	}
}

// ---- native side ----

type Native struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	errb    *bytes.Buffer
	timeout time.Duration
	mu      sync.Mutex
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func buildNative(dir, out string, flags ...string) error {
	args := append([]string{"build", "-o", out}, flags...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build: %v\n%s", err, b)
	}
	return nil
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin, "run")
	n.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1", "GODEBUG=clobberfree=1")
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	n.out = bufio.NewReaderSize(o, 1<<20)
	n.errb = &bytes.Buffer{}
	n.cmd.Stderr = n.errb
	return n.cmd.Start()
}

func (n *Native) Close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) Run(req NativeReq) NativeRes {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return NativeRes{died: err.Error()}
		}
	}
	line, _ := json.Marshal(req)
	n.in.Write(append(line, '\n'))
	type rl struct {
		s   string
		err error
	}
	ch := make(chan rl, 1)
	go func() {
		s, err := n.out.ReadString('\n')
		ch <- rl{s, err}
	}()
	to := n.timeout
	if to == 0 {
		to = 20 * time.Second
	}
	select {
	case r := <-ch:
		var res NativeRes
		if r.err != nil || json.Unmarshal([]byte(r.s), &res) != nil {
			n.cmd.Wait()
			e := n.errb.String()
			if len(e) > 1500 {
				e = e[:1500]
			}
			n.cmd = nil
			return NativeRes{died: "process died: " + e}
		}
		return res
	case <-time.After(to):
		n.cmd.Process.Kill()
		<-ch
		n.cmd.Wait()
		n.cmd = nil
		return NativeRes{died: "timeout"}
	}
}

// ---- main ----

var (
	fProp    = flag.String("prop", "", "property to check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fDir     = flag.String("harness", "", "harness module directory")
	fEv      = flag.String("evidence", "", "evidence file to write")
	fKnown   = flag.String("known", "", "known findings file")
	fReplay  = flag.String("replays", "", "directory for replay files")
	fJob     = flag.String("job", "", "only jobs whose name contains this")
	fWorkers = flag.Int("workers", 0, "parallel jobs")
	fTrace   = flag.Bool("trace", false, "engine tracing")
	fV       = flag.Bool("v", false, "print per-job results")
	fTmp     = flag.String("tmp", "", "scratch directory")
	fOne     = flag.String("replay", "", "replay file to run against the compiled code")
	fBudget  = flag.Int("budget", 0, "seconds for all jobs together")
	fSecs    = flag.Int("jobtime", 0, "seconds per job")
	fList    = flag.Bool("list", false, "list jobs")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	code := realMain()
	os.Exit(code)
}

func fail(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	return 2
}

func realMain() int {
	t0 := time.Now()
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cfg := &Config{trace: *fTrace, traces: 6, jobTime: 60 * time.Second, seed: seed}
	budget := 120
	if *fTier == "thorough" {
		cfg.jobTime = 400 * time.Second
		cfg.traces = 12
		budget = 720
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	if *fSecs > 0 {
		cfg.jobTime = time.Duration(*fSecs) * time.Second
	}
	tmp := *fTmp
	if tmp == "" {
		var err error
		if tmp, err = os.MkdirTemp("", "symeng"); err != nil {
			return fail("%v", err)
		}
		defer os.RemoveAll(tmp)
	}
	bin := filepath.Join(tmp, "native")
	var prog *Program
	var err1, err2 error
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); err1 = buildNative(*fDir, bin) }()
	go func() { defer wg.Done(); prog, err2 = LoadProgram(*fDir) }()
	wg.Wait()
	if err1 != nil {
		return fail("%v", err1)
	}
	if err2 != nil {
		return fail("%v", err2)
	}
	lb, err := exec.Command(bin, "list").Output()
	if err != nil {
		return fail("list: %v", err)
	}
	var all []*Job
	if err := json.Unmarshal(lb, &all); err != nil {
		return fail("list: %v", err)
	}
	if *fOne != "" {
		return replay(prog, cfg, all, bin, tmp)
	}
	var jobs []*Job
	for _, j := range all {
		if *fProp != "" && j.Prop != *fProp {
			continue
		}
		if *fJob != "" && !strings.Contains(j.Name, *fJob) {
			continue
		}
		if j.Tier == "thorough" && *fTier != "thorough" || j.Tier == "quickonly" && *fTier == "thorough" {
			continue
		}
		jobs = append(jobs, j)
	}
	if *fList {
		for _, j := range jobs {
			fmt.Println(j.ID, j.Prop, j.Tier, j.Name, j.Bounds)
		}
		return 0
	}
	if len(jobs) == 0 {
		return fail("no jobs for %s", *fProp)
	}
	setupTime := time.Since(t0)
	cfg.end = time.Now().Add(time.Duration(budget) * time.Second)
	w := *fWorkers
	if w == 0 {
		w = min(runtime.NumCPU(), 8)
	}
	outs := make([]*jobOut, len(jobs))
	ch := make(chan int)
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				outs[k] = runJob(prog, cfg, jobs[k], nil)
				if *fV {
					printJob(outs[k])
				}
			}
		}()
	}
	idx := make([]int, len(jobs))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return jobs[idx[a]].Seconds > jobs[idx[b]].Seconds })
	for _, k := range idx {
		ch <- k
	}
	close(ch)
	wg.Wait()
	return report(prog, cfg, bin, tmp, outs, t0, setupTime)
}

func printJob(o *jobOut) {
	r := o.res
	fmt.Printf("%-8s %-50s paths=%d infeas=%d ended=%v steps=%d asserts=%d(triv %d) forks=%d merges=%d cached=%d q=%d(s%d/u%d/?%d/fb%d/err%d) solver=%.1fs wall=%.1fs exprs=%d\n", o.job.Prop, o.job.Name, r.Paths, r.Infeasible, r.Ends, r.Steps,
		r.Asserts, r.AssertsTriv, r.Forks, r.Merges, r.Cached, o.sol[0], o.sol[1], o.sol[2], o.sol[3], o.sol[4], o.sol[5], o.spent.Seconds(), o.wall.Seconds(), o.exprs)
	if o.err != "" {
		fmt.Println("   ERROR", o.err)
	}
	for k, n := range r.Unsupp {
		fmt.Println("   UNSUPPORTED", n, k)
	}
	for _, t := range r.Truncated {
		fmt.Println("   TRUNCATED", t)
	}
	for _, t := range r.Unknown {
		fmt.Println("   UNKNOWN", t)
		break
	}
	for k, n := range r.Notes {
		fmt.Println("   NOTE", n, k)
	}
	for _, f := range r.Findings {
		fmt.Printf("   FINDING %s: %s at %s\n      inputs %v\n      obs %v\n", f.Kind, f.Msg, f.Pos, f.Inputs, f.Obs)
	}
	if len(r.Reached) > 0 {
		fmt.Println("   REACH", r.Reached)
	}
}
