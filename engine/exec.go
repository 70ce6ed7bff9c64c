package main

// The symbolic executor: states, decisions, memory access.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type FnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	n      int
	name   string
	intr   intrinsic
	isInit bool
	skip   bool // body must not be executed
	first  map[*ssa.BasicBlock]int
	join   map[*ssa.BasicBlock]*ssa.BasicBlock // merge candidates
	steps  int
	rtypes []*TInfo // layouts of the registers
}

const staticBase = 1 << 29

type Exec struct {
	prog    *Program
	b       *Builder
	sol     *Solver
	lay     *Layout
	fns     map[*ssa.Function]*FnInfo
	consts  map[*ssa.Const]Val
	static  []*Obj
	fnAddr  map[*ssa.Function]uint64
	typAddr typeutil.Map
	strAddr map[string]uint64
	globals map[*ssa.Global]uint64
	joined  map[joinKey]*Expr
	sol2    *Solver // for parts of path conditions
	solInj  *Solver // with an injective hash, see noCollision
	cvars   map[*Expr][]int32
	slices  map[string]*sliced
	bigEnd  bool
	base    *State
	noFork  int
	mergeOn bool
	work    []*State
	// limits
	maxSteps int
	maxPaths int
	maxConc  int
	deadline time.Time
	// results of the current job
	res *JobResult
	msc map[string]*ssa.Function
	rtT types.Type // *reflect.rtype
	// engine-level
	cfg *Config
}

type Finding struct {
	Kind   string // assert, panic, memory, hang, frozen
	Msg    string
	Pos    string
	Inputs map[string]string
	Obs    []ObsVal
}

type Trace struct {
	Inputs map[string]string
	Obs    []ObsVal
	Reach  []string
	Panics bool
}

type ObsVal struct {
	Name string
	Val  string
}

type JobResult struct {
	Paths       int
	Infeasible  int
	Steps       int
	Forks       int
	Merges      int
	Cached      int
	Asserts     int
	AssertsTriv int
	AssertsSMT  int
	Truncated   []string
	Unsupp      map[string]int
	Findings    []Finding
	Traces      []Trace
	Reached     map[string]int
	MaxDepth    int
	Ended       int
	Ends        map[string]int
	Unknown     []string
	Notes       map[string]int
}

func newResult() *JobResult {
	return &JobResult{Unsupp: map[string]int{}, Reached: map[string]int{}, Notes: map[string]int{}}
}

func NewExec(p *Program, cfg *Config, bigEnd bool) *Exec {
	b := NewBuilder()
	ex := &Exec{prog: p, b: b, sol: NewSolver(b), lay: NewLayout(), fns: map[*ssa.Function]*FnInfo{}, consts: map[*ssa.Const]Val{},
		fnAddr: map[*ssa.Function]uint64{}, strAddr: map[string]uint64{}, globals: map[*ssa.Global]uint64{}, bigEnd: bigEnd, joined: map[joinKey]*Expr{}, cvars: map[*Expr][]int32{}, slices: map[string]*sliced{},
		mergeOn: true, maxSteps: 4_000_000, maxPaths: 1_000_000, maxConc: 3000, cfg: cfg, msc: map[string]*ssa.Function{}}
	ex.res = newResult()
	return ex
}

func (ex *Exec) c64(v uint64) *Expr { return ex.b.Const(v, 64) }

// ---- static objects ----

func (ex *Exec) addStatic(o *Obj) uint64 {
	o.readonl = true
	id := uint32(staticBase + len(ex.static))
	ex.static = append(ex.static, o)
	return addrOf(id)
}

func (ex *Exec) funcAddr(fn *ssa.Function) uint64 {
	if a, ok := ex.fnAddr[fn]; ok {
		return a
	}
	a := ex.addStatic(&Obj{kind: kClosure, fn: fn, size: 8, cb: make([]byte, 8), site: "func " + fn.String()})
	ex.fnAddr[fn] = a
	return a
}

func (ex *Exec) typeAddr(t types.Type) uint64 {
	t = types.Unalias(t)
	if a := ex.typAddr.At(t); a != nil {
		return a.(uint64)
	}
	a := ex.addStatic(&Obj{kind: kType, rtype: t, size: 0, site: "type " + t.String()})
	ex.typAddr.Set(t, a)
	return a
}

func (ex *Exec) typeAt(st *State, a uint64) types.Type {
	o, _ := ex.objAt(st, a)
	if o == nil || o.kind != kType {
		panic(unsupported("not a type descriptor: %#x", a))
	}
	return o.rtype
}

func (ex *Exec) strConst(s string) Val {
	if s == "" {
		return Val{xs: []*Expr{ex.c64(0), ex.c64(0)}}
	}
	a, ok := ex.strAddr[s]
	if !ok {
		a = ex.addStatic(&Obj{size: uint64(len(s)), cb: []byte(s), site: "string"})
		ex.strAddr[s] = a
	}
	return Val{xs: []*Expr{ex.c64(a), ex.c64(uint64(len(s)))}}
}

func (ex *Exec) objAt(st *State, addr uint64) (*Obj, uint64) {
	id, off, ok := idOf(addr)
	if !ok {
		return nil, 0
	}
	if id >= staticBase {
		if i := int(id - staticBase); i < len(ex.static) {
			return ex.static[i], off
		}
		return nil, 0
	}
	return st.heap.at(id), off
}

func (ex *Exec) owned(st *State, addr uint64) *Obj {
	id, _, ok := idOf(addr)
	if !ok || id >= staticBase {
		panic(memFault{"write to read-only memory"})
	}
	o := st.heap.at(id)
	if o.owner != st.tok {
		o = o.clone(st.tok)
		st.heap.put(st.tok, id, o)
	}
	return o
}

// new object of the given size; zero contents
func (ex *Exec) alloc(st *State, size uint64, site string) uint64 {
	if ex.noFork > 0 {
		panic(abortMerge{"alloc"})
	}
	if size >= 1<<32 {
		o := &Obj{owner: st.tok, symSize: ex.c64(size), site: site}
		return addrOf(st.heap.add(st.tok, o))
	}
	o := &Obj{owner: st.tok, size: size, site: site}
	if size > 1<<16 {
		o.symSize = ex.c64(size)
	} else {
		o.cb = make([]byte, size)
	}
	return addrOf(st.heap.add(st.tok, o))
}

// typed records what fresh memory was allocated as.
func (ex *Exec) typed(st *State, a uint64, ti *TInfo) uint64 {
	if id, _, ok := idOf(a); ok && id < staticBase {
		if o := st.heap.at(id); o != nil && o.owner == st.tok {
			o.et = ti
		}
	}
	return a
}

func (ex *Exec) countAlloc(st *State, n *Expr) {
	if st.alloc == nil {
		st.alloc = ex.c64(0)
	}
	st.alloc = ex.b.Add(st.alloc, n)
}

func (ex *Exec) allocSym(st *State, size *Expr, site string) uint64 {
	if ex.noFork > 0 {
		panic(abortMerge{"alloc"})
	}
	o := &Obj{owner: st.tok, symSize: size, site: site}
	return addrOf(st.heap.add(st.tok, o))
}

// ---- decisions ----

// can the condition be resolved without a solver?
func (ex *Exec) quick(st *State, c *Expr) (bool, bool) {
	if c.isConst() {
		return c.c == 1, true
	}
	if st.known[c] {
		return true, true
	}
	if c.op == OBNot {
		r, ok := ex.quick(st, c.a)
		return !r, ok
	}
	if st.known[ex.b.BNot(c)] {
		return false, true
	}
	if v, ok := st.pe(c, 0); ok {
		return v == 1, true
	}
	switch c.op {
	case OBAnd:
		r1, k1 := ex.quick(st, c.a)
		r2, k2 := ex.quick(st, c.b)
		if k1 && !r1 || k2 && !r2 {
			return false, true
		}
		if k1 && k2 {
			return true, true
		}
	case OBOr:
		r1, k1 := ex.quick(st, c.a)
		r2, k2 := ex.quick(st, c.b)
		if k1 && r1 || k2 && r2 {
			return true, true
		}
		if k1 && k2 {
			return false, true
		}
	case OUlt:
		al, ah := st.bounds(c.a, 0)
		bl, bh := st.bounds(c.b, 0)
		if ah < bl {
			return true, true
		}
		if al >= bh {
			return false, true
		}
	case OEq:
		if c.a.w > 0 && c.a.w <= 64 {
			al, ah := st.bounds(c.a, 0)
			bl, bh := st.bounds(c.b, 0)
			if ah < bl || bh < al {
				return false, true
			}
		}
	}
	return false, false
}

// partial evaluation with the known equalities
func (st *State) pe(e *Expr, d int) (uint64, bool) {
	if e.op == OConst {
		return e.c, true
	}
	if v, ok := st.eqs[e]; ok {
		return v, true
	}
	if d > 6 || e.w > 64 || len(st.eqs) == 0 {
		return 0, false
	}
	var x, y, z uint64
	var ok bool
	switch e.op {
	case OVar, OHash:
		return 0, false
	case OIte:
		if x, ok = st.pe(e.a, d+1); !ok {
			return 0, false
		}
		if x != 0 {
			return st.pe(e.b, d+1)
		}
		return st.pe(e.d, d+1)
	}
	if e.a != nil {
		if e.a.w > 64 {
			return 0, false
		}
		if x, ok = st.pe(e.a, d+1); !ok {
			return 0, false
		}
	}
	if e.b != nil {
		if y, ok = st.pe(e.b, d+1); !ok {
			return 0, false
		}
	}
	_ = z
	var r uint64
	switch e.op {
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OAnd:
		r = x & y
	case OOr:
		r = x | y
	case OXor:
		r = x ^ y
	case ONot:
		r = ^x
	case OConcat:
		r = x<<e.b.w | y
	case OExtract:
		r = x >> e.c
	case OZExt:
		r = x
	case OUDiv:
		if y == 0 {
			return 0, false
		}
		r = x / y
	case OURem:
		if y == 0 {
			return 0, false
		}
		r = x % y
	case OEq:
		return b2u(x == y), true
	case OUlt:
		return b2u(x < y), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBNot:
		return x ^ 1, true
	default:
		return 0, false
	}
	return r & mask(e.w), true
}

// unsigned interval of e under the facts of the path
func (st *State) bounds(e *Expr, d int) (uint64, uint64) {
	lo, hi := e.lo, e.hi
	if e.op == OConst || e.w > 64 || e.w == 0 {
		return lo, hi
	}
	if r, ok := st.rng[e]; ok {
		lo, hi = max(lo, r[0]), min(hi, r[1])
	}
	if v, ok := st.eqs[e]; ok {
		return v, v
	}
	if d > 8 {
		return lo, hi
	}
	m := mask(e.w)
	var l, h uint64
	l, h = 0, m
	switch e.op {
	case OZExt:
		l, h = st.bounds(e.a, d+1)
	case OAnd:
		al, ah := st.bounds(e.a, d+1)
		bl, bh := st.bounds(e.b, d+1)
		l, h = 0, min(ah, bh)
		if e.b.isConst() && (^e.b.c&m)&((^e.b.c&m)+1) == 0 { // clears low bits
			l, h = al&e.b.c, ah&e.b.c
		}
		_ = bl
	case OExtract:
		if e.a.w <= 64 {
			al, ah := st.bounds(e.a, d+1)
			if ah>>e.c <= m {
				l, h = al>>e.c, ah>>e.c
			} else if x, y := al>>e.c, ah>>e.c; x&^m == y&^m {
				l, h = x&m, y&m
			}
		}
	case OConcat:
		al, ah := st.bounds(e.a, d+1)
		bl, bh := st.bounds(e.b, d+1)
		l, h = al<<e.b.w|bl, ah<<e.b.w|bh
	case OAdd:
		al, ah := st.bounds(e.a, d+1)
		bl, bh := st.bounds(e.b, d+1)
		if s, c := bits.Add64(ah, bh, 0); c == 0 && s <= m {
			l, h = al+bl, s
		} else if e.b.isConst() && e.w == 64 && al >= -bl { // x - k without wrap
			l, h = al+bl, ah+bl
		}
	case OSub:
		al, ah := st.bounds(e.a, d+1)
		bl, bh := st.bounds(e.b, d+1)
		if al >= bh {
			l, h = al-bh, ah-bl
		}
	case OMul:
		al, ah := st.bounds(e.a, d+1)
		bl, bh := st.bounds(e.b, d+1)
		if x, s := bits.Mul64(ah, bh); x == 0 && s <= m {
			l, h = al*bl, s
		}
	case OUDiv:
		al, ah := st.bounds(e.a, d+1)
		bl, bh := st.bounds(e.b, d+1)
		if bl > 0 {
			l, h = al/bh, ah/bl
		}
	case OURem:
		_, ah := st.bounds(e.a, d+1)
		_, bh := st.bounds(e.b, d+1)
		l, h = 0, ah
		if e.b.isConst() && bh > 0 {
			h = min(ah, bh-1)
		}
	case OIte:
		al, ah := st.bounds(e.b, d+1)
		bl, bh := st.bounds(e.d, d+1)
		l, h = min(al, bl), max(ah, bh)
	}
	return max(lo, l), min(hi, h)
}

func (st *State) learn(b *Builder, c *Expr) {
	st.known[c] = true
	switch c.op {
	case OBAnd:
		st.learn(b, c.a)
		st.learn(b, c.b)
	case OEq:
		if c.b.isConst() && c.a.w <= 64 {
			st.eqs[c.a] = c.b.c
		}
	case OUlt:
		if c.a.w > 64 {
			return
		}
		_, bh := st.bounds(c.b, 0)
		al, _ := st.bounds(c.a, 0)
		if bh > 0 {
			st.narrow(c.a, 0, bh-1)
		}
		st.narrow(c.b, al+1, ^uint64(0))
	case OBNot:
		n := c.a
		switch n.op {
		case OBOr:
			st.learn(b, b.BNot(n.a))
			st.learn(b, b.BNot(n.b))
		case OUlt: // a >= b
			if n.a.w > 64 {
				return
			}
			bl, _ := st.bounds(n.b, 0)
			_, ah := st.bounds(n.a, 0)
			st.narrow(n.a, bl, ^uint64(0))
			st.narrow(n.b, 0, ah)
		case OEq:
			if n.a.w == 0 && n.b.isConst() {
				st.eqs[n.a] = n.b.c ^ 1
			}
		default:
			if n.w == 0 {
				st.eqs[n] = 0
			}
		}
		return
	}
	if c.w == 0 && c.op != OEq {
		st.eqs[c] = 1
	}
}

func (st *State) narrow(e *Expr, lo, hi uint64) {
	if e.op == OConst {
		return
	}
	l, h := st.bounds(e, 0)
	lo, hi = max(lo, l), min(hi, h)
	if lo > hi {
		return
	}
	st.rng[e] = [2]uint64{lo, hi}
	if lo == hi {
		st.eqs[e] = lo
	}
	switch e.op {
	case OZExt:
		st.narrow(e.a, lo, min(hi, mask(e.a.w)))
	case OAdd:
		if e.b.isConst() && e.w == 64 {
			// x + k in [lo,hi] without wrap
			k := e.b.c
			if lo >= k && hi >= k {
				al, ah := st.bounds(e.a, 0)
				if _, c := bits.Add64(ah, k, 0); c == 0 {
					st.narrow(e.a, max(lo-k, al), min(hi-k, ah))
				}
			}
		}
	}
}

func (ex *Exec) assume(st *State, c *Expr) {
	st.pc = append(st.pc, c)
	st.learn(ex.b, c)
}

func (ex *Exec) decide(st *State, c *Expr) bool { return ex.decideV(st, c, 0) }

func (ex *Exec) decideV(st *State, c *Expr, val uint64) bool {
	if c.isConst() {
		return c.c == 1
	}
	if st.decPos < len(st.dec) {
		d := st.dec[st.decPos]
		st.decPos++
		return d.out
	}
	if r, ok := ex.quick(st, c); ok {
		st.dec = append(st.dec, decision{c, r, val})
		st.decPos++
		return r
	}
	if ex.noFork > 0 {
		panic(abortMerge{"decide"})
	}
	out := true
	nc := ex.b.BNot(c)
	first := Unknown
	if !st.noModel && !ex.b.hasHash(c, map[*Expr]bool{}) {
		if st.model.eval(c) == 0 {
			out = false
		}
		first = Sat
	} else {
		r, m := ex.check(st, c)
		switch r {
		case Unsat:
			st.learn(ex.b, nc)
			st.dec = append(st.dec, decision{c, false, val})
			st.decPos++
			return false
		case Sat:
			first = Sat
			st.model = m
		default:
			ex.res.Unknown = append(ex.res.Unknown, "branch")
			st.noModel = true
		}
	}
	_ = first
	other := nc
	if !out {
		other = c
	}
	r, m := ex.check(st, other)
	taken := c
	if !out {
		taken = nc
	}
	if r == Unsat {
		st.learn(ex.b, taken)
		st.dec = append(st.dec, decision{c, out, val})
		st.decPos++
		return out
	}
	n := st.clone()
	n.dec = append(n.dec, decision{c, !out, val})
	n.decPos = 0
	if r == Sat {
		n.model = m
		n.noModel = false
	} else {
		ex.res.Unknown = append(ex.res.Unknown, "branch")
		n.noModel = true
	}
	ex.assume(n, other)
	ex.res.Forks++
	ex.push(n)
	ex.assume(st, taken)
	st.dec = append(st.dec, decision{c, out, val})
	st.decPos++
	return out
}

func (ex *Exec) push(n *State) { ex.work = append(ex.work, n) }

// enumerate the values of e
func (ex *Exec) concretize(st *State, e *Expr) uint64 {
	for i := 0; ; i++ {
		if e.isConst() {
			return e.c
		}
		if st.decPos < len(st.dec) {
			d := st.dec[st.decPos]
			st.decPos++
			if d.out {
				return d.val
			}
			continue
		}
		if v, ok := st.pe(e, 0); ok {
			st.dec = append(st.dec, decision{nil, true, v})
			st.decPos++
			return v
		}
		if ex.noFork > 0 {
			panic(abortMerge{"concretize"})
		}
		if i > ex.maxConc {
			ex.truncate("more than %d values at %s", ex.maxConc, ex.where(st))
			panic(pathEnd{"concretize limit"})
		}
		if st.noModel {
			r, m := ex.sol.Check(st.pc)
			if r != Sat {
				ex.res.Unknown = append(ex.res.Unknown, "concretize")
				panic(pathEnd{"no model"})
			}
			st.model, st.noModel = m, false
		}
		v := st.model.eval(e)
		if ex.decideV(st, ex.b.Eq(e, ex.b.Const(v, e.w)), v) {
			return v
		}
	}
}

// some values of e, for operations which cannot be encoded; the others are reported as not covered
func (ex *Exec) someValues(st *State, e *Expr, why string) uint64 {
	cands := []uint64{1<<53 + 1, 1<<60 + 1, 1<<57 + 1, 1<<62 - 1, 1<<54 - 1, 1<<32 + 1, 1<<25 + 1, 1<<24 + 1, ^uint64(0), 33, 65, 0}
	for i := 0; ; i++ {
		if e.isConst() {
			return e.c
		}
		if st.decPos < len(st.dec) {
			d := st.dec[st.decPos]
			st.decPos++
			if d.out {
				return d.val
			}
			continue
		}
		if v, ok := st.pe(e, 0); ok {
			st.dec = append(st.dec, decision{nil, true, v})
			st.decPos++
			return v
		}
		if ex.noFork > 0 {
			panic(abortMerge{"sample"})
		}
		ex.truncate("%s: some values only, at %s", why, ex.where(st))
		if i >= len(cands)+4 {
			panic(pathEnd{"sample limit"})
		}
		if st.noModel {
			r, m := ex.sol.Check(st.pc)
			if r != Sat {
				ex.res.Unknown = append(ex.res.Unknown, "sample")
				panic(pathEnd{"no model"})
			}
			st.model, st.noModel = m, false
		}
		var v uint64
		if i < len(cands) {
			v = cands[i]
			if e.w < 64 {
				v &= 1<<uint(e.w) - 1
			}
		} else {
			v = st.model.eval(e)
		}
		if ex.decideV(st, ex.b.Eq(e, ex.b.Const(v, e.w)), v) {
			return v
		}
	}
}

// value of e when it is determined by the path; recorded like a decision
func (ex *Exec) determined(st *State, e *Expr) (uint64, bool) {
	if e.isConst() {
		return e.c, true
	}
	if st.decPos < len(st.dec) {
		d := st.dec[st.decPos]
		st.decPos++
		return d.val, d.out
	}
	v, ok := st.pe(e, 0)
	st.dec = append(st.dec, decision{nil, ok, v})
	st.decPos++
	return v, ok
}

func (ex *Exec) choice(st *State, f func() bool) bool {
	if st.decPos < len(st.dec) {
		d := st.dec[st.decPos]
		st.decPos++
		return d.out
	}
	r := f()
	st.dec = append(st.dec, decision{nil, r, 0})
	st.decPos++
	return r
}

func (ex *Exec) truncate(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, t := range ex.res.Truncated {
		if t == s {
			return
		}
	}
	ex.res.Truncated = append(ex.res.Truncated, s)
}

func (ex *Exec) where(st *State) string {
	if len(st.frames) == 0 {
		return "?"
	}
	var parts []string
	for i := len(st.frames) - 1; i >= 0 && len(parts) < 4; i-- {
		f := st.frames[i]
		p := ""
		if f.block != nil {
			for k := min(f.pc, len(f.block.Instrs)-1); k >= 0; k-- {
				if pos := f.block.Instrs[k].Pos(); pos.IsValid() {
					ps := ex.prog.fset.Position(pos)
					p = fmt.Sprintf(":%s:%d", shortFile(ps.Filename), ps.Line)
					break
				}
			}
		}
		parts = append(parts, f.fi.name+p)
	}
	return strings.Join(parts, " < ")
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		if j := strings.LastIndexByte(s[:i], '/'); j >= 0 {
			return s[j+1:]
		}
	}
	return s
}

// ---- memory access ----

type place struct {
	addr uint64 // base address of the object
	o    *Obj
	off  *Expr // byte offset
}

func (ex *Exec) resolve(st *State, addr *Expr, size uint64, write bool) place {
	if v, ok := ex.determined(st, addr); ok {
		if v < 4096 {
			panic(goPanic{what: "nil dereference"})
		}
		o, off := ex.objAt(st, v)
		if o == nil {
			panic(memFault{fmt.Sprintf("access to unmapped address %#x", v)})
		}
		ex.checkBounds(st, o, ex.c64(off), size, write)
		return place{v - off, o, ex.c64(off)}
	}
	// symbolic address: choose the object by the model, cover the rest by forking
	for i := 0; i < 64; i++ {
		var base uint64
		if st.decPos < len(st.dec) {
			base = st.dec[st.decPos].val
		} else {
			if st.noModel {
				panic(unsupported("symbolic address without model"))
			}
			base = st.model.eval(addr) &^ 0xffffffff
		}
		if base == 0 {
			if ex.decideV(st, ex.b.Ult(addr, ex.c64(4096)), base) {
				panic(goPanic{what: "nil dereference"})
			}
			continue
		}
		o, _ := ex.objAt(st, base)
		lim := uint64(0xffffffff)
		off := ex.b.Sub(addr, ex.c64(base))
		if ex.decideV(st, ex.b.Ule(off, ex.c64(lim)), base) {
			if o == nil {
				panic(memFault{fmt.Sprintf("access to unmapped address %#x", base)})
			}
			ex.checkBounds(st, o, off, size, write)
			return place{base, o, off}
		}
	}
	panic(unsupported("symbolic address with too many targets"))
}

func (ex *Exec) checkBounds(st *State, o *Obj, off *Expr, size uint64, write bool) {
	if o.freed && size > 0 {
		panic(memFault{"access to memory that the garbage collector has freed (" + o.site + ")"})
	}
	if o.uninit && !write {
		panic(unsupported("read of uninitialised package state %s", o.site))
	}
	if o.kind == kType || o.kind == kClosure && size > 0 && write {
		panic(memFault{"access to a descriptor: " + o.site})
	}
	if o.kind == kMap {
		panic(unsupported("raw access to a map"))
	}
	var ok *Expr
	if o.symSize != nil {
		end := ex.b.Add(off, ex.c64(size))
		ok = ex.b.Ule(end, o.symSize)
	} else {
		if size > o.size {
			panic(memFault{fmt.Sprintf("access of %d bytes at offset %v of an object of %d bytes (%s)", size, fmtExpr(off), o.size, o.site)})
		}
		ok = ex.b.Ule(off, ex.c64(o.size-size))
	}
	if !ex.decide(st, ok) {
		panic(memFault{fmt.Sprintf("access of %d bytes at offset %v of an object of %d bytes (%s)", size, fmtExpr(off), o.size, o.site)})
	}
}

func fmtExpr(e *Expr) string {
	if e.isConst() {
		return fmt.Sprint(int64(e.c))
	}
	return "symbolic"
}

// candidate offsets of a symbolic offset
func (ex *Exec) cands(st *State, off *Expr, size, objSize uint64) []uint64 {
	lo, hi := st.bounds(off, 0)
	if hi > objSize-size {
		hi = objSize - size
	}
	step := uint64(1) << bits.TrailingZeros64(^off.kz)
	if step > 4096 {
		step = 4096
	}
	if lo%step != 0 {
		lo += step - lo%step
	}
	if (hi-lo)/step > 300 {
		return nil
	}
	var out []uint64
	for v := lo; v <= hi; v += step {
		out = append(out, v)
	}
	return out
}

func (ex *Exec) loadBytes(st *State, addr *Expr, n uint64) []*Expr {
	if n == 0 {
		return nil
	}
	p := ex.resolve(st, addr, n, false)
	out := make([]*Expr, n)
	off, ok := ex.determined(st, p.off)
	if !ok && p.o.symSize == nil {
		var cs []uint64
		if ex.choice(st, func() bool { return ex.cands(st, p.off, n, p.o.size) != nil }) {
			cs = ex.cands(st, p.off, n, p.o.size)
			for i := range out {
				var e *Expr
				for k := len(cs) - 1; k >= 0; k-- {
					v := p.o.get(ex.b, cs[k]+uint64(i))
					if e == nil {
						e = v
					} else {
						e = ex.b.Ite(ex.b.Eq(p.off, ex.c64(cs[k])), v, e)
					}
				}
				out[i] = e
			}
			return out
		}
	}
	if p.o.symSize != nil && (!ok && len(p.o.sparse) <= 600 || len(p.o.slog) > 0 || p.o.havoc != "" && len(st.hreads[p.o.havoc]) > 0) {
		for i := range out {
			out[i] = ex.readAt(st, p.o, ex.b.Add(p.off, ex.c64(uint64(i))))
		}
		return out
	}
	if !ok {
		off = ex.concretize(st, p.off)
	}
	for i := range out {
		out[i] = p.o.get(ex.b, off+uint64(i))
	}
	return out
}

// one byte of an object of symbolic size, at any position
func (ex *Exec) readAt(st *State, o *Obj, pos *Expr) *Expr {
	if ex.noFork > 0 {
		panic(abortMerge{"symbolic position"})
	}
	if c, ok := ex.determined(st, pos); ok {
		pos = ex.c64(c)
	}
	var e *Expr
	if o.havoc == "" {
		e = ex.b.bytes[0]
	} else {
		rs := st.hreads[o.havoc]
		if rs == nil {
			// positions read so far
			for _, v := range ex.b.varlst {
				if c, ok := havocPos(o.havoc, v.name); ok {
					rs = append(rs, symByte{ex.c64(c), v})
				}
			}
		}
		for _, r := range rs {
			if r.pos == pos {
				e = r.v
			}
		}
		if e == nil {
			if pos.isConst() {
				e = ex.b.Var(fmt.Sprintf("%s@%d", o.havoc, pos.c), 8)
			} else {
				e = ex.b.Var(fmt.Sprintf("%s@?%d", o.havoc, pos.id), 8)
				ex.b.varPos[e] = pos
			}
			// earlier reads of the same position win
			for i := len(rs) - 1; i >= 0; i-- {
				e = ex.b.Ite(ex.b.Eq(pos, rs[i].pos), rs[i].v, e)
			}
			n := make(map[string][]symByte, len(st.hreads)+1)
			for k, v := range st.hreads {
				n[k] = v
			}
			n[o.havoc] = append(rs[:len(rs):len(rs)], symByte{pos, e})
			st.hreads = n
		}
	}
	keys := make([]uint64, 0, len(o.sparse))
	for k := range o.sparse {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, k := range keys {
		e = ex.b.Ite(ex.b.Eq(pos, ex.c64(k)), o.sparse[k], e)
	}
	for _, w := range o.slog {
		e = ex.b.Ite(ex.b.Eq(pos, w.pos), w.v, e)
	}
	return e
}

func havocPos(name, v string) (uint64, bool) {
	if !strings.HasPrefix(v, name+"@") {
		return 0, false
	}
	c, err := strconv.ParseUint(v[len(name)+1:], 10, 64)
	return c, err == nil
}

func (ex *Exec) storeBytes(st *State, addr *Expr, bs []*Expr) {
	n := uint64(len(bs))
	if n == 0 {
		return
	}
	p := ex.resolve(st, addr, n, true)
	if p.o.readonl {
		panic(memFault{"write to read-only memory: " + p.o.site})
	}
	off, ok := ex.determined(st, p.off)
	var cs []uint64
	if !ok {
		if p.o.symSize == nil && ex.choice(st, func() bool { return ex.cands(st, p.off, n, p.o.size) != nil }) {
			cs = ex.cands(st, p.off, n, p.o.size)
		}
		if cs == nil && p.o.symSize == nil {
			off = ex.concretize(st, p.off)
		}
	}
	ex.noteWrite(st, p)
	o := ex.owned(st, p.addr)
	if o.symSize != nil && (!ok || len(o.slog) > 0) {
		l := o.slog[:len(o.slog):len(o.slog)]
		for i, e := range bs {
			l = append(l, symByte{ex.b.Add(p.off, ex.c64(uint64(i))), e})
		}
		o.slog = l
		return
	}
	if cs != nil {
		old := make(map[uint64]*Expr)
		for _, c := range cs {
			for i := uint64(0); i < n; i++ {
				if _, ok := old[c+i]; !ok {
					old[c+i] = o.get(ex.b, c+i)
				}
			}
		}
		keys := make([]uint64, 0, len(old))
		for k := range old {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		for _, k := range keys {
			e := old[k]
			for _, c := range cs {
				if k >= c && k < c+n {
					e = ex.b.Ite(ex.b.Eq(p.off, ex.c64(c)), bs[k-c], e)
				}
			}
			o.set(k, e)
		}
		return
	}
	for i, e := range bs {
		o.set(off+uint64(i), e)
	}
}

func (ex *Exec) noteWrite(st *State, p place) {
	if st.frozen && p.o.frozen {
		w := ex.where(st)
		if st.writes == nil || !st.writes[w] {
			nw := cloneMap(st.writes)
			nw[w] = true
			st.writes = nw
			ex.finding(st, "frozen", "write to shared memory ("+p.o.site+")", nil)
		}
	}
}

func (ex *Exec) leafExpr(bs []*Expr, lf Leaf) *Expr {
	if lf.w == 0 {
		b := bs[0]
		return ex.b.BNot(ex.b.Eq(b, ex.b.bytes[0]))
	}
	n := int(lf.w / 8)
	// all concrete?
	conc := true
	for _, b := range bs[:n] {
		if b.op != OConst {
			conc = false
			break
		}
	}
	if conc {
		v := uint64(0)
		for i := 0; i < n; i++ {
			if ex.bigEnd {
				v = v<<8 | bs[i].c
			} else {
				v |= bs[i].c << (8 * i)
			}
		}
		return ex.b.Const(v, lf.w)
	}
	if n > 1 && n <= 8 {
		k := joinKey{w: lf.w}
		copy(k.b[:], bs[:n])
		if e := ex.joined[k]; e != nil {
			return e
		}
	}
	var e *Expr
	for i := 0; i < n; i++ {
		k := i
		if ex.bigEnd {
			k = n - 1 - i
		}
		if e == nil {
			e = bs[k]
		} else {
			e = ex.b.Concat(bs[k], e)
		}
	}
	return e
}

func (ex *Exec) leafBytes(e *Expr, lf Leaf, out []*Expr) {
	if lf.w == 0 {
		out[0] = ex.b.Ite(e, ex.b.bytes[1], ex.b.bytes[0])
		return
	}
	n := int(lf.w / 8)
	for i := 0; i < n; i++ {
		k := i
		if ex.bigEnd {
			k = n - 1 - i
		}
		out[k] = ex.b.Extract(e, uint16(8*i), 8)
	}
	switch e.op {
	case OConst, OVar, OConcat:
	default:
		if n > 1 && n <= 8 {
			k := joinKey{w: lf.w}
			copy(k.b[:], out[:n])
			ex.joined[k] = e
		}
	}
}

// joinKey is a sequence of bytes that an expression was split into.
type joinKey struct {
	w uint16
	b [8]*Expr
}

func (ex *Exec) load(st *State, addr *Expr, ti *TInfo) Val {
	if len(ti.leaves) == 0 {
		if ti.n > 1<<16 {
			panic(unsupported("load of huge array"))
		}
		if addr.isConst() && addr.c < 4096 {
			panic(goPanic{what: "nil dereference"})
		}
		return Val{xs: []*Expr{}}
	}
	// fast path
	if v, ok := addrConst(addr); ok && v >= 4096 {
		o, off := ex.objAt(st, v)
		if o != nil && o.symSize == nil && o.kind == kData && !o.uninit && off+ti.size <= o.size {
			if ti.scalar {
				return Val{e: ex.loadLeaf(o, off, ti.leaves[0])}
			}
			xs := make([]*Expr, len(ti.leaves))
			for i, lf := range ti.leaves {
				xs[i] = ex.loadLeaf(o, off+lf.off, lf)
			}
			return Val{xs: xs}
		}
	}
	bs := ex.loadBytes(st, addr, ti.size)
	xs := make([]*Expr, len(ti.leaves))
	for i, lf := range ti.leaves {
		xs[i] = ex.leafExpr(bs[lf.off:], lf)
	}
	return ti.mkVal(xs)
}

func addrConst(a *Expr) (uint64, bool) {
	if a.op == OConst {
		return a.c, true
	}
	return 0, false
}

func (ex *Exec) loadLeaf(o *Obj, off uint64, lf Leaf) *Expr {
	n := uint64(lf.w / 8)
	if lf.w == 0 {
		n = 1
	}
	if o.sx == nil {
		v := uint64(0)
		if ex.bigEnd {
			for i := uint64(0); i < n; i++ {
				v = v<<8 | uint64(o.cb[off+i])
			}
		} else {
			for i := uint64(0); i < n; i++ {
				v |= uint64(o.cb[off+i]) << (8 * i)
			}
		}
		if lf.w == 0 {
			return ex.b.Bool(v != 0)
		}
		return ex.b.Const(v, lf.w)
	}
	var tmp [8]*Expr
	for i := uint64(0); i < n; i++ {
		tmp[i] = o.get(ex.b, off+i)
	}
	return ex.leafExpr(tmp[:n], lf)
}

func (ex *Exec) store(st *State, addr *Expr, ti *TInfo, v Val) {
	if len(ti.leaves) == 0 {
		if addr.isConst() && addr.c < 4096 {
			panic(goPanic{what: "nil dereference"})
		}
		return
	}
	xs := v.leaves()
	if a, ok := addrConst(addr); ok && a >= 4096 {
		o, off := ex.objAt(st, a)
		if o != nil && o.symSize == nil && o.kind == kData && !o.readonl && off+ti.size <= o.size {
			ex.noteWrite(st, place{a - off, o, nil})
			o = ex.owned(st, a)
			var tmp [8]*Expr
			for i, lf := range ti.leaves {
				e := xs[i]
				p := off + lf.off
				if e.op == OConst && o.sx == nil && !ex.bigEnd {
					n := uint64(lf.w / 8)
					if lf.w == 0 {
						n = 1
					}
					for k := uint64(0); k < n; k++ {
						o.cb[p+k] = byte(e.c >> (8 * k))
					}
					continue
				}
				n := max(1, int(lf.w/8))
				ex.leafBytes(e, lf, tmp[:n])
				for k := 0; k < n; k++ {
					o.set(p+uint64(k), tmp[k])
				}
			}
			return
		}
	}
	// general path, leaf by leaf after one check of the whole extent
	ex.resolve(st, addr, ti.size, true)
	for i, lf := range ti.leaves {
		n := max(1, int(lf.w/8))
		tmp := make([]*Expr, n)
		ex.leafBytes(xs[i], lf, tmp)
		ex.storeBytes(st, ex.b.Add(addr, ex.c64(lf.off)), tmp)
	}
}

func (ex *Exec) zero(ti *TInfo) Val {
	if ti.scalar {
		return Val{e: ex.b.Const(0, ti.leaves[0].w)}
	}
	xs := make([]*Expr, len(ti.leaves))
	for i, l := range ti.leaves {
		xs[i] = ex.b.Const(0, l.w)
	}
	return Val{xs: xs}
}

// ---- constants ----

func (ex *Exec) constVal(c *ssa.Const) Val {
	if v, ok := ex.consts[c]; ok {
		return v
	}
	v := ex.mkConst(c)
	ex.consts[c] = v
	return v
}

func (ex *Exec) mkConst(c *ssa.Const) Val {
	ct := c.Type()
	if bt, ok := ct.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
		if bt.Kind() == types.UntypedNil {
			ct = types.Typ[types.UnsafePointer]
		} else {
			ct = types.Default(ct)
		}
	} else if ok && bt.Kind() == types.Invalid {
		return Val{}
	}
	ti := ex.lay.Info(ct)
	if c.Value == nil {
		return ex.zero(ti)
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sv(ex.b.Bool(constant.BoolVal(c.Value)))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return ex.strConst(constant.StringVal(c.Value))
			}
			return ex.strConst(string(rune(c.Int64())))
		case u.Info()&types.IsInteger != 0 || u.Kind() == types.UnsafePointer:
			x := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(x); ok {
				return sv(ex.b.Const(uint64(i), ti.leaves[0].w))
			}
			i, _ := constant.Uint64Val(x)
			return sv(ex.b.Const(i, ti.leaves[0].w))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return sv(ex.b.Const(floatBits(f, ti.leaves[0].w), ti.leaves[0].w))
		}
	}
	panic(unsupported("constant %s", c))
}
