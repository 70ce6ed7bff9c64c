package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	owner     *tag
	fi        *FnInfo
	regs      []Val
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []deferred
	binds     []Val
	callInstr ssa.Value // register of the caller that receives the result
	deferCall bool      // called while running the defers of the frame below
	unwinding bool      // a panic is being propagated through this frame
	rec       *PanicRec
	discard   bool
	onReturn  func(ex *Exec, st *State, res []Val) // engine continuation
}

type deferred struct {
	fn    *ssa.Function
	binds []Val
	args  []Val
	bi    *ssa.Builtin
	instr *ssa.Defer
}

type PanicRec struct {
	val       Val // interface value
	what      string
	recovered bool
	pos       string
}

type decision struct {
	cond *Expr
	out  bool
	val  uint64
}

type pcNode struct {
	e *Expr
}

type obsEnt struct {
	name string
	e    []*Expr
	kind byte // 'u' number, 'b' bytes
}

type State struct {
	heap    Heap
	tok     *tag
	ftok    *tag
	frames  []*Frame
	pc      []*Expr
	known   map[*Expr]bool
	eqs     map[*Expr]uint64
	rng     map[*Expr][2]uint64
	model   *Model
	noModel bool
	dec     []decision
	decPos  int
	steps   int
	cnt     map[string]int
	obs     []obsEnt
	inputs  []*Expr
	alloc   *Expr
	pools   map[uint64][]Val
	lateMap []string
	frozen  bool
	depth   int
	bigSize bool
	notes   map[string]bool
	reached []string
	lossy   bool // a concretisation dropped values
	writes  map[string]bool
	hreads  map[string][]symByte // reads of arbitrary contents at symbolic positions
}

func (st *State) clone() *State {
	n := *st
	n.heap = st.heap.clone()
	n.tok = new(tag)
	st.tok = new(tag)
	n.ftok = new(tag)
	st.ftok = new(tag)
	n.frames = append([]*Frame(nil), st.frames...)
	if k := len(n.frames) - 1; k >= 0 {
		// the instruction in progress still writes to the top frame of st
		nf := *n.frames[k]
		nf.owner = n.ftok
		nf.regs = append([]Val(nil), nf.regs...)
		nf.defers = nf.defers[:len(nf.defers):len(nf.defers)]
		n.frames[k] = &nf
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.known = cloneMap(st.known)
	n.eqs = cloneMap(st.eqs)
	n.rng = cloneMap(st.rng)
	n.cnt = cloneMap(st.cnt)
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	n.reached = st.reached[:len(st.reached):len(st.reached)]
	n.dec = append([]decision(nil), st.dec...)
	n.pools = cloneMap(st.pools)
	n.notes = cloneMap(st.notes)
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// top returns the current frame, owned by the state.
func (st *State) top() *Frame {
	i := len(st.frames) - 1
	f := st.frames[i]
	if f.owner != st.ftok {
		nf := *f
		nf.owner = st.ftok
		nf.regs = append([]Val(nil), f.regs...)
		nf.defers = f.defers[:len(f.defers):len(f.defers)]
		st.frames[i] = &nf
		f = &nf
	}
	return f
}

// ---- control-flow signals of the engine (Go panics) ----

type unsupErr struct{ msg string }

func unsupported(f string, a ...any) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

type pathEnd struct{ why string }

type goPanic struct {
	what string
	val  *Val
}

type memFault struct{ msg string }
type abortMerge struct{ why string }
