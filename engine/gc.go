package main

// Garbage collection: what the collector of the Go runtime would free at a
// given point, and faults for later uses of it.
//
// Memory is scanned by the type it was allocated with: words that are no
// pointers for that type (uintptr, bytes, integers) keep nothing alive. Where
// the engine does not know the type, all words count. Registers of active
// functions count with their types, whether or not they are used again.

import (
	"golang.org/x/tools/go/ssa"
)

type gcRun struct {
	ex   *Exec
	st   *State
	live map[uint32]bool
	todo []uint32
	seen map[*Expr]bool
}

func (g *gcRun) addr(a uint64) {
	id, _, ok := idOf(a)
	if !ok || id >= staticBase || id >= g.st.heap.n || g.live[id] {
		return
	}
	g.live[id] = true
	g.todo = append(g.todo, id)
}

// every address that occurs in an expression
func (g *gcRun) expr(e *Expr) {
	if e == nil {
		return
	}
	if e.isConst() {
		if e.w == 64 {
			g.addr(e.c)
		}
		return
	}
	if g.seen[e] {
		return
	}
	g.seen[e] = true
	g.expr(e.a)
	g.expr(e.b)
	g.expr(e.d)
	for _, x := range e.args {
		g.expr(x)
	}
	if v, ok := g.st.eqs[e]; ok && e.w == 64 {
		g.addr(v)
	}
}

func (g *gcRun) val(v Val, ti *TInfo) {
	xs := v.leaves()
	typed := ti != nil && len(ti.leaves) == len(xs)
	for i, e := range xs {
		if typed && !ti.leaves[i].ptr {
			continue
		}
		g.expr(e)
	}
}

func (g *gcRun) vals(l []Val) {
	for _, v := range l {
		g.val(v, nil)
	}
}

// word scans the eight bytes at off.
func (g *gcRun) word(o *Obj, off uint64) {
	if o.symSize != nil {
		for i := uint64(0); i < 8; i++ {
			g.expr(o.sparse[off+i])
		}
		var a uint64
		for i := uint64(0); i < 8; i++ {
			if x := o.sparse[off+i]; x != nil && x.isConst() {
				a |= x.c << (8 * i)
			}
		}
		g.addr(a)
		return
	}
	if off+8 > o.size {
		return
	}
	var a uint64
	for i := uint64(0); i < 8; i++ {
		c := uint64(o.cb[off+i])
		if o.sx != nil && o.sx[off+i] != nil {
			g.expr(o.sx[off+i])
		}
		a |= c << (8 * i)
	}
	g.addr(a)
}

func (g *gcRun) obj(o *Obj) {
	for _, v := range o.binds {
		g.val(v, nil)
	}
	for _, e := range o.m {
		g.val(e.k, nil)
		g.val(e.v, nil)
	}
	if o.kind != kData {
		return
	}
	if o.et != nil {
		ptrs := false
		for _, l := range o.et.leaves {
			ptrs = ptrs || l.ptr
		}
		if !ptrs && (o.et.elem == nil || o.et.n <= 1<<16) {
			return
		}
	}
	if o.symSize != nil {
		// written parts only
		done := map[uint64]bool{}
		for k := range o.sparse {
			if w := k &^ 7; !done[w] && g.scans(o, w) {
				done[w] = true
				g.word(o, w)
			}
		}
		for _, s := range o.slog {
			g.expr(s.v)
		}
		return
	}
	for off := uint64(0); off+8 <= o.size; off += 8 {
		if g.scans(o, off) {
			g.word(o, off)
		}
	}
}

// scans reports whether the word at off is one of a pointer.
func (g *gcRun) scans(o *Obj, off uint64) bool {
	if o.et == nil || o.et.size == 0 || len(o.et.leaves) == 0 {
		return true
	}
	r := off % o.et.size
	for _, l := range o.et.leaves {
		if l.off == r {
			return l.ptr
		}
	}
	return false
}

// collect frees what cannot be reached.
func (ex *Exec) collect(st *State) {
	if ex.base == nil || ex.base == st {
		return
	}
	for _, f := range st.frames {
		if f.onReturn != nil {
			return // the engine may hold references of its own
		}
	}
	n0 := ex.base.heap.n
	g := &gcRun{ex: ex, st: st, live: map[uint32]bool{}, seen: map[*Expr]bool{}}
	for _, f := range st.frames {
		ts := f.fi.regTypes(ex)
		for i, v := range f.regs {
			g.val(v, ts[i])
		}
		g.vals(f.binds)
		for _, d := range f.defers {
			g.vals(d.args)
			g.vals(d.binds)
		}
		if f.rec != nil {
			g.val(f.rec.val, nil)
		}
	}
	for _, l := range st.pools {
		g.vals(l)
	}
	// memory that exists since initialisation is kept, and scanned if changed
	for i, p := range st.heap.pages {
		if i < len(ex.base.heap.pages) && p == ex.base.heap.pages[i] {
			continue
		}
		for k := uint32(0); k < pageSize; k++ {
			id := uint32(i)*pageSize + k
			if id >= n0 {
				break
			}
			if p.o[k] != nil && p.o[k] != ex.base.heap.at(id) {
				g.live[id] = true
				g.todo = append(g.todo, id)
			}
		}
	}
	for len(g.todo) > 0 {
		id := g.todo[len(g.todo)-1]
		g.todo = g.todo[:len(g.todo)-1]
		if o := st.heap.at(id); o != nil {
			g.obj(o)
		}
	}
	for id := n0; id < st.heap.n; id++ {
		o := st.heap.at(id)
		if o == nil || o.freed || o.kind != kData || g.live[id] {
			continue
		}
		st.heap.put(st.tok, id, &Obj{owner: st.tok, freed: true, cb: []byte{}, site: o.site})
	}
}

// regTypes are the layouts of the registers of a function.
func (fi *FnInfo) regTypes(ex *Exec) []*TInfo {
	if fi.rtypes == nil {
		fi.rtypes = make([]*TInfo, fi.n)
		for v, i := range fi.idx {
			if _, ok := v.(*ssa.Range); ok {
				continue
			}
			fi.rtypes[i] = ex.regInfo(v)
		}
	}
	return fi.rtypes
}

func (ex *Exec) regInfo(v ssa.Value) (ti *TInfo) {
	defer func() {
		if recover() != nil {
			ti = nil
		}
	}()
	return ex.lay.Info(v.Type())
}
