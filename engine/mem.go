package main

// Type layout, values and the copy-on-write byte-level memory of a state.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Leaf struct {
	off uint64
	w   uint16 // 0 = bool (one byte)
	ptr bool   // pointer-like leaf
}

type TInfo struct {
	t      types.Type
	size   uint64
	align  uint64
	leaves []Leaf
	scalar bool
	fields []int // struct: first leaf index of each field
	foff   []uint64
	elem   *TInfo // array element
	n      int64
}

type Val struct {
	e  *Expr
	xs []*Expr
}

func sv(e *Expr) Val { return Val{e: e} }

func (v Val) leaves() []*Expr {
	if v.e != nil {
		return []*Expr{v.e}
	}
	return v.xs
}

type Layout struct {
	sizes types.Sizes
	m     typeutil.Map
}

func NewLayout() *Layout {
	l := &Layout{sizes: types.SizesFor("gc", "amd64")}
	return l
}

func (l *Layout) Info(t types.Type) *TInfo {
	if x := l.m.At(t); x != nil {
		return x.(*TInfo)
	}
	ti := l.compute(t)
	l.m.Set(t, ti)
	return ti
}

func (l *Layout) compute(t types.Type) *TInfo {
	ti := &TInfo{t: t}
	if tup, ok := t.(*types.Tuple); ok {
		// tuples only live in registers
		for i := 0; i < tup.Len(); i++ {
			ti.fields = append(ti.fields, len(ti.leaves))
			f := l.Info(tup.At(i).Type())
			ti.leaves = append(ti.leaves, f.leaves...)
		}
		return ti
	}
	u := t.Underlying()
	if _, ok := u.(*types.TypeParam); ok {
		panic(unsupported("type parameter %s", t))
	}
	if b, ok := u.(*types.Basic); ok && b.Kind() == types.Invalid {
		return ti
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == nil && n.Obj().Name() == "iter" {
		return ti
	}
	ti.size = uint64(l.sizes.Sizeof(t))
	ti.align = uint64(l.sizes.Alignof(t))
	one := func(w uint16, ptr bool) {
		ti.leaves = []Leaf{{0, w, ptr}}
		ti.scalar = true
	}
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			one(0, false)
		case types.Int8, types.Uint8:
			one(8, false)
		case types.Int16, types.Uint16:
			one(16, false)
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			one(32, false)
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
			one(64, false)
		case types.UnsafePointer, types.UntypedNil:
			one(64, true)
		case types.String, types.UntypedString:
			ti.leaves = []Leaf{{0, 64, true}, {8, 64, false}}
		case types.Complex64:
			ti.leaves = []Leaf{{0, 32, false}, {4, 32, false}}
		case types.Complex128:
			ti.leaves = []Leaf{{0, 64, false}, {8, 64, false}}
		default:
			panic(unsupported("basic type %s", t))
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		one(64, true)
	case *types.Slice:
		ti.leaves = []Leaf{{0, 64, true}, {8, 64, false}, {16, 64, false}}
	case *types.Interface:
		ti.leaves = []Leaf{{0, 64, true}, {8, 64, true}}
	case *types.Array:
		ti.elem = l.Info(u.Elem())
		ti.n = u.Len()
		if ti.n > 1<<16 {
			return ti // never used as a value
		}
		for i := int64(0); i < u.Len(); i++ {
			for _, f := range ti.elem.leaves {
				ti.leaves = append(ti.leaves, Leaf{uint64(i)*ti.elem.size + f.off, f.w, f.ptr})
			}
		}
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := l.sizes.Offsetsof(fs)
		for i, f := range fs {
			fi := l.Info(f.Type())
			ti.fields = append(ti.fields, len(ti.leaves))
			ti.foff = append(ti.foff, uint64(offs[i]))
			for _, lf := range fi.leaves {
				ti.leaves = append(ti.leaves, Leaf{uint64(offs[i]) + lf.off, lf.w, lf.ptr})
			}
		}
	default:
		panic(unsupported("type %s", t))
	}
	return ti
}

func (ti *TInfo) mkVal(xs []*Expr) Val {
	if ti.scalar {
		return Val{e: xs[0]}
	}
	return Val{xs: xs}
}

// field i of a struct or tuple value
func (ti *TInfo) field(v Val, i int, fi *TInfo) Val {
	s := ti.fields[i]
	if fi.scalar {
		return Val{e: v.xs[s]}
	}
	return Val{xs: v.xs[s : s+len(fi.leaves)]}
}

// ---- objects ----

type tag struct{ _ int }

type MapEnt struct{ k, v Val }

// symByte is a byte at a symbolic position.
type symByte struct{ pos, v *Expr }

type Obj struct {
	owner   *tag
	size    uint64
	symSize *Expr // when set, the size in bytes is this term; contents in sparse
	cb      []byte
	sx      []*Expr
	sparse  map[uint64]*Expr
	havoc   string
	slog    []symByte // symSize: writes since the first one at a symbolic position
	frozen  bool
	readonl bool // writing is a fault (string constants, type descriptors)
	uninit  bool // global of a package that was not initialised
	kind    uint8
	fn      *ssa.Function
	binds   []Val
	m       []MapEnt
	site    string
	rtype   types.Type
	et      *TInfo // what the memory was allocated as (one, or several in a row)
	freed   bool   // by the garbage collector
}

const (
	kData = iota
	kClosure
	kMap
	kType
)

func (o *Obj) clone(t *tag) *Obj {
	n := *o
	n.owner = t
	if o.cb != nil {
		n.cb = append([]byte(nil), o.cb...)
	}
	if o.sx != nil {
		n.sx = append([]*Expr(nil), o.sx...)
	}
	if o.sparse != nil {
		n.sparse = make(map[uint64]*Expr, len(o.sparse))
		for k, v := range o.sparse {
			n.sparse[k] = v
		}
	}
	if o.m != nil {
		n.m = append([]MapEnt(nil), o.m...)
	}
	return &n
}

func (o *Obj) get(b *Builder, i uint64) *Expr {
	if o.symSize != nil {
		if e, ok := o.sparse[i]; ok {
			return e
		}
		if o.havoc != "" {
			return b.Var(fmt.Sprintf("%s@%d", o.havoc, i), 8)
		}
		return b.bytes[0]
	}
	if o.sx != nil {
		if e := o.sx[i]; e != nil {
			return e
		}
	}
	return b.bytes[o.cb[i]]
}

func (o *Obj) set(i uint64, e *Expr) {
	if o.symSize != nil {
		if o.sparse == nil {
			o.sparse = map[uint64]*Expr{}
		}
		o.sparse[i] = e
		return
	}
	if e.op == OConst {
		o.cb[i] = byte(e.c)
		if o.sx != nil {
			o.sx[i] = nil
		}
		return
	}
	if o.sx == nil {
		o.sx = make([]*Expr, len(o.cb))
	}
	o.sx[i] = e
}

// ---- heap: paged copy-on-write table ----

const pageSize = 128

type page struct {
	owner *tag
	o     [pageSize]*Obj
}

type Heap struct {
	pages []*page
	n     uint32
}

func (h *Heap) clone() Heap {
	return Heap{pages: append([]*page(nil), h.pages...), n: h.n}
}

func (h *Heap) at(id uint32) *Obj {
	if id >= h.n {
		return nil
	}
	return h.pages[id/pageSize].o[id%pageSize]
}

func (h *Heap) put(t *tag, id uint32, o *Obj) {
	p := h.pages[id/pageSize]
	if p.owner != t {
		np := *p
		np.owner = t
		p = &np
		h.pages[id/pageSize] = p
	}
	p.o[id%pageSize] = o
}

func (h *Heap) add(t *tag, o *Obj) uint32 {
	id := h.n
	if id%pageSize == 0 {
		h.pages = append(h.pages, &page{owner: t})
	}
	h.n++
	h.put(t, id, o)
	return id
}

// addresses: object id i lives at (2i+1)<<32
func addrOf(id uint32) uint64 { return uint64(2*id+1) << 32 }

func idOf(addr uint64) (uint32, uint64, bool) {
	hi := uint32(addr >> 32)
	if hi&1 == 0 {
		return 0, 0, false
	}
	return hi >> 1, addr & 0xffffffff, true
}
