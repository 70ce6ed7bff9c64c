package main

// Execution of SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func floatBits(f float64, w uint16) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, name: fn.String(), idx: map[ssa.Value]int{}, first: map[*ssa.BasicBlock]int{}}
	if o := fn.Origin(); o != nil {
		fi.name = o.String()
	}
	fi.intr = intrinsics[fi.name]
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && fi.intr == nil {
		fi.intr = func(c *icall) {} // packages are initialised one by one
		fi.isInit = !ex.prog.skipFn(fn)
	}
	if fi.intr == nil {
		fi.skip = ex.prog.skipFn(fn)
	}
	if fi.isInit || fi.intr == nil && !fi.skip {
		for _, p := range fn.Params {
			fi.idx[p] = fi.n
			fi.n++
		}
		for _, b := range fn.Blocks {
			nphi := 0
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					nphi++
				}
				if v, ok := in.(ssa.Value); ok {
					fi.idx[v] = fi.n
					fi.n++
				}
			}
			fi.first[b] = nphi
		}
		fi.join = mergeJoins(fn)
	}
	ex.fns[fn] = fi
	return fi
}

// blocks ending in If whose two arms meet again quickly without calls
func mergeJoins(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	simple := func(b *ssa.BasicBlock) bool {
		if len(b.Instrs) > 40 {
			return false
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Jump, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field,
				*ssa.DebugRef, *ssa.Extract, *ssa.Index, *ssa.Slice, *ssa.If:
			case *ssa.Store:
				bt, ok := in.Val.Type().Underlying().(*types.Basic)
				if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 || bt.Kind() == types.Uintptr {
					return false
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	// walk the straight line from b up to 3 blocks; returns reachable set in order
	chain := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		var r []*ssa.BasicBlock
		for k := 0; k < 3; k++ {
			r = append(r, b)
			if !simple(b) || len(b.Succs) != 1 || hasPhi(b) {
				break
			}
			b = b.Succs[0]
		}
		return r
	}
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
			continue
		}
		a1, a2 := chain(b.Succs[0]), chain(b.Succs[1])
	search:
		for _, x := range a1 {
			for _, y := range a2 {
				if x == y && x != b && x.Dominates(b) == false {
					out[b] = x
					break search
				}
			}
		}
	}
	return out
}

func hasPhi(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, binds []Val, res ssa.Value) *Frame {
	if len(st.frames) > 400 {
		panic(memFault{"call depth limit (runaway recursion)"})
	}
	if ex.noFork > 0 {
		panic(abortMerge{"call"})
	}
	fi := ex.info(fn)
	if fi.skip || fn.Blocks == nil {
		panic(unsupported("call of %s", fi.name))
	}
	f := &Frame{owner: st.ftok, fi: fi, regs: make([]Val, fi.n), block: fn.Blocks[0], binds: binds, callInstr: res}
	copy(f.regs, args)
	st.frames = append(st.frames, f)
	fi.steps++
	return f
}

func (ex *Exec) get(st *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Global:
		a, ok := ex.globals[v]
		if !ok {
			panic(unsupported("global %s", v))
		}
		return sv(ex.c64(a))
	case *ssa.Function:
		return sv(ex.c64(ex.funcAddr(v)))
	case *ssa.FreeVar:
		for i, fv := range f.fi.fn.FreeVars {
			if fv == v {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		panic(unsupported("builtin value"))
	}
	i, ok := f.fi.idx[v]
	if !ok {
		panic(unsupported("unknown value %s in %s", v, f.fi.name))
	}
	return f.regs[i]
}

func (ex *Exec) set(f *Frame, v ssa.Value, x Val) {
	f.regs[f.fi.idx[v]] = x
}

// enter a block: evaluate the phis
func (ex *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	n := f.fi.first[to]
	if n > 0 {
		k := -1
		for i, p := range to.Preds {
			if p == from {
				k = i
				break
			}
		}
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = ex.get(st, f, to.Instrs[i].(*ssa.Phi).Edges[k])
		}
		for i := 0; i < n; i++ {
			ex.set(f, to.Instrs[i].(*ssa.Phi), tmp[i])
		}
	}
	f.prev = from
	f.block = to
	f.pc = n
}

// runs the state until the path ends; returns how it ended
func (ex *Exec) runState(st *State, stop int) (why string) {
	for {
		done, w := ex.runLoop(st, stop)
		if done {
			return w
		}
	}
}

func (ex *Exec) runLoop(st *State, stop int) (done bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				st.dec, st.decPos = st.dec[:0], 0
				if ex.noFork > 0 {
					panic(abortMerge{"panic"})
				}
				ex.raise(st, r)
				done = false
			case pathEnd:
				done, why = true, r.why
			case unsupErr:
				ex.res.Unsupp[r.msg+" @ "+ex.where(st)]++
				done, why = true, "unsupported"
			case memFault:
				if ex.noFork > 0 {
					panic(abortMerge{"fault"})
				}
				ex.finding(st, "memory", r.msg, nil)
				done, why = true, "memory fault"
			default:
				panic(r)
			}
		}
	}()
	for {
		if len(st.frames) <= stop {
			return true, "return"
		}
		f := st.top()
		in := f.block.Instrs[f.pc]
		st.decPos = 0
		st.steps++
		if st.steps&4095 == 0 && time.Now().After(ex.deadline) {
			ex.truncate("time limit")
			panic(pathEnd{"time"})
		}
		if st.steps > ex.maxSteps {
			ex.finding(st, "hang", fmt.Sprintf("no end after %d steps", ex.maxSteps), nil)
			panic(pathEnd{"steps"})
		}
		ex.res.Steps++
		ex.step(st, f, in)
		if len(st.dec) > 0 {
			st.dec = nil
		}
		st.decPos = 0
	}
}

// ---- panics ----

func (ex *Exec) ifaceOf(st *State, t types.Type, v Val) Val {
	ta := ex.c64(ex.typeAddr(t))
	if ex.ptrShaped(t) {
		return Val{xs: []*Expr{ta, v.leaves()[0]}}
	}
	ti := ex.lay.Info(t)
	a := ex.alloc(st, ti.size, "iface "+t.String())
	ex.store(st, ex.c64(a), ti, v)
	return Val{xs: []*Expr{ta, ex.c64(a)}}
}

func (ex *Exec) ptrShaped(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && ex.ptrShaped(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && ex.ptrShaped(u.Elem())
	}
	return false
}

func (ex *Exec) raise(st *State, p goPanic) {
	var v Val
	if p.val != nil {
		v = *p.val
	} else {
		v = ex.ifaceOf(st, ex.prog.errorStringType(), ex.strConst("runtime error: "+p.what))
	}
	rec := &PanicRec{val: v, what: p.what, pos: ex.where(st)}
	if ex.cfg.trace {
		fmt.Printf("PANIC %s at %s\n", p.what, rec.pos)
	}
	f := st.top()
	f.unwinding = true
	f.rec = rec
	ex.unwind(st)
}

// continue unwinding at the top frame, which is marked as such
func (ex *Exec) unwind(st *State) {
	for len(st.frames) > 0 {
		f := st.top()
		if len(f.defers) > 0 {
			ex.callDeferred(st, f)
			return
		}
		rec := f.rec
		if rec.recovered {
			f.unwinding = false
			f.rec = nil
			if f.fi.fn.Recover != nil {
				f.block = f.fi.fn.Recover
				f.prev = nil
				f.pc = 0
				return
			}
			res := f.fi.fn.Signature.Results()
			var out []Val
			for i := 0; i < res.Len(); i++ {
				out = append(out, ex.zero(ex.lay.Info(res.At(i).Type())))
			}
			ex.doReturn(st, f, out)
			return
		}
		deferCall := f.deferCall
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) == 0 {
			ex.finding(st, "panic", rec.what+" at "+rec.pos, nil)
			panic(pathEnd{"panic"})
		}
		nf := st.top()
		_ = deferCall // a panic inside a deferred call replaces the one being unwound
		nf.unwinding = true
		nf.rec = rec
	}
}

func (ex *Exec) callDeferred(st *State, f *Frame) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	if d.bi != nil {
		switch d.bi.Name() {
		case "delete", "clear", "print", "println", "copy":
		default:
			panic(unsupported("deferred builtin %s", d.bi.Name()))
		}
		ex.builtin(st, f, d.bi, d.instr.Common(), nil, d.args)
		if f.unwinding {
			ex.unwind(st)
		}
		return
	}
	if fi := ex.info(d.fn); fi.intr != nil {
		c := &icall{ex: ex, st: st, f: f, fn: d.fn, args: d.args, name: fi.name, discard: true}
		fi.intr(c)
		if f.unwinding {
			ex.unwind(st)
		}
		return
	}
	nf := ex.pushFrame(st, d.fn, d.args, d.binds, nil)
	nf.deferCall = true
	nf.discard = true
}

func (ex *Exec) doReturn(st *State, f *Frame, out []Val) {
	st.frames = st.frames[:len(st.frames)-1]
	if f.onReturn != nil {
		f.onReturn(ex, st, out)
		return
	}
	if len(st.frames) == 0 {
		return
	}
	c := st.top()
	if f.deferCall {
		if c.unwinding {
			ex.unwind(st)
		}
		return // RunDefers is executed again
	}
	if f.callInstr != nil && !f.discard {
		ex.setResult(c, f.callInstr, out)
	}
	c.pc++
}

func (ex *Exec) setResult(c *Frame, v ssa.Value, out []Val) {
	switch len(out) {
	case 0:
	case 1:
		ex.set(c, v, out[0])
	default:
		var xs []*Expr
		for _, o := range out {
			xs = append(xs, o.leaves()...)
		}
		ex.set(c, v, Val{xs: xs})
	}
}

// ---- instructions ----

func (ex *Exec) step(st *State, f *Frame, in ssa.Instruction) {
	b := ex.b
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		ti := ex.lay.Info(t)
		a := ex.typed(st, ex.alloc(st, ti.size, ex.siteOf(in)), ti)
		if in.Heap && ex.prog.counted(f.fi.fn) {
			ex.countAlloc(st, ex.c64(ti.size))
		}
		ex.set(f, in, sv(ex.c64(a)))
		f.pc++
	case *ssa.BinOp:
		x, y := ex.get(st, f, in.X), ex.get(st, f, in.Y)
		ex.set(f, in, ex.binop(st, in.Op, in.X.Type(), x, y, in.Y.Type()))
		f.pc++
	case *ssa.UnOp:
		x := ex.get(st, f, in.X)
		switch in.Op {
		case token.MUL:
			ex.set(f, in, ex.load(st, x.e, ex.lay.Info(in.Type())))
		case token.NOT:
			ex.set(f, in, sv(b.BNot(x.e)))
		case token.SUB:
			if isFloat(in.X.Type()) {
				ex.set(f, in, sv(floatNeg(ex, x.e)))
			} else {
				ex.set(f, in, sv(b.Sub(b.Const(0, x.e.w), x.e)))
			}
		case token.XOR:
			ex.set(f, in, sv(b.Not(x.e)))
		default:
			panic(unsupported("unop %s", in.Op))
		}
		f.pc++
	case *ssa.Call:
		ex.call(st, f, in.Common(), in)
	case *ssa.ChangeType:
		ex.set(f, in, ex.get(st, f, in.X))
		f.pc++
	case *ssa.ChangeInterface:
		ex.set(f, in, ex.get(st, f, in.X))
		f.pc++
	case *ssa.Convert:
		ex.set(f, in, ex.convert(st, in.X.Type(), in.Type(), ex.get(st, f, in.X)))
		f.pc++
	case *ssa.MultiConvert:
		ex.set(f, in, ex.convert(st, in.X.Type(), in.Type(), ex.get(st, f, in.X)))
		f.pc++
	case *ssa.SliceToArrayPointer:
		x := ex.get(st, f, in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if ex.decide(st, b.Slt(x.xs[1], ex.c64(uint64(n)))) {
			panic(goPanic{what: "cannot convert slice to array"})
		}
		ex.set(f, in, sv(x.xs[0]))
		f.pc++
	case *ssa.MakeInterface:
		ex.set(f, in, ex.ifaceOf(st, in.X.Type(), ex.get(st, f, in.X)))
		f.pc++
	case *ssa.MakeClosure:
		o := &Obj{owner: st.tok, kind: kClosure, fn: in.Fn.(*ssa.Function), size: 8, cb: make([]byte, 8), site: "closure " + in.Fn.String()}
		if ex.noFork > 0 {
			panic(abortMerge{"alloc"})
		}
		for _, bv := range in.Bindings {
			o.binds = append(o.binds, ex.get(st, f, bv))
		}
		ex.set(f, in, sv(ex.c64(addrOf(st.heap.add(st.tok, o)))))
		f.pc++
	case *ssa.MakeMap:
		if ex.noFork > 0 {
			panic(abortMerge{"alloc"})
		}
		o := &Obj{owner: st.tok, kind: kMap, site: ex.siteOf(in)}
		ex.set(f, in, sv(ex.c64(addrOf(st.heap.add(st.tok, o)))))
		f.pc++
	case *ssa.MakeSlice:
		t := in.Type().Underlying().(*types.Slice).Elem()
		n := ex.toInt(ex.get(st, f, in.Len), in.Len.Type())
		c := ex.toInt(ex.get(st, f, in.Cap), in.Cap.Type())
		ex.set(f, in, ex.makeSlice(st, t, n, c, ex.siteOf(in), ex.prog.counted(f.fi.fn)))
		f.pc++
	case *ssa.Slice:
		ex.set(f, in, ex.slice(st, f, in))
		f.pc++
	case *ssa.FieldAddr:
		x := ex.get(st, f, in.X)
		si := ex.lay.Info(in.X.Type().Underlying().(*types.Pointer).Elem())
		if x.e.isConst() && x.e.c < 4096 {
			panic(goPanic{what: "nil dereference"})
		}
		ex.set(f, in, sv(b.Add(x.e, ex.c64(si.foff[in.Field]))))
		f.pc++
	case *ssa.Field:
		x := ex.get(st, f, in.X)
		si := ex.lay.Info(in.X.Type())
		ex.set(f, in, si.field(x, in.Field, ex.lay.Info(in.Type())))
		f.pc++
	case *ssa.IndexAddr:
		x := ex.get(st, f, in.X)
		i := ex.toInt(ex.get(st, f, in.Index), in.Index.Type())
		var base, n *Expr
		var et types.Type
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			base, n, et = x.xs[0], x.xs[1], u.Elem()
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			base, n, et = x.e, ex.c64(uint64(at.Len())), at.Elem()
			if base.isConst() && base.c < 4096 {
				panic(goPanic{what: "nil dereference"})
			}
		default:
			panic(unsupported("IndexAddr on %s", in.X.Type()))
		}
		if !ex.decide(st, b.Ult(i, n)) {
			panic(goPanic{what: "index out of range"})
		}
		es := ex.lay.Info(et).size
		ex.set(f, in, sv(b.Add(base, b.Mul(i, ex.c64(es)))))
		f.pc++
	case *ssa.Index:
		x := ex.get(st, f, in.X)
		i := ex.toInt(ex.get(st, f, in.Index), in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			if !ex.decide(st, b.Ult(i, ex.c64(uint64(u.Len())))) {
				panic(goPanic{what: "index out of range"})
			}
			ei := ex.lay.Info(u.Elem())
			k := len(ei.leaves)
			if v, ok := ex.determined(st, i); ok {
				ex.set(f, in, ei.mkVal(x.xs[int(v)*k:int(v)*k+k]))
			} else {
				lo, hi := st.bounds(i, 0)
				hi = min(hi, uint64(u.Len()-1))
				out := make([]*Expr, k)
				for l := 0; l < k; l++ {
					e := x.xs[int(hi)*k+l]
					for j := int(hi) - 1; j >= int(lo); j-- {
						e = b.Ite(b.Eq(i, ex.c64(uint64(j))), x.xs[j*k+l], e)
					}
					out[l] = e
				}
				ex.set(f, in, ei.mkVal(out))
			}
		case *types.Basic: // string
			if !ex.decide(st, b.Ult(i, x.xs[1])) {
				panic(goPanic{what: "index out of range"})
			}
			ex.set(f, in, sv(ex.loadBytes(st, b.Add(x.xs[0], i), 1)[0]))
		default:
			panic(unsupported("Index on %s", in.X.Type()))
		}
		f.pc++
	case *ssa.Lookup:
		ex.lookup(st, f, in)
		f.pc++
	case *ssa.MapUpdate:
		m := ex.get(st, f, in.Map)
		k, v := ex.get(st, f, in.Key), ex.get(st, f, in.Value)
		ex.mapSet(st, m.e, in.Map.Type().Underlying().(*types.Map).Key(), k, v)
		f.pc++
	case *ssa.Range:
		ex.rangeInit(st, f, in)
		f.pc++
	case *ssa.Next:
		ex.rangeNext(st, f, in)
		f.pc++
	case *ssa.TypeAssert:
		ex.typeAssert(st, f, in)
		f.pc++
	case *ssa.Extract:
		x := ex.get(st, f, in.Tuple)
		ti := ex.lay.Info(in.Tuple.Type())
		ex.set(f, in, ti.field(x, in.Index, ex.lay.Info(in.Type())))
		f.pc++
	case *ssa.Store:
		ti := ex.lay.Info(in.Val.Type())
		ex.store(st, ex.get(st, f, in.Addr).e, ti, ex.get(st, f, in.Val))
		f.pc++
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := ex.get(st, f, in.Cond).e
		if !c.isConst() && len(st.dec) == 0 {
			if r, ok := ex.quick(st, c); ok {
				c = b.Bool(r)
			} else if j := f.fi.join[f.block]; j != nil && ex.mergeOn {
				if ex.tryMerge(st, c, j) {
					return
				}
			}
		}
		if ex.decide(st, c) {
			ex.jump(st, f, f.block.Succs[0])
		} else {
			ex.jump(st, f, f.block.Succs[1])
		}
	case *ssa.Return:
		var out []Val
		for _, r := range in.Results {
			out = append(out, ex.get(st, f, r))
		}
		ex.doReturn(st, f, out)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			ex.callDeferred(st, f)
		} else {
			f.pc++
		}
	case *ssa.Panic:
		v := ex.get(st, f, in.X)
		what := "panic"
		if a, ok := addrConst(v.xs[0]); ok && a != 0 {
			t := ex.typeAt(st, a)
			what = "panic(" + t.String() + ")"
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				if s, ok := ex.concreteString(st, ex.load(st, v.xs[1], ex.lay.Info(t))); ok {
					what = "panic: " + s
				}
			}
		}
		panic(goPanic{what: what, val: &v})
	case *ssa.Defer:
		d := deferred{instr: in}
		cc := in.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			d.bi = bi
			for _, a := range cc.Args {
				d.args = append(d.args, ex.get(st, f, a))
			}
		} else {
			d.fn, d.binds, d.args = ex.callee(st, f, cc)
		}
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.Phi:
		panic("phi reached")
	default:
		panic(unsupported("instruction %T", in))
	}
}

func (ex *Exec) siteOf(in ssa.Instruction) string {
	p := ex.prog.fset.Position(in.Pos())
	return fmt.Sprintf("%s %s:%d", in.Parent().Name(), shortFile(p.Filename), p.Line)
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// widen an integer to 64 bits
func (ex *Exec) toInt(v Val, t types.Type) *Expr {
	if v.e.w == 64 {
		return v.e
	}
	if isSigned(t) {
		return ex.b.SExt(v.e, 64)
	}
	return ex.b.ZExt(v.e, 64)
}

const maxAlloc = uint64(1) << 47

func (ex *Exec) makeSlice(st *State, t types.Type, n, c *Expr, site string, counted bool) Val {
	b := ex.b
	es := ex.lay.Info(t).size
	lim := maxAlloc
	if es > 0 {
		lim = maxAlloc / es
	}
	if !ex.decide(st, b.Ule(n, ex.c64(lim))) {
		panic(goPanic{what: "makeslice: len out of range"})
	}
	if n != c && !ex.decide(st, b.BAnd(b.Ule(c, ex.c64(lim)), b.Ule(n, c))) {
		panic(goPanic{what: "makeslice: cap out of range"})
	}
	if es == 0 {
		return Val{xs: []*Expr{ex.c64(ex.alloc(st, 0, site)), n, c}}
	}
	if st.bigSize {
		if !ex.choice(st, func() bool { _, hi := st.bounds(c, 0); return hi*es <= 4096 }) {
			if _, ok := ex.determined(st, c); !ok {
				if counted {
					ex.countAlloc(st, b.Mul(c, ex.c64(es)))
				}
				a := ex.typed(st, ex.allocSym(st, b.Mul(c, ex.c64(es)), site), ex.lay.Info(t))
				return Val{xs: []*Expr{ex.c64(a), n, c}}
			}
		}
	}
	cv := ex.concretize(st, c)
	nv := n
	if n == c {
		nv = ex.c64(cv)
	}
	if cv*es > 1<<31 && !st.bigSize {
		panic(unsupported("allocation of %d bytes", cv*es))
	}
	if counted {
		ex.countAlloc(st, ex.c64(cv*es))
	}
	a := ex.typed(st, ex.alloc(st, cv*es, site), ex.lay.Info(t))
	return Val{xs: []*Expr{ex.c64(a), nv, ex.c64(cv)}}
}

func (ex *Exec) slice(st *State, f *Frame, in *ssa.Slice) Val {
	b := ex.b
	x := ex.get(st, f, in.X)
	opt := func(v ssa.Value) *Expr {
		if v == nil {
			return nil
		}
		return ex.toInt(ex.get(st, f, v), v.Type())
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = ex.c64(0)
	}
	var base, ln, cp *Expr
	var es uint64
	str := false
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		base, ln, cp = x.xs[0], x.xs[1], x.xs[2]
		es = ex.lay.Info(u.Elem()).size
	case *types.Basic:
		base, ln, cp = x.xs[0], x.xs[1], x.xs[1]
		es = 1
		str = true
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		base, ln = x.e, ex.c64(uint64(at.Len()))
		cp = ln
		es = ex.lay.Info(at.Elem()).size
		if base.isConst() && base.c < 4096 {
			panic(goPanic{what: "nil dereference"})
		}
	default:
		panic(unsupported("slice of %s", in.X.Type()))
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if mx != nil {
		lim = mx
	}
	ok := b.BAnd(b.Ule(lo, hi), b.Ule(hi, lim))
	if mx != nil {
		ok = b.BAnd(ok, b.Ule(mx, cp))
	}
	if !ex.decide(st, ok) {
		panic(goPanic{what: "slice bounds out of range"})
	}
	n := b.Sub(hi, lo)
	c := b.Sub(lim, lo)
	off := b.Mul(lo, ex.c64(es))
	// Go keeps the base pointer when nothing is left (avoids pointing past the end)
	var p *Expr
	if str {
		p = b.Ite(b.Eq(n, ex.c64(0)), base, b.Add(base, off))
		return Val{xs: []*Expr{p, n}}
	}
	if c.isConst() {
		if c.c == 0 {
			p = base
		} else {
			p = b.Add(base, off)
		}
	} else if off.isConst() && off.c == 0 {
		p = base
	} else if r, ok := ex.quick(st, b.Eq(c, ex.c64(0))); ok {
		p = b.Add(base, off)
		if r {
			p = base
		}
	} else {
		p = b.Ite(b.Eq(c, ex.c64(0)), base, b.Add(base, off))
	}
	return Val{xs: []*Expr{p, n, c}}
}

func (ex *Exec) concreteString(st *State, v Val) (string, bool) {
	n, ok := st.pe(v.xs[1], 0)
	if !ok || n > 1<<16 {
		return "", false
	}
	if n == 0 {
		return "", true
	}
	bs := ex.loadBytes(st, v.xs[0], n)
	out := make([]byte, n)
	for i, e := range bs {
		x, ok := st.pe(e, 0)
		if !ok {
			return "", false
		}
		out[i] = byte(x)
	}
	return string(out), true
}

// ---- operators ----

func (ex *Exec) binop(st *State, op token.Token, t types.Type, x, y Val, yt types.Type) Val {
	x, y = ex.pinned(st, x), ex.pinned(st, y)
	r := ex.binop1(st, op, t, x, y, yt)
	if e := r.e; e != nil && !e.isConst() && e.w > 1 && e.w <= 64 && len(st.eqs) > 0 {
		if v, ok := st.pe(e, 0); ok {
			r.e = ex.b.Const(v, e.w)
		}
	}
	return r
}

// pinned replaces a value that the path determines by a constant.
func (ex *Exec) pinned(st *State, v Val) Val {
	if e := v.e; e != nil && !e.isConst() && e.w > 1 && e.w <= 64 {
		if c, ok := ex.determined(st, e); ok {
			v.e = ex.b.Const(c, e.w)
		}
	}
	return v
}

func (ex *Exec) binop1(st *State, op token.Token, t types.Type, x, y Val, yt types.Type) Val {
	b := ex.b
	switch op {
	case token.EQL:
		return sv(ex.eqVal(st, t, x, y))
	case token.NEQ:
		return sv(b.BNot(ex.eqVal(st, t, x, y)))
	}
	if isFloat(t) {
		return ex.floatOp(op, t, x, y)
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return ex.strOp(st, op, x, y)
	}
	if x.e == nil {
		panic(unsupported("binop %s on %s", op, t))
	}
	sg := isSigned(t)
	X, Y := x.e, y.e
	switch op {
	case token.ADD:
		return sv(b.Add(X, Y))
	case token.SUB:
		return sv(b.Sub(X, Y))
	case token.MUL:
		return sv(b.Mul(X, Y))
	case token.QUO, token.REM:
		if ex.decide(st, b.Eq(Y, b.Const(0, Y.w))) {
			panic(goPanic{what: "integer divide by zero"})
		}
		if !X.isConst() && !Y.isConst() {
			// a symbolic divisor is hard for the solvers
			if v, ok := ex.determined(st, Y); ok {
				Y = b.Const(v, Y.w)
			} else if lo, hi := st.bounds(Y, 0); hi-lo < 256 {
				Y = b.Const(ex.concretize(st, Y), Y.w)
			}
		}
		switch {
		case sg && op == token.QUO:
			return sv(b.SDiv(X, Y))
		case sg:
			return sv(b.SRem(X, Y))
		case op == token.QUO:
			return sv(b.UDiv(X, Y))
		default:
			return sv(b.URem(X, Y))
		}
	case token.AND:
		return sv(b.And(X, Y))
	case token.OR:
		return sv(b.Or(X, Y))
	case token.XOR:
		return sv(b.Xor(X, Y))
	case token.AND_NOT:
		return sv(b.And(X, b.Not(Y)))
	case token.SHL, token.SHR:
		if isSigned(yt) && ex.decide(st, b.Slt(Y, b.Const(0, Y.w))) {
			panic(goPanic{what: "negative shift amount"})
		}
		w := X.w
		big := b.fls
		s := Y
		if Y.w > w {
			big = b.BNot(b.Ult(Y, b.Const(uint64(w), Y.w)))
			s = b.Extract(Y, 0, w)
		} else if Y.w < w {
			s = b.ZExt(Y, w)
		}
		var r, over *Expr
		over = b.Const(0, w)
		switch {
		case op == token.SHL:
			r = b.Shl(X, s)
		case sg:
			r = b.AShr(X, s)
			over = b.AShr(X, b.Const(uint64(w-1), w))
		default:
			r = b.LShr(X, s)
		}
		return sv(b.Ite(big, over, r))
	case token.LSS:
		if sg {
			return sv(b.Slt(X, Y))
		}
		return sv(b.Ult(X, Y))
	case token.GTR:
		if sg {
			return sv(b.Slt(Y, X))
		}
		return sv(b.Ult(Y, X))
	case token.LEQ:
		if sg {
			return sv(b.Sle(X, Y))
		}
		return sv(b.Ule(X, Y))
	case token.GEQ:
		if sg {
			return sv(b.Sle(Y, X))
		}
		return sv(b.Ule(Y, X))
	}
	panic(unsupported("binop %s", op))
}

func floatNeg(ex *Exec, e *Expr) *Expr {
	if !e.isConst() {
		panic(unsupported("symbolic float"))
	}
	if e.w == 32 {
		return ex.b.Const(uint64(math.Float32bits(-math.Float32frombits(uint32(e.c)))), 32)
	}
	return ex.b.Const(math.Float64bits(-math.Float64frombits(e.c)), 64)
}

func (ex *Exec) floatOp(op token.Token, t types.Type, x, y Val) Val {
	if x.e == nil || !x.e.isConst() || !y.e.isConst() {
		panic(unsupported("symbolic float"))
	}
	fl := func(e *Expr) float64 {
		if e.w == 32 {
			return float64(math.Float32frombits(uint32(e.c)))
		}
		return math.Float64frombits(e.c)
	}
	a, c := fl(x.e), fl(y.e)
	mk := func(f float64) Val { return sv(ex.b.Const(floatBits(f, x.e.w), x.e.w)) }
	switch op {
	case token.ADD:
		return mk(a + c)
	case token.SUB:
		return mk(a - c)
	case token.MUL:
		return mk(a * c)
	case token.QUO:
		return mk(a / c)
	case token.LSS:
		return sv(ex.b.Bool(a < c))
	case token.GTR:
		return sv(ex.b.Bool(a > c))
	case token.LEQ:
		return sv(ex.b.Bool(a <= c))
	case token.GEQ:
		return sv(ex.b.Bool(a >= c))
	}
	panic(unsupported("float op %s", op))
}

func (ex *Exec) strOp(st *State, op token.Token, x, y Val) Val {
	switch op {
	case token.ADD:
		nx, ny := ex.concretize(st, x.xs[1]), ex.concretize(st, y.xs[1])
		if nx == 0 {
			return y
		}
		if ny == 0 {
			return x
		}
		bs := append(append([]*Expr{}, ex.loadBytes(st, x.xs[0], nx)...), ex.loadBytes(st, y.xs[0], ny)...)
		return ex.newString(st, bs)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		a, ok1 := ex.concreteString(st, x)
		c, ok2 := ex.concreteString(st, y)
		if !ok1 || !ok2 {
			panic(unsupported("ordering of symbolic strings"))
		}
		r := map[token.Token]bool{token.LSS: a < c, token.GTR: a > c, token.LEQ: a <= c, token.GEQ: a >= c}[op]
		return sv(ex.b.Bool(r))
	}
	panic(unsupported("string op %s", op))
}

func (ex *Exec) newString(st *State, bs []*Expr) Val {
	if len(bs) == 0 {
		return ex.strConst("")
	}
	a := ex.alloc(st, uint64(len(bs)), "string")
	ex.storeBytes(st, ex.c64(a), bs)
	return Val{xs: []*Expr{ex.c64(a), ex.c64(uint64(len(bs)))}}
}

func (ex *Exec) eqVal(st *State, t types.Type, x, y Val) *Expr {
	b := ex.b
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ex.strEq(st, x, y)
		}
		if isFloat(t) {
			if x.e != nil && x.e.isConst() && y.e.isConst() {
				return b.Bool(math.Float64frombits(x.e.c) == math.Float64frombits(y.e.c))
			}
			panic(unsupported("float equality"))
		}
		return b.Eq(x.e, y.e)
	case *types.Interface:
		// nil comparisons
		if y.xs[0].isConst() && y.xs[0].c == 0 {
			return b.Eq(x.xs[0], y.xs[0])
		}
		if x.xs[0].isConst() && x.xs[0].c == 0 {
			return b.Eq(x.xs[0], y.xs[0])
		}
		tx, ty := ex.concretize(st, x.xs[0]), ex.concretize(st, y.xs[0])
		if tx != ty {
			return b.fls
		}
		if tx == 0 {
			return b.tru
		}
		dt := ex.typeAt(st, tx)
		if ex.ptrShaped(dt) {
			return b.Eq(x.xs[1], y.xs[1])
		}
		if !types.Comparable(dt) {
			panic(goPanic{what: "comparing uncomparable type " + dt.String()})
		}
		ti := ex.lay.Info(dt)
		return ex.eqVal(st, dt, ex.load(st, x.xs[1], ti), ex.load(st, y.xs[1], ti))
	case *types.Struct:
		ti := ex.lay.Info(t)
		r := b.tru
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			ft := u.Field(i).Type()
			fi := ex.lay.Info(ft)
			r = b.BAnd(r, ex.eqVal(st, ft, ti.field(x, i, fi), ti.field(y, i, fi)))
		}
		return r
	case *types.Array:
		ei := ex.lay.Info(u.Elem())
		k := len(ei.leaves)
		r := b.tru
		for i := 0; i < int(u.Len()); i++ {
			r = b.BAnd(r, ex.eqVal(st, u.Elem(), ei.mkVal(x.leaves()[i*k:i*k+k]), ei.mkVal(y.leaves()[i*k:i*k+k])))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return b.Eq(x.leaves()[0], y.leaves()[0])
	case *types.Pointer, *types.Chan:
		return b.Eq(x.e, y.e)
	}
	panic(unsupported("equality on %s", t))
}

func (ex *Exec) strEq(st *State, x, y Val) *Expr {
	b := ex.b
	le := b.Eq(x.xs[1], y.xs[1])
	if le.isFalse() {
		return le
	}
	if x.xs[0] == y.xs[0] && x.xs[1] == y.xs[1] {
		return b.tru
	}
	nx := ex.concretize(st, x.xs[1])
	ny := ex.concretize(st, y.xs[1])
	if nx != ny {
		return b.fls
	}
	p, q := ex.loadBytes(st, x.xs[0], nx), ex.loadBytes(st, y.xs[0], nx)
	r := b.tru
	for i := range p {
		r = b.BAnd(r, b.Eq(p[i], q[i]))
	}
	return r
}

func (ex *Exec) convert(st *State, from, to types.Type, x Val) Val {
	b := ex.b
	fu, tu := from.Underlying(), to.Underlying()
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	switch {
	case tIsB && tb.Info()&types.IsString != 0:
		if fIsB && fb.Info()&types.IsString != 0 {
			return x
		}
		if s, ok := fu.(*types.Slice); ok {
			if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				n := ex.concretize(st, x.xs[1])
				return ex.newString(st, ex.loadBytes(st, x.xs[0], n))
			}
		}
		if fIsB && fb.Info()&types.IsInteger != 0 && x.e.isConst() {
			return ex.strConst(string(rune(sx(x.e.c, x.e.w))))
		}
		panic(unsupported("conversion %s to string", from))
	case fIsB && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok {
			if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				n := ex.concretize(st, x.xs[1])
				bs := ex.loadBytes(st, x.xs[0], n)
				a := ex.alloc(st, n, "[]byte(string)")
				ex.storeBytes(st, ex.c64(a), bs)
				return Val{xs: []*Expr{ex.c64(a), ex.c64(n), ex.c64(n)}}
			}
		}
		panic(unsupported("conversion string to %s", to))
	}
	ti := ex.lay.Info(to)
	if isFloat(to) || isFloat(from) {
		if x.e == nil {
			panic(unsupported("float conversion"))
		}
		if !x.e.isConst() {
			x.e = b.Const(ex.someValues(st, x.e, "conversion to floating point"), x.e.w)
		}
		var v float64
		if isFloat(from) {
			if x.e.w == 32 {
				v = float64(math.Float32frombits(uint32(x.e.c)))
			} else {
				v = math.Float64frombits(x.e.c)
			}
			if !isFloat(to) {
				return sv(b.Const(uint64(int64(v)), ti.leaves[0].w))
			}
		} else if isSigned(from) {
			v = float64(sx(x.e.c, x.e.w))
		} else {
			v = float64(x.e.c)
		}
		return sv(b.Const(floatBits(v, ti.leaves[0].w), ti.leaves[0].w))
	}
	if x.e == nil || !ti.scalar {
		if len(x.leaves()) == len(ti.leaves) {
			return x
		}
		panic(unsupported("conversion %s to %s", from, to))
	}
	w := ti.leaves[0].w
	switch {
	case w == x.e.w:
		return x
	case w < x.e.w:
		return sv(b.Extract(x.e, 0, w))
	case isSigned(from):
		return sv(b.SExt(x.e, w))
	default:
		return sv(b.ZExt(x.e, w))
	}
}

// ---- maps ----

func (ex *Exec) mapObj(st *State, m *Expr) (*Obj, uint64) {
	a := ex.concretize(st, m)
	if a == 0 {
		return nil, 0
	}
	o, _ := ex.objAt(st, a)
	if o == nil || o.kind != kMap {
		panic(unsupported("not a map"))
	}
	return o, a
}

func (ex *Exec) mapFind(st *State, o *Obj, kt types.Type, k Val) int {
	for i := range o.m {
		if ex.decide(st, ex.eqVal(st, kt, o.m[i].k, k)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapSet(st *State, m *Expr, kt types.Type, k, v Val) {
	o, a := ex.mapObj(st, m)
	if o == nil {
		panic(goPanic{what: "assignment to entry in nil map"})
	}
	i := ex.mapFind(st, o, kt, k)
	ex.noteWrite(st, place{a, o, nil})
	o = ex.owned(st, a)
	if i >= 0 {
		o.m[i].v = v
	} else {
		o.m = append(o.m, MapEnt{k, v})
	}
}

func (ex *Exec) lookup(st *State, f *Frame, in *ssa.Lookup) {
	x := ex.get(st, f, in.X)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		i := ex.toInt(ex.get(st, f, in.Index), in.Index.Type())
		if !ex.decide(st, ex.b.Ult(i, x.xs[1])) {
			panic(goPanic{what: "index out of range"})
		}
		ex.set(f, in, sv(ex.loadBytes(st, ex.b.Add(x.xs[0], i), 1)[0]))
		return
	}
	o, _ := ex.mapObj(st, x.e)
	k := ex.get(st, f, in.Index)
	var v Val
	found := false
	if o != nil {
		if i := ex.mapFind(st, o, mt.Key(), k); i >= 0 {
			v, found = o.m[i].v, true
		}
	}
	if !found {
		v = ex.zero(ex.lay.Info(mt.Elem()))
	}
	if in.CommaOk {
		xs := append(append([]*Expr{}, v.leaves()...), ex.b.Bool(found))
		v = Val{xs: xs}
	}
	ex.set(f, in, v)
}

// iterators are map objects: ents = remaining (strings: one entry with position)
func (ex *Exec) rangeInit(st *State, f *Frame, in *ssa.Range) {
	x := ex.get(st, f, in.X)
	o := &Obj{owner: st.tok, kind: kMap, site: "iterator"}
	if _, ok := in.X.Type().Underlying().(*types.Map); ok {
		if mo, _ := ex.mapObj(st, x.e); mo != nil {
			o.m = append([]MapEnt(nil), mo.m...)
		}
	} else {
		s, ok := ex.concreteString(st, x)
		if !ok {
			panic(unsupported("range over a symbolic string"))
		}
		for i, r := range s {
			o.m = append(o.m, MapEnt{sv(ex.c64(uint64(i))), sv(ex.b.Const(uint64(r), 32))})
		}
	}
	ex.set(f, in, sv(ex.c64(addrOf(st.heap.add(st.tok, o)))))
}

func (ex *Exec) rangeNext(st *State, f *Frame, in *ssa.Next) {
	it := ex.get(st, f, in.Iter)
	o := ex.owned(st, it.e.c)
	tup := in.Type().(*types.Tuple)
	if len(o.m) == 0 {
		xs := []*Expr{ex.b.fls}
		for i := 1; i < 3; i++ {
			xs = append(xs, ex.zero(ex.lay.Info(tup.At(i).Type())).leaves()...)
		}
		ex.set(f, in, Val{xs: xs})
		return
	}
	e := o.m[0]
	o.m = o.m[1:]
	xs := []*Expr{ex.b.tru}
	for i, v := range []Val{e.k, e.v} {
		if b, ok := tup.At(i + 1).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}
		xs = append(xs, v.leaves()...)
	}
	ex.set(f, in, Val{xs: xs})
}

// ---- interfaces ----

func (ex *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) {
	x := ex.get(st, f, in.X)
	ta := ex.concretize(st, x.xs[0])
	ok := false
	var v Val
	ti := ex.lay.Info(in.AssertedType)
	if ta != 0 {
		dt := ex.typeAt(st, ta)
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(dt, it) {
				ok, v = true, x
			}
		} else if types.Identical(dt, in.AssertedType) {
			ok = true
			v = ex.unbox(st, dt, x)
		}
	}
	if !ok {
		if !in.CommaOk {
			panic(goPanic{what: "interface conversion to " + in.AssertedType.String()})
		}
		v = ex.zero(ti)
	}
	if in.CommaOk {
		v = Val{xs: append(append([]*Expr{}, v.leaves()...), ex.b.Bool(ok))}
	}
	ex.set(f, in, v)
}

func (ex *Exec) unbox(st *State, dt types.Type, x Val) Val {
	ti := ex.lay.Info(dt)
	if ex.ptrShaped(dt) {
		return ti.mkVal([]*Expr{x.xs[1]})
	}
	return ex.load(st, x.xs[1], ti)
}

// ---- calls ----

func (ex *Exec) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := fmt.Sprintf("%d.%s", ex.typeAddr(t), name)
	if fn, ok := ex.msc[key]; ok {
		return fn
	}
	ex.prog.mu.Lock()
	defer ex.prog.mu.Unlock()
	sel := ex.prog.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		panic(unsupported("method %s of %s", name, t))
	}
	fn := ex.prog.prog.MethodValue(sel)
	ex.msc[key] = fn
	return fn
}

func (ex *Exec) callee(st *State, f *Frame, cc *ssa.CallCommon) (*ssa.Function, []Val, []Val) {
	var args []Val
	if cc.IsInvoke() {
		x := ex.get(st, f, cc.Value)
		ta := ex.concretize(st, x.xs[0])
		if ta == 0 {
			panic(goPanic{what: "nil dereference"})
		}
		dt := ex.typeAt(st, ta)
		fn := ex.method(dt, cc.Method.Pkg(), cc.Method.Name())
		args = append(args, ex.unbox(st, dt, x))
		for _, a := range cc.Args {
			args = append(args, ex.get(st, f, a))
		}
		return fn, nil, args
	}
	for _, a := range cc.Args {
		args = append(args, ex.get(st, f, a))
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return fn, nil, args
	}
	fv := ex.get(st, f, cc.Value)
	fn, binds := ex.funcOf(st, fv.e)
	return fn, binds, args
}

func (ex *Exec) funcOf(st *State, e *Expr) (*ssa.Function, []Val) {
	a := ex.concretize(st, e)
	if a == 0 {
		panic(goPanic{what: "nil dereference"})
	}
	o, off := ex.objAt(st, a)
	if o == nil || o.kind != kClosure || off != 0 {
		panic(memFault{"call through a value that is not a function"})
	}
	return o.fn, o.binds
}

func (ex *Exec) call(st *State, f *Frame, cc *ssa.CallCommon, in *ssa.Call) {
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		ex.builtin(st, f, bi, cc, in, nil)
		return
	}
	fn, binds, args := ex.callee(st, f, cc)
	fi := ex.info(fn)
	if fi.intr != nil {
		c := &icall{ex: ex, st: st, f: f, fn: fn, args: args, in: in, name: fi.name}
		fi.intr(c)
		if !c.pushed {
			if in != nil && len(c.out) > 0 {
				ex.setResult(f, in, c.out)
			}
			f.pc++
		}
		return
	}
	ex.pushFrame(st, fn, args, binds, in)
}

func (ex *Exec) builtin(st *State, f *Frame, bi *ssa.Builtin, cc *ssa.CallCommon, in *ssa.Call, args []Val) {
	b := ex.b
	arg := func(i int) Val {
		if args != nil {
			return args[i]
		}
		return ex.get(st, f, cc.Args[i])
	}
	switch bi.Name() {
	case "len":
		x := arg(0)
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice, *types.Basic:
			ex.set(f, in, sv(x.xs[1]))
		case *types.Map:
			o, _ := ex.mapObj(st, x.e)
			n := 0
			if o != nil {
				n = len(o.m)
			}
			ex.set(f, in, sv(ex.c64(uint64(n))))
		case *types.Array:
			ex.set(f, in, sv(ex.c64(uint64(u.Len()))))
		case *types.Pointer:
			ex.set(f, in, sv(ex.c64(uint64(u.Elem().Underlying().(*types.Array).Len()))))
		default:
			panic(unsupported("len of %s", u))
		}
	case "cap":
		x := arg(0)
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			ex.set(f, in, sv(x.xs[2]))
		case *types.Array:
			ex.set(f, in, sv(ex.c64(uint64(u.Len()))))
		case *types.Pointer:
			ex.set(f, in, sv(ex.c64(uint64(u.Elem().Underlying().(*types.Array).Len()))))
		default:
			panic(unsupported("cap of %s", u))
		}
	case "append":
		ex.set(f, in, ex.append_(st, f, in.Type(), arg(0), cc.Args[1].Type(), arg(1)))
	case "copy":
		d, s := arg(0), arg(1)
		es := uint64(1)
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			es = ex.lay.Info(sl.Elem()).size
		}
		n := b.Ite(b.Ult(s.xs[1], d.xs[1]), s.xs[1], d.xs[1])
		if st.bigSize && !ex.choice(st, func() bool {
			_, hi := st.bounds(s.xs[1], 0)
			_, hj := st.bounds(d.xs[1], 0)
			_, hn := st.bounds(n, 0)
			return min(hi, hj, hn) <= 4096
		}) {
			if _, ok := ex.determined(st, n); !ok {
				panic(unsupported("copy of a symbolic number of bytes"))
			}
		}
		nv := ex.concretize(st, n)
		if nv*es > 1<<20 {
			panic(unsupported("copy of %d bytes", nv*es))
		}
		if nv > 0 {
			bs := ex.loadBytes(st, s.xs[0], nv*es)
			ex.storeBytes(st, d.xs[0], bs)
		}
		if in != nil {
			ex.set(f, in, sv(ex.c64(nv)))
		}
	case "print", "println":
	case "delete":
		m := arg(0)
		o, a := ex.mapObj(st, m.e)
		if o != nil {
			if i := ex.mapFind(st, o, cc.Args[0].Type().Underlying().(*types.Map).Key(), arg(1)); i >= 0 {
				ex.noteWrite(st, place{a, o, nil})
				o = ex.owned(st, a)
				o.m = append(append([]MapEnt{}, o.m[:i]...), o.m[i+1:]...)
			}
		}
	case "recover":
		v := Val{xs: []*Expr{ex.c64(0), ex.c64(0)}}
		if f.deferCall && len(st.frames) >= 2 {
			c := st.frames[len(st.frames)-2]
			if c.unwinding && c.rec != nil && !c.rec.recovered {
				v = c.rec.val
				st.frames = append(st.frames[:len(st.frames)-2:len(st.frames)-2], func() *Frame {
					nc := *c
					nc.owner = st.ftok
					nr := *c.rec
					nr.recovered = true
					nc.rec = &nr
					nc.regs = append([]Val(nil), c.regs...)
					return &nc
				}(), f)
			}
		}
		ex.set(f, in, v)
	case "min", "max":
		v := arg(0)
		t := cc.Args[0].Type()
		for i := 1; i < len(cc.Args); i++ {
			y := arg(i)
			op := token.LSS
			if bi.Name() == "max" {
				op = token.GTR
			}
			c := ex.binop(st, op, t, y, v, t)
			if v.e == nil {
				if ex.decide(st, c.e) {
					v = y
				}
			} else {
				v = sv(b.Ite(c.e, y.e, v.e))
			}
		}
		ex.set(f, in, v)
	case "clear":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if o, a := ex.mapObj(st, arg(0).e); o != nil {
				ex.noteWrite(st, place{a, o, nil})
				ex.owned(st, a).m = nil
			}
		case *types.Slice:
			x := arg(0)
			n := ex.concretize(st, x.xs[1]) * ex.lay.Info(u.Elem()).size
			z := make([]*Expr, n)
			for i := range z {
				z[i] = b.bytes[0]
			}
			ex.storeBytes(st, x.xs[0], z)
		}
	case "ssa:wrapnilchk":
		x := arg(0)
		if ex.decide(st, b.Eq(x.e, ex.c64(0))) {
			panic(goPanic{what: "nil dereference (value method called through nil pointer)"})
		}
		ex.set(f, in, x)
	case "Sizeof":
		ex.set(f, in, sv(ex.c64(ex.lay.Info(cc.Args[0].Type()).size)))
	case "Add": // unsafe.Add
		ex.set(f, in, sv(b.Add(arg(0).e, ex.toInt(arg(1), cc.Args[1].Type()))))
	case "Slice", "String":
		p, n := arg(0), ex.toInt(arg(1), cc.Args[1].Type())
		if ex.decide(st, b.Slt(n, ex.c64(0))) {
			panic(goPanic{what: "unsafe.Slice: len out of range"})
		}
		if bi.Name() == "Slice" {
			ex.set(f, in, Val{xs: []*Expr{p.e, n, n}})
		} else {
			ex.set(f, in, Val{xs: []*Expr{p.e, n}})
		}
	case "SliceData", "StringData":
		ex.set(f, in, sv(arg(0).xs[0]))
	default:
		panic(unsupported("builtin %s", bi.Name()))
	}
	f.pc++
}

func (ex *Exec) append_(st *State, f *Frame, t types.Type, s Val, at types.Type, a Val) Val {
	b := ex.b
	ei := ex.lay.Info(t.Underlying().(*types.Slice).Elem())
	n := ex.concretize(st, a.xs[1])
	if n == 0 {
		return s
	}
	l := ex.concretize(st, s.xs[1])
	c, known := ex.determined(st, s.xs[2])
	if !known {
		if ex.decide(st, b.Ule(ex.c64(l+n), s.xs[2])) {
			bs := ex.loadBytes(st, a.xs[0], n*ei.size)
			ex.storeBytes(st, b.Add(s.xs[0], ex.c64(l*ei.size)), bs)
			return Val{xs: []*Expr{s.xs[0], ex.c64(l + n), s.xs[2]}}
		}
		c = ex.concretize(st, s.xs[2])
	}
	bs := ex.loadBytes(st, a.xs[0], n*ei.size)
	if l+n <= c {
		ex.storeBytes(st, b.Add(s.xs[0], ex.c64(l*ei.size)), bs)
		return Val{xs: []*Expr{s.xs[0], ex.c64(l + n), s.xs[2]}}
	}
	nc := growCap(l+n, c, ei.size)
	var old []*Expr
	if l > 0 {
		old = ex.loadBytes(st, s.xs[0], l*ei.size)
	}
	p := ex.typed(st, ex.alloc(st, nc*ei.size, "append in "+f.fi.name), ei)
	if ex.prog.counted(f.fi.fn) {
		ex.countAlloc(st, ex.c64(nc*ei.size))
	}
	ex.storeBytes(st, ex.c64(p), old)
	ex.storeBytes(st, ex.c64(p+l*ei.size), bs)
	return Val{xs: []*Expr{ex.c64(p), ex.c64(l + n), ex.c64(nc)}}
}

func growCap(need, old, es uint64) uint64 {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 768) / 4
		}
	}
	if es == 0 {
		return need
	}
	// size classes (small part of the runtime's table)
	classes := []uint64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096}
	sz := nc * es
	for _, c := range classes {
		if sz <= c {
			return c / es
		}
	}
	return (sz + 4095) / 4096 * 4096 / es
}

// ---- merging of two-armed branches ----

func (ex *Exec) tryMerge(st *State, c *Expr, join *ssa.BasicBlock) (ok bool) {
	saveHeapN := st.heap.n
	base := st.clone()
	arm := func(s *State, cond *Expr, succ int) (res bool) {
		defer func() {
			ex.noFork--
			if r := recover(); r != nil {
				if _, is := r.(abortMerge); is {
					res = false
					return
				}
				panic(r)
			}
		}()
		ex.noFork++
		s.learn(ex.b, cond)
		f := s.top()
		depth := len(s.frames)
		ex.jump(s, f, f.block.Succs[succ])
		for n := 0; f.block != join; n++ {
			if n > 120 {
				return false
			}
			s.dec, s.decPos = nil, 0
			ex.mstep(s, f, f.block.Instrs[f.pc])
			if len(s.frames) != depth {
				return false
			}
			f = s.top()
		}
		s.dec, s.decPos = nil, 0
		return true
	}
	s1, s2 := base.clone(), base.clone()
	if !arm(s1, c, 0) || !arm(s2, ex.b.BNot(c), 1) {
		return false
	}
	if s1.heap.n != saveHeapN || s2.heap.n != saveHeapN {
		return false
	}
	// registers of the top frame
	f1, f2 := s1.top(), s2.top()
	regs := make([]Val, len(f1.regs))
	mergeVal := func(a, b Val, lfs []Leaf) (Val, bool) {
		if a.e != nil && b.e != nil {
			if a.e == b.e {
				return a, true
			}
			if a.e.w != b.e.w || lfs != nil && lfs[0].ptr {
				return Val{}, false
			}
			return Val{e: ex.b.Ite(c, a.e, b.e)}, true
		}
		if a.e != nil || b.e != nil || len(a.xs) != len(b.xs) {
			return Val{}, false
		}
		xs := make([]*Expr, len(a.xs))
		for i := range xs {
			if a.xs[i] == b.xs[i] {
				xs[i] = a.xs[i]
				continue
			}
			if a.xs[i].w != b.xs[i].w || lfs == nil || lfs[i].ptr {
				return Val{}, false
			}
			xs[i] = ex.b.Ite(c, a.xs[i], b.xs[i])
		}
		return Val{xs: xs}, true
	}
	bf := base.top()
	// registers that are live: those defined before the branch (same) and the phis of the join
	nphi := f1.fi.first[join]
	for i := range regs {
		regs[i] = bf.regs[i]
	}
	for i := 0; i < nphi; i++ {
		p := join.Instrs[i].(*ssa.Phi)
		k := f1.fi.idx[p]
		lfs := ex.lay.Info(p.Type()).leaves
		switch p.Type().Underlying().(type) {
		case *types.Slice, *types.Interface, *types.Pointer, *types.Signature, *types.Map:
			if !sameVal(f1.regs[k], f2.regs[k]) {
				return false
			}
		case *types.Basic:
			if p.Type().Underlying().(*types.Basic).Info()&types.IsString != 0 && !sameVal(f1.regs[k], f2.regs[k]) {
				return false
			}
		}
		v, good := mergeVal(f1.regs[k], f2.regs[k], lfs)
		if !good {
			return false
		}
		regs[k] = v
	}
	// memory
	type upd struct {
		id uint32
		o  *Obj
	}
	var ups []upd
	for pi := range s1.heap.pages {
		p0, p1, p2 := base.heap.pages[pi], s1.heap.pages[pi], s2.heap.pages[pi]
		if p1 == p0 && p2 == p0 {
			continue
		}
		for k := 0; k < pageSize; k++ {
			o1, o2 := p1.o[k], p2.o[k]
			if o1 == o2 {
				continue
			}
			if o1 == nil || o2 == nil || o1.symSize != nil || o1.kind != kData || len(o1.cb) != len(o2.cb) {
				return false
			}
			n := o1.clone(nil)
			for i := range o1.cb {
				x, y := o1.get(ex.b, uint64(i)), o2.get(ex.b, uint64(i))
				if x != y {
					n.set(uint64(i), ex.b.Ite(c, x, y))
				}
			}
			ups = append(ups, upd{uint32(pi*pageSize + k), n})
		}
	}
	for _, u := range ups {
		u.o.owner = st.tok
		st.heap.put(st.tok, u.id, u.o)
	}
	f := st.top()
	f.regs = regs
	f.prev = f1.prev
	f.block = join
	f.pc = nphi
	ex.res.Merges++
	return true
}

func sameVal(a, b Val) bool {
	x, y := a.leaves(), b.leaves()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// one instruction of a merge arm; Go panics and unsupported constructs abort the merge
func (ex *Exec) mstep(s *State, f *Frame, in ssa.Instruction) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case goPanic, unsupErr, memFault, pathEnd:
				panic(abortMerge{"arm"})
			}
			panic(r)
		}
	}()
	ex.step(s, f, in)
}

var _ = constant.MakeBool
var _ = strings.Join
