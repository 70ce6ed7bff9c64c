package main

// Functions that are modelled instead of executed.

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	ex      *Exec
	st      *State
	f       *Frame
	fn      *ssa.Function
	args    []Val
	in      *ssa.Call
	name    string
	out     []Val
	pushed  bool
	discard bool
}

type intrinsic func(c *icall)

var intrinsics = map[string]intrinsic{}

func (c *icall) ret(vs ...Val) { c.out = vs }

func (c *icall) str(i int) string {
	s, ok := c.ex.concreteString(c.st, c.args[i])
	if !ok {
		panic(unsupported("symbolic string passed to %s", c.name))
	}
	return s
}

func (c *icall) noMerge() {
	if c.ex.noFork > 0 {
		panic(abortMerge{"intrinsic"})
	}
}

// unique input name
func (c *icall) input(kind string) string {
	c.noMerge()
	n := c.str(0)
	k := c.st.cnt[n]
	c.st.cnt[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (c *icall) newVar(name string, w uint16) *Expr {
	v := c.ex.b.Var(name, w)
	c.st.inputs = append(c.st.inputs, v)
	return v
}

const symPkg = "verif/harness/sym."

func init() {
	nop := func(c *icall) {}
	S := func(name string, f intrinsic) { intrinsics[symPkg+name] = f }
	for n, w := range map[string]uint16{"U8": 8, "U16": 16, "U32": 32, "U64": 64} {
		w := w
		S(n, func(c *icall) { c.ret(sv(c.newVar(c.input(""), w))) })
	}
	S("Bool", func(c *icall) {
		v := c.newVar(c.input(""), 8)
		c.ret(sv(c.ex.b.Eq(c.ex.b.Extract(v, 0, 1), c.ex.b.Const(1, 1))))
	})
	S("Bytes", func(c *icall) {
		name := c.input("")
		n := c.ex.concretize(c.st, c.args[1].e)
		a := c.ex.alloc(c.st, n, "sym.Bytes "+name)
		bs := make([]*Expr, n)
		for i := range bs {
			bs[i] = c.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		c.ex.storeBytes(c.st, c.ex.c64(a), bs)
		c.ret(Val{xs: []*Expr{c.ex.c64(a), c.ex.c64(n), c.ex.c64(n)}})
	})
	// a byte slice of symbolic length and arbitrary contents
	S("BigBytes", func(c *icall) {
		name := c.input("")
		n := c.args[1].e
		o := &Obj{owner: c.st.tok, symSize: n, site: "sym.BigBytes " + name, havoc: name}
		a := addrOf(c.st.heap.add(c.st.tok, o))
		c.ret(Val{xs: []*Expr{c.ex.c64(a), n, n}})
	})
	S("Range", func(c *icall) {
		b := c.ex.b
		name := c.input("")
		v := c.newVar(name, 64)
		cond := b.BAnd(b.Ule(c.args[1].e, v), b.Ule(v, c.args[2].e))
		c.assumeCond(cond)
		c.ret(sv(v))
	})
	// a small number, enumerated
	S("Choose", func(c *icall) {
		b := c.ex.b
		n := c.args[1].e
		// the name counter must not move when the instruction is executed again
		s := c.str(0)
		k := c.st.cnt[s]
		name := s
		if k > 0 {
			name = fmt.Sprintf("%s#%d", s, k)
		}
		c.noMerge()
		v := b.Var(name, 64)
		cond := b.Ult(v, n)
		if c.st.decPos == 0 && len(c.st.dec) == 0 {
			c.assumeCond(cond)
		}
		x := c.ex.concretize(c.st, v)
		c.st.cnt[s] = k + 1
		c.st.inputs = append(c.st.inputs, v)
		c.ret(sv(c.ex.c64(x)))
	})
	S("Concretize", func(c *icall) { c.ret(sv(c.ex.c64(c.ex.concretize(c.st, c.args[0].e)))) })
	S("Assume", func(c *icall) { c.assumeCond(c.args[0].e) })
	S("Assert", func(c *icall) { c.ex.assert(c.st, c.args[0].e, c.str(1)) })
	S("Reach", func(c *icall) { c.noMerge(); c.st.reached = append(c.st.reached, c.str(0)) })
	S("Obs", func(c *icall) {
		c.noMerge()
		c.st.obs = append(c.st.obs, obsEnt{c.str(0), []*Expr{c.args[1].e}, 'u'})
	})
	S("ObsBytes", func(c *icall) {
		c.noMerge()
		n := c.ex.concretize(c.st, c.args[1].xs[1])
		c.st.obs = append(c.st.obs, obsEnt{c.str(0), c.ex.loadBytes(c.st, c.args[1].xs[0], n), 'b'})
	})
	S("Symbolic", func(c *icall) { c.ret(sv(c.ex.b.tru)) })
	S("BigEndian", func(c *icall) { c.ret(sv(c.ex.b.Bool(c.ex.bigEnd))) })
	S("BigSizes", func(c *icall) { c.noMerge(); c.st.bigSize = c.args[0].e.isTrue() })
	S("Merging", func(c *icall) { c.noMerge(); c.ex.mergeOn = c.args[0].e.isTrue() })
	S("AllocTotal", func(c *icall) {
		if c.st.alloc == nil {
			c.st.alloc = c.ex.c64(0)
		}
		c.ret(sv(c.st.alloc))
	})
	S("GC", func(c *icall) { c.noMerge(); c.ex.collect(c.st); c.ret() })
	S("AllocReset", func(c *icall) { c.noMerge(); c.st.alloc = c.ex.c64(0) })
	S("Freeze", func(c *icall) {
		c.noMerge()
		st := c.st
		st.frozen = true
		for id := uint32(0); id < st.heap.n; id++ {
			o := st.heap.at(id)
			if o == nil || o.frozen {
				continue
			}
			if o.owner != st.tok {
				n := *o // contents stay shared: a write clones first
				n.owner = nil
				o = &n
			}
			o.frozen = true
			o.owner = nil
			st.heap.put(st.tok, id, o)
		}
	})
	S("Unfreeze", func(c *icall) { c.noMerge(); c.st.frozen = false })
	// memory behind the pointer may be written although frozen
	S("Exempt", func(c *icall) {
		c.noMerge()
		a := c.ex.concretize(c.st, c.args[0].e)
		if a == 0 {
			return
		}
		id, _, ok := idOf(a)
		if ok && id < staticBase {
			o := c.st.heap.at(id).clone(c.st.tok)
			o.frozen = false
			c.st.heap.put(c.st.tok, id, o)
		}
	})
	S("Hash", func(c *icall) {
		n := c.ex.concretize(c.st, c.args[0].xs[1])
		if n != 64 {
			c.ex.finding(c.st, "assert", fmt.Sprintf("hash function called with %d bytes", n), nil)
			panic(pathEnd{"hash length"})
		}
		c.ret(c.hash64(c.ex.loadBytes(c.st, c.args[0].xs[0], 64)))
	})
	S("Injective", func(c *icall) { c.ex.sol.injective = true })
	S("SameBytes", func(c *icall) { // byte-wise equality of two slices as one term
		b := c.ex.b
		x, y := c.args[0], c.args[1]
		nx, ny := c.ex.concretize(c.st, x.xs[1]), c.ex.concretize(c.st, y.xs[1])
		if nx != ny {
			c.ret(sv(b.fls))
			return
		}
		p, q := c.ex.loadBytes(c.st, x.xs[0], nx), c.ex.loadBytes(c.st, y.xs[0], nx)
		r := b.sameBytes(p, q)
		c.ret(sv(r))
	})

	// ---- runtime and friends ----
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Gosched",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "internal/race.Acquire", "internal/race.Release",
		"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf"} {
		intrinsics[n] = func(c *icall) {
			if c.in != nil {
				ti := c.ex.lay.Info(c.in.Type())
				if len(ti.leaves) > 0 {
					c.out = []Val{c.ex.zero(ti)}
				}
			}
		}
	}
	_ = nop
	intrinsics["(*sync.Mutex).TryLock"] = func(c *icall) { c.ret(sv(c.ex.b.tru)) }
	intrinsics["(*sync.Once).Do"] = func(c *icall) {
		a := c.args[0].e
		u8 := c.ex.lay.Info(types.Typ[types.Uint32])
		done := c.ex.load(c.st, a, u8)
		if c.ex.decide(c.st, c.ex.b.Eq(done.e, c.ex.b.Const(0, 32))) {
			fn, binds := c.ex.funcOf(c.st, c.args[1].e)
			fr := c.st.frozen
			c.st.frozen = false
			c.ex.store(c.st, a, u8, sv(c.ex.b.Const(1, 32)))
			c.st.frozen = fr
			nf := c.ex.pushFrame(c.st, fn, nil, binds, nil)
			nf.discard = true
			c.pushed = true
		}
	}
	intrinsics["(*sync.Pool).Get"] = func(c *icall) {
		c.noMerge()
		a := c.ex.concretize(c.st, c.args[0].e)
		if l := c.st.pools[a]; len(l) > 0 {
			c.st.pools[a] = l[: len(l)-1 : len(l)-1]
			c.ret(l[len(l)-1])
			return
		}
		// New is the last field of sync.Pool
		pt := c.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		pi := c.ex.lay.Info(pt)
		stt := pt.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "New" {
				fv := c.ex.load(c.st, c.ex.c64(a+pi.foff[i]), c.ex.lay.Info(stt.Field(i).Type()))
				if fv.e.isConst() && fv.e.c == 0 {
					c.ret(Val{xs: []*Expr{c.ex.c64(0), c.ex.c64(0)}})
					return
				}
				fn, binds := c.ex.funcOf(c.st, fv.e)
				c.ex.pushFrame(c.st, fn, nil, binds, c.in)
				c.pushed = true
				return
			}
		}
	}
	intrinsics["(*sync.Pool).Put"] = func(c *icall) {
		c.noMerge()
		a := c.ex.concretize(c.st, c.args[0].e)
		c.st.pools[a] = append(c.st.pools[a][:len(c.st.pools[a]):len(c.st.pools[a])], c.args[1])
	}
	for _, t := range []struct {
		n string
		w uint16
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 64}} {
		ti := &TInfo{size: uint64(t.w / 8), scalar: true, leaves: []Leaf{{0, t.w, false}}}
		at := func(op string, f intrinsic) {
			intrinsics["sync/atomic."+op+t.n] = f
			intrinsics["internal/runtime/atomic."+op+t.n] = f
		}
		unfrozen := func(c *icall, v *Expr) {
			fr := c.st.frozen
			c.st.frozen = false
			c.ex.store(c.st, c.args[0].e, ti, sv(v))
			c.st.frozen = fr
		}
		at("Load", func(c *icall) { c.ret(c.ex.load(c.st, c.args[0].e, ti)) })
		at("Store", func(c *icall) { unfrozen(c, c.args[1].e) })
		at("Swap", func(c *icall) { o := c.ex.load(c.st, c.args[0].e, ti); unfrozen(c, c.args[1].e); c.ret(o) })
		at("Add", func(c *icall) {
			v := c.ex.b.Add(c.ex.load(c.st, c.args[0].e, ti).e, c.args[1].e)
			unfrozen(c, v)
			c.ret(sv(v))
		})
		at("CompareAndSwap", func(c *icall) {
			o := c.ex.load(c.st, c.args[0].e, ti)
			eq := c.ex.decide(c.st, c.ex.b.Eq(o.e, c.args[1].e))
			if eq {
				unfrozen(c, c.args[2].e)
			}
			c.ret(sv(c.ex.b.Bool(eq)))
		})
	}

	// atomic.Value: an interface value at the start of the object
	value := func(name string, f func(c *icall, load func() Val, store func(Val))) {
		intrinsics["(*sync/atomic.Value)."+name] = func(c *icall) {
			ex, st := c.ex, c.st
			at := c.ex.lay.Info(types.NewInterfaceType(nil, nil))
			f(c, func() Val { return ex.load(st, c.args[0].e, at) }, func(v Val) {
				if t, ok := ex.determined(st, v.xs[0]); ok && t == 0 {
					panic(goPanic{what: "sync/atomic: store of nil value into Value"})
				}
				fr := st.frozen
				st.frozen = false
				ex.store(st, c.args[0].e, at, v)
				st.frozen = fr
			})
		}
	}
	value("Load", func(c *icall, load func() Val, store func(Val)) { c.ret(load()) })
	value("Store", func(c *icall, load func() Val, store func(Val)) { store(c.args[1]) })
	value("Swap", func(c *icall, load func() Val, store func(Val)) { o := load(); store(c.args[1]); c.ret(o) })
	value("CompareAndSwap", func(c *icall, load func() Val, store func(Val)) {
		eq := c.ex.decide(c.st, c.ex.eqVal(c.st, types.NewInterfaceType(nil, nil), load(), c.args[1]))
		if eq {
			store(c.args[2])
		}
		c.ret(sv(c.ex.b.Bool(eq)))
	})
	// sync.Map: the first word of the object holds a map
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(name string, f func(c *icall, find func() int, get func(int) Val, set func(k, v Val), del func(int))) {
		intrinsics["(*sync.Map)."+name] = func(c *icall) {
			c.noMerge()
			ex, st := c.ex, c.st
			w := ex.lay.Info(types.Typ[types.Uintptr])
			m := ex.concretize(st, ex.load(st, c.args[0].e, w).e)
			quiet := func(g func()) {
				fr := st.frozen
				st.frozen = false
				g()
				st.frozen = fr
			}
			find := func() int {
				if m == 0 {
					return -1
				}
				o, _ := ex.objAt(st, m)
				return ex.mapFind(st, o, anyT, c.args[1])
			}
			get := func(i int) Val { o, _ := ex.objAt(st, m); return o.m[i].v }
			set := func(k, v Val) {
				quiet(func() {
					if m == 0 {
						m = addrOf(st.heap.add(st.tok, &Obj{owner: st.tok, kind: kMap, site: "sync.Map"}))
						ex.store(st, c.args[0].e, w, sv(ex.c64(m)))
					}
					ex.mapSet(st, ex.c64(m), anyT, k, v)
				})
			}
			del := func(i int) {
				quiet(func() {
					o := ex.owned(st, m)
					if i < 0 {
						o.m = nil
					} else {
						o.m = append(append([]MapEnt{}, o.m[:i]...), o.m[i+1:]...)
					}
				})
			}
			f(c, find, get, set, del)
		}
	}
	type (
		mfind = func() int
		mget  = func(int) Val
		mset  = func(k, v Val)
		mdel  = func(int)
	)
	pair := func(c *icall, v Val, ok bool) {
		c.ret(Val{xs: append(append([]*Expr{}, v.xs...), c.ex.b.Bool(ok))})
	}
	smap("Load", func(c *icall, find mfind, get mget, set mset, del mdel) {
		if i := find(); i >= 0 {
			pair(c, get(i), true)
		} else {
			pair(c, c.nilIface(), false)
		}
	})
	smap("Store", func(c *icall, find mfind, get mget, set mset, del mdel) { set(c.args[1], c.args[2]) })
	smap("Swap", func(c *icall, find mfind, get mget, set mset, del mdel) {
		o, i := c.nilIface(), find()
		if i >= 0 {
			o = get(i)
		}
		set(c.args[1], c.args[2])
		pair(c, o, i >= 0)
	})
	smap("LoadOrStore", func(c *icall, find mfind, get mget, set mset, del mdel) {
		if i := find(); i >= 0 {
			pair(c, get(i), true)
		} else {
			set(c.args[1], c.args[2])
			pair(c, c.args[2], false)
		}
	})
	smap("LoadAndDelete", func(c *icall, find mfind, get mget, set mset, del mdel) {
		if i := find(); i >= 0 {
			v := get(i)
			del(i)
			pair(c, v, true)
		} else {
			pair(c, c.nilIface(), false)
		}
	})
	smap("Delete", func(c *icall, find mfind, get mget, set mset, del mdel) {
		if i := find(); i >= 0 {
			del(i)
		}
	})
	smap("Clear", func(c *icall, find mfind, get mget, set mset, del mdel) {
		if c.ex.concretize(c.st, c.ex.load(c.st, c.args[0].e, c.ex.lay.Info(types.Typ[types.Uintptr])).e) != 0 {
			del(-1)
		}
	})
	smap("CompareAndSwap", func(c *icall, find mfind, get mget, set mset, del mdel) {
		i := find()
		ok := i >= 0 && c.ex.decide(c.st, c.ex.eqVal(c.st, anyT, get(i), c.args[2]))
		if ok {
			set(c.args[1], c.args[3])
		}
		c.ret(sv(c.ex.b.Bool(ok)))
	})

	// ---- fmt, errors ----
	intrinsics["fmt.Errorf"] = func(c *icall) {
		c.noMerge()
		format, _ := c.ex.concreteString(c.st, c.args[0])
		if strings.Contains(format, "%w") {
			if e, ok := c.firstError(c.args[1]); ok {
				wt := c.ex.prog.namedType("fmt", "wrapError")
				ti := c.ex.lay.Info(wt)
				a := c.ex.alloc(c.st, ti.size, "fmt.Errorf")
				c.ex.store(c.st, c.ex.c64(a), ti, Val{xs: append(append([]*Expr{}, c.ex.strConst("error: "+format).xs...), e.xs...)})
				c.ret(Val{xs: []*Expr{c.ex.c64(c.ex.typeAddr(types.NewPointer(wt))), c.ex.c64(a)}})
				return
			}
		}
		et := c.ex.prog.namedType("errors", "errorString")
		ti := c.ex.lay.Info(et)
		a := c.ex.alloc(c.st, ti.size, "fmt.Errorf")
		c.ex.store(c.st, c.ex.c64(a), ti, c.ex.strConst("error: "+format))
		c.ret(Val{xs: []*Expr{c.ex.c64(c.ex.typeAddr(types.NewPointer(et))), c.ex.c64(a)}})
	}
	intrinsics["fmt.Sprintf"] = func(c *icall) {
		c.noMerge()
		format := c.str(0)
		c.ret(c.ex.newString(c.st, c.sprintf(format, c.args[1])))
	}
	intrinsics["fmt.Sprint"] = func(c *icall) {
		c.noMerge()
		n := int(c.ex.concretize(c.st, c.args[0].xs[1]))
		c.ret(c.ex.newString(c.st, c.sprintf(strings.Repeat("%v", n), c.args[0])))
	}
	intrinsics["fmt.Fprintf"] = func(c *icall) { // formatted text handed to the writer
		c.noMerge()
		format := c.str(1)
		c.writeTo(c.args[0], c.sprintf(format, c.args[2]))
	}
	intrinsics["fmt.Fprint"] = func(c *icall) {
		c.noMerge()
		n := int(c.ex.concretize(c.st, c.args[1].xs[1]))
		c.writeTo(c.args[0], c.sprintf(strings.Repeat("%v", n), c.args[1]))
	}
	intrinsics["errors.Is"] = func(c *icall) {
		x, y := c.args[0], c.args[1]
		wt := c.ex.prog.namedType("fmt", "wrapError")
		for i := 0; i < 10; i++ {
			tx, ty := c.ex.concretize(c.st, x.xs[0]), c.ex.concretize(c.st, y.xs[0])
			if tx == ty && c.ex.decide(c.st, c.ex.b.Eq(x.xs[1], y.xs[1])) {
				c.ret(sv(c.ex.b.tru))
				return
			}
			if tx == 0 || wt == nil || !types.Identical(c.ex.typeAt(c.st, tx), types.NewPointer(wt)) {
				break
			}
			ti := c.ex.lay.Info(wt)
			v := c.ex.load(c.st, x.xs[1], ti)
			x = Val{xs: v.xs[2:4]}
		}
		c.ret(sv(c.ex.b.fls))
	}

	// ---- byte searching primitives ----
	idx := func(get func(c *icall) (Val, *Expr)) intrinsic {
		return func(c *icall) {
			s, ch := get(c)
			n := c.ex.concretize(c.st, s.xs[1])
			bs := c.ex.loadBytes(c.st, s.xs[0], n)
			for i, e := range bs {
				if c.ex.decide(c.st, c.ex.b.Eq(e, ch)) {
					c.ret(sv(c.ex.c64(uint64(i))))
					return
				}
			}
			c.ret(sv(c.ex.c64(^uint64(0))))
		}
	}
	ib := idx(func(c *icall) (Val, *Expr) { return c.args[0], c.args[1].e })
	intrinsics["internal/bytealg.IndexByte"] = ib
	intrinsics["internal/bytealg.IndexByteString"] = ib
	intrinsics["strings.Index"] = func(c *icall) {
		c.ret(sv(c.ex.c64(uint64(int64(strings.Index(c.str(0), c.str(1)))))))
	}
	cnt := func(c *icall) {
		n := c.ex.concretize(c.st, c.args[0].xs[1])
		r := c.ex.c64(0)
		for _, e := range c.ex.loadBytes(c.st, c.args[0].xs[0], n) {
			r = c.ex.b.Add(r, c.ex.b.Ite(c.ex.b.Eq(e, c.args[1].e), c.ex.c64(1), c.ex.c64(0)))
		}
		c.ret(sv(r))
	}
	intrinsics["internal/bytealg.Count"] = cnt
	intrinsics["internal/bytealg.CountString"] = cnt
	intrinsics["bytes.Equal"] = func(c *icall) { c.ret(sv(c.ex.strEq(c.st, c.args[0], c.args[1]))) }
	intrinsics["internal/bytealg.Equal"] = intrinsics["bytes.Equal"]
	cmp := func(c *icall) {
		b := c.ex.b
		nx, ny := c.ex.concretize(c.st, c.args[0].xs[1]), c.ex.concretize(c.st, c.args[1].xs[1])
		n := min(nx, ny)
		p, q := c.ex.loadBytes(c.st, c.args[0].xs[0], n), c.ex.loadBytes(c.st, c.args[1].xs[0], n)
		r := c.ex.c64(0)
		if nx < ny {
			r = c.ex.c64(^uint64(0))
		} else if nx > ny {
			r = c.ex.c64(1)
		}
		for i := int(n) - 1; i >= 0; i-- {
			r = b.Ite(b.Ult(p[i], q[i]), c.ex.c64(^uint64(0)), b.Ite(b.Ult(q[i], p[i]), c.ex.c64(1), r))
		}
		c.ret(sv(r))
	}
	intrinsics["internal/bytealg.Compare"] = cmp
	intrinsics["internal/bytealg.CompareString"] = cmp
	intrinsics["bytes.Compare"] = cmp
	intrinsics["internal/bytealg.MakeNoZero"] = func(c *icall) {
		n := c.ex.concretize(c.st, c.args[0].e)
		a := c.ex.alloc(c.st, n, "MakeNoZero")
		c.ex.countAlloc(c.st, c.ex.c64(n))
		c.ret(Val{xs: []*Expr{c.ex.c64(a), c.ex.c64(n), c.ex.c64(n)}})
	}

	// ---- math/bits ----
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Round": math.Round,
		"Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Exp2": math.Exp2} {
		intrinsics["math."+n] = func(c *icall) {
			if !c.args[0].e.isConst() {
				panic(unsupported("symbolic float"))
			}
			c.ret(sv(c.ex.b.Const(math.Float64bits(f(math.Float64frombits(c.args[0].e.c))), 64)))
		}
	}
	intrinsics["math.Pow"] = func(c *icall) {
		if !c.args[0].e.isConst() || !c.args[1].e.isConst() {
			panic(unsupported("symbolic float"))
		}
		v := math.Pow(math.Float64frombits(c.args[0].e.c), math.Float64frombits(c.args[1].e.c))
		c.ret(sv(c.ex.b.Const(math.Float64bits(v), 64)))
	}
	for n, w := range map[string]uint16{"Len": 64, "Len64": 64, "Len32": 32, "Len16": 16, "Len8": 8} {
		w := w
		intrinsics["math/bits."+n] = func(c *icall) { c.ret(sv(c.bitLen(c.args[0].e, w))) }
	}
	for n, w := range map[string]uint16{"LeadingZeros": 64, "LeadingZeros64": 64, "LeadingZeros32": 32, "LeadingZeros16": 16, "LeadingZeros8": 8} {
		w := w
		intrinsics["math/bits."+n] = func(c *icall) {
			c.ret(sv(c.ex.b.Sub(c.ex.c64(uint64(w)), c.bitLen(c.args[0].e, w))))
		}
	}
	for n, w := range map[string]uint16{"TrailingZeros": 64, "TrailingZeros64": 64, "TrailingZeros32": 32, "TrailingZeros16": 16, "TrailingZeros8": 8} {
		w := w
		intrinsics["math/bits."+n] = func(c *icall) {
			b := c.ex.b
			r := c.ex.c64(uint64(w))
			for i := int(w) - 1; i >= 0; i-- {
				r = b.Ite(b.Eq(b.Extract(c.args[0].e, uint16(i), 1), b.Const(1, 1)), c.ex.c64(uint64(i)), r)
			}
			c.ret(sv(r))
		}
	}
	for n, w := range map[string]uint16{"OnesCount": 64, "OnesCount64": 64, "OnesCount32": 32, "OnesCount16": 16, "OnesCount8": 8} {
		w := w
		intrinsics["math/bits."+n] = func(c *icall) {
			b := c.ex.b
			r := c.ex.c64(0)
			for i := uint16(0); i < w; i++ {
				r = b.Add(r, b.ZExt(b.Extract(c.args[0].e, i, 1), 64))
			}
			c.ret(sv(r))
		}
	}
	intrinsics["crypto/sha256.Sum256"] = func(c *icall) {
		n := c.ex.concretize(c.st, c.args[0].xs[1])
		bs := c.ex.loadBytes(c.st, c.args[0].xs[0], n)
		buf := make([]byte, n)
		for i, e := range bs {
			v, ok := c.ex.determined(c.st, e)
			if !ok {
				panic(unsupported("sha256 of symbolic data"))
			}
			buf[i] = byte(v)
		}
		h := sha256.Sum256(buf)
		xs := make([]*Expr, 32)
		for i := range xs {
			xs[i] = c.ex.b.bytes[h[i]]
		}
		c.ret(Val{xs: xs})
	}
}

func (c *icall) hash64(bs []*Expr) Val {
	h := c.ex.b.Hash(bs)
	xs := make([]*Expr, 32)
	for i := range xs {
		xs[i] = c.ex.b.Extract(h, uint16(8*(31-i)), 8)
	}
	return Val{xs: xs}
}

func (c *icall) bitLen(e *Expr, w uint16) *Expr {
	b := c.ex.b
	r := c.ex.c64(0)
	for i := uint16(0); i < w; i++ {
		r = b.Ite(b.Eq(b.Extract(e, i, 1), b.Const(1, 1)), c.ex.c64(uint64(i)+1), r)
	}
	return r
}

func (c *icall) assumeCond(cond *Expr) {
	ex, st := c.ex, c.st
	if cond.isTrue() {
		return
	}
	c.noMerge()
	if cond.isFalse() {
		panic(pathEnd{"assume"})
	}
	if r, ok := ex.quick(st, cond); ok {
		if !r {
			panic(pathEnd{"assume"})
		}
		return
	}
	if !st.noModel && !ex.b.hasHash(cond, map[*Expr]bool{}) && st.model.eval(cond) == 1 {
		ex.assume(st, cond)
		return
	}
	r, m := ex.check(st, cond)
	switch r {
	case Unsat:
		panic(pathEnd{"assume"})
	case Sat:
		st.model, st.noModel = m, false
	default:
		st.noModel = true
		ex.res.Unknown = append(ex.res.Unknown, "assume")
	}
	ex.assume(st, cond)
}

func (ex *Exec) assert(st *State, cond *Expr, msg string) {
	if ex.noFork > 0 {
		panic(abortMerge{"assert"})
	}
	ex.res.Asserts++
	if cond.isTrue() {
		ex.res.AssertsTriv++
		return
	}
	if r, ok := ex.quick(st, cond); ok && r {
		ex.res.AssertsTriv++
		return
	}
	ex.res.AssertsSMT++
	nc := ex.b.BNot(cond)
	r, m := ex.check(st, nc)
	switch r {
	case Unsat:
		st.learn(ex.b, cond)
		return
	case Unknown:
		ex.res.Unknown = append(ex.res.Unknown, "assert "+msg)
	case Sat:
		ex.finding(st, "assert", msg, m, nc)
	}
	// go on with the executions in which it holds
	if cond.isFalse() {
		panic(pathEnd{"assert failed"})
	}
	r, m = ex.check(st, cond)
	if r != Sat {
		panic(pathEnd{"assert failed"})
	}
	st.model, st.noModel = m, false
	ex.assume(st, cond)
}

// noCollision decides whether the failure that model m shows can also happen
// when the hash has no collisions: the native replay computes a real hash, so
// that a failure that rests on a collision of the uninterpreted one would be
// rejected there, and would stand in the way of one that does not.
func (ex *Exec) noCollision(st *State, m *Model, why []*Expr) (*Model, bool) {
	if ex.sol.injective {
		return m, true
	}
	has, seen := false, map[*Expr]bool{}
	for _, e := range append(append([]*Expr{}, st.pc...), why...) {
		if ex.b.hasHash(e, seen) {
			has = true
			break
		}
	}
	if !has {
		return m, true
	}
	if ex.solInj == nil {
		ex.solInj = ex.sol.twin()
		ex.solInj.injective = true
	}
	r, mm := ex.solInj.CheckOnce(append(append([]*Expr{}, st.pc...), why...))
	switch r {
	case Unsat:
		ex.res.Notes["failures that need a collision of the hash, dropped"]++
		return nil, false
	case Sat:
		return mm, true
	}
	return m, true
}

func (ex *Exec) finding(st *State, kind, msg string, m *Model, why ...*Expr) {
	if m == nil {
		if st.noModel {
			r, mm := ex.sol.Check(st.pc)
			if r == Unsat {
				return
			}
			if r == Unknown {
				ex.res.Unknown = append(ex.res.Unknown, kind+" "+msg)
				return
			}
			m = mm
		} else {
			m = st.model
		}
	}
	n := 0
	for _, f := range ex.res.Findings {
		if f.Kind == kind && f.Msg == msg {
			n++
		}
	}
	if n >= 3 || len(ex.res.Findings) >= 40 {
		ex.res.Notes["further findings suppressed"]++
		return
	}
	m, ok := ex.noCollision(st, m, why)
	if !ok {
		return
	}
	ex.res.Findings = append(ex.res.Findings, Finding{Kind: kind, Msg: msg, Pos: ex.where(st), Inputs: ex.inputsOf(m, nil), Obs: ex.obsOf(st, m)})
}

func (ex *Exec) inputsOf(m *Model, over map[*Expr]uint64) map[string]string {
	out := map[string]string{}
	seen := map[string]bool{}
	for _, v := range ex.b.varlst {
		x := m.eval(v)
		name := v.name
		if pos := ex.b.varPos[v]; pos != nil {
			name = fmt.Sprintf("%s%d", name[:strings.IndexByte(name, '?')], m.eval(pos))
			if seen[name] {
				continue
			}
		}
		seen[name] = true
		if x != 0 {
			out[name] = fmt.Sprint(x)
		}
	}
	return out
}

func (ex *Exec) obsOf(st *State, m *Model) []ObsVal {
	var out []ObsVal
	for _, o := range st.obs {
		if o.kind == 'u' {
			out = append(out, ObsVal{o.name, fmt.Sprint(m.eval(o.e[0]))})
			continue
		}
		bs := make([]byte, len(o.e))
		for i, e := range o.e {
			bs[i] = byte(m.eval(e))
		}
		out = append(out, ObsVal{o.name, fmt.Sprintf("%x", bs)})
	}
	return out
}

// ---- formatting ----

func (c *icall) anyArgs(s Val) []Val {
	n := c.ex.concretize(c.st, s.xs[1])
	out := make([]Val, n)
	ti := c.ex.lay.Info(types.NewInterfaceType(nil, nil))
	for i := range out {
		out[i] = c.ex.load(c.st, c.ex.b.Add(s.xs[0], c.ex.c64(uint64(i)*16)), ti)
	}
	return out
}

func (c *icall) firstError(s Val) (Val, bool) {
	for _, a := range c.anyArgs(s) {
		ta := c.ex.concretize(c.st, a.xs[0])
		if ta == 0 {
			continue
		}
		if types.Implements(c.ex.typeAt(c.st, ta), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			return a, true
		}
	}
	return Val{}, false
}

// text of the format; symbolic integers are only exact for %02x on bytes, elsewhere they become "?"
func (c *icall) sprintf(format string, s Val) []*Expr {
	b := c.ex.b
	args := c.anyArgs(s)
	var out []*Expr
	lit := func(t string) {
		for i := 0; i < len(t); i++ {
			out = append(out, b.bytes[t[i]])
		}
	}
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit(format[i : i+1])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("0123456789+-# .", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			break
		}
		verb := format[i : j+1]
		i = j
		if verb == "%%" {
			lit("%")
			continue
		}
		if k >= len(args) {
			lit("%!missing")
			continue
		}
		a := args[k]
		k++
		ta := c.ex.concretize(c.st, a.xs[0])
		if ta == 0 {
			lit("<nil>")
			continue
		}
		dt := c.ex.typeAt(c.st, ta)
		if bs, ok := c.byteSlice(dt, a); ok {
			out = append(out, c.formatBytes(verb, bs)...)
			continue
		}
		bt, ok := dt.Underlying().(*types.Basic)
		if !ok {
			lit("{" + dt.String() + "}")
			continue
		}
		v := c.ex.unbox(c.st, dt, a)
		if bt.Info()&types.IsString != 0 {
			if t, ok := c.ex.concreteString(c.st, v); ok {
				lit(fmt.Sprintf(verb, t))
			} else {
				n := c.ex.concretize(c.st, v.xs[1])
				out = append(out, c.ex.loadBytes(c.st, v.xs[0], n)...)
			}
			continue
		}
		x, known := c.st.pe(v.e, 0)
		switch {
		case bt.Info()&types.IsBoolean != 0 && known:
			lit(fmt.Sprintf(verb, x == 1))
		case bt.Info()&types.IsInteger != 0 && known:
			if bt.Info()&types.IsUnsigned != 0 {
				lit(fmt.Sprintf(verb, x))
			} else {
				lit(fmt.Sprintf(verb, sx(x, v.e.w)))
			}
		case v.e != nil && bt.Info()&types.IsInteger != 0:
			// %02x of a byte is exact; other symbolic integers become their hexadecimal
			// digits, which, like every integer format, determine the value
			out = append(out, c.hexDigits(v.e)...)
			if verb != "%02x" || v.e.w != 8 {
				c.ex.res.Notes["symbolic integer formatted as its hexadecimal digits"]++
			}
		case v.e != nil && bt.Info()&types.IsBoolean != 0:
			t, f := fmt.Sprintf(verb, true), fmt.Sprintf(verb, false)
			if c.ex.decide(c.st, v.e) {
				lit(t)
			} else {
				lit(f)
			}
		default:
			lit("?")
			c.ex.res.Notes["symbolic value formatted as text"]++
		}
	}
	return out
}

func (c *icall) hexDigits(e *Expr) (out []*Expr) {
	b := c.ex.b
	for i := int(e.w) - 4; i >= 0; i -= 4 {
		h := b.ZExt(b.Extract(e, uint16(i), 4), 8)
		out = append(out, b.Ite(b.Ult(h, b.bytes[10]), b.Add(h, b.bytes['0']), b.Add(h, b.bytes['a'-10])))
	}
	return
}

// contents of a byte slice or byte array argument
func (c *icall) byteSlice(dt types.Type, a Val) ([]*Expr, bool) {
	isByte := func(t types.Type) bool {
		bt, ok := t.Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Uint8
	}
	switch u := dt.Underlying().(type) {
	case *types.Slice:
		if !isByte(u.Elem()) {
			return nil, false
		}
		v := c.ex.unbox(c.st, dt, a)
		n := c.ex.concretize(c.st, v.xs[1])
		return c.ex.loadBytes(c.st, v.xs[0], n), true
	case *types.Array:
		if !isByte(u.Elem()) || a.xs[1] == nil {
			return nil, false
		}
		return c.ex.loadBytes(c.st, a.xs[1], uint64(u.Len())), true
	}
	return nil, false
}

func (c *icall) formatBytes(verb string, bs []*Expr) (out []*Expr) {
	b := c.ex.b
	lit := func(t string) {
		for i := 0; i < len(t); i++ {
			out = append(out, b.bytes[t[i]])
		}
	}
	switch verb {
	case "%x":
		for _, e := range bs {
			out = append(out, c.hexDigits(e)...)
		}
	case "%#x":
		if len(bs) > 0 {
			lit("0x")
		}
		for _, e := range bs {
			out = append(out, c.hexDigits(e)...)
		}
	case "%s":
		out = append(out, bs...)
	case "%08b":
		lit("[")
		for i, e := range bs {
			if i > 0 {
				lit(" ")
			}
			for k := 7; k >= 0; k-- {
				out = append(out, b.Add(b.ZExt(b.Extract(e, uint16(k), 1), 8), b.bytes['0']))
			}
		}
		lit("]")
	case "%v", "%d", "%b", "%o":
		lit("[")
		for i, e := range bs {
			if i > 0 {
				lit(" ")
			}
			if e.isConst() {
				lit(fmt.Sprintf(verb, e.c))
			} else {
				out = append(out, c.hexDigits(e)...)
				c.ex.res.Notes["symbolic integer formatted as its hexadecimal digits"]++
			}
		}
		lit("]")
	default:
		panic(unsupported("format %s of bytes", verb))
	}
	return
}

func (c *icall) writeTo(w Val, bs []*Expr) {
	ta := c.ex.concretize(c.st, w.xs[0])
	if ta == 0 {
		panic(goPanic{what: "nil dereference"})
	}
	dt := c.ex.typeAt(c.st, ta)
	fn := c.ex.method(dt, nil, "Write")
	str := c.ex.newString(c.st, bs)
	buf := Val{xs: []*Expr{str.xs[0], str.xs[1], str.xs[1]}}
	c.ex.pushFrame(c.st, fn, []Val{c.ex.unbox(c.st, dt, w), buf}, nil, c.in)
	c.pushed = true
}

// ---- reflect ----

func (c *icall) rtypeIface(t types.Type) Val {
	ex := c.ex
	if ex.rtT == nil {
		ex.rtT = types.NewPointer(ex.prog.namedType("reflect", "rtype"))
	}
	return Val{xs: []*Expr{ex.c64(ex.typeAddr(ex.rtT)), ex.c64(ex.typeAddr(t))}}
}

func (c *icall) nilIface() Val { return Val{xs: []*Expr{c.ex.c64(0), c.ex.c64(0)}} }

// type denoted by a reflect.Type interface value
func (c *icall) typeArg(v Val) types.Type {
	var e *Expr
	if v.e != nil {
		e = v.e
	} else {
		e = v.xs[1]
	}
	a := c.ex.concretize(c.st, e)
	if a == 0 {
		panic(goPanic{what: "nil dereference"})
	}
	return c.ex.typeAt(c.st, a)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

const (
	flagIndir = 1 << 7
	flagAddr  = 1 << 8
)

func (c *icall) mkValue(t types.Type, ptr *Expr, flag uint64) Val {
	return Val{xs: []*Expr{c.ex.c64(c.ex.typeAddr(t)), ptr, c.ex.c64(flag | uint64(kindOf(t)))}}
}

// the contents of a reflect.Value
func (c *icall) valOf(v Val) (types.Type, Val, bool) {
	a := c.ex.concretize(c.st, v.xs[0])
	if a == 0 {
		panic(goPanic{what: "reflect: zero Value"})
	}
	t := c.ex.typeAt(c.st, a)
	fl := c.ex.concretize(c.st, v.xs[2])
	ti := c.ex.lay.Info(t)
	if fl&flagIndir != 0 {
		return t, c.ex.load(c.st, v.xs[1], ti), fl&flagAddr != 0
	}
	return t, ti.mkVal([]*Expr{v.xs[1]}), false
}

func init() {
	R := func(name string, f intrinsic) { intrinsics["(*reflect.rtype)."+name] = f }
	intrinsics["reflect.TypeOf"] = func(c *icall) {
		a := c.ex.concretize(c.st, c.args[0].xs[0])
		if a == 0 {
			c.ret(c.nilIface())
			return
		}
		c.ret(c.rtypeIface(c.ex.typeAt(c.st, a)))
	}
	pt := func(c *icall) { c.ret(c.rtypeIface(types.NewPointer(c.typeArg(c.args[0])))) }
	intrinsics["reflect.PtrTo"] = pt
	intrinsics["reflect.PointerTo"] = pt
	intrinsics["reflect.SliceOf"] = func(c *icall) { c.ret(c.rtypeIface(types.NewSlice(c.typeArg(c.args[0])))) }
	intrinsics["reflect.ArrayOf"] = func(c *icall) {
		n := c.ex.concretize(c.st, c.args[0].e)
		c.ret(c.rtypeIface(types.NewArray(c.typeArg(c.args[1]), int64(n))))
	}
	R("Elem", func(c *icall) {
		switch u := c.typeArg(c.args[0]).Underlying().(type) {
		case interface{ Elem() types.Type }:
			c.ret(c.rtypeIface(u.Elem()))
		default:
			panic(goPanic{what: "reflect: Elem of invalid type"})
		}
	})
	R("Kind", func(c *icall) { c.ret(sv(c.ex.c64(uint64(kindOf(c.typeArg(c.args[0])))))) })
	R("Size", func(c *icall) { c.ret(sv(c.ex.c64(c.ex.lay.Info(c.typeArg(c.args[0])).size))) })
	R("Align", func(c *icall) { c.ret(sv(c.ex.c64(c.ex.lay.Info(c.typeArg(c.args[0])).align))) })
	R("Bits", func(c *icall) { c.ret(sv(c.ex.c64(8 * c.ex.lay.Info(c.typeArg(c.args[0])).size))) })
	R("Len", func(c *icall) {
		a, ok := c.typeArg(c.args[0]).Underlying().(*types.Array)
		if !ok {
			panic(goPanic{what: "reflect: Len of non-array type"})
		}
		c.ret(sv(c.ex.c64(uint64(a.Len()))))
	})
	R("NumField", func(c *icall) {
		a, ok := c.typeArg(c.args[0]).Underlying().(*types.Struct)
		if !ok {
			panic(goPanic{what: "reflect: NumField of non-struct type"})
		}
		c.ret(sv(c.ex.c64(uint64(a.NumFields()))))
	})
	R("NumMethod", func(c *icall) {
		c.ex.prog.mu.Lock()
		defer c.ex.prog.mu.Unlock()
		ms := c.ex.prog.prog.MethodSets.MethodSet(c.typeArg(c.args[0]))
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		c.ret(sv(c.ex.c64(uint64(n))))
	})
	R("String", func(c *icall) { c.ret(c.ex.strConst(typeString(c.typeArg(c.args[0])))) })
	R("Name", func(c *icall) {
		s := ""
		switch t := c.typeArg(c.args[0]).(type) {
		case *types.Named:
			s = t.Obj().Name()
		case *types.Basic:
			s = t.Name()
		}
		c.ret(c.ex.strConst(s))
	})
	R("PkgPath", func(c *icall) {
		s := ""
		if t, ok := c.typeArg(c.args[0]).(*types.Named); ok && t.Obj().Pkg() != nil {
			s = t.Obj().Pkg().Path()
		}
		c.ret(c.ex.strConst(s))
	})
	R("Comparable", func(c *icall) { c.ret(sv(c.ex.b.Bool(types.Comparable(c.typeArg(c.args[0]))))) })
	R("Implements", func(c *icall) {
		it, ok := c.typeArg(c.args[1]).Underlying().(*types.Interface)
		if !ok {
			panic(goPanic{what: "reflect: non-interface type passed to Type.Implements"})
		}
		c.ret(sv(c.ex.b.Bool(types.Implements(c.typeArg(c.args[0]), it))))
	})
	R("AssignableTo", func(c *icall) {
		c.ret(sv(c.ex.b.Bool(types.AssignableTo(c.typeArg(c.args[0]), c.typeArg(c.args[1])))))
	})
	R("ConvertibleTo", func(c *icall) {
		c.ret(sv(c.ex.b.Bool(types.ConvertibleTo(c.typeArg(c.args[0]), c.typeArg(c.args[1])))))
	})
	R("Field", func(c *icall) {
		c.noMerge()
		t := c.typeArg(c.args[0])
		s, ok := t.Underlying().(*types.Struct)
		i := c.ex.concretize(c.st, c.args[1].e)
		if !ok || i >= uint64(s.NumFields()) {
			panic(goPanic{what: "reflect: Field index out of range"})
		}
		fd := s.Field(int(i))
		ti := c.ex.lay.Info(t)
		pkg := ""
		if !fd.Exported() && fd.Pkg() != nil {
			pkg = fd.Pkg().Path()
		}
		ia := c.ex.alloc(c.st, 8, "StructField.Index")
		c.ex.store(c.st, c.ex.c64(ia), c.ex.lay.Info(types.Typ[types.Int]), sv(c.ex.c64(i)))
		var xs []*Expr
		xs = append(xs, c.ex.strConst(fd.Name()).xs...)
		xs = append(xs, c.ex.strConst(pkg).xs...)
		xs = append(xs, c.rtypeIface(fd.Type()).xs...)
		xs = append(xs, c.ex.strConst(s.Tag(int(i))).xs...)
		xs = append(xs, c.ex.c64(ti.foff[i]), c.ex.c64(ia), c.ex.c64(1), c.ex.c64(1), c.ex.b.Bool(fd.Anonymous()))
		c.ret(Val{xs: xs})
	})
	intrinsics["(reflect.StructField).IsExported"] = func(c *icall) { c.ret(sv(c.ex.b.Eq(c.args[0].xs[3], c.ex.c64(0)))) }
	intrinsics["(reflect.StructTag).Lookup"] = func(c *icall) {
		v, ok := reflect.StructTag(c.str(0)).Lookup(c.str(1))
		c.ret(c.ex.strConst(v), sv(c.ex.b.Bool(ok)))
	}
	intrinsics["(reflect.StructTag).Get"] = func(c *icall) {
		c.ret(c.ex.strConst(reflect.StructTag(c.str(0)).Get(c.str(1))))
	}
	intrinsics["(reflect.Kind).String"] = func(c *icall) {
		c.ret(c.ex.strConst(reflect.Kind(c.ex.concretize(c.st, c.args[0].e)).String()))
	}
	intrinsics["reflect.New"] = func(c *icall) {
		c.noMerge()
		t := c.typeArg(c.args[0])
		sz := c.ex.lay.Info(t).size
		c.ex.countAlloc(c.st, c.ex.c64(sz))
		a := c.ex.typed(c.st, c.ex.alloc(c.st, sz, "reflect.New "+typeString(t)), c.ex.lay.Info(t))
		c.ret(c.mkValue(types.NewPointer(t), c.ex.c64(a), 0))
	}
	intrinsics["reflect.Zero"] = func(c *icall) {
		c.noMerge()
		t := c.typeArg(c.args[0])
		if c.ex.ptrShaped(t) {
			c.ret(c.mkValue(t, c.ex.c64(0), 0))
			return
		}
		c.ret(c.mkValue(t, c.ex.c64(c.ex.alloc(c.st, c.ex.lay.Info(t).size, "reflect.Zero")), flagIndir))
	}
	intrinsics["reflect.MakeSlice"] = func(c *icall) {
		c.noMerge()
		t := c.typeArg(c.args[0])
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			panic(goPanic{what: "reflect.MakeSlice of non-slice type"})
		}
		n, cp := c.args[1].e, c.args[2].e
		if c.ex.decide(c.st, c.ex.b.BOr(c.ex.b.Slt(n, c.ex.c64(0)), c.ex.b.Slt(cp, n))) {
			panic(goPanic{what: "reflect.MakeSlice: bad length"})
		}
		s := c.ex.makeSlice(c.st, u.Elem(), n, cp, "reflect.MakeSlice "+typeString(t), true)
		ti := c.ex.lay.Info(t)
		a := c.ex.alloc(c.st, ti.size, "slice header")
		c.ex.store(c.st, c.ex.c64(a), ti, s)
		c.ret(c.mkValue(t, c.ex.c64(a), flagIndir))
	}
	intrinsics["reflect.ValueOf"] = func(c *icall) {
		a := c.ex.concretize(c.st, c.args[0].xs[0])
		if a == 0 {
			c.ret(Val{xs: []*Expr{c.ex.c64(0), c.ex.c64(0), c.ex.c64(0)}})
			return
		}
		t := c.ex.typeAt(c.st, a)
		fl := uint64(flagIndir)
		if c.ex.ptrShaped(t) {
			fl = 0
		}
		c.ret(c.mkValue(t, c.args[0].xs[1], fl))
	}
	V := func(name string, f intrinsic) { intrinsics["(reflect.Value)."+name] = f }
	ptr := func(c *icall) {
		t, v, _ := c.valOf(c.args[0])
		e := v.leaves()[0]
		if _, ok := t.Underlying().(*types.Signature); ok {
			// the code, which closures share
			if a := c.ex.concretize(c.st, e); a != 0 {
				if o, _ := c.ex.objAt(c.st, a); o != nil && o.kind == kClosure {
					e = c.ex.c64(c.ex.funcAddr(o.fn))
				}
			}
		}
		c.ret(sv(e))
	}
	V("Pointer", ptr)
	V("UnsafePointer", ptr)
	V("UnsafeAddr", func(c *icall) { c.ret(sv(c.args[0].xs[1])) })
	V("IsValid", func(c *icall) { c.ret(sv(c.ex.b.BNot(c.ex.b.Eq(c.args[0].xs[0], c.ex.c64(0))))) })
	V("IsNil", func(c *icall) {
		_, v, _ := c.valOf(c.args[0])
		c.ret(sv(c.ex.b.Eq(v.leaves()[0], c.ex.c64(0))))
	})
	V("Kind", func(c *icall) { c.ret(sv(c.ex.b.And(c.args[0].xs[2], c.ex.c64(31)))) })
	V("Type", func(c *icall) { c.ret(c.rtypeIface(c.typeArg(sv(c.args[0].xs[0])))) })
	V("Len", func(c *icall) {
		t, v, _ := c.valOf(c.args[0])
		switch u := t.Underlying().(type) {
		case *types.Array:
			c.ret(sv(c.ex.c64(uint64(u.Len()))))
		case *types.Slice, *types.Basic:
			c.ret(sv(v.xs[1]))
		default:
			panic(unsupported("reflect Len of %s", t))
		}
	})
	V("Cap", func(c *icall) { _, v, _ := c.valOf(c.args[0]); c.ret(sv(v.xs[2])) })
	V("Uint", func(c *icall) { _, v, _ := c.valOf(c.args[0]); c.ret(sv(c.ex.b.ZExt(v.e, 64))) })
	V("Int", func(c *icall) { _, v, _ := c.valOf(c.args[0]); c.ret(sv(c.ex.b.SExt(v.e, 64))) })
	V("Bool", func(c *icall) { _, v, _ := c.valOf(c.args[0]); c.ret(sv(v.e)) })
	V("CanAddr", func(c *icall) {
		c.ret(sv(c.ex.b.BNot(c.ex.b.Eq(c.ex.b.And(c.args[0].xs[2], c.ex.c64(flagAddr)), c.ex.c64(0)))))
	})
	V("CanSet", intrinsics["(reflect.Value).CanAddr"])
	V("Elem", func(c *icall) {
		t, v, _ := c.valOf(c.args[0])
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			c.ret(c.mkValue(u.Elem(), v.leaves()[0], flagIndir|flagAddr))
		case *types.Interface:
			a := c.ex.concretize(c.st, v.xs[0])
			dt := c.ex.typeAt(c.st, a)
			fl := uint64(flagIndir)
			if c.ex.ptrShaped(dt) {
				fl = 0
			}
			c.ret(c.mkValue(dt, v.xs[1], fl))
		default:
			panic(goPanic{what: "reflect: Elem of non-pointer value"})
		}
	})
	V("Addr", func(c *icall) {
		t := c.typeArg(sv(c.args[0].xs[0]))
		c.ret(c.mkValue(types.NewPointer(t), c.args[0].xs[1], 0))
	})
	V("Interface", func(c *icall) {
		c.noMerge()
		t, v, _ := c.valOf(c.args[0])
		if _, ok := t.Underlying().(*types.Interface); ok {
			c.ret(v)
			return
		}
		c.ret(c.ex.ifaceOf(c.st, t, v))
	})
	V("Index", func(c *icall) {
		t, v, addr := c.valOf(c.args[0])
		i := c.args[1].e
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if !c.ex.decide(c.st, c.ex.b.Ult(i, v.xs[1])) {
				panic(goPanic{what: "reflect: slice index out of range"})
			}
			c.ret(c.mkValue(u.Elem(), c.ex.b.Add(v.xs[0], c.ex.b.Mul(i, c.ex.c64(c.ex.lay.Info(u.Elem()).size))), flagIndir|flagAddr))
		case *types.Array:
			if !c.ex.decide(c.st, c.ex.b.Ult(i, c.ex.c64(uint64(u.Len())))) {
				panic(goPanic{what: "reflect: array index out of range"})
			}
			fl := uint64(flagIndir)
			if addr {
				fl |= flagAddr
			}
			c.ret(c.mkValue(u.Elem(), c.ex.b.Add(c.args[0].xs[1], c.ex.b.Mul(i, c.ex.c64(c.ex.lay.Info(u.Elem()).size))), fl))
		default:
			panic(unsupported("reflect Index of %s", t))
		}
	})
	V("Field", func(c *icall) {
		t := c.typeArg(sv(c.args[0].xs[0]))
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(goPanic{what: "reflect: Field of non-struct"})
		}
		i := c.ex.concretize(c.st, c.args[1].e)
		fl := c.ex.concretize(c.st, c.args[0].xs[2])
		if fl&flagIndir == 0 {
			panic(unsupported("reflect Field of direct value"))
		}
		c.ret(c.mkValue(s.Field(int(i)).Type(), c.ex.b.Add(c.args[0].xs[1], c.ex.c64(c.ex.lay.Info(t).foff[i])), fl&(flagIndir|flagAddr)))
	})
	V("NumField", func(c *icall) {
		c.ret(sv(c.ex.c64(uint64(c.typeArg(sv(c.args[0].xs[0])).Underlying().(*types.Struct).NumFields()))))
	})
	V("Set", func(c *icall) {
		t, v, _ := c.valOf(c.args[1])
		c.ex.store(c.st, c.args[0].xs[1], c.ex.lay.Info(t), v)
	})
	V("SetLen", func(c *icall) {
		c.ex.store(c.st, c.ex.b.Add(c.args[0].xs[1], c.ex.c64(8)), c.ex.lay.Info(types.Typ[types.Int]), sv(c.args[1].e))
	})
}

// Equality of byte strings. Applications of the hash are equal exactly when
// their arguments are: the hash is taken to be free of collisions (for an
// asserted equality this is the stronger statement).
func (b *Builder) sameBytes(p, q []*Expr) *Expr {
	r := b.tru
	for len(p) >= 32 {
		r = b.BAnd(r, b.sameNode(p[:32], q[:32]))
		p, q = p[32:], q[32:]
	}
	for i := range p {
		r = b.BAnd(r, b.Eq(p[i], q[i]))
	}
	return r
}

// the hash application whose bytes these are
func nodeHash(p []*Expr) *Expr {
	if p[0].op != OExtract || p[0].a.op != OHash {
		return nil
	}
	h := p[0].a
	for i, x := range p {
		if x.op != OExtract || x.a != h || x.w != 8 || x.c != uint64(8*(31-i)) {
			return nil
		}
	}
	return h
}

func (b *Builder) sameNode(p, q []*Expr) *Expr {
	same := true
	for i := range p {
		if p[i] != q[i] {
			same = false
			break
		}
	}
	if same {
		return b.tru
	}
	hp, hq := nodeHash(p), nodeHash(q)
	if hp != nil && hq != nil {
		k := [2]*Expr{hp, hq}
		if r, ok := b.nodeEq[k]; ok {
			return r
		}
		r := b.sameBytes(hp.args, hq.args)
		if b.nodeEq == nil {
			b.nodeEq = map[[2]*Expr]*Expr{}
		}
		b.nodeEq[k] = r
		return r
	}
	if hp == nil {
		if c, x, y := splitIte(p); c != nil {
			return b.Ite(c, b.sameNode(x, q), b.sameNode(y, q))
		}
	}
	if hq == nil {
		if c, x, y := splitIte(q); c != nil {
			return b.Ite(c, b.sameNode(p, x), b.sameNode(p, y))
		}
	}
	r := b.tru
	for i := range p {
		r = b.BAnd(r, b.Eq(p[i], q[i]))
	}
	return r
}

func splitIte(p []*Expr) (c *Expr, x, y []*Expr) {
	for _, e := range p {
		if e.op == OIte {
			if c != nil && c != e.a {
				return nil, nil, nil
			}
			c = e.a
		}
	}
	if c == nil {
		return
	}
	hash := false
	for _, e := range p {
		if e.op == OIte {
			x, y = append(x, e.b), append(y, e.d)
			hash = hash || e.b.op == OExtract && e.b.a.op == OHash || e.d.op == OExtract && e.d.a.op == OHash
		} else {
			x, y = append(x, e), append(y, e)
		}
	}
	if !hash {
		return nil, nil, nil
	}
	return
}
