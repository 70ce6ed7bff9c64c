package main

// Intrinsics of the harness interface that act on whole buffers.

import "fmt"

func init() {
	S := func(name string, f intrinsic) { intrinsics[symPkg+name] = f }
	S("And", func(c *icall) { c.ret(sv(c.ex.b.BAnd(c.args[0].e, c.args[1].e))) })
	S("Or", func(c *icall) { c.ret(sv(c.ex.b.BOr(c.args[0].e, c.args[1].e))) })
	S("Twice", func(c *icall) {
		fn, binds := c.ex.funcOf(c.st, c.args[0].e)
		nf := c.ex.pushFrame(c.st, fn, nil, binds, nil)
		nf.discard = true
		c.pushed = true
	})
	// Fill writes arbitrary bytes over the whole slice, whose length may be symbolic.
	S("Fill", func(c *icall) {
		name := c.input("")
		ex, st := c.ex, c.st
		addr, n := c.args[1].xs[0], c.args[1].xs[1]
		if v, ok := ex.determined(st, n); ok && v <= 4096 {
			bs := make([]*Expr, v)
			for i := range bs {
				bs[i] = c.newVar(fmt.Sprintf("%s@%d", name, i), 8)
			}
			ex.storeBytes(st, addr, bs)
			return
		}
		c.extent(addr, n, true)
		p := ex.resolve(st, addr, 0, true)
		off, ok := ex.determined(st, p.off)
		if !ok || off != 0 || p.o.symSize == nil {
			panic(unsupported("sym.Fill of part of an object"))
		}
		ex.noteWrite(st, p)
		o := ex.owned(st, p.addr)
		o.havoc = name
		o.sparse = nil
		o.slog = nil
	})
	// Touch reads the whole slice, whose length may be symbolic.
	S("Touch", func(c *icall) { c.extent(c.args[0].xs[0], c.args[0].xs[1], false) })
	S("Identical", func(c *icall) {
		x, y := c.args[0], c.args[1]
		nx, ny := c.ex.concretize(c.st, x.xs[1]), c.ex.concretize(c.st, y.xs[1])
		same := nx == ny
		if same {
			p, q := c.ex.loadBytes(c.st, x.xs[0], nx), c.ex.loadBytes(c.st, y.xs[0], nx)
			for i := range p {
				same = same && p[i] == q[i]
			}
		}
		c.ret(sv(c.ex.b.Bool(same)))
	})
	// Strip removes the given characters; symbolic bytes stay.
	S("Strip", func(c *icall) {
		c.noMerge()
		n := c.ex.concretize(c.st, c.args[0].xs[1])
		cut := c.str(1)
		var out []*Expr
		for _, e := range c.ex.loadBytes(c.st, c.args[0].xs[0], n) {
			if e.isConst() {
				drop := false
				for i := 0; i < len(cut); i++ {
					if uint64(cut[i]) == e.c {
						drop = true
					}
				}
				if drop {
					continue
				}
			}
			out = append(out, e)
		}
		s := c.ex.newString(c.st, out)
		c.ret(Val{xs: []*Expr{s.xs[0], s.xs[1], s.xs[1]}})
	})
}

// every byte of [addr, addr+n) must lie inside one object
func (c *icall) extent(addr, n *Expr, write bool) {
	ex, st := c.ex, c.st
	if ex.decide(st, ex.b.Eq(n, ex.c64(0))) {
		return
	}
	p := ex.resolve(st, addr, 1, write)
	size := ex.c64(p.o.size)
	if p.o.symSize != nil {
		size = p.o.symSize
	}
	if !ex.decide(st, ex.b.BAnd(ex.b.Ule(p.off, size), ex.b.Ule(n, ex.b.Sub(size, p.off)))) {
		panic(memFault{fmt.Sprintf("access beyond an object (%s)", p.o.site)})
	}
}
