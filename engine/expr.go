package main

// Bit-vector terms with hash-consing and local simplification.
// Width 0 is the boolean sort, widths 1..64 are bit-vectors, width 256 only occurs for OHash.

import (
	"crypto/sha256"
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OZExt
	OSExt
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OBAnd
	OBOr
	OBNot
	OHash // uninterpreted 512->256 hash application, args = 64 byte terms
)

type Expr struct {
	op     Op
	w      uint16
	id     int32
	c      uint64 // constant value; extract low bit; variable number
	a, b   *Expr
	d      *Expr
	args   []*Expr
	name   string
	lo, hi uint64 // unsigned interval (w<=64)
	kz     uint64 // bits known to be zero
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.c == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.c == 0 }

type ekey struct {
	op      Op
	w       uint16
	c       uint64
	a, b, d *Expr
}

type Builder struct {
	tab    map[ekey]*Expr
	fixed  map[string]uint64 // all inputs are constants (concrete re-execution)
	hashes map[string]*Expr
	nodeEq map[[2]*Expr]*Expr
	vars   map[string]*Expr
	varlst []*Expr
	varPos map[*Expr]*Expr // position of a byte of a large input
	n      int32
	tru    *Expr
	fls    *Expr
	bytes  [256]*Expr
	small  [1024]*Expr
	c64    map[uint64]*Expr
}

func NewBuilder() *Builder {
	b := &Builder{tab: map[ekey]*Expr{}, hashes: map[string]*Expr{}, vars: map[string]*Expr{}, varPos: map[*Expr]*Expr{}, c64: map[uint64]*Expr{}}
	b.tru = b.mk(ekey{op: OConst, w: 0, c: 1})
	b.fls = b.mk(ekey{op: OConst, w: 0, c: 0})
	for i := range b.bytes {
		b.bytes[i] = b.Const(uint64(i), 8)
	}
	return b
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func (b *Builder) mk(k ekey) *Expr {
	if e, ok := b.tab[k]; ok {
		return e
	}
	e := &Expr{op: k.op, w: k.w, c: k.c, a: k.a, b: k.b, d: k.d, id: b.n}
	b.n++
	e.setRange()
	if k.op != OConst && e.w > 0 && e.w <= 64 && e.lo == e.hi {
		e = b.Const(e.lo, e.w)
	}
	b.tab[k] = e
	return e
}

// computes the interval and the known-zero bits
func (e *Expr) setRange() {
	m := mask(e.w)
	e.lo, e.hi = 0, m
	e.kz = ^m
	if e.w > 64 {
		return
	}
	switch e.op {
	case OConst:
		e.lo, e.hi, e.kz = e.c, e.c, ^e.c
		return
	case OZExt:
		e.lo, e.hi = e.a.lo, e.a.hi
		e.kz = e.a.kz | ^mask(e.a.w)
	case OConcat:
		if e.a.w <= 64 && e.b.w <= 64 {
			e.lo = e.a.lo<<e.b.w | e.b.lo
			e.hi = e.a.hi<<e.b.w | e.b.hi
			e.kz = (e.a.kz << e.b.w) | (e.b.kz & mask(e.b.w)) | ^m
		}
	case OExtract:
		if e.a.w <= 64 {
			e.kz = (e.a.kz >> e.c) | ^m
			if e.a.hi>>e.c <= m {
				e.lo, e.hi = e.a.lo>>e.c, e.a.hi>>e.c
			}
		}
	case OAdd:
		s, c := bits.Add64(e.a.hi, e.b.hi, 0)
		if c == 0 && s <= m {
			e.lo, e.hi = e.a.lo+e.b.lo, s
		}
		tz := min(bits.TrailingZeros64(^e.a.kz), bits.TrailingZeros64(^e.b.kz))
		e.kz |= (uint64(1) << tz) - 1
	case OSub:
		if e.a.lo >= e.b.hi {
			e.lo, e.hi = e.a.lo-e.b.hi, e.a.hi-e.b.lo
		}
	case OMul:
		h, l := bits.Mul64(e.a.hi, e.b.hi)
		if h == 0 && l <= m {
			e.lo, e.hi = e.a.lo*e.b.lo, l
		}
		tz := bits.TrailingZeros64(^e.a.kz) + bits.TrailingZeros64(^e.b.kz)
		if tz < 64 {
			e.kz |= (uint64(1) << tz) - 1
		}
	case OUDiv:
		if e.b.lo > 0 {
			e.lo, e.hi = e.a.lo/e.b.hi, e.a.hi/e.b.lo
		}
	case OURem:
		if e.b.lo > 0 {
			e.hi = min(e.a.hi, e.b.hi-1)
			if e.a.hi < e.b.lo {
				e.lo, e.hi = e.a.lo, e.a.hi
			}
		}
	case OAnd:
		e.kz |= e.a.kz | e.b.kz
		e.hi = min(e.a.hi, e.b.hi)
	case OOr:
		e.kz |= e.a.kz & e.b.kz
		e.lo = max(e.a.lo, e.b.lo)
	case OXor:
		e.kz |= e.a.kz & e.b.kz
	case OIte:
		e.lo, e.hi = min(e.b.lo, e.d.lo), max(e.b.hi, e.d.hi)
		e.kz = e.b.kz & e.d.kz
	case OLShr:
		e.hi = e.a.hi
	}
	if e.w > 0 {
		if x := ^e.kz & m; x < e.hi {
			e.hi = x
		}
		if e.hi != m { // bits above the highest possible one
			n := uint(64 - bits.LeadingZeros64(e.hi))
			if n < 64 {
				e.kz |= ^((uint64(1) << n) - 1)
			}
		}
	}
}

func (b *Builder) Const(v uint64, w uint16) *Expr {
	v &= mask(w)
	if w == 8 {
		if e := b.bytes[v]; e != nil {
			return e
		}
	} else if w == 64 {
		if v < uint64(len(b.small)) {
			if e := b.small[v]; e != nil {
				return e
			}
		}
		if e, ok := b.c64[v]; ok {
			return e
		}
		e := b.mk(ekey{op: OConst, w: w, c: v})
		b.c64[v] = e
		if v < uint64(len(b.small)) {
			b.small[v] = e
		}
		return e
	}
	return b.mk(ekey{op: OConst, w: w, c: v})
}
func (b *Builder) Bool(v bool) *Expr {
	if v {
		return b.tru
	}
	return b.fls
}
func (b *Builder) Var(name string, w uint16) *Expr {
	if b.fixed != nil {
		return b.Const(b.fixed[name]&mask(w), w)
	}
	if e, ok := b.vars[name]; ok {
		if e.w != w {
			panic("variable width clash " + name)
		}
		return e
	}
	e := &Expr{op: OVar, w: w, c: uint64(len(b.varlst)), name: name, id: b.n}
	b.n++
	e.setRange()
	b.vars[name] = e
	b.varlst = append(b.varlst, e)
	return e
}

func (b *Builder) Hash(args []*Expr) *Expr {
	k := make([]byte, 0, 4*len(args))
	for _, a := range args {
		k = append(k, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	if e, ok := b.hashes[string(k)]; ok {
		return e
	}
	e := &Expr{op: OHash, w: 256, args: append([]*Expr(nil), args...), id: b.n}
	b.n++
	b.hashes[string(k)] = e
	return e
}

func sx(v uint64, w uint16) int64 {
	return int64(v<<(64-w)) >> (64 - w)
}

func (b *Builder) Add(x, y *Expr) *Expr {
	w := x.w
	if x.isConst() && y.isConst() {
		return b.Const(x.c+y.c, w)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.c == 0 {
			return x
		}
		if x.op == OAdd && x.b.isConst() {
			return b.Add(x.a, b.Const(x.b.c+y.c, w))
		}
		if x.op == OSub && x.b.isConst() {
			return b.Add(x.a, b.Const(y.c-x.b.c, w))
		}
		if x.op == OSub && x.a.isConst() {
			return b.Sub(b.Const(x.a.c+y.c, w), x.b)
		}
		if x.op == OIte && x.b.isConst() && x.d.isConst() {
			return b.Ite(x.a, b.Add(x.b, y), b.Add(x.d, y))
		}
	} else {
		// pull constants out
		if x.op == OAdd && x.b.isConst() {
			return b.Add(b.Add(x.a, y), x.b)
		}
		if y.op == OAdd && y.b.isConst() {
			return b.Add(b.Add(x, y.a), y.b)
		}
		if x.op == OSub && x.b == y {
			return x.a
		}
		if y.op == OSub && y.b == x {
			return y.a
		}
	}
	if ^x.kz&^y.kz == 0 {
		if r := b.orPieces(x, y); r != nil {
			return r
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OAdd, w: w, a: x, b: y})
}

func (b *Builder) Sub(x, y *Expr) *Expr {
	w := x.w
	if x.isConst() && y.isConst() {
		return b.Const(x.c-y.c, w)
	}
	if x == y {
		return b.Const(0, w)
	}
	if y.isConst() {
		return b.Add(x, b.Const(-y.c, w))
	}
	if x.op == OAdd {
		if x.a == y {
			return x.b
		}
		if x.b == y {
			return x.a
		}
	}
	if x.op == OAdd && x.b.isConst() {
		if y.op == OAdd && y.b.isConst() {
			return b.Add(b.Sub(x.a, y.a), b.Const(x.b.c-y.b.c, w))
		}
		return b.Add(b.Sub(x.a, y), x.b)
	}
	if y.op == OAdd {
		if y.b.isConst() {
			return b.Add(b.Sub(x, y.a), b.Const(-y.b.c, w))
		}
		if y.a == x {
			return b.Sub(b.Const(0, w), y.b)
		}
		if y.b == x {
			return b.Sub(b.Const(0, w), y.a)
		}
	}
	return b.mk(ekey{op: OSub, w: w, a: x, b: y})
}

func (b *Builder) Mul(x, y *Expr) *Expr {
	w := x.w
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return b.Const(x.c*y.c, w)
		}
		switch {
		case y.c == 0:
			return y
		case y.c == 1:
			return x
		case y.c&(y.c-1) == 0:
			return b.Shl(x, b.Const(uint64(bits.TrailingZeros64(y.c)), w))
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OMul, w: w, a: x, b: y})
}

func (b *Builder) UDiv(x, y *Expr) *Expr {
	if y.isConst() && y.c != 0 {
		if x.isConst() {
			return b.Const(x.c/y.c, x.w)
		}
		if y.c&(y.c-1) == 0 {
			return b.LShr(x, b.Const(uint64(bits.TrailingZeros64(y.c)), x.w))
		}
	}
	if y.lo > 0 && x.hi < y.lo {
		return b.Const(0, x.w)
	}
	if r := b.narrow(OUDiv, x, y); r != nil {
		return r
	}
	return b.mk(ekey{op: OUDiv, w: x.w, a: x, b: y})
}

// perform a division-like operation in the number of bits that can be non-zero
func (b *Builder) narrow(op Op, x, y *Expr) *Expr {
	n := uint16(64 - bits.LeadingZeros64(x.hi|y.hi))
	if n == 0 {
		n = 1
	}
	if n+7 < x.w && y.lo > 0 {
		xs, ys := b.Extract(x, 0, n), b.Extract(y, 0, n)
		var r *Expr
		if op == OUDiv {
			r = b.UDiv(xs, ys)
		} else {
			r = b.URem(xs, ys)
		}
		return b.ZExt(r, x.w)
	}
	return nil
}

func (b *Builder) URem(x, y *Expr) *Expr {
	if y.isConst() && y.c != 0 {
		if x.isConst() {
			return b.Const(x.c%y.c, x.w)
		}
		if y.c&(y.c-1) == 0 {
			return b.And(x, b.Const(y.c-1, x.w))
		}
	}
	if y.lo > 0 && x.hi < y.lo {
		return x
	}
	if r := b.narrow(OURem, x, y); r != nil {
		return r
	}
	return b.mk(ekey{op: OURem, w: x.w, a: x, b: y})
}

func (b *Builder) SDiv(x, y *Expr) *Expr {
	if y.isConst() && y.c != 0 && x.isConst() {
		p, q := sx(x.c, x.w), sx(y.c, x.w)
		if q == -1 {
			return b.Const(uint64(-p), x.w)
		}
		return b.Const(uint64(p/q), x.w)
	}
	half := mask(x.w) >> 1
	if x.hi <= half && y.hi <= half && y.lo > 0 {
		return b.UDiv(x, y)
	}
	return b.mk(ekey{op: OSDiv, w: x.w, a: x, b: y})
}

func (b *Builder) SRem(x, y *Expr) *Expr {
	if y.isConst() && y.c != 0 && x.isConst() {
		p, q := sx(x.c, x.w), sx(y.c, x.w)
		if q == -1 {
			return b.Const(0, x.w)
		}
		return b.Const(uint64(p%q), x.w)
	}
	half := mask(x.w) >> 1
	if x.hi <= half && y.hi <= half && y.lo > 0 {
		return b.URem(x, y)
	}
	return b.mk(ekey{op: OSRem, w: x.w, a: x, b: y})
}

func (b *Builder) And(x, y *Expr) *Expr {
	if x.w == 0 {
		return b.BAnd(x, y)
	}
	w := x.w
	if x == y {
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if ^x.kz&^y.kz == 0 {
		return b.Const(0, w)
	}
	if y.isConst() {
		if x.isConst() {
			return b.Const(x.c&y.c, w)
		}
		m := y.c
		if ^x.kz&^m == 0 { // mask keeps every possibly-set bit
			return x
		}
		tz := uint16(bits.TrailingZeros64(m))
		run := m >> tz
		if run&(run+1) == 0 { // one contiguous run of ones
			n := uint16(bits.OnesCount64(run))
			r := b.Extract(x, tz, n)
			if tz > 0 {
				r = b.Concat(r, b.Const(0, tz))
			}
			return b.ZExt(r, w)
		}
		if x.op == OAnd && x.b.isConst() {
			return b.And(x.a, b.Const(x.b.c&m, w))
		}
		if x.op == OIte && x.b.isConst() && x.d.isConst() {
			return b.Ite(x.a, b.And(x.b, y), b.And(x.d, y))
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OAnd, w: w, a: x, b: y})
}

func (b *Builder) Or(x, y *Expr) *Expr {
	if x.w == 0 {
		return b.BOr(x, y)
	}
	w := x.w
	if x == y {
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return b.Const(x.c|y.c, w)
		}
		if y.c == 0 {
			return x
		}
		if y.c == mask(w) {
			return y
		}
	}
	if ^x.kz&^y.kz == 0 {
		if r := b.orPieces(x, y); r != nil {
			return r
		}
	}
	if y.isConst() {
		if x.op == OIte && x.b.isConst() && x.d.isConst() {
			return b.Ite(x.a, b.Or(x.b, y), b.Or(x.d, y))
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OOr, w: w, a: x, b: y})
}

// decompose into pieces from low to high
func (b *Builder) pieces(e *Expr, out []*Expr) []*Expr {
	switch e.op {
	case OConcat:
		return b.pieces(e.a, b.pieces(e.b, out))
	case OZExt:
		out = b.pieces(e.a, out)
		return append(out, b.Const(0, e.w-e.a.w))
	}
	return append(out, e)
}

// bitwise or of terms without common possibly-set bits, by pieces
func (b *Builder) orPieces(x, y *Expr) *Expr {
	px, py := b.pieces(x, nil), b.pieces(y, nil)
	if len(px) == 1 && len(py) == 1 {
		return nil
	}
	var res *Expr
	i, j := 0, 0
	var cx, cy *Expr
	for {
		if cx == nil {
			if i >= len(px) {
				break
			}
			cx = px[i]
			i++
		}
		if cy == nil {
			cy = py[j]
			j++
		}
		n := min(cx.w, cy.w)
		lx, ly := cx, cy
		if cx.w > n {
			lx = b.Extract(cx, 0, n)
			cx = b.Extract(cx, n, cx.w-n)
		} else {
			cx = nil
		}
		if ly.w > n {
			ly = b.Extract(cy, 0, n)
			cy = b.Extract(cy, n, cy.w-n)
		} else {
			cy = nil
		}
		var p *Expr
		switch {
		case lx.isConst() && lx.c == 0:
			p = ly
		case ly.isConst() && ly.c == 0:
			p = lx
		case lx.isConst() && ly.isConst():
			p = b.Const(lx.c|ly.c, n)
		default:
			return nil
		}
		if res == nil {
			res = p
		} else {
			res = b.Concat(p, res)
		}
	}
	return res
}

func (b *Builder) Xor(x, y *Expr) *Expr {
	if x.w == 0 {
		return b.BNot(b.Eq(x, y))
	}
	w := x.w
	if x == y {
		return b.Const(0, w)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return b.Const(x.c^y.c, w)
		}
		if y.c == 0 {
			return x
		}
		if y.c == mask(w) {
			return b.Not(x)
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OXor, w: w, a: x, b: y})
}

func (b *Builder) Not(x *Expr) *Expr {
	if x.w == 0 {
		return b.BNot(x)
	}
	if x.isConst() {
		return b.Const(^x.c, x.w)
	}
	if x.op == ONot {
		return x.a
	}
	return b.mk(ekey{op: ONot, w: x.w, a: x})
}

// shift amount has the same width as x
func (b *Builder) Shl(x, y *Expr) *Expr {
	w := x.w
	if y.isConst() {
		if y.c >= uint64(w) {
			return b.Const(0, w)
		}
		if y.c == 0 {
			return x
		}
		if x.isConst() {
			return b.Const(x.c<<y.c, w)
		}
		k := uint16(y.c)
		return b.Concat(b.Extract(x, 0, w-k), b.Const(0, k))
	}
	if x.isConst() && x.c == 0 {
		return x
	}
	return b.mk(ekey{op: OShl, w: w, a: x, b: y})
}

func (b *Builder) LShr(x, y *Expr) *Expr {
	w := x.w
	if y.isConst() {
		if y.c >= uint64(w) {
			return b.Const(0, w)
		}
		if y.c == 0 {
			return x
		}
		k := uint16(y.c)
		return b.ZExt(b.Extract(x, k, w-k), w)
	}
	if x.isConst() && x.c == 0 {
		return x
	}
	return b.mk(ekey{op: OLShr, w: w, a: x, b: y})
}

func (b *Builder) AShr(x, y *Expr) *Expr {
	w := x.w
	if y.isConst() {
		s := y.c
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		if s == 0 {
			return x
		}
		if x.isConst() {
			return b.Const(uint64(sx(x.c, w)>>s), w)
		}
		return b.SExt(b.Extract(x, uint16(s), w-uint16(s)), w)
	}
	return b.mk(ekey{op: OAShr, w: w, a: x, b: y})
}

func (b *Builder) Concat(h, l *Expr) *Expr {
	w := h.w + l.w
	if h.isConst() && l.isConst() {
		return b.Const(h.c<<l.w|l.c, w)
	}
	if h.isConst() && h.c == 0 {
		return b.ZExt(l, w)
	}
	if h.op == OExtract && l.op == OExtract && h.a == l.a && h.c == l.c+uint64(l.w) {
		return b.Extract(h.a, uint16(l.c), w)
	}
	if h.op == OZExt {
		return b.ZExt(b.Concat(h.a, l), w)
	}
	// keep right-nested: concat(concat(a,b),l) -> concat(a, concat(b,l))
	if h.op == OConcat {
		return b.Concat(h.a, b.Concat(h.b, l))
	}
	if l.op == OConcat {
		t := l.a
		if h.isConst() && t.isConst() || h.op == OExtract && t.op == OExtract && h.a == t.a && h.c == t.c+uint64(t.w) {
			return b.Concat(b.Concat(h, t), l.b)
		}
	}
	if l.op == OExtract && l.c == 0 && h.op == OExtract && h.a == l.a && h.c == uint64(l.w) {
		return b.Extract(h.a, 0, w)
	}
	return b.mk(ekey{op: OConcat, w: w, a: h, b: l})
}

// n bits of x starting at lo
func (b *Builder) Extract(x *Expr, lo, n uint16) *Expr {
	if lo == 0 && n == x.w {
		return x
	}
	if x.w <= 64 && (^x.kz>>lo)&mask(n) == 0 {
		return b.Const(0, n)
	}
	switch x.op {
	case OConst:
		return b.Const(x.c>>lo, n)
	case OExtract:
		return b.Extract(x.a, uint16(x.c)+lo, n)
	case OConcat:
		lw := x.b.w
		if lo+n <= lw {
			return b.Extract(x.b, lo, n)
		}
		if lo >= lw {
			return b.Extract(x.a, lo-lw, n)
		}
		return b.Concat(b.Extract(x.a, 0, lo+n-lw), b.Extract(x.b, lo, lw-lo))
	case OZExt:
		if lo+n <= x.a.w {
			return b.Extract(x.a, lo, n)
		}
		if lo >= x.a.w {
			return b.Const(0, n)
		}
		return b.ZExt(b.Extract(x.a, lo, x.a.w-lo), n)
	case OSExt:
		if lo+n <= x.a.w {
			return b.Extract(x.a, lo, n)
		}
	case OIte:
		if x.b.isConst() || x.d.isConst() {
			return b.Ite(x.a, b.Extract(x.b, lo, n), b.Extract(x.d, lo, n))
		}
	case OAnd:
		return b.And(b.Extract(x.a, lo, n), b.Extract(x.b, lo, n))
	case OOr:
		return b.Or(b.Extract(x.a, lo, n), b.Extract(x.b, lo, n))
	case OXor:
		return b.Xor(b.Extract(x.a, lo, n), b.Extract(x.b, lo, n))
	case ONot:
		return b.Not(b.Extract(x.a, lo, n))
	case OAdd:
		if lo == 0 {
			return b.Add(b.Extract(x.a, 0, n), b.Extract(x.b, 0, n))
		}
	case OSub:
		if lo == 0 {
			return b.Sub(b.Extract(x.a, 0, n), b.Extract(x.b, 0, n))
		}
	}
	return b.mk(ekey{op: OExtract, w: n, c: uint64(lo), a: x})
}

func (b *Builder) ZExt(x *Expr, w uint16) *Expr {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return b.Const(x.c, w)
	}
	if x.op == OZExt {
		x = x.a
	}
	if x.op == OIte && x.b.isConst() && x.d.isConst() {
		return b.Ite(x.a, b.Const(x.b.c, w), b.Const(x.d.c, w))
	}
	return b.mk(ekey{op: OZExt, w: w, a: x})
}

func (b *Builder) SExt(x *Expr, w uint16) *Expr {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return b.Const(uint64(sx(x.c, x.w)), w)
	}
	if x.kz&(uint64(1)<<(x.w-1)) != 0 {
		return b.ZExt(x, w)
	}
	return b.mk(ekey{op: OSExt, w: w, a: x})
}

func (b *Builder) Eq(x, y *Expr) *Expr {
	if x == y {
		return b.tru
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.c == y.c)
	}
	if x.w == 0 {
		if y.isConst() {
			if y.c == 1 {
				return x
			}
			return b.BNot(x)
		}
		if x == b.BNot(y) {
			return b.fls
		}
	} else if x.w <= 64 {
		if x.hi < y.lo || y.hi < x.lo {
			return b.fls
		}
		if y.isConst() {
			if y.c&x.kz&mask(x.w) != 0 {
				return b.fls
			}
			switch x.op {
			case OIte:
				if x.b.isConst() || x.d.isConst() {
					return b.BOr(b.BAnd(x.a, b.Eq(x.b, y)), b.BAnd(b.BNot(x.a), b.Eq(x.d, y)))
				}
			case OAdd:
				if x.b.isConst() {
					return b.Eq(x.a, b.Const(y.c-x.b.c, x.w))
				}
			case OSub:
				if x.a.isConst() {
					return b.Eq(x.b, b.Const(x.a.c-y.c, x.w))
				}
			case OXor:
				if x.b.isConst() {
					return b.Eq(x.a, b.Const(x.b.c^y.c, x.w))
				}
			case ONot:
				return b.Eq(x.a, b.Const(^y.c, x.w))
			case OZExt:
				return b.Eq(x.a, b.Const(y.c, x.a.w))
			case OConcat:
				// split when one part is constant
				if x.b.isConst() || x.a.isConst() {
					return b.BAnd(b.Eq(x.a, b.Const(y.c>>x.b.w, x.a.w)), b.Eq(x.b, b.Const(y.c, x.b.w)))
				}
			}
		} else {
			if x.op == OZExt && y.op == OZExt {
				if x.a.w == y.a.w {
					return b.Eq(x.a, y.a)
				}
				n := max(x.a.w, y.a.w)
				return b.Eq(b.ZExt(x.a, n), b.ZExt(y.a, n))
			}
			if x.op == OConcat && y.op == OConcat && x.b.w == y.b.w {
				return b.BAnd(b.Eq(x.a, y.a), b.Eq(x.b, y.b))
			}
			if x.op == OAdd && y.op == OAdd && x.b == y.b {
				return b.Eq(x.a, y.a)
			}
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OEq, w: 0, a: x, b: y})
}

func (b *Builder) Ult(x, y *Expr) *Expr {
	if x == y {
		return b.fls
	}
	if x.hi < y.lo {
		return b.tru
	}
	if x.lo >= y.hi {
		return b.fls
	}
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return b.Ult(x.a, y.a)
	}
	if x.op == OZExt && y.isConst() && y.c <= mask(x.a.w) {
		return b.Ult(x.a, b.Const(y.c, x.a.w))
	}
	if y.op == OZExt && x.isConst() && x.c <= mask(y.a.w) {
		return b.Ult(b.Const(x.c, y.a.w), y.a)
	}
	if y.isConst() && y.c == 1 {
		return b.Eq(x, b.Const(0, x.w))
	}
	if x.isConst() && x.c == 0 {
		return b.BNot(b.Eq(y, x))
	}
	if y.isConst() && x.op == OIte && x.b.isConst() && x.d.isConst() {
		return b.Ite(x.a, b.Ult(x.b, y), b.Ult(x.d, y))
	}
	return b.mk(ekey{op: OUlt, w: 0, a: x, b: y})
}
func (b *Builder) Ule(x, y *Expr) *Expr { return b.BNot(b.Ult(y, x)) }

func (b *Builder) Slt(x, y *Expr) *Expr {
	if x == y {
		return b.fls
	}
	if x.isConst() && y.isConst() {
		return b.Bool(sx(x.c, x.w) < sx(y.c, x.w))
	}
	half := mask(x.w) >> 1
	xn, yn := x.hi <= half, y.hi <= half // non-negative
	if xn && yn {
		return b.Ult(x, y)
	}
	xg, yg := x.lo > half, y.lo > half // negative
	if xn && yg {
		return b.fls
	}
	if xg && yn {
		return b.tru
	}
	if xg && yg {
		return b.Ult(x, y)
	}
	return b.mk(ekey{op: OSlt, w: 0, a: x, b: y})
}
func (b *Builder) Sle(x, y *Expr) *Expr { return b.BNot(b.Slt(y, x)) }

func (b *Builder) BNot(x *Expr) *Expr {
	if x.isConst() {
		return b.Bool(x.c == 0)
	}
	if x.op == OBNot {
		return x.a
	}
	return b.mk(ekey{op: OBNot, w: 0, a: x})
}

func (b *Builder) BAnd(x, y *Expr) *Expr {
	if x.isFalse() || y.isFalse() {
		return b.fls
	}
	if x.isTrue() || x == y {
		return y
	}
	if y.isTrue() {
		return x
	}
	if x.op == OBNot && x.a == y || y.op == OBNot && y.a == x {
		return b.fls
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OBAnd, w: 0, a: x, b: y})
}

func (b *Builder) BOr(x, y *Expr) *Expr {
	if x.isTrue() || y.isTrue() {
		return b.tru
	}
	if x.isFalse() || x == y {
		return y
	}
	if y.isFalse() {
		return x
	}
	if x.op == OBNot && x.a == y || y.op == OBNot && y.a == x {
		return b.tru
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(ekey{op: OBOr, w: 0, a: x, b: y})
}

func (b *Builder) Ite(c, x, y *Expr) *Expr {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.w != y.w {
		panic("Ite width mismatch")
	}
	if c.op == OBNot {
		return b.Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x.isTrue() {
			return b.BOr(c, y)
		}
		if x.isFalse() {
			return b.BAnd(b.BNot(c), y)
		}
		if y.isTrue() {
			return b.BOr(b.BNot(c), x)
		}
		if y.isFalse() {
			return b.BAnd(c, x)
		}
	}
	if x.op == OIte && x.a == c {
		x = x.b
	}
	if y.op == OIte && y.a == c {
		y = y.d
	}
	if x == y {
		return x
	}
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return b.ZExt(b.Ite(c, x.a, y.a), x.w)
	}
	return b.mk(ekey{op: OIte, w: x.w, a: c, b: x, d: y})
}

// ---- evaluation under a model ----

type Model struct {
	vals  []uint64 // by variable number
	cache map[*Expr]uint64
	hc    map[*Expr][32]byte
	uf    map[string][32]byte // if set, interpretation of the hash by its 64 argument bytes
}

func NewModel() *Model { return &Model{cache: map[*Expr]uint64{}} }

func (m *Model) hash(e *Expr) [32]byte {
	if v, ok := m.hc[e]; ok {
		return v
	}
	buf := make([]byte, len(e.args))
	for i, a := range e.args {
		buf[i] = byte(m.eval(a))
	}
	r := sha256.Sum256(buf) // as the native harness computes it
	for i := range r {
		r[i] ^= 0x5a
	}
	if m.hc == nil {
		m.hc = map[*Expr][32]byte{}
	}
	m.hc[e] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OVar:
		if e.c < uint64(len(m.vals)) {
			return m.vals[e.c]
		}
		return 0
	}
	if v, ok := m.cache[e]; ok {
		return v
	}
	var r uint64
	switch e.op {
	case OAdd:
		r = m.eval(e.a) + m.eval(e.b)
	case OSub:
		r = m.eval(e.a) - m.eval(e.b)
	case OMul:
		r = m.eval(e.a) * m.eval(e.b)
	case OUDiv:
		if d := m.eval(e.b); d == 0 {
			r = ^uint64(0)
		} else {
			r = m.eval(e.a) / d
		}
	case OURem:
		if d := m.eval(e.b); d == 0 {
			r = m.eval(e.a)
		} else {
			r = m.eval(e.a) % d
		}
	case OSDiv:
		x, y := sx(m.eval(e.a), e.w), sx(m.eval(e.b), e.w)
		switch y {
		case 0:
			r = 1
			if x >= 0 {
				r = ^uint64(0)
			}
		case -1:
			r = uint64(-x)
		default:
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(m.eval(e.a), e.w), sx(m.eval(e.b), e.w)
		switch y {
		case 0:
			r = uint64(x)
		case -1:
			r = 0
		default:
			r = uint64(x % y)
		}
	case OAnd:
		r = m.eval(e.a) & m.eval(e.b)
	case OOr:
		r = m.eval(e.a) | m.eval(e.b)
	case OXor:
		r = m.eval(e.a) ^ m.eval(e.b)
	case ONot:
		r = ^m.eval(e.a)
	case OShl:
		if s := m.eval(e.b); s < 64 {
			r = m.eval(e.a) << s
		}
	case OLShr:
		if s := m.eval(e.b); s < 64 {
			r = m.eval(e.a) >> s
		}
	case OAShr:
		s := m.eval(e.b)
		if s > 63 {
			s = 63
		}
		r = uint64(sx(m.eval(e.a), e.w) >> s)
	case OConcat:
		r = m.eval(e.a)<<e.b.w | m.eval(e.b)
	case OExtract:
		if e.a.op == OHash {
			h := m.hash(e.a)
			// bit 0 is the lowest bit of byte 31 (big-endian 256-bit number)
			for i := uint16(0); i < e.w; i++ {
				p := uint16(e.c) + i
				bit := h[31-p/8] >> (p % 8) & 1
				r |= uint64(bit) << i
			}
		} else {
			r = m.eval(e.a) >> e.c
		}
	case OZExt:
		r = m.eval(e.a)
	case OSExt:
		r = uint64(sx(m.eval(e.a), e.a.w))
	case OEq:
		if e.a.w == 256 {
			r = b2u(m.hash(e.a) == m.hash(e.b))
		} else {
			r = b2u(m.eval(e.a) == m.eval(e.b))
		}
	case OUlt:
		r = b2u(m.eval(e.a) < m.eval(e.b))
	case OSlt:
		r = b2u(sx(m.eval(e.a), e.a.w) < sx(m.eval(e.b), e.a.w))
	case OIte:
		if m.eval(e.a) != 0 {
			r = m.eval(e.b)
		} else {
			r = m.eval(e.d)
		}
	case OBAnd:
		r = m.eval(e.a) & m.eval(e.b)
	case OBOr:
		r = m.eval(e.a) | m.eval(e.b)
	case OBNot:
		r = m.eval(e.a) ^ 1
	default:
		panic(fmt.Sprintf("eval op %d", e.op))
	}
	if e.op == OEq || e.op == OUlt || e.op == OSlt || e.w == 0 {
		r &= 1
	} else {
		r &= mask(e.w)
	}
	m.cache[e] = r
	return r
}

// does the term mention the uninterpreted hash?
func (b *Builder) hasHash(e *Expr, seen map[*Expr]bool) bool {
	if e == nil || e.op == OConst || e.op == OVar {
		return false
	}
	if v, ok := seen[e]; ok {
		return v
	}
	r := e.op == OHash || b.hasHash(e.a, seen) || b.hasHash(e.b, seen) || b.hasHash(e.d, seen)
	seen[e] = r
	return r
}
