package main

import (
	"errors"
	"io"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"verif/harness/sym"
)

// one exit, so that the engine merges the two arms
func b2u(b bool) (r uint64) {
	if b {
		r = 1
	}
	return r
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// the limit of the types in family "sym"
var symLimit uint64

// How values are laid out in memory. Lists have room for one more element, in
// which there is something else. If spareEmpty, the empty ones are both nil and
// such. If inPlace, setting a value keeps memory where there is room.
var spareEmpty, inPlace bool

func keeps(room, want int) bool { return inPlace && want <= room }
func spares(n int) bool         { return n > 0 || spareEmpty && sym.Choose("spare", 2) == 1 }

func setBytes(p, b []byte) []byte {
	n := len(b)
	if keeps(cap(p), n) {
		p = p[:n]
	} else {
		if !spares(n) {
			return nil
		}
		p = make([]byte, n+1)
		p[n] = 0xa5
		p = p[:n]
	}
	copy(p, b)
	return p
}

// junk is some value with few zeros.
func junk(s *Sch) *Val {
	fill := func(n uint64) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xa5
		}
		return b
	}
	switch s.K {
	case KUint:
		return &Val{U: 0xa5a5a5a5a5a5a5a5 >> (64 - 8*uint(s.Size))}
	case KBool:
		return &Val{U: 1}
	case KByteVector:
		return &Val{B: fill(s.N)}
	case KBitvector:
		b := fill((s.N + 7) / 8)
		if s.N%8 != 0 {
			b[len(b)-1] &= 1<<(s.N%8) - 1
		}
		return &Val{B: b}
	case KByteList:
		return &Val{B: fill(min(2, s.Limit))}
	case KBitlist:
		if s.Limit == 0 {
			return &Val{}
		}
		return &Val{B: []byte{1}, Bits: 1}
	}
	n := uint64(len(s.Fields))
	if s.K == KVector {
		n = s.N
	} else if s.K == KList {
		n = min(1, s.Limit)
	}
	v := &Val{}
	for i := 0; i < int(n); i++ {
		v.Elems = append(v.Elems, junk(s.elem(i)))
	}
	return v
}

// resetState undoes what an earlier job in the same process may have left.
func resetState() {
	symLimit = 0
	zeroTab = nil
	spareEmpty, inPlace = false, false
	refHash = sym.Hash
}

// value of a Go bitlist: bits without the delimiter
func getBitlist(b []byte) *Val {
	n := len(b)
	if n == 0 || b[n-1] == 0 {
		return &Val{Bits: 1 << 62}
	}
	top := uint64(7)
	for b[n-1]>>top == 0 {
		top--
	}
	bits := uint64(n-1)*8 + top
	p := make([]byte, (bits+7)/8)
	copy(p, b)
	if top != 0 {
		p[n-1] &^= 1 << top
	}
	return &Val{B: p, Bits: bits}
}

var _ = bitfields.BitlistLen

// ---- readers and writers ----

type sliceReader struct {
	b    []byte
	pos  int
	take int // bytes handed out
}

func (r *sliceReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:])
	r.pos += n
	r.take += n
	return n, nil
}

type sliceWriter struct{ b []byte }

func (w *sliceWriter) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

var errBroken = errors.New("broken")

// ---- operations ----

func encode(t *TypeDef, ssz types.SSZ, p any) []byte {
	w := &sliceWriter{}
	n, err := zssz.Encode(w, p, ssz)
	sym.Assert(err == nil, "encoding a valid value fails")
	sym.Assert(n == len(w.b), "count returned by Encode differs from the bytes written")
	return w.b
}

func decode(ssz types.SSZ, b []byte, p any) error {
	return zssz.Decode(&sliceReader{b: b}, uint64(len(b)), p, ssz)
}

func dryCheck(ssz types.SSZ, b []byte) error {
	return zssz.DryCheck(&sliceReader{b: b}, uint64(len(b)), ssz)
}

// an arbitrary value placed in a fresh destination
func genInto(t *TypeDef, s *Sch, name string) (any, *Val) {
	v := GenVal(s, name)
	p := t.New()
	t.Set(p, v)
	return p, v
}

// an arbitrary input: its length is enumerated, its contents are symbolic
func input(t *TypeDef, s *Sch, bound int) []byte {
	if windows {
		return windowInput(s)
	}
	return sym.Bytes("in", inputLen(s, bound))
}

// windows selects inputs of windowInput
var windows bool

// windowed is a job over inputs of windowInput
func windowed(f func(t *TypeDef, bound int)) func(t *TypeDef, bound int) {
	return func(t *TypeDef, bound int) {
		windows = true
		f(t, bound)
	}
}

// windowInput is the encoding of an arbitrary value in which two adjacent
// offsets, or an offset and the four bytes after it, are replaced by arbitrary
// bytes, or which is a byte shorter or longer.
func windowInput(s *Sch) []byte {
	b := Ser(s, GenVal(s, "v"))
	marks = marks[:0]
	markOffsets(s, b, 0)
	c := int(sym.Choose("window", uint64(len(marks)+2)))
	switch {
	case c < len(marks):
		w := b[marks[c]:]
		if len(w) > 8 {
			w = w[:8]
		}
		copy(w, sym.Bytes("replaced", len(w)))
	case c == len(marks):
		if len(b) > 0 {
			b = b[:len(b)-1]
		}
	default:
		b = append(b, sym.Bytes("more", 1)...)
	}
	return b
}

// marks are the places of the offsets in an encoding
var marks []int

func markOffsets(s *Sch, b []byte, at int) {
	if s.fixed() || s.K == KByteList || s.K == KBitlist || s.K == KList && s.Elem.fixed() {
		return
	}
	n := len(s.Fields)
	switch s.K {
	case KVector:
		n = int(s.N)
	case KList:
		n = 0
		if len(b) > 0 {
			n = int(rd32(b, 0)) / 4
		}
	}
	i := 0
	last, lastSch := -1, (*Sch)(nil)
	for k := 0; k < n; k++ {
		e := s.elem(k)
		if e.fixed() {
			i += int(e.size())
			continue
		}
		marks = append(marks, at+i)
		o := int(rd32(b, uint64(i)))
		if last >= 0 {
			markOffsets(lastSch, b[last:o], at+last)
		}
		last, lastSch = o, e
		i += 4
	}
	if last >= 0 {
		markOffsets(lastSch, b[last:], at+last)
	}
}

// hasOffsets: inputs of other jobs do not reach the values of these types
func hasOffsets(t *TypeDef) bool {
	s := t.Sch()
	if t.Fam == "sym" || s.fixed() || s.K == KByteList || s.K == KBitlist || s.K == KList && s.Elem.fixed() {
		return false
	}
	return t.Dec == 0 || s.genSize() > uint64(t.Dec)
}

func inputLen(s *Sch, bound int) int {
	if s.fixed() {
		n := int(s.size())
		c := int(sym.Choose("n", 4))
		if c == 3 {
			return 0
		}
		return n - 1 + c
	}
	long := longInputs(s, bound)
	n := sym.Choose("n", uint64(bound+1+len(long)))
	if n > uint64(bound) {
		return long[n-uint64(bound)-1]
	}
	return int(n)
}

// longInputs are further lengths, about those of the long values of a list.
func longInputs(s *Sch, bound int) (out []int) {
	for _, l := range s.Lens {
		n := 0
		switch {
		case s.K == KByteList:
			n = int(l)
		case s.K == KBitlist:
			n = int(l)/8 + 1
		case s.K == KList && s.Elem.fixed():
			n = int(l) * int(s.Elem.size())
		}
		for k := n - 1; k <= n+1; k++ {
			if k > bound && k < 4500 && (len(out) == 0 || k > out[len(out)-1]) {
				out = append(out, k)
			}
		}
	}
	return
}

func useHash() htr.HashFn {
	htr.InitZeroHashes(sym.Hash)
	return htr.HashFn(sym.Hash)
}

func sameRoot(a, b [32]byte) bool { return sym.SameBytes(a[:], b[:]) }

type signed = types.SignedSSZ

// pickLimit gives the types of family "sym" an arbitrary limit, small enough
// for the byte size of the largest value to fit 63 bits.
func pickLimit(t *TypeDef) {
	if t.Fam == "sym" {
		boundLimit(t, sym.U64("limit"))
	}
}

// boundLimit sets the limit of the types of family "sym".
func boundLimit(t *TypeDef, limit uint64) {
	symLimit = 1
	s := t.Sch()
	per := uint64(1)
	if s.K == KList {
		per = s.maxSize()
	}
	symLimit = limit
	if s.K != KBitlist {
		sym.Assume(symLimit <= (1<<63-1)/per)
	} else {
		sym.Assume(symLimit < 1<<63)
	}
}

// anyUint is an arbitrary number of up to max binary digits, split by their
// count, which is returned, too (each count is one path of its own, which keeps
// the conditions simple).
func anyUint(name string, max uint64) (v uint64, digits uint64) {
	d := sym.Choose(name+"bits", max+1)
	lo, hi := uint64(0), uint64(0)
	if d > 0 {
		lo, hi = uint64(1)<<(d-1), uint64(1)<<(d-1)+(uint64(1)<<(d-1)-1)
	}
	return sym.Range(name, lo, hi), d
}

// longest returns a value in which every list is as long as the generator makes them.
func longest(s *Sch, name string) *Val {
	switch s.K {
	case KByteList:
		return &Val{B: sym.Bytes(name, int(s.genMax()))}
	case KBitlist:
		return genBits(name, s.genMax())
	case KVector, KList, KContainer:
		n := uint64(len(s.Fields))
		if s.K == KVector {
			n = s.N
		} else if s.K == KList {
			n = s.genMax()
		}
		v := &Val{}
		for i := 0; i < int(n); i++ {
			v.Elems = append(v.Elems, longest(s.elem(i), name+"."+itoa(i)))
		}
		return v
	}
	return GenVal(s, name)
}

// markOmitted puts arbitrary contents into the omitted fields and returns them.
func markOmitted(t *TypeDef, p any) (out []uint64) {
	f := Omits[t.Name]
	if f == nil {
		return nil
	}
	for _, q := range f(p) {
		switch x := q.(type) {
		case *uint64:
			*x = sym.U64("omitted")
			out = append(out, *x)
		case *uint32:
			*x = sym.U32("omitted")
			out = append(out, uint64(*x))
		case *[3]byte:
			for i := range x {
				x[i] = sym.U8("omitted")
				out = append(out, uint64(x[i]))
			}
		case *uint8:
			*x = sym.U8("omitted")
			out = append(out, uint64(*x))
		case *[7]byte:
			for i := range x {
				x[i] = sym.U8("omitted")
				out = append(out, uint64(x[i]))
			}
		case *Small:
			x.A, x.B = sym.U16("omitted"), sym.U8("omitted")
			out = append(out, uint64(x.A), uint64(x.B))
		}
	}
	return
}

func sameOmitted(t *TypeDef, p any, keep []uint64) bool {
	f := Omits[t.Name]
	if f == nil {
		return true
	}
	r := true
	i := 0
	eq := func(v uint64) {
		r = sym.And(r, v == keep[i])
		i++
	}
	for _, q := range f(p) {
		switch x := q.(type) {
		case *uint64:
			eq(*x)
		case *uint32:
			eq(uint64(*x))
		case *[3]byte:
			for _, b := range x {
				eq(uint64(b))
			}
		case *uint8:
			eq(uint64(*x))
		case *[7]byte:
			for _, b := range x {
				eq(uint64(b))
			}
		case *Small:
			eq(uint64(x.A))
			eq(uint64(x.B))
		}
	}
	return r
}

// panics reports whether f panics.
func panics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return
}
