package main

// The reference: SSZ schemas and values, and the specification's serialisation,
// deserialisation and merkleization over them, written from the SSZ
// specification and independent of the code under test.

import (
	"slices"

	"verif/harness/sym"
)

type Kind int

const (
	KUint Kind = iota
	KBool
	KContainer
	KVector
	KList
	KByteVector
	KByteList
	KBitvector
	KBitlist
)

type Sch struct {
	K      Kind
	Size   int    // KUint: bytes
	N      uint64 // vectors: length (bits for bitvectors)
	Limit  uint64 // lists: limit (bits for bitlists)
	Elem   *Sch
	Fields []*Sch
	Names  []string
	Gen    uint64            // longest list the generator makes
	Lens   []uint64          // if set, the only lengths the generator makes, ascending
	Print  func(*Val) []byte // leaves: what the definition of the leaf type alone prints
}

// Val is a value of a schema.
type Val struct {
	Nil   bool   // a nil pointer, which only printing accepts
	U     uint64 // KUint, KBool (0 or 1)
	Elems []*Val // containers, vectors, lists
	B     []byte // byte vectors and lists; packed bits without delimiter
	Bits  uint64 // number of bits of a bitlist
}

func sUint(n int) *Sch                     { return &Sch{K: KUint, Size: n} }
func sBool() *Sch                          { return &Sch{K: KBool} }
func sVec(e *Sch, n uint64) *Sch           { return &Sch{K: KVector, Elem: e, N: n} }
func sList(e *Sch, limit, gen uint64) *Sch { return &Sch{K: KList, Elem: e, Limit: limit, Gen: gen} }
func sBytesN(n uint64) *Sch                { return &Sch{K: KByteVector, N: n} }
func sBytes(limit, gen uint64) *Sch        { return &Sch{K: KByteList, Limit: limit, Gen: gen} }
func sBitvec(n uint64) *Sch                { return &Sch{K: KBitvector, N: n} }
func sBitlist(limit, gen uint64) *Sch      { return &Sch{K: KBitlist, Limit: limit, Gen: gen} }

func (s *Sch) fixed() bool {
	switch s.K {
	case KList, KByteList, KBitlist:
		return false
	case KVector:
		return s.Elem.fixed()
	case KContainer:
		for _, f := range s.Fields {
			if !f.fixed() {
				return false
			}
		}
	}
	return true
}

// size of a fixed-size schema
func (s *Sch) size() uint64 {
	switch s.K {
	case KUint:
		return uint64(s.Size)
	case KBool:
		return 1
	case KByteVector:
		return s.N
	case KBitvector:
		return (s.N + 7) / 8
	case KVector:
		return s.N * s.Elem.size()
	case KContainer:
		t := uint64(0)
		for _, f := range s.Fields {
			t += f.size()
		}
		return t
	}
	panic("size of variable-size schema")
}

// bytes the schema occupies in the fixed part of its parent
func (s *Sch) slot() uint64 {
	if s.fixed() {
		return s.size()
	}
	return 4
}

// smallest and largest size of an encoding
func (s *Sch) minSize() uint64 {
	if s.fixed() {
		return s.size()
	}
	switch s.K {
	case KList, KByteList:
		return 0
	case KBitlist:
		return 1
	case KVector:
		return s.N * (4 + s.Elem.minSize())
	}
	t := uint64(0)
	for _, f := range s.Fields {
		if f.fixed() {
			t += f.size()
		} else {
			t += 4 + f.minSize()
		}
	}
	return t
}

func (s *Sch) maxSize() uint64 {
	if s.fixed() {
		return s.size()
	}
	switch s.K {
	case KByteList:
		return s.Limit
	case KBitlist:
		return s.Limit/8 + 1
	case KList:
		if s.Elem.fixed() {
			return s.Limit * s.Elem.size()
		}
		return s.Limit * (4 + s.Elem.maxSize())
	case KVector:
		return s.N * (4 + s.Elem.maxSize())
	}
	t := uint64(0)
	for _, f := range s.Fields {
		if f.fixed() {
			t += f.size()
		} else {
			t += 4 + f.maxSize()
		}
	}
	return t
}

func le(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v >> (8 * uint(i)))
	}
	return out
}

// ---- serialisation ----

func Ser(s *Sch, v *Val) []byte {
	switch s.K {
	case KUint:
		return le(v.U, s.Size)
	case KBool:
		return le(v.U, 1)
	case KByteVector, KByteList:
		return v.B
	case KBitvector:
		return v.B
	case KBitlist:
		out := make([]byte, v.Bits/8+1)
		copy(out, v.B)
		out[v.Bits/8] |= 1 << (v.Bits % 8)
		return out
	}
	return serParts(s, v.Elems)
}

func (s *Sch) elem(i int) *Sch {
	if s.K == KContainer {
		return s.Fields[i]
	}
	return s.Elem
}

func serParts(s *Sch, elems []*Val) []byte {
	fixedLen := uint64(0)
	for i := range elems {
		fixedLen += s.elem(i).slot()
	}
	var head, tail []byte
	for i, e := range elems {
		es := s.elem(i)
		if es.fixed() {
			head = append(head, Ser(es, e)...)
		} else {
			head = append(head, le(fixedLen+uint64(len(tail)), 4)...)
			tail = append(tail, Ser(es, e)...)
		}
	}
	return append(head, tail...)
}

// ---- deserialisation: the value, and whether the bytes are a valid encoding ----

func Deser(s *Sch, b []byte) (*Val, bool) {
	n := uint64(len(b))
	if s.fixed() && n != s.size() {
		return nil, false
	}
	switch s.K {
	case KUint:
		v := uint64(0)
		for i := len(b) - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[i])
		}
		return &Val{U: v}, true
	case KBool:
		if b[0] > 1 {
			return nil, false
		}
		return &Val{U: uint64(b[0])}, true
	case KByteVector:
		return &Val{B: b}, true
	case KByteList:
		if n > s.Limit {
			return nil, false
		}
		return &Val{B: b}, true
	case KBitvector:
		if s.N%8 != 0 && b[n-1]>>(s.N%8) != 0 {
			return nil, false
		}
		return &Val{B: b}, true
	case KBitlist:
		if n == 0 {
			return nil, false
		}
		last := b[n-1]
		if last == 0 {
			return nil, false
		}
		top := uint64(7)
		for last>>top == 0 {
			top--
		}
		bits := (n-1)*8 + top
		if bits > s.Limit {
			return nil, false
		}
		p := make([]byte, (bits+7)/8)
		copy(p, b)
		if top != 0 {
			p[n-1] &^= 1 << top
		}
		return &Val{B: p, Bits: bits}, true
	case KVector:
		if s.fixed() {
			return deserFixedElems(s, b, s.N)
		}
		return deserVar(s, b, s.N)
	case KContainer:
		return deserVar(s, b, uint64(len(s.Fields)))
	case KList:
		if s.Elem.fixed() {
			es := s.Elem.size()
			if n%es != 0 || n/es > s.Limit {
				return nil, false
			}
			return deserFixedElems(s, b, n/es)
		}
		if n == 0 {
			return &Val{}, true
		}
		if n < 4 {
			return nil, false
		}
		first := rd32(b, 0)
		if first == 0 || first%4 != 0 || first > n || first/4 > s.Limit {
			return nil, false
		}
		return deserVar(s, b, sym.Concretize(first)/4)
	}
	panic("kind")
}

func rd32(b []byte, i uint64) uint64 {
	return uint64(b[i]) | uint64(b[i+1])<<8 | uint64(b[i+2])<<16 | uint64(b[i+3])<<24
}

func deserFixedElems(s *Sch, b []byte, count uint64) (*Val, bool) {
	es := s.Elem.size()
	v := &Val{}
	for i := uint64(0); i < count; i++ {
		e, ok := Deser(s.Elem, b[i*es:(i+1)*es])
		if !ok {
			return nil, false
		}
		v.Elems = append(v.Elems, e)
	}
	return v, true
}

// fixed part with offsets, then the variable parts
func deserVar(s *Sch, b []byte, count uint64) (*Val, bool) {
	n := uint64(len(b))
	fixedLen := uint64(0)
	for i := 0; i < int(count); i++ {
		fixedLen += s.elem(i).slot()
	}
	if n < fixedLen {
		return nil, false
	}
	v := &Val{Elems: make([]*Val, count)}
	var offs []uint64
	var which []int
	pos := uint64(0)
	for i := 0; i < int(count); i++ {
		es := s.elem(i)
		if es.fixed() {
			e, ok := Deser(es, b[pos:pos+es.size()])
			if !ok {
				return nil, false
			}
			v.Elems[i] = e
			pos += es.size()
			continue
		}
		o := rd32(b, pos)
		pos += 4
		if len(offs) == 0 {
			if o != fixedLen {
				return nil, false
			}
		} else if o < offs[len(offs)-1] || o > n {
			return nil, false
		}
		offs = append(offs, sym.Concretize(o))
		which = append(which, i)
	}
	if len(offs) == 0 && n != fixedLen {
		return nil, false
	}
	for k, i := range which {
		end := n
		if k+1 < len(offs) {
			end = offs[k+1]
		}
		e, ok := Deser(s.elem(i), b[offs[k]:end])
		if !ok {
			return nil, false
		}
		v.Elems[i] = e
	}
	return v, true
}

// ---- merkleization ----

type node = [32]byte

func hash2(a, b node) node {
	var x [64]byte
	copy(x[:32], a[:])
	copy(x[32:], b[:])
	return refHash(x[:])
}

// the hash function of the reference
var refHash = sym.Hash

var zeroTab []node

func zeroRoot(d int) node {
	for len(zeroTab) <= d {
		if len(zeroTab) == 0 {
			zeroTab = append(zeroTab, node{})
			continue
		}
		z := zeroTab[len(zeroTab)-1]
		zeroTab = append(zeroTab, hash2(z, z))
	}
	return zeroTab[d]
}

// smallest d with room for n leaves
func depthFor(n uint64) int {
	d := 0
	for d < 64 && uint64(1)<<uint(d) < n {
		d++
	}
	return d
}

// root of the complete tree of the given depth over the chunks, zero padded
func merkleDepth(chunks []node, d int) node {
	if len(chunks) == 0 {
		return zeroRoot(d)
	}
	if d == 0 {
		return chunks[0]
	}
	if d-1 < 62 && len(chunks) > 1<<uint(d-1) {
		h := 1 << uint(d-1)
		return hash2(merkleDepth(chunks[:h], d-1), merkleDepth(chunks[h:], d-1))
	}
	return hash2(merkleDepth(chunks, d-1), zeroRoot(d-1))
}

func merkleLimit(chunks []node, limit uint64) node { return merkleDepth(chunks, depthFor(limit)) }

func pack(b []byte) []node {
	var out []node
	for len(b) > 0 {
		var c node
		k := copy(c[:], b)
		b = b[k:]
		out = append(out, c)
	}
	return out
}

func mixIn(r node, n uint64) node {
	var l node
	copy(l[:], le(n, 8))
	return hash2(r, l)
}

func ceilDiv(a, b uint64) uint64 {
	q := a / b
	if a%b != 0 {
		q++
	}
	return q
}

func (s *Sch) basic() bool { return s.K == KUint || s.K == KBool }

func HTR(s *Sch, v *Val) node {
	switch s.K {
	case KUint, KBool:
		return pack(Ser(s, v))[0]
	case KByteVector:
		return merkleLimit(pack(v.B), ceilDiv(s.N, 32))
	case KBitvector:
		return merkleLimit(pack(v.B), ceilDiv(s.N, 256))
	case KByteList:
		return mixIn(merkleLimit(pack(v.B), ceilDiv(s.Limit, 32)), uint64(len(v.B)))
	case KBitlist:
		return mixIn(merkleLimit(pack(v.B), ceilDiv(s.Limit, 256)), v.Bits)
	case KVector:
		if s.Elem.basic() {
			return merkleLimit(pack(Ser(s, v)), ceilDiv(s.size(), 32))
		}
		return merkleLimit(roots(s, v), s.N)
	case KList:
		if s.Elem.basic() {
			per := 32 / s.Elem.size()
			return mixIn(merkleLimit(pack(Ser(s, v)), ceilDiv(s.Limit, per)), uint64(len(v.Elems)))
		}
		return mixIn(merkleLimit(roots(s, v), s.Limit), uint64(len(v.Elems)))
	case KContainer:
		return merkleLimit(roots(s, v), uint64(len(s.Fields)))
	}
	panic("kind")
}

func roots(s *Sch, v *Val) []node {
	var out []node
	for i, e := range v.Elems {
		out = append(out, HTR(s.elem(i), e))
	}
	return out
}

// ---- values ----

// EqVal compares without branching on contents.
func EqVal(s *Sch, a, b *Val) bool {
	switch s.K {
	case KUint, KBool:
		return a.U == b.U
	case KByteVector, KByteList, KBitvector:
		return sym.SameBytes(a.B, b.B)
	case KBitlist:
		if a.Bits != b.Bits {
			return false
		}
		return sym.SameBytes(a.B, b.B)
	}
	if len(a.Elems) != len(b.Elems) {
		return false
	}
	r := true
	for i := range a.Elems {
		r = sym.And(r, EqVal(s.elem(i), a.Elems[i], b.Elems[i]))
	}
	return r
}

// GenVal returns an arbitrary valid value; lengths are enumerated up to the
// schema's bound, contents are symbolic.
func GenVal(s *Sch, name string) *Val {
	switch s.K {
	case KUint:
		switch s.Size {
		case 1:
			return &Val{U: uint64(sym.U8(name))}
		case 2:
			return &Val{U: uint64(sym.U16(name))}
		case 4:
			return &Val{U: uint64(sym.U32(name))}
		}
		return &Val{U: sym.U64(name)}
	case KBool:
		return &Val{U: uint64(sym.U8(name) & 1)}
	case KByteVector:
		return &Val{B: sym.Bytes(name, int(s.N))}
	case KByteList:
		n := s.genLen(name)
		return &Val{B: sym.Bytes(name, int(n))}
	case KBitvector:
		b := sym.Bytes(name, int((s.N+7)/8))
		if s.N%8 != 0 {
			b[len(b)-1] &= 1<<(s.N%8) - 1
		}
		return &Val{B: b}
	case KBitlist:
		n := s.genLen(name)
		return genBits(name, n)
	}
	v := &Val{}
	n := uint64(len(s.Fields))
	switch s.K {
	case KVector:
		n = s.N
	case KList:
		n = s.genLen(name)
	}
	for i := 0; i < int(n); i++ {
		v.Elems = append(v.Elems, GenVal(s.elem(i), name+"."+itoa(i)))
	}
	return v
}

func genBits(name string, n uint64) *Val {
	b := sym.Bytes(name, int((n+7)/8))
	if n%8 != 0 {
		b[len(b)-1] &= 1<<(n%8) - 1
	}
	return &Val{B: b, Bits: n}
}

// lens is a variable-size schema of which only some lengths are generated
func lens(s *Sch, l ...uint64) *Sch {
	s.Lens = l
	return s
}

func (s *Sch) genLen(name string) uint64 {
	n := sym.Choose(name+".len", s.genCount())
	if s.Lens != nil {
		return s.Lens[n]
	}
	return n
}

// number of different lengths
func (s *Sch) genCount() uint64 {
	if s.Lens != nil {
		return uint64(len(s.Lens))
	}
	return s.genMax() + 1
}

func (s *Sch) genMax() uint64 {
	if s.Lens != nil {
		return s.Lens[len(s.Lens)-1]
	}
	if s.Gen < s.Limit {
		return s.Gen
	}
	return s.Limit
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// Depth of nested lists etc. is irrelevant; obsVal records a value for trace comparison.
func obsVal(s *Sch, name string, v *Val) { sym.ObsBytes(name, Ser(s, v)) }

// shapes is the number of different combinations of lengths in generated values.
func (s *Sch) shapes(leaf float64) float64 {
	switch s.K {
	case KByteList, KBitlist:
		return float64(s.genCount())
	case KList:
		n, x, e := 0.0, 1.0, s.Elem.shapes(leaf)
		for i := uint64(0); i <= s.genMax(); i++ {
			if s.Lens == nil || slices.Contains(s.Lens, i) {
				n += x
			}
			x *= e
		}
		return n
	case KVector:
		x, e := 1.0, s.Elem.shapes(leaf)
		for i := uint64(0); i < s.N; i++ {
			x *= e
		}
		return x
	case KContainer:
		x := 1.0
		for _, f := range s.Fields {
			x *= f.shapes(leaf)
		}
		return x
	}
	if s.K == KUint || s.K == KBool {
		return leaf
	}
	return 1
}

// leaves is the number of basic values, byte strings and bitfields in the longest generated value.
func (s *Sch) leaves() int {
	switch s.K {
	case KList:
		return int(s.genMax()) * s.Elem.leaves()
	case KVector:
		return int(s.N) * s.Elem.leaves()
	case KContainer:
		n := 0
		for _, f := range s.Fields {
			n += f.leaves()
		}
		return n
	}
	return 1
}

// genSize is the size of the longest generated value.
func (s *Sch) genSize() uint64 {
	if s.fixed() {
		return s.size()
	}
	switch s.K {
	case KByteList:
		return s.genMax()
	case KBitlist:
		return s.genMax()/8 + 1
	}
	n := uint64(len(s.Fields))
	if s.K == KVector {
		n = s.N
	} else if s.K == KList {
		n = s.genMax()
	}
	t := uint64(0)
	for i := 0; i < int(n); i++ {
		e := s.elem(i)
		if !e.fixed() {
			t += 4
		}
		t += e.genSize()
	}
	return t
}
