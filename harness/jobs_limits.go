package main

import (
	"io"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/enc"
	"verif/harness/sym"
)

// ---- C15 ----

func jobSymDecode(t *TypeDef, bound int) {
	pickLimit(t)
	s := t.Sch()
	ssz := t.SSZ()
	in := input(t, s, bound)
	v, ok := Deser(s, in)
	p := t.New()
	err := decode(ssz, in, p)
	dry := dryCheck(ssz, in)
	sym.Obs("ok", b2u(err == nil))
	if !ok {
		sym.Assert(err != nil, "an encoding beyond the limit, or invalid otherwise, is accepted")
		sym.Assert(dry != nil, "the dry check accepts an encoding beyond the limit, or invalid otherwise")
		sym.Reach("invalid")
		return
	}
	sym.Assert(err == nil, "a valid encoding within the limit is rejected")
	sym.Assert(dry == nil, "the dry check rejects a valid encoding within the limit")
	if err == nil {
		sym.Assert(EqVal(s, t.Get(p), v), "decoding gives the wrong value")
	}
	sym.Reach("valid")
}

func jobSymHTR(t *TypeDef, _ int) {
	n, _ := anyUint("limit", 63)
	boundLimit(t, n)
	s := t.Sch()
	// the lengths the generator may choose do not depend on the limit
	limit := symLimit
	symLimit = s.Gen
	v := GenVal(t.Sch(), "v")
	symLimit = limit
	n = uint64(len(v.Elems))
	switch s.K {
	case KByteList:
		n = uint64(len(v.B))
	case KBitlist:
		n = v.Bits
	}
	sym.Assume(n <= limit)
	ssz := t.SSZ()
	h := useHash()
	p := t.New()
	t.Set(p, v)
	got := zssz.HashTreeRoot(h, p, ssz)
	sym.Assert(sameRoot(got, HTR(s, v)), "the root is not that of a tree with room for limit elements")
	sym.Reach("done")
}

// jobSymInfo: reported sizes for any limit
func jobSymInfo(t *TypeDef, _ int) {
	pickLimit(t)
	checkInfo(t.Sch(), t.SSZ())
	sym.Reach("done")
}

// bigReader delivers n bytes: head, then arbitrary ones.
type bigReader struct {
	head []byte
	pos  uint64
	n    uint64
}

func (r *bigReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos == r.n {
		return 0, io.EOF
	}
	h := uint64(len(r.head))
	if r.pos < h {
		k := copy(p, r.head[r.pos:])
		r.pos += uint64(k)
		return k, nil
	}
	rest := r.n - r.pos
	k := uint64(len(p))
	if k > rest {
		k = rest
	}
	sym.Fill("body", p[:k])
	r.pos += k
	return int(k), nil
}

func jobLongList(int) {
	sym.BigSizes(true)
	symLimit = sym.U64("limit")
	sym.Assume(symLimit < 1<<60)
	n := sym.Range("n", 1, 1<<30)
	r := &bigReader{n: n}
	var got uint64
	var err error
	size := uint64(1)
	switch sym.Choose("type", 4) {
	case 0:
		var x BytesSYM_g3
		err = zssz.Decode(r, n, &x, zssz.GetSSZ(&x))
		got = uint64(len(x))
	case 1:
		var x ListSYM_U16
		size = 2
		err = zssz.Decode(r, n, &x, zssz.GetSSZ(&x))
		got = uint64(len(x))
	case 2:
		var x ListSYM_U64_g2
		size = 8
		err = zssz.Decode(r, n, &x, zssz.GetSSZ(&x))
		got = uint64(len(x))
	case 3:
		var x BitlistSYM
		err = zssz.Decode(r, n, &x, zssz.GetSSZ(&x))
		if n-1 > symLimit/8 {
			sym.Assert(err != nil, "a bitlist beyond the limit is accepted")
		} else if n-1 < symLimit/8 {
			// the last byte decides: any non-zero one will do
			if err == nil {
				sym.Assert(uint64(len(x)) == n, "decoding gives another number of bytes")
				sym.Assert(x[n-1] != 0, "a bitlist without delimiter is accepted")
				sym.Assert(x.BitLen() <= symLimit, "a bitlist beyond the limit is accepted")
			} else {
				sym.Reach("nodelimiter")
			}
		} else if err == nil {
			sym.Assert(x.BitLen() <= symLimit, "a bitlist beyond the limit is accepted")
		}
		sym.Reach("bitlist")
		return
	}
	valid := n%size == 0 && n/size <= symLimit
	sym.Assert((err == nil) == valid, "acceptance of a long list does not follow its limit")
	if err == nil {
		sym.Assert(got == n/size, "decoding a long list gives another number of elements")
		sym.Assert(r.pos == n, "not all bytes are read")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// ---- offsets and sizes beyond what can be enumerated ----

const bigLimit = 1 << 40

type BigB []byte

func (*BigB) Limit() uint64 { return bigLimit }

type BigList []BigB

func (*BigList) Limit() uint64 { return 3 }

type BigS struct {
	A BigB
	B uint16
	C BigB
}

type BigNest struct {
	N BigS
	T uint8
	Z BigB
}

type BigVec [2]BigB

type BigFix []uint64

func (*BigFix) Limit() uint64 { return bigLimit }

type BigSmall []Small

func (*BigSmall) Limit() uint64 { return bigLimit }

// probeWriter keeps the first bytes and one byte at an arbitrary position.
type probeWriter struct {
	head  []byte
	want  int
	pos   uint64
	probe uint64
	got   byte
	hit   bool
}

func (w *probeWriter) Write(p []byte) (int, error) {
	n := uint64(len(p))
	if len(w.head) < w.want {
		w.head = append(w.head, p...)
	} else if w.probe >= w.pos && w.probe < w.pos+n {
		w.got = p[w.probe-w.pos]
		w.hit = true
	}
	w.pos += n
	return len(p), nil
}

func jobBigEncode(int) {
	sym.BigSizes(true)
	a := sym.Range("a", 0, 1<<32-64)
	c := sym.Range("c", 0, 1<<32-64)
	A, C := sym.BigBytes("A", a), sym.BigBytes("C", c)
	w := &probeWriter{probe: sym.U64("probe")}
	var n int
	var err error
	var head []byte
	switch sym.Choose("type", 4) {
	case 0:
		b := sym.U16("b")
		head = append(append(le(10, 4), le(uint64(b), 2)...), le(10+a, 4)...)
		w.want = 10
		v := BigS{A, b, C}
		n, err = zssz.Encode(w, &v, zssz.GetSSZ(&v))
	case 1:
		head = append(le(8, 4), le(8+a, 4)...)
		w.want = 8
		v := BigList{A, C}
		n, err = zssz.Encode(w, &v, zssz.GetSSZ(&v))
	case 2:
		head = append(le(8, 4), le(8+a, 4)...)
		w.want = 8
		v := BigVec{A, C}
		n, err = zssz.Encode(w, &v, zssz.GetSSZ(&v))
	case 3:
		// inner container: offsets relative to its own start
		k := sym.Range("k", 0, 64)
		sym.Assume(a < 1<<32-128)
		head = append(le(9, 4), 7)
		head = append(head, le(9+10+a+k, 4)...)
		head = append(append(append(head, le(10, 4)...), le(3, 2)...), le(10+a, 4)...)
		w.want = 19
		v := BigNest{BigS{A, 3, sym.BigBytes("K", k)}, 7, C}
		n, err = zssz.Encode(w, &v, zssz.GetSSZ(&v))
		sym.Assert(err == nil, "encoding a valid value fails")
		sym.Assert(uint64(n) == 19+a+k+c && w.pos == 19+a+k+c, "the encoding has another length")
		sym.Assert(sym.SameBytes(w.head, head), "offsets of a large value are wrong")
		sym.Reach("nested")
		return
	}
	h := uint64(len(head))
	sym.Assert(err == nil, "encoding a valid value fails")
	sym.Assert(uint64(n) == h+a+c && w.pos == h+a+c, "the encoding has another length")
	sym.Assert(sym.SameBytes(w.head, head), "offsets of a large value are wrong")
	if w.probe >= h && w.probe < h+a {
		sym.Assert(w.hit && w.got == A[w.probe-h], "a byte of a large value is not where it belongs")
		sym.Reach("first")
	} else if w.probe >= h+a && w.probe < h+a+c {
		sym.Assert(w.hit && w.got == C[w.probe-h-a], "a byte of a large value is not where it belongs")
		sym.Reach("second")
	}
}

// lists of basic elements of any length
type BigU16 []uint16

func (*BigU16) Limit() uint64 { return bigLimit }

type BigU32 []uint32

func (*BigU32) Limit() uint64 { return bigLimit }

type BigBool []bool

func (*BigBool) Limit() uint64 { return bigLimit }

type BigBits []byte

func (*BigBits) Limit() uint64    { return bigLimit }
func (b *BigBits) BitLen() uint64 { return bitfields.BitlistLen(*b) }

func fillBig[T any](n uint64) []T {
	x := make([]T, n)
	var e T
	if n > 0 {
		sym.Fill("e", unsafe.Slice((*byte)(unsafe.Pointer(&x[0])), n*uint64(unsafe.Sizeof(e))))
	}
	return x
}

func jobBigSeries(int) {
	sym.BigSizes(true)
	n := sym.Range("n", 0, 1<<28)
	w := &probeWriter{probe: sym.U64("probe")}
	var k int
	var err error
	size := uint64(1)
	var want byte
	at := func(x uint64) byte { return byte(x >> (8 * (w.probe % size))) }
	switch sym.Choose("type", 6) {
	case 0:
		x := BigFix(fillBig[uint64](n))
		size = 8
		k, err = zssz.Encode(w, &x, zssz.GetSSZ(&x))
		if w.probe < n*size {
			want = at(x[w.probe/size])
		}
	case 1:
		x := BigU16(fillBig[uint16](n))
		size = 2
		k, err = zssz.Encode(w, &x, zssz.GetSSZ(&x))
		if w.probe < n*size {
			want = at(uint64(x[w.probe/size]))
		}
	case 2:
		x := BigU32(fillBig[uint32](n))
		size = 4
		k, err = zssz.Encode(w, &x, zssz.GetSSZ(&x))
		if w.probe < n*size {
			want = at(uint64(x[w.probe/size]))
		}
	case 3:
		x := make(BigBool, n)
		k, err = zssz.Encode(w, &x, zssz.GetSSZ(&x))
	case 4:
		x := BigB(fillBig[byte](n))
		k, err = zssz.Encode(w, &x, zssz.GetSSZ(&x))
		if w.probe < n {
			want = x[w.probe]
		}
	case 5:
		sym.Assume(n > 0)
		x := BigBits(fillBig[byte](n))
		sym.Assume(x[n-1] != 0)
		k, err = zssz.Encode(w, &x, zssz.GetSSZ(&x))
		if w.probe < n {
			want = x[w.probe]
		}
	}
	sym.Assert(err == nil, "encoding a valid value fails")
	sym.Assert(uint64(k) == n*size && w.pos == n*size, "the encoding has another length")
	if w.probe < n*size {
		sym.Assert(w.hit && w.got == want, "a byte of a large value is not where it belongs")
		sym.Reach("inside")
	}
}

func jobWriteOffset(int) {
	w := &sliceWriter{}
	e := enc.NewEncodingWriter(w)
	prev, size := sym.U64("prev"), sym.U64("size")
	var got uint64
	var err error
	fits := prev < 1<<32 && size < 1<<32 && prev+size < 1<<32
	p := panics(func() { got, err = e.WriteOffset(prev, size) })
	if !fits {
		sym.Assert(p, "an offset that does not fit 32 bits is written")
		sym.Assert(len(w.b) == 0, "bytes are written for an offset that does not fit 32 bits")
		sym.Reach("refused")
		return
	}
	sym.Assert(!p && err == nil, "writing an offset fails")
	sym.Assert(got == prev+size, "the offset is not the previous one plus the size")
	sym.Assert(sym.SameBytes(w.b, le(prev+size, 4)), "the offset is not written as 4 little-endian bytes")
	sym.Assert(e.Written() == 4, "the count of written bytes is wrong")
	sym.Reach("written")
}

func jobBigDecode(int) {
	sym.BigSizes(true)
	n := sym.Range("n", 16, 1<<32+64)
	switch sym.Choose("type", 2) {
	case 0:
		r := &bigReader{head: sym.Bytes("head", 10), n: n}
		var v BigS
		err := zssz.Decode(r, n, &v, zssz.GetSSZ(&v))
		o1, o2 := rd32(r.head, 0), rd32(r.head, 6)
		valid := o1 == 10 && o2 >= 10 && o2 <= n
		sym.Assert((err == nil) == valid, "acceptance of large offsets is wrong")
		if err == nil {
			sym.Assert(uint64(len(v.A)) == o2-10 && uint64(len(v.C)) == n-o2, "large offsets delimit the wrong parts")
			sym.Assert(v.B == uint16(r.head[4])|uint16(r.head[5])<<8, "wrong value")
			sym.Assert(r.pos == n, "not all bytes are read")
			sym.Reach("accepted")
		} else {
			sym.Reach("rejected")
		}
	case 1:
		r := &bigReader{head: sym.Bytes("head", 8), n: n}
		var v BigVec
		err := zssz.Decode(r, n, &v, zssz.GetSSZ(&v))
		o1, o2 := rd32(r.head, 0), rd32(r.head, 4)
		valid := o1 == 8 && o2 >= 8 && o2 <= n
		sym.Assert((err == nil) == valid, "acceptance of large offsets is wrong")
		if err == nil {
			sym.Assert(uint64(len(v[0])) == o2-8 && uint64(len(v[1])) == n-o2, "large offsets delimit the wrong parts")
			sym.Assert(r.pos == n, "not all bytes are read")
			sym.Reach("accepted")
		}
	}
}

func jobBigSize(int) {
	sym.BigSizes(true)
	a := sym.Range("a", 0, 1<<32-64)
	c := sym.Range("c", 0, 1<<32-64)
	A, C := sym.BigBytes("A", a), sym.BigBytes("C", c)
	check := func(p any, want uint64) {
		var got uint64
		switch x := p.(type) {
		case *BigS:
			got = zssz.SizeOf(x, zssz.GetSSZ(x))
		case *BigList:
			got = zssz.SizeOf(x, zssz.GetSSZ(x))
		case *BigVec:
			got = zssz.SizeOf(x, zssz.GetSSZ(x))
		case *BigNest:
			got = zssz.SizeOf(x, zssz.GetSSZ(x))
		case *BigFix:
			got = zssz.SizeOf(x, zssz.GetSSZ(x))
		case *BigSmall:
			got = zssz.SizeOf(x, zssz.GetSSZ(x))
		}
		sym.Assert(got == want, "the size of a large value is wrong")
		sym.Reach("done")
	}
	switch sym.Choose("type", 6) {
	case 0:
		check(&BigS{A, 1, C}, 10+a+c)
	case 1:
		check(&BigList{A, C}, 8+a+c)
	case 2:
		check(&BigVec{A, C}, 8+a+c)
	case 3:
		check(&BigNest{BigS{A, 1, nil}, 2, C}, 19+a+c)
	case 4:
		x := make(BigFix, a/8)
		check(&x, a/8*8)
	case 5:
		x := make(BigSmall, a/4)
		check(&x, a/4*3)
	}
}
