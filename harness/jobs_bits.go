package main

import (
	"github.com/protolambda/zssz/bitfields"
	"verif/harness/sym"
)

// ---- C16 ----

func bitOf(b []byte, i uint64) bool { return b[i/8]>>(i%8)&1 == 1 }

func jobBits(bound int) {
	n := int(sym.Choose("n", uint64(bound))) + 1
	b := sym.Bytes("b", n)
	old := clone(b)
	i := sym.Range("i", 0, uint64(n)*8-1)
	v := sym.Bool("v")
	sym.Assert(bitfields.GetBit(b, i) == bitOf(old, i), "reading a bit gives another bit")
	bitfields.SetBit(b, i, v)
	sym.Assert(bitfields.GetBit(b, i) == v, "reading a bit does not give what was set")
	for j := uint64(0); j < uint64(n)*8; j++ {
		want := bitOf(old, j)
		if j == i {
			want = v
		}
		sym.Assert(bitOf(b, j) == want, "setting a bit changes another bit")
	}
	sym.ObsBytes("b", b)
	sym.Reach("done")
}

func jobBigBits(int) {
	sym.BigSizes(true)
	n := sym.Range("n", 1, 1<<30)
	b := sym.BigBytes("b", n)
	i, j := sym.Range("i", 0, 1<<33), sym.Range("j", 0, 1<<33)
	sym.Assume(i/8 < n && j/8 < n)
	v := sym.Bool("v")
	oi, oj := bitOf(b, i), bitOf(b, j)
	sym.Assert(bitfields.GetBit(b, i) == oi, "reading a bit gives another bit")
	bitfields.SetBit(b, i, v)
	sym.Assert(bitfields.GetBit(b, i) == v, "reading a bit does not give what was set")
	if i != j {
		sym.Assert(bitOf(b, j) == oj, "setting a bit changes another bit")
	}
	last := b[n-1]
	l := bitfields.BitlistLen(b)
	if last != 0 {
		sym.Assert(l/8 == n-1, "the length of a long bitlist is wrong")
		sym.Assert(last>>(l%8) == 1, "the length of a long bitlist is wrong")
	}
	limit := sym.U64("limit")
	ok := bitfields.BitlistCheck(b, limit) == nil
	sym.Assert(ok == sym.And(last != 0, l <= limit), "the bitlist check does not accept exactly the valid long bitlists")
	bits := sym.U64("bits")
	sym.Assume(bits < 1<<63)
	ok = bitfields.BitvectorCheck(b, bits) == nil
	fits := (bits+7)/8 == n
	if bits%8 != 0 {
		fits = sym.And(fits, last>>(bits%8) == 0)
	}
	sym.Assert(ok == fits, "the bitvector check does not accept exactly the valid long bitvectors")
	sym.Reach("done")
}

func jobBitlistHelpers(bound int) {
	n := int(sym.Choose("n", uint64(bound)+1))
	b := sym.Bytes("b", n)
	limit := sym.U64("limit")
	got := bitfields.BitlistCheck(b, limit) == nil
	zero := bitfields.IsZeroBitlist(b)
	l := bitfields.BitlistLen(b)
	if n == 0 {
		sym.Assert(!got, "the bitlist check accepts no data")
		sym.Assert(zero, "the zero test fails on no data")
		sym.Assert(l == 0, "the length of no data is not 0")
		sym.Reach("empty")
		return
	}
	last := b[n-1]
	any := false
	for i := 0; i < n-1; i++ {
		any = sym.Or(any, b[i] != 0)
	}
	if last == 0 {
		sym.Assert(!got, "the bitlist check accepts data without delimiter")
		sym.Assert(zero == !any, "the zero test is wrong without delimiter")
		sym.Reach("nodelimiter")
		return
	}
	top := uint64(7)
	for last>>top == 0 {
		top--
	}
	sym.Assert(bitfields.BitIndex(last) == top, "the index of the highest bit is wrong")
	bits := uint64(n-1)*8 + top
	sym.Assert(l == bits, "the bitlist length is not the position of the delimiter")
	sym.Assert(got == (bits <= limit), "the bitlist check does not accept exactly what fits the limit")
	any = sym.Or(any, last != 1<<top)
	sym.Assert(zero == !any, "the zero test is wrong")
	sym.Reach("done")
}

func jobBitvectorHelpers(bound int) {
	n := int(sym.Choose("n", uint64(bound)+1))
	b := sym.Bytes("b", n)
	bits := sym.U64("bits")
	sym.Assume(bits < 1<<63)
	got := bitfields.BitvectorCheck(b, bits) == nil
	need := bits / 8
	if bits%8 != 0 {
		need++
	}
	want := need == uint64(n)
	if want && bits%8 != 0 {
		want = b[n-1]>>(bits%8) == 0
	}
	sym.Assert(got == want, "the bitvector check does not accept exactly the valid bitvectors")
	sym.Reach("done")
}
