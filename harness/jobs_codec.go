package main

import (
	"github.com/protolambda/zssz"
	"verif/harness/sym"
)

func jobRoundtrip(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	p, v := genInto(t, s, "v")
	b := encode(t, ssz, p)
	q := t.New()
	err := decode(ssz, b, q)
	sym.Assert(err == nil, "decoding the encoding of a value fails")
	if err == nil {
		sym.Assert(EqVal(s, t.Get(q), v), "decoding the encoding gives another value")
	}
	sym.ObsBytes("encoding", b)
	sym.Reach("done")
}

func jobCanonical(t *TypeDef, bound int) {
	s := t.Sch()
	ssz := t.SSZ()
	in := input(t, s, bound)
	p := t.New()
	if decode(ssz, in, p) != nil {
		sym.Reach("rejected")
		return
	}
	b := encode(t, ssz, p)
	sym.Assert(sym.SameBytes(in, b), "accepted bytes are not the encoding of the decoded value")
	sym.ObsBytes("encoding", b)
	sym.Reach("accepted")
}

func jobEncode(t *TypeDef, _ int) {
	spareEmpty = true
	s := t.Sch()
	ssz := t.SSZ()
	p, v := genInto(t, s, "v")
	b := encode(t, ssz, p)
	sym.ObsBytes("encoding", b)
	want := Ser(s, v)
	sym.Assert(len(b) == len(want), "encoding has the wrong length")
	sym.Assert(sym.SameBytes(b, want), "encoding differs from the SSZ wire format")
	sym.Reach("done")
}

func jobDecode(t *TypeDef, bound int) {
	s := t.Sch()
	ssz := t.SSZ()
	in := input(t, s, bound)
	p := t.New()
	err := decode(ssz, in, p)
	v, ok := Deser(s, in)
	sym.Obs("ok", b2u(err == nil))
	if !ok {
		sym.Assert(err != nil, "an invalid encoding is accepted")
		sym.Reach("invalid")
		return
	}
	sym.Assert(err == nil, "a valid encoding is rejected")
	if err == nil {
		sym.Assert(EqVal(s, t.Get(p), v), "decoding gives the wrong value")
	}
	sym.Reach("valid")
}

func jobDryCheck(t *TypeDef, bound int) {
	s := t.Sch()
	ssz := t.SSZ()
	in := input(t, s, bound)
	r1, r2 := &sliceReader{b: in}, &sliceReader{b: in}
	err1 := zssz.DryCheck(r2, uint64(len(in)), ssz)
	err := zssz.Decode(r1, uint64(len(in)), t.New(), ssz)
	sym.Obs("ok", b2u(err == nil))
	if err == nil {
		sym.Assert(err1 == nil, "the dry check rejects what decoding accepts")
		if err1 == nil {
			sym.Assert(r1.take == r2.take, "the dry check consumes another number of bytes")
		}
		sym.Reach("accepted")
	} else {
		sym.Assert(err1 != nil, "the dry check accepts what decoding rejects")
		sym.Reach("rejected")
	}
}

func jobSize(t *TypeDef, _ int) {
	spareEmpty = true
	s := t.Sch()
	ssz := t.SSZ()
	p, _ := genInto(t, s, "v")
	size := zssz.SizeOf(p, ssz)
	b := encode(t, ssz, p)
	sym.Obs("size", size)
	sym.Assert(size == uint64(len(b)), "SizeOf differs from the encoded length")
	checkInfo(s, ssz)
	sym.Reach("done")
}
