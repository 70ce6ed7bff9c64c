package main

// The same properties after a history: earlier operations on other types, on
// the same definition and on the same memory, which succeed or fail halfway.

import (
	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"verif/harness/sym"
)

// another hash function
func otherHash(b []byte) [32]byte {
	var x [64]byte
	h := sym.Hash(b)
	copy(x[:], h[:])
	x[63] = 1
	return sym.Hash(x[:])
}

// some is a concrete value, longer if which is 1.
func some(s *Sch, which int) *Val {
	c := byte(0x5b - 0x11*which)
	fill := func(n uint64) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = c + byte(i)
		}
		return b
	}
	n := uint64(len(s.Fields))
	switch s.K {
	case KUint:
		return &Val{U: uint64(c)}
	case KBool:
		return &Val{U: uint64(which)}
	case KByteVector:
		return &Val{B: fill(s.N)}
	case KBitvector:
		b := fill((s.N + 7) / 8)
		if s.N%8 != 0 {
			b[len(b)-1] &= 1<<(s.N%8) - 1
		}
		return &Val{B: b}
	case KVector:
		n = s.N
	case KByteList, KBitlist, KList:
		n = s.genMax()
		if which == 0 {
			n = min(n, 1)
		}
	}
	switch s.K {
	case KByteList:
		return &Val{B: fill(n)}
	case KBitlist:
		b := fill((n + 7) / 8)
		if n%8 != 0 {
			b[len(b)-1] &= 1<<(n%8) - 1
		}
		return &Val{B: b, Bits: n}
	}
	v := &Val{}
	for i := 0; i < int(n); i++ {
		v.Elems = append(v.Elems, some(s.elem(i), which))
	}
	return v
}

// history returns operations on a definition, with concrete data.
func history(t *TypeDef, p any, b []byte) []func() {
	ssz := t.SSZ()
	n := len(b)
	min := int(ssz.FuzzMinLen())
	f := make([]byte, min+3)
	for i := range f {
		f[i] = byte(37 * i)
	}
	q := t.New()
	rd := func(b []byte) *sliceReader { return &sliceReader{b: b} }
	wr := func() *sliceWriter { return &sliceWriter{} }
	hash := func(h htr.HashFn) {
		htr.InitZeroHashes(h)
		zssz.HashTreeRoot(h, p, ssz)
		if x, ok := ssz.(signed); ok {
			zssz.SigningRoot(h, p, x)
		}
	}
	return []func(){
		func() { zssz.Decode(rd(b), uint64(n), p, ssz) },
		func() { zssz.Encode(wr(), p, ssz) },
		func() { zssz.DryCheck(rd(b), uint64(n), ssz) },
		func() { hash(sym.Hash) },
		func() { hash(otherHash) },
		func() { zssz.Pretty(wr(), " ", p, ssz) },
		func() { zssz.DecodeFuzzBytes(rd(f), uint64(len(f)), q, ssz) },
		func() { zssz.SizeOf(q, ssz) },
		func() { zssz.Decode(rd(append(clone(b), 0)), uint64(n)+1, q, ssz) },
		func() { zssz.Decode(rd(b[:n/2]), uint64(n/2), q, ssz) },
		// failures of the stream
		func() { zssz.Decode(rd(b[:n/2]), uint64(n), q, ssz) },
		func() { zssz.DryCheck(rd(b[:n/2]), uint64(n), ssz) },
		func() { zssz.DecodeFuzzBytes(rd(f[:min/2]), uint64(len(f)), t.New(), ssz) },
		func() { zssz.Encode(&faultWriter{left: n / 2}, p, ssz) },
		func() { zssz.SizeOf(p, ssz) },
	}
}

func runAll(ops []func()) []func() {
	for _, f := range ops {
		f()
	}
	return ops
}

// jobAfter checks a value in the memory of another one, and an input, after a history.
func jobAfter(check func(t *TypeDef, s *Sch, p any, v *Val)) func(t *TypeDef, _ int) {
	return func(t *TypeDef, _ int) {
		// one definition for all of it
		def, u := t.SSZ(), *t
		u.SSZ = func() types.SSZ { return def }
		t = &u
		s := t.Sch()
		which := int(sym.Choose("before", 2))
		p := t.New()
		t.Set(p, some(s, 1))
		runAll(history(t, p, Ser(s, some(s, which))))
		ops := runAll(history(t, p, Ser(s, some(s, 1-which))))
		for _, n := range []string{"Var2", "PtrS", "Vec3_U16", "Sq1"} {
			o := typeNamed(n)
			x := history(o, o.New(), Ser(o.Sch(), some(o.Sch(), which)))
			if which == 1 {
				ops = runAll(x)
			}
		}
		// any of them last
		ops[sym.Choose("last", uint64(len(ops)))]()
		v := GenVal(s, "v")
		inPlace = true
		t.Set(p, v)
		check(t, s, p, v)
		sym.Reach("done")
	}
}

func afterRoundtrip(t *TypeDef, s *Sch, p any, v *Val) {
	ssz := t.SSZ()
	b := encode(t, ssz, p)
	q := t.New()
	err := decode(ssz, b, q)
	sym.Assert(err == nil, "decoding the encoding of a value fails")
	if err == nil {
		sym.Assert(EqVal(s, t.Get(q), v), "decoding the encoding gives another value")
	}
}

func afterEncode(t *TypeDef, s *Sch, p any, v *Val) {
	b := encode(t, t.SSZ(), p)
	want := Ser(s, v)
	sym.Assert(len(b) == len(want), "encoding has the wrong length")
	sym.Assert(sym.SameBytes(b, want), "encoding differs from the SSZ wire format")
}

func afterDecode(t *TypeDef, s *Sch, p any, v *Val) {
	// the first, middle or last byte of the encoding may be any other, or a byte may be missing or too many
	b := Ser(s, v)
	if n := len(b); n > 0 {
		switch sym.Choose("damage", 4) {
		case 1:
			b = b[:n-1]
		case 2:
			b = append(clone(b), sym.U8("more"))
		case 3:
			b = clone(b)
			b[[]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = sym.U8("other")
		}
	}
	want, ok := Deser(s, b)
	q := t.New()
	err := decode(t.SSZ(), b, q)
	sym.Assert((err == nil) == ok, "an invalid encoding is accepted, or a valid one rejected")
	if ok && err == nil {
		sym.Assert(EqVal(s, t.Get(q), want), "decoding gives the wrong value")
	}
	err = dryCheck(t.SSZ(), b)
	sym.Assert((err == nil) == ok, "the dry check accepts an invalid encoding, or rejects a valid one")
}

func afterSize(t *TypeDef, s *Sch, p any, v *Val) {
	ssz := t.SSZ()
	sym.Assert(zssz.SizeOf(p, ssz) == uint64(len(Ser(s, v))), "SizeOf differs from the encoded length")
	checkInfo(s, ssz)
}

func afterHTR(t *TypeDef, s *Sch, p any, v *Val) {
	ssz := t.SSZ()
	h := useHash()
	sym.Assert(sameRoot(zssz.HashTreeRoot(h, p, ssz), HTR(s, v)), "the hash-tree-root differs from the SSZ specification")
	// and with another hash function
	refHash, zeroTab = otherHash, nil
	h = htr.HashFn(otherHash)
	htr.InitZeroHashes(h)
	sym.Assert(sameRoot(zssz.HashTreeRoot(h, p, ssz), HTR(s, v)), "the hash-tree-root differs from the SSZ specification, with another hash function")
}

func afterSigningRoot(t *TypeDef, s *Sch, p any, v *Val) {
	h := useHash()
	x := t.SSZ().(signed)
	got := zssz.SigningRoot(h, p, x)
	var want node
	if n := len(s.Fields) - 1; n > 0 {
		want = merkleLimit(roots(s, v)[:n], uint64(n))
	}
	sym.Assert(sameRoot(got, want), "the signing-root is not the root without the last field")
}

func afterFuzz(t *TypeDef, s *Sch, _ any, _ *Val) {
	ssz := t.SSZ()
	min, max := ssz.FuzzMinLen(), ssz.FuzzMaxLen()
	in := sym.Bytes("in", int(min)+2)
	r := &sliceReader{b: in}
	p := t.New()
	k, err := zssz.DecodeFuzzBytes(r, uint64(len(in)), p, ssz)
	sym.Assert(err == nil, "fuzz-mode decoding of sufficient input fails")
	if err != nil {
		return
	}
	sym.Assert(k == uint64(r.take) && k >= min && k <= max, "the consumption is wrong")
	w := &sliceWriter{}
	_, err = zssz.Encode(w, p, ssz)
	v, ok := Deser(s, w.b)
	sym.Assert(err == nil && ok, "the fuzzed value is not valid")
	if ok {
		q := t.New()
		sym.Assert(decode(ssz, w.b, q) == nil && EqVal(s, t.Get(q), v), "the fuzzed value does not round-trip")
	}
}

func afterPretty(t *TypeDef, s *Sch, p any, v *Val) {
	out := sym.Strip(prettyOf(p, t.SSZ()), layout)
	end := matchPretty(s, v, out, 0)
	sym.Assert(end < 0 || end == len(out), "the output lists more than the names and values")
}
