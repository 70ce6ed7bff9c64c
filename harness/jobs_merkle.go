package main

import (
	"crypto/sha256"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"verif/harness/sym"
)

// ---- C11 ----

func jobHTR(t *TypeDef, _ int) {
	spareEmpty = true
	s := t.Sch()
	ssz := t.SSZ()
	h := useHash()
	p, v := genInto(t, s, "v")
	got := zssz.HashTreeRoot(h, p, ssz)
	sym.Assert(sameRoot(got, HTR(s, v)), "the hash-tree-root differs from the SSZ specification")
	sym.Reach("done")
}

// ---- C12 ----

func leaves(n int) ([]node, func(i uint64) []byte) {
	ls := make([]node, n)
	for i := range ls {
		copy(ls[i][:], sym.Bytes("leaf", 32))
	}
	return ls, func(i uint64) []byte {
		sym.Assert(i < uint64(n), "a leaf beyond the count is asked for")
		x := ls[i]
		return x[:]
	}
}

func jobMerkleize(n int) {
	h := useHash()
	limit, _ := anyUint("limit", 64)
	sym.Assume(uint64(n) <= limit)
	ls, leaf := leaves(n)
	got := merkle.Merkleize(h, uint64(n), limit, leaf)
	sym.Assert(sameRoot(got, merkleLimit(ls, limit)), "the root is not that of the zero-padded tree")
	sym.Reach("done")
}

func jobDepth(int) {
	v := sym.U64("v")
	sym.Assume(v >= 2)
	d := merkle.GetDepth(v)
	sym.Assert(d >= 1 && d <= 64, "depth out of range")
	if d < 1 || d > 64 {
		return
	}
	sym.Assert(d == 64 || v <= uint64(1)<<d, "the depth is too small for the size")
	sym.Assert(v > uint64(1)<<(d-1), "the depth is larger than needed")
	sym.Obs("depth", uint64(d))
}

func jobOverLimit(int) {
	h := useHash()
	count, limit := sym.U64("count"), sym.U64("limit")
	sym.Assume(count > limit)
	asked := false
	got := panics(func() {
		merkle.Merkleize(h, count, limit, func(i uint64) []byte {
			asked = true
			panic("leaf of an over-limit tree")
		})
	})
	sym.Assert(got && !asked, "a count above the limit is not refused")
	sym.Reach("done")
}

// ---- C13 ----

func jobProof(n int) {
	h := useHash()
	limit, digits := anyUint("limit", 64)
	index, _ := anyUint("index", digits)
	if index < uint64(2*n+2) {
		index = sym.Concretize(index)
	}
	sym.Assume(uint64(n) <= limit && index < limit)
	ls, leaf := leaves(n)
	branch := merkle.ConstructProof(h, uint64(n), limit, leaf, index)
	root := merkle.Merkleize(h, uint64(n), limit, leaf)
	depth := depthFor(limit)
	sym.Assert(len(branch) == depth, "the branch has not one node per level")
	if len(branch) != depth {
		return
	}
	var x node
	for i := range ls {
		if index == uint64(i) {
			x = ls[i]
		}
	}
	for j := 0; j < depth; j++ {
		switch {
		case sym.Identical(x[:], branch[j][:]):
			x = hash2(x, x)
		case index>>uint(j)&1 == 1:
			x = hash2(branch[j], x)
		default:
			x = hash2(x, branch[j])
		}
	}
	sym.Assert(sameRoot(x, root), "folding the branch does not give the root")
	sym.Reach("done")
}

func jobProofRefuse(int) {
	h := useHash()
	count, limit, index := sym.U64("count"), sym.U64("limit"), sym.U64("index")
	sym.Assume(sym.Or(count > limit, index >= limit))
	asked := false
	got := panics(func() {
		merkle.ConstructProof(h, count, limit, func(i uint64) []byte {
			asked = true
			panic("leaf of a refused proof")
		}, index)
	})
	sym.Assert(got && !asked, "an index or count beyond the limit is not refused")
	sym.Reach("done")
}

// ---- C14 ----

func jobSigningRoot(t *TypeDef, _ int) {
	spareEmpty = true
	s := t.Sch()
	ssz := t.SSZ()
	h := useHash()
	p, v := genInto(t, s, "v")
	x, ok := ssz.(signed)
	sym.Assert(ok, "a container has no signing-root")
	if !ok {
		return
	}
	got := zssz.SigningRoot(h, p, x)
	n := len(s.Fields) - 1
	var want node
	if n > 0 {
		want = merkleLimit(roots(s, v)[:n], uint64(n))
	}
	sym.Assert(sameRoot(got, want), "the signing-root is not the root without the last field")
	sym.Reach("done")
}

// ---- C22 ----

func jobDistinct(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	sym.Injective()
	h := useHash()
	p, v := genInto(t, s, "v")
	q, w := genInto(t, s, "w")
	a := zssz.HashTreeRoot(h, p, ssz)
	b := zssz.HashTreeRoot(h, q, ssz)
	eq := EqVal(s, v, w)
	same := sameRoot(a, b)
	sym.Assert(sym.Or(!same, eq), "different values have the same root")
	sym.Assert(sym.Or(same, !eq), "equal values have different roots")
	sym.Reach("done")
}

// ---- C24 ----

func jobNodes(int) {
	h := htr.HashFn(sym.Hash)
	var a, b, l node
	copy(a[:], sym.Bytes("a", 32))
	copy(b[:], sym.Bytes("b", 32))
	n := sym.U64("n")
	copy(l[:], le(n, 8))
	sym.Assert(sameRoot(h.Combi(a, b), hash2(a, b)), "combining two nodes is not the hash of their concatenation")
	sym.Assert(sameRoot(h.MixIn(a, n), hash2(a, l)), "mixing in a length is not the hash of the node and the length")
	// the same with other nodes and functions afterwards
	hs := []htr.HashFn{h, otherHash, saltedHash(1), saltedHash(2)}
	var c, d node
	copy(c[:], sym.Bytes("c", 32))
	copy(d[:], sym.Bytes("d", 32))
	m := sym.U64("m")
	for i := 0; i < 2; i++ {
		f := hs[sym.Choose("fn", 4)]
		want := func(x, y node) node { return f(append(append([]byte(nil), x[:]...), y[:]...)) }
		var l node
		switch sym.Choose("op", 5) {
		case 0:
			sym.Assert(sameRoot(f.Combi(a, d), want(a, d)), "combining two nodes is not the hash of their concatenation")
		case 1:
			sym.Assert(sameRoot(f.Combi(c, b), want(c, b)), "combining two nodes is not the hash of their concatenation")
		case 2:
			sym.Assert(sameRoot(f.Combi(b, a), want(b, a)), "combining two nodes is not the hash of their concatenation")
		case 3:
			copy(l[:], le(m, 8))
			sym.Assert(sameRoot(f.MixIn(a, m), want(a, l)), "mixing in a length is not the hash of the node and the length")
		case 4:
			copy(l[:], le(n, 8))
			sym.Assert(sameRoot(f.MixIn(c, n), want(c, l)), "mixing in a length is not the hash of the node and the length")
		}
	}
	sym.Reach("done")
}

// saltedHash makes hash functions of the same code, with other results.
func saltedHash(salt byte) htr.HashFn {
	return func(b []byte) [32]byte {
		var x [64]byte
		h := sym.Hash(b)
		copy(x[:], h[:])
		x[63], x[62] = salt, 1
		return sym.Hash(x[:])
	}
}

func jobZeroHashes(int) {
	sym.Assert(len(htr.ZeroHashes) == 65, "not one zero-hash per level")
	if len(htr.ZeroHashes) != 65 {
		return
	}
	// the default is SHA-256
	var z node
	for i := 0; i <= 64; i++ {
		sym.Assert(htr.ZeroHashes[i] == z, "the default zero-hashes are not those of SHA-256")
		x := append(append([]byte(nil), z[:]...), z[:]...)
		z = sha256.Sum256(x)
	}
	// any order of initialisations
	fns := []htr.HashFn{sym.Hash, otherHash, saltedHash(1), saltedHash(2), sha256.Sum256}
	for i := 0; i < 2; i++ {
		f := fns[sym.Choose("fn", 5)]
		htr.InitZeroHashes(f)
		sym.Assert(len(htr.ZeroHashes) == 65, "not one zero-hash per level")
		if len(htr.ZeroHashes) != 65 {
			return
		}
		z = node{}
		for i := 0; i <= 64; i++ {
			sym.Assert(sameRoot(htr.ZeroHashes[i], z), "a zero-hash is not the hash of two of the level below")
			z = f(append(append([]byte(nil), z[:]...), z[:]...))
		}
	}
	sym.Reach("done")
}
