package main

import (
	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"verif/harness/sym"
)

// ---- C26 ----

// gcReader and gcWriter collect garbage whenever they are called.
type gcReader struct{ r sliceReader }

func (r *gcReader) Read(p []byte) (int, error) {
	sym.GC()
	return r.r.Read(p)
}

type gcWriter struct{ w sliceWriter }

func (w *gcWriter) Write(p []byte) (int, error) {
	sym.GC()
	return w.w.Write(p)
}

func gcHash(b []byte) [32]byte {
	sym.GC()
	return sym.Hash(b)
}

// jobGC: collections during and after each operation change nothing.
func jobGC(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	v := GenVal(s, "v")
	p := t.New()
	what := sym.Choose("what", 5)
	// values that are garbage by now
	decodeAndForget(t, ssz)
	sym.GC()
	switch what {
	case 0, 1: // decode, into fresh and into used memory
		if what == 1 {
			t.Set(p, longest(s, "old"))
		}
		b := Ser(s, v)
		err := zssz.Decode(&gcReader{sliceReader{b: b}}, uint64(len(b)), p, ssz)
		sym.Assert(err == nil, "a valid encoding is rejected when garbage is collected while it is read")
		if err != nil {
			return
		}
		sym.GC()
		sym.Assert(EqVal(s, t.Get(p), v), "the decoded value does not survive garbage collection")
		if what == 1 {
			// once more, now over memory of the library's own
			x := some(s, 1)
			b := Ser(s, x)
			err := zssz.Decode(&gcReader{sliceReader{b: b}}, uint64(len(b)), p, ssz)
			sym.Assert(err == nil, "a valid encoding is rejected when garbage is collected while it is read")
			sym.GC()
			if err == nil {
				sym.Assert(EqVal(s, t.Get(p), x), "the decoded value does not survive garbage collection")
			}
		}
	case 2:
		t.Set(p, v)
		w := &gcWriter{}
		n, err := zssz.Encode(w, p, ssz)
		sym.GC()
		sym.Assert(err == nil && n == len(w.w.b) && sym.SameBytes(w.w.b, Ser(s, v)), "the encoding differs when garbage is collected while it is written")
	case 3:
		t.Set(p, v)
		useHash()
		r := zssz.HashTreeRoot(htr.HashFn(gcHash), p, ssz)
		sym.GC()
		sym.Assert(sameRoot(r, HTR(s, v)), "the root differs when garbage is collected while it is computed")
	case 4:
		f := make([]byte, ssz.FuzzMinLen()+3)
		for i := range f {
			f[i] = byte(3*i + 1)
		}
		q := t.New()
		n, e1 := zssz.DecodeFuzzBytes(&gcReader{sliceReader{b: f}}, uint64(len(f)), p, ssz)
		sym.GC()
		m, e2 := zssz.DecodeFuzzBytes(&sliceReader{b: f}, uint64(len(f)), q, ssz)
		sym.Assert(n == m && (e1 == nil) == (e2 == nil), "fuzz-mode decoding differs when garbage is collected meanwhile")
		if e1 == nil && e2 == nil {
			sym.Assert(sym.SameBytes(encode(t, ssz, p), encode(t, ssz, q)), "the fuzzed value does not survive garbage collection")
		}
	}
	sym.Reach("done")
}

func decodeAndForget(t *TypeDef, ssz types.SSZ) {
	s := t.Sch()
	p := t.New()
	decode(ssz, Ser(s, some(s, 1)), p)
	encode(t, ssz, p)
}
