package main

import (
	"io"
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/dec"
	"verif/harness/sym"
)

// C07: any data, any declared length
func jobRobust(t *TypeDef, bound int) {
	pickLimit(t)
	s := t.Sch()
	ssz := t.SSZ()
	max := bound
	if s.fixed() {
		max = int(s.size()) + 1
	}
	m := int(sym.Choose("delivered", uint64(max)+1))
	top := uint64(1 << 63)
	if t.Fam == "sym" || s.maxSize() > 1<<24 {
		top = 1 << 24 // more is valid, but does not fit into memory
	}
	l := sym.Range("declared", 0, top-1)
	if m < max {
		sym.Assume(l > uint64(m)) // what follows the declared bytes is covered with m == max
	}
	sym.BigSizes(true)
	in := sym.Bytes("in", m)
	r := &sliceReader{b: in}
	p := t.New()
	var err error
	sym.AllocReset()
	if sym.Bool("dry") {
		err = zssz.DryCheck(r, l, ssz)
	} else {
		err = zssz.Decode(r, l, p, ssz)
	}
	if top > 1<<24 {
		sym.Assert(sym.AllocTotal() <= allocBase+allocFactor*s.maxSize(), "more memory is taken than any value of the type needs")
	}
	if err == nil {
		sym.Assert(l <= uint64(m), "success although the stream ended early")
		sym.Reach("ok")
	} else {
		sym.Reach("error")
	}
}

// encodings of long values with some offsets replaced
func jobRobustWindow(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	in := windowInput(s)
	p := t.New()
	r := &sliceReader{b: in}
	l := uint64(len(in))
	if sym.Choose("short", 2) == 1 && l > 0 {
		r.b = in[:l-1]
	}
	var err error
	if sym.Bool("dry") {
		err = zssz.DryCheck(r, l, ssz)
	} else {
		err = zssz.Decode(r, l, p, ssz)
	}
	if err == nil {
		sym.Assert(len(r.b) == len(in), "success although the stream ended early")
		sym.Reach("ok")
	} else {
		sym.Reach("error")
	}
}

// C08: bytes taken and memory allocated
func jobConsume(t *TypeDef, bound int) {
	pickLimit(t)
	s := t.Sch()
	ssz := t.SSZ()
	var in []byte
	if windows {
		in = append(windowInput(s), 1, 0)
	} else {
		in = sym.Bytes("in", inputLen(s, bound)+2)
	}
	n := len(in) - 2
	r := &sliceReader{b: in}
	p := t.New()
	if sym.Bool("dry") {
		sym.AllocReset()
		err := zssz.DryCheck(r, uint64(n), ssz)
		a := sym.AllocTotal()
		sym.Assert(r.take <= n, "the dry check reads beyond the declared length")
		sym.Assert(err != nil || r.take == n, "the dry check succeeds without reading all declared bytes")
		sym.Assert(a <= allocBase+allocFactor*uint64(n), "the dry check allocates out of proportion to the input")
		return
	}
	sym.AllocReset()
	err := zssz.Decode(r, uint64(n), p, ssz)
	a := sym.AllocTotal()
	sym.Assert(r.take <= n, "decoding reads beyond the declared length")
	sym.Assert(err != nil || r.take == n, "decoding succeeds without reading all declared bytes")
	sym.Assert(a <= allocBase+allocFactor*uint64(n), "decoding allocates out of proportion to the input")
	sym.Obs("taken", uint64(r.take))
	sym.Reach("done")
}

const (
	allocBase   = 1 << 16 // skipping takes an 8 KiB buffer from a pool
	allocFactor = 256
)

// C08: the scoped reader itself
func jobReaderScope(int) {
	in := sym.Bytes("in", 8)
	r := &sliceReader{b: in}
	dr := dec.NewDecodingReader(r)
	a := sym.Range("a", 0, 1<<63-1) // byte counts beyond are not representable in Go's io package
	outer, err := dr.Scope(a)
	sym.Assert(err == nil, "a scope of the unlimited reader is refused")
	if err != nil {
		return
	}
	n1 := int(sym.Choose("n1", 4))
	buf := make([]byte, 4)
	_, err = outer.Read(buf[:n1])
	sym.Assert((err == nil) == (uint64(n1) <= a), "a read fails although it fits the scope, or succeeds beyond it")
	if err != nil {
		sym.Assert(r.take == 0, "a refused read takes bytes")
		return
	}
	sym.Assert(outer.Index() == uint64(n1), "index is not the number of bytes read")
	sym.Assert(outer.GetBytesSpan() == a-uint64(n1), "span is not the number of bytes left")
	c := sym.U64("c")
	inner, err := outer.Scope(c)
	sym.Assert((err == nil) == (c <= a-uint64(n1)), "a scope is refused although it fits, or granted beyond its parent")
	if err != nil {
		return
	}
	n2 := int(sym.Choose("n2", 4))
	var k int
	if sym.Bool("skip") {
		k, err = inner.Skip(uint64(n2))
	} else {
		k, err = inner.Read(buf[:n2])
		if err == nil {
			for i := 0; i < n2; i++ {
				sym.Assert(buf[i] == in[n1+i], "reading gives other bytes than the stream holds")
			}
		}
	}
	sym.Assert((err == nil) == (uint64(n2) <= c), "a read fails although it fits the scope, or succeeds beyond it")
	if err != nil {
		sym.Assert(r.take == n1, "a refused read takes bytes")
		return
	}
	sym.Assert(k == n2, "wrong byte count")
	sym.Assert(r.take == n1+n2, "more bytes taken from the stream than read")
	sym.Assert(inner.Index() == uint64(n2) && inner.Max() == c, "index or maximum of the inner scope")
	outer.UpdateIndexFromScoped(inner)
	sym.Assert(outer.Index() == uint64(n1+n2), "index of the outer scope after the inner one")
	sym.Reach("done")
}

// ---- C09 ----

// chunkReader delivers b in arbitrary pieces.
type chunkReader struct {
	b       []byte
	pos     int
	budget  int  // short reads left
	eofLast bool // report the end together with the last bytes
	end     error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	rest := len(r.b) - r.pos
	if rest == 0 {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, r.end
	}
	n := len(p)
	if n > rest {
		n = rest
	}
	if r.budget > 0 && n > 0 && sym.Choose("short", 2) == 1 {
		r.budget--
		n = int(sym.Choose("size", uint64(n))) // may be zero
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.eofLast && n > 0 && r.pos == len(r.b) {
		return n, r.end
	}
	return n, nil
}

func jobChunks(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	v := GenVal(s, "v")
	b := Ser(s, v)
	r := &chunkReader{b: b, budget: 2, end: io.EOF, eofLast: sym.Choose("eoflast", 2) == 1}
	if len(b) > 40 {
		r.budget = 1
	}
	if sym.Bool("dry") {
		err := zssz.DryCheck(r, uint64(len(b)), ssz)
		sym.Assert(err == nil, "the dry check depends on how the stream delivers its bytes")
		sym.Assert(r.pos == len(b), "the dry check takes another number of bytes")
		return
	}
	p := t.New()
	err := zssz.Decode(r, uint64(len(b)), p, ssz)
	sym.Assert(err == nil, "decoding depends on how the stream delivers its bytes")
	if err == nil {
		sym.Assert(EqVal(s, t.Get(p), v), "the decoded value depends on how the stream delivers its bytes")
	}
	sym.Reach("done")
}

// the stream ends or fails early
func jobTruncated(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	v := GenVal(s, "v")
	b := Ser(s, v)
	if len(b) == 0 {
		return
	}
	k := int(sym.Choose("delivered", uint64(len(b))))
	r := &chunkReader{b: b[:k], end: io.EOF, eofLast: sym.Choose("endlast", 2) == 1}
	if sym.Choose("broken", 2) == 1 {
		r.end = errBroken
	}
	if len(b) <= 16 {
		r.budget = 1
	}
	var err error
	if sym.Bool("dry") {
		err = zssz.DryCheck(r, uint64(len(b)), ssz)
	} else {
		err = zssz.Decode(r, uint64(len(b)), t.New(), ssz)
	}
	sym.Assert(err != nil, "success although the stream ended before all required bytes")
	sym.Reach("done")
}

// ---- C10 ----

type faultWriter struct {
	b      []byte
	left   int // bytes accepted before the failure
	all    bool
	failed bool
	after  bool // something was written after the failure
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after = true
		return 0, errBroken
	}
	if len(p) < w.left || len(p) == w.left && !w.all {
		w.b = append(w.b, p...)
		w.left -= len(p)
		return len(p), nil
	}
	w.failed = true
	w.b = append(w.b, p[:w.left]...)
	return w.left, errBroken
}

func jobWriterFault(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	p, v := genInto(t, s, "v")
	want := Ser(s, v)
	// all: the failing call accepts every byte it was given
	w := &faultWriter{left: int(sym.Choose("accept", uint64(len(want))+1)), all: sym.Choose("all", 2) == 1}
	var out io.Writer = w
	if sym.Choose("rich", 2) == 1 {
		x := &richWriter{*w}
		w = &x.faultWriter
		out = x
	}
	n, err := zssz.Encode(out, p, ssz)
	sym.Assert(n == len(w.b), "the returned count is not the number of bytes the writer accepted")
	sym.Assert(len(w.b) <= len(want), "more bytes than the encoding has")
	if len(w.b) <= len(want) {
		sym.Assert(sym.SameBytes(w.b, want[:len(w.b)]), "the accepted bytes are not a prefix of the encoding")
	}
	sym.Assert(!w.after, "written after the writer failed")
	if w.failed {
		sym.Assert(err != nil, "a writer failure is not reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "encoding fails although the writer does not")
		sym.Assert(len(w.b) == len(want), "success although bytes are missing")
		sym.Reach("complete")
	}
	sym.Obs("n", uint64(n))
}

// ---- C19 ----

func jobReadOnly(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	h := useHash()
	p, v := genInto(t, s, "v")
	b := Ser(s, v)
	op := sym.Choose("op", 6)
	sym.Freeze()
	sym.Twice(func() {
		switch op {
		case 0:
			zssz.Encode(&sliceWriter{}, p, ssz)
		case 1:
			zssz.SizeOf(p, ssz)
		case 2:
			zssz.HashTreeRoot(h, p, ssz)
		case 3:
			if x, ok := ssz.(signed); ok {
				zssz.SigningRoot(h, p, x)
			}
		case 4:
			zssz.Pretty(&sliceWriter{}, "  ", p, ssz)
		case 5:
			zssz.DryCheck(&sliceReader{b: b}, uint64(len(b)), ssz)
		}
	})
	sym.Unfreeze()
	sym.Assert(EqVal(s, t.Get(p), v), "a reading operation changed the value")
	sym.Reach("done")
}

func jobDecodeFrozen(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	v := GenVal(s, "v")
	b := Ser(s, v)
	fuzz := sym.Choose("fuzz", 2) == 1
	if fuzz {
		b = append(b, sym.Bytes("more", 9)...)
	}
	sym.Freeze()
	sym.Twice(func() {
		if fuzz {
			zssz.DecodeFuzzBytes(&sliceReader{b: b}, uint64(len(b)), t.New(), ssz)
		} else {
			zssz.Decode(&sliceReader{b: b}, uint64(len(b)), t.New(), ssz)
		}
		t.SSZ() // building a definition
	})
	sym.Unfreeze()
	sym.Reach("done")
}

func jobAliasing(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	v := GenVal(s, "v")
	b := clone(Ser(s, v))
	p, q := t.New(), t.New()
	n := uint64(len(b))
	var r1, r2 io.Reader = &sliceReader{b: b}, &sliceReader{b: b}
	if k := sym.Choose("stream", 3); k > 0 {
		r1, r2 = streamOf(k-1, b), streamOf(k-1, b)
	}
	e1 := zssz.Decode(r1, n, p, ssz)
	e2 := zssz.Decode(r2, n, q, ssz)
	sym.Assert(e1 == nil && e2 == nil, "a valid encoding is rejected")
	if e1 != nil || e2 != nil {
		return
	}
	// overwrite the input with another value's bytes, and the first result through another decode
	for i := range b {
		b[i] ^= 0xff
	}
	sym.Assert(EqVal(s, t.Get(p), v), "the decoded value changes with the input buffer")
	w := GenVal(s, "w")
	decode(ssz, Ser(s, w), p)
	sym.Assert(EqVal(s, t.Get(q), v), "two decoded values share memory")
	sym.Reach("done")
}

// ---- C18 ----

func jobReuse(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	spareEmpty = true
	p, _ := genInto(t, s, "old")
	spareEmpty = false
	if sym.Choose("twice", 2) == 1 {
		// a destination with spare capacity: the longest value, then another one
		q := t.New()
		t.Set(q, longest(s, "first"))
		p = q
		mid := GenVal(s, "old2")
		sym.Assert(decode(ssz, Ser(s, mid), p) == nil, "a valid encoding is rejected by a used destination")
	}
	typ := reflect.TypeOf(p).Elem()
	var old *memory
	if remembers(typ) {
		old = remember(typ, ptrOf(p))
	}
	v := GenVal(s, "v")
	err := decode(ssz, Ser(s, v), p)
	sym.Assert(err == nil, "a valid encoding is rejected by a used destination")
	if err != nil {
		return
	}
	if old != nil {
		old.check(typ, ptrOf(p))
		sym.Reach("kept")
	}
	sym.Assert(EqVal(s, t.Get(p), v), "decoding into a used destination gives another value")
	b := encode(t, ssz, p)
	sym.Assert(sym.SameBytes(b, Ser(s, v)), "the re-encoding from a used destination differs")
	sym.Reach("done")
}

// memory is what decoding has to leave as it is in a used destination: the
// identity of pointees and the contents of omitted fields.
type memory struct {
	n    int            // elements
	to   unsafe.Pointer // pointee
	keep []byte         // contents of an omitted field
	kids []*memory
}

func isOmitted(f reflect.StructField) bool {
	v := f.Tag.Get("ssz")
	for i, start := 0, 0; i <= len(v); i++ {
		if i == len(v) || v[i] == ',' {
			if v[start:i] == "omit" {
				return true
			}
			start = i + 1
		}
	}
	return false
}

// remembers tells if values of the type have pointees or omitted fields.
func remembers(typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Ptr:
		return true
	case reflect.Array, reflect.Slice:
		return remembers(typ.Elem())
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			if f := typ.Field(i); isOmitted(f) || remembers(f.Type) {
				return true
			}
		}
	}
	return false
}

func plainMem(typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	case reflect.Array:
		return plainMem(typ.Elem())
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			if !plainMem(typ.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

func remember(typ reflect.Type, p unsafe.Pointer) *memory {
	m := &memory{}
	switch typ.Kind() {
	case reflect.Ptr:
		m.to = *(*unsafe.Pointer)(p)
		if m.to != nil && remembers(typ.Elem()) {
			m.kids = append(m.kids, remember(typ.Elem(), m.to))
		}
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			q := unsafe.Pointer(uintptr(p) + f.Offset)
			k := &memory{}
			if isOmitted(f) {
				if plainMem(f.Type) {
					for j := uintptr(0); j < f.Type.Size(); j++ {
						b := (*byte)(unsafe.Pointer(uintptr(q) + j))
						*b = sym.U8("omitted")
						k.keep = append(k.keep, *b)
					}
				}
			} else if remembers(f.Type) {
				k = remember(f.Type, q)
			}
			m.kids = append(m.kids, k)
		}
	case reflect.Array, reflect.Slice:
		n, q := series(typ, p)
		m.n = n
		for i := 0; i < n; i++ {
			m.kids = append(m.kids, remember(typ.Elem(), unsafe.Pointer(uintptr(q)+uintptr(i)*typ.Elem().Size())))
		}
	}
	return m
}

func series(typ reflect.Type, p unsafe.Pointer) (int, unsafe.Pointer) {
	if typ.Kind() == reflect.Array {
		return typ.Len(), p
	}
	return *(*int)(unsafe.Pointer(uintptr(p) + 8)), *(*unsafe.Pointer)(p)
}

func (m *memory) check(typ reflect.Type, p unsafe.Pointer) {
	switch typ.Kind() {
	case reflect.Ptr:
		if m.to != nil {
			to := *(*unsafe.Pointer)(p)
			sym.Assert(to == m.to, "an allocated pointee is replaced")
			if len(m.kids) == 1 {
				m.kids[0].check(typ.Elem(), to)
			}
		}
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			q := unsafe.Pointer(uintptr(p) + f.Offset)
			k := m.kids[i]
			if isOmitted(f) {
				for j, b := range k.keep {
					sym.Assert(*(*byte)(unsafe.Pointer(uintptr(q) + uintptr(j))) == b, "decoding changes an omitted field")
				}
			} else if remembers(f.Type) {
				k.check(f.Type, q)
			}
		}
	case reflect.Array, reflect.Slice:
		n, q := series(typ, p)
		for i := 0; i < n && n <= m.n; i++ {
			m.kids[i].check(typ.Elem(), unsafe.Pointer(uintptr(q)+uintptr(i)*typ.Elem().Size()))
		}
	}
}
