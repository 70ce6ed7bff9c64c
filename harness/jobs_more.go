package main

import (
	"reflect"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"
	"verif/harness/sym"
)

// ---- C17 ----

func jobFuzz(t *TypeDef, bound int) {
	s := t.Sch()
	ssz := t.SSZ()
	min, max := ssz.FuzzMinLen(), ssz.FuzzMaxLen()
	sym.Assert(min <= max, "the fuzzing minimum is above the maximum")
	var n int
	span := uint64(8)
	if s.fixed() {
		span = 3
	}
	switch c := sym.Choose("n", span+2); {
	case c == 0:
		n = 0
	default:
		n = int(min+c) - 2
		if n < 0 {
			return
		}
	}
	in := sym.Bytes("in", n)
	r := &sliceReader{b: in}
	p := t.New()
	k, err := zssz.DecodeFuzzBytes(r, uint64(n), p, ssz)
	if uint64(n) < min {
		sym.Assert(err != nil, "fuzzing input below the minimum is accepted")
		sym.Reach("short")
		return
	}
	sym.Assert(err == nil, "fuzz-mode decoding of sufficient input fails")
	if err != nil {
		return
	}
	sym.Assert(k == uint64(r.take), "the reported consumption is not the number of bytes taken")
	sym.Assert(k >= min && k <= max, "the consumption is outside the reported fuzzing minimum and maximum")
	w := &sliceWriter{}
	_, err = zssz.Encode(w, p, ssz)
	sym.Assert(err == nil, "the fuzzed value cannot be encoded")
	v, ok := Deser(s, w.b)
	sym.Assert(ok, "the fuzzed value is not valid")
	if !ok {
		return
	}
	q := t.New()
	err = decode(ssz, w.b, q)
	sym.Assert(err == nil, "the encoding of the fuzzed value is rejected")
	if err == nil {
		sym.Assert(EqVal(s, t.Get(q), v), "the fuzzed value decodes to another one")
		sym.Assert(EqVal(s, t.Get(p), v), "the fuzzed value decodes to another one")
	}
	h := useHash()
	zssz.HashTreeRoot(h, p, ssz)
	sym.Obs("consumed", k)
	sym.Reach("done")
}

// ---- C18 ----

func jobPointees(int) {
	t := typeNamed("PtrS")
	s := t.Sch()
	ssz := t.SSZ()
	p, _ := genInto(t, s, "old")
	x := p.(*PtrS)
	a, b := x.P, x.Q
	v := GenVal(s, "v")
	sym.Assert(decode(ssz, Ser(s, v), p) == nil, "a valid encoding is rejected by a used destination")
	sym.Assert(unsafe.Pointer(x.P) == unsafe.Pointer(a) && unsafe.Pointer(x.Q) == unsafe.Pointer(b), "an allocated pointee is replaced")
	sym.Assert(EqVal(s, get_PtrS(x), v), "decoding into a used destination gives another value")
	sym.Reach("done")
}

func typeNamed(n string) *TypeDef {
	for _, t := range Types {
		if t.Name == n {
			return t
		}
	}
	panic(n)
}

// ---- C20 ----

func jobDryCheckRef(t *TypeDef, bound int) {
	s := t.Sch()
	ssz := t.SSZ()
	in := input(t, s, bound)
	_, ok := Deser(s, in)
	r := &sliceReader{b: in}
	err := zssz.DryCheck(r, uint64(len(in)), ssz)
	sym.Assert((err == nil) == ok, "the dry check does not accept exactly the valid encodings")
	sym.Assert(err != nil || r.take == len(in), "the dry check does not take all bytes")
	sym.Reach("done")
}

// ---- C21 ----

func jobStructValues(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	h := useHash()
	p, v := genInto(t, s, "v")
	keep := markOmitted(t, p)
	want := Ser(s, v)
	b := encode(t, ssz, p)
	sym.Assert(len(b) == len(want), "encoding differs from that of the written-out struct")
	sym.Assert(sym.SameBytes(b, want), "encoding differs from that of the written-out struct")
	sym.Assert(zssz.SizeOf(p, ssz) == uint64(len(want)), "size differs from that of the written-out struct")
	sym.Assert(sameRoot(zssz.HashTreeRoot(h, p, ssz), HTR(s, v)), "root differs from that of the written-out struct")
	if x, ok := ssz.(signed); ok {
		var r node
		if n := len(s.Fields) - 1; n > 0 {
			r = merkleLimit(roots(s, v)[:n], uint64(n))
		}
		sym.Assert(sameRoot(zssz.SigningRoot(h, p, x), r), "signing-root differs from that of the written-out struct")
	}
	sym.Assert(sameOmitted(t, p, keep), "an omitted field is changed")
	checkInfo(s, ssz)
	sym.ObsBytes("encoding", b)
	sym.Reach("done")
}

func jobStructInputs(t *TypeDef, bound int) {
	s := t.Sch()
	ssz := t.SSZ()
	in := input(t, s, bound)
	p := t.New()
	keep := markOmitted(t, p)
	err := decode(ssz, in, p)
	sym.Assert(sameOmitted(t, p, keep), "decoding writes an omitted field")
	v, ok := Deser(s, in)
	sym.Assert((err == nil) == ok, "acceptance differs from that of the written-out struct")
	if ok && err == nil {
		sym.Assert(EqVal(s, t.Get(p), v), "the decoded value differs from that of the written-out struct")
		sym.Reach("valid")
	} else {
		sym.Reach("invalid")
	}
}

// ---- C23 ----

type noLimit []uint16
type noLimitB []byte
type noLimitS []Small
type badBits1 [2]byte

func (*badBits1) BitLen() uint64 { return 8 }

type badBits2 [2]byte

func (*badBits2) BitLen() uint64 { return 17 }

type badBits3 [33]byte

func (*badBits3) BitLen() uint64 { return 256 }

type listOfInt []int

func (*listOfInt) Limit() uint64 { return 4 }

type listOfMap []map[int]int

func (*listOfMap) Limit() uint64 { return 4 }

type listOfSlices [][]uint16

func (*listOfSlices) Limit() uint64 { return 4 }

type listOfStr []string

func (*listOfStr) Limit() uint64 { return 4 }

type listOfBadBits []badBits1

func (*listOfBadBits) Limit() uint64 { return 4 }

type strS struct {
	A uint8
	B string
}
type deepS struct {
	A uint8
	N struct {
		X uint16
		P *struct{ F float64 }
	}
}
type sqUint struct {
	A uint16 `ssz:"squash"`
}
type sqList struct {
	L Bytes3_g2 `ssz:"squash"`
}
type sqPtr struct {
	P *Small `ssz:"squash"`
}
type sqArr struct {
	P [2]Small `ssz:"squash"`
}
type sqBool struct {
	X uint8
	P bool `ssz:"other,squash"`
}
type sqBad struct {
	S strS `ssz:"squash"`
}
type embBad struct {
	strS
	X uint8
}
type embMap struct {
	Inner
}
type Inner map[string]int

// types that contain themselves
type recPtr struct {
	A uint8
	P *recPtr
}
type recList []recList

func (*recList) Limit() uint64 { return 3 }

type recA struct{ X [2]*recB }
type recB struct{ Y recC }
type recC []recA

func (*recC) Limit() uint64 { return 3 }

type recP *recP
type recSq struct {
	B bool
	R recPtr `ssz:"squash"`
}
type recEmb struct {
	B bool
	*recEmb
}

// this one is not recursive
type recOmit struct {
	A uint8
	P *recOmit   `ssz:"omit"`
	Q []*recOmit `ssz:"omit"`
}
type recTwice struct {
	A, B [2]recOmit
	C    *recOmit
	recOmit
}

type omitMap struct {
	A uint8
	M map[string]int `ssz:"omit"`
	F func()         `ssz:"x,omit"`
	I interface{}    `ssz:"omit,squash"`
}

func jobUnsupported(int) {
	bad := []any{
		(*int)(nil), (*int8)(nil), (*int16)(nil), (*int32)(nil), (*int64)(nil), (*uint)(nil), (*uintptr)(nil),
		(*float32)(nil), (*float64)(nil), (*complex64)(nil), (*complex128)(nil), (*string)(nil),
		(*map[string]uint64)(nil), (*chan uint8)(nil), (*func())(nil), (*interface{})(nil), (*unsafe.Pointer)(nil),
		(*[]uint8)(nil), (*[]uint16)(nil), (*[]bool)(nil), (*[]uint64)(nil), (*[]Small)(nil), (*[][4]byte)(nil),
		(*noLimit)(nil), (*noLimitB)(nil), (*noLimitS)(nil),
		(*badBits1)(nil), (*badBits2)(nil), (*badBits3)(nil),
		(*listOfInt)(nil), (*listOfMap)(nil), (*listOfSlices)(nil), (*listOfStr)(nil), (*listOfBadBits)(nil),
		(*[3]int)(nil), (*[3]string)(nil), (*[2]noLimit)(nil), (*[2]badBits2)(nil), (*[2]*float32)(nil), (*[2][2]int16)(nil),
		(**int)(nil), (**noLimitB)(nil), (***string)(nil), (**badBits1)(nil),
		(*strS)(nil), (*deepS)(nil), (*sqUint)(nil), (*sqList)(nil), (*sqPtr)(nil), (*sqArr)(nil), (*sqBool)(nil), (*sqBad)(nil),
		(*embBad)(nil), (*embMap)(nil), (**strS)(nil), (*[1]strS)(nil),
		(*struct{ A, B, C chan int })(nil), (*struct{ L noLimit })(nil), (*struct{ V badBits1 })(nil), (*struct{ P *noLimitS })(nil),
		(*recPtr)(nil), (*recList)(nil), (*recA)(nil), (*recB)(nil), (*recC)(nil), (*recP)(nil), (*recSq)(nil), (*recEmb)(nil), (**recPtr)(nil), (*[2]recList)(nil),
		(*struct {
			A uint8
			B int `ssz:"omitted"`
		})(nil),
		(*struct {
			A uint8
			B int `json:"omit"`
		})(nil),
	}
	k := int(sym.Choose("type", uint64(len(bad))))
	for i := 0; i < 2; i++ {
		// again after other definitions
		var err error
		p := panics(func() { _, err = types.SSZFactory(reflect.TypeOf(bad[k]).Elem()) })
		sym.Assert(!p, "building a definition panics")
		sym.Assert(p || err != nil, "an unsupported type is accepted")
		p = panics(func() { _, err = types.SSZFactory(reflect.TypeOf(StateLite{})) })
		sym.Assert(!p && err == nil, "a supported type is refused")
		p = panics(func() { _, err = types.SSZFactory(reflect.TypeOf(deepS{})) })
		sym.Assert(!p && err != nil, "an unsupported type is accepted")
	}
	sym.Reach("done")
}

func jobSupported(t *TypeDef, _ int) {
	pickLimit(t)
	var err error
	var def types.SSZ
	p := panics(func() { def, err = types.SSZFactory(reflect.TypeOf(t.New()).Elem()) })
	sym.Assert(!p, "building a definition panics")
	sym.Assert(p || err == nil, "a supported type is refused")
	if p || err != nil {
		return
	}
	sym.Assert(def.IsFixed() == t.Sch().fixed(), "IsFixed is wrong")
	// again, after failures
	types.SSZFactory(reflect.TypeOf(strS{}))
	types.SSZFactory(reflect.TypeOf(struct {
		X *listOfInt
		Y int
	}{}))
	var again types.SSZ
	p = panics(func() { again, err = types.SSZFactory(reflect.TypeOf(t.New()).Elem()) })
	sym.Assert(!p, "building a definition panics")
	sym.Assert(p || err == nil, "a supported type is refused")
	if p || err != nil {
		return
	}
	sym.Assert(def.IsFixed() == again.IsFixed() && def.FixedLen() == again.FixedLen() && def.MinLen() == again.MinLen() && def.MaxLen() == again.MaxLen(), "two definitions of a type differ")
	sym.Reach("done")
}

// types with the same name
func namesake(i uint64) (reflect.Type, uint64) {
	switch i {
	case 0:
		type T struct{ A uint8 }
		return reflect.TypeOf(T{}), 1
	case 1:
		type T struct{ A uint64 }
		return reflect.TypeOf(T{}), 8
	case 2:
		type T struct{ A, B uint32 }
		return reflect.TypeOf([2]T{}), 16
	case 3:
		type T struct{ A string }
		return reflect.TypeOf(T{}), 0
	case 4:
		type T struct{ A uint16 }
		return reflect.TypeOf([2]T{}), 4
	case 5:
		type T bool
		return reflect.TypeOf([2]T{}), 2
	}
	type T [7]byte
	return reflect.TypeOf(struct{ X T }{}), 7
}

func jobNamesakes(int) {
	for i := 0; i < 3; i++ {
		t, n := namesake(sym.Choose("type", 7))
		def, err := types.SSZFactory(t)
		sym.Assert(n != 0 || err != nil, "an unsupported type is accepted")
		sym.Assert(n == 0 || err == nil, "a supported type is refused")
		if err == nil {
			sym.Assert(def.FixedLen() == n, "the definition is that of another type")
		}
	}
	sym.Reach("done")
}

func jobSupportedMore(int) {
	good := []any{(*omitMap)(nil), (*Inner2)(nil), (*recOmit)(nil), (*recTwice)(nil), (*[4]Small)(nil), (**[3]uint64)(nil)}
	k := int(sym.Choose("type", uint64(len(good))))
	var err error
	p := panics(func() { _, err = types.SSZFactory(reflect.TypeOf(good[k]).Elem()) })
	sym.Assert(!p, "building a definition panics")
	sym.Assert(p || err == nil, "a supported type is refused")
	sym.Reach("done")
}

type Inner2 struct {
	Slot
	F Flag
	P *[2]Bitvec9
	Small
}

var symBits uint64

type sb1 [1]byte
type sb2 [2]byte
type sb4 [4]byte
type sb33 [33]byte

func (*sb1) BitLen() uint64  { return symBits }
func (*sb2) BitLen() uint64  { return symBits }
func (*sb4) BitLen() uint64  { return symBits }
func (*sb33) BitLen() uint64 { return symBits }

func jobBitvecFactory(int) {
	symBits = sym.U64("bits")
	ts := []any{(*sb1)(nil), (*sb2)(nil), (*sb4)(nil), (*sb33)(nil)}
	ns := []uint64{1, 2, 4, 33}
	k := int(sym.Choose("type", 4))
	var err error
	var def types.SSZ
	p := panics(func() { def, err = types.SSZFactory(reflect.TypeOf(ts[k]).Elem()) })
	sym.Assert(!p, "building a definition panics")
	want := symBits > 8*(ns[k]-1) && symBits <= 8*ns[k]
	sym.Assert(p || (err == nil) == want, "a bitvector is accepted with another bit length than its bytes hold, or refused")
	if !p && err == nil {
		sym.Assert(def.FixedLen() == ns[k] && def.IsFixed(), "the bitvector has another size")
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// ---- C25 ----

const layout = " \t\r\n[]{},:"

func prettyOf(p any, ssz types.SSZ) []byte {
	w := &sliceWriter{}
	zssz.Pretty(w, "  ", p, ssz)
	return w.b
}

// matchPretty walks the layout-free output along the value.
func matchPretty(s *Sch, v *Val, out []byte, pos int) int {
	if v.Nil {
		for _, n := range []string{"null", "nil", "<nil>"} {
			if len(out)-pos >= len(n) && string(out[pos:pos+len(n)]) == n {
				return pos + len(n)
			}
		}
		sym.Assert(false, "a nil pointer is missing from the output")
		return -1
	}
	switch s.K {
	case KContainer:
		for i, f := range s.Fields {
			pos = matchName(s.Names[i], out, pos)
			if pos < 0 {
				return -1
			}
			pos = matchPretty(f, v.Elems[i], out, pos)
			if pos < 0 {
				return -1
			}
		}
		return pos
	case KVector, KList:
		for i := range v.Elems {
			pos = matchPretty(s.Elem, v.Elems[i], out, pos)
			if pos < 0 {
				return -1
			}
		}
		return pos
	}
	want := sym.Strip(s.Print(v), layout)
	if len(out)-pos < len(want) {
		sym.Assert(false, "an element value is missing from the output")
		return -1
	}
	sym.Assert(sym.SameBytes(out[pos:pos+len(want)], want), "the output does not list the element values in order")
	return pos + len(want)
}

func identByte(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// the name, possibly preceded by the path of the structs it was squashed from
func matchName(name string, out []byte, pos int) int {
	for {
		if len(out)-pos >= len(name) && string(out[pos:pos+len(name)]) == name {
			return pos + len(name)
		}
		i := pos
		for i < len(out) && identByte(out[i]) {
			i++
		}
		if i == len(out) || i == pos || out[i] != '>' {
			sym.Assert(false, "the output does not list the field names in order")
			return -1
		}
		pos = i + 1
	}
}

type pointerSlot struct {
	p unsafe.Pointer
	v *Val
}

func ptrOf(p any) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&p))[1]
}

// pointerSlots lists where a value of the type, stored at p, holds pointers, and to which parts of the value.
func pointerSlots(typ reflect.Type, s *Sch, v *Val, p unsafe.Pointer, out []pointerSlot) []pointerSlot {
	switch typ.Kind() {
	case reflect.Ptr:
		return pointerSlots(typ.Elem(), s, v, *(*unsafe.Pointer)(p), append(out, pointerSlot{p, v}))
	case reflect.Struct:
		if len(s.Fields) != typ.NumField() {
			return out // squashed or omitted fields
		}
		for i := range s.Fields {
			f := typ.Field(i)
			if f.Anonymous || len(f.Tag) > 0 {
				return out
			}
		}
		for i, e := range s.Fields {
			f := typ.Field(i)
			out = pointerSlots(f.Type, e, v.Elems[i], unsafe.Pointer(uintptr(p)+f.Offset), out)
		}
	case reflect.Array, reflect.Slice:
		if s.K != KVector && s.K != KList {
			return out
		}
		if typ.Kind() == reflect.Slice {
			p = *(*unsafe.Pointer)(p)
		}
		for i := range v.Elems {
			out = pointerSlots(typ.Elem(), s.Elem, v.Elems[i], unsafe.Pointer(uintptr(p)+uintptr(i)*typ.Elem().Size()), out)
		}
	}
	return out
}

func jobPretty(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	how := sym.Choose("zero", 3)
	if how == 1 {
		// nil pointers and empty lists
		out := prettyOf(t.New(), ssz)
		sym.Assert(s.K != KContainer && s.K != KVector && s.K != KList || len(out) >= 2, "nothing is printed")
		for i := range s.Names {
			if reflect.TypeOf(t.New()).Elem().Kind() == reflect.Ptr {
				break // a nil pointer has no fields to list
			}
			sym.Assert(hasBytes(out, s.Names[i]), "a field name is missing from the output")
		}
		sym.Reach("zero")
		return
	}
	spareEmpty = true
	p, v := genInto(t, s, "v")
	if how == 2 {
		// one of the pointers inside the value is nil
		slots := pointerSlots(reflect.TypeOf(p).Elem(), s, v, ptrOf(p), nil)
		if len(slots) == 0 {
			return
		}
		at := slots[sym.Choose("nil", uint64(min(len(slots), 6)))]
		*(*unsafe.Pointer)(at.p) = nil
		at.v.Nil = true
		sym.Reach("nil")
	}
	out := sym.Strip(prettyOf(p, ssz), layout)
	end := matchPretty(s, v, out, 0)
	sym.Assert(end < 0 || end == len(out), "the output lists more than the names and values")
	if how == 2 {
		return
	}
	sym.Assert(EqVal(s, t.Get(p), v), "printing changed the value")
	sym.Reach("done")
}

// longElems is a schema of lists or vectors with too many elements to have all of them arbitrary
func longElems(t *TypeDef) bool {
	s := t.Sch()
	return t.Fam != "sym" && (s.K == KList || s.K == KVector) && s.shapes(2) > 2e3 && s.leaves() <= 3000
}

// numbered is a concrete value in which every basic value depends on its position.
func numbered(s *Sch, next *uint64) *Val {
	*next++
	if s.K == KUint {
		m := uint64(1)<<(8*s.Size-1)<<1 - 1
		return &Val{U: *next * 0x9e3779b97f4a7c15 >> 7 & m}
	}
	if s.K == KBool {
		return &Val{U: *next * 0x9e37 >> 7 & 1}
	}
	if s.K != KVector && s.K != KContainer && s.K != KList {
		return some(s, int(*next&1))
	}
	n := uint64(len(s.Fields))
	if s.K == KVector {
		n = s.N
	} else if s.K == KList {
		n = s.genMax()
	}
	v := &Val{}
	for i := 0; i < int(n); i++ {
		v.Elems = append(v.Elems, numbered(s.elem(i), next))
	}
	return v
}

// jobPrettyLong prints long series of which one element is arbitrary.
func jobPrettyLong(t *TypeDef, _ int) {
	s := t.Sch()
	next := uint64(0)
	v := numbered(s, &next)
	if s.K == KList {
		v.Elems = v.Elems[:s.genLen("v")]
	}
	if n := len(v.Elems); n > 0 {
		at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
		e := s.Elem
		if e.K == KUint || e.K == KBool {
			v.Elems[at] = GenVal(e, "e")
		}
	}
	p := t.New()
	t.Set(p, v)
	out := sym.Strip(prettyOf(p, t.SSZ()), layout)
	end := matchPretty(s, v, out, 0)
	sym.Assert(end < 0 || end == len(out), "the output lists more than the names and values")
	sym.Reach("done")
}

func hasBytes(b []byte, s string) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == s {
			return true
		}
	}
	return false
}

func jobPrettyDetermines(t *TypeDef, _ int) {
	s := t.Sch()
	ssz := t.SSZ()
	p, v := genInto(t, s, "v")
	q, w := genInto(t, s, "w")
	a, b := prettyOf(p, ssz), prettyOf(q, ssz)
	if len(a) == len(b) {
		sym.Assert(sym.Or(!sym.SameBytes(a, b), EqVal(s, v, w)), "different values are printed alike")
	}
	sym.Reach("done")
}
