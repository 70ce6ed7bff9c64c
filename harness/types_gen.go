// Code generated by tools/gen_types.py; DO NOT EDIT.

package main

import (
	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/types"
)

func sch_U8() *Sch {
	s := sUint(1)
	s.Print = func(v *Val) []byte {
		var x uint8
		set_U8(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*uint8)(nil)))
	}
	return s
}
func set_U8(p *uint8, v *Val) { *p = uint8(v.U) }
func get_U8(p *uint8) *Val    { return &Val{U: uint64(*p)} }
func sch_U16() *Sch {
	s := sUint(2)
	s.Print = func(v *Val) []byte {
		var x uint16
		set_U16(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*uint16)(nil)))
	}
	return s
}
func set_U16(p *uint16, v *Val) { *p = uint16(v.U) }
func get_U16(p *uint16) *Val    { return &Val{U: uint64(*p)} }
func sch_U32() *Sch {
	s := sUint(4)
	s.Print = func(v *Val) []byte {
		var x uint32
		set_U32(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*uint32)(nil)))
	}
	return s
}
func set_U32(p *uint32, v *Val) { *p = uint32(v.U) }
func get_U32(p *uint32) *Val    { return &Val{U: uint64(*p)} }
func sch_U64() *Sch {
	s := sUint(8)
	s.Print = func(v *Val) []byte {
		var x uint64
		set_U64(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*uint64)(nil)))
	}
	return s
}
func set_U64(p *uint64, v *Val) { *p = uint64(v.U) }
func get_U64(p *uint64) *Val    { return &Val{U: uint64(*p)} }
func sch_Bool() *Sch {
	s := sBool()
	s.Print = func(v *Val) []byte {
		var x bool
		set_Bool(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*bool)(nil)))
	}
	return s
}
func set_Bool(p *bool, v *Val) { *p = v.U != 0 }
func get_Bool(p *bool) *Val    { return &Val{U: b2u(bool(*p))} }

type Slot uint64

func sch_Slot() *Sch {
	s := sUint(8)
	s.Print = func(v *Val) []byte {
		var x Slot
		set_Slot(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Slot)(nil)))
	}
	return s
}
func set_Slot(p *Slot, v *Val) { *p = Slot(v.U) }
func get_Slot(p *Slot) *Val    { return &Val{U: uint64(*p)} }

type Flag bool

func sch_Flag() *Sch {
	s := sBool()
	s.Print = func(v *Val) []byte {
		var x Flag
		set_Flag(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Flag)(nil)))
	}
	return s
}
func set_Flag(p *Flag, v *Val) { *p = v.U != 0 }
func get_Flag(p *Flag) *Val    { return &Val{U: b2u(bool(*p))} }
func sch_BytesN1() *Sch {
	s := sBytesN(1)
	s.Print = func(v *Val) []byte {
		var x [1]byte
		set_BytesN1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[1]byte)(nil)))
	}
	return s
}
func set_BytesN1(p *[1]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN1(p *[1]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN32() *Sch {
	s := sBytesN(32)
	s.Print = func(v *Val) []byte {
		var x [32]byte
		set_BytesN32(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[32]byte)(nil)))
	}
	return s
}
func set_BytesN32(p *[32]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN32(p *[32]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN33() *Sch {
	s := sBytesN(33)
	s.Print = func(v *Val) []byte {
		var x [33]byte
		set_BytesN33(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[33]byte)(nil)))
	}
	return s
}
func set_BytesN33(p *[33]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN33(p *[33]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN65() *Sch {
	s := sBytesN(65)
	s.Print = func(v *Val) []byte {
		var x [65]byte
		set_BytesN65(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[65]byte)(nil)))
	}
	return s
}
func set_BytesN65(p *[65]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN65(p *[65]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN4() *Sch {
	s := sBytesN(4)
	s.Print = func(v *Val) []byte {
		var x [4]byte
		set_BytesN4(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[4]byte)(nil)))
	}
	return s
}
func set_BytesN4(p *[4]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN4(p *[4]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN31() *Sch {
	s := sBytesN(31)
	s.Print = func(v *Val) []byte {
		var x [31]byte
		set_BytesN31(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[31]byte)(nil)))
	}
	return s
}
func set_BytesN31(p *[31]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN31(p *[31]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN64() *Sch {
	s := sBytesN(64)
	s.Print = func(v *Val) []byte {
		var x [64]byte
		set_BytesN64(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[64]byte)(nil)))
	}
	return s
}
func set_BytesN64(p *[64]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN64(p *[64]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN96() *Sch {
	s := sBytesN(96)
	s.Print = func(v *Val) []byte {
		var x [96]byte
		set_BytesN96(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[96]byte)(nil)))
	}
	return s
}
func set_BytesN96(p *[96]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN96(p *[96]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_Vec3_U16() *Sch               { return sVec(sch_U16(), 3) }
func set_Vec3_U16(p *[3]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec3_U16(p *[3]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}
func sch_Vec3_Bool() *Sch { return sVec(sch_Bool(), 3) }
func set_Vec3_Bool(p *[3]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec3_Bool(p *[3]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec5_U64() *Sch { return sVec(sch_U64(), 5) }
func set_Vec5_U64(p *[5]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec5_U64(p *[5]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec8_U32() *Sch { return sVec(sch_U32(), 8) }
func set_Vec8_U32(p *[8]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec8_U32(p *[8]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}
func sch_Vec33_Bool() *Sch { return sVec(sch_Bool(), 33) }
func set_Vec33_Bool(p *[33]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec33_Bool(p *[33]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec2_Slot() *Sch { return sVec(sch_Slot(), 2) }
func set_Vec2_Slot(p *[2]Slot, v *Val) {
	for i := range p {
		set_Slot(&p[i], v.Elems[i])
	}
}
func get_Vec2_Slot(p *[2]Slot) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Slot(&p[i]))
	}
	return v
}
func sch_Vec4_U64() *Sch { return sVec(sch_U64(), 4) }
func set_Vec4_U64(p *[4]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec4_U64(p *[4]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec17_U16() *Sch { return sVec(sch_U16(), 17) }
func set_Vec17_U16(p *[17]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec17_U16(p *[17]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}

type Small struct {
	A uint16
	B uint8
}

func sch_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U8()}, Names: []string{"A", "B"}}
}
func set_Small(p *Small, v *Val) {
	set_U16(&p.A, v.Elems[0])
	set_U8(&p.B, v.Elems[1])
}
func get_Small(p *Small) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A), get_U8(&p.B)}}
}
func sch_Vec2_Small() *Sch { return sVec(sch_Small(), 2) }
func set_Vec2_Small(p *[2]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Small(p *[2]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}
func sch_Vec3_BytesN32() *Sch { return sVec(sch_BytesN32(), 3) }
func set_Vec3_BytesN32(p *[3][32]byte, v *Val) {
	for i := range p {
		set_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec3_BytesN32(p *[3][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN32(&p[i]))
	}
	return v
}
func sch_Vec3_BytesN4() *Sch { return sVec(sch_BytesN4(), 3) }
func set_Vec3_BytesN4(p *[3][4]byte, v *Val) {
	for i := range p {
		set_BytesN4(&p[i], v.Elems[i])
	}
}
func get_Vec3_BytesN4(p *[3][4]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN4(&p[i]))
	}
	return v
}

type Bytes3_g2 []byte

func (*Bytes3_g2) Limit() uint64 { return 3 }
func sch_Bytes3_g2() *Sch {
	s := sBytes(3, 2)
	s.Print = func(v *Val) []byte {
		var x Bytes3_g2
		set_Bytes3_g2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes3_g2)(nil)))
	}
	return s
}
func set_Bytes3_g2(p *Bytes3_g2, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes3_g2(p *Bytes3_g2) *Val    { return &Val{B: clone(*p)} }
func sch_Vec2_Bytes3_g2() *Sch           { return sVec(sch_Bytes3_g2(), 2) }
func set_Vec2_Bytes3_g2(p *[2]Bytes3_g2, v *Val) {
	for i := range p {
		set_Bytes3_g2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bytes3_g2(p *[2]Bytes3_g2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes3_g2(&p[i]))
	}
	return v
}

type Bytes5_g3 []byte

func (*Bytes5_g3) Limit() uint64 { return 5 }
func sch_Bytes5_g3() *Sch {
	s := sBytes(5, 3)
	s.Print = func(v *Val) []byte {
		var x Bytes5_g3
		set_Bytes5_g3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes5_g3)(nil)))
	}
	return s
}
func set_Bytes5_g3(p *Bytes5_g3, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes5_g3(p *Bytes5_g3) *Val    { return &Val{B: clone(*p)} }

type Var2 struct {
	A uint8
	L Bytes5_g3
	B uint16
}

func sch_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes5_g3(), sch_U16()}, Names: []string{"A", "L", "B"}}
}
func set_Var2(p *Var2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bytes5_g3(&p.L, v.Elems[1])
	set_U16(&p.B, v.Elems[2])
}
func get_Var2(p *Var2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bytes5_g3(&p.L), get_U16(&p.B)}}
}
func sch_Vec1_Var2() *Sch { return sVec(sch_Var2(), 1) }
func set_Vec1_Var2(p *[1]Var2, v *Val) {
	for i := range p {
		set_Var2(&p[i], v.Elems[i])
	}
}
func get_Vec1_Var2(p *[1]Var2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Var2(&p[i]))
	}
	return v
}

type List3_U16_g1 []uint16

func (*List3_U16_g1) Limit() uint64 { return 3 }
func sch_List3_U16_g1() *Sch        { return sList(sch_U16(), 3, 1) }
func set_List3_U16_g1(p *List3_U16_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_U16_g1, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List3_U16_g1(p *List3_U16_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}
func sch_Vec3_List3_U16_g1() *Sch { return sVec(sch_List3_U16_g1(), 3) }
func set_Vec3_List3_U16_g1(p *[3]List3_U16_g1, v *Val) {
	for i := range p {
		set_List3_U16_g1(&p[i], v.Elems[i])
	}
}
func get_Vec3_List3_U16_g1(p *[3]List3_U16_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_U16_g1(&p[i]))
	}
	return v
}
func sch_Ptr_Small() *Sch { return sch_Small() }
func set_Ptr_Small(p **Small, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Small)
	}
	set_Small(*p, v)
}
func get_Ptr_Small(p **Small) *Val { return get_Small(*p) }
func sch_Vec2_Ptr_Small() *Sch     { return sVec(sch_Ptr_Small(), 2) }
func set_Vec2_Ptr_Small(p *[2]*Small, v *Val) {
	for i := range p {
		set_Ptr_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Ptr_Small(p *[2]*Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Small(&p[i]))
	}
	return v
}
func sch_Vec2_U16() *Sch { return sVec(sch_U16(), 2) }
func set_Vec2_U16(p *[2]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec2_U16(p *[2]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}
func sch_Vec2_Vec2_U16() *Sch { return sVec(sch_Vec2_U16(), 2) }
func set_Vec2_Vec2_U16(p *[2][2]uint16, v *Val) {
	for i := range p {
		set_Vec2_U16(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec2_U16(p *[2][2]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_U16(&p[i]))
	}
	return v
}

type Bitvec9 [2]byte

func (*Bitvec9) BitLen() uint64 { return 9 }
func sch_Bitvec9() *Sch {
	s := sBitvec(9)
	s.Print = func(v *Val) []byte {
		var x Bitvec9
		set_Bitvec9(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec9)(nil)))
	}
	return s
}
func set_Bitvec9(p *Bitvec9, v *Val) { copy(p[:], v.B) }
func get_Bitvec9(p *Bitvec9) *Val    { return &Val{B: clone(p[:])} }
func sch_Vec2_Bitvec9() *Sch         { return sVec(sch_Bitvec9(), 2) }
func set_Vec2_Bitvec9(p *[2]Bitvec9, v *Val) {
	for i := range p {
		set_Bitvec9(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bitvec9(p *[2]Bitvec9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitvec9(&p[i]))
	}
	return v
}

type Bitlist9_g9 []byte

func (b *Bitlist9_g9) Limit() uint64 { return 9 }
func (b Bitlist9_g9) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist9_g9() *Sch {
	s := sBitlist(9, 9)
	s.Print = func(v *Val) []byte {
		var x Bitlist9_g9
		set_Bitlist9_g9(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist9_g9)(nil)))
	}
	return s
}
func set_Bitlist9_g9(p *Bitlist9_g9, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist9_g9(), v)) }
func get_Bitlist9_g9(p *Bitlist9_g9) *Val    { return getBitlist(*p) }
func sch_Vec2_Bitlist9_g9() *Sch             { return sVec(sch_Bitlist9_g9(), 2) }
func set_Vec2_Bitlist9_g9(p *[2]Bitlist9_g9, v *Val) {
	for i := range p {
		set_Bitlist9_g9(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bitlist9_g9(p *[2]Bitlist9_g9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitlist9_g9(&p[i]))
	}
	return v
}

type Bitvec1 [1]byte

func (*Bitvec1) BitLen() uint64 { return 1 }
func sch_Bitvec1() *Sch {
	s := sBitvec(1)
	s.Print = func(v *Val) []byte {
		var x Bitvec1
		set_Bitvec1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec1)(nil)))
	}
	return s
}
func set_Bitvec1(p *Bitvec1, v *Val) { copy(p[:], v.B) }
func get_Bitvec1(p *Bitvec1) *Val    { return &Val{B: clone(p[:])} }

type Bitvec8 [1]byte

func (*Bitvec8) BitLen() uint64 { return 8 }
func sch_Bitvec8() *Sch {
	s := sBitvec(8)
	s.Print = func(v *Val) []byte {
		var x Bitvec8
		set_Bitvec8(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec8)(nil)))
	}
	return s
}
func set_Bitvec8(p *Bitvec8, v *Val) { copy(p[:], v.B) }
func get_Bitvec8(p *Bitvec8) *Val    { return &Val{B: clone(p[:])} }

type Bitvec256 [32]byte

func (*Bitvec256) BitLen() uint64 { return 256 }
func sch_Bitvec256() *Sch {
	s := sBitvec(256)
	s.Print = func(v *Val) []byte {
		var x Bitvec256
		set_Bitvec256(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec256)(nil)))
	}
	return s
}
func set_Bitvec256(p *Bitvec256, v *Val) { copy(p[:], v.B) }
func get_Bitvec256(p *Bitvec256) *Val    { return &Val{B: clone(p[:])} }

type Bitvec257 [33]byte

func (*Bitvec257) BitLen() uint64 { return 257 }
func sch_Bitvec257() *Sch {
	s := sBitvec(257)
	s.Print = func(v *Val) []byte {
		var x Bitvec257
		set_Bitvec257(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec257)(nil)))
	}
	return s
}
func set_Bitvec257(p *Bitvec257, v *Val) { copy(p[:], v.B) }
func get_Bitvec257(p *Bitvec257) *Val    { return &Val{B: clone(p[:])} }

type Bitvec7 [1]byte

func (*Bitvec7) BitLen() uint64 { return 7 }
func sch_Bitvec7() *Sch {
	s := sBitvec(7)
	s.Print = func(v *Val) []byte {
		var x Bitvec7
		set_Bitvec7(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec7)(nil)))
	}
	return s
}
func set_Bitvec7(p *Bitvec7, v *Val) { copy(p[:], v.B) }
func get_Bitvec7(p *Bitvec7) *Val    { return &Val{B: clone(p[:])} }

type Bitvec15 [2]byte

func (*Bitvec15) BitLen() uint64 { return 15 }
func sch_Bitvec15() *Sch {
	s := sBitvec(15)
	s.Print = func(v *Val) []byte {
		var x Bitvec15
		set_Bitvec15(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec15)(nil)))
	}
	return s
}
func set_Bitvec15(p *Bitvec15, v *Val) { copy(p[:], v.B) }
func get_Bitvec15(p *Bitvec15) *Val    { return &Val{B: clone(p[:])} }

type Bitvec16 [2]byte

func (*Bitvec16) BitLen() uint64 { return 16 }
func sch_Bitvec16() *Sch {
	s := sBitvec(16)
	s.Print = func(v *Val) []byte {
		var x Bitvec16
		set_Bitvec16(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec16)(nil)))
	}
	return s
}
func set_Bitvec16(p *Bitvec16, v *Val) { copy(p[:], v.B) }
func get_Bitvec16(p *Bitvec16) *Val    { return &Val{B: clone(p[:])} }

type Bitvec17 [3]byte

func (*Bitvec17) BitLen() uint64 { return 17 }
func sch_Bitvec17() *Sch {
	s := sBitvec(17)
	s.Print = func(v *Val) []byte {
		var x Bitvec17
		set_Bitvec17(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec17)(nil)))
	}
	return s
}
func set_Bitvec17(p *Bitvec17, v *Val) { copy(p[:], v.B) }
func get_Bitvec17(p *Bitvec17) *Val    { return &Val{B: clone(p[:])} }

type Bitvec255 [32]byte

func (*Bitvec255) BitLen() uint64 { return 255 }
func sch_Bitvec255() *Sch {
	s := sBitvec(255)
	s.Print = func(v *Val) []byte {
		var x Bitvec255
		set_Bitvec255(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec255)(nil)))
	}
	return s
}
func set_Bitvec255(p *Bitvec255, v *Val) { copy(p[:], v.B) }
func get_Bitvec255(p *Bitvec255) *Val    { return &Val{B: clone(p[:])} }

type Bitvec512 [64]byte

func (*Bitvec512) BitLen() uint64 { return 512 }
func sch_Bitvec512() *Sch {
	s := sBitvec(512)
	s.Print = func(v *Val) []byte {
		var x Bitvec512
		set_Bitvec512(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec512)(nil)))
	}
	return s
}
func set_Bitvec512(p *Bitvec512, v *Val) { copy(p[:], v.B) }
func get_Bitvec512(p *Bitvec512) *Val    { return &Val{B: clone(p[:])} }

type Bitlist1_g1 []byte

func (b *Bitlist1_g1) Limit() uint64 { return 1 }
func (b Bitlist1_g1) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist1_g1() *Sch {
	s := sBitlist(1, 1)
	s.Print = func(v *Val) []byte {
		var x Bitlist1_g1
		set_Bitlist1_g1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist1_g1)(nil)))
	}
	return s
}
func set_Bitlist1_g1(p *Bitlist1_g1, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist1_g1(), v)) }
func get_Bitlist1_g1(p *Bitlist1_g1) *Val    { return getBitlist(*p) }

type Bitlist7_g7 []byte

func (b *Bitlist7_g7) Limit() uint64 { return 7 }
func (b Bitlist7_g7) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist7_g7() *Sch {
	s := sBitlist(7, 7)
	s.Print = func(v *Val) []byte {
		var x Bitlist7_g7
		set_Bitlist7_g7(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist7_g7)(nil)))
	}
	return s
}
func set_Bitlist7_g7(p *Bitlist7_g7, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist7_g7(), v)) }
func get_Bitlist7_g7(p *Bitlist7_g7) *Val    { return getBitlist(*p) }

type Bitlist8_g8 []byte

func (b *Bitlist8_g8) Limit() uint64 { return 8 }
func (b Bitlist8_g8) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist8_g8() *Sch {
	s := sBitlist(8, 8)
	s.Print = func(v *Val) []byte {
		var x Bitlist8_g8
		set_Bitlist8_g8(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist8_g8)(nil)))
	}
	return s
}
func set_Bitlist8_g8(p *Bitlist8_g8, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist8_g8(), v)) }
func get_Bitlist8_g8(p *Bitlist8_g8) *Val    { return getBitlist(*p) }

type Bitlist16_g16 []byte

func (b *Bitlist16_g16) Limit() uint64 { return 16 }
func (b Bitlist16_g16) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist16_g16() *Sch {
	s := sBitlist(16, 16)
	s.Print = func(v *Val) []byte {
		var x Bitlist16_g16
		set_Bitlist16_g16(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist16_g16)(nil)))
	}
	return s
}
func set_Bitlist16_g16(p *Bitlist16_g16, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist16_g16(), v)) }
func get_Bitlist16_g16(p *Bitlist16_g16) *Val    { return getBitlist(*p) }

type Bitlist15_g15 []byte

func (b *Bitlist15_g15) Limit() uint64 { return 15 }
func (b Bitlist15_g15) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist15_g15() *Sch {
	s := sBitlist(15, 15)
	s.Print = func(v *Val) []byte {
		var x Bitlist15_g15
		set_Bitlist15_g15(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist15_g15)(nil)))
	}
	return s
}
func set_Bitlist15_g15(p *Bitlist15_g15, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist15_g15(), v)) }
func get_Bitlist15_g15(p *Bitlist15_g15) *Val    { return getBitlist(*p) }

type Bitlist17_g17 []byte

func (b *Bitlist17_g17) Limit() uint64 { return 17 }
func (b Bitlist17_g17) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist17_g17() *Sch {
	s := sBitlist(17, 17)
	s.Print = func(v *Val) []byte {
		var x Bitlist17_g17
		set_Bitlist17_g17(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist17_g17)(nil)))
	}
	return s
}
func set_Bitlist17_g17(p *Bitlist17_g17, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist17_g17(), v)) }
func get_Bitlist17_g17(p *Bitlist17_g17) *Val    { return getBitlist(*p) }

type Bitlist0_g0 []byte

func (b *Bitlist0_g0) Limit() uint64 { return 0 }
func (b Bitlist0_g0) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist0_g0() *Sch {
	s := sBitlist(0, 0)
	s.Print = func(v *Val) []byte {
		var x Bitlist0_g0
		set_Bitlist0_g0(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist0_g0)(nil)))
	}
	return s
}
func set_Bitlist0_g0(p *Bitlist0_g0, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist0_g0(), v)) }
func get_Bitlist0_g0(p *Bitlist0_g0) *Val    { return getBitlist(*p) }

type Bitlist256_g256 []byte

func (b *Bitlist256_g256) Limit() uint64 { return 256 }
func (b Bitlist256_g256) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist256_g256() *Sch {
	s := sBitlist(256, 256)
	s.Print = func(v *Val) []byte {
		var x Bitlist256_g256
		set_Bitlist256_g256(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist256_g256)(nil)))
	}
	return s
}
func set_Bitlist256_g256(p *Bitlist256_g256, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist256_g256(), v))
}
func get_Bitlist256_g256(p *Bitlist256_g256) *Val { return getBitlist(*p) }

type Bitlist255_g255 []byte

func (b *Bitlist255_g255) Limit() uint64 { return 255 }
func (b Bitlist255_g255) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist255_g255() *Sch {
	s := sBitlist(255, 255)
	s.Print = func(v *Val) []byte {
		var x Bitlist255_g255
		set_Bitlist255_g255(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist255_g255)(nil)))
	}
	return s
}
func set_Bitlist255_g255(p *Bitlist255_g255, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist255_g255(), v))
}
func get_Bitlist255_g255(p *Bitlist255_g255) *Val { return getBitlist(*p) }

type Bitlist257_g257 []byte

func (b *Bitlist257_g257) Limit() uint64 { return 257 }
func (b Bitlist257_g257) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist257_g257() *Sch {
	s := sBitlist(257, 257)
	s.Print = func(v *Val) []byte {
		var x Bitlist257_g257
		set_Bitlist257_g257(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist257_g257)(nil)))
	}
	return s
}
func set_Bitlist257_g257(p *Bitlist257_g257, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist257_g257(), v))
}
func get_Bitlist257_g257(p *Bitlist257_g257) *Val { return getBitlist(*p) }

type Bitlist513_g513 []byte

func (b *Bitlist513_g513) Limit() uint64 { return 513 }
func (b Bitlist513_g513) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist513_g513() *Sch {
	s := sBitlist(513, 513)
	s.Print = func(v *Val) []byte {
		var x Bitlist513_g513
		set_Bitlist513_g513(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist513_g513)(nil)))
	}
	return s
}
func set_Bitlist513_g513(p *Bitlist513_g513, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist513_g513(), v))
}
func get_Bitlist513_g513(p *Bitlist513_g513) *Val { return getBitlist(*p) }

type Bytes3 []byte

func (*Bytes3) Limit() uint64 { return 3 }
func sch_Bytes3() *Sch {
	s := sBytes(3, 4)
	s.Print = func(v *Val) []byte {
		var x Bytes3
		set_Bytes3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes3)(nil)))
	}
	return s
}
func set_Bytes3(p *Bytes3, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes3(p *Bytes3) *Val    { return &Val{B: clone(*p)} }

type Bytes33_g33 []byte

func (*Bytes33_g33) Limit() uint64 { return 33 }
func sch_Bytes33_g33() *Sch {
	s := sBytes(33, 33)
	s.Print = func(v *Val) []byte {
		var x Bytes33_g33
		set_Bytes33_g33(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes33_g33)(nil)))
	}
	return s
}
func set_Bytes33_g33(p *Bytes33_g33, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes33_g33(p *Bytes33_g33) *Val    { return &Val{B: clone(*p)} }

type Bytes65_g65 []byte

func (*Bytes65_g65) Limit() uint64 { return 65 }
func sch_Bytes65_g65() *Sch {
	s := sBytes(65, 65)
	s.Print = func(v *Val) []byte {
		var x Bytes65_g65
		set_Bytes65_g65(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes65_g65)(nil)))
	}
	return s
}
func set_Bytes65_g65(p *Bytes65_g65, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes65_g65(p *Bytes65_g65) *Val    { return &Val{B: clone(*p)} }

type Bytes32_g32 []byte

func (*Bytes32_g32) Limit() uint64 { return 32 }
func sch_Bytes32_g32() *Sch {
	s := sBytes(32, 32)
	s.Print = func(v *Val) []byte {
		var x Bytes32_g32
		set_Bytes32_g32(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes32_g32)(nil)))
	}
	return s
}
func set_Bytes32_g32(p *Bytes32_g32, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes32_g32(p *Bytes32_g32) *Val    { return &Val{B: clone(*p)} }

type Bytes1 []byte

func (*Bytes1) Limit() uint64 { return 1 }
func sch_Bytes1() *Sch {
	s := sBytes(1, 4)
	s.Print = func(v *Val) []byte {
		var x Bytes1
		set_Bytes1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes1)(nil)))
	}
	return s
}
func set_Bytes1(p *Bytes1, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes1(p *Bytes1) *Val    { return &Val{B: clone(*p)} }

type Bytes0 []byte

func (*Bytes0) Limit() uint64 { return 0 }
func sch_Bytes0() *Sch {
	s := sBytes(0, 4)
	s.Print = func(v *Val) []byte {
		var x Bytes0
		set_Bytes0(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes0)(nil)))
	}
	return s
}
func set_Bytes0(p *Bytes0, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes0(p *Bytes0) *Val    { return &Val{B: clone(*p)} }

type List5_Bool_g5 []bool

func (*List5_Bool_g5) Limit() uint64 { return 5 }
func sch_List5_Bool_g5() *Sch        { return sList(sch_Bool(), 5, 5) }
func set_List5_Bool_g5(p *List5_Bool_g5, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Bool_g5, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Bool_g5(p *List5_Bool_g5) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type List4_U16_g4 []uint16

func (*List4_U16_g4) Limit() uint64 { return 4 }
func sch_List4_U16_g4() *Sch        { return sList(sch_U16(), 4, 4) }
func set_List4_U16_g4(p *List4_U16_g4, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_U16_g4, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List4_U16_g4(p *List4_U16_g4) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List5_U64_g5 []uint64

func (*List5_U64_g5) Limit() uint64 { return 5 }
func sch_List5_U64_g5() *Sch        { return sList(sch_U64(), 5, 5) }
func set_List5_U64_g5(p *List5_U64_g5, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_U64_g5, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List5_U64_g5(p *List5_U64_g5) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type List3_U32 []uint32

func (*List3_U32) Limit() uint64 { return 3 }
func sch_List3_U32() *Sch        { return sList(sch_U32(), 3, 3) }
func set_List3_U32(p *List3_U32, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_U32, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List3_U32(p *List3_U32) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type List9_U32_g9 []uint32

func (*List9_U32_g9) Limit() uint64 { return 9 }
func sch_List9_U32_g9() *Sch        { return sList(sch_U32(), 9, 9) }
func set_List9_U32_g9(p *List9_U32_g9, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List9_U32_g9, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List9_U32_g9(p *List9_U32_g9) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type List17_U16_g17 []uint16

func (*List17_U16_g17) Limit() uint64 { return 17 }
func sch_List17_U16_g17() *Sch        { return sList(sch_U16(), 17, 17) }
func set_List17_U16_g17(p *List17_U16_g17, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List17_U16_g17, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List17_U16_g17(p *List17_U16_g17) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List33_Bool_g33 []bool

func (*List33_Bool_g33) Limit() uint64 { return 33 }
func sch_List33_Bool_g33() *Sch        { return sList(sch_Bool(), 33, 33) }
func set_List33_Bool_g33(p *List33_Bool_g33, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List33_Bool_g33, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List33_Bool_g33(p *List33_Bool_g33) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type List3_Slot []Slot

func (*List3_Slot) Limit() uint64 { return 3 }
func sch_List3_Slot() *Sch        { return sList(sch_Slot(), 3, 3) }
func set_List3_Slot(p *List3_Slot, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Slot, n+1)
			set_Slot(&(*p)[n], junk(sch_Slot()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Slot(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Slot(p *List3_Slot) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Slot(&(*p)[i]))
	}
	return v
}

type List3_Flag []Flag

func (*List3_Flag) Limit() uint64 { return 3 }
func sch_List3_Flag() *Sch        { return sList(sch_Flag(), 3, 3) }
func set_List3_Flag(p *List3_Flag, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Flag, n+1)
			set_Flag(&(*p)[n], junk(sch_Flag()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Flag(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Flag(p *List3_Flag) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Flag(&(*p)[i]))
	}
	return v
}

type List0_U16_g0 []uint16

func (*List0_U16_g0) Limit() uint64 { return 0 }
func sch_List0_U16_g0() *Sch        { return sList(sch_U16(), 0, 0) }
func set_List0_U16_g0(p *List0_U16_g0, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List0_U16_g0, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List0_U16_g0(p *List0_U16_g0) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List3_Small []Small

func (*List3_Small) Limit() uint64 { return 3 }
func sch_List3_Small() *Sch        { return sList(sch_Small(), 3, 3) }
func set_List3_Small(p *List3_Small, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Small, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Small(p *List3_Small) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List5_BytesN32_g5 [][32]byte

func (*List5_BytesN32_g5) Limit() uint64 { return 5 }
func sch_List5_BytesN32_g5() *Sch        { return sList(sch_BytesN32(), 5, 5) }
func set_List5_BytesN32_g5(p *List5_BytesN32_g5, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_BytesN32_g5, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List5_BytesN32_g5(p *List5_BytesN32_g5) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}

type List3_BytesN4 [][4]byte

func (*List3_BytesN4) Limit() uint64 { return 3 }
func sch_List3_BytesN4() *Sch        { return sList(sch_BytesN4(), 3, 3) }
func set_List3_BytesN4(p *List3_BytesN4, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_BytesN4, n+1)
			set_BytesN4(&(*p)[n], junk(sch_BytesN4()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN4(&(*p)[i], v.Elems[i])
	}
}
func get_List3_BytesN4(p *List3_BytesN4) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN4(&(*p)[i]))
	}
	return v
}

type List3_Bitvec9 []Bitvec9

func (*List3_Bitvec9) Limit() uint64 { return 3 }
func sch_List3_Bitvec9() *Sch        { return sList(sch_Bitvec9(), 3, 3) }
func set_List3_Bitvec9(p *List3_Bitvec9, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bitvec9, n+1)
			set_Bitvec9(&(*p)[n], junk(sch_Bitvec9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec9(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bitvec9(p *List3_Bitvec9) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec9(&(*p)[i]))
	}
	return v
}

type Bytes2_g2 []byte

func (*Bytes2_g2) Limit() uint64 { return 2 }
func sch_Bytes2_g2() *Sch {
	s := sBytes(2, 2)
	s.Print = func(v *Val) []byte {
		var x Bytes2_g2
		set_Bytes2_g2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes2_g2)(nil)))
	}
	return s
}
func set_Bytes2_g2(p *Bytes2_g2, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes2_g2(p *Bytes2_g2) *Val    { return &Val{B: clone(*p)} }

type List3_Bytes2_g2_g2 []Bytes2_g2

func (*List3_Bytes2_g2_g2) Limit() uint64 { return 3 }
func sch_List3_Bytes2_g2_g2() *Sch        { return sList(sch_Bytes2_g2(), 3, 2) }
func set_List3_Bytes2_g2_g2(p *List3_Bytes2_g2_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bytes2_g2_g2, n+1)
			set_Bytes2_g2(&(*p)[n], junk(sch_Bytes2_g2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g2(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bytes2_g2_g2(p *List3_Bytes2_g2_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g2(&(*p)[i]))
	}
	return v
}

type List2_U16_g2 []uint16

func (*List2_U16_g2) Limit() uint64 { return 2 }
func sch_List2_U16_g2() *Sch        { return sList(sch_U16(), 2, 2) }
func set_List2_U16_g2(p *List2_U16_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_U16_g2, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List2_U16_g2(p *List2_U16_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List2_List2_U16_g2_g2 []List2_U16_g2

func (*List2_List2_U16_g2_g2) Limit() uint64 { return 2 }
func sch_List2_List2_U16_g2_g2() *Sch        { return sList(sch_List2_U16_g2(), 2, 2) }
func set_List2_List2_U16_g2_g2(p *List2_List2_U16_g2_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_U16_g2_g2, n+1)
			set_List2_U16_g2(&(*p)[n], junk(sch_List2_U16_g2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_U16_g2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_U16_g2_g2(p *List2_List2_U16_g2_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_U16_g2(&(*p)[i]))
	}
	return v
}

type Bitlist3_g3 []byte

func (b *Bitlist3_g3) Limit() uint64 { return 3 }
func (b Bitlist3_g3) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist3_g3() *Sch {
	s := sBitlist(3, 3)
	s.Print = func(v *Val) []byte {
		var x Bitlist3_g3
		set_Bitlist3_g3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist3_g3)(nil)))
	}
	return s
}
func set_Bitlist3_g3(p *Bitlist3_g3, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist3_g3(), v)) }
func get_Bitlist3_g3(p *Bitlist3_g3) *Val    { return getBitlist(*p) }

type List2_Bitlist3_g3_g2 []Bitlist3_g3

func (*List2_Bitlist3_g3_g2) Limit() uint64 { return 2 }
func sch_List2_Bitlist3_g3_g2() *Sch        { return sList(sch_Bitlist3_g3(), 2, 2) }
func set_List2_Bitlist3_g3_g2(p *List2_Bitlist3_g3_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bitlist3_g3_g2, n+1)
			set_Bitlist3_g3(&(*p)[n], junk(sch_Bitlist3_g3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitlist3_g3(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bitlist3_g3_g2(p *List2_Bitlist3_g3_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitlist3_g3(&(*p)[i]))
	}
	return v
}

type List2_Var2_g2 []Var2

func (*List2_Var2_g2) Limit() uint64 { return 2 }
func sch_List2_Var2_g2() *Sch        { return sList(sch_Var2(), 2, 2) }
func set_List2_Var2_g2(p *List2_Var2_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Var2_g2, n+1)
			set_Var2(&(*p)[n], junk(sch_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Var2_g2(p *List2_Var2_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var2(&(*p)[i]))
	}
	return v
}

type List2_Ptr_Small_g2 []*Small

func (*List2_Ptr_Small_g2) Limit() uint64 { return 2 }
func sch_List2_Ptr_Small_g2() *Sch        { return sList(sch_Ptr_Small(), 2, 2) }
func set_List2_Ptr_Small_g2(p *List2_Ptr_Small_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Ptr_Small_g2, n+1)
			set_Ptr_Small(&(*p)[n], junk(sch_Ptr_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Ptr_Small_g2(p *List2_Ptr_Small_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Small(&(*p)[i]))
	}
	return v
}

type Bytes2_g1 []byte

func (*Bytes2_g1) Limit() uint64 { return 2 }
func sch_Bytes2_g1() *Sch {
	s := sBytes(2, 1)
	s.Print = func(v *Val) []byte {
		var x Bytes2_g1
		set_Bytes2_g1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes2_g1)(nil)))
	}
	return s
}
func set_Bytes2_g1(p *Bytes2_g1, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes2_g1(p *Bytes2_g1) *Val    { return &Val{B: clone(*p)} }
func sch_Vec2_Bytes2_g1() *Sch           { return sVec(sch_Bytes2_g1(), 2) }
func set_Vec2_Bytes2_g1(p *[2]Bytes2_g1, v *Val) {
	for i := range p {
		set_Bytes2_g1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bytes2_g1(p *[2]Bytes2_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&p[i]))
	}
	return v
}

type List2_Vec2_Bytes2_g1_g1 [][2]Bytes2_g1

func (*List2_Vec2_Bytes2_g1_g1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bytes2_g1_g1() *Sch        { return sList(sch_Vec2_Bytes2_g1(), 2, 1) }
func set_List2_Vec2_Bytes2_g1_g1(p *List2_Vec2_Bytes2_g1_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bytes2_g1_g1, n+1)
			set_Vec2_Bytes2_g1(&(*p)[n], junk(sch_Vec2_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bytes2_g1_g1(p *List2_Vec2_Bytes2_g1_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List2_Bytes2_g1_g1 []Bytes2_g1

func (*List2_Bytes2_g1_g1) Limit() uint64 { return 2 }
func sch_List2_Bytes2_g1_g1() *Sch        { return sList(sch_Bytes2_g1(), 2, 1) }
func set_List2_Bytes2_g1_g1(p *List2_Bytes2_g1_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bytes2_g1_g1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bytes2_g1_g1(p *List2_Bytes2_g1_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List2_List2_Bytes2_g1_g1_g1 []List2_Bytes2_g1_g1

func (*List2_List2_Bytes2_g1_g1_g1) Limit() uint64 { return 2 }
func sch_List2_List2_Bytes2_g1_g1_g1() *Sch        { return sList(sch_List2_Bytes2_g1_g1(), 2, 1) }
func set_List2_List2_Bytes2_g1_g1_g1(p *List2_List2_Bytes2_g1_g1_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bytes2_g1_g1_g1, n+1)
			set_List2_Bytes2_g1_g1(&(*p)[n], junk(sch_List2_Bytes2_g1_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bytes2_g1_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bytes2_g1_g1_g1(p *List2_List2_Bytes2_g1_g1_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bytes2_g1_g1(&(*p)[i]))
	}
	return v
}

type List3_Vec2_U16 [][2]uint16

func (*List3_Vec2_U16) Limit() uint64 { return 3 }
func sch_List3_Vec2_U16() *Sch        { return sList(sch_Vec2_U16(), 3, 3) }
func set_List3_Vec2_U16(p *List3_Vec2_U16, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Vec2_U16, n+1)
			set_Vec2_U16(&(*p)[n], junk(sch_Vec2_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Vec2_U16(p *List3_Vec2_U16) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_U16(&(*p)[i]))
	}
	return v
}
func sch_Ptr_Var2() *Sch { return sch_Var2() }
func set_Ptr_Var2(p **Var2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Var2)
	}
	set_Var2(*p, v)
}
func get_Ptr_Var2(p **Var2) *Val { return get_Var2(*p) }

type List2_Ptr_Var2_g1 []*Var2

func (*List2_Ptr_Var2_g1) Limit() uint64 { return 2 }
func sch_List2_Ptr_Var2_g1() *Sch        { return sList(sch_Ptr_Var2(), 2, 1) }
func set_List2_Ptr_Var2_g1(p *List2_Ptr_Var2_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Ptr_Var2_g1, n+1)
			set_Ptr_Var2(&(*p)[n], junk(sch_Ptr_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Ptr_Var2_g1(p *List2_Ptr_Var2_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Var2(&(*p)[i]))
	}
	return v
}

type One struct {
	Only uint32
}

func sch_One() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U32()}, Names: []string{"Only"}}
}
func set_One(p *One, v *Val) {
	set_U32(&p.Only, v.Elems[0])
}
func get_One(p *One) *Val {
	return &Val{Elems: []*Val{get_U32(&p.Only)}}
}

type Fix3 struct {
	A uint8
	B uint32
	C [4]byte
}

func sch_Fix3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U32(), sch_BytesN4()}, Names: []string{"A", "B", "C"}}
}
func set_Fix3(p *Fix3, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U32(&p.B, v.Elems[1])
	set_BytesN4(&p.C, v.Elems[2])
}
func get_Fix3(p *Fix3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U32(&p.B), get_BytesN4(&p.C)}}
}

type FixBig struct {
	A uint64
	R [32]byte
	V [3]uint16
	S Small
	X bool
}

func sch_FixBig() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_BytesN32(), sch_Vec3_U16(), sch_Small(), sch_Bool()}, Names: []string{"A", "R", "V", "S", "X"}}
}
func set_FixBig(p *FixBig, v *Val) {
	set_U64(&p.A, v.Elems[0])
	set_BytesN32(&p.R, v.Elems[1])
	set_Vec3_U16(&p.V, v.Elems[2])
	set_Small(&p.S, v.Elems[3])
	set_Bool(&p.X, v.Elems[4])
}
func get_FixBig(p *FixBig) *Val {
	return &Val{Elems: []*Val{get_U64(&p.A), get_BytesN32(&p.R), get_Vec3_U16(&p.V), get_Small(&p.S), get_Bool(&p.X)}}
}

type Nine struct {
	F0 uint8
	F1 uint8
	F2 uint8
	F3 uint8
	F4 uint8
	F5 uint8
	F6 uint8
	F7 uint8
	F8 uint8
}

func sch_Nine() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U8(), sch_U8(), sch_U8(), sch_U8(), sch_U8(), sch_U8(), sch_U8(), sch_U8()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8"}}
}
func set_Nine(p *Nine, v *Val) {
	set_U8(&p.F0, v.Elems[0])
	set_U8(&p.F1, v.Elems[1])
	set_U8(&p.F2, v.Elems[2])
	set_U8(&p.F3, v.Elems[3])
	set_U8(&p.F4, v.Elems[4])
	set_U8(&p.F5, v.Elems[5])
	set_U8(&p.F6, v.Elems[6])
	set_U8(&p.F7, v.Elems[7])
	set_U8(&p.F8, v.Elems[8])
}
func get_Nine(p *Nine) *Val {
	return &Val{Elems: []*Val{get_U8(&p.F0), get_U8(&p.F1), get_U8(&p.F2), get_U8(&p.F3), get_U8(&p.F4), get_U8(&p.F5), get_U8(&p.F6), get_U8(&p.F7), get_U8(&p.F8)}}
}

type List4_U16_g2 []uint16

func (*List4_U16_g2) Limit() uint64 { return 4 }
func sch_List4_U16_g2() *Sch        { return sList(sch_U16(), 4, 2) }
func set_List4_U16_g2(p *List4_U16_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_U16_g2, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List4_U16_g2(p *List4_U16_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type Var1 struct {
	L List4_U16_g2
}

func sch_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List4_U16_g2()}, Names: []string{"L"}}
}
func set_Var1(p *Var1, v *Val) {
	set_List4_U16_g2(&p.L, v.Elems[0])
}
func get_Var1(p *Var1) *Val {
	return &Val{Elems: []*Val{get_List4_U16_g2(&p.L)}}
}

type Bytes4_g2 []byte

func (*Bytes4_g2) Limit() uint64 { return 4 }
func sch_Bytes4_g2() *Sch {
	s := sBytes(4, 2)
	s.Print = func(v *Val) []byte {
		var x Bytes4_g2
		set_Bytes4_g2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes4_g2)(nil)))
	}
	return s
}
func set_Bytes4_g2(p *Bytes4_g2, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes4_g2(p *Bytes4_g2) *Val    { return &Val{B: clone(*p)} }

type Var2Only struct {
	X Bytes4_g2
	Y Bytes4_g2
}

func sch_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes4_g2(), sch_Bytes4_g2()}, Names: []string{"X", "Y"}}
}
func set_Var2Only(p *Var2Only, v *Val) {
	set_Bytes4_g2(&p.X, v.Elems[0])
	set_Bytes4_g2(&p.Y, v.Elems[1])
}
func get_Var2Only(p *Var2Only) *Val {
	return &Val{Elems: []*Val{get_Bytes4_g2(&p.X), get_Bytes4_g2(&p.Y)}}
}

type Bytes5_g2 []byte

func (*Bytes5_g2) Limit() uint64 { return 5 }
func sch_Bytes5_g2() *Sch {
	s := sBytes(5, 2)
	s.Print = func(v *Val) []byte {
		var x Bytes5_g2
		set_Bytes5_g2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes5_g2)(nil)))
	}
	return s
}
func set_Bytes5_g2(p *Bytes5_g2, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes5_g2(p *Bytes5_g2) *Val    { return &Val{B: clone(*p)} }

type List3_U16_g2 []uint16

func (*List3_U16_g2) Limit() uint64 { return 3 }
func sch_List3_U16_g2() *Sch        { return sList(sch_U16(), 3, 2) }
func set_List3_U16_g2(p *List3_U16_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_U16_g2, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List3_U16_g2(p *List3_U16_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type Bitlist9_g3 []byte

func (b *Bitlist9_g3) Limit() uint64 { return 9 }
func (b Bitlist9_g3) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist9_g3() *Sch {
	s := sBitlist(9, 3)
	s.Print = func(v *Val) []byte {
		var x Bitlist9_g3
		set_Bitlist9_g3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist9_g3)(nil)))
	}
	return s
}
func set_Bitlist9_g3(p *Bitlist9_g3, v *Val) { *p = setBytes(*p, Ser(sch_Bitlist9_g3(), v)) }
func get_Bitlist9_g3(p *Bitlist9_g3) *Val    { return getBitlist(*p) }

type VarMix struct {
	L Bytes5_g2
	A uint16
	M List3_U16_g2
	B bool
	N Bitlist9_g3
}

func sch_VarMix() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes5_g2(), sch_U16(), sch_List3_U16_g2(), sch_Bool(), sch_Bitlist9_g3()}, Names: []string{"L", "A", "M", "B", "N"}}
}
func set_VarMix(p *VarMix, v *Val) {
	set_Bytes5_g2(&p.L, v.Elems[0])
	set_U16(&p.A, v.Elems[1])
	set_List3_U16_g2(&p.M, v.Elems[2])
	set_Bool(&p.B, v.Elems[3])
	set_Bitlist9_g3(&p.N, v.Elems[4])
}
func get_VarMix(p *VarMix) *Val {
	return &Val{Elems: []*Val{get_Bytes5_g2(&p.L), get_U16(&p.A), get_List3_U16_g2(&p.M), get_Bool(&p.B), get_Bitlist9_g3(&p.N)}}
}

type List2_Var2_g1 []Var2

func (*List2_Var2_g1) Limit() uint64 { return 2 }
func sch_List2_Var2_g1() *Sch        { return sList(sch_Var2(), 2, 1) }
func set_List2_Var2_g1(p *List2_Var2_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Var2_g1, n+1)
			set_Var2(&(*p)[n], junk(sch_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Var2_g1(p *List2_Var2_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var2(&(*p)[i]))
	}
	return v
}

type VarNest struct {
	A uint8
	N Var2
	L List2_Var2_g1
}

func sch_VarNest() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var2(), sch_List2_Var2_g1()}, Names: []string{"A", "N", "L"}}
}
func set_VarNest(p *VarNest, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Var2(&p.N, v.Elems[1])
	set_List2_Var2_g1(&p.L, v.Elems[2])
}
func get_VarNest(p *VarNest) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Var2(&p.N), get_List2_Var2_g1(&p.L)}}
}

type Bytes3_g1 []byte

func (*Bytes3_g1) Limit() uint64 { return 3 }
func sch_Bytes3_g1() *Sch {
	s := sBytes(3, 1)
	s.Print = func(v *Val) []byte {
		var x Bytes3_g1
		set_Bytes3_g1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes3_g1)(nil)))
	}
	return s
}
func set_Bytes3_g1(p *Bytes3_g1, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes3_g1(p *Bytes3_g1) *Val    { return &Val{B: clone(*p)} }

type Five struct {
	A uint64
	B Bytes3_g1
	C bool
	D uint16
	E [33]byte
}

func sch_Five() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_Bytes3_g1(), sch_Bool(), sch_U16(), sch_BytesN33()}, Names: []string{"A", "B", "C", "D", "E"}}
}
func set_Five(p *Five, v *Val) {
	set_U64(&p.A, v.Elems[0])
	set_Bytes3_g1(&p.B, v.Elems[1])
	set_Bool(&p.C, v.Elems[2])
	set_U16(&p.D, v.Elems[3])
	set_BytesN33(&p.E, v.Elems[4])
}
func get_Five(p *Five) *Val {
	return &Val{Elems: []*Val{get_U64(&p.A), get_Bytes3_g1(&p.B), get_Bool(&p.C), get_U16(&p.D), get_BytesN33(&p.E)}}
}

type PtrS struct {
	P *Small
	A uint8
	Q *Var2
}

func sch_PtrS() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Small(), sch_U8(), sch_Ptr_Var2()}, Names: []string{"P", "A", "Q"}}
}
func set_PtrS(p *PtrS, v *Val) {
	set_Ptr_Small(&p.P, v.Elems[0])
	set_U8(&p.A, v.Elems[1])
	set_Ptr_Var2(&p.Q, v.Elems[2])
}
func get_PtrS(p *PtrS) *Val {
	return &Val{Elems: []*Val{get_Ptr_Small(&p.P), get_U8(&p.A), get_Ptr_Var2(&p.Q)}}
}
func sch_Ptr_U32() *Sch { return sch_U32() }
func set_Ptr_U32(p **uint32, v *Val) {
	if !inPlace || *p == nil {
		*p = new(uint32)
	}
	set_U32(*p, v)
}
func get_Ptr_U32(p **uint32) *Val { return get_U32(*p) }
func sch_Ptr_Bytes3_g2() *Sch     { return sch_Bytes3_g2() }
func set_Ptr_Bytes3_g2(p **Bytes3_g2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bytes3_g2)
	}
	set_Bytes3_g2(*p, v)
}
func get_Ptr_Bytes3_g2(p **Bytes3_g2) *Val { return get_Bytes3_g2(*p) }
func sch_Ptr_U16() *Sch                    { return sch_U16() }
func set_Ptr_U16(p **uint16, v *Val) {
	if !inPlace || *p == nil {
		*p = new(uint16)
	}
	set_U16(*p, v)
}
func get_Ptr_U16(p **uint16) *Val { return get_U16(*p) }
func sch_Ptr_Ptr_U16() *Sch       { return sch_Ptr_U16() }
func set_Ptr_Ptr_U16(p ***uint16, v *Val) {
	if !inPlace || *p == nil {
		*p = new(*uint16)
	}
	set_Ptr_U16(*p, v)
}
func get_Ptr_Ptr_U16(p ***uint16) *Val { return get_Ptr_U16(*p) }

type PtrB struct {
	P *uint32
	Q *Bytes3_g2
	R **uint16
}

func sch_PtrB() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_U32(), sch_Ptr_Bytes3_g2(), sch_Ptr_Ptr_U16()}, Names: []string{"P", "Q", "R"}}
}
func set_PtrB(p *PtrB, v *Val) {
	set_Ptr_U32(&p.P, v.Elems[0])
	set_Ptr_Bytes3_g2(&p.Q, v.Elems[1])
	set_Ptr_Ptr_U16(&p.R, v.Elems[2])
}
func get_PtrB(p *PtrB) *Val {
	return &Val{Elems: []*Val{get_Ptr_U32(&p.P), get_Ptr_Bytes3_g2(&p.Q), get_Ptr_Ptr_U16(&p.R)}}
}

type In1 struct {
	A uint16
	L Bytes3_g2
}

func sch_In1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bytes3_g2()}, Names: []string{"A", "L"}}
}
func set_In1(p *In1, v *Val) {
	set_U16(&p.A, v.Elems[0])
	set_Bytes3_g2(&p.L, v.Elems[1])
}
func get_In1(p *In1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A), get_Bytes3_g2(&p.L)}}
}

type Sq1 struct {
	H uint8
	S In1 `ssz:"squash"`
	T uint16
}

func sch_Sq1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U16()}, Names: []string{"H", "A", "L", "T"}}
}
func set_Sq1(p *Sq1, v *Val) {
	set_U8(&p.H, v.Elems[0])
	set_U16(&p.S.A, v.Elems[1])
	set_Bytes3_g2(&p.S.L, v.Elems[2])
	set_U16(&p.T, v.Elems[3])
}
func get_Sq1(p *Sq1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.H), get_U16(&p.S.A), get_Bytes3_g2(&p.S.L), get_U16(&p.T)}}
}

type In2 struct {
	X  uint8
	In In1 `ssz:"squash"`
	Y  uint8
}

func sch_In2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U8()}, Names: []string{"X", "A", "L", "Y"}}
}
func set_In2(p *In2, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_U16(&p.In.A, v.Elems[1])
	set_Bytes3_g2(&p.In.L, v.Elems[2])
	set_U8(&p.Y, v.Elems[3])
}
func get_In2(p *In2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_U16(&p.In.A), get_Bytes3_g2(&p.In.L), get_U8(&p.Y)}}
}

type Sq2 struct {
	H   uint8
	Mid In2 `ssz:"squash"`
	Z   List3_U16_g1
	T   uint8
}

func sch_Sq2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U8(), sch_List3_U16_g1(), sch_U8()}, Names: []string{"H", "X", "A", "L", "Y", "Z", "T"}}
}
func set_Sq2(p *Sq2, v *Val) {
	set_U8(&p.H, v.Elems[0])
	set_U8(&p.Mid.X, v.Elems[1])
	set_U16(&p.Mid.In.A, v.Elems[2])
	set_Bytes3_g2(&p.Mid.In.L, v.Elems[3])
	set_U8(&p.Mid.Y, v.Elems[4])
	set_List3_U16_g1(&p.Z, v.Elems[5])
	set_U8(&p.T, v.Elems[6])
}
func get_Sq2(p *Sq2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.H), get_U8(&p.Mid.X), get_U16(&p.Mid.In.A), get_Bytes3_g2(&p.Mid.In.L), get_U8(&p.Mid.Y), get_List3_U16_g1(&p.Z), get_U8(&p.T)}}
}

type Emb1 struct {
	H uint8
	In1
	T uint16
}

func sch_Emb1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U16()}, Names: []string{"H", "A", "L", "T"}}
}
func set_Emb1(p *Emb1, v *Val) {
	set_U8(&p.H, v.Elems[0])
	set_U16(&p.In1.A, v.Elems[1])
	set_Bytes3_g2(&p.In1.L, v.Elems[2])
	set_U16(&p.T, v.Elems[3])
}
func get_Emb1(p *Emb1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.H), get_U16(&p.In1.A), get_Bytes3_g2(&p.In1.L), get_U16(&p.T)}}
}

type Emb2 struct {
	Small
	In2
	W uint8
}

func sch_Emb2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U8(), sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U8(), sch_U8()}, Names: []string{"A", "B", "X", "A", "L", "Y", "W"}}
}
func set_Emb2(p *Emb2, v *Val) {
	set_U16(&p.Small.A, v.Elems[0])
	set_U8(&p.Small.B, v.Elems[1])
	set_U8(&p.In2.X, v.Elems[2])
	set_U16(&p.In2.In.A, v.Elems[3])
	set_Bytes3_g2(&p.In2.In.L, v.Elems[4])
	set_U8(&p.In2.Y, v.Elems[5])
	set_U8(&p.W, v.Elems[6])
}
func get_Emb2(p *Emb2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.Small.A), get_U8(&p.Small.B), get_U8(&p.In2.X), get_U16(&p.In2.In.A), get_Bytes3_g2(&p.In2.In.L), get_U8(&p.In2.Y), get_U8(&p.W)}}
}
func sch_BytesN3() *Sch {
	s := sBytesN(3)
	s.Print = func(v *Val) []byte {
		var x [3]byte
		set_BytesN3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[3]byte)(nil)))
	}
	return s
}
func set_BytesN3(p *[3]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN3(p *[3]byte) *Val    { return &Val{B: clone(p[:])} }

type Om1 struct {
	A      uint16
	Hidden uint64 `ssz:"omit"`
	L      Bytes3_g2
	Cache  [3]byte `ssz:"omit"`
}

func sch_Om1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bytes3_g2()}, Names: []string{"A", "L"}}
}
func set_Om1(p *Om1, v *Val) {
	set_U16(&p.A, v.Elems[0])
	set_Bytes3_g2(&p.L, v.Elems[1])
}
func get_Om1(p *Om1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A), get_Bytes3_g2(&p.L)}}
}

type InOm struct {
	A uint8
	K uint32 `ssz:"omit"`
	B uint16
}

func sch_InOm() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16()}, Names: []string{"A", "B"}}
}
func set_InOm(p *InOm, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U16(&p.B, v.Elems[1])
}
func get_InOm(p *InOm) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U16(&p.B)}}
}

type Om2 struct {
	In   InOm   `ssz:"squash"`
	Note uint32 `ssz:"other,omit"`
	Q    uint8
	InOm
}

func sch_Om2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_U8(), sch_U8(), sch_U16()}, Names: []string{"A", "B", "Q", "A", "B"}}
}
func set_Om2(p *Om2, v *Val) {
	set_U8(&p.In.A, v.Elems[0])
	set_U16(&p.In.B, v.Elems[1])
	set_U8(&p.Q, v.Elems[2])
	set_U8(&p.InOm.A, v.Elems[3])
	set_U16(&p.InOm.B, v.Elems[4])
}
func get_Om2(p *Om2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.In.A), get_U16(&p.In.B), get_U8(&p.Q), get_U8(&p.InOm.A), get_U16(&p.InOm.B)}}
}

type EmbPtr struct {
	H uint8
	*Small
	T uint8
}

func sch_EmbPtr() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Small(), sch_U8()}, Names: []string{"H", "Small", "T"}}
}
func set_EmbPtr(p *EmbPtr, v *Val) {
	set_U8(&p.H, v.Elems[0])
	set_Ptr_Small(&p.Small, v.Elems[1])
	set_U8(&p.T, v.Elems[2])
}
func get_EmbPtr(p *EmbPtr) *Val {
	return &Val{Elems: []*Val{get_U8(&p.H), get_Ptr_Small(&p.Small), get_U8(&p.T)}}
}

type EmbList struct {
	A uint8
	Bytes3_g2
}

func sch_EmbList() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes3_g2()}, Names: []string{"A", "Bytes3_g2"}}
}
func set_EmbList(p *EmbList, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bytes3_g2(&p.Bytes3_g2, v.Elems[1])
}
func get_EmbList(p *EmbList) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bytes3_g2(&p.Bytes3_g2)}}
}

type Un struct {
	a uint8
	b Bytes3_g2
	c Small
}

func sch_Un() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes3_g2(), sch_Small()}, Names: []string{"a", "b", "c"}}
}
func set_Un(p *Un, v *Val) {
	set_U8(&p.a, v.Elems[0])
	set_Bytes3_g2(&p.b, v.Elems[1])
	set_Small(&p.c, v.Elems[2])
}
func get_Un(p *Un) *Val {
	return &Val{Elems: []*Val{get_U8(&p.a), get_Bytes3_g2(&p.b), get_Small(&p.c)}}
}

type EmbDeep struct {
	H uint8
	Sq2
	V uint16
	K Small `ssz:"squash"`
}

func sch_EmbDeep() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U8(), sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U8(), sch_List3_U16_g1(), sch_U8(), sch_U16(), sch_U16(), sch_U8()}, Names: []string{"H", "H", "X", "A", "L", "Y", "Z", "T", "V", "A", "B"}}
}
func set_EmbDeep(p *EmbDeep, v *Val) {
	set_U8(&p.H, v.Elems[0])
	set_U8(&p.Sq2.H, v.Elems[1])
	set_U8(&p.Sq2.Mid.X, v.Elems[2])
	set_U16(&p.Sq2.Mid.In.A, v.Elems[3])
	set_Bytes3_g2(&p.Sq2.Mid.In.L, v.Elems[4])
	set_U8(&p.Sq2.Mid.Y, v.Elems[5])
	set_List3_U16_g1(&p.Sq2.Z, v.Elems[6])
	set_U8(&p.Sq2.T, v.Elems[7])
	set_U16(&p.V, v.Elems[8])
	set_U16(&p.K.A, v.Elems[9])
	set_U8(&p.K.B, v.Elems[10])
}
func get_EmbDeep(p *EmbDeep) *Val {
	return &Val{Elems: []*Val{get_U8(&p.H), get_U8(&p.Sq2.H), get_U8(&p.Sq2.Mid.X), get_U16(&p.Sq2.Mid.In.A), get_Bytes3_g2(&p.Sq2.Mid.In.L), get_U8(&p.Sq2.Mid.Y), get_List3_U16_g1(&p.Sq2.Z), get_U8(&p.Sq2.T), get_U16(&p.V), get_U16(&p.K.A), get_U8(&p.K.B)}}
}
func sch_Ptr_U8() *Sch { return sch_U8() }
func set_Ptr_U8(p **uint8, v *Val) {
	if !inPlace || *p == nil {
		*p = new(uint8)
	}
	set_U8(*p, v)
}
func get_Ptr_U8(p **uint8) *Val { return get_U8(*p) }
func sch_Ptr_U64() *Sch         { return sch_U64() }
func set_Ptr_U64(p **uint64, v *Val) {
	if !inPlace || *p == nil {
		*p = new(uint64)
	}
	set_U64(*p, v)
}
func get_Ptr_U64(p **uint64) *Val { return get_U64(*p) }
func sch_Ptr_Bool() *Sch          { return sch_Bool() }
func set_Ptr_Bool(p **bool, v *Val) {
	if !inPlace || *p == nil {
		*p = new(bool)
	}
	set_Bool(*p, v)
}
func get_Ptr_Bool(p **bool) *Val { return get_Bool(*p) }
func sch_Ptr_BytesN4() *Sch      { return sch_BytesN4() }
func set_Ptr_BytesN4(p **[4]byte, v *Val) {
	if !inPlace || *p == nil {
		*p = new([4]byte)
	}
	set_BytesN4(*p, v)
}
func get_Ptr_BytesN4(p **[4]byte) *Val { return get_BytesN4(*p) }
func sch_Ptr_Bitvec9() *Sch            { return sch_Bitvec9() }
func set_Ptr_Bitvec9(p **Bitvec9, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bitvec9)
	}
	set_Bitvec9(*p, v)
}
func get_Ptr_Bitvec9(p **Bitvec9) *Val { return get_Bitvec9(*p) }
func sch_Ptr_Vec2_U16() *Sch           { return sch_Vec2_U16() }
func set_Ptr_Vec2_U16(p **[2]uint16, v *Val) {
	if !inPlace || *p == nil {
		*p = new([2]uint16)
	}
	set_Vec2_U16(*p, v)
}
func get_Ptr_Vec2_U16(p **[2]uint16) *Val { return get_Vec2_U16(*p) }
func sch_Ptr_Vec2_Small() *Sch            { return sch_Vec2_Small() }
func set_Ptr_Vec2_Small(p **[2]Small, v *Val) {
	if !inPlace || *p == nil {
		*p = new([2]Small)
	}
	set_Vec2_Small(*p, v)
}
func get_Ptr_Vec2_Small(p **[2]Small) *Val { return get_Vec2_Small(*p) }

type PtrAll struct {
	A *uint8
	B *uint16
	C *uint64
	D *bool
	E *[4]byte
	G *Bitvec9
	H *[2]uint16
	I *[2]Small
}

func sch_PtrAll() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_U8(), sch_Ptr_U16(), sch_Ptr_U64(), sch_Ptr_Bool(), sch_Ptr_BytesN4(), sch_Ptr_Bitvec9(), sch_Ptr_Vec2_U16(), sch_Ptr_Vec2_Small()}, Names: []string{"A", "B", "C", "D", "E", "G", "H", "I"}}
}
func set_PtrAll(p *PtrAll, v *Val) {
	set_Ptr_U8(&p.A, v.Elems[0])
	set_Ptr_U16(&p.B, v.Elems[1])
	set_Ptr_U64(&p.C, v.Elems[2])
	set_Ptr_Bool(&p.D, v.Elems[3])
	set_Ptr_BytesN4(&p.E, v.Elems[4])
	set_Ptr_Bitvec9(&p.G, v.Elems[5])
	set_Ptr_Vec2_U16(&p.H, v.Elems[6])
	set_Ptr_Vec2_Small(&p.I, v.Elems[7])
}
func get_PtrAll(p *PtrAll) *Val {
	return &Val{Elems: []*Val{get_Ptr_U8(&p.A), get_Ptr_U16(&p.B), get_Ptr_U64(&p.C), get_Ptr_Bool(&p.D), get_Ptr_BytesN4(&p.E), get_Ptr_Bitvec9(&p.G), get_Ptr_Vec2_U16(&p.H), get_Ptr_Vec2_Small(&p.I)}}
}
func sch_Ptr_List3_U16_g1() *Sch { return sch_List3_U16_g1() }
func set_Ptr_List3_U16_g1(p **List3_U16_g1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List3_U16_g1)
	}
	set_List3_U16_g1(*p, v)
}
func get_Ptr_List3_U16_g1(p **List3_U16_g1) *Val { return get_List3_U16_g1(*p) }
func sch_Ptr_Bitlist9_g3() *Sch                  { return sch_Bitlist9_g3() }
func set_Ptr_Bitlist9_g3(p **Bitlist9_g3, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bitlist9_g3)
	}
	set_Bitlist9_g3(*p, v)
}
func get_Ptr_Bitlist9_g3(p **Bitlist9_g3) *Val { return get_Bitlist9_g3(*p) }
func sch_Ptr_Ptr_Var2() *Sch                   { return sch_Ptr_Var2() }
func set_Ptr_Ptr_Var2(p ***Var2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(*Var2)
	}
	set_Ptr_Var2(*p, v)
}
func get_Ptr_Ptr_Var2(p ***Var2) *Val { return get_Ptr_Var2(*p) }

type PtrVar struct {
	A *Bytes3_g2
	B *List3_U16_g1
	C *Bitlist9_g3
	D uint8
	E **Var2
	G *uint32
}

func sch_PtrVar() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Bytes3_g2(), sch_Ptr_List3_U16_g1(), sch_Ptr_Bitlist9_g3(), sch_U8(), sch_Ptr_Ptr_Var2(), sch_Ptr_U32()}, Names: []string{"A", "B", "C", "D", "E", "G"}}
}
func set_PtrVar(p *PtrVar, v *Val) {
	set_Ptr_Bytes3_g2(&p.A, v.Elems[0])
	set_Ptr_List3_U16_g1(&p.B, v.Elems[1])
	set_Ptr_Bitlist9_g3(&p.C, v.Elems[2])
	set_U8(&p.D, v.Elems[3])
	set_Ptr_Ptr_Var2(&p.E, v.Elems[4])
	set_Ptr_U32(&p.G, v.Elems[5])
}
func get_PtrVar(p *PtrVar) *Val {
	return &Val{Elems: []*Val{get_Ptr_Bytes3_g2(&p.A), get_Ptr_List3_U16_g1(&p.B), get_Ptr_Bitlist9_g3(&p.C), get_U8(&p.D), get_Ptr_Ptr_Var2(&p.E), get_Ptr_U32(&p.G)}}
}
func sch_Ptr_List2_Bytes2_g1_g1() *Sch { return sch_List2_Bytes2_g1_g1() }
func set_Ptr_List2_Bytes2_g1_g1(p **List2_Bytes2_g1_g1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List2_Bytes2_g1_g1)
	}
	set_List2_Bytes2_g1_g1(*p, v)
}
func get_Ptr_List2_Bytes2_g1_g1(p **List2_Bytes2_g1_g1) *Val { return get_List2_Bytes2_g1_g1(*p) }
func sch_Ptr_List2_Ptr_Small_g2() *Sch                       { return sch_List2_Ptr_Small_g2() }
func set_Ptr_List2_Ptr_Small_g2(p **List2_Ptr_Small_g2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List2_Ptr_Small_g2)
	}
	set_List2_Ptr_Small_g2(*p, v)
}
func get_Ptr_List2_Ptr_Small_g2(p **List2_Ptr_Small_g2) *Val { return get_List2_Ptr_Small_g2(*p) }

type PtrLL struct {
	A *List2_Bytes2_g1_g1
	B *List2_Ptr_Small_g2
}

func sch_PtrLL() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_List2_Bytes2_g1_g1(), sch_Ptr_List2_Ptr_Small_g2()}, Names: []string{"A", "B"}}
}
func set_PtrLL(p *PtrLL, v *Val) {
	set_Ptr_List2_Bytes2_g1_g1(&p.A, v.Elems[0])
	set_Ptr_List2_Ptr_Small_g2(&p.B, v.Elems[1])
}
func get_PtrLL(p *PtrLL) *Val {
	return &Val{Elems: []*Val{get_Ptr_List2_Bytes2_g1_g1(&p.A), get_Ptr_List2_Ptr_Small_g2(&p.B)}}
}
func sch_Ptr_Ptr_Small() *Sch { return sch_Ptr_Small() }
func set_Ptr_Ptr_Small(p ***Small, v *Val) {
	if !inPlace || *p == nil {
		*p = new(*Small)
	}
	set_Ptr_Small(*p, v)
}
func get_Ptr_Ptr_Small(p ***Small) *Val { return get_Ptr_Small(*p) }

type S1_U8 struct {
	A uint8
}

func sch_S1_U8() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8()}, Names: []string{"A"}}
}
func set_S1_U8(p *S1_U8, v *Val) {
	set_U8(&p.A, v.Elems[0])
}
func get_S1_U8(p *S1_U8) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A)}}
}

type S3_U8 struct {
	A uint8
	B uint8
	C uint16
}

func sch_S3_U8() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U8(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_U8(p *S3_U8, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U8(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_U8(p *S3_U8) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U8(&p.B), get_U16(&p.C)}}
}

type SV_U8 struct {
	A uint8
	B Bytes2_g1
	C uint8
	D Bytes2_g1
}

func sch_SV_U8() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1(), sch_U8(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_U8(p *SV_U8, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_U8(p *SV_U8) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bytes2_g1(&p.B), get_U8(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_U8 struct {
	A uint8
	B *uint8
	C Bytes2_g1
}

func sch_SP_U8() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_U8(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_U8(p *SP_U8, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_U8(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_U8(p *SP_U8) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_U8(&p.B), get_Bytes2_g1(&p.C)}}
}

type S1_U16 struct {
	A uint16
}

func sch_S1_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16()}, Names: []string{"A"}}
}
func set_S1_U16(p *S1_U16, v *Val) {
	set_U16(&p.A, v.Elems[0])
}
func get_S1_U16(p *S1_U16) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A)}}
}

type S3_U16 struct {
	A uint8
	B uint16
	C uint16
}

func sch_S3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_U16(p *S3_U16, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U16(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_U16(p *S3_U16) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U16(&p.B), get_U16(&p.C)}}
}

type SV_U16 struct {
	A uint16
	B Bytes2_g1
	C uint16
	D Bytes2_g1
}

func sch_SV_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bytes2_g1(), sch_U16(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_U16(p *SV_U16, v *Val) {
	set_U16(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_U16(p *SV_U16) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A), get_Bytes2_g1(&p.B), get_U16(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_U16 struct {
	A uint8
	B *uint16
	C Bytes2_g1
}

func sch_SP_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_U16(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_U16(p *SP_U16, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_U16(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_U16(p *SP_U16) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_U16(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_U16() *Sch { return sVec(sch_U16(), 1) }
func set_Vec1_U16(p *[1]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec1_U16(p *[1]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}

type List4_U16_n0_1_2 []uint16

func (*List4_U16_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_U16_n0_1_2() *Sch        { return lens(sList(sch_U16(), 4, 2), 0, 1, 2) }
func set_List4_U16_n0_1_2(p *List4_U16_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_U16_n0_1_2, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List4_U16_n0_1_2(p *List4_U16_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type S1_U32 struct {
	A uint32
}

func sch_S1_U32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U32()}, Names: []string{"A"}}
}
func set_S1_U32(p *S1_U32, v *Val) {
	set_U32(&p.A, v.Elems[0])
}
func get_S1_U32(p *S1_U32) *Val {
	return &Val{Elems: []*Val{get_U32(&p.A)}}
}

type S3_U32 struct {
	A uint8
	B uint32
	C uint16
}

func sch_S3_U32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U32(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_U32(p *S3_U32, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U32(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_U32(p *S3_U32) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U32(&p.B), get_U16(&p.C)}}
}

type SV_U32 struct {
	A uint32
	B Bytes2_g1
	C uint32
	D Bytes2_g1
}

func sch_SV_U32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U32(), sch_Bytes2_g1(), sch_U32(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_U32(p *SV_U32, v *Val) {
	set_U32(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_U32(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_U32(p *SV_U32) *Val {
	return &Val{Elems: []*Val{get_U32(&p.A), get_Bytes2_g1(&p.B), get_U32(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_U32 struct {
	A uint8
	B *uint32
	C Bytes2_g1
}

func sch_SP_U32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_U32(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_U32(p *SP_U32, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_U32(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_U32(p *SP_U32) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_U32(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_U32() *Sch { return sVec(sch_U32(), 1) }
func set_Vec1_U32(p *[1]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec1_U32(p *[1]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}
func sch_Vec2_U32() *Sch { return sVec(sch_U32(), 2) }
func set_Vec2_U32(p *[2]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec2_U32(p *[2]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}

type List4_U32_n0_1_2 []uint32

func (*List4_U32_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_U32_n0_1_2() *Sch        { return lens(sList(sch_U32(), 4, 2), 0, 1, 2) }
func set_List4_U32_n0_1_2(p *List4_U32_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_U32_n0_1_2, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List4_U32_n0_1_2(p *List4_U32_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type S1_U64 struct {
	A uint64
}

func sch_S1_U64() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64()}, Names: []string{"A"}}
}
func set_S1_U64(p *S1_U64, v *Val) {
	set_U64(&p.A, v.Elems[0])
}
func get_S1_U64(p *S1_U64) *Val {
	return &Val{Elems: []*Val{get_U64(&p.A)}}
}

type S3_U64 struct {
	A uint8
	B uint64
	C uint16
}

func sch_S3_U64() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U64(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_U64(p *S3_U64, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U64(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_U64(p *S3_U64) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U64(&p.B), get_U16(&p.C)}}
}

type SV_U64 struct {
	A uint64
	B Bytes2_g1
	C uint64
	D Bytes2_g1
}

func sch_SV_U64() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_Bytes2_g1(), sch_U64(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_U64(p *SV_U64, v *Val) {
	set_U64(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_U64(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_U64(p *SV_U64) *Val {
	return &Val{Elems: []*Val{get_U64(&p.A), get_Bytes2_g1(&p.B), get_U64(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_U64 struct {
	A uint8
	B *uint64
	C Bytes2_g1
}

func sch_SP_U64() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_U64(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_U64(p *SP_U64, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_U64(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_U64(p *SP_U64) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_U64(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_U64() *Sch { return sVec(sch_U64(), 1) }
func set_Vec1_U64(p *[1]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec1_U64(p *[1]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec2_U64() *Sch { return sVec(sch_U64(), 2) }
func set_Vec2_U64(p *[2]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec2_U64(p *[2]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}

type List4_U64_n0_1_2 []uint64

func (*List4_U64_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_U64_n0_1_2() *Sch        { return lens(sList(sch_U64(), 4, 2), 0, 1, 2) }
func set_List4_U64_n0_1_2(p *List4_U64_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_U64_n0_1_2, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List4_U64_n0_1_2(p *List4_U64_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type S1_Bool struct {
	A bool
}

func sch_S1_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bool()}, Names: []string{"A"}}
}
func set_S1_Bool(p *S1_Bool, v *Val) {
	set_Bool(&p.A, v.Elems[0])
}
func get_S1_Bool(p *S1_Bool) *Val {
	return &Val{Elems: []*Val{get_Bool(&p.A)}}
}

type S3_Bool struct {
	A uint8
	B bool
	C uint16
}

func sch_S3_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bool(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Bool(p *S3_Bool, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bool(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Bool(p *S3_Bool) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bool(&p.B), get_U16(&p.C)}}
}

type SV_Bool struct {
	A bool
	B Bytes2_g1
	C bool
	D Bytes2_g1
}

func sch_SV_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bool(), sch_Bytes2_g1(), sch_Bool(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Bool(p *SV_Bool, v *Val) {
	set_Bool(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Bool(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Bool(p *SV_Bool) *Val {
	return &Val{Elems: []*Val{get_Bool(&p.A), get_Bytes2_g1(&p.B), get_Bool(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_Bool struct {
	A uint8
	B *bool
	C Bytes2_g1
}

func sch_SP_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bool(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Bool(p *SP_Bool, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Bool(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Bool(p *SP_Bool) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Bool(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Bool() *Sch { return sVec(sch_Bool(), 1) }
func set_Vec1_Bool(p *[1]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bool(p *[1]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec2_Bool() *Sch { return sVec(sch_Bool(), 2) }
func set_Vec2_Bool(p *[2]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bool(p *[2]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}

type List4_Bool_n0_1_2 []bool

func (*List4_Bool_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Bool_n0_1_2() *Sch        { return lens(sList(sch_Bool(), 4, 2), 0, 1, 2) }
func set_List4_Bool_n0_1_2(p *List4_Bool_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Bool_n0_1_2, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Bool_n0_1_2(p *List4_Bool_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type S1_BytesN4 struct {
	A [4]byte
}

func sch_S1_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN4()}, Names: []string{"A"}}
}
func set_S1_BytesN4(p *S1_BytesN4, v *Val) {
	set_BytesN4(&p.A, v.Elems[0])
}
func get_S1_BytesN4(p *S1_BytesN4) *Val {
	return &Val{Elems: []*Val{get_BytesN4(&p.A)}}
}

type S3_BytesN4 struct {
	A uint8
	B [4]byte
	C uint16
}

func sch_S3_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN4(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_BytesN4(p *S3_BytesN4, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_BytesN4(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_BytesN4(p *S3_BytesN4) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_BytesN4(&p.B), get_U16(&p.C)}}
}

type SV_BytesN4 struct {
	A [4]byte
	B Bytes2_g1
	C [4]byte
	D Bytes2_g1
}

func sch_SV_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN4(), sch_Bytes2_g1(), sch_BytesN4(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_BytesN4(p *SV_BytesN4, v *Val) {
	set_BytesN4(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_BytesN4(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_BytesN4(p *SV_BytesN4) *Val {
	return &Val{Elems: []*Val{get_BytesN4(&p.A), get_Bytes2_g1(&p.B), get_BytesN4(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_BytesN4 struct {
	A uint8
	B *[4]byte
	C Bytes2_g1
}

func sch_SP_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_BytesN4(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_BytesN4(p *SP_BytesN4, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_BytesN4(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_BytesN4(p *SP_BytesN4) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_BytesN4(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_BytesN4() *Sch { return sVec(sch_BytesN4(), 1) }
func set_Vec1_BytesN4(p *[1][4]byte, v *Val) {
	for i := range p {
		set_BytesN4(&p[i], v.Elems[i])
	}
}
func get_Vec1_BytesN4(p *[1][4]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN4(&p[i]))
	}
	return v
}
func sch_Vec2_BytesN4() *Sch { return sVec(sch_BytesN4(), 2) }
func set_Vec2_BytesN4(p *[2][4]byte, v *Val) {
	for i := range p {
		set_BytesN4(&p[i], v.Elems[i])
	}
}
func get_Vec2_BytesN4(p *[2][4]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN4(&p[i]))
	}
	return v
}

type List4_BytesN4_n0_1_2 [][4]byte

func (*List4_BytesN4_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_BytesN4_n0_1_2() *Sch        { return lens(sList(sch_BytesN4(), 4, 2), 0, 1, 2) }
func set_List4_BytesN4_n0_1_2(p *List4_BytesN4_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_BytesN4_n0_1_2, n+1)
			set_BytesN4(&(*p)[n], junk(sch_BytesN4()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN4(&(*p)[i], v.Elems[i])
	}
}
func get_List4_BytesN4_n0_1_2(p *List4_BytesN4_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN4(&(*p)[i]))
	}
	return v
}

type List8589934592_BytesN4_n0_1 [][4]byte

func (*List8589934592_BytesN4_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_BytesN4_n0_1() *Sch        { return lens(sList(sch_BytesN4(), 8589934592, 1), 0, 1) }
func set_List8589934592_BytesN4_n0_1(p *List8589934592_BytesN4_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_BytesN4_n0_1, n+1)
			set_BytesN4(&(*p)[n], junk(sch_BytesN4()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN4(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_BytesN4_n0_1(p *List8589934592_BytesN4_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN4(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_BytesN4() *Sch { return sVec(sch_Vec1_BytesN4(), 2) }
func set_Vec2_Vec1_BytesN4(p *[2][1][4]byte, v *Val) {
	for i := range p {
		set_Vec1_BytesN4(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_BytesN4(p *[2][1][4]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_BytesN4(&p[i]))
	}
	return v
}

type List2_Vec2_BytesN4_n0_1 [][2][4]byte

func (*List2_Vec2_BytesN4_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_BytesN4_n0_1() *Sch        { return lens(sList(sch_Vec2_BytesN4(), 2, 1), 0, 1) }
func set_List2_Vec2_BytesN4_n0_1(p *List2_Vec2_BytesN4_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_BytesN4_n0_1, n+1)
			set_Vec2_BytesN4(&(*p)[n], junk(sch_Vec2_BytesN4()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_BytesN4(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_BytesN4_n0_1(p *List2_Vec2_BytesN4_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_BytesN4(&(*p)[i]))
	}
	return v
}

type List2_BytesN4_n0_1 [][4]byte

func (*List2_BytesN4_n0_1) Limit() uint64 { return 2 }
func sch_List2_BytesN4_n0_1() *Sch        { return lens(sList(sch_BytesN4(), 2, 1), 0, 1) }
func set_List2_BytesN4_n0_1(p *List2_BytesN4_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_BytesN4_n0_1, n+1)
			set_BytesN4(&(*p)[n], junk(sch_BytesN4()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN4(&(*p)[i], v.Elems[i])
	}
}
func get_List2_BytesN4_n0_1(p *List2_BytesN4_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN4(&(*p)[i]))
	}
	return v
}

type List2_List2_BytesN4_n0_1_n0_2 []List2_BytesN4_n0_1

func (*List2_List2_BytesN4_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_BytesN4_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_BytesN4_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_BytesN4_n0_1_n0_2(p *List2_List2_BytesN4_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_BytesN4_n0_1_n0_2, n+1)
			set_List2_BytesN4_n0_1(&(*p)[n], junk(sch_List2_BytesN4_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_BytesN4_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_BytesN4_n0_1_n0_2(p *List2_List2_BytesN4_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_BytesN4_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_BytesN4 struct {
	X [4]byte
	Y Bytes2_g1
}

func sch_SqI_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN4(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_BytesN4(p *SqI_BytesN4, v *Val) {
	set_BytesN4(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_BytesN4(p *SqI_BytesN4) *Val {
	return &Val{Elems: []*Val{get_BytesN4(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_BytesN4 struct {
	H uint16
	I SqI_BytesN4 `ssz:"squash"`
	T [4]byte
}

func sch_Sq_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_BytesN4(), sch_Bytes2_g1(), sch_BytesN4()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_BytesN4(p *Sq_BytesN4, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_BytesN4(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_BytesN4(&p.T, v.Elems[3])
}
func get_Sq_BytesN4(p *Sq_BytesN4) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_BytesN4(&p.I.X), get_Bytes2_g1(&p.I.Y), get_BytesN4(&p.T)}}
}

type EmI_BytesN4 struct {
	X uint8
	Y [4]byte
}

func sch_EmI_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN4()}, Names: []string{"X", "Y"}}
}
func set_EmI_BytesN4(p *EmI_BytesN4, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_BytesN4(&p.Y, v.Elems[1])
}
func get_EmI_BytesN4(p *EmI_BytesN4) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_BytesN4(&p.Y)}}
}

type Em_BytesN4 struct {
	EmI_BytesN4
	T Bytes2_g1
}

func sch_Em_BytesN4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN4(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_BytesN4(p *Em_BytesN4, v *Val) {
	set_U8(&p.EmI_BytesN4.X, v.Elems[0])
	set_BytesN4(&p.EmI_BytesN4.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_BytesN4(p *Em_BytesN4) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_BytesN4.X), get_BytesN4(&p.EmI_BytesN4.Y), get_Bytes2_g1(&p.T)}}
}

type S1_BytesN32 struct {
	A [32]byte
}

func sch_S1_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN32()}, Names: []string{"A"}}
}
func set_S1_BytesN32(p *S1_BytesN32, v *Val) {
	set_BytesN32(&p.A, v.Elems[0])
}
func get_S1_BytesN32(p *S1_BytesN32) *Val {
	return &Val{Elems: []*Val{get_BytesN32(&p.A)}}
}

type S3_BytesN32 struct {
	A uint8
	B [32]byte
	C uint16
}

func sch_S3_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN32(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_BytesN32(p *S3_BytesN32, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_BytesN32(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_BytesN32(p *S3_BytesN32) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_BytesN32(&p.B), get_U16(&p.C)}}
}

type SV_BytesN32 struct {
	A [32]byte
	B Bytes2_g1
	C [32]byte
	D Bytes2_g1
}

func sch_SV_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN32(), sch_Bytes2_g1(), sch_BytesN32(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_BytesN32(p *SV_BytesN32, v *Val) {
	set_BytesN32(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_BytesN32(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_BytesN32(p *SV_BytesN32) *Val {
	return &Val{Elems: []*Val{get_BytesN32(&p.A), get_Bytes2_g1(&p.B), get_BytesN32(&p.C), get_Bytes2_g1(&p.D)}}
}
func sch_Ptr_BytesN32() *Sch { return sch_BytesN32() }
func set_Ptr_BytesN32(p **[32]byte, v *Val) {
	if !inPlace || *p == nil {
		*p = new([32]byte)
	}
	set_BytesN32(*p, v)
}
func get_Ptr_BytesN32(p **[32]byte) *Val { return get_BytesN32(*p) }

type SP_BytesN32 struct {
	A uint8
	B *[32]byte
	C Bytes2_g1
}

func sch_SP_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_BytesN32(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_BytesN32(p *SP_BytesN32, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_BytesN32(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_BytesN32(p *SP_BytesN32) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_BytesN32(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_BytesN32() *Sch { return sVec(sch_BytesN32(), 1) }
func set_Vec1_BytesN32(p *[1][32]byte, v *Val) {
	for i := range p {
		set_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec1_BytesN32(p *[1][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN32(&p[i]))
	}
	return v
}
func sch_Vec2_BytesN32() *Sch { return sVec(sch_BytesN32(), 2) }
func set_Vec2_BytesN32(p *[2][32]byte, v *Val) {
	for i := range p {
		set_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec2_BytesN32(p *[2][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN32(&p[i]))
	}
	return v
}

type List4_BytesN32_n0_1_2 [][32]byte

func (*List4_BytesN32_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_BytesN32_n0_1_2() *Sch        { return lens(sList(sch_BytesN32(), 4, 2), 0, 1, 2) }
func set_List4_BytesN32_n0_1_2(p *List4_BytesN32_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_BytesN32_n0_1_2, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List4_BytesN32_n0_1_2(p *List4_BytesN32_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}

type List8589934592_BytesN32_n0_1 [][32]byte

func (*List8589934592_BytesN32_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_BytesN32_n0_1() *Sch        { return lens(sList(sch_BytesN32(), 8589934592, 1), 0, 1) }
func set_List8589934592_BytesN32_n0_1(p *List8589934592_BytesN32_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_BytesN32_n0_1, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_BytesN32_n0_1(p *List8589934592_BytesN32_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_BytesN32() *Sch { return sVec(sch_Vec1_BytesN32(), 2) }
func set_Vec2_Vec1_BytesN32(p *[2][1][32]byte, v *Val) {
	for i := range p {
		set_Vec1_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_BytesN32(p *[2][1][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_BytesN32(&p[i]))
	}
	return v
}

type List2_Vec2_BytesN32_n0_1 [][2][32]byte

func (*List2_Vec2_BytesN32_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_BytesN32_n0_1() *Sch        { return lens(sList(sch_Vec2_BytesN32(), 2, 1), 0, 1) }
func set_List2_Vec2_BytesN32_n0_1(p *List2_Vec2_BytesN32_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_BytesN32_n0_1, n+1)
			set_Vec2_BytesN32(&(*p)[n], junk(sch_Vec2_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_BytesN32_n0_1(p *List2_Vec2_BytesN32_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_BytesN32(&(*p)[i]))
	}
	return v
}

type List2_BytesN32_n0_1 [][32]byte

func (*List2_BytesN32_n0_1) Limit() uint64 { return 2 }
func sch_List2_BytesN32_n0_1() *Sch        { return lens(sList(sch_BytesN32(), 2, 1), 0, 1) }
func set_List2_BytesN32_n0_1(p *List2_BytesN32_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_BytesN32_n0_1, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List2_BytesN32_n0_1(p *List2_BytesN32_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}

type List2_List2_BytesN32_n0_1_n0_2 []List2_BytesN32_n0_1

func (*List2_List2_BytesN32_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_BytesN32_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_BytesN32_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_BytesN32_n0_1_n0_2(p *List2_List2_BytesN32_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_BytesN32_n0_1_n0_2, n+1)
			set_List2_BytesN32_n0_1(&(*p)[n], junk(sch_List2_BytesN32_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_BytesN32_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_BytesN32_n0_1_n0_2(p *List2_List2_BytesN32_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_BytesN32_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_BytesN32 struct {
	X [32]byte
	Y Bytes2_g1
}

func sch_SqI_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN32(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_BytesN32(p *SqI_BytesN32, v *Val) {
	set_BytesN32(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_BytesN32(p *SqI_BytesN32) *Val {
	return &Val{Elems: []*Val{get_BytesN32(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_BytesN32 struct {
	H uint16
	I SqI_BytesN32 `ssz:"squash"`
	T [32]byte
}

func sch_Sq_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_BytesN32(), sch_Bytes2_g1(), sch_BytesN32()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_BytesN32(p *Sq_BytesN32, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_BytesN32(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_BytesN32(&p.T, v.Elems[3])
}
func get_Sq_BytesN32(p *Sq_BytesN32) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_BytesN32(&p.I.X), get_Bytes2_g1(&p.I.Y), get_BytesN32(&p.T)}}
}

type EmI_BytesN32 struct {
	X uint8
	Y [32]byte
}

func sch_EmI_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN32()}, Names: []string{"X", "Y"}}
}
func set_EmI_BytesN32(p *EmI_BytesN32, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_BytesN32(&p.Y, v.Elems[1])
}
func get_EmI_BytesN32(p *EmI_BytesN32) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_BytesN32(&p.Y)}}
}

type Em_BytesN32 struct {
	EmI_BytesN32
	T Bytes2_g1
}

func sch_Em_BytesN32() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN32(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_BytesN32(p *Em_BytesN32, v *Val) {
	set_U8(&p.EmI_BytesN32.X, v.Elems[0])
	set_BytesN32(&p.EmI_BytesN32.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_BytesN32(p *Em_BytesN32) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_BytesN32.X), get_BytesN32(&p.EmI_BytesN32.Y), get_Bytes2_g1(&p.T)}}
}

type S1_BytesN33 struct {
	A [33]byte
}

func sch_S1_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN33()}, Names: []string{"A"}}
}
func set_S1_BytesN33(p *S1_BytesN33, v *Val) {
	set_BytesN33(&p.A, v.Elems[0])
}
func get_S1_BytesN33(p *S1_BytesN33) *Val {
	return &Val{Elems: []*Val{get_BytesN33(&p.A)}}
}

type S3_BytesN33 struct {
	A uint8
	B [33]byte
	C uint16
}

func sch_S3_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN33(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_BytesN33(p *S3_BytesN33, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_BytesN33(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_BytesN33(p *S3_BytesN33) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_BytesN33(&p.B), get_U16(&p.C)}}
}

type SV_BytesN33 struct {
	A [33]byte
	B Bytes2_g1
	C [33]byte
	D Bytes2_g1
}

func sch_SV_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN33(), sch_Bytes2_g1(), sch_BytesN33(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_BytesN33(p *SV_BytesN33, v *Val) {
	set_BytesN33(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_BytesN33(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_BytesN33(p *SV_BytesN33) *Val {
	return &Val{Elems: []*Val{get_BytesN33(&p.A), get_Bytes2_g1(&p.B), get_BytesN33(&p.C), get_Bytes2_g1(&p.D)}}
}
func sch_Ptr_BytesN33() *Sch { return sch_BytesN33() }
func set_Ptr_BytesN33(p **[33]byte, v *Val) {
	if !inPlace || *p == nil {
		*p = new([33]byte)
	}
	set_BytesN33(*p, v)
}
func get_Ptr_BytesN33(p **[33]byte) *Val { return get_BytesN33(*p) }

type SP_BytesN33 struct {
	A uint8
	B *[33]byte
	C Bytes2_g1
}

func sch_SP_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_BytesN33(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_BytesN33(p *SP_BytesN33, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_BytesN33(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_BytesN33(p *SP_BytesN33) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_BytesN33(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_BytesN33() *Sch { return sVec(sch_BytesN33(), 1) }
func set_Vec1_BytesN33(p *[1][33]byte, v *Val) {
	for i := range p {
		set_BytesN33(&p[i], v.Elems[i])
	}
}
func get_Vec1_BytesN33(p *[1][33]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN33(&p[i]))
	}
	return v
}
func sch_Vec2_BytesN33() *Sch { return sVec(sch_BytesN33(), 2) }
func set_Vec2_BytesN33(p *[2][33]byte, v *Val) {
	for i := range p {
		set_BytesN33(&p[i], v.Elems[i])
	}
}
func get_Vec2_BytesN33(p *[2][33]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN33(&p[i]))
	}
	return v
}

type List4_BytesN33_n0_1_2 [][33]byte

func (*List4_BytesN33_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_BytesN33_n0_1_2() *Sch        { return lens(sList(sch_BytesN33(), 4, 2), 0, 1, 2) }
func set_List4_BytesN33_n0_1_2(p *List4_BytesN33_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_BytesN33_n0_1_2, n+1)
			set_BytesN33(&(*p)[n], junk(sch_BytesN33()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN33(&(*p)[i], v.Elems[i])
	}
}
func get_List4_BytesN33_n0_1_2(p *List4_BytesN33_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN33(&(*p)[i]))
	}
	return v
}

type List8589934592_BytesN33_n0_1 [][33]byte

func (*List8589934592_BytesN33_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_BytesN33_n0_1() *Sch        { return lens(sList(sch_BytesN33(), 8589934592, 1), 0, 1) }
func set_List8589934592_BytesN33_n0_1(p *List8589934592_BytesN33_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_BytesN33_n0_1, n+1)
			set_BytesN33(&(*p)[n], junk(sch_BytesN33()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN33(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_BytesN33_n0_1(p *List8589934592_BytesN33_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN33(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_BytesN33() *Sch { return sVec(sch_Vec1_BytesN33(), 2) }
func set_Vec2_Vec1_BytesN33(p *[2][1][33]byte, v *Val) {
	for i := range p {
		set_Vec1_BytesN33(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_BytesN33(p *[2][1][33]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_BytesN33(&p[i]))
	}
	return v
}

type List2_Vec2_BytesN33_n0_1 [][2][33]byte

func (*List2_Vec2_BytesN33_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_BytesN33_n0_1() *Sch        { return lens(sList(sch_Vec2_BytesN33(), 2, 1), 0, 1) }
func set_List2_Vec2_BytesN33_n0_1(p *List2_Vec2_BytesN33_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_BytesN33_n0_1, n+1)
			set_Vec2_BytesN33(&(*p)[n], junk(sch_Vec2_BytesN33()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_BytesN33(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_BytesN33_n0_1(p *List2_Vec2_BytesN33_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_BytesN33(&(*p)[i]))
	}
	return v
}

type List2_BytesN33_n0_1 [][33]byte

func (*List2_BytesN33_n0_1) Limit() uint64 { return 2 }
func sch_List2_BytesN33_n0_1() *Sch        { return lens(sList(sch_BytesN33(), 2, 1), 0, 1) }
func set_List2_BytesN33_n0_1(p *List2_BytesN33_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_BytesN33_n0_1, n+1)
			set_BytesN33(&(*p)[n], junk(sch_BytesN33()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN33(&(*p)[i], v.Elems[i])
	}
}
func get_List2_BytesN33_n0_1(p *List2_BytesN33_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN33(&(*p)[i]))
	}
	return v
}

type List2_List2_BytesN33_n0_1_n0_2 []List2_BytesN33_n0_1

func (*List2_List2_BytesN33_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_BytesN33_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_BytesN33_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_BytesN33_n0_1_n0_2(p *List2_List2_BytesN33_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_BytesN33_n0_1_n0_2, n+1)
			set_List2_BytesN33_n0_1(&(*p)[n], junk(sch_List2_BytesN33_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_BytesN33_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_BytesN33_n0_1_n0_2(p *List2_List2_BytesN33_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_BytesN33_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_BytesN33 struct {
	X [33]byte
	Y Bytes2_g1
}

func sch_SqI_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN33(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_BytesN33(p *SqI_BytesN33, v *Val) {
	set_BytesN33(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_BytesN33(p *SqI_BytesN33) *Val {
	return &Val{Elems: []*Val{get_BytesN33(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_BytesN33 struct {
	H uint16
	I SqI_BytesN33 `ssz:"squash"`
	T [33]byte
}

func sch_Sq_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_BytesN33(), sch_Bytes2_g1(), sch_BytesN33()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_BytesN33(p *Sq_BytesN33, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_BytesN33(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_BytesN33(&p.T, v.Elems[3])
}
func get_Sq_BytesN33(p *Sq_BytesN33) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_BytesN33(&p.I.X), get_Bytes2_g1(&p.I.Y), get_BytesN33(&p.T)}}
}

type EmI_BytesN33 struct {
	X uint8
	Y [33]byte
}

func sch_EmI_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN33()}, Names: []string{"X", "Y"}}
}
func set_EmI_BytesN33(p *EmI_BytesN33, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_BytesN33(&p.Y, v.Elems[1])
}
func get_EmI_BytesN33(p *EmI_BytesN33) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_BytesN33(&p.Y)}}
}

type Em_BytesN33 struct {
	EmI_BytesN33
	T Bytes2_g1
}

func sch_Em_BytesN33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_BytesN33(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_BytesN33(p *Em_BytesN33, v *Val) {
	set_U8(&p.EmI_BytesN33.X, v.Elems[0])
	set_BytesN33(&p.EmI_BytesN33.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_BytesN33(p *Em_BytesN33) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_BytesN33.X), get_BytesN33(&p.EmI_BytesN33.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Bitvec1 struct {
	A Bitvec1
}

func sch_S1_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec1()}, Names: []string{"A"}}
}
func set_S1_Bitvec1(p *S1_Bitvec1, v *Val) {
	set_Bitvec1(&p.A, v.Elems[0])
}
func get_S1_Bitvec1(p *S1_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_Bitvec1(&p.A)}}
}

type S3_Bitvec1 struct {
	A uint8
	B Bitvec1
	C uint16
}

func sch_S3_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec1(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Bitvec1(p *S3_Bitvec1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bitvec1(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Bitvec1(p *S3_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bitvec1(&p.B), get_U16(&p.C)}}
}

type SV_Bitvec1 struct {
	A Bitvec1
	B Bytes2_g1
	C Bitvec1
	D Bytes2_g1
}

func sch_SV_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec1(), sch_Bytes2_g1(), sch_Bitvec1(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Bitvec1(p *SV_Bitvec1, v *Val) {
	set_Bitvec1(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Bitvec1(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Bitvec1(p *SV_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_Bitvec1(&p.A), get_Bytes2_g1(&p.B), get_Bitvec1(&p.C), get_Bytes2_g1(&p.D)}}
}
func sch_Ptr_Bitvec1() *Sch { return sch_Bitvec1() }
func set_Ptr_Bitvec1(p **Bitvec1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bitvec1)
	}
	set_Bitvec1(*p, v)
}
func get_Ptr_Bitvec1(p **Bitvec1) *Val { return get_Bitvec1(*p) }

type SP_Bitvec1 struct {
	A uint8
	B *Bitvec1
	C Bytes2_g1
}

func sch_SP_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bitvec1(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Bitvec1(p *SP_Bitvec1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Bitvec1(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Bitvec1(p *SP_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Bitvec1(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Bitvec1() *Sch { return sVec(sch_Bitvec1(), 1) }
func set_Vec1_Bitvec1(p *[1]Bitvec1, v *Val) {
	for i := range p {
		set_Bitvec1(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bitvec1(p *[1]Bitvec1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitvec1(&p[i]))
	}
	return v
}
func sch_Vec2_Bitvec1() *Sch { return sVec(sch_Bitvec1(), 2) }
func set_Vec2_Bitvec1(p *[2]Bitvec1, v *Val) {
	for i := range p {
		set_Bitvec1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bitvec1(p *[2]Bitvec1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitvec1(&p[i]))
	}
	return v
}

type List4_Bitvec1_n0_1_2 []Bitvec1

func (*List4_Bitvec1_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Bitvec1_n0_1_2() *Sch        { return lens(sList(sch_Bitvec1(), 4, 2), 0, 1, 2) }
func set_List4_Bitvec1_n0_1_2(p *List4_Bitvec1_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Bitvec1_n0_1_2, n+1)
			set_Bitvec1(&(*p)[n], junk(sch_Bitvec1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec1(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Bitvec1_n0_1_2(p *List4_Bitvec1_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec1(&(*p)[i]))
	}
	return v
}

type List8589934592_Bitvec1_n0_1 []Bitvec1

func (*List8589934592_Bitvec1_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Bitvec1_n0_1() *Sch        { return lens(sList(sch_Bitvec1(), 8589934592, 1), 0, 1) }
func set_List8589934592_Bitvec1_n0_1(p *List8589934592_Bitvec1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Bitvec1_n0_1, n+1)
			set_Bitvec1(&(*p)[n], junk(sch_Bitvec1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec1(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Bitvec1_n0_1(p *List8589934592_Bitvec1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Bitvec1() *Sch { return sVec(sch_Vec1_Bitvec1(), 2) }
func set_Vec2_Vec1_Bitvec1(p *[2][1]Bitvec1, v *Val) {
	for i := range p {
		set_Vec1_Bitvec1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Bitvec1(p *[2][1]Bitvec1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Bitvec1(&p[i]))
	}
	return v
}

type List2_Vec2_Bitvec1_n0_1 [][2]Bitvec1

func (*List2_Vec2_Bitvec1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bitvec1_n0_1() *Sch        { return lens(sList(sch_Vec2_Bitvec1(), 2, 1), 0, 1) }
func set_List2_Vec2_Bitvec1_n0_1(p *List2_Vec2_Bitvec1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bitvec1_n0_1, n+1)
			set_Vec2_Bitvec1(&(*p)[n], junk(sch_Vec2_Bitvec1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bitvec1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bitvec1_n0_1(p *List2_Vec2_Bitvec1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bitvec1(&(*p)[i]))
	}
	return v
}

type List2_Bitvec1_n0_1 []Bitvec1

func (*List2_Bitvec1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Bitvec1_n0_1() *Sch        { return lens(sList(sch_Bitvec1(), 2, 1), 0, 1) }
func set_List2_Bitvec1_n0_1(p *List2_Bitvec1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bitvec1_n0_1, n+1)
			set_Bitvec1(&(*p)[n], junk(sch_Bitvec1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bitvec1_n0_1(p *List2_Bitvec1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec1(&(*p)[i]))
	}
	return v
}

type List2_List2_Bitvec1_n0_1_n0_2 []List2_Bitvec1_n0_1

func (*List2_List2_Bitvec1_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Bitvec1_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Bitvec1_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Bitvec1_n0_1_n0_2(p *List2_List2_Bitvec1_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bitvec1_n0_1_n0_2, n+1)
			set_List2_Bitvec1_n0_1(&(*p)[n], junk(sch_List2_Bitvec1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bitvec1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bitvec1_n0_1_n0_2(p *List2_List2_Bitvec1_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bitvec1_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Bitvec1 struct {
	X Bitvec1
	Y Bytes2_g1
}

func sch_SqI_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec1(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Bitvec1(p *SqI_Bitvec1, v *Val) {
	set_Bitvec1(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Bitvec1(p *SqI_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_Bitvec1(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Bitvec1 struct {
	H uint16
	I SqI_Bitvec1 `ssz:"squash"`
	T Bitvec1
}

func sch_Sq_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bitvec1(), sch_Bytes2_g1(), sch_Bitvec1()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Bitvec1(p *Sq_Bitvec1, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Bitvec1(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Bitvec1(&p.T, v.Elems[3])
}
func get_Sq_Bitvec1(p *Sq_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Bitvec1(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Bitvec1(&p.T)}}
}

type EmI_Bitvec1 struct {
	X uint8
	Y Bitvec1
}

func sch_EmI_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec1()}, Names: []string{"X", "Y"}}
}
func set_EmI_Bitvec1(p *EmI_Bitvec1, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Bitvec1(&p.Y, v.Elems[1])
}
func get_EmI_Bitvec1(p *EmI_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Bitvec1(&p.Y)}}
}

type Em_Bitvec1 struct {
	EmI_Bitvec1
	T Bytes2_g1
}

func sch_Em_Bitvec1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec1(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Bitvec1(p *Em_Bitvec1, v *Val) {
	set_U8(&p.EmI_Bitvec1.X, v.Elems[0])
	set_Bitvec1(&p.EmI_Bitvec1.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Bitvec1(p *Em_Bitvec1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Bitvec1.X), get_Bitvec1(&p.EmI_Bitvec1.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Bitvec9 struct {
	A Bitvec9
}

func sch_S1_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec9()}, Names: []string{"A"}}
}
func set_S1_Bitvec9(p *S1_Bitvec9, v *Val) {
	set_Bitvec9(&p.A, v.Elems[0])
}
func get_S1_Bitvec9(p *S1_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_Bitvec9(&p.A)}}
}

type S3_Bitvec9 struct {
	A uint8
	B Bitvec9
	C uint16
}

func sch_S3_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec9(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Bitvec9(p *S3_Bitvec9, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bitvec9(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Bitvec9(p *S3_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bitvec9(&p.B), get_U16(&p.C)}}
}

type SV_Bitvec9 struct {
	A Bitvec9
	B Bytes2_g1
	C Bitvec9
	D Bytes2_g1
}

func sch_SV_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec9(), sch_Bytes2_g1(), sch_Bitvec9(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Bitvec9(p *SV_Bitvec9, v *Val) {
	set_Bitvec9(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Bitvec9(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Bitvec9(p *SV_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_Bitvec9(&p.A), get_Bytes2_g1(&p.B), get_Bitvec9(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_Bitvec9 struct {
	A uint8
	B *Bitvec9
	C Bytes2_g1
}

func sch_SP_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bitvec9(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Bitvec9(p *SP_Bitvec9, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Bitvec9(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Bitvec9(p *SP_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Bitvec9(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Bitvec9() *Sch { return sVec(sch_Bitvec9(), 1) }
func set_Vec1_Bitvec9(p *[1]Bitvec9, v *Val) {
	for i := range p {
		set_Bitvec9(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bitvec9(p *[1]Bitvec9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitvec9(&p[i]))
	}
	return v
}

type List4_Bitvec9_n0_1_2 []Bitvec9

func (*List4_Bitvec9_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Bitvec9_n0_1_2() *Sch        { return lens(sList(sch_Bitvec9(), 4, 2), 0, 1, 2) }
func set_List4_Bitvec9_n0_1_2(p *List4_Bitvec9_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Bitvec9_n0_1_2, n+1)
			set_Bitvec9(&(*p)[n], junk(sch_Bitvec9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec9(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Bitvec9_n0_1_2(p *List4_Bitvec9_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec9(&(*p)[i]))
	}
	return v
}

type List8589934592_Bitvec9_n0_1 []Bitvec9

func (*List8589934592_Bitvec9_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Bitvec9_n0_1() *Sch        { return lens(sList(sch_Bitvec9(), 8589934592, 1), 0, 1) }
func set_List8589934592_Bitvec9_n0_1(p *List8589934592_Bitvec9_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Bitvec9_n0_1, n+1)
			set_Bitvec9(&(*p)[n], junk(sch_Bitvec9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec9(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Bitvec9_n0_1(p *List8589934592_Bitvec9_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec9(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Bitvec9() *Sch { return sVec(sch_Vec1_Bitvec9(), 2) }
func set_Vec2_Vec1_Bitvec9(p *[2][1]Bitvec9, v *Val) {
	for i := range p {
		set_Vec1_Bitvec9(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Bitvec9(p *[2][1]Bitvec9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Bitvec9(&p[i]))
	}
	return v
}

type List2_Vec2_Bitvec9_n0_1 [][2]Bitvec9

func (*List2_Vec2_Bitvec9_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bitvec9_n0_1() *Sch        { return lens(sList(sch_Vec2_Bitvec9(), 2, 1), 0, 1) }
func set_List2_Vec2_Bitvec9_n0_1(p *List2_Vec2_Bitvec9_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bitvec9_n0_1, n+1)
			set_Vec2_Bitvec9(&(*p)[n], junk(sch_Vec2_Bitvec9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bitvec9(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bitvec9_n0_1(p *List2_Vec2_Bitvec9_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bitvec9(&(*p)[i]))
	}
	return v
}

type List2_Bitvec9_n0_1 []Bitvec9

func (*List2_Bitvec9_n0_1) Limit() uint64 { return 2 }
func sch_List2_Bitvec9_n0_1() *Sch        { return lens(sList(sch_Bitvec9(), 2, 1), 0, 1) }
func set_List2_Bitvec9_n0_1(p *List2_Bitvec9_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bitvec9_n0_1, n+1)
			set_Bitvec9(&(*p)[n], junk(sch_Bitvec9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec9(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bitvec9_n0_1(p *List2_Bitvec9_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec9(&(*p)[i]))
	}
	return v
}

type List2_List2_Bitvec9_n0_1_n0_2 []List2_Bitvec9_n0_1

func (*List2_List2_Bitvec9_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Bitvec9_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Bitvec9_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Bitvec9_n0_1_n0_2(p *List2_List2_Bitvec9_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bitvec9_n0_1_n0_2, n+1)
			set_List2_Bitvec9_n0_1(&(*p)[n], junk(sch_List2_Bitvec9_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bitvec9_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bitvec9_n0_1_n0_2(p *List2_List2_Bitvec9_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bitvec9_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Bitvec9 struct {
	X Bitvec9
	Y Bytes2_g1
}

func sch_SqI_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec9(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Bitvec9(p *SqI_Bitvec9, v *Val) {
	set_Bitvec9(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Bitvec9(p *SqI_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_Bitvec9(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Bitvec9 struct {
	H uint16
	I SqI_Bitvec9 `ssz:"squash"`
	T Bitvec9
}

func sch_Sq_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bitvec9(), sch_Bytes2_g1(), sch_Bitvec9()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Bitvec9(p *Sq_Bitvec9, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Bitvec9(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Bitvec9(&p.T, v.Elems[3])
}
func get_Sq_Bitvec9(p *Sq_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Bitvec9(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Bitvec9(&p.T)}}
}

type EmI_Bitvec9 struct {
	X uint8
	Y Bitvec9
}

func sch_EmI_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec9()}, Names: []string{"X", "Y"}}
}
func set_EmI_Bitvec9(p *EmI_Bitvec9, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Bitvec9(&p.Y, v.Elems[1])
}
func get_EmI_Bitvec9(p *EmI_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Bitvec9(&p.Y)}}
}

type Em_Bitvec9 struct {
	EmI_Bitvec9
	T Bytes2_g1
}

func sch_Em_Bitvec9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec9(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Bitvec9(p *Em_Bitvec9, v *Val) {
	set_U8(&p.EmI_Bitvec9.X, v.Elems[0])
	set_Bitvec9(&p.EmI_Bitvec9.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Bitvec9(p *Em_Bitvec9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Bitvec9.X), get_Bitvec9(&p.EmI_Bitvec9.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Bitvec17 struct {
	A Bitvec17
}

func sch_S1_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec17()}, Names: []string{"A"}}
}
func set_S1_Bitvec17(p *S1_Bitvec17, v *Val) {
	set_Bitvec17(&p.A, v.Elems[0])
}
func get_S1_Bitvec17(p *S1_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_Bitvec17(&p.A)}}
}

type S3_Bitvec17 struct {
	A uint8
	B Bitvec17
	C uint16
}

func sch_S3_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec17(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Bitvec17(p *S3_Bitvec17, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bitvec17(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Bitvec17(p *S3_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bitvec17(&p.B), get_U16(&p.C)}}
}

type SV_Bitvec17 struct {
	A Bitvec17
	B Bytes2_g1
	C Bitvec17
	D Bytes2_g1
}

func sch_SV_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec17(), sch_Bytes2_g1(), sch_Bitvec17(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Bitvec17(p *SV_Bitvec17, v *Val) {
	set_Bitvec17(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Bitvec17(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Bitvec17(p *SV_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_Bitvec17(&p.A), get_Bytes2_g1(&p.B), get_Bitvec17(&p.C), get_Bytes2_g1(&p.D)}}
}
func sch_Ptr_Bitvec17() *Sch { return sch_Bitvec17() }
func set_Ptr_Bitvec17(p **Bitvec17, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bitvec17)
	}
	set_Bitvec17(*p, v)
}
func get_Ptr_Bitvec17(p **Bitvec17) *Val { return get_Bitvec17(*p) }

type SP_Bitvec17 struct {
	A uint8
	B *Bitvec17
	C Bytes2_g1
}

func sch_SP_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bitvec17(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Bitvec17(p *SP_Bitvec17, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Bitvec17(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Bitvec17(p *SP_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Bitvec17(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Bitvec17() *Sch { return sVec(sch_Bitvec17(), 1) }
func set_Vec1_Bitvec17(p *[1]Bitvec17, v *Val) {
	for i := range p {
		set_Bitvec17(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bitvec17(p *[1]Bitvec17) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitvec17(&p[i]))
	}
	return v
}
func sch_Vec2_Bitvec17() *Sch { return sVec(sch_Bitvec17(), 2) }
func set_Vec2_Bitvec17(p *[2]Bitvec17, v *Val) {
	for i := range p {
		set_Bitvec17(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bitvec17(p *[2]Bitvec17) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitvec17(&p[i]))
	}
	return v
}

type List4_Bitvec17_n0_1_2 []Bitvec17

func (*List4_Bitvec17_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Bitvec17_n0_1_2() *Sch        { return lens(sList(sch_Bitvec17(), 4, 2), 0, 1, 2) }
func set_List4_Bitvec17_n0_1_2(p *List4_Bitvec17_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Bitvec17_n0_1_2, n+1)
			set_Bitvec17(&(*p)[n], junk(sch_Bitvec17()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec17(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Bitvec17_n0_1_2(p *List4_Bitvec17_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec17(&(*p)[i]))
	}
	return v
}

type List8589934592_Bitvec17_n0_1 []Bitvec17

func (*List8589934592_Bitvec17_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Bitvec17_n0_1() *Sch        { return lens(sList(sch_Bitvec17(), 8589934592, 1), 0, 1) }
func set_List8589934592_Bitvec17_n0_1(p *List8589934592_Bitvec17_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Bitvec17_n0_1, n+1)
			set_Bitvec17(&(*p)[n], junk(sch_Bitvec17()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec17(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Bitvec17_n0_1(p *List8589934592_Bitvec17_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec17(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Bitvec17() *Sch { return sVec(sch_Vec1_Bitvec17(), 2) }
func set_Vec2_Vec1_Bitvec17(p *[2][1]Bitvec17, v *Val) {
	for i := range p {
		set_Vec1_Bitvec17(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Bitvec17(p *[2][1]Bitvec17) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Bitvec17(&p[i]))
	}
	return v
}

type List2_Vec2_Bitvec17_n0_1 [][2]Bitvec17

func (*List2_Vec2_Bitvec17_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bitvec17_n0_1() *Sch        { return lens(sList(sch_Vec2_Bitvec17(), 2, 1), 0, 1) }
func set_List2_Vec2_Bitvec17_n0_1(p *List2_Vec2_Bitvec17_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bitvec17_n0_1, n+1)
			set_Vec2_Bitvec17(&(*p)[n], junk(sch_Vec2_Bitvec17()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bitvec17(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bitvec17_n0_1(p *List2_Vec2_Bitvec17_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bitvec17(&(*p)[i]))
	}
	return v
}

type List2_Bitvec17_n0_1 []Bitvec17

func (*List2_Bitvec17_n0_1) Limit() uint64 { return 2 }
func sch_List2_Bitvec17_n0_1() *Sch        { return lens(sList(sch_Bitvec17(), 2, 1), 0, 1) }
func set_List2_Bitvec17_n0_1(p *List2_Bitvec17_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bitvec17_n0_1, n+1)
			set_Bitvec17(&(*p)[n], junk(sch_Bitvec17()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitvec17(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bitvec17_n0_1(p *List2_Bitvec17_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitvec17(&(*p)[i]))
	}
	return v
}

type List2_List2_Bitvec17_n0_1_n0_2 []List2_Bitvec17_n0_1

func (*List2_List2_Bitvec17_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Bitvec17_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Bitvec17_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Bitvec17_n0_1_n0_2(p *List2_List2_Bitvec17_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bitvec17_n0_1_n0_2, n+1)
			set_List2_Bitvec17_n0_1(&(*p)[n], junk(sch_List2_Bitvec17_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bitvec17_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bitvec17_n0_1_n0_2(p *List2_List2_Bitvec17_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bitvec17_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Bitvec17 struct {
	X Bitvec17
	Y Bytes2_g1
}

func sch_SqI_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitvec17(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Bitvec17(p *SqI_Bitvec17, v *Val) {
	set_Bitvec17(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Bitvec17(p *SqI_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_Bitvec17(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Bitvec17 struct {
	H uint16
	I SqI_Bitvec17 `ssz:"squash"`
	T Bitvec17
}

func sch_Sq_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bitvec17(), sch_Bytes2_g1(), sch_Bitvec17()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Bitvec17(p *Sq_Bitvec17, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Bitvec17(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Bitvec17(&p.T, v.Elems[3])
}
func get_Sq_Bitvec17(p *Sq_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Bitvec17(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Bitvec17(&p.T)}}
}

type EmI_Bitvec17 struct {
	X uint8
	Y Bitvec17
}

func sch_EmI_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec17()}, Names: []string{"X", "Y"}}
}
func set_EmI_Bitvec17(p *EmI_Bitvec17, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Bitvec17(&p.Y, v.Elems[1])
}
func get_EmI_Bitvec17(p *EmI_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Bitvec17(&p.Y)}}
}

type Em_Bitvec17 struct {
	EmI_Bitvec17
	T Bytes2_g1
}

func sch_Em_Bitvec17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitvec17(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Bitvec17(p *Em_Bitvec17, v *Val) {
	set_U8(&p.EmI_Bitvec17.X, v.Elems[0])
	set_Bitvec17(&p.EmI_Bitvec17.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Bitvec17(p *Em_Bitvec17) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Bitvec17.X), get_Bitvec17(&p.EmI_Bitvec17.Y), get_Bytes2_g1(&p.T)}}
}

type Bitlist9_n0_1_8_9 []byte

func (b *Bitlist9_n0_1_8_9) Limit() uint64 { return 9 }
func (b Bitlist9_n0_1_8_9) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist9_n0_1_8_9() *Sch {
	s := lens(sBitlist(9, 9), 0, 1, 8, 9)
	s.Print = func(v *Val) []byte {
		var x Bitlist9_n0_1_8_9
		set_Bitlist9_n0_1_8_9(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist9_n0_1_8_9)(nil)))
	}
	return s
}
func set_Bitlist9_n0_1_8_9(p *Bitlist9_n0_1_8_9, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist9_n0_1_8_9(), v))
}
func get_Bitlist9_n0_1_8_9(p *Bitlist9_n0_1_8_9) *Val { return getBitlist(*p) }

type S1_Bitlist9_n0_1_8_9 struct {
	A Bitlist9_n0_1_8_9
}

func sch_S1_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitlist9_n0_1_8_9()}, Names: []string{"A"}}
}
func set_S1_Bitlist9_n0_1_8_9(p *S1_Bitlist9_n0_1_8_9, v *Val) {
	set_Bitlist9_n0_1_8_9(&p.A, v.Elems[0])
}
func get_S1_Bitlist9_n0_1_8_9(p *S1_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_Bitlist9_n0_1_8_9(&p.A)}}
}

type S3_Bitlist9_n0_1_8_9 struct {
	A uint8
	B Bitlist9_n0_1_8_9
	C uint16
}

func sch_S3_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitlist9_n0_1_8_9(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Bitlist9_n0_1_8_9(p *S3_Bitlist9_n0_1_8_9, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bitlist9_n0_1_8_9(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Bitlist9_n0_1_8_9(p *S3_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bitlist9_n0_1_8_9(&p.B), get_U16(&p.C)}}
}

type SV_Bitlist9_n0_1_8_9 struct {
	A Bitlist9_n0_1_8_9
	B Bytes2_g1
	C Bitlist9_n0_1_8_9
}

func sch_SV_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitlist9_n0_1_8_9(), sch_Bytes2_g1(), sch_Bitlist9_n0_1_8_9()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Bitlist9_n0_1_8_9(p *SV_Bitlist9_n0_1_8_9, v *Val) {
	set_Bitlist9_n0_1_8_9(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Bitlist9_n0_1_8_9(&p.C, v.Elems[2])
}
func get_SV_Bitlist9_n0_1_8_9(p *SV_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_Bitlist9_n0_1_8_9(&p.A), get_Bytes2_g1(&p.B), get_Bitlist9_n0_1_8_9(&p.C)}}
}
func sch_Ptr_Bitlist9_n0_1_8_9() *Sch { return sch_Bitlist9_n0_1_8_9() }
func set_Ptr_Bitlist9_n0_1_8_9(p **Bitlist9_n0_1_8_9, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bitlist9_n0_1_8_9)
	}
	set_Bitlist9_n0_1_8_9(*p, v)
}
func get_Ptr_Bitlist9_n0_1_8_9(p **Bitlist9_n0_1_8_9) *Val { return get_Bitlist9_n0_1_8_9(*p) }

type SP_Bitlist9_n0_1_8_9 struct {
	A Bytes2_g1
	B *Bitlist9_n0_1_8_9
	C uint8
}

func sch_SP_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Bitlist9_n0_1_8_9(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Bitlist9_n0_1_8_9(p *SP_Bitlist9_n0_1_8_9, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Bitlist9_n0_1_8_9(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Bitlist9_n0_1_8_9(p *SP_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Bitlist9_n0_1_8_9(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Bitlist9_n0_1_8_9() *Sch { return sVec(sch_Bitlist9_n0_1_8_9(), 1) }
func set_Vec1_Bitlist9_n0_1_8_9(p *[1]Bitlist9_n0_1_8_9, v *Val) {
	for i := range p {
		set_Bitlist9_n0_1_8_9(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bitlist9_n0_1_8_9(p *[1]Bitlist9_n0_1_8_9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitlist9_n0_1_8_9(&p[i]))
	}
	return v
}
func sch_Vec2_Bitlist9_n0_1_8_9() *Sch { return sVec(sch_Bitlist9_n0_1_8_9(), 2) }
func set_Vec2_Bitlist9_n0_1_8_9(p *[2]Bitlist9_n0_1_8_9, v *Val) {
	for i := range p {
		set_Bitlist9_n0_1_8_9(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bitlist9_n0_1_8_9(p *[2]Bitlist9_n0_1_8_9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitlist9_n0_1_8_9(&p[i]))
	}
	return v
}

type List4_Bitlist9_n0_1_8_9_n0_1_2 []Bitlist9_n0_1_8_9

func (*List4_Bitlist9_n0_1_8_9_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Bitlist9_n0_1_8_9_n0_1_2() *Sch {
	return lens(sList(sch_Bitlist9_n0_1_8_9(), 4, 2), 0, 1, 2)
}
func set_List4_Bitlist9_n0_1_8_9_n0_1_2(p *List4_Bitlist9_n0_1_8_9_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Bitlist9_n0_1_8_9_n0_1_2, n+1)
			set_Bitlist9_n0_1_8_9(&(*p)[n], junk(sch_Bitlist9_n0_1_8_9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitlist9_n0_1_8_9(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Bitlist9_n0_1_8_9_n0_1_2(p *List4_Bitlist9_n0_1_8_9_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitlist9_n0_1_8_9(&(*p)[i]))
	}
	return v
}

type List8589934592_Bitlist9_n0_1_8_9_n0_1 []Bitlist9_n0_1_8_9

func (*List8589934592_Bitlist9_n0_1_8_9_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Bitlist9_n0_1_8_9_n0_1() *Sch {
	return lens(sList(sch_Bitlist9_n0_1_8_9(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Bitlist9_n0_1_8_9_n0_1(p *List8589934592_Bitlist9_n0_1_8_9_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Bitlist9_n0_1_8_9_n0_1, n+1)
			set_Bitlist9_n0_1_8_9(&(*p)[n], junk(sch_Bitlist9_n0_1_8_9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitlist9_n0_1_8_9(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Bitlist9_n0_1_8_9_n0_1(p *List8589934592_Bitlist9_n0_1_8_9_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitlist9_n0_1_8_9(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Bitlist9_n0_1_8_9() *Sch { return sVec(sch_Vec1_Bitlist9_n0_1_8_9(), 2) }
func set_Vec2_Vec1_Bitlist9_n0_1_8_9(p *[2][1]Bitlist9_n0_1_8_9, v *Val) {
	for i := range p {
		set_Vec1_Bitlist9_n0_1_8_9(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Bitlist9_n0_1_8_9(p *[2][1]Bitlist9_n0_1_8_9) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Bitlist9_n0_1_8_9(&p[i]))
	}
	return v
}

type List2_Vec2_Bitlist9_n0_1_8_9_n0_1 [][2]Bitlist9_n0_1_8_9

func (*List2_Vec2_Bitlist9_n0_1_8_9_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bitlist9_n0_1_8_9_n0_1() *Sch {
	return lens(sList(sch_Vec2_Bitlist9_n0_1_8_9(), 2, 1), 0, 1)
}
func set_List2_Vec2_Bitlist9_n0_1_8_9_n0_1(p *List2_Vec2_Bitlist9_n0_1_8_9_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bitlist9_n0_1_8_9_n0_1, n+1)
			set_Vec2_Bitlist9_n0_1_8_9(&(*p)[n], junk(sch_Vec2_Bitlist9_n0_1_8_9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bitlist9_n0_1_8_9(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bitlist9_n0_1_8_9_n0_1(p *List2_Vec2_Bitlist9_n0_1_8_9_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bitlist9_n0_1_8_9(&(*p)[i]))
	}
	return v
}

type List2_Bitlist9_n0_1_8_9_n0_1 []Bitlist9_n0_1_8_9

func (*List2_Bitlist9_n0_1_8_9_n0_1) Limit() uint64 { return 2 }
func sch_List2_Bitlist9_n0_1_8_9_n0_1() *Sch        { return lens(sList(sch_Bitlist9_n0_1_8_9(), 2, 1), 0, 1) }
func set_List2_Bitlist9_n0_1_8_9_n0_1(p *List2_Bitlist9_n0_1_8_9_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bitlist9_n0_1_8_9_n0_1, n+1)
			set_Bitlist9_n0_1_8_9(&(*p)[n], junk(sch_Bitlist9_n0_1_8_9()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitlist9_n0_1_8_9(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bitlist9_n0_1_8_9_n0_1(p *List2_Bitlist9_n0_1_8_9_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitlist9_n0_1_8_9(&(*p)[i]))
	}
	return v
}

type List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2 []List2_Bitlist9_n0_1_8_9_n0_1

func (*List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Bitlist9_n0_1_8_9_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2(p *List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2, n+1)
			set_List2_Bitlist9_n0_1_8_9_n0_1(&(*p)[n], junk(sch_List2_Bitlist9_n0_1_8_9_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bitlist9_n0_1_8_9_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2(p *List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bitlist9_n0_1_8_9_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Bitlist9_n0_1_8_9 struct {
	X Bitlist9_n0_1_8_9
	Y Bytes2_g1
}

func sch_SqI_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitlist9_n0_1_8_9(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Bitlist9_n0_1_8_9(p *SqI_Bitlist9_n0_1_8_9, v *Val) {
	set_Bitlist9_n0_1_8_9(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Bitlist9_n0_1_8_9(p *SqI_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_Bitlist9_n0_1_8_9(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Bitlist9_n0_1_8_9 struct {
	H uint16
	I SqI_Bitlist9_n0_1_8_9 `ssz:"squash"`
	T Bitlist9_n0_1_8_9
}

func sch_Sq_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bitlist9_n0_1_8_9(), sch_Bytes2_g1(), sch_Bitlist9_n0_1_8_9()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Bitlist9_n0_1_8_9(p *Sq_Bitlist9_n0_1_8_9, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Bitlist9_n0_1_8_9(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Bitlist9_n0_1_8_9(&p.T, v.Elems[3])
}
func get_Sq_Bitlist9_n0_1_8_9(p *Sq_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Bitlist9_n0_1_8_9(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Bitlist9_n0_1_8_9(&p.T)}}
}

type EmI_Bitlist9_n0_1_8_9 struct {
	X uint8
	Y Bitlist9_n0_1_8_9
}

func sch_EmI_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitlist9_n0_1_8_9()}, Names: []string{"X", "Y"}}
}
func set_EmI_Bitlist9_n0_1_8_9(p *EmI_Bitlist9_n0_1_8_9, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Bitlist9_n0_1_8_9(&p.Y, v.Elems[1])
}
func get_EmI_Bitlist9_n0_1_8_9(p *EmI_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Bitlist9_n0_1_8_9(&p.Y)}}
}

type Em_Bitlist9_n0_1_8_9 struct {
	EmI_Bitlist9_n0_1_8_9
	T Bytes2_g1
}

func sch_Em_Bitlist9_n0_1_8_9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bitlist9_n0_1_8_9(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Bitlist9_n0_1_8_9(p *Em_Bitlist9_n0_1_8_9, v *Val) {
	set_U8(&p.EmI_Bitlist9_n0_1_8_9.X, v.Elems[0])
	set_Bitlist9_n0_1_8_9(&p.EmI_Bitlist9_n0_1_8_9.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Bitlist9_n0_1_8_9(p *Em_Bitlist9_n0_1_8_9) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Bitlist9_n0_1_8_9.X), get_Bitlist9_n0_1_8_9(&p.EmI_Bitlist9_n0_1_8_9.Y), get_Bytes2_g1(&p.T)}}
}

type Bytes5_n0_1_3 []byte

func (*Bytes5_n0_1_3) Limit() uint64 { return 5 }
func sch_Bytes5_n0_1_3() *Sch {
	s := lens(sBytes(5, 3), 0, 1, 3)
	s.Print = func(v *Val) []byte {
		var x Bytes5_n0_1_3
		set_Bytes5_n0_1_3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes5_n0_1_3)(nil)))
	}
	return s
}
func set_Bytes5_n0_1_3(p *Bytes5_n0_1_3, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes5_n0_1_3(p *Bytes5_n0_1_3) *Val    { return &Val{B: clone(*p)} }

type S1_Bytes5_n0_1_3 struct {
	A Bytes5_n0_1_3
}

func sch_S1_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes5_n0_1_3()}, Names: []string{"A"}}
}
func set_S1_Bytes5_n0_1_3(p *S1_Bytes5_n0_1_3, v *Val) {
	set_Bytes5_n0_1_3(&p.A, v.Elems[0])
}
func get_S1_Bytes5_n0_1_3(p *S1_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_Bytes5_n0_1_3(&p.A)}}
}

type S3_Bytes5_n0_1_3 struct {
	A uint8
	B Bytes5_n0_1_3
	C uint16
}

func sch_S3_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes5_n0_1_3(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Bytes5_n0_1_3(p *S3_Bytes5_n0_1_3, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bytes5_n0_1_3(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Bytes5_n0_1_3(p *S3_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bytes5_n0_1_3(&p.B), get_U16(&p.C)}}
}

type SV_Bytes5_n0_1_3 struct {
	A Bytes5_n0_1_3
	B Bytes2_g1
	C Bytes5_n0_1_3
}

func sch_SV_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes5_n0_1_3(), sch_Bytes2_g1(), sch_Bytes5_n0_1_3()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Bytes5_n0_1_3(p *SV_Bytes5_n0_1_3, v *Val) {
	set_Bytes5_n0_1_3(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Bytes5_n0_1_3(&p.C, v.Elems[2])
}
func get_SV_Bytes5_n0_1_3(p *SV_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_Bytes5_n0_1_3(&p.A), get_Bytes2_g1(&p.B), get_Bytes5_n0_1_3(&p.C)}}
}
func sch_Ptr_Bytes5_n0_1_3() *Sch { return sch_Bytes5_n0_1_3() }
func set_Ptr_Bytes5_n0_1_3(p **Bytes5_n0_1_3, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bytes5_n0_1_3)
	}
	set_Bytes5_n0_1_3(*p, v)
}
func get_Ptr_Bytes5_n0_1_3(p **Bytes5_n0_1_3) *Val { return get_Bytes5_n0_1_3(*p) }

type SP_Bytes5_n0_1_3 struct {
	A Bytes2_g1
	B *Bytes5_n0_1_3
	C uint8
}

func sch_SP_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Bytes5_n0_1_3(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Bytes5_n0_1_3(p *SP_Bytes5_n0_1_3, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Bytes5_n0_1_3(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Bytes5_n0_1_3(p *SP_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Bytes5_n0_1_3(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Bytes5_n0_1_3() *Sch { return sVec(sch_Bytes5_n0_1_3(), 1) }
func set_Vec1_Bytes5_n0_1_3(p *[1]Bytes5_n0_1_3, v *Val) {
	for i := range p {
		set_Bytes5_n0_1_3(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bytes5_n0_1_3(p *[1]Bytes5_n0_1_3) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes5_n0_1_3(&p[i]))
	}
	return v
}
func sch_Vec2_Bytes5_n0_1_3() *Sch { return sVec(sch_Bytes5_n0_1_3(), 2) }
func set_Vec2_Bytes5_n0_1_3(p *[2]Bytes5_n0_1_3, v *Val) {
	for i := range p {
		set_Bytes5_n0_1_3(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bytes5_n0_1_3(p *[2]Bytes5_n0_1_3) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes5_n0_1_3(&p[i]))
	}
	return v
}

type List4_Bytes5_n0_1_3_n0_1_2 []Bytes5_n0_1_3

func (*List4_Bytes5_n0_1_3_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Bytes5_n0_1_3_n0_1_2() *Sch        { return lens(sList(sch_Bytes5_n0_1_3(), 4, 2), 0, 1, 2) }
func set_List4_Bytes5_n0_1_3_n0_1_2(p *List4_Bytes5_n0_1_3_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Bytes5_n0_1_3_n0_1_2, n+1)
			set_Bytes5_n0_1_3(&(*p)[n], junk(sch_Bytes5_n0_1_3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes5_n0_1_3(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Bytes5_n0_1_3_n0_1_2(p *List4_Bytes5_n0_1_3_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes5_n0_1_3(&(*p)[i]))
	}
	return v
}

type List8589934592_Bytes5_n0_1_3_n0_1 []Bytes5_n0_1_3

func (*List8589934592_Bytes5_n0_1_3_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Bytes5_n0_1_3_n0_1() *Sch {
	return lens(sList(sch_Bytes5_n0_1_3(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Bytes5_n0_1_3_n0_1(p *List8589934592_Bytes5_n0_1_3_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Bytes5_n0_1_3_n0_1, n+1)
			set_Bytes5_n0_1_3(&(*p)[n], junk(sch_Bytes5_n0_1_3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes5_n0_1_3(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Bytes5_n0_1_3_n0_1(p *List8589934592_Bytes5_n0_1_3_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes5_n0_1_3(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Bytes5_n0_1_3() *Sch { return sVec(sch_Vec1_Bytes5_n0_1_3(), 2) }
func set_Vec2_Vec1_Bytes5_n0_1_3(p *[2][1]Bytes5_n0_1_3, v *Val) {
	for i := range p {
		set_Vec1_Bytes5_n0_1_3(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Bytes5_n0_1_3(p *[2][1]Bytes5_n0_1_3) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Bytes5_n0_1_3(&p[i]))
	}
	return v
}

type List2_Vec2_Bytes5_n0_1_3_n0_1 [][2]Bytes5_n0_1_3

func (*List2_Vec2_Bytes5_n0_1_3_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bytes5_n0_1_3_n0_1() *Sch {
	return lens(sList(sch_Vec2_Bytes5_n0_1_3(), 2, 1), 0, 1)
}
func set_List2_Vec2_Bytes5_n0_1_3_n0_1(p *List2_Vec2_Bytes5_n0_1_3_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bytes5_n0_1_3_n0_1, n+1)
			set_Vec2_Bytes5_n0_1_3(&(*p)[n], junk(sch_Vec2_Bytes5_n0_1_3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bytes5_n0_1_3(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bytes5_n0_1_3_n0_1(p *List2_Vec2_Bytes5_n0_1_3_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bytes5_n0_1_3(&(*p)[i]))
	}
	return v
}

type List2_Bytes5_n0_1_3_n0_1 []Bytes5_n0_1_3

func (*List2_Bytes5_n0_1_3_n0_1) Limit() uint64 { return 2 }
func sch_List2_Bytes5_n0_1_3_n0_1() *Sch        { return lens(sList(sch_Bytes5_n0_1_3(), 2, 1), 0, 1) }
func set_List2_Bytes5_n0_1_3_n0_1(p *List2_Bytes5_n0_1_3_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bytes5_n0_1_3_n0_1, n+1)
			set_Bytes5_n0_1_3(&(*p)[n], junk(sch_Bytes5_n0_1_3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes5_n0_1_3(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bytes5_n0_1_3_n0_1(p *List2_Bytes5_n0_1_3_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes5_n0_1_3(&(*p)[i]))
	}
	return v
}

type List2_List2_Bytes5_n0_1_3_n0_1_n0_2 []List2_Bytes5_n0_1_3_n0_1

func (*List2_List2_Bytes5_n0_1_3_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Bytes5_n0_1_3_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Bytes5_n0_1_3_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Bytes5_n0_1_3_n0_1_n0_2(p *List2_List2_Bytes5_n0_1_3_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bytes5_n0_1_3_n0_1_n0_2, n+1)
			set_List2_Bytes5_n0_1_3_n0_1(&(*p)[n], junk(sch_List2_Bytes5_n0_1_3_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bytes5_n0_1_3_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bytes5_n0_1_3_n0_1_n0_2(p *List2_List2_Bytes5_n0_1_3_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bytes5_n0_1_3_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Bytes5_n0_1_3 struct {
	X Bytes5_n0_1_3
	Y Bytes2_g1
}

func sch_SqI_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes5_n0_1_3(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Bytes5_n0_1_3(p *SqI_Bytes5_n0_1_3, v *Val) {
	set_Bytes5_n0_1_3(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Bytes5_n0_1_3(p *SqI_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_Bytes5_n0_1_3(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Bytes5_n0_1_3 struct {
	H uint16
	I SqI_Bytes5_n0_1_3 `ssz:"squash"`
	T Bytes5_n0_1_3
}

func sch_Sq_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bytes5_n0_1_3(), sch_Bytes2_g1(), sch_Bytes5_n0_1_3()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Bytes5_n0_1_3(p *Sq_Bytes5_n0_1_3, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Bytes5_n0_1_3(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Bytes5_n0_1_3(&p.T, v.Elems[3])
}
func get_Sq_Bytes5_n0_1_3(p *Sq_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Bytes5_n0_1_3(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Bytes5_n0_1_3(&p.T)}}
}

type EmI_Bytes5_n0_1_3 struct {
	X uint8
	Y Bytes5_n0_1_3
}

func sch_EmI_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes5_n0_1_3()}, Names: []string{"X", "Y"}}
}
func set_EmI_Bytes5_n0_1_3(p *EmI_Bytes5_n0_1_3, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Bytes5_n0_1_3(&p.Y, v.Elems[1])
}
func get_EmI_Bytes5_n0_1_3(p *EmI_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Bytes5_n0_1_3(&p.Y)}}
}

type Em_Bytes5_n0_1_3 struct {
	EmI_Bytes5_n0_1_3
	T Bytes2_g1
}

func sch_Em_Bytes5_n0_1_3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes5_n0_1_3(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Bytes5_n0_1_3(p *Em_Bytes5_n0_1_3, v *Val) {
	set_U8(&p.EmI_Bytes5_n0_1_3.X, v.Elems[0])
	set_Bytes5_n0_1_3(&p.EmI_Bytes5_n0_1_3.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Bytes5_n0_1_3(p *Em_Bytes5_n0_1_3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Bytes5_n0_1_3.X), get_Bytes5_n0_1_3(&p.EmI_Bytes5_n0_1_3.Y), get_Bytes2_g1(&p.T)}}
}

type List3_U16_n0_1_2 []uint16

func (*List3_U16_n0_1_2) Limit() uint64 { return 3 }
func sch_List3_U16_n0_1_2() *Sch        { return lens(sList(sch_U16(), 3, 2), 0, 1, 2) }
func set_List3_U16_n0_1_2(p *List3_U16_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_U16_n0_1_2, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List3_U16_n0_1_2(p *List3_U16_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type S1_List3_U16_n0_1_2 struct {
	A List3_U16_n0_1_2
}

func sch_S1_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_U16_n0_1_2()}, Names: []string{"A"}}
}
func set_S1_List3_U16_n0_1_2(p *S1_List3_U16_n0_1_2, v *Val) {
	set_List3_U16_n0_1_2(&p.A, v.Elems[0])
}
func get_S1_List3_U16_n0_1_2(p *S1_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_List3_U16_n0_1_2(&p.A)}}
}

type S3_List3_U16_n0_1_2 struct {
	A uint8
	B List3_U16_n0_1_2
	C uint16
}

func sch_S3_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_U16_n0_1_2(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_List3_U16_n0_1_2(p *S3_List3_U16_n0_1_2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_List3_U16_n0_1_2(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_List3_U16_n0_1_2(p *S3_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_List3_U16_n0_1_2(&p.B), get_U16(&p.C)}}
}

type SV_List3_U16_n0_1_2 struct {
	A List3_U16_n0_1_2
	B Bytes2_g1
	C List3_U16_n0_1_2
}

func sch_SV_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_U16_n0_1_2(), sch_Bytes2_g1(), sch_List3_U16_n0_1_2()}, Names: []string{"A", "B", "C"}}
}
func set_SV_List3_U16_n0_1_2(p *SV_List3_U16_n0_1_2, v *Val) {
	set_List3_U16_n0_1_2(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_List3_U16_n0_1_2(&p.C, v.Elems[2])
}
func get_SV_List3_U16_n0_1_2(p *SV_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_List3_U16_n0_1_2(&p.A), get_Bytes2_g1(&p.B), get_List3_U16_n0_1_2(&p.C)}}
}
func sch_Ptr_List3_U16_n0_1_2() *Sch { return sch_List3_U16_n0_1_2() }
func set_Ptr_List3_U16_n0_1_2(p **List3_U16_n0_1_2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List3_U16_n0_1_2)
	}
	set_List3_U16_n0_1_2(*p, v)
}
func get_Ptr_List3_U16_n0_1_2(p **List3_U16_n0_1_2) *Val { return get_List3_U16_n0_1_2(*p) }

type SP_List3_U16_n0_1_2 struct {
	A Bytes2_g1
	B *List3_U16_n0_1_2
	C uint8
}

func sch_SP_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_List3_U16_n0_1_2(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_List3_U16_n0_1_2(p *SP_List3_U16_n0_1_2, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_List3_U16_n0_1_2(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_List3_U16_n0_1_2(p *SP_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_List3_U16_n0_1_2(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_List3_U16_n0_1_2() *Sch { return sVec(sch_List3_U16_n0_1_2(), 1) }
func set_Vec1_List3_U16_n0_1_2(p *[1]List3_U16_n0_1_2, v *Val) {
	for i := range p {
		set_List3_U16_n0_1_2(&p[i], v.Elems[i])
	}
}
func get_Vec1_List3_U16_n0_1_2(p *[1]List3_U16_n0_1_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_U16_n0_1_2(&p[i]))
	}
	return v
}
func sch_Vec2_List3_U16_n0_1_2() *Sch { return sVec(sch_List3_U16_n0_1_2(), 2) }
func set_Vec2_List3_U16_n0_1_2(p *[2]List3_U16_n0_1_2, v *Val) {
	for i := range p {
		set_List3_U16_n0_1_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_List3_U16_n0_1_2(p *[2]List3_U16_n0_1_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_U16_n0_1_2(&p[i]))
	}
	return v
}

type List4_List3_U16_n0_1_2_n0_1_2 []List3_U16_n0_1_2

func (*List4_List3_U16_n0_1_2_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_List3_U16_n0_1_2_n0_1_2() *Sch {
	return lens(sList(sch_List3_U16_n0_1_2(), 4, 2), 0, 1, 2)
}
func set_List4_List3_U16_n0_1_2_n0_1_2(p *List4_List3_U16_n0_1_2_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_List3_U16_n0_1_2_n0_1_2, n+1)
			set_List3_U16_n0_1_2(&(*p)[n], junk(sch_List3_U16_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_U16_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List4_List3_U16_n0_1_2_n0_1_2(p *List4_List3_U16_n0_1_2_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_U16_n0_1_2(&(*p)[i]))
	}
	return v
}

type List8589934592_List3_U16_n0_1_2_n0_1 []List3_U16_n0_1_2

func (*List8589934592_List3_U16_n0_1_2_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_List3_U16_n0_1_2_n0_1() *Sch {
	return lens(sList(sch_List3_U16_n0_1_2(), 8589934592, 1), 0, 1)
}
func set_List8589934592_List3_U16_n0_1_2_n0_1(p *List8589934592_List3_U16_n0_1_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_List3_U16_n0_1_2_n0_1, n+1)
			set_List3_U16_n0_1_2(&(*p)[n], junk(sch_List3_U16_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_U16_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_List3_U16_n0_1_2_n0_1(p *List8589934592_List3_U16_n0_1_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_U16_n0_1_2(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_List3_U16_n0_1_2() *Sch { return sVec(sch_Vec1_List3_U16_n0_1_2(), 2) }
func set_Vec2_Vec1_List3_U16_n0_1_2(p *[2][1]List3_U16_n0_1_2, v *Val) {
	for i := range p {
		set_Vec1_List3_U16_n0_1_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_List3_U16_n0_1_2(p *[2][1]List3_U16_n0_1_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_List3_U16_n0_1_2(&p[i]))
	}
	return v
}

type List2_Vec2_List3_U16_n0_1_2_n0_1 [][2]List3_U16_n0_1_2

func (*List2_Vec2_List3_U16_n0_1_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_List3_U16_n0_1_2_n0_1() *Sch {
	return lens(sList(sch_Vec2_List3_U16_n0_1_2(), 2, 1), 0, 1)
}
func set_List2_Vec2_List3_U16_n0_1_2_n0_1(p *List2_Vec2_List3_U16_n0_1_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_List3_U16_n0_1_2_n0_1, n+1)
			set_Vec2_List3_U16_n0_1_2(&(*p)[n], junk(sch_Vec2_List3_U16_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_List3_U16_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_List3_U16_n0_1_2_n0_1(p *List2_Vec2_List3_U16_n0_1_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_List3_U16_n0_1_2(&(*p)[i]))
	}
	return v
}

type List2_List3_U16_n0_1_2_n0_1 []List3_U16_n0_1_2

func (*List2_List3_U16_n0_1_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_List3_U16_n0_1_2_n0_1() *Sch        { return lens(sList(sch_List3_U16_n0_1_2(), 2, 1), 0, 1) }
func set_List2_List3_U16_n0_1_2_n0_1(p *List2_List3_U16_n0_1_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List3_U16_n0_1_2_n0_1, n+1)
			set_List3_U16_n0_1_2(&(*p)[n], junk(sch_List3_U16_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_U16_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List3_U16_n0_1_2_n0_1(p *List2_List3_U16_n0_1_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_U16_n0_1_2(&(*p)[i]))
	}
	return v
}

type List2_List2_List3_U16_n0_1_2_n0_1_n0_2 []List2_List3_U16_n0_1_2_n0_1

func (*List2_List2_List3_U16_n0_1_2_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_List3_U16_n0_1_2_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_List3_U16_n0_1_2_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_List3_U16_n0_1_2_n0_1_n0_2(p *List2_List2_List3_U16_n0_1_2_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List3_U16_n0_1_2_n0_1_n0_2, n+1)
			set_List2_List3_U16_n0_1_2_n0_1(&(*p)[n], junk(sch_List2_List3_U16_n0_1_2_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List3_U16_n0_1_2_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List3_U16_n0_1_2_n0_1_n0_2(p *List2_List2_List3_U16_n0_1_2_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List3_U16_n0_1_2_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_List3_U16_n0_1_2 struct {
	X List3_U16_n0_1_2
	Y Bytes2_g1
}

func sch_SqI_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_U16_n0_1_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_List3_U16_n0_1_2(p *SqI_List3_U16_n0_1_2, v *Val) {
	set_List3_U16_n0_1_2(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_List3_U16_n0_1_2(p *SqI_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_List3_U16_n0_1_2(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_List3_U16_n0_1_2 struct {
	H uint16
	I SqI_List3_U16_n0_1_2 `ssz:"squash"`
	T List3_U16_n0_1_2
}

func sch_Sq_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_List3_U16_n0_1_2(), sch_Bytes2_g1(), sch_List3_U16_n0_1_2()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_List3_U16_n0_1_2(p *Sq_List3_U16_n0_1_2, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_List3_U16_n0_1_2(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_List3_U16_n0_1_2(&p.T, v.Elems[3])
}
func get_Sq_List3_U16_n0_1_2(p *Sq_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_List3_U16_n0_1_2(&p.I.X), get_Bytes2_g1(&p.I.Y), get_List3_U16_n0_1_2(&p.T)}}
}

type EmI_List3_U16_n0_1_2 struct {
	X uint8
	Y List3_U16_n0_1_2
}

func sch_EmI_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_U16_n0_1_2()}, Names: []string{"X", "Y"}}
}
func set_EmI_List3_U16_n0_1_2(p *EmI_List3_U16_n0_1_2, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_List3_U16_n0_1_2(&p.Y, v.Elems[1])
}
func get_EmI_List3_U16_n0_1_2(p *EmI_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_List3_U16_n0_1_2(&p.Y)}}
}

type Em_List3_U16_n0_1_2 struct {
	EmI_List3_U16_n0_1_2
	T Bytes2_g1
}

func sch_Em_List3_U16_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_U16_n0_1_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_List3_U16_n0_1_2(p *Em_List3_U16_n0_1_2, v *Val) {
	set_U8(&p.EmI_List3_U16_n0_1_2.X, v.Elems[0])
	set_List3_U16_n0_1_2(&p.EmI_List3_U16_n0_1_2.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_List3_U16_n0_1_2(p *Em_List3_U16_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_List3_U16_n0_1_2.X), get_List3_U16_n0_1_2(&p.EmI_List3_U16_n0_1_2.Y), get_Bytes2_g1(&p.T)}}
}

type List3_Bool_n0_2 []bool

func (*List3_Bool_n0_2) Limit() uint64 { return 3 }
func sch_List3_Bool_n0_2() *Sch        { return lens(sList(sch_Bool(), 3, 2), 0, 2) }
func set_List3_Bool_n0_2(p *List3_Bool_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bool_n0_2, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bool_n0_2(p *List3_Bool_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type S1_List3_Bool_n0_2 struct {
	A List3_Bool_n0_2
}

func sch_S1_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Bool_n0_2()}, Names: []string{"A"}}
}
func set_S1_List3_Bool_n0_2(p *S1_List3_Bool_n0_2, v *Val) {
	set_List3_Bool_n0_2(&p.A, v.Elems[0])
}
func get_S1_List3_Bool_n0_2(p *S1_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_List3_Bool_n0_2(&p.A)}}
}

type S3_List3_Bool_n0_2 struct {
	A uint8
	B List3_Bool_n0_2
	C uint16
}

func sch_S3_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Bool_n0_2(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_List3_Bool_n0_2(p *S3_List3_Bool_n0_2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_List3_Bool_n0_2(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_List3_Bool_n0_2(p *S3_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_List3_Bool_n0_2(&p.B), get_U16(&p.C)}}
}

type SV_List3_Bool_n0_2 struct {
	A List3_Bool_n0_2
	B Bytes2_g1
	C List3_Bool_n0_2
}

func sch_SV_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Bool_n0_2(), sch_Bytes2_g1(), sch_List3_Bool_n0_2()}, Names: []string{"A", "B", "C"}}
}
func set_SV_List3_Bool_n0_2(p *SV_List3_Bool_n0_2, v *Val) {
	set_List3_Bool_n0_2(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_List3_Bool_n0_2(&p.C, v.Elems[2])
}
func get_SV_List3_Bool_n0_2(p *SV_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_List3_Bool_n0_2(&p.A), get_Bytes2_g1(&p.B), get_List3_Bool_n0_2(&p.C)}}
}
func sch_Ptr_List3_Bool_n0_2() *Sch { return sch_List3_Bool_n0_2() }
func set_Ptr_List3_Bool_n0_2(p **List3_Bool_n0_2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List3_Bool_n0_2)
	}
	set_List3_Bool_n0_2(*p, v)
}
func get_Ptr_List3_Bool_n0_2(p **List3_Bool_n0_2) *Val { return get_List3_Bool_n0_2(*p) }

type SP_List3_Bool_n0_2 struct {
	A Bytes2_g1
	B *List3_Bool_n0_2
	C uint8
}

func sch_SP_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_List3_Bool_n0_2(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_List3_Bool_n0_2(p *SP_List3_Bool_n0_2, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_List3_Bool_n0_2(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_List3_Bool_n0_2(p *SP_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_List3_Bool_n0_2(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_List3_Bool_n0_2() *Sch { return sVec(sch_List3_Bool_n0_2(), 1) }
func set_Vec1_List3_Bool_n0_2(p *[1]List3_Bool_n0_2, v *Val) {
	for i := range p {
		set_List3_Bool_n0_2(&p[i], v.Elems[i])
	}
}
func get_Vec1_List3_Bool_n0_2(p *[1]List3_Bool_n0_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_Bool_n0_2(&p[i]))
	}
	return v
}
func sch_Vec2_List3_Bool_n0_2() *Sch { return sVec(sch_List3_Bool_n0_2(), 2) }
func set_Vec2_List3_Bool_n0_2(p *[2]List3_Bool_n0_2, v *Val) {
	for i := range p {
		set_List3_Bool_n0_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_List3_Bool_n0_2(p *[2]List3_Bool_n0_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_Bool_n0_2(&p[i]))
	}
	return v
}

type List4_List3_Bool_n0_2_n0_1_2 []List3_Bool_n0_2

func (*List4_List3_Bool_n0_2_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_List3_Bool_n0_2_n0_1_2() *Sch {
	return lens(sList(sch_List3_Bool_n0_2(), 4, 2), 0, 1, 2)
}
func set_List4_List3_Bool_n0_2_n0_1_2(p *List4_List3_Bool_n0_2_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_List3_Bool_n0_2_n0_1_2, n+1)
			set_List3_Bool_n0_2(&(*p)[n], junk(sch_List3_Bool_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bool_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List4_List3_Bool_n0_2_n0_1_2(p *List4_List3_Bool_n0_2_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bool_n0_2(&(*p)[i]))
	}
	return v
}

type List8589934592_List3_Bool_n0_2_n0_1 []List3_Bool_n0_2

func (*List8589934592_List3_Bool_n0_2_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_List3_Bool_n0_2_n0_1() *Sch {
	return lens(sList(sch_List3_Bool_n0_2(), 8589934592, 1), 0, 1)
}
func set_List8589934592_List3_Bool_n0_2_n0_1(p *List8589934592_List3_Bool_n0_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_List3_Bool_n0_2_n0_1, n+1)
			set_List3_Bool_n0_2(&(*p)[n], junk(sch_List3_Bool_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bool_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_List3_Bool_n0_2_n0_1(p *List8589934592_List3_Bool_n0_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bool_n0_2(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_List3_Bool_n0_2() *Sch { return sVec(sch_Vec1_List3_Bool_n0_2(), 2) }
func set_Vec2_Vec1_List3_Bool_n0_2(p *[2][1]List3_Bool_n0_2, v *Val) {
	for i := range p {
		set_Vec1_List3_Bool_n0_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_List3_Bool_n0_2(p *[2][1]List3_Bool_n0_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_List3_Bool_n0_2(&p[i]))
	}
	return v
}

type List2_Vec2_List3_Bool_n0_2_n0_1 [][2]List3_Bool_n0_2

func (*List2_Vec2_List3_Bool_n0_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_List3_Bool_n0_2_n0_1() *Sch {
	return lens(sList(sch_Vec2_List3_Bool_n0_2(), 2, 1), 0, 1)
}
func set_List2_Vec2_List3_Bool_n0_2_n0_1(p *List2_Vec2_List3_Bool_n0_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_List3_Bool_n0_2_n0_1, n+1)
			set_Vec2_List3_Bool_n0_2(&(*p)[n], junk(sch_Vec2_List3_Bool_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_List3_Bool_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_List3_Bool_n0_2_n0_1(p *List2_Vec2_List3_Bool_n0_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_List3_Bool_n0_2(&(*p)[i]))
	}
	return v
}

type List2_List3_Bool_n0_2_n0_1 []List3_Bool_n0_2

func (*List2_List3_Bool_n0_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_List3_Bool_n0_2_n0_1() *Sch        { return lens(sList(sch_List3_Bool_n0_2(), 2, 1), 0, 1) }
func set_List2_List3_Bool_n0_2_n0_1(p *List2_List3_Bool_n0_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List3_Bool_n0_2_n0_1, n+1)
			set_List3_Bool_n0_2(&(*p)[n], junk(sch_List3_Bool_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bool_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List3_Bool_n0_2_n0_1(p *List2_List3_Bool_n0_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bool_n0_2(&(*p)[i]))
	}
	return v
}

type List2_List2_List3_Bool_n0_2_n0_1_n0_2 []List2_List3_Bool_n0_2_n0_1

func (*List2_List2_List3_Bool_n0_2_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_List3_Bool_n0_2_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_List3_Bool_n0_2_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_List3_Bool_n0_2_n0_1_n0_2(p *List2_List2_List3_Bool_n0_2_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List3_Bool_n0_2_n0_1_n0_2, n+1)
			set_List2_List3_Bool_n0_2_n0_1(&(*p)[n], junk(sch_List2_List3_Bool_n0_2_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List3_Bool_n0_2_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List3_Bool_n0_2_n0_1_n0_2(p *List2_List2_List3_Bool_n0_2_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List3_Bool_n0_2_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_List3_Bool_n0_2 struct {
	X List3_Bool_n0_2
	Y Bytes2_g1
}

func sch_SqI_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Bool_n0_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_List3_Bool_n0_2(p *SqI_List3_Bool_n0_2, v *Val) {
	set_List3_Bool_n0_2(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_List3_Bool_n0_2(p *SqI_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_List3_Bool_n0_2(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_List3_Bool_n0_2 struct {
	H uint16
	I SqI_List3_Bool_n0_2 `ssz:"squash"`
	T List3_Bool_n0_2
}

func sch_Sq_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_List3_Bool_n0_2(), sch_Bytes2_g1(), sch_List3_Bool_n0_2()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_List3_Bool_n0_2(p *Sq_List3_Bool_n0_2, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_List3_Bool_n0_2(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_List3_Bool_n0_2(&p.T, v.Elems[3])
}
func get_Sq_List3_Bool_n0_2(p *Sq_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_List3_Bool_n0_2(&p.I.X), get_Bytes2_g1(&p.I.Y), get_List3_Bool_n0_2(&p.T)}}
}

type EmI_List3_Bool_n0_2 struct {
	X uint8
	Y List3_Bool_n0_2
}

func sch_EmI_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Bool_n0_2()}, Names: []string{"X", "Y"}}
}
func set_EmI_List3_Bool_n0_2(p *EmI_List3_Bool_n0_2, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_List3_Bool_n0_2(&p.Y, v.Elems[1])
}
func get_EmI_List3_Bool_n0_2(p *EmI_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_List3_Bool_n0_2(&p.Y)}}
}

type Em_List3_Bool_n0_2 struct {
	EmI_List3_Bool_n0_2
	T Bytes2_g1
}

func sch_Em_List3_Bool_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Bool_n0_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_List3_Bool_n0_2(p *Em_List3_Bool_n0_2, v *Val) {
	set_U8(&p.EmI_List3_Bool_n0_2.X, v.Elems[0])
	set_List3_Bool_n0_2(&p.EmI_List3_Bool_n0_2.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_List3_Bool_n0_2(p *Em_List3_Bool_n0_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_List3_Bool_n0_2.X), get_List3_Bool_n0_2(&p.EmI_List3_Bool_n0_2.Y), get_Bytes2_g1(&p.T)}}
}

type List5_U64_n0_1 []uint64

func (*List5_U64_n0_1) Limit() uint64 { return 5 }
func sch_List5_U64_n0_1() *Sch        { return lens(sList(sch_U64(), 5, 1), 0, 1) }
func set_List5_U64_n0_1(p *List5_U64_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_U64_n0_1, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List5_U64_n0_1(p *List5_U64_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type S1_List5_U64_n0_1 struct {
	A List5_U64_n0_1
}

func sch_S1_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List5_U64_n0_1()}, Names: []string{"A"}}
}
func set_S1_List5_U64_n0_1(p *S1_List5_U64_n0_1, v *Val) {
	set_List5_U64_n0_1(&p.A, v.Elems[0])
}
func get_S1_List5_U64_n0_1(p *S1_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_List5_U64_n0_1(&p.A)}}
}

type S3_List5_U64_n0_1 struct {
	A uint8
	B List5_U64_n0_1
	C uint16
}

func sch_S3_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List5_U64_n0_1(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_List5_U64_n0_1(p *S3_List5_U64_n0_1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_List5_U64_n0_1(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_List5_U64_n0_1(p *S3_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_List5_U64_n0_1(&p.B), get_U16(&p.C)}}
}

type SV_List5_U64_n0_1 struct {
	A List5_U64_n0_1
	B Bytes2_g1
	C List5_U64_n0_1
}

func sch_SV_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List5_U64_n0_1(), sch_Bytes2_g1(), sch_List5_U64_n0_1()}, Names: []string{"A", "B", "C"}}
}
func set_SV_List5_U64_n0_1(p *SV_List5_U64_n0_1, v *Val) {
	set_List5_U64_n0_1(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_List5_U64_n0_1(&p.C, v.Elems[2])
}
func get_SV_List5_U64_n0_1(p *SV_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_List5_U64_n0_1(&p.A), get_Bytes2_g1(&p.B), get_List5_U64_n0_1(&p.C)}}
}
func sch_Ptr_List5_U64_n0_1() *Sch { return sch_List5_U64_n0_1() }
func set_Ptr_List5_U64_n0_1(p **List5_U64_n0_1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List5_U64_n0_1)
	}
	set_List5_U64_n0_1(*p, v)
}
func get_Ptr_List5_U64_n0_1(p **List5_U64_n0_1) *Val { return get_List5_U64_n0_1(*p) }

type SP_List5_U64_n0_1 struct {
	A Bytes2_g1
	B *List5_U64_n0_1
	C uint8
}

func sch_SP_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_List5_U64_n0_1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_List5_U64_n0_1(p *SP_List5_U64_n0_1, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_List5_U64_n0_1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_List5_U64_n0_1(p *SP_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_List5_U64_n0_1(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_List5_U64_n0_1() *Sch { return sVec(sch_List5_U64_n0_1(), 1) }
func set_Vec1_List5_U64_n0_1(p *[1]List5_U64_n0_1, v *Val) {
	for i := range p {
		set_List5_U64_n0_1(&p[i], v.Elems[i])
	}
}
func get_Vec1_List5_U64_n0_1(p *[1]List5_U64_n0_1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List5_U64_n0_1(&p[i]))
	}
	return v
}
func sch_Vec2_List5_U64_n0_1() *Sch { return sVec(sch_List5_U64_n0_1(), 2) }
func set_Vec2_List5_U64_n0_1(p *[2]List5_U64_n0_1, v *Val) {
	for i := range p {
		set_List5_U64_n0_1(&p[i], v.Elems[i])
	}
}
func get_Vec2_List5_U64_n0_1(p *[2]List5_U64_n0_1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List5_U64_n0_1(&p[i]))
	}
	return v
}

type List4_List5_U64_n0_1_n0_1_2 []List5_U64_n0_1

func (*List4_List5_U64_n0_1_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_List5_U64_n0_1_n0_1_2() *Sch        { return lens(sList(sch_List5_U64_n0_1(), 4, 2), 0, 1, 2) }
func set_List4_List5_U64_n0_1_n0_1_2(p *List4_List5_U64_n0_1_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_List5_U64_n0_1_n0_1_2, n+1)
			set_List5_U64_n0_1(&(*p)[n], junk(sch_List5_U64_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List5_U64_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List4_List5_U64_n0_1_n0_1_2(p *List4_List5_U64_n0_1_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List5_U64_n0_1(&(*p)[i]))
	}
	return v
}

type List8589934592_List5_U64_n0_1_n0_1 []List5_U64_n0_1

func (*List8589934592_List5_U64_n0_1_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_List5_U64_n0_1_n0_1() *Sch {
	return lens(sList(sch_List5_U64_n0_1(), 8589934592, 1), 0, 1)
}
func set_List8589934592_List5_U64_n0_1_n0_1(p *List8589934592_List5_U64_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_List5_U64_n0_1_n0_1, n+1)
			set_List5_U64_n0_1(&(*p)[n], junk(sch_List5_U64_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List5_U64_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_List5_U64_n0_1_n0_1(p *List8589934592_List5_U64_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List5_U64_n0_1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_List5_U64_n0_1() *Sch { return sVec(sch_Vec1_List5_U64_n0_1(), 2) }
func set_Vec2_Vec1_List5_U64_n0_1(p *[2][1]List5_U64_n0_1, v *Val) {
	for i := range p {
		set_Vec1_List5_U64_n0_1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_List5_U64_n0_1(p *[2][1]List5_U64_n0_1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_List5_U64_n0_1(&p[i]))
	}
	return v
}

type List2_Vec2_List5_U64_n0_1_n0_1 [][2]List5_U64_n0_1

func (*List2_Vec2_List5_U64_n0_1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_List5_U64_n0_1_n0_1() *Sch {
	return lens(sList(sch_Vec2_List5_U64_n0_1(), 2, 1), 0, 1)
}
func set_List2_Vec2_List5_U64_n0_1_n0_1(p *List2_Vec2_List5_U64_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_List5_U64_n0_1_n0_1, n+1)
			set_Vec2_List5_U64_n0_1(&(*p)[n], junk(sch_Vec2_List5_U64_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_List5_U64_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_List5_U64_n0_1_n0_1(p *List2_Vec2_List5_U64_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_List5_U64_n0_1(&(*p)[i]))
	}
	return v
}

type List2_List5_U64_n0_1_n0_1 []List5_U64_n0_1

func (*List2_List5_U64_n0_1_n0_1) Limit() uint64 { return 2 }
func sch_List2_List5_U64_n0_1_n0_1() *Sch        { return lens(sList(sch_List5_U64_n0_1(), 2, 1), 0, 1) }
func set_List2_List5_U64_n0_1_n0_1(p *List2_List5_U64_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List5_U64_n0_1_n0_1, n+1)
			set_List5_U64_n0_1(&(*p)[n], junk(sch_List5_U64_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List5_U64_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List5_U64_n0_1_n0_1(p *List2_List5_U64_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List5_U64_n0_1(&(*p)[i]))
	}
	return v
}

type List2_List2_List5_U64_n0_1_n0_1_n0_2 []List2_List5_U64_n0_1_n0_1

func (*List2_List2_List5_U64_n0_1_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_List5_U64_n0_1_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_List5_U64_n0_1_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_List5_U64_n0_1_n0_1_n0_2(p *List2_List2_List5_U64_n0_1_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List5_U64_n0_1_n0_1_n0_2, n+1)
			set_List2_List5_U64_n0_1_n0_1(&(*p)[n], junk(sch_List2_List5_U64_n0_1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List5_U64_n0_1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List5_U64_n0_1_n0_1_n0_2(p *List2_List2_List5_U64_n0_1_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List5_U64_n0_1_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_List5_U64_n0_1 struct {
	X List5_U64_n0_1
	Y Bytes2_g1
}

func sch_SqI_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List5_U64_n0_1(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_List5_U64_n0_1(p *SqI_List5_U64_n0_1, v *Val) {
	set_List5_U64_n0_1(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_List5_U64_n0_1(p *SqI_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_List5_U64_n0_1(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_List5_U64_n0_1 struct {
	H uint16
	I SqI_List5_U64_n0_1 `ssz:"squash"`
	T List5_U64_n0_1
}

func sch_Sq_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_List5_U64_n0_1(), sch_Bytes2_g1(), sch_List5_U64_n0_1()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_List5_U64_n0_1(p *Sq_List5_U64_n0_1, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_List5_U64_n0_1(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_List5_U64_n0_1(&p.T, v.Elems[3])
}
func get_Sq_List5_U64_n0_1(p *Sq_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_List5_U64_n0_1(&p.I.X), get_Bytes2_g1(&p.I.Y), get_List5_U64_n0_1(&p.T)}}
}

type EmI_List5_U64_n0_1 struct {
	X uint8
	Y List5_U64_n0_1
}

func sch_EmI_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List5_U64_n0_1()}, Names: []string{"X", "Y"}}
}
func set_EmI_List5_U64_n0_1(p *EmI_List5_U64_n0_1, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_List5_U64_n0_1(&p.Y, v.Elems[1])
}
func get_EmI_List5_U64_n0_1(p *EmI_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_List5_U64_n0_1(&p.Y)}}
}

type Em_List5_U64_n0_1 struct {
	EmI_List5_U64_n0_1
	T Bytes2_g1
}

func sch_Em_List5_U64_n0_1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List5_U64_n0_1(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_List5_U64_n0_1(p *Em_List5_U64_n0_1, v *Val) {
	set_U8(&p.EmI_List5_U64_n0_1.X, v.Elems[0])
	set_List5_U64_n0_1(&p.EmI_List5_U64_n0_1.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_List5_U64_n0_1(p *Em_List5_U64_n0_1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_List5_U64_n0_1.X), get_List5_U64_n0_1(&p.EmI_List5_U64_n0_1.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Vec3_U16 struct {
	A [3]uint16
}

func sch_S1_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec3_U16()}, Names: []string{"A"}}
}
func set_S1_Vec3_U16(p *S1_Vec3_U16, v *Val) {
	set_Vec3_U16(&p.A, v.Elems[0])
}
func get_S1_Vec3_U16(p *S1_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_Vec3_U16(&p.A)}}
}

type S3_Vec3_U16 struct {
	A uint8
	B [3]uint16
	C uint16
}

func sch_S3_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec3_U16(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Vec3_U16(p *S3_Vec3_U16, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Vec3_U16(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Vec3_U16(p *S3_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Vec3_U16(&p.B), get_U16(&p.C)}}
}

type SV_Vec3_U16 struct {
	A [3]uint16
	B Bytes2_g1
	C [3]uint16
	D Bytes2_g1
}

func sch_SV_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec3_U16(), sch_Bytes2_g1(), sch_Vec3_U16(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Vec3_U16(p *SV_Vec3_U16, v *Val) {
	set_Vec3_U16(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Vec3_U16(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Vec3_U16(p *SV_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_Vec3_U16(&p.A), get_Bytes2_g1(&p.B), get_Vec3_U16(&p.C), get_Bytes2_g1(&p.D)}}
}
func sch_Ptr_Vec3_U16() *Sch { return sch_Vec3_U16() }
func set_Ptr_Vec3_U16(p **[3]uint16, v *Val) {
	if !inPlace || *p == nil {
		*p = new([3]uint16)
	}
	set_Vec3_U16(*p, v)
}
func get_Ptr_Vec3_U16(p **[3]uint16) *Val { return get_Vec3_U16(*p) }

type SP_Vec3_U16 struct {
	A uint8
	B *[3]uint16
	C Bytes2_g1
}

func sch_SP_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Vec3_U16(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Vec3_U16(p *SP_Vec3_U16, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Vec3_U16(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Vec3_U16(p *SP_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Vec3_U16(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Vec3_U16() *Sch { return sVec(sch_Vec3_U16(), 1) }
func set_Vec1_Vec3_U16(p *[1][3]uint16, v *Val) {
	for i := range p {
		set_Vec3_U16(&p[i], v.Elems[i])
	}
}
func get_Vec1_Vec3_U16(p *[1][3]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec3_U16(&p[i]))
	}
	return v
}
func sch_Vec2_Vec3_U16() *Sch { return sVec(sch_Vec3_U16(), 2) }
func set_Vec2_Vec3_U16(p *[2][3]uint16, v *Val) {
	for i := range p {
		set_Vec3_U16(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec3_U16(p *[2][3]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec3_U16(&p[i]))
	}
	return v
}

type List4_Vec3_U16_n0_1_2 [][3]uint16

func (*List4_Vec3_U16_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Vec3_U16_n0_1_2() *Sch        { return lens(sList(sch_Vec3_U16(), 4, 2), 0, 1, 2) }
func set_List4_Vec3_U16_n0_1_2(p *List4_Vec3_U16_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Vec3_U16_n0_1_2, n+1)
			set_Vec3_U16(&(*p)[n], junk(sch_Vec3_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec3_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Vec3_U16_n0_1_2(p *List4_Vec3_U16_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec3_U16(&(*p)[i]))
	}
	return v
}

type List8589934592_Vec3_U16_n0_1 [][3]uint16

func (*List8589934592_Vec3_U16_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Vec3_U16_n0_1() *Sch        { return lens(sList(sch_Vec3_U16(), 8589934592, 1), 0, 1) }
func set_List8589934592_Vec3_U16_n0_1(p *List8589934592_Vec3_U16_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Vec3_U16_n0_1, n+1)
			set_Vec3_U16(&(*p)[n], junk(sch_Vec3_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec3_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Vec3_U16_n0_1(p *List8589934592_Vec3_U16_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec3_U16(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Vec3_U16() *Sch { return sVec(sch_Vec1_Vec3_U16(), 2) }
func set_Vec2_Vec1_Vec3_U16(p *[2][1][3]uint16, v *Val) {
	for i := range p {
		set_Vec1_Vec3_U16(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Vec3_U16(p *[2][1][3]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Vec3_U16(&p[i]))
	}
	return v
}

type List2_Vec2_Vec3_U16_n0_1 [][2][3]uint16

func (*List2_Vec2_Vec3_U16_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Vec3_U16_n0_1() *Sch        { return lens(sList(sch_Vec2_Vec3_U16(), 2, 1), 0, 1) }
func set_List2_Vec2_Vec3_U16_n0_1(p *List2_Vec2_Vec3_U16_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Vec3_U16_n0_1, n+1)
			set_Vec2_Vec3_U16(&(*p)[n], junk(sch_Vec2_Vec3_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Vec3_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Vec3_U16_n0_1(p *List2_Vec2_Vec3_U16_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Vec3_U16(&(*p)[i]))
	}
	return v
}

type List2_Vec3_U16_n0_1 [][3]uint16

func (*List2_Vec3_U16_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec3_U16_n0_1() *Sch        { return lens(sList(sch_Vec3_U16(), 2, 1), 0, 1) }
func set_List2_Vec3_U16_n0_1(p *List2_Vec3_U16_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec3_U16_n0_1, n+1)
			set_Vec3_U16(&(*p)[n], junk(sch_Vec3_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec3_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec3_U16_n0_1(p *List2_Vec3_U16_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec3_U16(&(*p)[i]))
	}
	return v
}

type List2_List2_Vec3_U16_n0_1_n0_2 []List2_Vec3_U16_n0_1

func (*List2_List2_Vec3_U16_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Vec3_U16_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Vec3_U16_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Vec3_U16_n0_1_n0_2(p *List2_List2_Vec3_U16_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Vec3_U16_n0_1_n0_2, n+1)
			set_List2_Vec3_U16_n0_1(&(*p)[n], junk(sch_List2_Vec3_U16_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Vec3_U16_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Vec3_U16_n0_1_n0_2(p *List2_List2_Vec3_U16_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Vec3_U16_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Vec3_U16 struct {
	X [3]uint16
	Y Bytes2_g1
}

func sch_SqI_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec3_U16(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Vec3_U16(p *SqI_Vec3_U16, v *Val) {
	set_Vec3_U16(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Vec3_U16(p *SqI_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_Vec3_U16(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Vec3_U16 struct {
	H uint16
	I SqI_Vec3_U16 `ssz:"squash"`
	T [3]uint16
}

func sch_Sq_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Vec3_U16(), sch_Bytes2_g1(), sch_Vec3_U16()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Vec3_U16(p *Sq_Vec3_U16, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Vec3_U16(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Vec3_U16(&p.T, v.Elems[3])
}
func get_Sq_Vec3_U16(p *Sq_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Vec3_U16(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Vec3_U16(&p.T)}}
}

type EmI_Vec3_U16 struct {
	X uint8
	Y [3]uint16
}

func sch_EmI_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec3_U16()}, Names: []string{"X", "Y"}}
}
func set_EmI_Vec3_U16(p *EmI_Vec3_U16, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Vec3_U16(&p.Y, v.Elems[1])
}
func get_EmI_Vec3_U16(p *EmI_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Vec3_U16(&p.Y)}}
}

type Em_Vec3_U16 struct {
	EmI_Vec3_U16
	T Bytes2_g1
}

func sch_Em_Vec3_U16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec3_U16(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Vec3_U16(p *Em_Vec3_U16, v *Val) {
	set_U8(&p.EmI_Vec3_U16.X, v.Elems[0])
	set_Vec3_U16(&p.EmI_Vec3_U16.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Vec3_U16(p *Em_Vec3_U16) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Vec3_U16.X), get_Vec3_U16(&p.EmI_Vec3_U16.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Vec2_Bool struct {
	A [2]bool
}

func sch_S1_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Bool()}, Names: []string{"A"}}
}
func set_S1_Vec2_Bool(p *S1_Vec2_Bool, v *Val) {
	set_Vec2_Bool(&p.A, v.Elems[0])
}
func get_S1_Vec2_Bool(p *S1_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_Vec2_Bool(&p.A)}}
}

type S3_Vec2_Bool struct {
	A uint8
	B [2]bool
	C uint16
}

func sch_S3_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Bool(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Vec2_Bool(p *S3_Vec2_Bool, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Vec2_Bool(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Vec2_Bool(p *S3_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Vec2_Bool(&p.B), get_U16(&p.C)}}
}

type SV_Vec2_Bool struct {
	A [2]bool
	B Bytes2_g1
	C [2]bool
	D Bytes2_g1
}

func sch_SV_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Bool(), sch_Bytes2_g1(), sch_Vec2_Bool(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Vec2_Bool(p *SV_Vec2_Bool, v *Val) {
	set_Vec2_Bool(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Vec2_Bool(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Vec2_Bool(p *SV_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_Vec2_Bool(&p.A), get_Bytes2_g1(&p.B), get_Vec2_Bool(&p.C), get_Bytes2_g1(&p.D)}}
}
func sch_Ptr_Vec2_Bool() *Sch { return sch_Vec2_Bool() }
func set_Ptr_Vec2_Bool(p **[2]bool, v *Val) {
	if !inPlace || *p == nil {
		*p = new([2]bool)
	}
	set_Vec2_Bool(*p, v)
}
func get_Ptr_Vec2_Bool(p **[2]bool) *Val { return get_Vec2_Bool(*p) }

type SP_Vec2_Bool struct {
	A uint8
	B *[2]bool
	C Bytes2_g1
}

func sch_SP_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Vec2_Bool(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Vec2_Bool(p *SP_Vec2_Bool, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Vec2_Bool(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Vec2_Bool(p *SP_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Vec2_Bool(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Vec2_Bool() *Sch { return sVec(sch_Vec2_Bool(), 1) }
func set_Vec1_Vec2_Bool(p *[1][2]bool, v *Val) {
	for i := range p {
		set_Vec2_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec1_Vec2_Bool(p *[1][2]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Bool(&p[i]))
	}
	return v
}
func sch_Vec2_Vec2_Bool() *Sch { return sVec(sch_Vec2_Bool(), 2) }
func set_Vec2_Vec2_Bool(p *[2][2]bool, v *Val) {
	for i := range p {
		set_Vec2_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec2_Bool(p *[2][2]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Bool(&p[i]))
	}
	return v
}

type List4_Vec2_Bool_n0_1_2 [][2]bool

func (*List4_Vec2_Bool_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Vec2_Bool_n0_1_2() *Sch        { return lens(sList(sch_Vec2_Bool(), 4, 2), 0, 1, 2) }
func set_List4_Vec2_Bool_n0_1_2(p *List4_Vec2_Bool_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Vec2_Bool_n0_1_2, n+1)
			set_Vec2_Bool(&(*p)[n], junk(sch_Vec2_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Vec2_Bool_n0_1_2(p *List4_Vec2_Bool_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bool(&(*p)[i]))
	}
	return v
}

type List8589934592_Vec2_Bool_n0_1 [][2]bool

func (*List8589934592_Vec2_Bool_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Vec2_Bool_n0_1() *Sch {
	return lens(sList(sch_Vec2_Bool(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Vec2_Bool_n0_1(p *List8589934592_Vec2_Bool_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Vec2_Bool_n0_1, n+1)
			set_Vec2_Bool(&(*p)[n], junk(sch_Vec2_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Vec2_Bool_n0_1(p *List8589934592_Vec2_Bool_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bool(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Vec2_Bool() *Sch { return sVec(sch_Vec1_Vec2_Bool(), 2) }
func set_Vec2_Vec1_Vec2_Bool(p *[2][1][2]bool, v *Val) {
	for i := range p {
		set_Vec1_Vec2_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Vec2_Bool(p *[2][1][2]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Vec2_Bool(&p[i]))
	}
	return v
}

type List2_Vec2_Vec2_Bool_n0_1 [][2][2]bool

func (*List2_Vec2_Vec2_Bool_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Vec2_Bool_n0_1() *Sch        { return lens(sList(sch_Vec2_Vec2_Bool(), 2, 1), 0, 1) }
func set_List2_Vec2_Vec2_Bool_n0_1(p *List2_Vec2_Vec2_Bool_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Vec2_Bool_n0_1, n+1)
			set_Vec2_Vec2_Bool(&(*p)[n], junk(sch_Vec2_Vec2_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Vec2_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Vec2_Bool_n0_1(p *List2_Vec2_Vec2_Bool_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Vec2_Bool(&(*p)[i]))
	}
	return v
}

type List2_Vec2_Bool_n0_1 [][2]bool

func (*List2_Vec2_Bool_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bool_n0_1() *Sch        { return lens(sList(sch_Vec2_Bool(), 2, 1), 0, 1) }
func set_List2_Vec2_Bool_n0_1(p *List2_Vec2_Bool_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bool_n0_1, n+1)
			set_Vec2_Bool(&(*p)[n], junk(sch_Vec2_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bool_n0_1(p *List2_Vec2_Bool_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bool(&(*p)[i]))
	}
	return v
}

type List2_List2_Vec2_Bool_n0_1_n0_2 []List2_Vec2_Bool_n0_1

func (*List2_List2_Vec2_Bool_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Vec2_Bool_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Vec2_Bool_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Vec2_Bool_n0_1_n0_2(p *List2_List2_Vec2_Bool_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Vec2_Bool_n0_1_n0_2, n+1)
			set_List2_Vec2_Bool_n0_1(&(*p)[n], junk(sch_List2_Vec2_Bool_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Vec2_Bool_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Vec2_Bool_n0_1_n0_2(p *List2_List2_Vec2_Bool_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Vec2_Bool_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Vec2_Bool struct {
	X [2]bool
	Y Bytes2_g1
}

func sch_SqI_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Bool(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Vec2_Bool(p *SqI_Vec2_Bool, v *Val) {
	set_Vec2_Bool(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Vec2_Bool(p *SqI_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_Vec2_Bool(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Vec2_Bool struct {
	H uint16
	I SqI_Vec2_Bool `ssz:"squash"`
	T [2]bool
}

func sch_Sq_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Vec2_Bool(), sch_Bytes2_g1(), sch_Vec2_Bool()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Vec2_Bool(p *Sq_Vec2_Bool, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Vec2_Bool(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Vec2_Bool(&p.T, v.Elems[3])
}
func get_Sq_Vec2_Bool(p *Sq_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Vec2_Bool(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Vec2_Bool(&p.T)}}
}

type EmI_Vec2_Bool struct {
	X uint8
	Y [2]bool
}

func sch_EmI_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Bool()}, Names: []string{"X", "Y"}}
}
func set_EmI_Vec2_Bool(p *EmI_Vec2_Bool, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Vec2_Bool(&p.Y, v.Elems[1])
}
func get_EmI_Vec2_Bool(p *EmI_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Vec2_Bool(&p.Y)}}
}

type Em_Vec2_Bool struct {
	EmI_Vec2_Bool
	T Bytes2_g1
}

func sch_Em_Vec2_Bool() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Bool(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Vec2_Bool(p *Em_Vec2_Bool, v *Val) {
	set_U8(&p.EmI_Vec2_Bool.X, v.Elems[0])
	set_Vec2_Bool(&p.EmI_Vec2_Bool.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Vec2_Bool(p *Em_Vec2_Bool) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Vec2_Bool.X), get_Vec2_Bool(&p.EmI_Vec2_Bool.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Small struct {
	A Small
}

func sch_S1_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Small()}, Names: []string{"A"}}
}
func set_S1_Small(p *S1_Small, v *Val) {
	set_Small(&p.A, v.Elems[0])
}
func get_S1_Small(p *S1_Small) *Val {
	return &Val{Elems: []*Val{get_Small(&p.A)}}
}

type S3_Small struct {
	A uint8
	B Small
	C uint16
}

func sch_S3_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Small(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Small(p *S3_Small, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Small(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Small(p *S3_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Small(&p.B), get_U16(&p.C)}}
}

type SV_Small struct {
	A Small
	B Bytes2_g1
	C Small
	D Bytes2_g1
}

func sch_SV_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Small(), sch_Bytes2_g1(), sch_Small(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Small(p *SV_Small, v *Val) {
	set_Small(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Small(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Small(p *SV_Small) *Val {
	return &Val{Elems: []*Val{get_Small(&p.A), get_Bytes2_g1(&p.B), get_Small(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_Small struct {
	A uint8
	B *Small
	C Bytes2_g1
}

func sch_SP_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Small(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Small(p *SP_Small, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Small(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Small(p *SP_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Small(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Small() *Sch { return sVec(sch_Small(), 1) }
func set_Vec1_Small(p *[1]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec1_Small(p *[1]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List4_Small_n0_1_2 []Small

func (*List4_Small_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Small_n0_1_2() *Sch        { return lens(sList(sch_Small(), 4, 2), 0, 1, 2) }
func set_List4_Small_n0_1_2(p *List4_Small_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Small_n0_1_2, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Small_n0_1_2(p *List4_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List8589934592_Small_n0_1 []Small

func (*List8589934592_Small_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 8589934592, 1), 0, 1) }
func set_List8589934592_Small_n0_1(p *List8589934592_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Small_n0_1(p *List8589934592_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Small() *Sch { return sVec(sch_Vec1_Small(), 2) }
func set_Vec2_Vec1_Small(p *[2][1]Small, v *Val) {
	for i := range p {
		set_Vec1_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Small(p *[2][1]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Small(&p[i]))
	}
	return v
}

type List2_Vec2_Small_n0_1 [][2]Small

func (*List2_Vec2_Small_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Small_n0_1() *Sch        { return lens(sList(sch_Vec2_Small(), 2, 1), 0, 1) }
func set_List2_Vec2_Small_n0_1(p *List2_Vec2_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Small_n0_1, n+1)
			set_Vec2_Small(&(*p)[n], junk(sch_Vec2_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Small_n0_1(p *List2_Vec2_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Small(&(*p)[i]))
	}
	return v
}

type List2_Small_n0_1 []Small

func (*List2_Small_n0_1) Limit() uint64 { return 2 }
func sch_List2_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 2, 1), 0, 1) }
func set_List2_Small_n0_1(p *List2_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Small_n0_1(p *List2_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List2_List2_Small_n0_1_n0_2 []List2_Small_n0_1

func (*List2_List2_Small_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Small_n0_1_n0_2() *Sch        { return lens(sList(sch_List2_Small_n0_1(), 2, 2), 0, 2) }
func set_List2_List2_Small_n0_1_n0_2(p *List2_List2_Small_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Small_n0_1_n0_2, n+1)
			set_List2_Small_n0_1(&(*p)[n], junk(sch_List2_Small_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Small_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Small_n0_1_n0_2(p *List2_List2_Small_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Small_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Small struct {
	X Small
	Y Bytes2_g1
}

func sch_SqI_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Small(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Small(p *SqI_Small, v *Val) {
	set_Small(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Small(p *SqI_Small) *Val {
	return &Val{Elems: []*Val{get_Small(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Small struct {
	H uint16
	I SqI_Small `ssz:"squash"`
	T Small
}

func sch_Sq_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Small(), sch_Bytes2_g1(), sch_Small()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Small(p *Sq_Small, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Small(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Small(&p.T, v.Elems[3])
}
func get_Sq_Small(p *Sq_Small) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Small(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Small(&p.T)}}
}

type EmI_Small struct {
	X uint8
	Y Small
}

func sch_EmI_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Small()}, Names: []string{"X", "Y"}}
}
func set_EmI_Small(p *EmI_Small, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Small(&p.Y, v.Elems[1])
}
func get_EmI_Small(p *EmI_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Small(&p.Y)}}
}

type Em_Small struct {
	EmI_Small
	T Bytes2_g1
}

func sch_Em_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Small(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Small(p *Em_Small, v *Val) {
	set_U8(&p.EmI_Small.X, v.Elems[0])
	set_Small(&p.EmI_Small.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Small(p *Em_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Small.X), get_Small(&p.EmI_Small.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Var1 struct {
	A Var1
}

func sch_S1_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Var1()}, Names: []string{"A"}}
}
func set_S1_Var1(p *S1_Var1, v *Val) {
	set_Var1(&p.A, v.Elems[0])
}
func get_S1_Var1(p *S1_Var1) *Val {
	return &Val{Elems: []*Val{get_Var1(&p.A)}}
}

type S3_Var1 struct {
	A uint8
	B Var1
	C uint16
}

func sch_S3_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var1(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Var1(p *S3_Var1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Var1(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Var1(p *S3_Var1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Var1(&p.B), get_U16(&p.C)}}
}

type SV_Var1 struct {
	A Var1
	B Bytes2_g1
	C Var1
}

func sch_SV_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Var1(), sch_Bytes2_g1(), sch_Var1()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Var1(p *SV_Var1, v *Val) {
	set_Var1(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Var1(&p.C, v.Elems[2])
}
func get_SV_Var1(p *SV_Var1) *Val {
	return &Val{Elems: []*Val{get_Var1(&p.A), get_Bytes2_g1(&p.B), get_Var1(&p.C)}}
}
func sch_Ptr_Var1() *Sch { return sch_Var1() }
func set_Ptr_Var1(p **Var1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Var1)
	}
	set_Var1(*p, v)
}
func get_Ptr_Var1(p **Var1) *Val { return get_Var1(*p) }

type SP_Var1 struct {
	A Bytes2_g1
	B *Var1
	C uint8
}

func sch_SP_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Var1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Var1(p *SP_Var1, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Var1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Var1(p *SP_Var1) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Var1(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Var1() *Sch { return sVec(sch_Var1(), 1) }
func set_Vec1_Var1(p *[1]Var1, v *Val) {
	for i := range p {
		set_Var1(&p[i], v.Elems[i])
	}
}
func get_Vec1_Var1(p *[1]Var1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Var1(&p[i]))
	}
	return v
}
func sch_Vec2_Var1() *Sch { return sVec(sch_Var1(), 2) }
func set_Vec2_Var1(p *[2]Var1, v *Val) {
	for i := range p {
		set_Var1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Var1(p *[2]Var1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Var1(&p[i]))
	}
	return v
}

type List4_Var1_n0_1_2 []Var1

func (*List4_Var1_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Var1_n0_1_2() *Sch        { return lens(sList(sch_Var1(), 4, 2), 0, 1, 2) }
func set_List4_Var1_n0_1_2(p *List4_Var1_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Var1_n0_1_2, n+1)
			set_Var1(&(*p)[n], junk(sch_Var1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var1(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Var1_n0_1_2(p *List4_Var1_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var1(&(*p)[i]))
	}
	return v
}

type List8589934592_Var1_n0_1 []Var1

func (*List8589934592_Var1_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Var1_n0_1() *Sch        { return lens(sList(sch_Var1(), 8589934592, 1), 0, 1) }
func set_List8589934592_Var1_n0_1(p *List8589934592_Var1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Var1_n0_1, n+1)
			set_Var1(&(*p)[n], junk(sch_Var1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var1(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Var1_n0_1(p *List8589934592_Var1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Var1() *Sch { return sVec(sch_Vec1_Var1(), 2) }
func set_Vec2_Vec1_Var1(p *[2][1]Var1, v *Val) {
	for i := range p {
		set_Vec1_Var1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Var1(p *[2][1]Var1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Var1(&p[i]))
	}
	return v
}

type List2_Vec2_Var1_n0_1 [][2]Var1

func (*List2_Vec2_Var1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Var1_n0_1() *Sch        { return lens(sList(sch_Vec2_Var1(), 2, 1), 0, 1) }
func set_List2_Vec2_Var1_n0_1(p *List2_Vec2_Var1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Var1_n0_1, n+1)
			set_Vec2_Var1(&(*p)[n], junk(sch_Vec2_Var1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Var1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Var1_n0_1(p *List2_Vec2_Var1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Var1(&(*p)[i]))
	}
	return v
}

type List2_Var1_n0_1 []Var1

func (*List2_Var1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Var1_n0_1() *Sch        { return lens(sList(sch_Var1(), 2, 1), 0, 1) }
func set_List2_Var1_n0_1(p *List2_Var1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Var1_n0_1, n+1)
			set_Var1(&(*p)[n], junk(sch_Var1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Var1_n0_1(p *List2_Var1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var1(&(*p)[i]))
	}
	return v
}

type List2_List2_Var1_n0_1_n0_2 []List2_Var1_n0_1

func (*List2_List2_Var1_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Var1_n0_1_n0_2() *Sch        { return lens(sList(sch_List2_Var1_n0_1(), 2, 2), 0, 2) }
func set_List2_List2_Var1_n0_1_n0_2(p *List2_List2_Var1_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Var1_n0_1_n0_2, n+1)
			set_List2_Var1_n0_1(&(*p)[n], junk(sch_List2_Var1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Var1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Var1_n0_1_n0_2(p *List2_List2_Var1_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Var1_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Var1 struct {
	X Var1
	Y Bytes2_g1
}

func sch_SqI_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Var1(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Var1(p *SqI_Var1, v *Val) {
	set_Var1(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Var1(p *SqI_Var1) *Val {
	return &Val{Elems: []*Val{get_Var1(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Var1 struct {
	H uint16
	I SqI_Var1 `ssz:"squash"`
	T Var1
}

func sch_Sq_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Var1(), sch_Bytes2_g1(), sch_Var1()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Var1(p *Sq_Var1, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Var1(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Var1(&p.T, v.Elems[3])
}
func get_Sq_Var1(p *Sq_Var1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Var1(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Var1(&p.T)}}
}

type EmI_Var1 struct {
	X uint8
	Y Var1
}

func sch_EmI_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var1()}, Names: []string{"X", "Y"}}
}
func set_EmI_Var1(p *EmI_Var1, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Var1(&p.Y, v.Elems[1])
}
func get_EmI_Var1(p *EmI_Var1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Var1(&p.Y)}}
}

type Em_Var1 struct {
	EmI_Var1
	T Bytes2_g1
}

func sch_Em_Var1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var1(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Var1(p *Em_Var1, v *Val) {
	set_U8(&p.EmI_Var1.X, v.Elems[0])
	set_Var1(&p.EmI_Var1.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Var1(p *Em_Var1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Var1.X), get_Var1(&p.EmI_Var1.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Var2Only struct {
	A Var2Only
}

func sch_S1_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Var2Only()}, Names: []string{"A"}}
}
func set_S1_Var2Only(p *S1_Var2Only, v *Val) {
	set_Var2Only(&p.A, v.Elems[0])
}
func get_S1_Var2Only(p *S1_Var2Only) *Val {
	return &Val{Elems: []*Val{get_Var2Only(&p.A)}}
}

type S3_Var2Only struct {
	A uint8
	B Var2Only
	C uint16
}

func sch_S3_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var2Only(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Var2Only(p *S3_Var2Only, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Var2Only(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Var2Only(p *S3_Var2Only) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Var2Only(&p.B), get_U16(&p.C)}}
}

type SV_Var2Only struct {
	A Var2Only
	B Bytes2_g1
	C Var2Only
}

func sch_SV_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Var2Only(), sch_Bytes2_g1(), sch_Var2Only()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Var2Only(p *SV_Var2Only, v *Val) {
	set_Var2Only(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Var2Only(&p.C, v.Elems[2])
}
func get_SV_Var2Only(p *SV_Var2Only) *Val {
	return &Val{Elems: []*Val{get_Var2Only(&p.A), get_Bytes2_g1(&p.B), get_Var2Only(&p.C)}}
}
func sch_Ptr_Var2Only() *Sch { return sch_Var2Only() }
func set_Ptr_Var2Only(p **Var2Only, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Var2Only)
	}
	set_Var2Only(*p, v)
}
func get_Ptr_Var2Only(p **Var2Only) *Val { return get_Var2Only(*p) }

type SP_Var2Only struct {
	A Bytes2_g1
	B *Var2Only
	C uint8
}

func sch_SP_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Var2Only(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Var2Only(p *SP_Var2Only, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Var2Only(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Var2Only(p *SP_Var2Only) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Var2Only(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Var2Only() *Sch { return sVec(sch_Var2Only(), 1) }
func set_Vec1_Var2Only(p *[1]Var2Only, v *Val) {
	for i := range p {
		set_Var2Only(&p[i], v.Elems[i])
	}
}
func get_Vec1_Var2Only(p *[1]Var2Only) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Var2Only(&p[i]))
	}
	return v
}
func sch_Vec2_Var2Only() *Sch { return sVec(sch_Var2Only(), 2) }
func set_Vec2_Var2Only(p *[2]Var2Only, v *Val) {
	for i := range p {
		set_Var2Only(&p[i], v.Elems[i])
	}
}
func get_Vec2_Var2Only(p *[2]Var2Only) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Var2Only(&p[i]))
	}
	return v
}

type List4_Var2Only_n0_1_2 []Var2Only

func (*List4_Var2Only_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Var2Only_n0_1_2() *Sch        { return lens(sList(sch_Var2Only(), 4, 2), 0, 1, 2) }
func set_List4_Var2Only_n0_1_2(p *List4_Var2Only_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Var2Only_n0_1_2, n+1)
			set_Var2Only(&(*p)[n], junk(sch_Var2Only()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var2Only(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Var2Only_n0_1_2(p *List4_Var2Only_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var2Only(&(*p)[i]))
	}
	return v
}

type List8589934592_Var2Only_n0_1 []Var2Only

func (*List8589934592_Var2Only_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Var2Only_n0_1() *Sch        { return lens(sList(sch_Var2Only(), 8589934592, 1), 0, 1) }
func set_List8589934592_Var2Only_n0_1(p *List8589934592_Var2Only_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Var2Only_n0_1, n+1)
			set_Var2Only(&(*p)[n], junk(sch_Var2Only()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var2Only(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Var2Only_n0_1(p *List8589934592_Var2Only_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var2Only(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Var2Only() *Sch { return sVec(sch_Vec1_Var2Only(), 2) }
func set_Vec2_Vec1_Var2Only(p *[2][1]Var2Only, v *Val) {
	for i := range p {
		set_Vec1_Var2Only(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Var2Only(p *[2][1]Var2Only) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Var2Only(&p[i]))
	}
	return v
}

type List2_Vec2_Var2Only_n0_1 [][2]Var2Only

func (*List2_Vec2_Var2Only_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Var2Only_n0_1() *Sch        { return lens(sList(sch_Vec2_Var2Only(), 2, 1), 0, 1) }
func set_List2_Vec2_Var2Only_n0_1(p *List2_Vec2_Var2Only_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Var2Only_n0_1, n+1)
			set_Vec2_Var2Only(&(*p)[n], junk(sch_Vec2_Var2Only()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Var2Only(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Var2Only_n0_1(p *List2_Vec2_Var2Only_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Var2Only(&(*p)[i]))
	}
	return v
}

type List2_Var2Only_n0_1 []Var2Only

func (*List2_Var2Only_n0_1) Limit() uint64 { return 2 }
func sch_List2_Var2Only_n0_1() *Sch        { return lens(sList(sch_Var2Only(), 2, 1), 0, 1) }
func set_List2_Var2Only_n0_1(p *List2_Var2Only_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Var2Only_n0_1, n+1)
			set_Var2Only(&(*p)[n], junk(sch_Var2Only()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Var2Only(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Var2Only_n0_1(p *List2_Var2Only_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Var2Only(&(*p)[i]))
	}
	return v
}

type List2_List2_Var2Only_n0_1_n0_2 []List2_Var2Only_n0_1

func (*List2_List2_Var2Only_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Var2Only_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Var2Only_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Var2Only_n0_1_n0_2(p *List2_List2_Var2Only_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Var2Only_n0_1_n0_2, n+1)
			set_List2_Var2Only_n0_1(&(*p)[n], junk(sch_List2_Var2Only_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Var2Only_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Var2Only_n0_1_n0_2(p *List2_List2_Var2Only_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Var2Only_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Var2Only struct {
	X Var2Only
	Y Bytes2_g1
}

func sch_SqI_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Var2Only(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Var2Only(p *SqI_Var2Only, v *Val) {
	set_Var2Only(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Var2Only(p *SqI_Var2Only) *Val {
	return &Val{Elems: []*Val{get_Var2Only(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Var2Only struct {
	H uint16
	I SqI_Var2Only `ssz:"squash"`
	T Var2Only
}

func sch_Sq_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Var2Only(), sch_Bytes2_g1(), sch_Var2Only()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Var2Only(p *Sq_Var2Only, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Var2Only(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Var2Only(&p.T, v.Elems[3])
}
func get_Sq_Var2Only(p *Sq_Var2Only) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Var2Only(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Var2Only(&p.T)}}
}

type EmI_Var2Only struct {
	X uint8
	Y Var2Only
}

func sch_EmI_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var2Only()}, Names: []string{"X", "Y"}}
}
func set_EmI_Var2Only(p *EmI_Var2Only, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Var2Only(&p.Y, v.Elems[1])
}
func get_EmI_Var2Only(p *EmI_Var2Only) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Var2Only(&p.Y)}}
}

type Em_Var2Only struct {
	EmI_Var2Only
	T Bytes2_g1
}

func sch_Em_Var2Only() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Var2Only(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Var2Only(p *Em_Var2Only, v *Val) {
	set_U8(&p.EmI_Var2Only.X, v.Elems[0])
	set_Var2Only(&p.EmI_Var2Only.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Var2Only(p *Em_Var2Only) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Var2Only.X), get_Var2Only(&p.EmI_Var2Only.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Ptr_Small struct {
	A *Small
}

func sch_S1_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Small()}, Names: []string{"A"}}
}
func set_S1_Ptr_Small(p *S1_Ptr_Small, v *Val) {
	set_Ptr_Small(&p.A, v.Elems[0])
}
func get_S1_Ptr_Small(p *S1_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_Ptr_Small(&p.A)}}
}

type S3_Ptr_Small struct {
	A uint8
	B *Small
	C uint16
}

func sch_S3_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Small(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Ptr_Small(p *S3_Ptr_Small, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Small(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Ptr_Small(p *S3_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Small(&p.B), get_U16(&p.C)}}
}

type SV_Ptr_Small struct {
	A *Small
	B Bytes2_g1
	C *Small
	D Bytes2_g1
}

func sch_SV_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Small(), sch_Bytes2_g1(), sch_Ptr_Small(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Ptr_Small(p *SV_Ptr_Small, v *Val) {
	set_Ptr_Small(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Ptr_Small(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Ptr_Small(p *SV_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_Ptr_Small(&p.A), get_Bytes2_g1(&p.B), get_Ptr_Small(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_Ptr_Small struct {
	A uint8
	B **Small
	C Bytes2_g1
}

func sch_SP_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Ptr_Small(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Ptr_Small(p *SP_Ptr_Small, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Ptr_Small(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Ptr_Small(p *SP_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Ptr_Small(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Ptr_Small() *Sch { return sVec(sch_Ptr_Small(), 1) }
func set_Vec1_Ptr_Small(p *[1]*Small, v *Val) {
	for i := range p {
		set_Ptr_Small(&p[i], v.Elems[i])
	}
}
func get_Vec1_Ptr_Small(p *[1]*Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Small(&p[i]))
	}
	return v
}

type List4_Ptr_Small_n0_1_2 []*Small

func (*List4_Ptr_Small_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Ptr_Small_n0_1_2() *Sch        { return lens(sList(sch_Ptr_Small(), 4, 2), 0, 1, 2) }
func set_List4_Ptr_Small_n0_1_2(p *List4_Ptr_Small_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Ptr_Small_n0_1_2, n+1)
			set_Ptr_Small(&(*p)[n], junk(sch_Ptr_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Ptr_Small_n0_1_2(p *List4_Ptr_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Small(&(*p)[i]))
	}
	return v
}

type List8589934592_Ptr_Small_n0_1 []*Small

func (*List8589934592_Ptr_Small_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Ptr_Small_n0_1() *Sch {
	return lens(sList(sch_Ptr_Small(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Ptr_Small_n0_1(p *List8589934592_Ptr_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Ptr_Small_n0_1, n+1)
			set_Ptr_Small(&(*p)[n], junk(sch_Ptr_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Ptr_Small_n0_1(p *List8589934592_Ptr_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Small(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Ptr_Small() *Sch { return sVec(sch_Vec1_Ptr_Small(), 2) }
func set_Vec2_Vec1_Ptr_Small(p *[2][1]*Small, v *Val) {
	for i := range p {
		set_Vec1_Ptr_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Ptr_Small(p *[2][1]*Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Ptr_Small(&p[i]))
	}
	return v
}

type List2_Vec2_Ptr_Small_n0_1 [][2]*Small

func (*List2_Vec2_Ptr_Small_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Ptr_Small_n0_1() *Sch        { return lens(sList(sch_Vec2_Ptr_Small(), 2, 1), 0, 1) }
func set_List2_Vec2_Ptr_Small_n0_1(p *List2_Vec2_Ptr_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Ptr_Small_n0_1, n+1)
			set_Vec2_Ptr_Small(&(*p)[n], junk(sch_Vec2_Ptr_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Ptr_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Ptr_Small_n0_1(p *List2_Vec2_Ptr_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Ptr_Small(&(*p)[i]))
	}
	return v
}

type List2_Ptr_Small_n0_1 []*Small

func (*List2_Ptr_Small_n0_1) Limit() uint64 { return 2 }
func sch_List2_Ptr_Small_n0_1() *Sch        { return lens(sList(sch_Ptr_Small(), 2, 1), 0, 1) }
func set_List2_Ptr_Small_n0_1(p *List2_Ptr_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Ptr_Small_n0_1, n+1)
			set_Ptr_Small(&(*p)[n], junk(sch_Ptr_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Ptr_Small_n0_1(p *List2_Ptr_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Small(&(*p)[i]))
	}
	return v
}

type List2_List2_Ptr_Small_n0_1_n0_2 []List2_Ptr_Small_n0_1

func (*List2_List2_Ptr_Small_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Ptr_Small_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Ptr_Small_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Ptr_Small_n0_1_n0_2(p *List2_List2_Ptr_Small_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Ptr_Small_n0_1_n0_2, n+1)
			set_List2_Ptr_Small_n0_1(&(*p)[n], junk(sch_List2_Ptr_Small_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Ptr_Small_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Ptr_Small_n0_1_n0_2(p *List2_List2_Ptr_Small_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Ptr_Small_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Ptr_Small struct {
	X *Small
	Y Bytes2_g1
}

func sch_SqI_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Small(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Ptr_Small(p *SqI_Ptr_Small, v *Val) {
	set_Ptr_Small(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Ptr_Small(p *SqI_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_Ptr_Small(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Ptr_Small struct {
	H uint16
	I SqI_Ptr_Small `ssz:"squash"`
	T *Small
}

func sch_Sq_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Ptr_Small(), sch_Bytes2_g1(), sch_Ptr_Small()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Ptr_Small(p *Sq_Ptr_Small, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Ptr_Small(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Ptr_Small(&p.T, v.Elems[3])
}
func get_Sq_Ptr_Small(p *Sq_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Ptr_Small(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Ptr_Small(&p.T)}}
}

type EmI_Ptr_Small struct {
	X uint8
	Y *Small
}

func sch_EmI_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Small()}, Names: []string{"X", "Y"}}
}
func set_EmI_Ptr_Small(p *EmI_Ptr_Small, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Ptr_Small(&p.Y, v.Elems[1])
}
func get_EmI_Ptr_Small(p *EmI_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Ptr_Small(&p.Y)}}
}

type Em_Ptr_Small struct {
	EmI_Ptr_Small
	T Bytes2_g1
}

func sch_Em_Ptr_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Small(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Ptr_Small(p *Em_Ptr_Small, v *Val) {
	set_U8(&p.EmI_Ptr_Small.X, v.Elems[0])
	set_Ptr_Small(&p.EmI_Ptr_Small.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Ptr_Small(p *Em_Ptr_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Ptr_Small.X), get_Ptr_Small(&p.EmI_Ptr_Small.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Ptr_Var2 struct {
	A *Var2
}

func sch_S1_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Var2()}, Names: []string{"A"}}
}
func set_S1_Ptr_Var2(p *S1_Ptr_Var2, v *Val) {
	set_Ptr_Var2(&p.A, v.Elems[0])
}
func get_S1_Ptr_Var2(p *S1_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_Ptr_Var2(&p.A)}}
}

type S3_Ptr_Var2 struct {
	A uint8
	B *Var2
	C uint16
}

func sch_S3_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Var2(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Ptr_Var2(p *S3_Ptr_Var2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Var2(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Ptr_Var2(p *S3_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Var2(&p.B), get_U16(&p.C)}}
}

type SV_Ptr_Var2 struct {
	A *Var2
	B Bytes2_g1
	C *Var2
}

func sch_SV_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Var2(), sch_Bytes2_g1(), sch_Ptr_Var2()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Ptr_Var2(p *SV_Ptr_Var2, v *Val) {
	set_Ptr_Var2(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Ptr_Var2(&p.C, v.Elems[2])
}
func get_SV_Ptr_Var2(p *SV_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_Ptr_Var2(&p.A), get_Bytes2_g1(&p.B), get_Ptr_Var2(&p.C)}}
}

type SP_Ptr_Var2 struct {
	A Bytes2_g1
	B **Var2
	C uint8
}

func sch_SP_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Ptr_Var2(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Ptr_Var2(p *SP_Ptr_Var2, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Ptr_Var2(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Ptr_Var2(p *SP_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Ptr_Var2(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Ptr_Var2() *Sch { return sVec(sch_Ptr_Var2(), 1) }
func set_Vec1_Ptr_Var2(p *[1]*Var2, v *Val) {
	for i := range p {
		set_Ptr_Var2(&p[i], v.Elems[i])
	}
}
func get_Vec1_Ptr_Var2(p *[1]*Var2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Var2(&p[i]))
	}
	return v
}
func sch_Vec2_Ptr_Var2() *Sch { return sVec(sch_Ptr_Var2(), 2) }
func set_Vec2_Ptr_Var2(p *[2]*Var2, v *Val) {
	for i := range p {
		set_Ptr_Var2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Ptr_Var2(p *[2]*Var2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Var2(&p[i]))
	}
	return v
}

type List4_Ptr_Var2_n0_1_2 []*Var2

func (*List4_Ptr_Var2_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Ptr_Var2_n0_1_2() *Sch        { return lens(sList(sch_Ptr_Var2(), 4, 2), 0, 1, 2) }
func set_List4_Ptr_Var2_n0_1_2(p *List4_Ptr_Var2_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Ptr_Var2_n0_1_2, n+1)
			set_Ptr_Var2(&(*p)[n], junk(sch_Ptr_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Ptr_Var2_n0_1_2(p *List4_Ptr_Var2_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Var2(&(*p)[i]))
	}
	return v
}

type List8589934592_Ptr_Var2_n0_1 []*Var2

func (*List8589934592_Ptr_Var2_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Ptr_Var2_n0_1() *Sch        { return lens(sList(sch_Ptr_Var2(), 8589934592, 1), 0, 1) }
func set_List8589934592_Ptr_Var2_n0_1(p *List8589934592_Ptr_Var2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Ptr_Var2_n0_1, n+1)
			set_Ptr_Var2(&(*p)[n], junk(sch_Ptr_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Ptr_Var2_n0_1(p *List8589934592_Ptr_Var2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Var2(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Ptr_Var2() *Sch { return sVec(sch_Vec1_Ptr_Var2(), 2) }
func set_Vec2_Vec1_Ptr_Var2(p *[2][1]*Var2, v *Val) {
	for i := range p {
		set_Vec1_Ptr_Var2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Ptr_Var2(p *[2][1]*Var2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Ptr_Var2(&p[i]))
	}
	return v
}

type List2_Vec2_Ptr_Var2_n0_1 [][2]*Var2

func (*List2_Vec2_Ptr_Var2_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Ptr_Var2_n0_1() *Sch        { return lens(sList(sch_Vec2_Ptr_Var2(), 2, 1), 0, 1) }
func set_List2_Vec2_Ptr_Var2_n0_1(p *List2_Vec2_Ptr_Var2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Ptr_Var2_n0_1, n+1)
			set_Vec2_Ptr_Var2(&(*p)[n], junk(sch_Vec2_Ptr_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Ptr_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Ptr_Var2_n0_1(p *List2_Vec2_Ptr_Var2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Ptr_Var2(&(*p)[i]))
	}
	return v
}

type List2_Ptr_Var2_n0_1 []*Var2

func (*List2_Ptr_Var2_n0_1) Limit() uint64 { return 2 }
func sch_List2_Ptr_Var2_n0_1() *Sch        { return lens(sList(sch_Ptr_Var2(), 2, 1), 0, 1) }
func set_List2_Ptr_Var2_n0_1(p *List2_Ptr_Var2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Ptr_Var2_n0_1, n+1)
			set_Ptr_Var2(&(*p)[n], junk(sch_Ptr_Var2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Var2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Ptr_Var2_n0_1(p *List2_Ptr_Var2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Var2(&(*p)[i]))
	}
	return v
}

type List2_List2_Ptr_Var2_n0_1_n0_2 []List2_Ptr_Var2_n0_1

func (*List2_List2_Ptr_Var2_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Ptr_Var2_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Ptr_Var2_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Ptr_Var2_n0_1_n0_2(p *List2_List2_Ptr_Var2_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Ptr_Var2_n0_1_n0_2, n+1)
			set_List2_Ptr_Var2_n0_1(&(*p)[n], junk(sch_List2_Ptr_Var2_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Ptr_Var2_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Ptr_Var2_n0_1_n0_2(p *List2_List2_Ptr_Var2_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Ptr_Var2_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Ptr_Var2 struct {
	X *Var2
	Y Bytes2_g1
}

func sch_SqI_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Var2(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Ptr_Var2(p *SqI_Ptr_Var2, v *Val) {
	set_Ptr_Var2(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Ptr_Var2(p *SqI_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_Ptr_Var2(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Ptr_Var2 struct {
	H uint16
	I SqI_Ptr_Var2 `ssz:"squash"`
	T *Var2
}

func sch_Sq_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Ptr_Var2(), sch_Bytes2_g1(), sch_Ptr_Var2()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Ptr_Var2(p *Sq_Ptr_Var2, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Ptr_Var2(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Ptr_Var2(&p.T, v.Elems[3])
}
func get_Sq_Ptr_Var2(p *Sq_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Ptr_Var2(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Ptr_Var2(&p.T)}}
}

type EmI_Ptr_Var2 struct {
	X uint8
	Y *Var2
}

func sch_EmI_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Var2()}, Names: []string{"X", "Y"}}
}
func set_EmI_Ptr_Var2(p *EmI_Ptr_Var2, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Ptr_Var2(&p.Y, v.Elems[1])
}
func get_EmI_Ptr_Var2(p *EmI_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Ptr_Var2(&p.Y)}}
}

type Em_Ptr_Var2 struct {
	EmI_Ptr_Var2
	T Bytes2_g1
}

func sch_Em_Ptr_Var2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Var2(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Ptr_Var2(p *Em_Ptr_Var2, v *Val) {
	set_U8(&p.EmI_Ptr_Var2.X, v.Elems[0])
	set_Ptr_Var2(&p.EmI_Ptr_Var2.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Ptr_Var2(p *Em_Ptr_Var2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Ptr_Var2.X), get_Ptr_Var2(&p.EmI_Ptr_Var2.Y), get_Bytes2_g1(&p.T)}}
}
func sch_Ptr_Bytes3_g1() *Sch { return sch_Bytes3_g1() }
func set_Ptr_Bytes3_g1(p **Bytes3_g1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Bytes3_g1)
	}
	set_Bytes3_g1(*p, v)
}
func get_Ptr_Bytes3_g1(p **Bytes3_g1) *Val { return get_Bytes3_g1(*p) }

type S1_Ptr_Bytes3_g1 struct {
	A *Bytes3_g1
}

func sch_S1_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Bytes3_g1()}, Names: []string{"A"}}
}
func set_S1_Ptr_Bytes3_g1(p *S1_Ptr_Bytes3_g1, v *Val) {
	set_Ptr_Bytes3_g1(&p.A, v.Elems[0])
}
func get_S1_Ptr_Bytes3_g1(p *S1_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Ptr_Bytes3_g1(&p.A)}}
}

type S3_Ptr_Bytes3_g1 struct {
	A uint8
	B *Bytes3_g1
	C uint16
}

func sch_S3_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bytes3_g1(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Ptr_Bytes3_g1(p *S3_Ptr_Bytes3_g1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Bytes3_g1(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Ptr_Bytes3_g1(p *S3_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Bytes3_g1(&p.B), get_U16(&p.C)}}
}

type SV_Ptr_Bytes3_g1 struct {
	A *Bytes3_g1
	B Bytes2_g1
	C *Bytes3_g1
}

func sch_SV_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Bytes3_g1(), sch_Bytes2_g1(), sch_Ptr_Bytes3_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Ptr_Bytes3_g1(p *SV_Ptr_Bytes3_g1, v *Val) {
	set_Ptr_Bytes3_g1(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Ptr_Bytes3_g1(&p.C, v.Elems[2])
}
func get_SV_Ptr_Bytes3_g1(p *SV_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Ptr_Bytes3_g1(&p.A), get_Bytes2_g1(&p.B), get_Ptr_Bytes3_g1(&p.C)}}
}
func sch_Ptr_Ptr_Bytes3_g1() *Sch { return sch_Ptr_Bytes3_g1() }
func set_Ptr_Ptr_Bytes3_g1(p ***Bytes3_g1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(*Bytes3_g1)
	}
	set_Ptr_Bytes3_g1(*p, v)
}
func get_Ptr_Ptr_Bytes3_g1(p ***Bytes3_g1) *Val { return get_Ptr_Bytes3_g1(*p) }

type SP_Ptr_Bytes3_g1 struct {
	A Bytes2_g1
	B **Bytes3_g1
	C uint8
}

func sch_SP_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Ptr_Bytes3_g1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Ptr_Bytes3_g1(p *SP_Ptr_Bytes3_g1, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Ptr_Bytes3_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Ptr_Bytes3_g1(p *SP_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Ptr_Bytes3_g1(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Ptr_Bytes3_g1() *Sch { return sVec(sch_Ptr_Bytes3_g1(), 1) }
func set_Vec1_Ptr_Bytes3_g1(p *[1]*Bytes3_g1, v *Val) {
	for i := range p {
		set_Ptr_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec1_Ptr_Bytes3_g1(p *[1]*Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Bytes3_g1(&p[i]))
	}
	return v
}
func sch_Vec2_Ptr_Bytes3_g1() *Sch { return sVec(sch_Ptr_Bytes3_g1(), 2) }
func set_Vec2_Ptr_Bytes3_g1(p *[2]*Bytes3_g1, v *Val) {
	for i := range p {
		set_Ptr_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Ptr_Bytes3_g1(p *[2]*Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Bytes3_g1(&p[i]))
	}
	return v
}

type List4_Ptr_Bytes3_g1_n0_1_2 []*Bytes3_g1

func (*List4_Ptr_Bytes3_g1_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Ptr_Bytes3_g1_n0_1_2() *Sch        { return lens(sList(sch_Ptr_Bytes3_g1(), 4, 2), 0, 1, 2) }
func set_List4_Ptr_Bytes3_g1_n0_1_2(p *List4_Ptr_Bytes3_g1_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Ptr_Bytes3_g1_n0_1_2, n+1)
			set_Ptr_Bytes3_g1(&(*p)[n], junk(sch_Ptr_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Ptr_Bytes3_g1_n0_1_2(p *List4_Ptr_Bytes3_g1_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Bytes3_g1(&(*p)[i]))
	}
	return v
}

type List8589934592_Ptr_Bytes3_g1_n0_1 []*Bytes3_g1

func (*List8589934592_Ptr_Bytes3_g1_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Ptr_Bytes3_g1_n0_1() *Sch {
	return lens(sList(sch_Ptr_Bytes3_g1(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Ptr_Bytes3_g1_n0_1(p *List8589934592_Ptr_Bytes3_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Ptr_Bytes3_g1_n0_1, n+1)
			set_Ptr_Bytes3_g1(&(*p)[n], junk(sch_Ptr_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Ptr_Bytes3_g1_n0_1(p *List8589934592_Ptr_Bytes3_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Bytes3_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Ptr_Bytes3_g1() *Sch { return sVec(sch_Vec1_Ptr_Bytes3_g1(), 2) }
func set_Vec2_Vec1_Ptr_Bytes3_g1(p *[2][1]*Bytes3_g1, v *Val) {
	for i := range p {
		set_Vec1_Ptr_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Ptr_Bytes3_g1(p *[2][1]*Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Ptr_Bytes3_g1(&p[i]))
	}
	return v
}

type List2_Vec2_Ptr_Bytes3_g1_n0_1 [][2]*Bytes3_g1

func (*List2_Vec2_Ptr_Bytes3_g1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Ptr_Bytes3_g1_n0_1() *Sch {
	return lens(sList(sch_Vec2_Ptr_Bytes3_g1(), 2, 1), 0, 1)
}
func set_List2_Vec2_Ptr_Bytes3_g1_n0_1(p *List2_Vec2_Ptr_Bytes3_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Ptr_Bytes3_g1_n0_1, n+1)
			set_Vec2_Ptr_Bytes3_g1(&(*p)[n], junk(sch_Vec2_Ptr_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Ptr_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Ptr_Bytes3_g1_n0_1(p *List2_Vec2_Ptr_Bytes3_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Ptr_Bytes3_g1(&(*p)[i]))
	}
	return v
}

type List2_Ptr_Bytes3_g1_n0_1 []*Bytes3_g1

func (*List2_Ptr_Bytes3_g1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Ptr_Bytes3_g1_n0_1() *Sch        { return lens(sList(sch_Ptr_Bytes3_g1(), 2, 1), 0, 1) }
func set_List2_Ptr_Bytes3_g1_n0_1(p *List2_Ptr_Bytes3_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Ptr_Bytes3_g1_n0_1, n+1)
			set_Ptr_Bytes3_g1(&(*p)[n], junk(sch_Ptr_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Ptr_Bytes3_g1_n0_1(p *List2_Ptr_Bytes3_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Bytes3_g1(&(*p)[i]))
	}
	return v
}

type List2_List2_Ptr_Bytes3_g1_n0_1_n0_2 []List2_Ptr_Bytes3_g1_n0_1

func (*List2_List2_Ptr_Bytes3_g1_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Ptr_Bytes3_g1_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Ptr_Bytes3_g1_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Ptr_Bytes3_g1_n0_1_n0_2(p *List2_List2_Ptr_Bytes3_g1_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Ptr_Bytes3_g1_n0_1_n0_2, n+1)
			set_List2_Ptr_Bytes3_g1_n0_1(&(*p)[n], junk(sch_List2_Ptr_Bytes3_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Ptr_Bytes3_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Ptr_Bytes3_g1_n0_1_n0_2(p *List2_List2_Ptr_Bytes3_g1_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Ptr_Bytes3_g1_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Ptr_Bytes3_g1 struct {
	X *Bytes3_g1
	Y Bytes2_g1
}

func sch_SqI_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Bytes3_g1(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Ptr_Bytes3_g1(p *SqI_Ptr_Bytes3_g1, v *Val) {
	set_Ptr_Bytes3_g1(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Ptr_Bytes3_g1(p *SqI_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Ptr_Bytes3_g1(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Ptr_Bytes3_g1 struct {
	H uint16
	I SqI_Ptr_Bytes3_g1 `ssz:"squash"`
	T *Bytes3_g1
}

func sch_Sq_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Ptr_Bytes3_g1(), sch_Bytes2_g1(), sch_Ptr_Bytes3_g1()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Ptr_Bytes3_g1(p *Sq_Ptr_Bytes3_g1, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Ptr_Bytes3_g1(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Ptr_Bytes3_g1(&p.T, v.Elems[3])
}
func get_Sq_Ptr_Bytes3_g1(p *Sq_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Ptr_Bytes3_g1(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Ptr_Bytes3_g1(&p.T)}}
}

type EmI_Ptr_Bytes3_g1 struct {
	X uint8
	Y *Bytes3_g1
}

func sch_EmI_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bytes3_g1()}, Names: []string{"X", "Y"}}
}
func set_EmI_Ptr_Bytes3_g1(p *EmI_Ptr_Bytes3_g1, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Ptr_Bytes3_g1(&p.Y, v.Elems[1])
}
func get_EmI_Ptr_Bytes3_g1(p *EmI_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Ptr_Bytes3_g1(&p.Y)}}
}

type Em_Ptr_Bytes3_g1 struct {
	EmI_Ptr_Bytes3_g1
	T Bytes2_g1
}

func sch_Em_Ptr_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Bytes3_g1(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Ptr_Bytes3_g1(p *Em_Ptr_Bytes3_g1, v *Val) {
	set_U8(&p.EmI_Ptr_Bytes3_g1.X, v.Elems[0])
	set_Ptr_Bytes3_g1(&p.EmI_Ptr_Bytes3_g1.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Ptr_Bytes3_g1(p *Em_Ptr_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Ptr_Bytes3_g1.X), get_Ptr_Bytes3_g1(&p.EmI_Ptr_Bytes3_g1.Y), get_Bytes2_g1(&p.T)}}
}

type List3_Small_n0_1_2 []Small

func (*List3_Small_n0_1_2) Limit() uint64 { return 3 }
func sch_List3_Small_n0_1_2() *Sch        { return lens(sList(sch_Small(), 3, 2), 0, 1, 2) }
func set_List3_Small_n0_1_2(p *List3_Small_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Small_n0_1_2, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Small_n0_1_2(p *List3_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type S1_List3_Small_n0_1_2 struct {
	A List3_Small_n0_1_2
}

func sch_S1_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Small_n0_1_2()}, Names: []string{"A"}}
}
func set_S1_List3_Small_n0_1_2(p *S1_List3_Small_n0_1_2, v *Val) {
	set_List3_Small_n0_1_2(&p.A, v.Elems[0])
}
func get_S1_List3_Small_n0_1_2(p *S1_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_List3_Small_n0_1_2(&p.A)}}
}

type S3_List3_Small_n0_1_2 struct {
	A uint8
	B List3_Small_n0_1_2
	C uint16
}

func sch_S3_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Small_n0_1_2(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_List3_Small_n0_1_2(p *S3_List3_Small_n0_1_2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_List3_Small_n0_1_2(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_List3_Small_n0_1_2(p *S3_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_List3_Small_n0_1_2(&p.B), get_U16(&p.C)}}
}

type SV_List3_Small_n0_1_2 struct {
	A List3_Small_n0_1_2
	B Bytes2_g1
	C List3_Small_n0_1_2
}

func sch_SV_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Small_n0_1_2(), sch_Bytes2_g1(), sch_List3_Small_n0_1_2()}, Names: []string{"A", "B", "C"}}
}
func set_SV_List3_Small_n0_1_2(p *SV_List3_Small_n0_1_2, v *Val) {
	set_List3_Small_n0_1_2(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_List3_Small_n0_1_2(&p.C, v.Elems[2])
}
func get_SV_List3_Small_n0_1_2(p *SV_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_List3_Small_n0_1_2(&p.A), get_Bytes2_g1(&p.B), get_List3_Small_n0_1_2(&p.C)}}
}
func sch_Ptr_List3_Small_n0_1_2() *Sch { return sch_List3_Small_n0_1_2() }
func set_Ptr_List3_Small_n0_1_2(p **List3_Small_n0_1_2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List3_Small_n0_1_2)
	}
	set_List3_Small_n0_1_2(*p, v)
}
func get_Ptr_List3_Small_n0_1_2(p **List3_Small_n0_1_2) *Val { return get_List3_Small_n0_1_2(*p) }

type SP_List3_Small_n0_1_2 struct {
	A Bytes2_g1
	B *List3_Small_n0_1_2
	C uint8
}

func sch_SP_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_List3_Small_n0_1_2(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_List3_Small_n0_1_2(p *SP_List3_Small_n0_1_2, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_List3_Small_n0_1_2(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_List3_Small_n0_1_2(p *SP_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_List3_Small_n0_1_2(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_List3_Small_n0_1_2() *Sch { return sVec(sch_List3_Small_n0_1_2(), 1) }
func set_Vec1_List3_Small_n0_1_2(p *[1]List3_Small_n0_1_2, v *Val) {
	for i := range p {
		set_List3_Small_n0_1_2(&p[i], v.Elems[i])
	}
}
func get_Vec1_List3_Small_n0_1_2(p *[1]List3_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_Small_n0_1_2(&p[i]))
	}
	return v
}
func sch_Vec2_List3_Small_n0_1_2() *Sch { return sVec(sch_List3_Small_n0_1_2(), 2) }
func set_Vec2_List3_Small_n0_1_2(p *[2]List3_Small_n0_1_2, v *Val) {
	for i := range p {
		set_List3_Small_n0_1_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_List3_Small_n0_1_2(p *[2]List3_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_Small_n0_1_2(&p[i]))
	}
	return v
}

type List4_List3_Small_n0_1_2_n0_1_2 []List3_Small_n0_1_2

func (*List4_List3_Small_n0_1_2_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_List3_Small_n0_1_2_n0_1_2() *Sch {
	return lens(sList(sch_List3_Small_n0_1_2(), 4, 2), 0, 1, 2)
}
func set_List4_List3_Small_n0_1_2_n0_1_2(p *List4_List3_Small_n0_1_2_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_List3_Small_n0_1_2_n0_1_2, n+1)
			set_List3_Small_n0_1_2(&(*p)[n], junk(sch_List3_Small_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Small_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List4_List3_Small_n0_1_2_n0_1_2(p *List4_List3_Small_n0_1_2_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Small_n0_1_2(&(*p)[i]))
	}
	return v
}

type List8589934592_List3_Small_n0_1_2_n0_1 []List3_Small_n0_1_2

func (*List8589934592_List3_Small_n0_1_2_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_List3_Small_n0_1_2_n0_1() *Sch {
	return lens(sList(sch_List3_Small_n0_1_2(), 8589934592, 1), 0, 1)
}
func set_List8589934592_List3_Small_n0_1_2_n0_1(p *List8589934592_List3_Small_n0_1_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_List3_Small_n0_1_2_n0_1, n+1)
			set_List3_Small_n0_1_2(&(*p)[n], junk(sch_List3_Small_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Small_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_List3_Small_n0_1_2_n0_1(p *List8589934592_List3_Small_n0_1_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Small_n0_1_2(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_List3_Small_n0_1_2() *Sch { return sVec(sch_Vec1_List3_Small_n0_1_2(), 2) }
func set_Vec2_Vec1_List3_Small_n0_1_2(p *[2][1]List3_Small_n0_1_2, v *Val) {
	for i := range p {
		set_Vec1_List3_Small_n0_1_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_List3_Small_n0_1_2(p *[2][1]List3_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_List3_Small_n0_1_2(&p[i]))
	}
	return v
}

type List2_Vec2_List3_Small_n0_1_2_n0_1 [][2]List3_Small_n0_1_2

func (*List2_Vec2_List3_Small_n0_1_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_List3_Small_n0_1_2_n0_1() *Sch {
	return lens(sList(sch_Vec2_List3_Small_n0_1_2(), 2, 1), 0, 1)
}
func set_List2_Vec2_List3_Small_n0_1_2_n0_1(p *List2_Vec2_List3_Small_n0_1_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_List3_Small_n0_1_2_n0_1, n+1)
			set_Vec2_List3_Small_n0_1_2(&(*p)[n], junk(sch_Vec2_List3_Small_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_List3_Small_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_List3_Small_n0_1_2_n0_1(p *List2_Vec2_List3_Small_n0_1_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_List3_Small_n0_1_2(&(*p)[i]))
	}
	return v
}

type List2_List3_Small_n0_1_2_n0_1 []List3_Small_n0_1_2

func (*List2_List3_Small_n0_1_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_List3_Small_n0_1_2_n0_1() *Sch {
	return lens(sList(sch_List3_Small_n0_1_2(), 2, 1), 0, 1)
}
func set_List2_List3_Small_n0_1_2_n0_1(p *List2_List3_Small_n0_1_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List3_Small_n0_1_2_n0_1, n+1)
			set_List3_Small_n0_1_2(&(*p)[n], junk(sch_List3_Small_n0_1_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Small_n0_1_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List3_Small_n0_1_2_n0_1(p *List2_List3_Small_n0_1_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Small_n0_1_2(&(*p)[i]))
	}
	return v
}

type List2_List2_List3_Small_n0_1_2_n0_1_n0_2 []List2_List3_Small_n0_1_2_n0_1

func (*List2_List2_List3_Small_n0_1_2_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_List3_Small_n0_1_2_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_List3_Small_n0_1_2_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_List3_Small_n0_1_2_n0_1_n0_2(p *List2_List2_List3_Small_n0_1_2_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List3_Small_n0_1_2_n0_1_n0_2, n+1)
			set_List2_List3_Small_n0_1_2_n0_1(&(*p)[n], junk(sch_List2_List3_Small_n0_1_2_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List3_Small_n0_1_2_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List3_Small_n0_1_2_n0_1_n0_2(p *List2_List2_List3_Small_n0_1_2_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List3_Small_n0_1_2_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_List3_Small_n0_1_2 struct {
	X List3_Small_n0_1_2
	Y Bytes2_g1
}

func sch_SqI_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Small_n0_1_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_List3_Small_n0_1_2(p *SqI_List3_Small_n0_1_2, v *Val) {
	set_List3_Small_n0_1_2(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_List3_Small_n0_1_2(p *SqI_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_List3_Small_n0_1_2(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_List3_Small_n0_1_2 struct {
	H uint16
	I SqI_List3_Small_n0_1_2 `ssz:"squash"`
	T List3_Small_n0_1_2
}

func sch_Sq_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_List3_Small_n0_1_2(), sch_Bytes2_g1(), sch_List3_Small_n0_1_2()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_List3_Small_n0_1_2(p *Sq_List3_Small_n0_1_2, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_List3_Small_n0_1_2(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_List3_Small_n0_1_2(&p.T, v.Elems[3])
}
func get_Sq_List3_Small_n0_1_2(p *Sq_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_List3_Small_n0_1_2(&p.I.X), get_Bytes2_g1(&p.I.Y), get_List3_Small_n0_1_2(&p.T)}}
}

type EmI_List3_Small_n0_1_2 struct {
	X uint8
	Y List3_Small_n0_1_2
}

func sch_EmI_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Small_n0_1_2()}, Names: []string{"X", "Y"}}
}
func set_EmI_List3_Small_n0_1_2(p *EmI_List3_Small_n0_1_2, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_List3_Small_n0_1_2(&p.Y, v.Elems[1])
}
func get_EmI_List3_Small_n0_1_2(p *EmI_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_List3_Small_n0_1_2(&p.Y)}}
}

type Em_List3_Small_n0_1_2 struct {
	EmI_List3_Small_n0_1_2
	T Bytes2_g1
}

func sch_Em_List3_Small_n0_1_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Small_n0_1_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_List3_Small_n0_1_2(p *Em_List3_Small_n0_1_2, v *Val) {
	set_U8(&p.EmI_List3_Small_n0_1_2.X, v.Elems[0])
	set_List3_Small_n0_1_2(&p.EmI_List3_Small_n0_1_2.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_List3_Small_n0_1_2(p *Em_List3_Small_n0_1_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_List3_Small_n0_1_2.X), get_List3_Small_n0_1_2(&p.EmI_List3_Small_n0_1_2.Y), get_Bytes2_g1(&p.T)}}
}

type List3_Bytes2_g1_n0_2 []Bytes2_g1

func (*List3_Bytes2_g1_n0_2) Limit() uint64 { return 3 }
func sch_List3_Bytes2_g1_n0_2() *Sch        { return lens(sList(sch_Bytes2_g1(), 3, 2), 0, 2) }
func set_List3_Bytes2_g1_n0_2(p *List3_Bytes2_g1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bytes2_g1_n0_2, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bytes2_g1_n0_2(p *List3_Bytes2_g1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type S1_List3_Bytes2_g1_n0_2 struct {
	A List3_Bytes2_g1_n0_2
}

func sch_S1_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Bytes2_g1_n0_2()}, Names: []string{"A"}}
}
func set_S1_List3_Bytes2_g1_n0_2(p *S1_List3_Bytes2_g1_n0_2, v *Val) {
	set_List3_Bytes2_g1_n0_2(&p.A, v.Elems[0])
}
func get_S1_List3_Bytes2_g1_n0_2(p *S1_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_List3_Bytes2_g1_n0_2(&p.A)}}
}

type S3_List3_Bytes2_g1_n0_2 struct {
	A uint8
	B List3_Bytes2_g1_n0_2
	C uint16
}

func sch_S3_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Bytes2_g1_n0_2(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_List3_Bytes2_g1_n0_2(p *S3_List3_Bytes2_g1_n0_2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_List3_Bytes2_g1_n0_2(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_List3_Bytes2_g1_n0_2(p *S3_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_List3_Bytes2_g1_n0_2(&p.B), get_U16(&p.C)}}
}

type SV_List3_Bytes2_g1_n0_2 struct {
	A List3_Bytes2_g1_n0_2
	B Bytes2_g1
	C List3_Bytes2_g1_n0_2
}

func sch_SV_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Bytes2_g1_n0_2(), sch_Bytes2_g1(), sch_List3_Bytes2_g1_n0_2()}, Names: []string{"A", "B", "C"}}
}
func set_SV_List3_Bytes2_g1_n0_2(p *SV_List3_Bytes2_g1_n0_2, v *Val) {
	set_List3_Bytes2_g1_n0_2(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_List3_Bytes2_g1_n0_2(&p.C, v.Elems[2])
}
func get_SV_List3_Bytes2_g1_n0_2(p *SV_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_List3_Bytes2_g1_n0_2(&p.A), get_Bytes2_g1(&p.B), get_List3_Bytes2_g1_n0_2(&p.C)}}
}
func sch_Ptr_List3_Bytes2_g1_n0_2() *Sch { return sch_List3_Bytes2_g1_n0_2() }
func set_Ptr_List3_Bytes2_g1_n0_2(p **List3_Bytes2_g1_n0_2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(List3_Bytes2_g1_n0_2)
	}
	set_List3_Bytes2_g1_n0_2(*p, v)
}
func get_Ptr_List3_Bytes2_g1_n0_2(p **List3_Bytes2_g1_n0_2) *Val { return get_List3_Bytes2_g1_n0_2(*p) }

type SP_List3_Bytes2_g1_n0_2 struct {
	A Bytes2_g1
	B *List3_Bytes2_g1_n0_2
	C uint8
}

func sch_SP_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_List3_Bytes2_g1_n0_2(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_List3_Bytes2_g1_n0_2(p *SP_List3_Bytes2_g1_n0_2, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_List3_Bytes2_g1_n0_2(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_List3_Bytes2_g1_n0_2(p *SP_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_List3_Bytes2_g1_n0_2(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_List3_Bytes2_g1_n0_2() *Sch { return sVec(sch_List3_Bytes2_g1_n0_2(), 1) }
func set_Vec1_List3_Bytes2_g1_n0_2(p *[1]List3_Bytes2_g1_n0_2, v *Val) {
	for i := range p {
		set_List3_Bytes2_g1_n0_2(&p[i], v.Elems[i])
	}
}
func get_Vec1_List3_Bytes2_g1_n0_2(p *[1]List3_Bytes2_g1_n0_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_Bytes2_g1_n0_2(&p[i]))
	}
	return v
}
func sch_Vec2_List3_Bytes2_g1_n0_2() *Sch { return sVec(sch_List3_Bytes2_g1_n0_2(), 2) }
func set_Vec2_List3_Bytes2_g1_n0_2(p *[2]List3_Bytes2_g1_n0_2, v *Val) {
	for i := range p {
		set_List3_Bytes2_g1_n0_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_List3_Bytes2_g1_n0_2(p *[2]List3_Bytes2_g1_n0_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List3_Bytes2_g1_n0_2(&p[i]))
	}
	return v
}

type List4_List3_Bytes2_g1_n0_2_n0_1_2 []List3_Bytes2_g1_n0_2

func (*List4_List3_Bytes2_g1_n0_2_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_List3_Bytes2_g1_n0_2_n0_1_2() *Sch {
	return lens(sList(sch_List3_Bytes2_g1_n0_2(), 4, 2), 0, 1, 2)
}
func set_List4_List3_Bytes2_g1_n0_2_n0_1_2(p *List4_List3_Bytes2_g1_n0_2_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_List3_Bytes2_g1_n0_2_n0_1_2, n+1)
			set_List3_Bytes2_g1_n0_2(&(*p)[n], junk(sch_List3_Bytes2_g1_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bytes2_g1_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List4_List3_Bytes2_g1_n0_2_n0_1_2(p *List4_List3_Bytes2_g1_n0_2_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bytes2_g1_n0_2(&(*p)[i]))
	}
	return v
}

type List8589934592_List3_Bytes2_g1_n0_2_n0_1 []List3_Bytes2_g1_n0_2

func (*List8589934592_List3_Bytes2_g1_n0_2_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_List3_Bytes2_g1_n0_2_n0_1() *Sch {
	return lens(sList(sch_List3_Bytes2_g1_n0_2(), 8589934592, 1), 0, 1)
}
func set_List8589934592_List3_Bytes2_g1_n0_2_n0_1(p *List8589934592_List3_Bytes2_g1_n0_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_List3_Bytes2_g1_n0_2_n0_1, n+1)
			set_List3_Bytes2_g1_n0_2(&(*p)[n], junk(sch_List3_Bytes2_g1_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bytes2_g1_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_List3_Bytes2_g1_n0_2_n0_1(p *List8589934592_List3_Bytes2_g1_n0_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bytes2_g1_n0_2(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_List3_Bytes2_g1_n0_2() *Sch { return sVec(sch_Vec1_List3_Bytes2_g1_n0_2(), 2) }
func set_Vec2_Vec1_List3_Bytes2_g1_n0_2(p *[2][1]List3_Bytes2_g1_n0_2, v *Val) {
	for i := range p {
		set_Vec1_List3_Bytes2_g1_n0_2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_List3_Bytes2_g1_n0_2(p *[2][1]List3_Bytes2_g1_n0_2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_List3_Bytes2_g1_n0_2(&p[i]))
	}
	return v
}

type List2_Vec2_List3_Bytes2_g1_n0_2_n0_1 [][2]List3_Bytes2_g1_n0_2

func (*List2_Vec2_List3_Bytes2_g1_n0_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_List3_Bytes2_g1_n0_2_n0_1() *Sch {
	return lens(sList(sch_Vec2_List3_Bytes2_g1_n0_2(), 2, 1), 0, 1)
}
func set_List2_Vec2_List3_Bytes2_g1_n0_2_n0_1(p *List2_Vec2_List3_Bytes2_g1_n0_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_List3_Bytes2_g1_n0_2_n0_1, n+1)
			set_Vec2_List3_Bytes2_g1_n0_2(&(*p)[n], junk(sch_Vec2_List3_Bytes2_g1_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_List3_Bytes2_g1_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_List3_Bytes2_g1_n0_2_n0_1(p *List2_Vec2_List3_Bytes2_g1_n0_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_List3_Bytes2_g1_n0_2(&(*p)[i]))
	}
	return v
}

type List2_List3_Bytes2_g1_n0_2_n0_1 []List3_Bytes2_g1_n0_2

func (*List2_List3_Bytes2_g1_n0_2_n0_1) Limit() uint64 { return 2 }
func sch_List2_List3_Bytes2_g1_n0_2_n0_1() *Sch {
	return lens(sList(sch_List3_Bytes2_g1_n0_2(), 2, 1), 0, 1)
}
func set_List2_List3_Bytes2_g1_n0_2_n0_1(p *List2_List3_Bytes2_g1_n0_2_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List3_Bytes2_g1_n0_2_n0_1, n+1)
			set_List3_Bytes2_g1_n0_2(&(*p)[n], junk(sch_List3_Bytes2_g1_n0_2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bytes2_g1_n0_2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List3_Bytes2_g1_n0_2_n0_1(p *List2_List3_Bytes2_g1_n0_2_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bytes2_g1_n0_2(&(*p)[i]))
	}
	return v
}

type List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2 []List2_List3_Bytes2_g1_n0_2_n0_1

func (*List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_List3_Bytes2_g1_n0_2_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2(p *List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2, n+1)
			set_List2_List3_Bytes2_g1_n0_2_n0_1(&(*p)[n], junk(sch_List2_List3_Bytes2_g1_n0_2_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List3_Bytes2_g1_n0_2_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2(p *List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List3_Bytes2_g1_n0_2_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_List3_Bytes2_g1_n0_2 struct {
	X List3_Bytes2_g1_n0_2
	Y Bytes2_g1
}

func sch_SqI_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List3_Bytes2_g1_n0_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_List3_Bytes2_g1_n0_2(p *SqI_List3_Bytes2_g1_n0_2, v *Val) {
	set_List3_Bytes2_g1_n0_2(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_List3_Bytes2_g1_n0_2(p *SqI_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_List3_Bytes2_g1_n0_2(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_List3_Bytes2_g1_n0_2 struct {
	H uint16
	I SqI_List3_Bytes2_g1_n0_2 `ssz:"squash"`
	T List3_Bytes2_g1_n0_2
}

func sch_Sq_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_List3_Bytes2_g1_n0_2(), sch_Bytes2_g1(), sch_List3_Bytes2_g1_n0_2()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_List3_Bytes2_g1_n0_2(p *Sq_List3_Bytes2_g1_n0_2, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_List3_Bytes2_g1_n0_2(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_List3_Bytes2_g1_n0_2(&p.T, v.Elems[3])
}
func get_Sq_List3_Bytes2_g1_n0_2(p *Sq_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_List3_Bytes2_g1_n0_2(&p.I.X), get_Bytes2_g1(&p.I.Y), get_List3_Bytes2_g1_n0_2(&p.T)}}
}

type EmI_List3_Bytes2_g1_n0_2 struct {
	X uint8
	Y List3_Bytes2_g1_n0_2
}

func sch_EmI_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Bytes2_g1_n0_2()}, Names: []string{"X", "Y"}}
}
func set_EmI_List3_Bytes2_g1_n0_2(p *EmI_List3_Bytes2_g1_n0_2, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_List3_Bytes2_g1_n0_2(&p.Y, v.Elems[1])
}
func get_EmI_List3_Bytes2_g1_n0_2(p *EmI_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_List3_Bytes2_g1_n0_2(&p.Y)}}
}

type Em_List3_Bytes2_g1_n0_2 struct {
	EmI_List3_Bytes2_g1_n0_2
	T Bytes2_g1
}

func sch_Em_List3_Bytes2_g1_n0_2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_List3_Bytes2_g1_n0_2(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_List3_Bytes2_g1_n0_2(p *Em_List3_Bytes2_g1_n0_2, v *Val) {
	set_U8(&p.EmI_List3_Bytes2_g1_n0_2.X, v.Elems[0])
	set_List3_Bytes2_g1_n0_2(&p.EmI_List3_Bytes2_g1_n0_2.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_List3_Bytes2_g1_n0_2(p *Em_List3_Bytes2_g1_n0_2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_List3_Bytes2_g1_n0_2.X), get_List3_Bytes2_g1_n0_2(&p.EmI_List3_Bytes2_g1_n0_2.Y), get_Bytes2_g1(&p.T)}}
}
func sch_Vec2_Bytes3_g1() *Sch { return sVec(sch_Bytes3_g1(), 2) }
func set_Vec2_Bytes3_g1(p *[2]Bytes3_g1, v *Val) {
	for i := range p {
		set_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Bytes3_g1(p *[2]Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes3_g1(&p[i]))
	}
	return v
}

type S1_Vec2_Bytes3_g1 struct {
	A [2]Bytes3_g1
}

func sch_S1_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Bytes3_g1()}, Names: []string{"A"}}
}
func set_S1_Vec2_Bytes3_g1(p *S1_Vec2_Bytes3_g1, v *Val) {
	set_Vec2_Bytes3_g1(&p.A, v.Elems[0])
}
func get_S1_Vec2_Bytes3_g1(p *S1_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Vec2_Bytes3_g1(&p.A)}}
}

type S3_Vec2_Bytes3_g1 struct {
	A uint8
	B [2]Bytes3_g1
	C uint16
}

func sch_S3_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Bytes3_g1(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Vec2_Bytes3_g1(p *S3_Vec2_Bytes3_g1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Vec2_Bytes3_g1(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Vec2_Bytes3_g1(p *S3_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Vec2_Bytes3_g1(&p.B), get_U16(&p.C)}}
}

type SV_Vec2_Bytes3_g1 struct {
	A [2]Bytes3_g1
	B Bytes2_g1
	C [2]Bytes3_g1
}

func sch_SV_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Bytes3_g1(), sch_Bytes2_g1(), sch_Vec2_Bytes3_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SV_Vec2_Bytes3_g1(p *SV_Vec2_Bytes3_g1, v *Val) {
	set_Vec2_Bytes3_g1(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Vec2_Bytes3_g1(&p.C, v.Elems[2])
}
func get_SV_Vec2_Bytes3_g1(p *SV_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Vec2_Bytes3_g1(&p.A), get_Bytes2_g1(&p.B), get_Vec2_Bytes3_g1(&p.C)}}
}
func sch_Ptr_Vec2_Bytes3_g1() *Sch { return sch_Vec2_Bytes3_g1() }
func set_Ptr_Vec2_Bytes3_g1(p **[2]Bytes3_g1, v *Val) {
	if !inPlace || *p == nil {
		*p = new([2]Bytes3_g1)
	}
	set_Vec2_Bytes3_g1(*p, v)
}
func get_Ptr_Vec2_Bytes3_g1(p **[2]Bytes3_g1) *Val { return get_Vec2_Bytes3_g1(*p) }

type SP_Vec2_Bytes3_g1 struct {
	A Bytes2_g1
	B *[2]Bytes3_g1
	C uint8
}

func sch_SP_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_Ptr_Vec2_Bytes3_g1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Vec2_Bytes3_g1(p *SP_Vec2_Bytes3_g1, v *Val) {
	set_Bytes2_g1(&p.A, v.Elems[0])
	set_Ptr_Vec2_Bytes3_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SP_Vec2_Bytes3_g1(p *SP_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.A), get_Ptr_Vec2_Bytes3_g1(&p.B), get_U8(&p.C)}}
}
func sch_Vec1_Vec2_Bytes3_g1() *Sch { return sVec(sch_Vec2_Bytes3_g1(), 1) }
func set_Vec1_Vec2_Bytes3_g1(p *[1][2]Bytes3_g1, v *Val) {
	for i := range p {
		set_Vec2_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec1_Vec2_Bytes3_g1(p *[1][2]Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Bytes3_g1(&p[i]))
	}
	return v
}
func sch_Vec2_Vec2_Bytes3_g1() *Sch { return sVec(sch_Vec2_Bytes3_g1(), 2) }
func set_Vec2_Vec2_Bytes3_g1(p *[2][2]Bytes3_g1, v *Val) {
	for i := range p {
		set_Vec2_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec2_Bytes3_g1(p *[2][2]Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Bytes3_g1(&p[i]))
	}
	return v
}

type List4_Vec2_Bytes3_g1_n0_1_2 [][2]Bytes3_g1

func (*List4_Vec2_Bytes3_g1_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Vec2_Bytes3_g1_n0_1_2() *Sch        { return lens(sList(sch_Vec2_Bytes3_g1(), 4, 2), 0, 1, 2) }
func set_List4_Vec2_Bytes3_g1_n0_1_2(p *List4_Vec2_Bytes3_g1_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Vec2_Bytes3_g1_n0_1_2, n+1)
			set_Vec2_Bytes3_g1(&(*p)[n], junk(sch_Vec2_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Vec2_Bytes3_g1_n0_1_2(p *List4_Vec2_Bytes3_g1_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bytes3_g1(&(*p)[i]))
	}
	return v
}

type List8589934592_Vec2_Bytes3_g1_n0_1 [][2]Bytes3_g1

func (*List8589934592_Vec2_Bytes3_g1_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Vec2_Bytes3_g1_n0_1() *Sch {
	return lens(sList(sch_Vec2_Bytes3_g1(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Vec2_Bytes3_g1_n0_1(p *List8589934592_Vec2_Bytes3_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Vec2_Bytes3_g1_n0_1, n+1)
			set_Vec2_Bytes3_g1(&(*p)[n], junk(sch_Vec2_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Vec2_Bytes3_g1_n0_1(p *List8589934592_Vec2_Bytes3_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bytes3_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Vec2_Bytes3_g1() *Sch { return sVec(sch_Vec1_Vec2_Bytes3_g1(), 2) }
func set_Vec2_Vec1_Vec2_Bytes3_g1(p *[2][1][2]Bytes3_g1, v *Val) {
	for i := range p {
		set_Vec1_Vec2_Bytes3_g1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Vec2_Bytes3_g1(p *[2][1][2]Bytes3_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Vec2_Bytes3_g1(&p[i]))
	}
	return v
}

type List2_Vec2_Vec2_Bytes3_g1_n0_1 [][2][2]Bytes3_g1

func (*List2_Vec2_Vec2_Bytes3_g1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Vec2_Bytes3_g1_n0_1() *Sch {
	return lens(sList(sch_Vec2_Vec2_Bytes3_g1(), 2, 1), 0, 1)
}
func set_List2_Vec2_Vec2_Bytes3_g1_n0_1(p *List2_Vec2_Vec2_Bytes3_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Vec2_Bytes3_g1_n0_1, n+1)
			set_Vec2_Vec2_Bytes3_g1(&(*p)[n], junk(sch_Vec2_Vec2_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Vec2_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Vec2_Bytes3_g1_n0_1(p *List2_Vec2_Vec2_Bytes3_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Vec2_Bytes3_g1(&(*p)[i]))
	}
	return v
}

type List2_Vec2_Bytes3_g1_n0_1 [][2]Bytes3_g1

func (*List2_Vec2_Bytes3_g1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Bytes3_g1_n0_1() *Sch        { return lens(sList(sch_Vec2_Bytes3_g1(), 2, 1), 0, 1) }
func set_List2_Vec2_Bytes3_g1_n0_1(p *List2_Vec2_Bytes3_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Bytes3_g1_n0_1, n+1)
			set_Vec2_Bytes3_g1(&(*p)[n], junk(sch_Vec2_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Bytes3_g1_n0_1(p *List2_Vec2_Bytes3_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Bytes3_g1(&(*p)[i]))
	}
	return v
}

type List2_List2_Vec2_Bytes3_g1_n0_1_n0_2 []List2_Vec2_Bytes3_g1_n0_1

func (*List2_List2_Vec2_Bytes3_g1_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Vec2_Bytes3_g1_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Vec2_Bytes3_g1_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Vec2_Bytes3_g1_n0_1_n0_2(p *List2_List2_Vec2_Bytes3_g1_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Vec2_Bytes3_g1_n0_1_n0_2, n+1)
			set_List2_Vec2_Bytes3_g1_n0_1(&(*p)[n], junk(sch_List2_Vec2_Bytes3_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Vec2_Bytes3_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Vec2_Bytes3_g1_n0_1_n0_2(p *List2_List2_Vec2_Bytes3_g1_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Vec2_Bytes3_g1_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Vec2_Bytes3_g1 struct {
	X [2]Bytes3_g1
	Y Bytes2_g1
}

func sch_SqI_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Bytes3_g1(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Vec2_Bytes3_g1(p *SqI_Vec2_Bytes3_g1, v *Val) {
	set_Vec2_Bytes3_g1(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Vec2_Bytes3_g1(p *SqI_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_Vec2_Bytes3_g1(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Vec2_Bytes3_g1 struct {
	H uint16
	I SqI_Vec2_Bytes3_g1 `ssz:"squash"`
	T [2]Bytes3_g1
}

func sch_Sq_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Vec2_Bytes3_g1(), sch_Bytes2_g1(), sch_Vec2_Bytes3_g1()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Vec2_Bytes3_g1(p *Sq_Vec2_Bytes3_g1, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Vec2_Bytes3_g1(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Vec2_Bytes3_g1(&p.T, v.Elems[3])
}
func get_Sq_Vec2_Bytes3_g1(p *Sq_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Vec2_Bytes3_g1(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Vec2_Bytes3_g1(&p.T)}}
}

type EmI_Vec2_Bytes3_g1 struct {
	X uint8
	Y [2]Bytes3_g1
}

func sch_EmI_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Bytes3_g1()}, Names: []string{"X", "Y"}}
}
func set_EmI_Vec2_Bytes3_g1(p *EmI_Vec2_Bytes3_g1, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Vec2_Bytes3_g1(&p.Y, v.Elems[1])
}
func get_EmI_Vec2_Bytes3_g1(p *EmI_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Vec2_Bytes3_g1(&p.Y)}}
}

type Em_Vec2_Bytes3_g1 struct {
	EmI_Vec2_Bytes3_g1
	T Bytes2_g1
}

func sch_Em_Vec2_Bytes3_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Bytes3_g1(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Vec2_Bytes3_g1(p *Em_Vec2_Bytes3_g1, v *Val) {
	set_U8(&p.EmI_Vec2_Bytes3_g1.X, v.Elems[0])
	set_Vec2_Bytes3_g1(&p.EmI_Vec2_Bytes3_g1.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Vec2_Bytes3_g1(p *Em_Vec2_Bytes3_g1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Vec2_Bytes3_g1.X), get_Vec2_Bytes3_g1(&p.EmI_Vec2_Bytes3_g1.Y), get_Bytes2_g1(&p.T)}}
}

type S1_Vec2_Small struct {
	A [2]Small
}

func sch_S1_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Small()}, Names: []string{"A"}}
}
func set_S1_Vec2_Small(p *S1_Vec2_Small, v *Val) {
	set_Vec2_Small(&p.A, v.Elems[0])
}
func get_S1_Vec2_Small(p *S1_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_Vec2_Small(&p.A)}}
}

type S3_Vec2_Small struct {
	A uint8
	B [2]Small
	C uint16
}

func sch_S3_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Small(), sch_U16()}, Names: []string{"A", "B", "C"}}
}
func set_S3_Vec2_Small(p *S3_Vec2_Small, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Vec2_Small(&p.B, v.Elems[1])
	set_U16(&p.C, v.Elems[2])
}
func get_S3_Vec2_Small(p *S3_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Vec2_Small(&p.B), get_U16(&p.C)}}
}

type SV_Vec2_Small struct {
	A [2]Small
	B Bytes2_g1
	C [2]Small
	D Bytes2_g1
}

func sch_SV_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Small(), sch_Bytes2_g1(), sch_Vec2_Small(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D"}}
}
func set_SV_Vec2_Small(p *SV_Vec2_Small, v *Val) {
	set_Vec2_Small(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
	set_Vec2_Small(&p.C, v.Elems[2])
	set_Bytes2_g1(&p.D, v.Elems[3])
}
func get_SV_Vec2_Small(p *SV_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_Vec2_Small(&p.A), get_Bytes2_g1(&p.B), get_Vec2_Small(&p.C), get_Bytes2_g1(&p.D)}}
}

type SP_Vec2_Small struct {
	A uint8
	B *[2]Small
	C Bytes2_g1
}

func sch_SP_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Ptr_Vec2_Small(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C"}}
}
func set_SP_Vec2_Small(p *SP_Vec2_Small, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Ptr_Vec2_Small(&p.B, v.Elems[1])
	set_Bytes2_g1(&p.C, v.Elems[2])
}
func get_SP_Vec2_Small(p *SP_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Ptr_Vec2_Small(&p.B), get_Bytes2_g1(&p.C)}}
}
func sch_Vec1_Vec2_Small() *Sch { return sVec(sch_Vec2_Small(), 1) }
func set_Vec1_Vec2_Small(p *[1][2]Small, v *Val) {
	for i := range p {
		set_Vec2_Small(&p[i], v.Elems[i])
	}
}
func get_Vec1_Vec2_Small(p *[1][2]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Small(&p[i]))
	}
	return v
}
func sch_Vec2_Vec2_Small() *Sch { return sVec(sch_Vec2_Small(), 2) }
func set_Vec2_Vec2_Small(p *[2][2]Small, v *Val) {
	for i := range p {
		set_Vec2_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec2_Small(p *[2][2]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Small(&p[i]))
	}
	return v
}

type List4_Vec2_Small_n0_1_2 [][2]Small

func (*List4_Vec2_Small_n0_1_2) Limit() uint64 { return 4 }
func sch_List4_Vec2_Small_n0_1_2() *Sch        { return lens(sList(sch_Vec2_Small(), 4, 2), 0, 1, 2) }
func set_List4_Vec2_Small_n0_1_2(p *List4_Vec2_Small_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Vec2_Small_n0_1_2, n+1)
			set_Vec2_Small(&(*p)[n], junk(sch_Vec2_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Vec2_Small_n0_1_2(p *List4_Vec2_Small_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Small(&(*p)[i]))
	}
	return v
}

type List8589934592_Vec2_Small_n0_1 [][2]Small

func (*List8589934592_Vec2_Small_n0_1) Limit() uint64 { return 8589934592 }
func sch_List8589934592_Vec2_Small_n0_1() *Sch {
	return lens(sList(sch_Vec2_Small(), 8589934592, 1), 0, 1)
}
func set_List8589934592_Vec2_Small_n0_1(p *List8589934592_Vec2_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8589934592_Vec2_Small_n0_1, n+1)
			set_Vec2_Small(&(*p)[n], junk(sch_Vec2_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List8589934592_Vec2_Small_n0_1(p *List8589934592_Vec2_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Small(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Vec1_Vec2_Small() *Sch { return sVec(sch_Vec1_Vec2_Small(), 2) }
func set_Vec2_Vec1_Vec2_Small(p *[2][1][2]Small, v *Val) {
	for i := range p {
		set_Vec1_Vec2_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec1_Vec2_Small(p *[2][1][2]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec1_Vec2_Small(&p[i]))
	}
	return v
}

type List2_Vec2_Vec2_Small_n0_1 [][2][2]Small

func (*List2_Vec2_Vec2_Small_n0_1) Limit() uint64 { return 2 }
func sch_List2_Vec2_Vec2_Small_n0_1() *Sch        { return lens(sList(sch_Vec2_Vec2_Small(), 2, 1), 0, 1) }
func set_List2_Vec2_Vec2_Small_n0_1(p *List2_Vec2_Vec2_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Vec2_Small_n0_1, n+1)
			set_Vec2_Vec2_Small(&(*p)[n], junk(sch_Vec2_Vec2_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Vec2_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Vec2_Small_n0_1(p *List2_Vec2_Vec2_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Vec2_Small(&(*p)[i]))
	}
	return v
}

type List2_List2_Vec2_Small_n0_1_n0_2 []List2_Vec2_Small_n0_1

func (*List2_List2_Vec2_Small_n0_1_n0_2) Limit() uint64 { return 2 }
func sch_List2_List2_Vec2_Small_n0_1_n0_2() *Sch {
	return lens(sList(sch_List2_Vec2_Small_n0_1(), 2, 2), 0, 2)
}
func set_List2_List2_Vec2_Small_n0_1_n0_2(p *List2_List2_Vec2_Small_n0_1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Vec2_Small_n0_1_n0_2, n+1)
			set_List2_Vec2_Small_n0_1(&(*p)[n], junk(sch_List2_Vec2_Small_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Vec2_Small_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Vec2_Small_n0_1_n0_2(p *List2_List2_Vec2_Small_n0_1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Vec2_Small_n0_1(&(*p)[i]))
	}
	return v
}

type SqI_Vec2_Small struct {
	X [2]Small
	Y Bytes2_g1
}

func sch_SqI_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec2_Small(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqI_Vec2_Small(p *SqI_Vec2_Small, v *Val) {
	set_Vec2_Small(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqI_Vec2_Small(p *SqI_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_Vec2_Small(&p.X), get_Bytes2_g1(&p.Y)}}
}

type Sq_Vec2_Small struct {
	H uint16
	I SqI_Vec2_Small `ssz:"squash"`
	T [2]Small
}

func sch_Sq_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Vec2_Small(), sch_Bytes2_g1(), sch_Vec2_Small()}, Names: []string{"H", "X", "Y", "T"}}
}
func set_Sq_Vec2_Small(p *Sq_Vec2_Small, v *Val) {
	set_U16(&p.H, v.Elems[0])
	set_Vec2_Small(&p.I.X, v.Elems[1])
	set_Bytes2_g1(&p.I.Y, v.Elems[2])
	set_Vec2_Small(&p.T, v.Elems[3])
}
func get_Sq_Vec2_Small(p *Sq_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_U16(&p.H), get_Vec2_Small(&p.I.X), get_Bytes2_g1(&p.I.Y), get_Vec2_Small(&p.T)}}
}

type EmI_Vec2_Small struct {
	X uint8
	Y [2]Small
}

func sch_EmI_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Small()}, Names: []string{"X", "Y"}}
}
func set_EmI_Vec2_Small(p *EmI_Vec2_Small, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Vec2_Small(&p.Y, v.Elems[1])
}
func get_EmI_Vec2_Small(p *EmI_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Vec2_Small(&p.Y)}}
}

type Em_Vec2_Small struct {
	EmI_Vec2_Small
	T Bytes2_g1
}

func sch_Em_Vec2_Small() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Vec2_Small(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "T"}}
}
func set_Em_Vec2_Small(p *Em_Vec2_Small, v *Val) {
	set_U8(&p.EmI_Vec2_Small.X, v.Elems[0])
	set_Vec2_Small(&p.EmI_Vec2_Small.Y, v.Elems[1])
	set_Bytes2_g1(&p.T, v.Elems[2])
}
func get_Em_Vec2_Small(p *Em_Vec2_Small) *Val {
	return &Val{Elems: []*Val{get_U8(&p.EmI_Vec2_Small.X), get_Vec2_Small(&p.EmI_Vec2_Small.Y), get_Bytes2_g1(&p.T)}}
}

type Bitvec2 [1]byte

func (*Bitvec2) BitLen() uint64 { return 2 }
func sch_Bitvec2() *Sch {
	s := sBitvec(2)
	s.Print = func(v *Val) []byte {
		var x Bitvec2
		set_Bitvec2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec2)(nil)))
	}
	return s
}
func set_Bitvec2(p *Bitvec2, v *Val) { copy(p[:], v.B) }
func get_Bitvec2(p *Bitvec2) *Val    { return &Val{B: clone(p[:])} }

type Bitvec3 [1]byte

func (*Bitvec3) BitLen() uint64 { return 3 }
func sch_Bitvec3() *Sch {
	s := sBitvec(3)
	s.Print = func(v *Val) []byte {
		var x Bitvec3
		set_Bitvec3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec3)(nil)))
	}
	return s
}
func set_Bitvec3(p *Bitvec3, v *Val) { copy(p[:], v.B) }
func get_Bitvec3(p *Bitvec3) *Val    { return &Val{B: clone(p[:])} }

type Bitvec4 [1]byte

func (*Bitvec4) BitLen() uint64 { return 4 }
func sch_Bitvec4() *Sch {
	s := sBitvec(4)
	s.Print = func(v *Val) []byte {
		var x Bitvec4
		set_Bitvec4(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec4)(nil)))
	}
	return s
}
func set_Bitvec4(p *Bitvec4, v *Val) { copy(p[:], v.B) }
func get_Bitvec4(p *Bitvec4) *Val    { return &Val{B: clone(p[:])} }

type Bitvec5 [1]byte

func (*Bitvec5) BitLen() uint64 { return 5 }
func sch_Bitvec5() *Sch {
	s := sBitvec(5)
	s.Print = func(v *Val) []byte {
		var x Bitvec5
		set_Bitvec5(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec5)(nil)))
	}
	return s
}
func set_Bitvec5(p *Bitvec5, v *Val) { copy(p[:], v.B) }
func get_Bitvec5(p *Bitvec5) *Val    { return &Val{B: clone(p[:])} }

type Bitvec6 [1]byte

func (*Bitvec6) BitLen() uint64 { return 6 }
func sch_Bitvec6() *Sch {
	s := sBitvec(6)
	s.Print = func(v *Val) []byte {
		var x Bitvec6
		set_Bitvec6(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec6)(nil)))
	}
	return s
}
func set_Bitvec6(p *Bitvec6, v *Val) { copy(p[:], v.B) }
func get_Bitvec6(p *Bitvec6) *Val    { return &Val{B: clone(p[:])} }

type Bitvec10 [2]byte

func (*Bitvec10) BitLen() uint64 { return 10 }
func sch_Bitvec10() *Sch {
	s := sBitvec(10)
	s.Print = func(v *Val) []byte {
		var x Bitvec10
		set_Bitvec10(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec10)(nil)))
	}
	return s
}
func set_Bitvec10(p *Bitvec10, v *Val) { copy(p[:], v.B) }
func get_Bitvec10(p *Bitvec10) *Val    { return &Val{B: clone(p[:])} }

type Bitvec11 [2]byte

func (*Bitvec11) BitLen() uint64 { return 11 }
func sch_Bitvec11() *Sch {
	s := sBitvec(11)
	s.Print = func(v *Val) []byte {
		var x Bitvec11
		set_Bitvec11(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec11)(nil)))
	}
	return s
}
func set_Bitvec11(p *Bitvec11, v *Val) { copy(p[:], v.B) }
func get_Bitvec11(p *Bitvec11) *Val    { return &Val{B: clone(p[:])} }

type Bitvec12 [2]byte

func (*Bitvec12) BitLen() uint64 { return 12 }
func sch_Bitvec12() *Sch {
	s := sBitvec(12)
	s.Print = func(v *Val) []byte {
		var x Bitvec12
		set_Bitvec12(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec12)(nil)))
	}
	return s
}
func set_Bitvec12(p *Bitvec12, v *Val) { copy(p[:], v.B) }
func get_Bitvec12(p *Bitvec12) *Val    { return &Val{B: clone(p[:])} }

type Bitvec13 [2]byte

func (*Bitvec13) BitLen() uint64 { return 13 }
func sch_Bitvec13() *Sch {
	s := sBitvec(13)
	s.Print = func(v *Val) []byte {
		var x Bitvec13
		set_Bitvec13(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec13)(nil)))
	}
	return s
}
func set_Bitvec13(p *Bitvec13, v *Val) { copy(p[:], v.B) }
func get_Bitvec13(p *Bitvec13) *Val    { return &Val{B: clone(p[:])} }

type Bitvec14 [2]byte

func (*Bitvec14) BitLen() uint64 { return 14 }
func sch_Bitvec14() *Sch {
	s := sBitvec(14)
	s.Print = func(v *Val) []byte {
		var x Bitvec14
		set_Bitvec14(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec14)(nil)))
	}
	return s
}
func set_Bitvec14(p *Bitvec14, v *Val) { copy(p[:], v.B) }
func get_Bitvec14(p *Bitvec14) *Val    { return &Val{B: clone(p[:])} }

type Bitvec18 [3]byte

func (*Bitvec18) BitLen() uint64 { return 18 }
func sch_Bitvec18() *Sch {
	s := sBitvec(18)
	s.Print = func(v *Val) []byte {
		var x Bitvec18
		set_Bitvec18(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec18)(nil)))
	}
	return s
}
func set_Bitvec18(p *Bitvec18, v *Val) { copy(p[:], v.B) }
func get_Bitvec18(p *Bitvec18) *Val    { return &Val{B: clone(p[:])} }

type Bitvec19 [3]byte

func (*Bitvec19) BitLen() uint64 { return 19 }
func sch_Bitvec19() *Sch {
	s := sBitvec(19)
	s.Print = func(v *Val) []byte {
		var x Bitvec19
		set_Bitvec19(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec19)(nil)))
	}
	return s
}
func set_Bitvec19(p *Bitvec19, v *Val) { copy(p[:], v.B) }
func get_Bitvec19(p *Bitvec19) *Val    { return &Val{B: clone(p[:])} }

type Bitvec20 [3]byte

func (*Bitvec20) BitLen() uint64 { return 20 }
func sch_Bitvec20() *Sch {
	s := sBitvec(20)
	s.Print = func(v *Val) []byte {
		var x Bitvec20
		set_Bitvec20(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec20)(nil)))
	}
	return s
}
func set_Bitvec20(p *Bitvec20, v *Val) { copy(p[:], v.B) }
func get_Bitvec20(p *Bitvec20) *Val    { return &Val{B: clone(p[:])} }

type Bitvec21 [3]byte

func (*Bitvec21) BitLen() uint64 { return 21 }
func sch_Bitvec21() *Sch {
	s := sBitvec(21)
	s.Print = func(v *Val) []byte {
		var x Bitvec21
		set_Bitvec21(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec21)(nil)))
	}
	return s
}
func set_Bitvec21(p *Bitvec21, v *Val) { copy(p[:], v.B) }
func get_Bitvec21(p *Bitvec21) *Val    { return &Val{B: clone(p[:])} }

type Bitvec22 [3]byte

func (*Bitvec22) BitLen() uint64 { return 22 }
func sch_Bitvec22() *Sch {
	s := sBitvec(22)
	s.Print = func(v *Val) []byte {
		var x Bitvec22
		set_Bitvec22(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec22)(nil)))
	}
	return s
}
func set_Bitvec22(p *Bitvec22, v *Val) { copy(p[:], v.B) }
func get_Bitvec22(p *Bitvec22) *Val    { return &Val{B: clone(p[:])} }

type Bitvec23 [3]byte

func (*Bitvec23) BitLen() uint64 { return 23 }
func sch_Bitvec23() *Sch {
	s := sBitvec(23)
	s.Print = func(v *Val) []byte {
		var x Bitvec23
		set_Bitvec23(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec23)(nil)))
	}
	return s
}
func set_Bitvec23(p *Bitvec23, v *Val) { copy(p[:], v.B) }
func get_Bitvec23(p *Bitvec23) *Val    { return &Val{B: clone(p[:])} }

type Bitvec24 [3]byte

func (*Bitvec24) BitLen() uint64 { return 24 }
func sch_Bitvec24() *Sch {
	s := sBitvec(24)
	s.Print = func(v *Val) []byte {
		var x Bitvec24
		set_Bitvec24(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec24)(nil)))
	}
	return s
}
func set_Bitvec24(p *Bitvec24, v *Val) { copy(p[:], v.B) }
func get_Bitvec24(p *Bitvec24) *Val    { return &Val{B: clone(p[:])} }

type Bitvec31 [4]byte

func (*Bitvec31) BitLen() uint64 { return 31 }
func sch_Bitvec31() *Sch {
	s := sBitvec(31)
	s.Print = func(v *Val) []byte {
		var x Bitvec31
		set_Bitvec31(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec31)(nil)))
	}
	return s
}
func set_Bitvec31(p *Bitvec31, v *Val) { copy(p[:], v.B) }
func get_Bitvec31(p *Bitvec31) *Val    { return &Val{B: clone(p[:])} }

type Bitvec32 [4]byte

func (*Bitvec32) BitLen() uint64 { return 32 }
func sch_Bitvec32() *Sch {
	s := sBitvec(32)
	s.Print = func(v *Val) []byte {
		var x Bitvec32
		set_Bitvec32(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec32)(nil)))
	}
	return s
}
func set_Bitvec32(p *Bitvec32, v *Val) { copy(p[:], v.B) }
func get_Bitvec32(p *Bitvec32) *Val    { return &Val{B: clone(p[:])} }

type Bitvec33 [5]byte

func (*Bitvec33) BitLen() uint64 { return 33 }
func sch_Bitvec33() *Sch {
	s := sBitvec(33)
	s.Print = func(v *Val) []byte {
		var x Bitvec33
		set_Bitvec33(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec33)(nil)))
	}
	return s
}
func set_Bitvec33(p *Bitvec33, v *Val) { copy(p[:], v.B) }
func get_Bitvec33(p *Bitvec33) *Val    { return &Val{B: clone(p[:])} }

type Bitvec63 [8]byte

func (*Bitvec63) BitLen() uint64 { return 63 }
func sch_Bitvec63() *Sch {
	s := sBitvec(63)
	s.Print = func(v *Val) []byte {
		var x Bitvec63
		set_Bitvec63(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec63)(nil)))
	}
	return s
}
func set_Bitvec63(p *Bitvec63, v *Val) { copy(p[:], v.B) }
func get_Bitvec63(p *Bitvec63) *Val    { return &Val{B: clone(p[:])} }

type Bitvec64 [8]byte

func (*Bitvec64) BitLen() uint64 { return 64 }
func sch_Bitvec64() *Sch {
	s := sBitvec(64)
	s.Print = func(v *Val) []byte {
		var x Bitvec64
		set_Bitvec64(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec64)(nil)))
	}
	return s
}
func set_Bitvec64(p *Bitvec64, v *Val) { copy(p[:], v.B) }
func get_Bitvec64(p *Bitvec64) *Val    { return &Val{B: clone(p[:])} }

type Bitvec65 [9]byte

func (*Bitvec65) BitLen() uint64 { return 65 }
func sch_Bitvec65() *Sch {
	s := sBitvec(65)
	s.Print = func(v *Val) []byte {
		var x Bitvec65
		set_Bitvec65(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec65)(nil)))
	}
	return s
}
func set_Bitvec65(p *Bitvec65, v *Val) { copy(p[:], v.B) }
func get_Bitvec65(p *Bitvec65) *Val    { return &Val{B: clone(p[:])} }

type Bitvec127 [16]byte

func (*Bitvec127) BitLen() uint64 { return 127 }
func sch_Bitvec127() *Sch {
	s := sBitvec(127)
	s.Print = func(v *Val) []byte {
		var x Bitvec127
		set_Bitvec127(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec127)(nil)))
	}
	return s
}
func set_Bitvec127(p *Bitvec127, v *Val) { copy(p[:], v.B) }
func get_Bitvec127(p *Bitvec127) *Val    { return &Val{B: clone(p[:])} }

type Bitvec128 [16]byte

func (*Bitvec128) BitLen() uint64 { return 128 }
func sch_Bitvec128() *Sch {
	s := sBitvec(128)
	s.Print = func(v *Val) []byte {
		var x Bitvec128
		set_Bitvec128(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec128)(nil)))
	}
	return s
}
func set_Bitvec128(p *Bitvec128, v *Val) { copy(p[:], v.B) }
func get_Bitvec128(p *Bitvec128) *Val    { return &Val{B: clone(p[:])} }

type Bitvec129 [17]byte

func (*Bitvec129) BitLen() uint64 { return 129 }
func sch_Bitvec129() *Sch {
	s := sBitvec(129)
	s.Print = func(v *Val) []byte {
		var x Bitvec129
		set_Bitvec129(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec129)(nil)))
	}
	return s
}
func set_Bitvec129(p *Bitvec129, v *Val) { copy(p[:], v.B) }
func get_Bitvec129(p *Bitvec129) *Val    { return &Val{B: clone(p[:])} }

type Bitvec248 [31]byte

func (*Bitvec248) BitLen() uint64 { return 248 }
func sch_Bitvec248() *Sch {
	s := sBitvec(248)
	s.Print = func(v *Val) []byte {
		var x Bitvec248
		set_Bitvec248(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec248)(nil)))
	}
	return s
}
func set_Bitvec248(p *Bitvec248, v *Val) { copy(p[:], v.B) }
func get_Bitvec248(p *Bitvec248) *Val    { return &Val{B: clone(p[:])} }

type Bitvec249 [32]byte

func (*Bitvec249) BitLen() uint64 { return 249 }
func sch_Bitvec249() *Sch {
	s := sBitvec(249)
	s.Print = func(v *Val) []byte {
		var x Bitvec249
		set_Bitvec249(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec249)(nil)))
	}
	return s
}
func set_Bitvec249(p *Bitvec249, v *Val) { copy(p[:], v.B) }
func get_Bitvec249(p *Bitvec249) *Val    { return &Val{B: clone(p[:])} }

type Bitvec511 [64]byte

func (*Bitvec511) BitLen() uint64 { return 511 }
func sch_Bitvec511() *Sch {
	s := sBitvec(511)
	s.Print = func(v *Val) []byte {
		var x Bitvec511
		set_Bitvec511(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec511)(nil)))
	}
	return s
}
func set_Bitvec511(p *Bitvec511, v *Val) { copy(p[:], v.B) }
func get_Bitvec511(p *Bitvec511) *Val    { return &Val{B: clone(p[:])} }

type Bitvec513 [65]byte

func (*Bitvec513) BitLen() uint64 { return 513 }
func sch_Bitvec513() *Sch {
	s := sBitvec(513)
	s.Print = func(v *Val) []byte {
		var x Bitvec513
		set_Bitvec513(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec513)(nil)))
	}
	return s
}
func set_Bitvec513(p *Bitvec513, v *Val) { copy(p[:], v.B) }
func get_Bitvec513(p *Bitvec513) *Val    { return &Val{B: clone(p[:])} }

type Bitlist2_n0_1_2 []byte

func (b *Bitlist2_n0_1_2) Limit() uint64 { return 2 }
func (b Bitlist2_n0_1_2) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist2_n0_1_2() *Sch {
	s := lens(sBitlist(2, 2), 0, 1, 2)
	s.Print = func(v *Val) []byte {
		var x Bitlist2_n0_1_2
		set_Bitlist2_n0_1_2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist2_n0_1_2)(nil)))
	}
	return s
}
func set_Bitlist2_n0_1_2(p *Bitlist2_n0_1_2, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist2_n0_1_2(), v))
}
func get_Bitlist2_n0_1_2(p *Bitlist2_n0_1_2) *Val { return getBitlist(*p) }

type Bitlist3_n0_1_2_3 []byte

func (b *Bitlist3_n0_1_2_3) Limit() uint64 { return 3 }
func (b Bitlist3_n0_1_2_3) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist3_n0_1_2_3() *Sch {
	s := lens(sBitlist(3, 3), 0, 1, 2, 3)
	s.Print = func(v *Val) []byte {
		var x Bitlist3_n0_1_2_3
		set_Bitlist3_n0_1_2_3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist3_n0_1_2_3)(nil)))
	}
	return s
}
func set_Bitlist3_n0_1_2_3(p *Bitlist3_n0_1_2_3, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist3_n0_1_2_3(), v))
}
func get_Bitlist3_n0_1_2_3(p *Bitlist3_n0_1_2_3) *Val { return getBitlist(*p) }

type Bitlist6_n0_1_5_6 []byte

func (b *Bitlist6_n0_1_5_6) Limit() uint64 { return 6 }
func (b Bitlist6_n0_1_5_6) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist6_n0_1_5_6() *Sch {
	s := lens(sBitlist(6, 6), 0, 1, 5, 6)
	s.Print = func(v *Val) []byte {
		var x Bitlist6_n0_1_5_6
		set_Bitlist6_n0_1_5_6(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist6_n0_1_5_6)(nil)))
	}
	return s
}
func set_Bitlist6_n0_1_5_6(p *Bitlist6_n0_1_5_6, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist6_n0_1_5_6(), v))
}
func get_Bitlist6_n0_1_5_6(p *Bitlist6_n0_1_5_6) *Val { return getBitlist(*p) }

type Bitlist10_n0_1_9_10 []byte

func (b *Bitlist10_n0_1_9_10) Limit() uint64 { return 10 }
func (b Bitlist10_n0_1_9_10) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist10_n0_1_9_10() *Sch {
	s := lens(sBitlist(10, 10), 0, 1, 9, 10)
	s.Print = func(v *Val) []byte {
		var x Bitlist10_n0_1_9_10
		set_Bitlist10_n0_1_9_10(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist10_n0_1_9_10)(nil)))
	}
	return s
}
func set_Bitlist10_n0_1_9_10(p *Bitlist10_n0_1_9_10, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist10_n0_1_9_10(), v))
}
func get_Bitlist10_n0_1_9_10(p *Bitlist10_n0_1_9_10) *Val { return getBitlist(*p) }

type Bitlist23_n0_1_22_23 []byte

func (b *Bitlist23_n0_1_22_23) Limit() uint64 { return 23 }
func (b Bitlist23_n0_1_22_23) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist23_n0_1_22_23() *Sch {
	s := lens(sBitlist(23, 23), 0, 1, 22, 23)
	s.Print = func(v *Val) []byte {
		var x Bitlist23_n0_1_22_23
		set_Bitlist23_n0_1_22_23(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist23_n0_1_22_23)(nil)))
	}
	return s
}
func set_Bitlist23_n0_1_22_23(p *Bitlist23_n0_1_22_23, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist23_n0_1_22_23(), v))
}
func get_Bitlist23_n0_1_22_23(p *Bitlist23_n0_1_22_23) *Val { return getBitlist(*p) }

type Bitlist24_n0_1_23_24 []byte

func (b *Bitlist24_n0_1_23_24) Limit() uint64 { return 24 }
func (b Bitlist24_n0_1_23_24) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist24_n0_1_23_24() *Sch {
	s := lens(sBitlist(24, 24), 0, 1, 23, 24)
	s.Print = func(v *Val) []byte {
		var x Bitlist24_n0_1_23_24
		set_Bitlist24_n0_1_23_24(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist24_n0_1_23_24)(nil)))
	}
	return s
}
func set_Bitlist24_n0_1_23_24(p *Bitlist24_n0_1_23_24, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist24_n0_1_23_24(), v))
}
func get_Bitlist24_n0_1_23_24(p *Bitlist24_n0_1_23_24) *Val { return getBitlist(*p) }

type Bitlist25_n0_1_24_25 []byte

func (b *Bitlist25_n0_1_24_25) Limit() uint64 { return 25 }
func (b Bitlist25_n0_1_24_25) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist25_n0_1_24_25() *Sch {
	s := lens(sBitlist(25, 25), 0, 1, 24, 25)
	s.Print = func(v *Val) []byte {
		var x Bitlist25_n0_1_24_25
		set_Bitlist25_n0_1_24_25(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist25_n0_1_24_25)(nil)))
	}
	return s
}
func set_Bitlist25_n0_1_24_25(p *Bitlist25_n0_1_24_25, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist25_n0_1_24_25(), v))
}
func get_Bitlist25_n0_1_24_25(p *Bitlist25_n0_1_24_25) *Val { return getBitlist(*p) }

type Bitlist31_n0_1_30_31 []byte

func (b *Bitlist31_n0_1_30_31) Limit() uint64 { return 31 }
func (b Bitlist31_n0_1_30_31) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist31_n0_1_30_31() *Sch {
	s := lens(sBitlist(31, 31), 0, 1, 30, 31)
	s.Print = func(v *Val) []byte {
		var x Bitlist31_n0_1_30_31
		set_Bitlist31_n0_1_30_31(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist31_n0_1_30_31)(nil)))
	}
	return s
}
func set_Bitlist31_n0_1_30_31(p *Bitlist31_n0_1_30_31, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist31_n0_1_30_31(), v))
}
func get_Bitlist31_n0_1_30_31(p *Bitlist31_n0_1_30_31) *Val { return getBitlist(*p) }

type Bitlist32_n0_1_31_32 []byte

func (b *Bitlist32_n0_1_31_32) Limit() uint64 { return 32 }
func (b Bitlist32_n0_1_31_32) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist32_n0_1_31_32() *Sch {
	s := lens(sBitlist(32, 32), 0, 1, 31, 32)
	s.Print = func(v *Val) []byte {
		var x Bitlist32_n0_1_31_32
		set_Bitlist32_n0_1_31_32(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist32_n0_1_31_32)(nil)))
	}
	return s
}
func set_Bitlist32_n0_1_31_32(p *Bitlist32_n0_1_31_32, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist32_n0_1_31_32(), v))
}
func get_Bitlist32_n0_1_31_32(p *Bitlist32_n0_1_31_32) *Val { return getBitlist(*p) }

type Bitlist33_n0_1_32_33 []byte

func (b *Bitlist33_n0_1_32_33) Limit() uint64 { return 33 }
func (b Bitlist33_n0_1_32_33) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist33_n0_1_32_33() *Sch {
	s := lens(sBitlist(33, 33), 0, 1, 32, 33)
	s.Print = func(v *Val) []byte {
		var x Bitlist33_n0_1_32_33
		set_Bitlist33_n0_1_32_33(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist33_n0_1_32_33)(nil)))
	}
	return s
}
func set_Bitlist33_n0_1_32_33(p *Bitlist33_n0_1_32_33, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist33_n0_1_32_33(), v))
}
func get_Bitlist33_n0_1_32_33(p *Bitlist33_n0_1_32_33) *Val { return getBitlist(*p) }

type Bitlist64_n0_1_7_8_9 []byte

func (b *Bitlist64_n0_1_7_8_9) Limit() uint64 { return 64 }
func (b Bitlist64_n0_1_7_8_9) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist64_n0_1_7_8_9() *Sch {
	s := lens(sBitlist(64, 9), 0, 1, 7, 8, 9)
	s.Print = func(v *Val) []byte {
		var x Bitlist64_n0_1_7_8_9
		set_Bitlist64_n0_1_7_8_9(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist64_n0_1_7_8_9)(nil)))
	}
	return s
}
func set_Bitlist64_n0_1_7_8_9(p *Bitlist64_n0_1_7_8_9, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist64_n0_1_7_8_9(), v))
}
func get_Bitlist64_n0_1_7_8_9(p *Bitlist64_n0_1_7_8_9) *Val { return getBitlist(*p) }

type Bitlist248_n0_1_7_8_9_247_248 []byte

func (b *Bitlist248_n0_1_7_8_9_247_248) Limit() uint64 { return 248 }
func (b Bitlist248_n0_1_7_8_9_247_248) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist248_n0_1_7_8_9_247_248() *Sch {
	s := lens(sBitlist(248, 248), 0, 1, 7, 8, 9, 247, 248)
	s.Print = func(v *Val) []byte {
		var x Bitlist248_n0_1_7_8_9_247_248
		set_Bitlist248_n0_1_7_8_9_247_248(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist248_n0_1_7_8_9_247_248)(nil)))
	}
	return s
}
func set_Bitlist248_n0_1_7_8_9_247_248(p *Bitlist248_n0_1_7_8_9_247_248, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist248_n0_1_7_8_9_247_248(), v))
}
func get_Bitlist248_n0_1_7_8_9_247_248(p *Bitlist248_n0_1_7_8_9_247_248) *Val { return getBitlist(*p) }

type Bitlist255_n0_1_7_8_9_247_248_255 []byte

func (b *Bitlist255_n0_1_7_8_9_247_248_255) Limit() uint64 { return 255 }
func (b Bitlist255_n0_1_7_8_9_247_248_255) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist255_n0_1_7_8_9_247_248_255() *Sch {
	s := lens(sBitlist(255, 255), 0, 1, 7, 8, 9, 247, 248, 255)
	s.Print = func(v *Val) []byte {
		var x Bitlist255_n0_1_7_8_9_247_248_255
		set_Bitlist255_n0_1_7_8_9_247_248_255(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist255_n0_1_7_8_9_247_248_255)(nil)))
	}
	return s
}
func set_Bitlist255_n0_1_7_8_9_247_248_255(p *Bitlist255_n0_1_7_8_9_247_248_255, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist255_n0_1_7_8_9_247_248_255(), v))
}
func get_Bitlist255_n0_1_7_8_9_247_248_255(p *Bitlist255_n0_1_7_8_9_247_248_255) *Val {
	return getBitlist(*p)
}

type Bitlist256_n0_1_7_8_9_247_248_255_256 []byte

func (b *Bitlist256_n0_1_7_8_9_247_248_255_256) Limit() uint64 { return 256 }
func (b Bitlist256_n0_1_7_8_9_247_248_255_256) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist256_n0_1_7_8_9_247_248_255_256() *Sch {
	s := lens(sBitlist(256, 256), 0, 1, 7, 8, 9, 247, 248, 255, 256)
	s.Print = func(v *Val) []byte {
		var x Bitlist256_n0_1_7_8_9_247_248_255_256
		set_Bitlist256_n0_1_7_8_9_247_248_255_256(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist256_n0_1_7_8_9_247_248_255_256)(nil)))
	}
	return s
}
func set_Bitlist256_n0_1_7_8_9_247_248_255_256(p *Bitlist256_n0_1_7_8_9_247_248_255_256, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist256_n0_1_7_8_9_247_248_255_256(), v))
}
func get_Bitlist256_n0_1_7_8_9_247_248_255_256(p *Bitlist256_n0_1_7_8_9_247_248_255_256) *Val {
	return getBitlist(*p)
}

type Bitlist257_n0_1_7_8_9_247_248_255_256_257 []byte

func (b *Bitlist257_n0_1_7_8_9_247_248_255_256_257) Limit() uint64 { return 257 }
func (b Bitlist257_n0_1_7_8_9_247_248_255_256_257) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist257_n0_1_7_8_9_247_248_255_256_257() *Sch {
	s := lens(sBitlist(257, 257), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257)
	s.Print = func(v *Val) []byte {
		var x Bitlist257_n0_1_7_8_9_247_248_255_256_257
		set_Bitlist257_n0_1_7_8_9_247_248_255_256_257(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist257_n0_1_7_8_9_247_248_255_256_257)(nil)))
	}
	return s
}
func set_Bitlist257_n0_1_7_8_9_247_248_255_256_257(p *Bitlist257_n0_1_7_8_9_247_248_255_256_257, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist257_n0_1_7_8_9_247_248_255_256_257(), v))
}
func get_Bitlist257_n0_1_7_8_9_247_248_255_256_257(p *Bitlist257_n0_1_7_8_9_247_248_255_256_257) *Val {
	return getBitlist(*p)
}

type Bitlist264_n0_1_7_8_9_247_248_255_256_257_264 []byte

func (b *Bitlist264_n0_1_7_8_9_247_248_255_256_257_264) Limit() uint64 { return 264 }
func (b Bitlist264_n0_1_7_8_9_247_248_255_256_257_264) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264() *Sch {
	s := lens(sBitlist(264, 264), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264)
	s.Print = func(v *Val) []byte {
		var x Bitlist264_n0_1_7_8_9_247_248_255_256_257_264
		set_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist264_n0_1_7_8_9_247_248_255_256_257_264)(nil)))
	}
	return s
}
func set_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264(p *Bitlist264_n0_1_7_8_9_247_248_255_256_257_264, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264(), v))
}
func get_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264(p *Bitlist264_n0_1_7_8_9_247_248_255_256_257_264) *Val {
	return getBitlist(*p)
}

type Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511 []byte

func (b *Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511) Limit() uint64 { return 511 }
func (b Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511() *Sch {
	s := lens(sBitlist(511, 511), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511)
	s.Print = func(v *Val) []byte {
		var x Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511
		set_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511)(nil)))
	}
	return s
}
func set_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511(p *Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511(), v))
}
func get_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511(p *Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511) *Val {
	return getBitlist(*p)
}

type Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512 []byte

func (b *Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512) Limit() uint64 { return 512 }
func (b Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512() *Sch {
	s := lens(sBitlist(512, 512), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511, 512)
	s.Print = func(v *Val) []byte {
		var x Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512
		set_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512)(nil)))
	}
	return s
}
func set_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512(p *Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512(), v))
}
func get_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512(p *Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512) *Val {
	return getBitlist(*p)
}

type Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513 []byte

func (b *Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) Limit() uint64 { return 513 }
func (b Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513() *Sch {
	s := lens(sBitlist(513, 513), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511, 512, 513)
	s.Print = func(v *Val) []byte {
		var x Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513
		set_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil)))
	}
	return s
}
func set_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(), v))
}
func get_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) *Val {
	return getBitlist(*p)
}

type Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513 []byte

func (b *Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) Limit() uint64 { return 768 }
func (b Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513() *Sch {
	s := lens(sBitlist(768, 513), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511, 512, 513)
	s.Print = func(v *Val) []byte {
		var x Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513
		set_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil)))
	}
	return s
}
func set_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(), v))
}
func get_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) *Val {
	return getBitlist(*p)
}

type Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513 []byte

func (b *Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) Limit() uint64 { return 1024 }
func (b Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513() *Sch {
	s := lens(sBitlist(1024, 513), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511, 512, 513)
	s.Print = func(v *Val) []byte {
		var x Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513
		set_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil)))
	}
	return s
}
func set_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(), v))
}
func get_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) *Val {
	return getBitlist(*p)
}

type Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513 []byte

func (b *Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) Limit() uint64 {
	return 1099511627776
}
func (b Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) BitLen() uint64 {
	return bitfields.BitlistLen(b)
}
func sch_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513() *Sch {
	s := lens(sBitlist(1099511627776, 513), 0, 1, 7, 8, 9, 247, 248, 255, 256, 257, 264, 511, 512, 513)
	s.Print = func(v *Val) []byte {
		var x Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513
		set_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil)))
	}
	return s
}
func set_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(), v))
}
func get_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p *Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) *Val {
	return getBitlist(*p)
}
func sch_BytesN2() *Sch {
	s := sBytesN(2)
	s.Print = func(v *Val) []byte {
		var x [2]byte
		set_BytesN2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[2]byte)(nil)))
	}
	return s
}
func set_BytesN2(p *[2]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN2(p *[2]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN5() *Sch {
	s := sBytesN(5)
	s.Print = func(v *Val) []byte {
		var x [5]byte
		set_BytesN5(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[5]byte)(nil)))
	}
	return s
}
func set_BytesN5(p *[5]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN5(p *[5]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN8() *Sch {
	s := sBytesN(8)
	s.Print = func(v *Val) []byte {
		var x [8]byte
		set_BytesN8(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[8]byte)(nil)))
	}
	return s
}
func set_BytesN8(p *[8]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN8(p *[8]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN16() *Sch {
	s := sBytesN(16)
	s.Print = func(v *Val) []byte {
		var x [16]byte
		set_BytesN16(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[16]byte)(nil)))
	}
	return s
}
func set_BytesN16(p *[16]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN16(p *[16]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN20() *Sch {
	s := sBytesN(20)
	s.Print = func(v *Val) []byte {
		var x [20]byte
		set_BytesN20(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[20]byte)(nil)))
	}
	return s
}
func set_BytesN20(p *[20]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN20(p *[20]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN30() *Sch {
	s := sBytesN(30)
	s.Print = func(v *Val) []byte {
		var x [30]byte
		set_BytesN30(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[30]byte)(nil)))
	}
	return s
}
func set_BytesN30(p *[30]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN30(p *[30]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN48() *Sch {
	s := sBytesN(48)
	s.Print = func(v *Val) []byte {
		var x [48]byte
		set_BytesN48(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[48]byte)(nil)))
	}
	return s
}
func set_BytesN48(p *[48]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN48(p *[48]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN63() *Sch {
	s := sBytesN(63)
	s.Print = func(v *Val) []byte {
		var x [63]byte
		set_BytesN63(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[63]byte)(nil)))
	}
	return s
}
func set_BytesN63(p *[63]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN63(p *[63]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN95() *Sch {
	s := sBytesN(95)
	s.Print = func(v *Val) []byte {
		var x [95]byte
		set_BytesN95(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[95]byte)(nil)))
	}
	return s
}
func set_BytesN95(p *[95]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN95(p *[95]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN97() *Sch {
	s := sBytesN(97)
	s.Print = func(v *Val) []byte {
		var x [97]byte
		set_BytesN97(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[97]byte)(nil)))
	}
	return s
}
func set_BytesN97(p *[97]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN97(p *[97]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN128() *Sch {
	s := sBytesN(128)
	s.Print = func(v *Val) []byte {
		var x [128]byte
		set_BytesN128(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[128]byte)(nil)))
	}
	return s
}
func set_BytesN128(p *[128]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN128(p *[128]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN129() *Sch {
	s := sBytesN(129)
	s.Print = func(v *Val) []byte {
		var x [129]byte
		set_BytesN129(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[129]byte)(nil)))
	}
	return s
}
func set_BytesN129(p *[129]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN129(p *[129]byte) *Val    { return &Val{B: clone(p[:])} }

type Bytes2_n0_1 []byte

func (*Bytes2_n0_1) Limit() uint64 { return 2 }
func sch_Bytes2_n0_1() *Sch {
	s := lens(sBytes(2, 1), 0, 1)
	s.Print = func(v *Val) []byte {
		var x Bytes2_n0_1
		set_Bytes2_n0_1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes2_n0_1)(nil)))
	}
	return s
}
func set_Bytes2_n0_1(p *Bytes2_n0_1, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes2_n0_1(p *Bytes2_n0_1) *Val    { return &Val{B: clone(*p)} }

type Bytes31_n0_1_30_31 []byte

func (*Bytes31_n0_1_30_31) Limit() uint64 { return 31 }
func sch_Bytes31_n0_1_30_31() *Sch {
	s := lens(sBytes(31, 31), 0, 1, 30, 31)
	s.Print = func(v *Val) []byte {
		var x Bytes31_n0_1_30_31
		set_Bytes31_n0_1_30_31(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes31_n0_1_30_31)(nil)))
	}
	return s
}
func set_Bytes31_n0_1_30_31(p *Bytes31_n0_1_30_31, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes31_n0_1_30_31(p *Bytes31_n0_1_30_31) *Val    { return &Val{B: clone(*p)} }

type Bytes64_n0_1_30_31_32_33_63_64 []byte

func (*Bytes64_n0_1_30_31_32_33_63_64) Limit() uint64 { return 64 }
func sch_Bytes64_n0_1_30_31_32_33_63_64() *Sch {
	s := lens(sBytes(64, 64), 0, 1, 30, 31, 32, 33, 63, 64)
	s.Print = func(v *Val) []byte {
		var x Bytes64_n0_1_30_31_32_33_63_64
		set_Bytes64_n0_1_30_31_32_33_63_64(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes64_n0_1_30_31_32_33_63_64)(nil)))
	}
	return s
}
func set_Bytes64_n0_1_30_31_32_33_63_64(p *Bytes64_n0_1_30_31_32_33_63_64, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes64_n0_1_30_31_32_33_63_64(p *Bytes64_n0_1_30_31_32_33_63_64) *Val {
	return &Val{B: clone(*p)}
}

type Bytes96_n0_1_30_31_32_33_63_64_65_95_96 []byte

func (*Bytes96_n0_1_30_31_32_33_63_64_65_95_96) Limit() uint64 { return 96 }
func sch_Bytes96_n0_1_30_31_32_33_63_64_65_95_96() *Sch {
	s := lens(sBytes(96, 96), 0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96)
	s.Print = func(v *Val) []byte {
		var x Bytes96_n0_1_30_31_32_33_63_64_65_95_96
		set_Bytes96_n0_1_30_31_32_33_63_64_65_95_96(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes96_n0_1_30_31_32_33_63_64_65_95_96)(nil)))
	}
	return s
}
func set_Bytes96_n0_1_30_31_32_33_63_64_65_95_96(p *Bytes96_n0_1_30_31_32_33_63_64_65_95_96, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes96_n0_1_30_31_32_33_63_64_65_95_96(p *Bytes96_n0_1_30_31_32_33_63_64_65_95_96) *Val {
	return &Val{B: clone(*p)}
}

type Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100 []byte

func (*Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100) Limit() uint64 { return 100 }
func sch_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100() *Sch {
	s := lens(sBytes(100, 100), 0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100)
	s.Print = func(v *Val) []byte {
		var x Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100
		set_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100)(nil)))
	}
	return s
}
func set_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100(p *Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100(p *Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100) *Val {
	return &Val{B: clone(*p)}
}

type Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128 []byte

func (*Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128) Limit() uint64 { return 128 }
func sch_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128() *Sch {
	s := lens(sBytes(128, 128), 0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 128)
	s.Print = func(v *Val) []byte {
		var x Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128
		set_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128)(nil)))
	}
	return s
}
func set_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128(p *Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128(p *Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128) *Val {
	return &Val{B: clone(*p)}
}

type Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160 []byte

func (*Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160) Limit() uint64 { return 160 }
func sch_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160() *Sch {
	s := lens(sBytes(160, 160), 0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 128, 129, 160)
	s.Print = func(v *Val) []byte {
		var x Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160
		set_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160)(nil)))
	}
	return s
}
func set_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p *Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p *Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160) *Val {
	return &Val{B: clone(*p)}
}

type Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160 []byte

func (*Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160) Limit() uint64 {
	return 8589934592
}
func sch_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160() *Sch {
	s := lens(sBytes(8589934592, 160), 0, 1, 30, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 128, 129, 160)
	s.Print = func(v *Val) []byte {
		var x Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160
		set_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160)(nil)))
	}
	return s
}
func set_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p *Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p *Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160) *Val {
	return &Val{B: clone(*p)}
}
func sch_Vec15_U16() *Sch { return sVec(sch_U16(), 15) }
func set_Vec15_U16(p *[15]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec15_U16(p *[15]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}
func sch_Vec16_U16() *Sch { return sVec(sch_U16(), 16) }
func set_Vec16_U16(p *[16]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec16_U16(p *[16]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}
func sch_Vec7_U32() *Sch { return sVec(sch_U32(), 7) }
func set_Vec7_U32(p *[7]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec7_U32(p *[7]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}
func sch_Vec9_U32() *Sch { return sVec(sch_U32(), 9) }
func set_Vec9_U32(p *[9]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec9_U32(p *[9]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}
func sch_Vec3_U64() *Sch { return sVec(sch_U64(), 3) }
func set_Vec3_U64(p *[3]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec3_U64(p *[3]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec8_U64() *Sch { return sVec(sch_U64(), 8) }
func set_Vec8_U64(p *[8]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec8_U64(p *[8]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec9_U64() *Sch { return sVec(sch_U64(), 9) }
func set_Vec9_U64(p *[9]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec9_U64(p *[9]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec31_Bool() *Sch { return sVec(sch_Bool(), 31) }
func set_Vec31_Bool(p *[31]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec31_Bool(p *[31]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec32_Bool() *Sch { return sVec(sch_Bool(), 32) }
func set_Vec32_Bool(p *[32]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec32_Bool(p *[32]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec64_Bool() *Sch { return sVec(sch_Bool(), 64) }
func set_Vec64_Bool(p *[64]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec64_Bool(p *[64]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec65_Bool() *Sch { return sVec(sch_Bool(), 65) }
func set_Vec65_Bool(p *[65]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec65_Bool(p *[65]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec33_U16() *Sch { return sVec(sch_U16(), 33) }
func set_Vec33_U16(p *[33]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec33_U16(p *[33]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}
func sch_Vec17_U64() *Sch { return sVec(sch_U64(), 17) }
func set_Vec17_U64(p *[17]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec17_U64(p *[17]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}

type List16_U16_n0_15_16 []uint16

func (*List16_U16_n0_15_16) Limit() uint64 { return 16 }
func sch_List16_U16_n0_15_16() *Sch        { return lens(sList(sch_U16(), 16, 16), 0, 15, 16) }
func set_List16_U16_n0_15_16(p *List16_U16_n0_15_16, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List16_U16_n0_15_16, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List16_U16_n0_15_16(p *List16_U16_n0_15_16) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List33_U16_n0_16_17_32_33 []uint16

func (*List33_U16_n0_16_17_32_33) Limit() uint64 { return 33 }
func sch_List33_U16_n0_16_17_32_33() *Sch        { return lens(sList(sch_U16(), 33, 33), 0, 16, 17, 32, 33) }
func set_List33_U16_n0_16_17_32_33(p *List33_U16_n0_16_17_32_33, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List33_U16_n0_16_17_32_33, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List33_U16_n0_16_17_32_33(p *List33_U16_n0_16_17_32_33) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List8_U32_n0_7_8 []uint32

func (*List8_U32_n0_7_8) Limit() uint64 { return 8 }
func sch_List8_U32_n0_7_8() *Sch        { return lens(sList(sch_U32(), 8, 8), 0, 7, 8) }
func set_List8_U32_n0_7_8(p *List8_U32_n0_7_8, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8_U32_n0_7_8, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List8_U32_n0_7_8(p *List8_U32_n0_7_8) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type List17_U32_n0_8_9_16_17 []uint32

func (*List17_U32_n0_8_9_16_17) Limit() uint64 { return 17 }
func sch_List17_U32_n0_8_9_16_17() *Sch        { return lens(sList(sch_U32(), 17, 17), 0, 8, 9, 16, 17) }
func set_List17_U32_n0_8_9_16_17(p *List17_U32_n0_8_9_16_17, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List17_U32_n0_8_9_16_17, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List17_U32_n0_8_9_16_17(p *List17_U32_n0_8_9_16_17) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type List4_U64_n0_3_4 []uint64

func (*List4_U64_n0_3_4) Limit() uint64 { return 4 }
func sch_List4_U64_n0_3_4() *Sch        { return lens(sList(sch_U64(), 4, 4), 0, 3, 4) }
func set_List4_U64_n0_3_4(p *List4_U64_n0_3_4, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_U64_n0_3_4, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List4_U64_n0_3_4(p *List4_U64_n0_3_4) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type List16_U64_n0_1_4_5_8_9_13_16 []uint64

func (*List16_U64_n0_1_4_5_8_9_13_16) Limit() uint64 { return 16 }
func sch_List16_U64_n0_1_4_5_8_9_13_16() *Sch {
	return lens(sList(sch_U64(), 16, 16), 0, 1, 4, 5, 8, 9, 13, 16)
}
func set_List16_U64_n0_1_4_5_8_9_13_16(p *List16_U64_n0_1_4_5_8_9_13_16, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List16_U64_n0_1_4_5_8_9_13_16, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List16_U64_n0_1_4_5_8_9_13_16(p *List16_U64_n0_1_4_5_8_9_13_16) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type List1099511627776_U64_n0_1_4_5 []uint64

func (*List1099511627776_U64_n0_1_4_5) Limit() uint64 { return 1099511627776 }
func sch_List1099511627776_U64_n0_1_4_5() *Sch {
	return lens(sList(sch_U64(), 1099511627776, 5), 0, 1, 4, 5)
}
func set_List1099511627776_U64_n0_1_4_5(p *List1099511627776_U64_n0_1_4_5, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1099511627776_U64_n0_1_4_5, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List1099511627776_U64_n0_1_4_5(p *List1099511627776_U64_n0_1_4_5) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type List4294967296_U16_n0_1 []uint16

func (*List4294967296_U16_n0_1) Limit() uint64 { return 4294967296 }
func sch_List4294967296_U16_n0_1() *Sch        { return lens(sList(sch_U16(), 4294967296, 1), 0, 1) }
func set_List4294967296_U16_n0_1(p *List4294967296_U16_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4294967296_U16_n0_1, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List4294967296_U16_n0_1(p *List4294967296_U16_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List32_Bool_n0_31_32 []bool

func (*List32_Bool_n0_31_32) Limit() uint64 { return 32 }
func sch_List32_Bool_n0_31_32() *Sch        { return lens(sList(sch_Bool(), 32, 32), 0, 31, 32) }
func set_List32_Bool_n0_31_32(p *List32_Bool_n0_31_32, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List32_Bool_n0_31_32, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List32_Bool_n0_31_32(p *List32_Bool_n0_31_32) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type List64_Bool_n0_33_64 []bool

func (*List64_Bool_n0_33_64) Limit() uint64 { return 64 }
func sch_List64_Bool_n0_33_64() *Sch        { return lens(sList(sch_Bool(), 64, 64), 0, 33, 64) }
func set_List64_Bool_n0_33_64(p *List64_Bool_n0_33_64, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List64_Bool_n0_33_64, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List64_Bool_n0_33_64(p *List64_Bool_n0_33_64) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type List1125899906842624_U32_n0_3 []uint32

func (*List1125899906842624_U32_n0_3) Limit() uint64 { return 1125899906842624 }
func sch_List1125899906842624_U32_n0_3() *Sch {
	return lens(sList(sch_U32(), 1125899906842624, 3), 0, 3)
}
func set_List1125899906842624_U32_n0_3(p *List1125899906842624_U32_n0_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1125899906842624_U32_n0_3, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List1125899906842624_U32_n0_3(p *List1125899906842624_U32_n0_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}
func sch_Vec3_Small() *Sch { return sVec(sch_Small(), 3) }
func set_Vec3_Small(p *[3]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec3_Small(p *[3]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List3_Small_n0_1_2_3 []Small

func (*List3_Small_n0_1_2_3) Limit() uint64 { return 3 }
func sch_List3_Small_n0_1_2_3() *Sch        { return lens(sList(sch_Small(), 3, 3), 0, 1, 2, 3) }
func set_List3_Small_n0_1_2_3(p *List3_Small_n0_1_2_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Small_n0_1_2_3, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Small_n0_1_2_3(p *List3_Small_n0_1_2_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many3 struct {
	F0 uint16
	F1 uint16
	F2 uint16
}

func sch_Many3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2"}}
}
func set_Many3(p *Many3, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
}
func get_Many3(p *Many3) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2)}}
}
func sch_Vec4_Small() *Sch { return sVec(sch_Small(), 4) }
func set_Vec4_Small(p *[4]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec4_Small(p *[4]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List4_Small_n0_1_3_4 []Small

func (*List4_Small_n0_1_3_4) Limit() uint64 { return 4 }
func sch_List4_Small_n0_1_3_4() *Sch        { return lens(sList(sch_Small(), 4, 4), 0, 1, 3, 4) }
func set_List4_Small_n0_1_3_4(p *List4_Small_n0_1_3_4, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4_Small_n0_1_3_4, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List4_Small_n0_1_3_4(p *List4_Small_n0_1_3_4) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many4 struct {
	F0 uint16
	F1 uint16
	F2 uint16
	F3 uint16
}

func sch_Many4() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3"}}
}
func set_Many4(p *Many4, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
}
func get_Many4(p *Many4) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3)}}
}
func sch_Vec5_Small() *Sch { return sVec(sch_Small(), 5) }
func set_Vec5_Small(p *[5]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec5_Small(p *[5]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List5_Small_n0_1_4_5 []Small

func (*List5_Small_n0_1_4_5) Limit() uint64 { return 5 }
func sch_List5_Small_n0_1_4_5() *Sch        { return lens(sList(sch_Small(), 5, 5), 0, 1, 4, 5) }
func set_List5_Small_n0_1_4_5(p *List5_Small_n0_1_4_5, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Small_n0_1_4_5, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Small_n0_1_4_5(p *List5_Small_n0_1_4_5) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many5 struct {
	F0 uint16
	F1 uint16
	F2 uint16
	F3 uint16
	F4 uint16
}

func sch_Many5() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4"}}
}
func set_Many5(p *Many5, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
}
func get_Many5(p *Many5) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3), get_U16(&p.F4)}}
}
func sch_Vec7_Small() *Sch { return sVec(sch_Small(), 7) }
func set_Vec7_Small(p *[7]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec7_Small(p *[7]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List7_Small_n0_1_6_7 []Small

func (*List7_Small_n0_1_6_7) Limit() uint64 { return 7 }
func sch_List7_Small_n0_1_6_7() *Sch        { return lens(sList(sch_Small(), 7, 7), 0, 1, 6, 7) }
func set_List7_Small_n0_1_6_7(p *List7_Small_n0_1_6_7, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List7_Small_n0_1_6_7, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List7_Small_n0_1_6_7(p *List7_Small_n0_1_6_7) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many7 struct {
	F0 uint16
	F1 uint16
	F2 uint16
	F3 uint16
	F4 uint16
	F5 uint16
	F6 uint16
}

func sch_Many7() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6"}}
}
func set_Many7(p *Many7, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
	set_U16(&p.F5, v.Elems[5])
	set_U16(&p.F6, v.Elems[6])
}
func get_Many7(p *Many7) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3), get_U16(&p.F4), get_U16(&p.F5), get_U16(&p.F6)}}
}
func sch_Vec8_Small() *Sch { return sVec(sch_Small(), 8) }
func set_Vec8_Small(p *[8]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec8_Small(p *[8]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List8_Small_n0_1_7_8 []Small

func (*List8_Small_n0_1_7_8) Limit() uint64 { return 8 }
func sch_List8_Small_n0_1_7_8() *Sch        { return lens(sList(sch_Small(), 8, 8), 0, 1, 7, 8) }
func set_List8_Small_n0_1_7_8(p *List8_Small_n0_1_7_8, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8_Small_n0_1_7_8, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List8_Small_n0_1_7_8(p *List8_Small_n0_1_7_8) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many8 struct {
	F0 uint16
	F1 uint16
	F2 uint16
	F3 uint16
	F4 uint16
	F5 uint16
	F6 uint16
	F7 uint16
}

func sch_Many8() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7"}}
}
func set_Many8(p *Many8, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
	set_U16(&p.F5, v.Elems[5])
	set_U16(&p.F6, v.Elems[6])
	set_U16(&p.F7, v.Elems[7])
}
func get_Many8(p *Many8) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3), get_U16(&p.F4), get_U16(&p.F5), get_U16(&p.F6), get_U16(&p.F7)}}
}
func sch_Vec9_Small() *Sch { return sVec(sch_Small(), 9) }
func set_Vec9_Small(p *[9]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec9_Small(p *[9]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List9_Small_n0_1_8_9 []Small

func (*List9_Small_n0_1_8_9) Limit() uint64 { return 9 }
func sch_List9_Small_n0_1_8_9() *Sch        { return lens(sList(sch_Small(), 9, 9), 0, 1, 8, 9) }
func set_List9_Small_n0_1_8_9(p *List9_Small_n0_1_8_9, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List9_Small_n0_1_8_9, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List9_Small_n0_1_8_9(p *List9_Small_n0_1_8_9) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many9 struct {
	F0 uint16
	F1 uint16
	F2 uint16
	F3 uint16
	F4 uint16
	F5 uint16
	F6 uint16
	F7 uint16
	F8 uint16
}

func sch_Many9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8"}}
}
func set_Many9(p *Many9, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
	set_U16(&p.F5, v.Elems[5])
	set_U16(&p.F6, v.Elems[6])
	set_U16(&p.F7, v.Elems[7])
	set_U16(&p.F8, v.Elems[8])
}
func get_Many9(p *Many9) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3), get_U16(&p.F4), get_U16(&p.F5), get_U16(&p.F6), get_U16(&p.F7), get_U16(&p.F8)}}
}
func sch_Vec16_Small() *Sch { return sVec(sch_Small(), 16) }
func set_Vec16_Small(p *[16]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec16_Small(p *[16]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List16_Small_n0_1_15_16 []Small

func (*List16_Small_n0_1_15_16) Limit() uint64 { return 16 }
func sch_List16_Small_n0_1_15_16() *Sch        { return lens(sList(sch_Small(), 16, 16), 0, 1, 15, 16) }
func set_List16_Small_n0_1_15_16(p *List16_Small_n0_1_15_16, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List16_Small_n0_1_15_16, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List16_Small_n0_1_15_16(p *List16_Small_n0_1_15_16) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many16 struct {
	F0  uint16
	F1  uint16
	F2  uint16
	F3  uint16
	F4  uint16
	F5  uint16
	F6  uint16
	F7  uint16
	F8  uint16
	F9  uint16
	F10 uint16
	F11 uint16
	F12 uint16
	F13 uint16
	F14 uint16
	F15 uint16
}

func sch_Many16() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "F14", "F15"}}
}
func set_Many16(p *Many16, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
	set_U16(&p.F5, v.Elems[5])
	set_U16(&p.F6, v.Elems[6])
	set_U16(&p.F7, v.Elems[7])
	set_U16(&p.F8, v.Elems[8])
	set_U16(&p.F9, v.Elems[9])
	set_U16(&p.F10, v.Elems[10])
	set_U16(&p.F11, v.Elems[11])
	set_U16(&p.F12, v.Elems[12])
	set_U16(&p.F13, v.Elems[13])
	set_U16(&p.F14, v.Elems[14])
	set_U16(&p.F15, v.Elems[15])
}
func get_Many16(p *Many16) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3), get_U16(&p.F4), get_U16(&p.F5), get_U16(&p.F6), get_U16(&p.F7), get_U16(&p.F8), get_U16(&p.F9), get_U16(&p.F10), get_U16(&p.F11), get_U16(&p.F12), get_U16(&p.F13), get_U16(&p.F14), get_U16(&p.F15)}}
}
func sch_Vec17_Small() *Sch { return sVec(sch_Small(), 17) }
func set_Vec17_Small(p *[17]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec17_Small(p *[17]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}

type List17_Small_n0_1_16_17 []Small

func (*List17_Small_n0_1_16_17) Limit() uint64 { return 17 }
func sch_List17_Small_n0_1_16_17() *Sch        { return lens(sList(sch_Small(), 17, 17), 0, 1, 16, 17) }
func set_List17_Small_n0_1_16_17(p *List17_Small_n0_1_16_17, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List17_Small_n0_1_16_17, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List17_Small_n0_1_16_17(p *List17_Small_n0_1_16_17) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type Many17 struct {
	F0  uint16
	F1  uint16
	F2  uint16
	F3  uint16
	F4  uint16
	F5  uint16
	F6  uint16
	F7  uint16
	F8  uint16
	F9  uint16
	F10 uint16
	F11 uint16
	F12 uint16
	F13 uint16
	F14 uint16
	F15 uint16
	F16 uint16
}

func sch_Many17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "F14", "F15", "F16"}}
}
func set_Many17(p *Many17, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_U16(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
	set_U16(&p.F5, v.Elems[5])
	set_U16(&p.F6, v.Elems[6])
	set_U16(&p.F7, v.Elems[7])
	set_U16(&p.F8, v.Elems[8])
	set_U16(&p.F9, v.Elems[9])
	set_U16(&p.F10, v.Elems[10])
	set_U16(&p.F11, v.Elems[11])
	set_U16(&p.F12, v.Elems[12])
	set_U16(&p.F13, v.Elems[13])
	set_U16(&p.F14, v.Elems[14])
	set_U16(&p.F15, v.Elems[15])
	set_U16(&p.F16, v.Elems[16])
}
func get_Many17(p *Many17) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_U16(&p.F3), get_U16(&p.F4), get_U16(&p.F5), get_U16(&p.F6), get_U16(&p.F7), get_U16(&p.F8), get_U16(&p.F9), get_U16(&p.F10), get_U16(&p.F11), get_U16(&p.F12), get_U16(&p.F13), get_U16(&p.F14), get_U16(&p.F15), get_U16(&p.F16)}}
}

type Bytes2_n0_2 []byte

func (*Bytes2_n0_2) Limit() uint64 { return 2 }
func sch_Bytes2_n0_2() *Sch {
	s := lens(sBytes(2, 2), 0, 2)
	s.Print = func(v *Val) []byte {
		var x Bytes2_n0_2
		set_Bytes2_n0_2(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes2_n0_2)(nil)))
	}
	return s
}
func set_Bytes2_n0_2(p *Bytes2_n0_2, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes2_n0_2(p *Bytes2_n0_2) *Val    { return &Val{B: clone(*p)} }

type ManyVar3 struct {
	F0 Bytes2_n0_2
	F1 Bytes2_n0_2
	F2 Bytes2_n0_2
}

func sch_ManyVar3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_n0_2(), sch_Bytes2_n0_2(), sch_Bytes2_n0_2()}, Names: []string{"F0", "F1", "F2"}}
}
func set_ManyVar3(p *ManyVar3, v *Val) {
	set_Bytes2_n0_2(&p.F0, v.Elems[0])
	set_Bytes2_n0_2(&p.F1, v.Elems[1])
	set_Bytes2_n0_2(&p.F2, v.Elems[2])
}
func get_ManyVar3(p *ManyVar3) *Val {
	return &Val{Elems: []*Val{get_Bytes2_n0_2(&p.F0), get_Bytes2_n0_2(&p.F1), get_Bytes2_n0_2(&p.F2)}}
}

type Bytes2_n1 []byte

func (*Bytes2_n1) Limit() uint64 { return 2 }
func sch_Bytes2_n1() *Sch {
	s := lens(sBytes(2, 1), 1)
	s.Print = func(v *Val) []byte {
		var x Bytes2_n1
		set_Bytes2_n1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes2_n1)(nil)))
	}
	return s
}
func set_Bytes2_n1(p *Bytes2_n1, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes2_n1(p *Bytes2_n1) *Val    { return &Val{B: clone(*p)} }
func sch_Vec3_Bytes2_n1() *Sch           { return sVec(sch_Bytes2_n1(), 3) }
func set_Vec3_Bytes2_n1(p *[3]Bytes2_n1, v *Val) {
	for i := range p {
		set_Bytes2_n1(&p[i], v.Elems[i])
	}
}
func get_Vec3_Bytes2_n1(p *[3]Bytes2_n1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&p[i]))
	}
	return v
}

type List3_Bytes2_n1_n0_2_3 []Bytes2_n1

func (*List3_Bytes2_n1_n0_2_3) Limit() uint64 { return 3 }
func sch_List3_Bytes2_n1_n0_2_3() *Sch        { return lens(sList(sch_Bytes2_n1(), 3, 3), 0, 2, 3) }
func set_List3_Bytes2_n1_n0_2_3(p *List3_Bytes2_n1_n0_2_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bytes2_n1_n0_2_3, n+1)
			set_Bytes2_n1(&(*p)[n], junk(sch_Bytes2_n1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_n1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bytes2_n1_n0_2_3(p *List3_Bytes2_n1_n0_2_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&(*p)[i]))
	}
	return v
}

type ManyVar5 struct {
	F0 Bytes2_n0_2
	F1 Bytes2_n0_2
	F2 Bytes2_n0_2
	F3 Bytes2_n1
	F4 Bytes2_n1
}

func sch_ManyVar5() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_n0_2(), sch_Bytes2_n0_2(), sch_Bytes2_n0_2(), sch_Bytes2_n1(), sch_Bytes2_n1()}, Names: []string{"F0", "F1", "F2", "F3", "F4"}}
}
func set_ManyVar5(p *ManyVar5, v *Val) {
	set_Bytes2_n0_2(&p.F0, v.Elems[0])
	set_Bytes2_n0_2(&p.F1, v.Elems[1])
	set_Bytes2_n0_2(&p.F2, v.Elems[2])
	set_Bytes2_n1(&p.F3, v.Elems[3])
	set_Bytes2_n1(&p.F4, v.Elems[4])
}
func get_ManyVar5(p *ManyVar5) *Val {
	return &Val{Elems: []*Val{get_Bytes2_n0_2(&p.F0), get_Bytes2_n0_2(&p.F1), get_Bytes2_n0_2(&p.F2), get_Bytes2_n1(&p.F3), get_Bytes2_n1(&p.F4)}}
}
func sch_Vec5_Bytes2_n1() *Sch { return sVec(sch_Bytes2_n1(), 5) }
func set_Vec5_Bytes2_n1(p *[5]Bytes2_n1, v *Val) {
	for i := range p {
		set_Bytes2_n1(&p[i], v.Elems[i])
	}
}
func get_Vec5_Bytes2_n1(p *[5]Bytes2_n1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&p[i]))
	}
	return v
}

type List5_Bytes2_n1_n0_4_5 []Bytes2_n1

func (*List5_Bytes2_n1_n0_4_5) Limit() uint64 { return 5 }
func sch_List5_Bytes2_n1_n0_4_5() *Sch        { return lens(sList(sch_Bytes2_n1(), 5, 5), 0, 4, 5) }
func set_List5_Bytes2_n1_n0_4_5(p *List5_Bytes2_n1_n0_4_5, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Bytes2_n1_n0_4_5, n+1)
			set_Bytes2_n1(&(*p)[n], junk(sch_Bytes2_n1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_n1(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Bytes2_n1_n0_4_5(p *List5_Bytes2_n1_n0_4_5) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&(*p)[i]))
	}
	return v
}

type ManyVar9 struct {
	F0 Bytes2_n1
	F1 Bytes2_n1
	F2 Bytes2_n1
	F3 Bytes2_n1
	F4 Bytes2_n1
	F5 Bytes2_n1
	F6 Bytes2_n1
	F7 Bytes2_n1
	F8 Bytes2_n1
}

func sch_ManyVar9() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_Bytes2_n1()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8"}}
}
func set_ManyVar9(p *ManyVar9, v *Val) {
	set_Bytes2_n1(&p.F0, v.Elems[0])
	set_Bytes2_n1(&p.F1, v.Elems[1])
	set_Bytes2_n1(&p.F2, v.Elems[2])
	set_Bytes2_n1(&p.F3, v.Elems[3])
	set_Bytes2_n1(&p.F4, v.Elems[4])
	set_Bytes2_n1(&p.F5, v.Elems[5])
	set_Bytes2_n1(&p.F6, v.Elems[6])
	set_Bytes2_n1(&p.F7, v.Elems[7])
	set_Bytes2_n1(&p.F8, v.Elems[8])
}
func get_ManyVar9(p *ManyVar9) *Val {
	return &Val{Elems: []*Val{get_Bytes2_n1(&p.F0), get_Bytes2_n1(&p.F1), get_Bytes2_n1(&p.F2), get_Bytes2_n1(&p.F3), get_Bytes2_n1(&p.F4), get_Bytes2_n1(&p.F5), get_Bytes2_n1(&p.F6), get_Bytes2_n1(&p.F7), get_Bytes2_n1(&p.F8)}}
}
func sch_Vec9_Bytes2_n1() *Sch { return sVec(sch_Bytes2_n1(), 9) }
func set_Vec9_Bytes2_n1(p *[9]Bytes2_n1, v *Val) {
	for i := range p {
		set_Bytes2_n1(&p[i], v.Elems[i])
	}
}
func get_Vec9_Bytes2_n1(p *[9]Bytes2_n1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&p[i]))
	}
	return v
}

type List9_Bytes2_n1_n0_8_9 []Bytes2_n1

func (*List9_Bytes2_n1_n0_8_9) Limit() uint64 { return 9 }
func sch_List9_Bytes2_n1_n0_8_9() *Sch        { return lens(sList(sch_Bytes2_n1(), 9, 9), 0, 8, 9) }
func set_List9_Bytes2_n1_n0_8_9(p *List9_Bytes2_n1_n0_8_9, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List9_Bytes2_n1_n0_8_9, n+1)
			set_Bytes2_n1(&(*p)[n], junk(sch_Bytes2_n1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_n1(&(*p)[i], v.Elems[i])
	}
}
func get_List9_Bytes2_n1_n0_8_9(p *List9_Bytes2_n1_n0_8_9) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&(*p)[i]))
	}
	return v
}

type List2_U16_n1 []uint16

func (*List2_U16_n1) Limit() uint64 { return 2 }
func sch_List2_U16_n1() *Sch        { return lens(sList(sch_U16(), 2, 1), 1) }
func set_List2_U16_n1(p *List2_U16_n1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_U16_n1, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List2_U16_n1(p *List2_U16_n1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type ManyVar17 struct {
	F0  List2_U16_n1
	F1  Bytes2_n1
	F2  Bytes2_n1
	F3  List2_U16_n1
	F4  Bytes2_n1
	F5  Bytes2_n1
	F6  List2_U16_n1
	F7  Bytes2_n1
	F8  Bytes2_n1
	F9  List2_U16_n1
	F10 Bytes2_n1
	F11 Bytes2_n1
	F12 List2_U16_n1
	F13 Bytes2_n1
	F14 Bytes2_n1
	F15 List2_U16_n1
	F16 Bytes2_n1
}

func sch_ManyVar17() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "F14", "F15", "F16"}}
}
func set_ManyVar17(p *ManyVar17, v *Val) {
	set_List2_U16_n1(&p.F0, v.Elems[0])
	set_Bytes2_n1(&p.F1, v.Elems[1])
	set_Bytes2_n1(&p.F2, v.Elems[2])
	set_List2_U16_n1(&p.F3, v.Elems[3])
	set_Bytes2_n1(&p.F4, v.Elems[4])
	set_Bytes2_n1(&p.F5, v.Elems[5])
	set_List2_U16_n1(&p.F6, v.Elems[6])
	set_Bytes2_n1(&p.F7, v.Elems[7])
	set_Bytes2_n1(&p.F8, v.Elems[8])
	set_List2_U16_n1(&p.F9, v.Elems[9])
	set_Bytes2_n1(&p.F10, v.Elems[10])
	set_Bytes2_n1(&p.F11, v.Elems[11])
	set_List2_U16_n1(&p.F12, v.Elems[12])
	set_Bytes2_n1(&p.F13, v.Elems[13])
	set_Bytes2_n1(&p.F14, v.Elems[14])
	set_List2_U16_n1(&p.F15, v.Elems[15])
	set_Bytes2_n1(&p.F16, v.Elems[16])
}
func get_ManyVar17(p *ManyVar17) *Val {
	return &Val{Elems: []*Val{get_List2_U16_n1(&p.F0), get_Bytes2_n1(&p.F1), get_Bytes2_n1(&p.F2), get_List2_U16_n1(&p.F3), get_Bytes2_n1(&p.F4), get_Bytes2_n1(&p.F5), get_List2_U16_n1(&p.F6), get_Bytes2_n1(&p.F7), get_Bytes2_n1(&p.F8), get_List2_U16_n1(&p.F9), get_Bytes2_n1(&p.F10), get_Bytes2_n1(&p.F11), get_List2_U16_n1(&p.F12), get_Bytes2_n1(&p.F13), get_Bytes2_n1(&p.F14), get_List2_U16_n1(&p.F15), get_Bytes2_n1(&p.F16)}}
}

type ManyVar33 struct {
	F0  List2_U16_n1
	F1  Bytes2_n1
	F2  Bytes2_n1
	F3  List2_U16_n1
	F4  Bytes2_n1
	F5  Bytes2_n1
	F6  List2_U16_n1
	F7  Bytes2_n1
	F8  Bytes2_n1
	F9  List2_U16_n1
	F10 Bytes2_n1
	F11 Bytes2_n1
	F12 List2_U16_n1
	F13 Bytes2_n1
	F14 Bytes2_n1
	F15 List2_U16_n1
	F16 Bytes2_n1
	F17 Bytes2_n1
	F18 List2_U16_n1
	F19 Bytes2_n1
	F20 Bytes2_n1
	F21 List2_U16_n1
	F22 Bytes2_n1
	F23 Bytes2_n1
	F24 List2_U16_n1
	F25 Bytes2_n1
	F26 Bytes2_n1
	F27 List2_U16_n1
	F28 Bytes2_n1
	F29 Bytes2_n1
	F30 List2_U16_n1
	F31 Bytes2_n1
	F32 Bytes2_n1
}

func sch_ManyVar33() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "F22", "F23", "F24", "F25", "F26", "F27", "F28", "F29", "F30", "F31", "F32"}}
}
func set_ManyVar33(p *ManyVar33, v *Val) {
	set_List2_U16_n1(&p.F0, v.Elems[0])
	set_Bytes2_n1(&p.F1, v.Elems[1])
	set_Bytes2_n1(&p.F2, v.Elems[2])
	set_List2_U16_n1(&p.F3, v.Elems[3])
	set_Bytes2_n1(&p.F4, v.Elems[4])
	set_Bytes2_n1(&p.F5, v.Elems[5])
	set_List2_U16_n1(&p.F6, v.Elems[6])
	set_Bytes2_n1(&p.F7, v.Elems[7])
	set_Bytes2_n1(&p.F8, v.Elems[8])
	set_List2_U16_n1(&p.F9, v.Elems[9])
	set_Bytes2_n1(&p.F10, v.Elems[10])
	set_Bytes2_n1(&p.F11, v.Elems[11])
	set_List2_U16_n1(&p.F12, v.Elems[12])
	set_Bytes2_n1(&p.F13, v.Elems[13])
	set_Bytes2_n1(&p.F14, v.Elems[14])
	set_List2_U16_n1(&p.F15, v.Elems[15])
	set_Bytes2_n1(&p.F16, v.Elems[16])
	set_Bytes2_n1(&p.F17, v.Elems[17])
	set_List2_U16_n1(&p.F18, v.Elems[18])
	set_Bytes2_n1(&p.F19, v.Elems[19])
	set_Bytes2_n1(&p.F20, v.Elems[20])
	set_List2_U16_n1(&p.F21, v.Elems[21])
	set_Bytes2_n1(&p.F22, v.Elems[22])
	set_Bytes2_n1(&p.F23, v.Elems[23])
	set_List2_U16_n1(&p.F24, v.Elems[24])
	set_Bytes2_n1(&p.F25, v.Elems[25])
	set_Bytes2_n1(&p.F26, v.Elems[26])
	set_List2_U16_n1(&p.F27, v.Elems[27])
	set_Bytes2_n1(&p.F28, v.Elems[28])
	set_Bytes2_n1(&p.F29, v.Elems[29])
	set_List2_U16_n1(&p.F30, v.Elems[30])
	set_Bytes2_n1(&p.F31, v.Elems[31])
	set_Bytes2_n1(&p.F32, v.Elems[32])
}
func get_ManyVar33(p *ManyVar33) *Val {
	return &Val{Elems: []*Val{get_List2_U16_n1(&p.F0), get_Bytes2_n1(&p.F1), get_Bytes2_n1(&p.F2), get_List2_U16_n1(&p.F3), get_Bytes2_n1(&p.F4), get_Bytes2_n1(&p.F5), get_List2_U16_n1(&p.F6), get_Bytes2_n1(&p.F7), get_Bytes2_n1(&p.F8), get_List2_U16_n1(&p.F9), get_Bytes2_n1(&p.F10), get_Bytes2_n1(&p.F11), get_List2_U16_n1(&p.F12), get_Bytes2_n1(&p.F13), get_Bytes2_n1(&p.F14), get_List2_U16_n1(&p.F15), get_Bytes2_n1(&p.F16), get_Bytes2_n1(&p.F17), get_List2_U16_n1(&p.F18), get_Bytes2_n1(&p.F19), get_Bytes2_n1(&p.F20), get_List2_U16_n1(&p.F21), get_Bytes2_n1(&p.F22), get_Bytes2_n1(&p.F23), get_List2_U16_n1(&p.F24), get_Bytes2_n1(&p.F25), get_Bytes2_n1(&p.F26), get_List2_U16_n1(&p.F27), get_Bytes2_n1(&p.F28), get_Bytes2_n1(&p.F29), get_List2_U16_n1(&p.F30), get_Bytes2_n1(&p.F31), get_Bytes2_n1(&p.F32)}}
}

type ManyVar70 struct {
	F0  List2_U16_n1
	F1  Bytes2_n1
	F2  Bytes2_n1
	F3  List2_U16_n1
	F4  Bytes2_n1
	F5  Bytes2_n1
	F6  List2_U16_n1
	F7  Bytes2_n1
	F8  Bytes2_n1
	F9  List2_U16_n1
	F10 Bytes2_n1
	F11 Bytes2_n1
	F12 List2_U16_n1
	F13 Bytes2_n1
	F14 Bytes2_n1
	F15 List2_U16_n1
	F16 Bytes2_n1
	F17 Bytes2_n1
	F18 List2_U16_n1
	F19 Bytes2_n1
	F20 Bytes2_n1
	F21 List2_U16_n1
	F22 Bytes2_n1
	F23 Bytes2_n1
	F24 List2_U16_n1
	F25 Bytes2_n1
	F26 Bytes2_n1
	F27 List2_U16_n1
	F28 Bytes2_n1
	F29 Bytes2_n1
	F30 List2_U16_n1
	F31 Bytes2_n1
	F32 Bytes2_n1
	F33 List2_U16_n1
	F34 Bytes2_n1
	F35 Bytes2_n1
	F36 List2_U16_n1
	F37 Bytes2_n1
	F38 Bytes2_n1
	F39 List2_U16_n1
	F40 Bytes2_n1
	F41 Bytes2_n1
	F42 List2_U16_n1
	F43 Bytes2_n1
	F44 Bytes2_n1
	F45 List2_U16_n1
	F46 Bytes2_n1
	F47 Bytes2_n1
	F48 List2_U16_n1
	F49 Bytes2_n1
	F50 Bytes2_n1
	F51 List2_U16_n1
	F52 Bytes2_n1
	F53 Bytes2_n1
	F54 List2_U16_n1
	F55 Bytes2_n1
	F56 Bytes2_n1
	F57 List2_U16_n1
	F58 Bytes2_n1
	F59 Bytes2_n1
	F60 List2_U16_n1
	F61 Bytes2_n1
	F62 Bytes2_n1
	F63 List2_U16_n1
	F64 Bytes2_n1
	F65 Bytes2_n1
	F66 List2_U16_n1
	F67 Bytes2_n1
	F68 Bytes2_n1
	F69 List2_U16_n1
}

func sch_ManyVar70() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1(), sch_Bytes2_n1(), sch_Bytes2_n1(), sch_List2_U16_n1()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "F22", "F23", "F24", "F25", "F26", "F27", "F28", "F29", "F30", "F31", "F32", "F33", "F34", "F35", "F36", "F37", "F38", "F39", "F40", "F41", "F42", "F43", "F44", "F45", "F46", "F47", "F48", "F49", "F50", "F51", "F52", "F53", "F54", "F55", "F56", "F57", "F58", "F59", "F60", "F61", "F62", "F63", "F64", "F65", "F66", "F67", "F68", "F69"}}
}
func set_ManyVar70(p *ManyVar70, v *Val) {
	set_List2_U16_n1(&p.F0, v.Elems[0])
	set_Bytes2_n1(&p.F1, v.Elems[1])
	set_Bytes2_n1(&p.F2, v.Elems[2])
	set_List2_U16_n1(&p.F3, v.Elems[3])
	set_Bytes2_n1(&p.F4, v.Elems[4])
	set_Bytes2_n1(&p.F5, v.Elems[5])
	set_List2_U16_n1(&p.F6, v.Elems[6])
	set_Bytes2_n1(&p.F7, v.Elems[7])
	set_Bytes2_n1(&p.F8, v.Elems[8])
	set_List2_U16_n1(&p.F9, v.Elems[9])
	set_Bytes2_n1(&p.F10, v.Elems[10])
	set_Bytes2_n1(&p.F11, v.Elems[11])
	set_List2_U16_n1(&p.F12, v.Elems[12])
	set_Bytes2_n1(&p.F13, v.Elems[13])
	set_Bytes2_n1(&p.F14, v.Elems[14])
	set_List2_U16_n1(&p.F15, v.Elems[15])
	set_Bytes2_n1(&p.F16, v.Elems[16])
	set_Bytes2_n1(&p.F17, v.Elems[17])
	set_List2_U16_n1(&p.F18, v.Elems[18])
	set_Bytes2_n1(&p.F19, v.Elems[19])
	set_Bytes2_n1(&p.F20, v.Elems[20])
	set_List2_U16_n1(&p.F21, v.Elems[21])
	set_Bytes2_n1(&p.F22, v.Elems[22])
	set_Bytes2_n1(&p.F23, v.Elems[23])
	set_List2_U16_n1(&p.F24, v.Elems[24])
	set_Bytes2_n1(&p.F25, v.Elems[25])
	set_Bytes2_n1(&p.F26, v.Elems[26])
	set_List2_U16_n1(&p.F27, v.Elems[27])
	set_Bytes2_n1(&p.F28, v.Elems[28])
	set_Bytes2_n1(&p.F29, v.Elems[29])
	set_List2_U16_n1(&p.F30, v.Elems[30])
	set_Bytes2_n1(&p.F31, v.Elems[31])
	set_Bytes2_n1(&p.F32, v.Elems[32])
	set_List2_U16_n1(&p.F33, v.Elems[33])
	set_Bytes2_n1(&p.F34, v.Elems[34])
	set_Bytes2_n1(&p.F35, v.Elems[35])
	set_List2_U16_n1(&p.F36, v.Elems[36])
	set_Bytes2_n1(&p.F37, v.Elems[37])
	set_Bytes2_n1(&p.F38, v.Elems[38])
	set_List2_U16_n1(&p.F39, v.Elems[39])
	set_Bytes2_n1(&p.F40, v.Elems[40])
	set_Bytes2_n1(&p.F41, v.Elems[41])
	set_List2_U16_n1(&p.F42, v.Elems[42])
	set_Bytes2_n1(&p.F43, v.Elems[43])
	set_Bytes2_n1(&p.F44, v.Elems[44])
	set_List2_U16_n1(&p.F45, v.Elems[45])
	set_Bytes2_n1(&p.F46, v.Elems[46])
	set_Bytes2_n1(&p.F47, v.Elems[47])
	set_List2_U16_n1(&p.F48, v.Elems[48])
	set_Bytes2_n1(&p.F49, v.Elems[49])
	set_Bytes2_n1(&p.F50, v.Elems[50])
	set_List2_U16_n1(&p.F51, v.Elems[51])
	set_Bytes2_n1(&p.F52, v.Elems[52])
	set_Bytes2_n1(&p.F53, v.Elems[53])
	set_List2_U16_n1(&p.F54, v.Elems[54])
	set_Bytes2_n1(&p.F55, v.Elems[55])
	set_Bytes2_n1(&p.F56, v.Elems[56])
	set_List2_U16_n1(&p.F57, v.Elems[57])
	set_Bytes2_n1(&p.F58, v.Elems[58])
	set_Bytes2_n1(&p.F59, v.Elems[59])
	set_List2_U16_n1(&p.F60, v.Elems[60])
	set_Bytes2_n1(&p.F61, v.Elems[61])
	set_Bytes2_n1(&p.F62, v.Elems[62])
	set_List2_U16_n1(&p.F63, v.Elems[63])
	set_Bytes2_n1(&p.F64, v.Elems[64])
	set_Bytes2_n1(&p.F65, v.Elems[65])
	set_List2_U16_n1(&p.F66, v.Elems[66])
	set_Bytes2_n1(&p.F67, v.Elems[67])
	set_Bytes2_n1(&p.F68, v.Elems[68])
	set_List2_U16_n1(&p.F69, v.Elems[69])
}
func get_ManyVar70(p *ManyVar70) *Val {
	return &Val{Elems: []*Val{get_List2_U16_n1(&p.F0), get_Bytes2_n1(&p.F1), get_Bytes2_n1(&p.F2), get_List2_U16_n1(&p.F3), get_Bytes2_n1(&p.F4), get_Bytes2_n1(&p.F5), get_List2_U16_n1(&p.F6), get_Bytes2_n1(&p.F7), get_Bytes2_n1(&p.F8), get_List2_U16_n1(&p.F9), get_Bytes2_n1(&p.F10), get_Bytes2_n1(&p.F11), get_List2_U16_n1(&p.F12), get_Bytes2_n1(&p.F13), get_Bytes2_n1(&p.F14), get_List2_U16_n1(&p.F15), get_Bytes2_n1(&p.F16), get_Bytes2_n1(&p.F17), get_List2_U16_n1(&p.F18), get_Bytes2_n1(&p.F19), get_Bytes2_n1(&p.F20), get_List2_U16_n1(&p.F21), get_Bytes2_n1(&p.F22), get_Bytes2_n1(&p.F23), get_List2_U16_n1(&p.F24), get_Bytes2_n1(&p.F25), get_Bytes2_n1(&p.F26), get_List2_U16_n1(&p.F27), get_Bytes2_n1(&p.F28), get_Bytes2_n1(&p.F29), get_List2_U16_n1(&p.F30), get_Bytes2_n1(&p.F31), get_Bytes2_n1(&p.F32), get_List2_U16_n1(&p.F33), get_Bytes2_n1(&p.F34), get_Bytes2_n1(&p.F35), get_List2_U16_n1(&p.F36), get_Bytes2_n1(&p.F37), get_Bytes2_n1(&p.F38), get_List2_U16_n1(&p.F39), get_Bytes2_n1(&p.F40), get_Bytes2_n1(&p.F41), get_List2_U16_n1(&p.F42), get_Bytes2_n1(&p.F43), get_Bytes2_n1(&p.F44), get_List2_U16_n1(&p.F45), get_Bytes2_n1(&p.F46), get_Bytes2_n1(&p.F47), get_List2_U16_n1(&p.F48), get_Bytes2_n1(&p.F49), get_Bytes2_n1(&p.F50), get_List2_U16_n1(&p.F51), get_Bytes2_n1(&p.F52), get_Bytes2_n1(&p.F53), get_List2_U16_n1(&p.F54), get_Bytes2_n1(&p.F55), get_Bytes2_n1(&p.F56), get_List2_U16_n1(&p.F57), get_Bytes2_n1(&p.F58), get_Bytes2_n1(&p.F59), get_List2_U16_n1(&p.F60), get_Bytes2_n1(&p.F61), get_Bytes2_n1(&p.F62), get_List2_U16_n1(&p.F63), get_Bytes2_n1(&p.F64), get_Bytes2_n1(&p.F65), get_List2_U16_n1(&p.F66), get_Bytes2_n1(&p.F67), get_Bytes2_n1(&p.F68), get_List2_U16_n1(&p.F69)}}
}

type Bytes4294967301_g1 []byte

func (*Bytes4294967301_g1) Limit() uint64 { return 4294967301 }
func sch_Bytes4294967301_g1() *Sch {
	s := sBytes(4294967301, 1)
	s.Print = func(v *Val) []byte {
		var x Bytes4294967301_g1
		set_Bytes4294967301_g1(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes4294967301_g1)(nil)))
	}
	return s
}
func set_Bytes4294967301_g1(p *Bytes4294967301_g1, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes4294967301_g1(p *Bytes4294967301_g1) *Val    { return &Val{B: clone(*p)} }
func sch_Vec3_Bytes4294967301_g1() *Sch                    { return sVec(sch_Bytes4294967301_g1(), 3) }
func set_Vec3_Bytes4294967301_g1(p *[3]Bytes4294967301_g1, v *Val) {
	for i := range p {
		set_Bytes4294967301_g1(&p[i], v.Elems[i])
	}
}
func get_Vec3_Bytes4294967301_g1(p *[3]Bytes4294967301_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes4294967301_g1(&p[i]))
	}
	return v
}

type List5_Bytes4294967301_g1_n0_2 []Bytes4294967301_g1

func (*List5_Bytes4294967301_g1_n0_2) Limit() uint64 { return 5 }
func sch_List5_Bytes4294967301_g1_n0_2() *Sch {
	return lens(sList(sch_Bytes4294967301_g1(), 5, 2), 0, 2)
}
func set_List5_Bytes4294967301_g1_n0_2(p *List5_Bytes4294967301_g1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Bytes4294967301_g1_n0_2, n+1)
			set_Bytes4294967301_g1(&(*p)[n], junk(sch_Bytes4294967301_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes4294967301_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Bytes4294967301_g1_n0_2(p *List5_Bytes4294967301_g1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes4294967301_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec1_Bytes4294967301_g1() *Sch { return sVec(sch_Bytes4294967301_g1(), 1) }
func set_Vec1_Bytes4294967301_g1(p *[1]Bytes4294967301_g1, v *Val) {
	for i := range p {
		set_Bytes4294967301_g1(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bytes4294967301_g1(p *[1]Bytes4294967301_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes4294967301_g1(&p[i]))
	}
	return v
}

type SF_Bytes4294967301_g1 struct {
	A Bytes4294967301_g1
	B [1]Bytes4294967301_g1
	C uint8
}

func sch_SF_Bytes4294967301_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes4294967301_g1(), sch_Vec1_Bytes4294967301_g1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SF_Bytes4294967301_g1(p *SF_Bytes4294967301_g1, v *Val) {
	set_Bytes4294967301_g1(&p.A, v.Elems[0])
	set_Vec1_Bytes4294967301_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SF_Bytes4294967301_g1(p *SF_Bytes4294967301_g1) *Val {
	return &Val{Elems: []*Val{get_Bytes4294967301_g1(&p.A), get_Vec1_Bytes4294967301_g1(&p.B), get_U8(&p.C)}}
}

type List3_Bytes4294967301_g1_n0_1 []Bytes4294967301_g1

func (*List3_Bytes4294967301_g1_n0_1) Limit() uint64 { return 3 }
func sch_List3_Bytes4294967301_g1_n0_1() *Sch {
	return lens(sList(sch_Bytes4294967301_g1(), 3, 1), 0, 1)
}
func set_List3_Bytes4294967301_g1_n0_1(p *List3_Bytes4294967301_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bytes4294967301_g1_n0_1, n+1)
			set_Bytes4294967301_g1(&(*p)[n], junk(sch_Bytes4294967301_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes4294967301_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bytes4294967301_g1_n0_1(p *List3_Bytes4294967301_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes4294967301_g1(&(*p)[i]))
	}
	return v
}

type List1048576_List3_Bytes4294967301_g1_n0_1_n0_1 []List3_Bytes4294967301_g1_n0_1

func (*List1048576_List3_Bytes4294967301_g1_n0_1_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_List3_Bytes4294967301_g1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List3_Bytes4294967301_g1_n0_1(), 1048576, 1), 0, 1)
}
func set_List1048576_List3_Bytes4294967301_g1_n0_1_n0_1(p *List1048576_List3_Bytes4294967301_g1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_List3_Bytes4294967301_g1_n0_1_n0_1, n+1)
			set_List3_Bytes4294967301_g1_n0_1(&(*p)[n], junk(sch_List3_Bytes4294967301_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bytes4294967301_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_List3_Bytes4294967301_g1_n0_1_n0_1(p *List1048576_List3_Bytes4294967301_g1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bytes4294967301_g1_n0_1(&(*p)[i]))
	}
	return v
}

type List4294967301_U64_g1 []uint64

func (*List4294967301_U64_g1) Limit() uint64 { return 4294967301 }
func sch_List4294967301_U64_g1() *Sch        { return sList(sch_U64(), 4294967301, 1) }
func set_List4294967301_U64_g1(p *List4294967301_U64_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4294967301_U64_g1, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List4294967301_U64_g1(p *List4294967301_U64_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}
func sch_Vec3_List4294967301_U64_g1() *Sch { return sVec(sch_List4294967301_U64_g1(), 3) }
func set_Vec3_List4294967301_U64_g1(p *[3]List4294967301_U64_g1, v *Val) {
	for i := range p {
		set_List4294967301_U64_g1(&p[i], v.Elems[i])
	}
}
func get_Vec3_List4294967301_U64_g1(p *[3]List4294967301_U64_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List4294967301_U64_g1(&p[i]))
	}
	return v
}

type List5_List4294967301_U64_g1_n0_2 []List4294967301_U64_g1

func (*List5_List4294967301_U64_g1_n0_2) Limit() uint64 { return 5 }
func sch_List5_List4294967301_U64_g1_n0_2() *Sch {
	return lens(sList(sch_List4294967301_U64_g1(), 5, 2), 0, 2)
}
func set_List5_List4294967301_U64_g1_n0_2(p *List5_List4294967301_U64_g1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_List4294967301_U64_g1_n0_2, n+1)
			set_List4294967301_U64_g1(&(*p)[n], junk(sch_List4294967301_U64_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List4294967301_U64_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List5_List4294967301_U64_g1_n0_2(p *List5_List4294967301_U64_g1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List4294967301_U64_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec1_List4294967301_U64_g1() *Sch { return sVec(sch_List4294967301_U64_g1(), 1) }
func set_Vec1_List4294967301_U64_g1(p *[1]List4294967301_U64_g1, v *Val) {
	for i := range p {
		set_List4294967301_U64_g1(&p[i], v.Elems[i])
	}
}
func get_Vec1_List4294967301_U64_g1(p *[1]List4294967301_U64_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List4294967301_U64_g1(&p[i]))
	}
	return v
}

type SF_List4294967301_U64_g1 struct {
	A List4294967301_U64_g1
	B [1]List4294967301_U64_g1
	C uint8
}

func sch_SF_List4294967301_U64_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List4294967301_U64_g1(), sch_Vec1_List4294967301_U64_g1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SF_List4294967301_U64_g1(p *SF_List4294967301_U64_g1, v *Val) {
	set_List4294967301_U64_g1(&p.A, v.Elems[0])
	set_Vec1_List4294967301_U64_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SF_List4294967301_U64_g1(p *SF_List4294967301_U64_g1) *Val {
	return &Val{Elems: []*Val{get_List4294967301_U64_g1(&p.A), get_Vec1_List4294967301_U64_g1(&p.B), get_U8(&p.C)}}
}

type List3_List4294967301_U64_g1_n0_1 []List4294967301_U64_g1

func (*List3_List4294967301_U64_g1_n0_1) Limit() uint64 { return 3 }
func sch_List3_List4294967301_U64_g1_n0_1() *Sch {
	return lens(sList(sch_List4294967301_U64_g1(), 3, 1), 0, 1)
}
func set_List3_List4294967301_U64_g1_n0_1(p *List3_List4294967301_U64_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_List4294967301_U64_g1_n0_1, n+1)
			set_List4294967301_U64_g1(&(*p)[n], junk(sch_List4294967301_U64_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List4294967301_U64_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_List4294967301_U64_g1_n0_1(p *List3_List4294967301_U64_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List4294967301_U64_g1(&(*p)[i]))
	}
	return v
}

type List1048576_List3_List4294967301_U64_g1_n0_1_n0_1 []List3_List4294967301_U64_g1_n0_1

func (*List1048576_List3_List4294967301_U64_g1_n0_1_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_List3_List4294967301_U64_g1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List3_List4294967301_U64_g1_n0_1(), 1048576, 1), 0, 1)
}
func set_List1048576_List3_List4294967301_U64_g1_n0_1_n0_1(p *List1048576_List3_List4294967301_U64_g1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_List3_List4294967301_U64_g1_n0_1_n0_1, n+1)
			set_List3_List4294967301_U64_g1_n0_1(&(*p)[n], junk(sch_List3_List4294967301_U64_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_List4294967301_U64_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_List3_List4294967301_U64_g1_n0_1_n0_1(p *List1048576_List3_List4294967301_U64_g1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_List4294967301_U64_g1_n0_1(&(*p)[i]))
	}
	return v
}

type Bitlist34359738373_g3 []byte

func (b *Bitlist34359738373_g3) Limit() uint64 { return 34359738373 }
func (b Bitlist34359738373_g3) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist34359738373_g3() *Sch {
	s := sBitlist(34359738373, 3)
	s.Print = func(v *Val) []byte {
		var x Bitlist34359738373_g3
		set_Bitlist34359738373_g3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist34359738373_g3)(nil)))
	}
	return s
}
func set_Bitlist34359738373_g3(p *Bitlist34359738373_g3, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist34359738373_g3(), v))
}
func get_Bitlist34359738373_g3(p *Bitlist34359738373_g3) *Val { return getBitlist(*p) }
func sch_Vec3_Bitlist34359738373_g3() *Sch                    { return sVec(sch_Bitlist34359738373_g3(), 3) }
func set_Vec3_Bitlist34359738373_g3(p *[3]Bitlist34359738373_g3, v *Val) {
	for i := range p {
		set_Bitlist34359738373_g3(&p[i], v.Elems[i])
	}
}
func get_Vec3_Bitlist34359738373_g3(p *[3]Bitlist34359738373_g3) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitlist34359738373_g3(&p[i]))
	}
	return v
}

type List5_Bitlist34359738373_g3_n0_2 []Bitlist34359738373_g3

func (*List5_Bitlist34359738373_g3_n0_2) Limit() uint64 { return 5 }
func sch_List5_Bitlist34359738373_g3_n0_2() *Sch {
	return lens(sList(sch_Bitlist34359738373_g3(), 5, 2), 0, 2)
}
func set_List5_Bitlist34359738373_g3_n0_2(p *List5_Bitlist34359738373_g3_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Bitlist34359738373_g3_n0_2, n+1)
			set_Bitlist34359738373_g3(&(*p)[n], junk(sch_Bitlist34359738373_g3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitlist34359738373_g3(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Bitlist34359738373_g3_n0_2(p *List5_Bitlist34359738373_g3_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitlist34359738373_g3(&(*p)[i]))
	}
	return v
}
func sch_Vec1_Bitlist34359738373_g3() *Sch { return sVec(sch_Bitlist34359738373_g3(), 1) }
func set_Vec1_Bitlist34359738373_g3(p *[1]Bitlist34359738373_g3, v *Val) {
	for i := range p {
		set_Bitlist34359738373_g3(&p[i], v.Elems[i])
	}
}
func get_Vec1_Bitlist34359738373_g3(p *[1]Bitlist34359738373_g3) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bitlist34359738373_g3(&p[i]))
	}
	return v
}

type SF_Bitlist34359738373_g3 struct {
	A Bitlist34359738373_g3
	B [1]Bitlist34359738373_g3
	C uint8
}

func sch_SF_Bitlist34359738373_g3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitlist34359738373_g3(), sch_Vec1_Bitlist34359738373_g3(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SF_Bitlist34359738373_g3(p *SF_Bitlist34359738373_g3, v *Val) {
	set_Bitlist34359738373_g3(&p.A, v.Elems[0])
	set_Vec1_Bitlist34359738373_g3(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SF_Bitlist34359738373_g3(p *SF_Bitlist34359738373_g3) *Val {
	return &Val{Elems: []*Val{get_Bitlist34359738373_g3(&p.A), get_Vec1_Bitlist34359738373_g3(&p.B), get_U8(&p.C)}}
}

type List3_Bitlist34359738373_g3_n0_1 []Bitlist34359738373_g3

func (*List3_Bitlist34359738373_g3_n0_1) Limit() uint64 { return 3 }
func sch_List3_Bitlist34359738373_g3_n0_1() *Sch {
	return lens(sList(sch_Bitlist34359738373_g3(), 3, 1), 0, 1)
}
func set_List3_Bitlist34359738373_g3_n0_1(p *List3_Bitlist34359738373_g3_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bitlist34359738373_g3_n0_1, n+1)
			set_Bitlist34359738373_g3(&(*p)[n], junk(sch_Bitlist34359738373_g3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bitlist34359738373_g3(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bitlist34359738373_g3_n0_1(p *List3_Bitlist34359738373_g3_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bitlist34359738373_g3(&(*p)[i]))
	}
	return v
}

type List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1 []List3_Bitlist34359738373_g3_n0_1

func (*List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1() *Sch {
	return lens(sList(sch_List3_Bitlist34359738373_g3_n0_1(), 1048576, 1), 0, 1)
}
func set_List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1(p *List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1, n+1)
			set_List3_Bitlist34359738373_g3_n0_1(&(*p)[n], junk(sch_List3_Bitlist34359738373_g3_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_Bitlist34359738373_g3_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1(p *List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_Bitlist34359738373_g3_n0_1(&(*p)[i]))
	}
	return v
}

type List2147483648_Small_g1 []Small

func (*List2147483648_Small_g1) Limit() uint64 { return 2147483648 }
func sch_List2147483648_Small_g1() *Sch        { return sList(sch_Small(), 2147483648, 1) }
func set_List2147483648_Small_g1(p *List2147483648_Small_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2147483648_Small_g1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List2147483648_Small_g1(p *List2147483648_Small_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}
func sch_Vec3_List2147483648_Small_g1() *Sch { return sVec(sch_List2147483648_Small_g1(), 3) }
func set_Vec3_List2147483648_Small_g1(p *[3]List2147483648_Small_g1, v *Val) {
	for i := range p {
		set_List2147483648_Small_g1(&p[i], v.Elems[i])
	}
}
func get_Vec3_List2147483648_Small_g1(p *[3]List2147483648_Small_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List2147483648_Small_g1(&p[i]))
	}
	return v
}

type List5_List2147483648_Small_g1_n0_2 []List2147483648_Small_g1

func (*List5_List2147483648_Small_g1_n0_2) Limit() uint64 { return 5 }
func sch_List5_List2147483648_Small_g1_n0_2() *Sch {
	return lens(sList(sch_List2147483648_Small_g1(), 5, 2), 0, 2)
}
func set_List5_List2147483648_Small_g1_n0_2(p *List5_List2147483648_Small_g1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_List2147483648_Small_g1_n0_2, n+1)
			set_List2147483648_Small_g1(&(*p)[n], junk(sch_List2147483648_Small_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2147483648_Small_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List5_List2147483648_Small_g1_n0_2(p *List5_List2147483648_Small_g1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2147483648_Small_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec1_List2147483648_Small_g1() *Sch { return sVec(sch_List2147483648_Small_g1(), 1) }
func set_Vec1_List2147483648_Small_g1(p *[1]List2147483648_Small_g1, v *Val) {
	for i := range p {
		set_List2147483648_Small_g1(&p[i], v.Elems[i])
	}
}
func get_Vec1_List2147483648_Small_g1(p *[1]List2147483648_Small_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List2147483648_Small_g1(&p[i]))
	}
	return v
}

type SF_List2147483648_Small_g1 struct {
	A List2147483648_Small_g1
	B [1]List2147483648_Small_g1
	C uint8
}

func sch_SF_List2147483648_Small_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List2147483648_Small_g1(), sch_Vec1_List2147483648_Small_g1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SF_List2147483648_Small_g1(p *SF_List2147483648_Small_g1, v *Val) {
	set_List2147483648_Small_g1(&p.A, v.Elems[0])
	set_Vec1_List2147483648_Small_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SF_List2147483648_Small_g1(p *SF_List2147483648_Small_g1) *Val {
	return &Val{Elems: []*Val{get_List2147483648_Small_g1(&p.A), get_Vec1_List2147483648_Small_g1(&p.B), get_U8(&p.C)}}
}

type List3_List2147483648_Small_g1_n0_1 []List2147483648_Small_g1

func (*List3_List2147483648_Small_g1_n0_1) Limit() uint64 { return 3 }
func sch_List3_List2147483648_Small_g1_n0_1() *Sch {
	return lens(sList(sch_List2147483648_Small_g1(), 3, 1), 0, 1)
}
func set_List3_List2147483648_Small_g1_n0_1(p *List3_List2147483648_Small_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_List2147483648_Small_g1_n0_1, n+1)
			set_List2147483648_Small_g1(&(*p)[n], junk(sch_List2147483648_Small_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2147483648_Small_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_List2147483648_Small_g1_n0_1(p *List3_List2147483648_Small_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2147483648_Small_g1(&(*p)[i]))
	}
	return v
}

type List1048576_List3_List2147483648_Small_g1_n0_1_n0_1 []List3_List2147483648_Small_g1_n0_1

func (*List1048576_List3_List2147483648_Small_g1_n0_1_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_List3_List2147483648_Small_g1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List3_List2147483648_Small_g1_n0_1(), 1048576, 1), 0, 1)
}
func set_List1048576_List3_List2147483648_Small_g1_n0_1_n0_1(p *List1048576_List3_List2147483648_Small_g1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_List3_List2147483648_Small_g1_n0_1_n0_1, n+1)
			set_List3_List2147483648_Small_g1_n0_1(&(*p)[n], junk(sch_List3_List2147483648_Small_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_List2147483648_Small_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_List3_List2147483648_Small_g1_n0_1_n0_1(p *List1048576_List3_List2147483648_Small_g1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_List2147483648_Small_g1_n0_1(&(*p)[i]))
	}
	return v
}

type List1073741824_Bytes2_g1_g1 []Bytes2_g1

func (*List1073741824_Bytes2_g1_g1) Limit() uint64 { return 1073741824 }
func sch_List1073741824_Bytes2_g1_g1() *Sch        { return sList(sch_Bytes2_g1(), 1073741824, 1) }
func set_List1073741824_Bytes2_g1_g1(p *List1073741824_Bytes2_g1_g1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1073741824_Bytes2_g1_g1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List1073741824_Bytes2_g1_g1(p *List1073741824_Bytes2_g1_g1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec3_List1073741824_Bytes2_g1_g1() *Sch { return sVec(sch_List1073741824_Bytes2_g1_g1(), 3) }
func set_Vec3_List1073741824_Bytes2_g1_g1(p *[3]List1073741824_Bytes2_g1_g1, v *Val) {
	for i := range p {
		set_List1073741824_Bytes2_g1_g1(&p[i], v.Elems[i])
	}
}
func get_Vec3_List1073741824_Bytes2_g1_g1(p *[3]List1073741824_Bytes2_g1_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List1073741824_Bytes2_g1_g1(&p[i]))
	}
	return v
}

type List5_List1073741824_Bytes2_g1_g1_n0_2 []List1073741824_Bytes2_g1_g1

func (*List5_List1073741824_Bytes2_g1_g1_n0_2) Limit() uint64 { return 5 }
func sch_List5_List1073741824_Bytes2_g1_g1_n0_2() *Sch {
	return lens(sList(sch_List1073741824_Bytes2_g1_g1(), 5, 2), 0, 2)
}
func set_List5_List1073741824_Bytes2_g1_g1_n0_2(p *List5_List1073741824_Bytes2_g1_g1_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_List1073741824_Bytes2_g1_g1_n0_2, n+1)
			set_List1073741824_Bytes2_g1_g1(&(*p)[n], junk(sch_List1073741824_Bytes2_g1_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List1073741824_Bytes2_g1_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List5_List1073741824_Bytes2_g1_g1_n0_2(p *List5_List1073741824_Bytes2_g1_g1_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List1073741824_Bytes2_g1_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec1_List1073741824_Bytes2_g1_g1() *Sch { return sVec(sch_List1073741824_Bytes2_g1_g1(), 1) }
func set_Vec1_List1073741824_Bytes2_g1_g1(p *[1]List1073741824_Bytes2_g1_g1, v *Val) {
	for i := range p {
		set_List1073741824_Bytes2_g1_g1(&p[i], v.Elems[i])
	}
}
func get_Vec1_List1073741824_Bytes2_g1_g1(p *[1]List1073741824_Bytes2_g1_g1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_List1073741824_Bytes2_g1_g1(&p[i]))
	}
	return v
}

type SF_List1073741824_Bytes2_g1_g1 struct {
	A List1073741824_Bytes2_g1_g1
	B [1]List1073741824_Bytes2_g1_g1
	C uint8
}

func sch_SF_List1073741824_Bytes2_g1_g1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List1073741824_Bytes2_g1_g1(), sch_Vec1_List1073741824_Bytes2_g1_g1(), sch_U8()}, Names: []string{"A", "B", "C"}}
}
func set_SF_List1073741824_Bytes2_g1_g1(p *SF_List1073741824_Bytes2_g1_g1, v *Val) {
	set_List1073741824_Bytes2_g1_g1(&p.A, v.Elems[0])
	set_Vec1_List1073741824_Bytes2_g1_g1(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
}
func get_SF_List1073741824_Bytes2_g1_g1(p *SF_List1073741824_Bytes2_g1_g1) *Val {
	return &Val{Elems: []*Val{get_List1073741824_Bytes2_g1_g1(&p.A), get_Vec1_List1073741824_Bytes2_g1_g1(&p.B), get_U8(&p.C)}}
}

type List3_List1073741824_Bytes2_g1_g1_n0_1 []List1073741824_Bytes2_g1_g1

func (*List3_List1073741824_Bytes2_g1_g1_n0_1) Limit() uint64 { return 3 }
func sch_List3_List1073741824_Bytes2_g1_g1_n0_1() *Sch {
	return lens(sList(sch_List1073741824_Bytes2_g1_g1(), 3, 1), 0, 1)
}
func set_List3_List1073741824_Bytes2_g1_g1_n0_1(p *List3_List1073741824_Bytes2_g1_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_List1073741824_Bytes2_g1_g1_n0_1, n+1)
			set_List1073741824_Bytes2_g1_g1(&(*p)[n], junk(sch_List1073741824_Bytes2_g1_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List1073741824_Bytes2_g1_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_List1073741824_Bytes2_g1_g1_n0_1(p *List3_List1073741824_Bytes2_g1_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List1073741824_Bytes2_g1_g1(&(*p)[i]))
	}
	return v
}

type List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1 []List3_List1073741824_Bytes2_g1_g1_n0_1

func (*List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List3_List1073741824_Bytes2_g1_g1_n0_1(), 1048576, 1), 0, 1)
}
func set_List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1(p *List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1, n+1)
			set_List3_List1073741824_Bytes2_g1_g1_n0_1(&(*p)[n], junk(sch_List3_List1073741824_Bytes2_g1_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List3_List1073741824_Bytes2_g1_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1(p *List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List3_List1073741824_Bytes2_g1_g1_n0_1(&(*p)[i]))
	}
	return v
}

type List1_Small_n0_1 []Small

func (*List1_Small_n0_1) Limit() uint64 { return 1 }
func sch_List1_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 1, 1), 0, 1) }
func set_List1_Small_n0_1(p *List1_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List1_Small_n0_1(p *List1_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List1_Bytes2_g1_n0_1 []Bytes2_g1

func (*List1_Bytes2_g1_n0_1) Limit() uint64 { return 1 }
func sch_List1_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 1, 1), 0, 1) }
func set_List1_Bytes2_g1_n0_1(p *List1_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List1_Bytes2_g1_n0_1(p *List1_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List2_Bytes2_g1_n0_1 []Bytes2_g1

func (*List2_Bytes2_g1_n0_1) Limit() uint64 { return 2 }
func sch_List2_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 2, 1), 0, 1) }
func set_List2_Bytes2_g1_n0_1(p *List2_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Bytes2_g1_n0_1(p *List2_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List3_Small_n0_1 []Small

func (*List3_Small_n0_1) Limit() uint64 { return 3 }
func sch_List3_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 3, 1), 0, 1) }
func set_List3_Small_n0_1(p *List3_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Small_n0_1(p *List3_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List3_Bytes2_g1_n0_1 []Bytes2_g1

func (*List3_Bytes2_g1_n0_1) Limit() uint64 { return 3 }
func sch_List3_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 3, 1), 0, 1) }
func set_List3_Bytes2_g1_n0_1(p *List3_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Bytes2_g1_n0_1(p *List3_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List5_Small_n0_1 []Small

func (*List5_Small_n0_1) Limit() uint64 { return 5 }
func sch_List5_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 5, 1), 0, 1) }
func set_List5_Small_n0_1(p *List5_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Small_n0_1(p *List5_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List5_Bytes2_g1_n0_1 []Bytes2_g1

func (*List5_Bytes2_g1_n0_1) Limit() uint64 { return 5 }
func sch_List5_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 5, 1), 0, 1) }
func set_List5_Bytes2_g1_n0_1(p *List5_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List5_Bytes2_g1_n0_1(p *List5_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List8_Small_n0_1 []Small

func (*List8_Small_n0_1) Limit() uint64 { return 8 }
func sch_List8_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 8, 1), 0, 1) }
func set_List8_Small_n0_1(p *List8_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List8_Small_n0_1(p *List8_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List8_Bytes2_g1_n0_1 []Bytes2_g1

func (*List8_Bytes2_g1_n0_1) Limit() uint64 { return 8 }
func sch_List8_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 8, 1), 0, 1) }
func set_List8_Bytes2_g1_n0_1(p *List8_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List8_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List8_Bytes2_g1_n0_1(p *List8_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List9_Small_n0_1 []Small

func (*List9_Small_n0_1) Limit() uint64 { return 9 }
func sch_List9_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 9, 1), 0, 1) }
func set_List9_Small_n0_1(p *List9_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List9_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List9_Small_n0_1(p *List9_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List9_Bytes2_g1_n0_1 []Bytes2_g1

func (*List9_Bytes2_g1_n0_1) Limit() uint64 { return 9 }
func sch_List9_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 9, 1), 0, 1) }
func set_List9_Bytes2_g1_n0_1(p *List9_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List9_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List9_Bytes2_g1_n0_1(p *List9_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List1048576_Small_n0_1 []Small

func (*List1048576_Small_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 1048576, 1), 0, 1) }
func set_List1048576_Small_n0_1(p *List1048576_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_Small_n0_1(p *List1048576_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List1048576_Bytes2_g1_n0_1 []Bytes2_g1

func (*List1048576_Bytes2_g1_n0_1) Limit() uint64 { return 1048576 }
func sch_List1048576_Bytes2_g1_n0_1() *Sch        { return lens(sList(sch_Bytes2_g1(), 1048576, 1), 0, 1) }
func set_List1048576_Bytes2_g1_n0_1(p *List1048576_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_Bytes2_g1_n0_1(p *List1048576_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List4294967296_Small_n0_1 []Small

func (*List4294967296_Small_n0_1) Limit() uint64 { return 4294967296 }
func sch_List4294967296_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 4294967296, 1), 0, 1) }
func set_List4294967296_Small_n0_1(p *List4294967296_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4294967296_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List4294967296_Small_n0_1(p *List4294967296_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List4294967296_Bytes2_g1_n0_1 []Bytes2_g1

func (*List4294967296_Bytes2_g1_n0_1) Limit() uint64 { return 4294967296 }
func sch_List4294967296_Bytes2_g1_n0_1() *Sch {
	return lens(sList(sch_Bytes2_g1(), 4294967296, 1), 0, 1)
}
func set_List4294967296_Bytes2_g1_n0_1(p *List4294967296_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4294967296_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List4294967296_Bytes2_g1_n0_1(p *List4294967296_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type List1099511627776_Small_n0_1 []Small

func (*List1099511627776_Small_n0_1) Limit() uint64 { return 1099511627776 }
func sch_List1099511627776_Small_n0_1() *Sch        { return lens(sList(sch_Small(), 1099511627776, 1), 0, 1) }
func set_List1099511627776_Small_n0_1(p *List1099511627776_Small_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1099511627776_Small_n0_1, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List1099511627776_Small_n0_1(p *List1099511627776_Small_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type List1099511627776_Bytes2_g1_n0_1 []Bytes2_g1

func (*List1099511627776_Bytes2_g1_n0_1) Limit() uint64 { return 1099511627776 }
func sch_List1099511627776_Bytes2_g1_n0_1() *Sch {
	return lens(sList(sch_Bytes2_g1(), 1099511627776, 1), 0, 1)
}
func set_List1099511627776_Bytes2_g1_n0_1(p *List1099511627776_Bytes2_g1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1099511627776_Bytes2_g1_n0_1, n+1)
			set_Bytes2_g1(&(*p)[n], junk(sch_Bytes2_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List1099511627776_Bytes2_g1_n0_1(p *List1099511627776_Bytes2_g1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g1(&(*p)[i]))
	}
	return v
}

type Pad1 struct {
	A uint8
	B uint64
	C uint8
	D uint32
	E bool
	G uint16
}

func sch_Pad1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U64(), sch_U8(), sch_U32(), sch_Bool(), sch_U16()}, Names: []string{"A", "B", "C", "D", "E", "G"}}
}
func set_Pad1(p *Pad1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U64(&p.B, v.Elems[1])
	set_U8(&p.C, v.Elems[2])
	set_U32(&p.D, v.Elems[3])
	set_Bool(&p.E, v.Elems[4])
	set_U16(&p.G, v.Elems[5])
}
func get_Pad1(p *Pad1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U64(&p.B), get_U8(&p.C), get_U32(&p.D), get_Bool(&p.E), get_U16(&p.G)}}
}

type Pad2 struct {
	A bool
	B uint64
	C bool
}

func sch_Pad2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bool(), sch_U64(), sch_Bool()}, Names: []string{"A", "B", "C"}}
}
func set_Pad2(p *Pad2, v *Val) {
	set_Bool(&p.A, v.Elems[0])
	set_U64(&p.B, v.Elems[1])
	set_Bool(&p.C, v.Elems[2])
}
func get_Pad2(p *Pad2) *Val {
	return &Val{Elems: []*Val{get_Bool(&p.A), get_U64(&p.B), get_Bool(&p.C)}}
}
func sch_Vec3_Pad2() *Sch { return sVec(sch_Pad2(), 3) }
func set_Vec3_Pad2(p *[3]Pad2, v *Val) {
	for i := range p {
		set_Pad2(&p[i], v.Elems[i])
	}
}
func get_Vec3_Pad2(p *[3]Pad2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Pad2(&p[i]))
	}
	return v
}

type List3_Pad2_n0_1_3 []Pad2

func (*List3_Pad2_n0_1_3) Limit() uint64 { return 3 }
func sch_List3_Pad2_n0_1_3() *Sch        { return lens(sList(sch_Pad2(), 3, 3), 0, 1, 3) }
func set_List3_Pad2_n0_1_3(p *List3_Pad2_n0_1_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Pad2_n0_1_3, n+1)
			set_Pad2(&(*p)[n], junk(sch_Pad2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Pad2(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Pad2_n0_1_3(p *List3_Pad2_n0_1_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Pad2(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Pad2() *Sch { return sVec(sch_Pad2(), 2) }
func set_Vec2_Pad2(p *[2]Pad2, v *Val) {
	for i := range p {
		set_Pad2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Pad2(p *[2]Pad2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Pad2(&p[i]))
	}
	return v
}
func sch_Vec2_Vec2_Pad2() *Sch { return sVec(sch_Vec2_Pad2(), 2) }
func set_Vec2_Vec2_Pad2(p *[2][2]Pad2, v *Val) {
	for i := range p {
		set_Vec2_Pad2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec2_Pad2(p *[2][2]Pad2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Pad2(&p[i]))
	}
	return v
}

type List2_Vec2_Pad2_n0_2 [][2]Pad2

func (*List2_Vec2_Pad2_n0_2) Limit() uint64 { return 2 }
func sch_List2_Vec2_Pad2_n0_2() *Sch        { return lens(sList(sch_Vec2_Pad2(), 2, 2), 0, 2) }
func set_List2_Vec2_Pad2_n0_2(p *List2_Vec2_Pad2_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_Vec2_Pad2_n0_2, n+1)
			set_Vec2_Pad2(&(*p)[n], junk(sch_Vec2_Pad2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Vec2_Pad2(&(*p)[i], v.Elems[i])
	}
}
func get_List2_Vec2_Pad2_n0_2(p *List2_Vec2_Pad2_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Vec2_Pad2(&(*p)[i]))
	}
	return v
}
func sch_Ptr_Pad2() *Sch { return sch_Pad2() }
func set_Ptr_Pad2(p **Pad2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Pad2)
	}
	set_Pad2(*p, v)
}
func get_Ptr_Pad2(p **Pad2) *Val { return get_Pad2(*p) }
func sch_Vec2_Ptr_Pad2() *Sch    { return sVec(sch_Ptr_Pad2(), 2) }
func set_Vec2_Ptr_Pad2(p *[2]*Pad2, v *Val) {
	for i := range p {
		set_Ptr_Pad2(&p[i], v.Elems[i])
	}
}
func get_Vec2_Ptr_Pad2(p *[2]*Pad2) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_Pad2(&p[i]))
	}
	return v
}

type List3_Ptr_Bytes3_g1_n0_1_2 []*Bytes3_g1

func (*List3_Ptr_Bytes3_g1_n0_1_2) Limit() uint64 { return 3 }
func sch_List3_Ptr_Bytes3_g1_n0_1_2() *Sch        { return lens(sList(sch_Ptr_Bytes3_g1(), 3, 2), 0, 1, 2) }
func set_List3_Ptr_Bytes3_g1_n0_1_2(p *List3_Ptr_Bytes3_g1_n0_1_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Ptr_Bytes3_g1_n0_1_2, n+1)
			set_Ptr_Bytes3_g1(&(*p)[n], junk(sch_Ptr_Bytes3_g1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Bytes3_g1(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Ptr_Bytes3_g1_n0_1_2(p *List3_Ptr_Bytes3_g1_n0_1_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Bytes3_g1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Ptr_BytesN32() *Sch { return sVec(sch_Ptr_BytesN32(), 2) }
func set_Vec2_Ptr_BytesN32(p *[2]*[32]byte, v *Val) {
	for i := range p {
		set_Ptr_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec2_Ptr_BytesN32(p *[2]*[32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Ptr_BytesN32(&p[i]))
	}
	return v
}

type List3_Ptr_Vec2_U16_n0_2 []*[2]uint16

func (*List3_Ptr_Vec2_U16_n0_2) Limit() uint64 { return 3 }
func sch_List3_Ptr_Vec2_U16_n0_2() *Sch        { return lens(sList(sch_Ptr_Vec2_U16(), 3, 2), 0, 2) }
func set_List3_Ptr_Vec2_U16_n0_2(p *List3_Ptr_Vec2_U16_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Ptr_Vec2_U16_n0_2, n+1)
			set_Ptr_Vec2_U16(&(*p)[n], junk(sch_Ptr_Vec2_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Ptr_Vec2_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Ptr_Vec2_U16_n0_2(p *List3_Ptr_Vec2_U16_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Ptr_Vec2_U16(&(*p)[i]))
	}
	return v
}

type Oct uint8

func sch_Oct() *Sch {
	s := sUint(1)
	s.Print = func(v *Val) []byte {
		var x Oct
		set_Oct(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Oct)(nil)))
	}
	return s
}
func set_Oct(p *Oct, v *Val) { *p = Oct(v.U) }
func get_Oct(p *Oct) *Val    { return &Val{U: uint64(*p)} }

type Half uint16

func sch_Half() *Sch {
	s := sUint(2)
	s.Print = func(v *Val) []byte {
		var x Half
		set_Half(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Half)(nil)))
	}
	return s
}
func set_Half(p *Half, v *Val) { *p = Half(v.U) }
func get_Half(p *Half) *Val    { return &Val{U: uint64(*p)} }

type Word uint32

func sch_Word() *Sch {
	s := sUint(4)
	s.Print = func(v *Val) []byte {
		var x Word
		set_Word(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Word)(nil)))
	}
	return s
}
func set_Word(p *Word, v *Val) { *p = Word(v.U) }
func get_Word(p *Word) *Val    { return &Val{U: uint64(*p)} }
func sch_BytesN5_Oct() *Sch {
	s := sBytesN(5)
	s.Print = func(v *Val) []byte {
		var x [5]Oct
		set_BytesN5_Oct(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[5]Oct)(nil)))
	}
	return s
}
func set_BytesN5_Oct(p *[5]Oct, v *Val) {
	for i := range p {
		p[i] = Oct(v.B[i])
	}
}
func get_BytesN5_Oct(p *[5]Oct) *Val {
	v := &Val{}
	for i := range p {
		v.B = append(v.B, byte(p[i]))
	}
	return v
}

type Bytes5_n0_1_5_Oct []Oct

func (*Bytes5_n0_1_5_Oct) Limit() uint64 { return 5 }
func sch_Bytes5_n0_1_5_Oct() *Sch {
	s := lens(sBytes(5, 5), 0, 1, 5)
	s.Print = func(v *Val) []byte {
		var x Bytes5_n0_1_5_Oct
		set_Bytes5_n0_1_5_Oct(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes5_n0_1_5_Oct)(nil)))
	}
	return s
}
func set_Bytes5_n0_1_5_Oct(p *Bytes5_n0_1_5_Oct, v *Val) {
	n := len(v.B)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(Bytes5_n0_1_5_Oct, n+1)
			(*p)[n] = 0xa5
			*p = (*p)[:n]
		}
	}
	for i, x := range v.B {
		(*p)[i] = Oct(x)
	}
}
func get_Bytes5_n0_1_5_Oct(p *Bytes5_n0_1_5_Oct) *Val {
	v := &Val{}
	for _, x := range *p {
		v.B = append(v.B, byte(x))
	}
	return v
}
func sch_Vec3_Half() *Sch { return sVec(sch_Half(), 3) }
func set_Vec3_Half(p *[3]Half, v *Val) {
	for i := range p {
		set_Half(&p[i], v.Elems[i])
	}
}
func get_Vec3_Half(p *[3]Half) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Half(&p[i]))
	}
	return v
}

type List3_Word_n0_1_3 []Word

func (*List3_Word_n0_1_3) Limit() uint64 { return 3 }
func sch_List3_Word_n0_1_3() *Sch        { return lens(sList(sch_Word(), 3, 3), 0, 1, 3) }
func set_List3_Word_n0_1_3(p *List3_Word_n0_1_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_Word_n0_1_3, n+1)
			set_Word(&(*p)[n], junk(sch_Word()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Word(&(*p)[i], v.Elems[i])
	}
}
func get_List3_Word_n0_1_3(p *List3_Word_n0_1_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Word(&(*p)[i]))
	}
	return v
}
func sch_Vec3_Flag() *Sch { return sVec(sch_Flag(), 3) }
func set_Vec3_Flag(p *[3]Flag, v *Val) {
	for i := range p {
		set_Flag(&p[i], v.Elems[i])
	}
}
func get_Vec3_Flag(p *[3]Flag) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Flag(&p[i]))
	}
	return v
}

type Named struct {
	A Oct
	B Half
	C Flag
	D Bytes5_n0_1_5_Oct
}

func sch_Named() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Oct(), sch_Half(), sch_Flag(), sch_Bytes5_n0_1_5_Oct()}, Names: []string{"A", "B", "C", "D"}}
}
func set_Named(p *Named, v *Val) {
	set_Oct(&p.A, v.Elems[0])
	set_Half(&p.B, v.Elems[1])
	set_Flag(&p.C, v.Elems[2])
	set_Bytes5_n0_1_5_Oct(&p.D, v.Elems[3])
}
func get_Named(p *Named) *Val {
	return &Val{Elems: []*Val{get_Oct(&p.A), get_Half(&p.B), get_Flag(&p.C), get_Bytes5_n0_1_5_Oct(&p.D)}}
}

type List2_List2_Bytes2_g1_n0_1_n0_1 []List2_Bytes2_g1_n0_1

func (*List2_List2_Bytes2_g1_n0_1_n0_1) Limit() uint64 { return 2 }
func sch_List2_List2_Bytes2_g1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List2_Bytes2_g1_n0_1(), 2, 1), 0, 1)
}
func set_List2_List2_Bytes2_g1_n0_1_n0_1(p *List2_List2_Bytes2_g1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_Bytes2_g1_n0_1_n0_1, n+1)
			set_List2_Bytes2_g1_n0_1(&(*p)[n], junk(sch_List2_Bytes2_g1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_Bytes2_g1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_Bytes2_g1_n0_1_n0_1(p *List2_List2_Bytes2_g1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_Bytes2_g1_n0_1(&(*p)[i]))
	}
	return v
}

type List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1 []List2_List2_Bytes2_g1_n0_1_n0_1

func (*List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1) Limit() uint64 { return 2 }
func sch_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List2_List2_Bytes2_g1_n0_1_n0_1(), 2, 1), 0, 1)
}
func set_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1(p *List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1, n+1)
			set_List2_List2_Bytes2_g1_n0_1_n0_1(&(*p)[n], junk(sch_List2_List2_Bytes2_g1_n0_1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List2_Bytes2_g1_n0_1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1(p *List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List2_Bytes2_g1_n0_1_n0_1(&(*p)[i]))
	}
	return v
}

type List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1 []List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1

func (*List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1) Limit() uint64 { return 2 }
func sch_List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1() *Sch {
	return lens(sList(sch_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1(), 2, 1), 0, 1)
}
func set_List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1(p *List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1, n+1)
			set_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1(&(*p)[n], junk(sch_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1(p *List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1(&(*p)[i]))
	}
	return v
}

type Deep0 struct {
	A uint16
}

func sch_Deep0() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16()}, Names: []string{"A"}}
}
func set_Deep0(p *Deep0, v *Val) {
	set_U16(&p.A, v.Elems[0])
}
func get_Deep0(p *Deep0) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A)}}
}

type Deep1 struct {
	A Deep0
}

func sch_Deep1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Deep0()}, Names: []string{"A"}}
}
func set_Deep1(p *Deep1, v *Val) {
	set_Deep0(&p.A, v.Elems[0])
}
func get_Deep1(p *Deep1) *Val {
	return &Val{Elems: []*Val{get_Deep0(&p.A)}}
}

type Deep2 struct {
	A Deep1
}

func sch_Deep2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Deep1()}, Names: []string{"A"}}
}
func set_Deep2(p *Deep2, v *Val) {
	set_Deep1(&p.A, v.Elems[0])
}
func get_Deep2(p *Deep2) *Val {
	return &Val{Elems: []*Val{get_Deep1(&p.A)}}
}

type Deep3 struct {
	A Deep2
}

func sch_Deep3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Deep2()}, Names: []string{"A"}}
}
func set_Deep3(p *Deep3, v *Val) {
	set_Deep2(&p.A, v.Elems[0])
}
func get_Deep3(p *Deep3) *Val {
	return &Val{Elems: []*Val{get_Deep2(&p.A)}}
}

type DeepV0 struct {
	A uint8
	B Bytes2_g1
}

func sch_DeepV0() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1()}, Names: []string{"A", "B"}}
}
func set_DeepV0(p *DeepV0, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
}
func get_DeepV0(p *DeepV0) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bytes2_g1(&p.B)}}
}

type DeepV1 struct {
	A uint8
	B DeepV0
}

func sch_DeepV1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_DeepV0()}, Names: []string{"A", "B"}}
}
func set_DeepV1(p *DeepV1, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_DeepV0(&p.B, v.Elems[1])
}
func get_DeepV1(p *DeepV1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_DeepV0(&p.B)}}
}

type DeepV2 struct {
	A uint8
	B DeepV1
}

func sch_DeepV2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_DeepV1()}, Names: []string{"A", "B"}}
}
func set_DeepV2(p *DeepV2, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_DeepV1(&p.B, v.Elems[1])
}
func get_DeepV2(p *DeepV2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_DeepV1(&p.B)}}
}

type DeepV3 struct {
	A uint8
	B DeepV2
}

func sch_DeepV3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_DeepV2()}, Names: []string{"A", "B"}}
}
func set_DeepV3(p *DeepV3, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_DeepV2(&p.B, v.Elems[1])
}
func get_DeepV3(p *DeepV3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_DeepV2(&p.B)}}
}
func sch_Vec2_Vec2_Vec2_Small() *Sch { return sVec(sch_Vec2_Vec2_Small(), 2) }
func set_Vec2_Vec2_Vec2_Small(p *[2][2][2]Small, v *Val) {
	for i := range p {
		set_Vec2_Vec2_Small(&p[i], v.Elems[i])
	}
}
func get_Vec2_Vec2_Vec2_Small(p *[2][2][2]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Vec2_Vec2_Small(&p[i]))
	}
	return v
}
func sch_Ptr_Ptr_Var1() *Sch { return sch_Ptr_Var1() }
func set_Ptr_Ptr_Var1(p ***Var1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(*Var1)
	}
	set_Ptr_Var1(*p, v)
}
func get_Ptr_Ptr_Var1(p ***Var1) *Val { return get_Ptr_Var1(*p) }
func sch_Ptr_Ptr_Ptr_Var1() *Sch      { return sch_Ptr_Ptr_Var1() }
func set_Ptr_Ptr_Ptr_Var1(p ****Var1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(**Var1)
	}
	set_Ptr_Ptr_Var1(*p, v)
}
func get_Ptr_Ptr_Ptr_Var1(p ****Var1) *Val { return get_Ptr_Ptr_Var1(*p) }

type L0 struct {
	A uint8
	B Bytes2_g1
}

func sch_L0() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1()}, Names: []string{"A", "B"}}
}
func set_L0(p *L0, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_Bytes2_g1(&p.B, v.Elems[1])
}
func get_L0(p *L0) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_Bytes2_g1(&p.B)}}
}

type L1 struct {
	Z uint16
	L0
	N uint32 `ssz:"omit"`
	Y bool
}

func sch_L1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U8(), sch_Bytes2_g1(), sch_Bool()}, Names: []string{"Z", "A", "B", "Y"}}
}
func set_L1(p *L1, v *Val) {
	set_U16(&p.Z, v.Elems[0])
	set_U8(&p.L0.A, v.Elems[1])
	set_Bytes2_g1(&p.L0.B, v.Elems[2])
	set_Bool(&p.Y, v.Elems[3])
}
func get_L1(p *L1) *Val {
	return &Val{Elems: []*Val{get_U16(&p.Z), get_U8(&p.L0.A), get_Bytes2_g1(&p.L0.B), get_Bool(&p.Y)}}
}

type L2 struct {
	L1 L1     `ssz:"squash"`
	M  uint64 `ssz:"omit"`
	P  *Small
}

func sch_L2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U8(), sch_Bytes2_g1(), sch_Bool(), sch_Ptr_Small()}, Names: []string{"Z", "A", "B", "Y", "P"}}
}
func set_L2(p *L2, v *Val) {
	set_U16(&p.L1.Z, v.Elems[0])
	set_U8(&p.L1.L0.A, v.Elems[1])
	set_Bytes2_g1(&p.L1.L0.B, v.Elems[2])
	set_Bool(&p.L1.Y, v.Elems[3])
	set_Ptr_Small(&p.P, v.Elems[4])
}
func get_L2(p *L2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.L1.Z), get_U8(&p.L1.L0.A), get_Bytes2_g1(&p.L1.L0.B), get_Bool(&p.L1.Y), get_Ptr_Small(&p.P)}}
}

type L3 struct {
	Q uint8
	L2
	R L0 `ssz:"x,squash"`
}

func sch_L3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_U8(), sch_Bytes2_g1(), sch_Bool(), sch_Ptr_Small(), sch_U8(), sch_Bytes2_g1()}, Names: []string{"Q", "Z", "A", "B", "Y", "P", "A", "B"}}
}
func set_L3(p *L3, v *Val) {
	set_U8(&p.Q, v.Elems[0])
	set_U16(&p.L2.L1.Z, v.Elems[1])
	set_U8(&p.L2.L1.L0.A, v.Elems[2])
	set_Bytes2_g1(&p.L2.L1.L0.B, v.Elems[3])
	set_Bool(&p.L2.L1.Y, v.Elems[4])
	set_Ptr_Small(&p.L2.P, v.Elems[5])
	set_U8(&p.R.A, v.Elems[6])
	set_Bytes2_g1(&p.R.B, v.Elems[7])
}
func get_L3(p *L3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.Q), get_U16(&p.L2.L1.Z), get_U8(&p.L2.L1.L0.A), get_Bytes2_g1(&p.L2.L1.L0.B), get_Bool(&p.L2.L1.Y), get_Ptr_Small(&p.L2.P), get_U8(&p.R.A), get_Bytes2_g1(&p.R.B)}}
}

type Small2 struct {
	C uint16
	D uint8
}

func sch_Small2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U8()}, Names: []string{"C", "D"}}
}
func set_Small2(p *Small2, v *Val) {
	set_U16(&p.C, v.Elems[0])
	set_U8(&p.D, v.Elems[1])
}
func get_Small2(p *Small2) *Val {
	return &Val{Elems: []*Val{get_U16(&p.C), get_U8(&p.D)}}
}

type TwoIn struct {
	A Small  `ssz:"squash"`
	B Small2 `ssz:"squash"`
}

func sch_TwoIn() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U8(), sch_U16(), sch_U8()}, Names: []string{"A", "B", "C", "D"}}
}
func set_TwoIn(p *TwoIn, v *Val) {
	set_U16(&p.A.A, v.Elems[0])
	set_U8(&p.A.B, v.Elems[1])
	set_U16(&p.B.C, v.Elems[2])
	set_U8(&p.B.D, v.Elems[3])
}
func get_TwoIn(p *TwoIn) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A.A), get_U8(&p.A.B), get_U16(&p.B.C), get_U8(&p.B.D)}}
}

type List2_L1_n0_1 []L1

func (*List2_L1_n0_1) Limit() uint64 { return 2 }
func sch_List2_L1_n0_1() *Sch        { return lens(sList(sch_L1(), 2, 1), 0, 1) }
func set_List2_L1_n0_1(p *List2_L1_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_L1_n0_1, n+1)
			set_L1(&(*p)[n], junk(sch_L1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_L1(&(*p)[i], v.Elems[i])
	}
}
func get_List2_L1_n0_1(p *List2_L1_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_L1(&(*p)[i]))
	}
	return v
}
func sch_Vec2_Om1() *Sch { return sVec(sch_Om1(), 2) }
func set_Vec2_Om1(p *[2]Om1, v *Val) {
	for i := range p {
		set_Om1(&p[i], v.Elems[i])
	}
}
func get_Vec2_Om1(p *[2]Om1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Om1(&p[i]))
	}
	return v
}
func sch_Vec3_InOm() *Sch { return sVec(sch_InOm(), 3) }
func set_Vec3_InOm(p *[3]InOm, v *Val) {
	for i := range p {
		set_InOm(&p[i], v.Elems[i])
	}
}
func get_Vec3_InOm(p *[3]InOm) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_InOm(&p[i]))
	}
	return v
}

type List3_InOm_n0_1_3 []InOm

func (*List3_InOm_n0_1_3) Limit() uint64 { return 3 }
func sch_List3_InOm_n0_1_3() *Sch        { return lens(sList(sch_InOm(), 3, 3), 0, 1, 3) }
func set_List3_InOm_n0_1_3(p *List3_InOm_n0_1_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_InOm_n0_1_3, n+1)
			set_InOm(&(*p)[n], junk(sch_InOm()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_InOm(&(*p)[i], v.Elems[i])
	}
}
func get_List3_InOm_n0_1_3(p *List3_InOm_n0_1_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_InOm(&(*p)[i]))
	}
	return v
}

type OmAll struct {
	A uint8 `ssz:"omit"`
	B uint16
	C Bytes2_g1 `ssz:"omit"`
	D *uint8    `ssz:"omit"`
}

func sch_OmAll() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16()}, Names: []string{"B"}}
}
func set_OmAll(p *OmAll, v *Val) {
	set_U16(&p.B, v.Elems[0])
}
func get_OmAll(p *OmAll) *Val {
	return &Val{Elems: []*Val{get_U16(&p.B)}}
}

type List3_U16_n0_1 []uint16

func (*List3_U16_n0_1) Limit() uint64 { return 3 }
func sch_List3_U16_n0_1() *Sch        { return lens(sList(sch_U16(), 3, 1), 0, 1) }
func set_List3_U16_n0_1(p *List3_U16_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List3_U16_n0_1, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List3_U16_n0_1(p *List3_U16_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type SqEmb struct {
	Fix3 `ssz:"squash"`
	V    List3_U16_n0_1
}

func sch_SqEmb() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U32(), sch_BytesN4(), sch_List3_U16_n0_1()}, Names: []string{"A", "B", "C", "V"}}
}
func set_SqEmb(p *SqEmb, v *Val) {
	set_U8(&p.Fix3.A, v.Elems[0])
	set_U32(&p.Fix3.B, v.Elems[1])
	set_BytesN4(&p.Fix3.C, v.Elems[2])
	set_List3_U16_n0_1(&p.V, v.Elems[3])
}
func get_SqEmb(p *SqEmb) *Val {
	return &Val{Elems: []*Val{get_U8(&p.Fix3.A), get_U32(&p.Fix3.B), get_BytesN4(&p.Fix3.C), get_List3_U16_n0_1(&p.V)}}
}

type SqFix struct {
	A uint8
	I FixBig `ssz:"squash"`
	Z uint64
}

func sch_SqFix() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U64(), sch_BytesN32(), sch_Vec3_U16(), sch_Small(), sch_Bool(), sch_U64()}, Names: []string{"A", "A", "R", "V", "S", "X", "Z"}}
}
func set_SqFix(p *SqFix, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U64(&p.I.A, v.Elems[1])
	set_BytesN32(&p.I.R, v.Elems[2])
	set_Vec3_U16(&p.I.V, v.Elems[3])
	set_Small(&p.I.S, v.Elems[4])
	set_Bool(&p.I.X, v.Elems[5])
	set_U64(&p.Z, v.Elems[6])
}
func get_SqFix(p *SqFix) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U64(&p.I.A), get_BytesN32(&p.I.R), get_Vec3_U16(&p.I.V), get_Small(&p.I.S), get_Bool(&p.I.X), get_U64(&p.Z)}}
}

type EmbOmit struct {
	H     uint8
	Small `ssz:"omit"`
	In1
	T uint8
}

func sch_EmbOmit() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_Bytes3_g2(), sch_U8()}, Names: []string{"H", "A", "L", "T"}}
}
func set_EmbOmit(p *EmbOmit, v *Val) {
	set_U8(&p.H, v.Elems[0])
	set_U16(&p.In1.A, v.Elems[1])
	set_Bytes3_g2(&p.In1.L, v.Elems[2])
	set_U8(&p.T, v.Elems[3])
}
func get_EmbOmit(p *EmbOmit) *Val {
	return &Val{Elems: []*Val{get_U8(&p.H), get_U16(&p.In1.A), get_Bytes3_g2(&p.In1.L), get_U8(&p.T)}}
}

type TagNear struct {
	A    uint8  `ssz:"omittable"`
	B    uint16 `ssz:"noomit"`
	C    Small  `ssz:"squashed"`
	D    Small  `ssz:"nosquash"`
	Fix3 `ssz:"other"`
	E    uint8     `ssz:"Omit"`
	G    uint16    `ssz:" omit"`
	H    Small     `ssz:"squash "`
	I    uint8     `ssz:"omi"`
	J    Bytes2_g1 `ssz:"squas,omi"`
}

func sch_TagNear() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16(), sch_Small(), sch_Small(), sch_U8(), sch_U32(), sch_BytesN4(), sch_U8(), sch_U16(), sch_Small(), sch_U8(), sch_Bytes2_g1()}, Names: []string{"A", "B", "C", "D", "A", "B", "C", "E", "G", "H", "I", "J"}}
}
func set_TagNear(p *TagNear, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U16(&p.B, v.Elems[1])
	set_Small(&p.C, v.Elems[2])
	set_Small(&p.D, v.Elems[3])
	set_U8(&p.Fix3.A, v.Elems[4])
	set_U32(&p.Fix3.B, v.Elems[5])
	set_BytesN4(&p.Fix3.C, v.Elems[6])
	set_U8(&p.E, v.Elems[7])
	set_U16(&p.G, v.Elems[8])
	set_Small(&p.H, v.Elems[9])
	set_U8(&p.I, v.Elems[10])
	set_Bytes2_g1(&p.J, v.Elems[11])
}
func get_TagNear(p *TagNear) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U16(&p.B), get_Small(&p.C), get_Small(&p.D), get_U8(&p.Fix3.A), get_U32(&p.Fix3.B), get_BytesN4(&p.Fix3.C), get_U8(&p.E), get_U16(&p.G), get_Small(&p.H), get_U8(&p.I), get_Bytes2_g1(&p.J)}}
}
func sch_BytesN7() *Sch {
	s := sBytesN(7)
	s.Print = func(v *Val) []byte {
		var x [7]byte
		set_BytesN7(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[7]byte)(nil)))
	}
	return s
}
func set_BytesN7(p *[7]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN7(p *[7]byte) *Val    { return &Val{B: clone(p[:])} }

type OmFirst struct {
	H [7]byte `ssz:"omit"`
	L Bytes2_g1
	I Small `ssz:"squash,omit"`
	A uint32
	J Small `ssz:"omit,squash"`
	M Bytes2_g1
	K uint64 `ssz:"omit"`
}

func sch_OmFirst() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bytes2_g1(), sch_U32(), sch_Bytes2_g1()}, Names: []string{"L", "A", "M"}}
}
func set_OmFirst(p *OmFirst, v *Val) {
	set_Bytes2_g1(&p.L, v.Elems[0])
	set_U32(&p.A, v.Elems[1])
	set_Bytes2_g1(&p.M, v.Elems[2])
}
func get_OmFirst(p *OmFirst) *Val {
	return &Val{Elems: []*Val{get_Bytes2_g1(&p.L), get_U32(&p.A), get_Bytes2_g1(&p.M)}}
}

type Hid struct {
	X uint64 `ssz:"omit"`
}

func sch_Hid() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{}, Names: []string{}}
}
func set_Hid(p *Hid, v *Val) {
}
func get_Hid(p *Hid) *Val {
	return &Val{Elems: []*Val{}}
}

type SqHid struct {
	A uint8
	Hid
	I Hid `ssz:"squash"`
	B uint16
}

func sch_SqHid() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_U16()}, Names: []string{"A", "B"}}
}
func set_SqHid(p *SqHid, v *Val) {
	set_U8(&p.A, v.Elems[0])
	set_U16(&p.B, v.Elems[1])
}
func get_SqHid(p *SqHid) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A), get_U16(&p.B)}}
}

type SqTwice struct {
	A In1 `ssz:"squash"`
	In1
	B In1
}

func sch_SqTwice() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_Bytes3_g2(), sch_U16(), sch_Bytes3_g2(), sch_In1()}, Names: []string{"A", "L", "A", "L", "B"}}
}
func set_SqTwice(p *SqTwice, v *Val) {
	set_U16(&p.A.A, v.Elems[0])
	set_Bytes3_g2(&p.A.L, v.Elems[1])
	set_U16(&p.In1.A, v.Elems[2])
	set_Bytes3_g2(&p.In1.L, v.Elems[3])
	set_In1(&p.B, v.Elems[4])
}
func get_SqTwice(p *SqTwice) *Val {
	return &Val{Elems: []*Val{get_U16(&p.A.A), get_Bytes3_g2(&p.A.L), get_U16(&p.In1.A), get_Bytes3_g2(&p.In1.L), get_In1(&p.B)}}
}
func sch_Ptr_Om1() *Sch { return sch_Om1() }
func set_Ptr_Om1(p **Om1, v *Val) {
	if !inPlace || *p == nil {
		*p = new(Om1)
	}
	set_Om1(*p, v)
}
func get_Ptr_Om1(p **Om1) *Val { return get_Om1(*p) }

type SqPtrI struct {
	Q *uint16
	N uint16 `ssz:"omit"`
	R *Small
}

func sch_SqPtrI() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_U16(), sch_Ptr_Small()}, Names: []string{"Q", "R"}}
}
func set_SqPtrI(p *SqPtrI, v *Val) {
	set_Ptr_U16(&p.Q, v.Elems[0])
	set_Ptr_Small(&p.R, v.Elems[1])
}
func get_SqPtrI(p *SqPtrI) *Val {
	return &Val{Elems: []*Val{get_Ptr_U16(&p.Q), get_Ptr_Small(&p.R)}}
}

type SqPtrIn struct {
	P *Om1
	S SqPtrI `ssz:"squash"`
}

func sch_SqPtrIn() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Ptr_Om1(), sch_Ptr_U16(), sch_Ptr_Small()}, Names: []string{"P", "Q", "R"}}
}
func set_SqPtrIn(p *SqPtrIn, v *Val) {
	set_Ptr_Om1(&p.P, v.Elems[0])
	set_Ptr_U16(&p.S.Q, v.Elems[1])
	set_Ptr_Small(&p.S.R, v.Elems[2])
}
func get_SqPtrIn(p *SqPtrIn) *Val {
	return &Val{Elems: []*Val{get_Ptr_Om1(&p.P), get_Ptr_U16(&p.S.Q), get_Ptr_Small(&p.S.R)}}
}
func sch_Vec2_EmbOmit() *Sch { return sVec(sch_EmbOmit(), 2) }
func set_Vec2_EmbOmit(p *[2]EmbOmit, v *Val) {
	for i := range p {
		set_EmbOmit(&p[i], v.Elems[i])
	}
}
func get_Vec2_EmbOmit(p *[2]EmbOmit) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_EmbOmit(&p[i]))
	}
	return v
}

type List2_L3_n0_1 []L3

func (*List2_L3_n0_1) Limit() uint64 { return 2 }
func sch_List2_L3_n0_1() *Sch        { return lens(sList(sch_L3(), 2, 1), 0, 1) }
func set_List2_L3_n0_1(p *List2_L3_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2_L3_n0_1, n+1)
			set_L3(&(*p)[n], junk(sch_L3()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_L3(&(*p)[i], v.Elems[i])
	}
}
func get_List2_L3_n0_1(p *List2_L3_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_L3(&(*p)[i]))
	}
	return v
}
func sch_Ptr_L2() *Sch { return sch_L2() }
func set_Ptr_L2(p **L2, v *Val) {
	if !inPlace || *p == nil {
		*p = new(L2)
	}
	set_L2(*p, v)
}
func get_Ptr_L2(p **L2) *Val { return get_L2(*p) }

type SqDeep3 struct {
	X uint8
	D uint32 `ssz:"omit"`
	Y Bytes2_g1
}

func sch_SqDeep3() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1()}, Names: []string{"X", "Y"}}
}
func set_SqDeep3(p *SqDeep3, v *Val) {
	set_U8(&p.X, v.Elems[0])
	set_Bytes2_g1(&p.Y, v.Elems[1])
}
func get_SqDeep3(p *SqDeep3) *Val {
	return &Val{Elems: []*Val{get_U8(&p.X), get_Bytes2_g1(&p.Y)}}
}

type SqDeep2 struct {
	C SqDeep3 `ssz:"squash"`
	E bool
}

func sch_SqDeep2() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1(), sch_Bool()}, Names: []string{"X", "Y", "E"}}
}
func set_SqDeep2(p *SqDeep2, v *Val) {
	set_U8(&p.C.X, v.Elems[0])
	set_Bytes2_g1(&p.C.Y, v.Elems[1])
	set_Bool(&p.E, v.Elems[2])
}
func get_SqDeep2(p *SqDeep2) *Val {
	return &Val{Elems: []*Val{get_U8(&p.C.X), get_Bytes2_g1(&p.C.Y), get_Bool(&p.E)}}
}

type SqDeep1 struct {
	B SqDeep2 `ssz:"squash"`
	Small
}

func sch_SqDeep1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1(), sch_Bool(), sch_U16(), sch_U8()}, Names: []string{"X", "Y", "E", "A", "B"}}
}
func set_SqDeep1(p *SqDeep1, v *Val) {
	set_U8(&p.B.C.X, v.Elems[0])
	set_Bytes2_g1(&p.B.C.Y, v.Elems[1])
	set_Bool(&p.B.E, v.Elems[2])
	set_U16(&p.Small.A, v.Elems[3])
	set_U8(&p.Small.B, v.Elems[4])
}
func get_SqDeep1(p *SqDeep1) *Val {
	return &Val{Elems: []*Val{get_U8(&p.B.C.X), get_Bytes2_g1(&p.B.C.Y), get_Bool(&p.B.E), get_U16(&p.Small.A), get_U8(&p.Small.B)}}
}

type SqDeep struct {
	A SqDeep1 `ssz:"squash"`
	Z Bytes2_g1
}

func sch_SqDeep() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U8(), sch_Bytes2_g1(), sch_Bool(), sch_U16(), sch_U8(), sch_Bytes2_g1()}, Names: []string{"X", "Y", "E", "A", "B", "Z"}}
}
func set_SqDeep(p *SqDeep, v *Val) {
	set_U8(&p.A.B.C.X, v.Elems[0])
	set_Bytes2_g1(&p.A.B.C.Y, v.Elems[1])
	set_Bool(&p.A.B.E, v.Elems[2])
	set_U16(&p.A.Small.A, v.Elems[3])
	set_U8(&p.A.Small.B, v.Elems[4])
	set_Bytes2_g1(&p.Z, v.Elems[5])
}
func get_SqDeep(p *SqDeep) *Val {
	return &Val{Elems: []*Val{get_U8(&p.A.B.C.X), get_Bytes2_g1(&p.A.B.C.Y), get_Bool(&p.A.B.E), get_U16(&p.A.Small.A), get_U8(&p.A.Small.B), get_Bytes2_g1(&p.Z)}}
}
func sch_BytesN1000() *Sch {
	s := sBytesN(1000)
	s.Print = func(v *Val) []byte {
		var x [1000]byte
		set_BytesN1000(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[1000]byte)(nil)))
	}
	return s
}
func set_BytesN1000(p *[1000]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN1000(p *[1000]byte) *Val    { return &Val{B: clone(p[:])} }

type Bytes1048576_n1000_1024 []byte

func (*Bytes1048576_n1000_1024) Limit() uint64 { return 1048576 }
func sch_Bytes1048576_n1000_1024() *Sch {
	s := lens(sBytes(1048576, 1024), 1000, 1024)
	s.Print = func(v *Val) []byte {
		var x Bytes1048576_n1000_1024
		set_Bytes1048576_n1000_1024(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes1048576_n1000_1024)(nil)))
	}
	return s
}
func set_Bytes1048576_n1000_1024(p *Bytes1048576_n1000_1024, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes1048576_n1000_1024(p *Bytes1048576_n1000_1024) *Val    { return &Val{B: clone(*p)} }

type Bitlist4096_n2047_2048_4095_4096 []byte

func (b *Bitlist4096_n2047_2048_4095_4096) Limit() uint64 { return 4096 }
func (b Bitlist4096_n2047_2048_4095_4096) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist4096_n2047_2048_4095_4096() *Sch {
	s := lens(sBitlist(4096, 4096), 2047, 2048, 4095, 4096)
	s.Print = func(v *Val) []byte {
		var x Bitlist4096_n2047_2048_4095_4096
		set_Bitlist4096_n2047_2048_4095_4096(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist4096_n2047_2048_4095_4096)(nil)))
	}
	return s
}
func set_Bitlist4096_n2047_2048_4095_4096(p *Bitlist4096_n2047_2048_4095_4096, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist4096_n2047_2048_4095_4096(), v))
}
func get_Bitlist4096_n2047_2048_4095_4096(p *Bitlist4096_n2047_2048_4095_4096) *Val {
	return getBitlist(*p)
}

type List4096_U64_n300 []uint64

func (*List4096_U64_n300) Limit() uint64 { return 4096 }
func sch_List4096_U64_n300() *Sch        { return lens(sList(sch_U64(), 4096, 300), 300) }
func set_List4096_U64_n300(p *List4096_U64_n300, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List4096_U64_n300, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List4096_U64_n300(p *List4096_U64_n300) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}
func sch_Vec300_U64() *Sch { return sVec(sch_U64(), 300) }
func set_Vec300_U64(p *[300]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec300_U64(p *[300]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec1000_U16() *Sch { return sVec(sch_U16(), 1000) }
func set_Vec1000_U16(p *[1000]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec1000_U16(p *[1000]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}

type List100_Small_n99_100 []Small

func (*List100_Small_n99_100) Limit() uint64 { return 100 }
func sch_List100_Small_n99_100() *Sch        { return lens(sList(sch_Small(), 100, 100), 99, 100) }
func set_List100_Small_n99_100(p *List100_Small_n99_100, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List100_Small_n99_100, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_List100_Small_n99_100(p *List100_Small_n99_100) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}
func sch_Vec70_Small() *Sch { return sVec(sch_Small(), 70) }
func set_Vec70_Small(p *[70]Small, v *Val) {
	for i := range p {
		set_Small(&p[i], v.Elems[i])
	}
}
func get_Vec70_Small(p *[70]Small) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Small(&p[i]))
	}
	return v
}
func sch_Vec65_BytesN32() *Sch { return sVec(sch_BytesN32(), 65) }
func set_Vec65_BytesN32(p *[65][32]byte, v *Val) {
	for i := range p {
		set_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec65_BytesN32(p *[65][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN32(&p[i]))
	}
	return v
}

type List128_BytesN32_n65_128 [][32]byte

func (*List128_BytesN32_n65_128) Limit() uint64 { return 128 }
func sch_List128_BytesN32_n65_128() *Sch        { return lens(sList(sch_BytesN32(), 128, 128), 65, 128) }
func set_List128_BytesN32_n65_128(p *List128_BytesN32_n65_128, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List128_BytesN32_n65_128, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List128_BytesN32_n65_128(p *List128_BytesN32_n65_128) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}
func sch_Vec33_Bytes2_n1() *Sch { return sVec(sch_Bytes2_n1(), 33) }
func set_Vec33_Bytes2_n1(p *[33]Bytes2_n1, v *Val) {
	for i := range p {
		set_Bytes2_n1(&p[i], v.Elems[i])
	}
}
func get_Vec33_Bytes2_n1(p *[33]Bytes2_n1) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&p[i]))
	}
	return v
}

type List64_Bytes2_n1_n33_64 []Bytes2_n1

func (*List64_Bytes2_n1_n33_64) Limit() uint64 { return 64 }
func sch_List64_Bytes2_n1_n33_64() *Sch        { return lens(sList(sch_Bytes2_n1(), 64, 64), 33, 64) }
func set_List64_Bytes2_n1_n33_64(p *List64_Bytes2_n1_n33_64, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List64_Bytes2_n1_n33_64, n+1)
			set_Bytes2_n1(&(*p)[n], junk(sch_Bytes2_n1()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_n1(&(*p)[i], v.Elems[i])
	}
}
func get_List64_Bytes2_n1_n33_64(p *List64_Bytes2_n1_n33_64) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_n1(&(*p)[i]))
	}
	return v
}

type Bitvec4097 [513]byte

func (*Bitvec4097) BitLen() uint64 { return 4097 }
func sch_Bitvec4097() *Sch {
	s := sBitvec(4097)
	s.Print = func(v *Val) []byte {
		var x Bitvec4097
		set_Bitvec4097(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec4097)(nil)))
	}
	return s
}
func set_Bitvec4097(p *Bitvec4097, v *Val) { copy(p[:], v.B) }
func get_Bitvec4097(p *Bitvec4097) *Val    { return &Val{B: clone(p[:])} }

type Bitvec8192 [1024]byte

func (*Bitvec8192) BitLen() uint64 { return 8192 }
func sch_Bitvec8192() *Sch {
	s := sBitvec(8192)
	s.Print = func(v *Val) []byte {
		var x Bitvec8192
		set_Bitvec8192(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec8192)(nil)))
	}
	return s
}
func set_Bitvec8192(p *Bitvec8192, v *Val) { copy(p[:], v.B) }
func get_Bitvec8192(p *Bitvec8192) *Val    { return &Val{B: clone(p[:])} }

type List300_Bool_n257_300 []bool

func (*List300_Bool_n257_300) Limit() uint64 { return 300 }
func sch_List300_Bool_n257_300() *Sch        { return lens(sList(sch_Bool(), 300, 300), 257, 300) }
func set_List300_Bool_n257_300(p *List300_Bool_n257_300, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List300_Bool_n257_300, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List300_Bool_n257_300(p *List300_Bool_n257_300) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}
func sch_Vec300_Bool() *Sch { return sVec(sch_Bool(), 300) }
func set_Vec300_Bool(p *[300]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec300_Bool(p *[300]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}

type List1073741824_U32_n129 []uint32

func (*List1073741824_U32_n129) Limit() uint64 { return 1073741824 }
func sch_List1073741824_U32_n129() *Sch        { return lens(sList(sch_U32(), 1073741824, 129), 129) }
func set_List1073741824_U32_n129(p *List1073741824_U32_n129, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1073741824_U32_n129, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List1073741824_U32_n129(p *List1073741824_U32_n129) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type Many70 struct {
	F0  uint16
	F1  uint16
	F2  uint16
	F3  Bytes2_n1
	F4  uint16
	F5  uint16
	F6  uint16
	F7  uint16
	F8  uint16
	F9  uint16
	F10 Bytes2_n1
	F11 uint16
	F12 uint16
	F13 uint16
	F14 uint16
	F15 uint16
	F16 uint16
	F17 Bytes2_n1
	F18 uint16
	F19 uint16
	F20 uint16
	F21 uint16
	F22 uint16
	F23 uint16
	F24 Bytes2_n1
	F25 uint16
	F26 uint16
	F27 uint16
	F28 uint16
	F29 uint16
	F30 uint16
	F31 Bytes2_n1
	F32 uint16
	F33 uint16
	F34 uint16
	F35 uint16
	F36 uint16
	F37 uint16
	F38 Bytes2_n1
	F39 uint16
	F40 uint16
	F41 uint16
	F42 uint16
	F43 uint16
	F44 uint16
	F45 Bytes2_n1
	F46 uint16
	F47 uint16
	F48 uint16
	F49 uint16
	F50 uint16
	F51 uint16
	F52 Bytes2_n1
	F53 uint16
	F54 uint16
	F55 uint16
	F56 uint16
	F57 uint16
	F58 uint16
	F59 Bytes2_n1
	F60 uint16
	F61 uint16
	F62 uint16
	F63 uint16
	F64 uint16
	F65 uint16
	F66 Bytes2_n1
	F67 uint16
	F68 uint16
	F69 uint16
}

func sch_Many70() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_U16(), sch_Bytes2_n1(), sch_U16(), sch_U16(), sch_U16()}, Names: []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "F13", "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "F22", "F23", "F24", "F25", "F26", "F27", "F28", "F29", "F30", "F31", "F32", "F33", "F34", "F35", "F36", "F37", "F38", "F39", "F40", "F41", "F42", "F43", "F44", "F45", "F46", "F47", "F48", "F49", "F50", "F51", "F52", "F53", "F54", "F55", "F56", "F57", "F58", "F59", "F60", "F61", "F62", "F63", "F64", "F65", "F66", "F67", "F68", "F69"}}
}
func set_Many70(p *Many70, v *Val) {
	set_U16(&p.F0, v.Elems[0])
	set_U16(&p.F1, v.Elems[1])
	set_U16(&p.F2, v.Elems[2])
	set_Bytes2_n1(&p.F3, v.Elems[3])
	set_U16(&p.F4, v.Elems[4])
	set_U16(&p.F5, v.Elems[5])
	set_U16(&p.F6, v.Elems[6])
	set_U16(&p.F7, v.Elems[7])
	set_U16(&p.F8, v.Elems[8])
	set_U16(&p.F9, v.Elems[9])
	set_Bytes2_n1(&p.F10, v.Elems[10])
	set_U16(&p.F11, v.Elems[11])
	set_U16(&p.F12, v.Elems[12])
	set_U16(&p.F13, v.Elems[13])
	set_U16(&p.F14, v.Elems[14])
	set_U16(&p.F15, v.Elems[15])
	set_U16(&p.F16, v.Elems[16])
	set_Bytes2_n1(&p.F17, v.Elems[17])
	set_U16(&p.F18, v.Elems[18])
	set_U16(&p.F19, v.Elems[19])
	set_U16(&p.F20, v.Elems[20])
	set_U16(&p.F21, v.Elems[21])
	set_U16(&p.F22, v.Elems[22])
	set_U16(&p.F23, v.Elems[23])
	set_Bytes2_n1(&p.F24, v.Elems[24])
	set_U16(&p.F25, v.Elems[25])
	set_U16(&p.F26, v.Elems[26])
	set_U16(&p.F27, v.Elems[27])
	set_U16(&p.F28, v.Elems[28])
	set_U16(&p.F29, v.Elems[29])
	set_U16(&p.F30, v.Elems[30])
	set_Bytes2_n1(&p.F31, v.Elems[31])
	set_U16(&p.F32, v.Elems[32])
	set_U16(&p.F33, v.Elems[33])
	set_U16(&p.F34, v.Elems[34])
	set_U16(&p.F35, v.Elems[35])
	set_U16(&p.F36, v.Elems[36])
	set_U16(&p.F37, v.Elems[37])
	set_Bytes2_n1(&p.F38, v.Elems[38])
	set_U16(&p.F39, v.Elems[39])
	set_U16(&p.F40, v.Elems[40])
	set_U16(&p.F41, v.Elems[41])
	set_U16(&p.F42, v.Elems[42])
	set_U16(&p.F43, v.Elems[43])
	set_U16(&p.F44, v.Elems[44])
	set_Bytes2_n1(&p.F45, v.Elems[45])
	set_U16(&p.F46, v.Elems[46])
	set_U16(&p.F47, v.Elems[47])
	set_U16(&p.F48, v.Elems[48])
	set_U16(&p.F49, v.Elems[49])
	set_U16(&p.F50, v.Elems[50])
	set_U16(&p.F51, v.Elems[51])
	set_Bytes2_n1(&p.F52, v.Elems[52])
	set_U16(&p.F53, v.Elems[53])
	set_U16(&p.F54, v.Elems[54])
	set_U16(&p.F55, v.Elems[55])
	set_U16(&p.F56, v.Elems[56])
	set_U16(&p.F57, v.Elems[57])
	set_U16(&p.F58, v.Elems[58])
	set_Bytes2_n1(&p.F59, v.Elems[59])
	set_U16(&p.F60, v.Elems[60])
	set_U16(&p.F61, v.Elems[61])
	set_U16(&p.F62, v.Elems[62])
	set_U16(&p.F63, v.Elems[63])
	set_U16(&p.F64, v.Elems[64])
	set_U16(&p.F65, v.Elems[65])
	set_Bytes2_n1(&p.F66, v.Elems[66])
	set_U16(&p.F67, v.Elems[67])
	set_U16(&p.F68, v.Elems[68])
	set_U16(&p.F69, v.Elems[69])
}
func get_Many70(p *Many70) *Val {
	return &Val{Elems: []*Val{get_U16(&p.F0), get_U16(&p.F1), get_U16(&p.F2), get_Bytes2_n1(&p.F3), get_U16(&p.F4), get_U16(&p.F5), get_U16(&p.F6), get_U16(&p.F7), get_U16(&p.F8), get_U16(&p.F9), get_Bytes2_n1(&p.F10), get_U16(&p.F11), get_U16(&p.F12), get_U16(&p.F13), get_U16(&p.F14), get_U16(&p.F15), get_U16(&p.F16), get_Bytes2_n1(&p.F17), get_U16(&p.F18), get_U16(&p.F19), get_U16(&p.F20), get_U16(&p.F21), get_U16(&p.F22), get_U16(&p.F23), get_Bytes2_n1(&p.F24), get_U16(&p.F25), get_U16(&p.F26), get_U16(&p.F27), get_U16(&p.F28), get_U16(&p.F29), get_U16(&p.F30), get_Bytes2_n1(&p.F31), get_U16(&p.F32), get_U16(&p.F33), get_U16(&p.F34), get_U16(&p.F35), get_U16(&p.F36), get_U16(&p.F37), get_Bytes2_n1(&p.F38), get_U16(&p.F39), get_U16(&p.F40), get_U16(&p.F41), get_U16(&p.F42), get_U16(&p.F43), get_U16(&p.F44), get_Bytes2_n1(&p.F45), get_U16(&p.F46), get_U16(&p.F47), get_U16(&p.F48), get_U16(&p.F49), get_U16(&p.F50), get_U16(&p.F51), get_Bytes2_n1(&p.F52), get_U16(&p.F53), get_U16(&p.F54), get_U16(&p.F55), get_U16(&p.F56), get_U16(&p.F57), get_U16(&p.F58), get_Bytes2_n1(&p.F59), get_U16(&p.F60), get_U16(&p.F61), get_U16(&p.F62), get_U16(&p.F63), get_U16(&p.F64), get_U16(&p.F65), get_Bytes2_n1(&p.F66), get_U16(&p.F67), get_U16(&p.F68), get_U16(&p.F69)}}
}

type List1024_U64_n16_17_36_37_64_65 []uint64

func (*List1024_U64_n16_17_36_37_64_65) Limit() uint64 { return 1024 }
func sch_List1024_U64_n16_17_36_37_64_65() *Sch {
	return lens(sList(sch_U64(), 1024, 65), 16, 17, 36, 37, 64, 65)
}
func set_List1024_U64_n16_17_36_37_64_65(p *List1024_U64_n16_17_36_37_64_65, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1024_U64_n16_17_36_37_64_65, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List1024_U64_n16_17_36_37_64_65(p *List1024_U64_n16_17_36_37_64_65) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type List1024_U32_n32_33_40_41_64_65 []uint32

func (*List1024_U32_n32_33_40_41_64_65) Limit() uint64 { return 1024 }
func sch_List1024_U32_n32_33_40_41_64_65() *Sch {
	return lens(sList(sch_U32(), 1024, 65), 32, 33, 40, 41, 64, 65)
}
func set_List1024_U32_n32_33_40_41_64_65(p *List1024_U32_n32_33_40_41_64_65, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1024_U32_n32_33_40_41_64_65, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_List1024_U32_n32_33_40_41_64_65(p *List1024_U32_n32_33_40_41_64_65) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type List1024_U16_n32_33_48_49_64_65_128_129 []uint16

func (*List1024_U16_n32_33_48_49_64_65_128_129) Limit() uint64 { return 1024 }
func sch_List1024_U16_n32_33_48_49_64_65_128_129() *Sch {
	return lens(sList(sch_U16(), 1024, 129), 32, 33, 48, 49, 64, 65, 128, 129)
}
func set_List1024_U16_n32_33_48_49_64_65_128_129(p *List1024_U16_n32_33_48_49_64_65_128_129, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1024_U16_n32_33_48_49_64_65_128_129, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List1024_U16_n32_33_48_49_64_65_128_129(p *List1024_U16_n32_33_48_49_64_65_128_129) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type List1024_Bool_n0_32_64_65_96_97_128_129 []bool

func (*List1024_Bool_n0_32_64_65_96_97_128_129) Limit() uint64 { return 1024 }
func sch_List1024_Bool_n0_32_64_65_96_97_128_129() *Sch {
	return lens(sList(sch_Bool(), 1024, 129), 0, 32, 64, 65, 96, 97, 128, 129)
}
func set_List1024_Bool_n0_32_64_65_96_97_128_129(p *List1024_Bool_n0_32_64_65_96_97_128_129, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1024_Bool_n0_32_64_65_96_97_128_129, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_List1024_Bool_n0_32_64_65_96_97_128_129(p *List1024_Bool_n0_32_64_65_96_97_128_129) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}
func sch_Vec37_U64() *Sch { return sVec(sch_U64(), 37) }
func set_Vec37_U64(p *[37]uint64, v *Val) {
	for i := range p {
		set_U64(&p[i], v.Elems[i])
	}
}
func get_Vec37_U64(p *[37]uint64) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U64(&p[i]))
	}
	return v
}
func sch_Vec49_U16() *Sch { return sVec(sch_U16(), 49) }
func set_Vec49_U16(p *[49]uint16, v *Val) {
	for i := range p {
		set_U16(&p[i], v.Elems[i])
	}
}
func get_Vec49_U16(p *[49]uint16) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U16(&p[i]))
	}
	return v
}
func sch_Vec97_Bool() *Sch { return sVec(sch_Bool(), 97) }
func set_Vec97_Bool(p *[97]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec97_Bool(p *[97]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec41_U32() *Sch { return sVec(sch_U32(), 41) }
func set_Vec41_U32(p *[41]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec41_U32(p *[41]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}
func sch_Vec96_Bool() *Sch { return sVec(sch_Bool(), 96) }
func set_Vec96_Bool(p *[96]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec96_Bool(p *[96]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}
func sch_Vec128_Bool() *Sch { return sVec(sch_Bool(), 128) }
func set_Vec128_Bool(p *[128]bool, v *Val) {
	for i := range p {
		set_Bool(&p[i], v.Elems[i])
	}
}
func get_Vec128_Bool(p *[128]bool) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_Bool(&p[i]))
	}
	return v
}

type Bitlist2048_n767_768_769_1023_1024_1025 []byte

func (b *Bitlist2048_n767_768_769_1023_1024_1025) Limit() uint64 { return 2048 }
func (b Bitlist2048_n767_768_769_1023_1024_1025) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist2048_n767_768_769_1023_1024_1025() *Sch {
	s := lens(sBitlist(2048, 1025), 767, 768, 769, 1023, 1024, 1025)
	s.Print = func(v *Val) []byte {
		var x Bitlist2048_n767_768_769_1023_1024_1025
		set_Bitlist2048_n767_768_769_1023_1024_1025(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist2048_n767_768_769_1023_1024_1025)(nil)))
	}
	return s
}
func set_Bitlist2048_n767_768_769_1023_1024_1025(p *Bitlist2048_n767_768_769_1023_1024_1025, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist2048_n767_768_769_1023_1024_1025(), v))
}
func get_Bitlist2048_n767_768_769_1023_1024_1025(p *Bitlist2048_n767_768_769_1023_1024_1025) *Val {
	return getBitlist(*p)
}

type Bitvec768 [96]byte

func (*Bitvec768) BitLen() uint64 { return 768 }
func sch_Bitvec768() *Sch {
	s := sBitvec(768)
	s.Print = func(v *Val) []byte {
		var x Bitvec768
		set_Bitvec768(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec768)(nil)))
	}
	return s
}
func set_Bitvec768(p *Bitvec768, v *Val) { copy(p[:], v.B) }
func get_Bitvec768(p *Bitvec768) *Val    { return &Val{B: clone(p[:])} }

type Bitvec769 [97]byte

func (*Bitvec769) BitLen() uint64 { return 769 }
func sch_Bitvec769() *Sch {
	s := sBitvec(769)
	s.Print = func(v *Val) []byte {
		var x Bitvec769
		set_Bitvec769(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec769)(nil)))
	}
	return s
}
func set_Bitvec769(p *Bitvec769, v *Val) { copy(p[:], v.B) }
func get_Bitvec769(p *Bitvec769) *Val    { return &Val{B: clone(p[:])} }

type Bitvec1024 [128]byte

func (*Bitvec1024) BitLen() uint64 { return 1024 }
func sch_Bitvec1024() *Sch {
	s := sBitvec(1024)
	s.Print = func(v *Val) []byte {
		var x Bitvec1024
		set_Bitvec1024(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitvec1024)(nil)))
	}
	return s
}
func set_Bitvec1024(p *Bitvec1024, v *Val) { copy(p[:], v.B) }
func get_Bitvec1024(p *Bitvec1024) *Val    { return &Val{B: clone(p[:])} }

type Bytes1000_n191_192_193_255_256_257 []byte

func (*Bytes1000_n191_192_193_255_256_257) Limit() uint64 { return 1000 }
func sch_Bytes1000_n191_192_193_255_256_257() *Sch {
	s := lens(sBytes(1000, 257), 191, 192, 193, 255, 256, 257)
	s.Print = func(v *Val) []byte {
		var x Bytes1000_n191_192_193_255_256_257
		set_Bytes1000_n191_192_193_255_256_257(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes1000_n191_192_193_255_256_257)(nil)))
	}
	return s
}
func set_Bytes1000_n191_192_193_255_256_257(p *Bytes1000_n191_192_193_255_256_257, v *Val) {
	*p = setBytes(*p, v.B)
}
func get_Bytes1000_n191_192_193_255_256_257(p *Bytes1000_n191_192_193_255_256_257) *Val {
	return &Val{B: clone(*p)}
}
func sch_BytesN192() *Sch {
	s := sBytesN(192)
	s.Print = func(v *Val) []byte {
		var x [192]byte
		set_BytesN192(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[192]byte)(nil)))
	}
	return s
}
func set_BytesN192(p *[192]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN192(p *[192]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_BytesN256() *Sch {
	s := sBytesN(256)
	s.Print = func(v *Val) []byte {
		var x [256]byte
		set_BytesN256(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[256]byte)(nil)))
	}
	return s
}
func set_BytesN256(p *[256]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN256(p *[256]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_Vec1100_U32() *Sch              { return sVec(sch_U32(), 1100) }
func set_Vec1100_U32(p *[1100]uint32, v *Val) {
	for i := range p {
		set_U32(&p[i], v.Elems[i])
	}
}
func get_Vec1100_U32(p *[1100]uint32) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_U32(&p[i]))
	}
	return v
}

type List1048576_U64_n520 []uint64

func (*List1048576_U64_n520) Limit() uint64 { return 1048576 }
func sch_List1048576_U64_n520() *Sch        { return lens(sList(sch_U64(), 1048576, 520), 520) }
func set_List1048576_U64_n520(p *List1048576_U64_n520, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1048576_U64_n520, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List1048576_U64_n520(p *List1048576_U64_n520) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type Bytes16384_n4096_4097 []byte

func (*Bytes16384_n4096_4097) Limit() uint64 { return 16384 }
func sch_Bytes16384_n4096_4097() *Sch {
	s := lens(sBytes(16384, 4097), 4096, 4097)
	s.Print = func(v *Val) []byte {
		var x Bytes16384_n4096_4097
		set_Bytes16384_n4096_4097(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bytes16384_n4096_4097)(nil)))
	}
	return s
}
func set_Bytes16384_n4096_4097(p *Bytes16384_n4096_4097, v *Val) { *p = setBytes(*p, v.B) }
func get_Bytes16384_n4096_4097(p *Bytes16384_n4096_4097) *Val    { return &Val{B: clone(*p)} }

type Bitlist40000_n33000 []byte

func (b *Bitlist40000_n33000) Limit() uint64 { return 40000 }
func (b Bitlist40000_n33000) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist40000_n33000() *Sch {
	s := lens(sBitlist(40000, 33000), 33000)
	s.Print = func(v *Val) []byte {
		var x Bitlist40000_n33000
		set_Bitlist40000_n33000(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist40000_n33000)(nil)))
	}
	return s
}
func set_Bitlist40000_n33000(p *Bitlist40000_n33000, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist40000_n33000(), v))
}
func get_Bitlist40000_n33000(p *Bitlist40000_n33000) *Val { return getBitlist(*p) }

type List5000_U16_n2049 []uint16

func (*List5000_U16_n2049) Limit() uint64 { return 5000 }
func sch_List5000_U16_n2049() *Sch        { return lens(sList(sch_U16(), 5000, 2049), 2049) }
func set_List5000_U16_n2049(p *List5000_U16_n2049, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List5000_U16_n2049, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_List5000_U16_n2049(p *List5000_U16_n2049) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}
func sch_BytesN8192() *Sch {
	s := sBytesN(8192)
	s.Print = func(v *Val) []byte {
		var x [8192]byte
		set_BytesN8192(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*[8192]byte)(nil)))
	}
	return s
}
func set_BytesN8192(p *[8192]byte, v *Val) { copy(p[:], v.B) }
func get_BytesN8192(p *[8192]byte) *Val    { return &Val{B: clone(p[:])} }
func sch_Vec128_BytesN48() *Sch            { return sVec(sch_BytesN48(), 128) }
func set_Vec128_BytesN48(p *[128][48]byte, v *Val) {
	for i := range p {
		set_BytesN48(&p[i], v.Elems[i])
	}
}
func get_Vec128_BytesN48(p *[128][48]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN48(&p[i]))
	}
	return v
}

type Checkpoint struct {
	Epoch uint64
	Root  [32]byte
}

func sch_Checkpoint() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_BytesN32()}, Names: []string{"Epoch", "Root"}}
}
func set_Checkpoint(p *Checkpoint, v *Val) {
	set_U64(&p.Epoch, v.Elems[0])
	set_BytesN32(&p.Root, v.Elems[1])
}
func get_Checkpoint(p *Checkpoint) *Val {
	return &Val{Elems: []*Val{get_U64(&p.Epoch), get_BytesN32(&p.Root)}}
}

type AttData struct {
	Slot      Slot
	Index     uint64
	BlockRoot [32]byte
	Source    Checkpoint
	Target    Checkpoint
}

func sch_AttData() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Slot(), sch_U64(), sch_BytesN32(), sch_Checkpoint(), sch_Checkpoint()}, Names: []string{"Slot", "Index", "BlockRoot", "Source", "Target"}}
}
func set_AttData(p *AttData, v *Val) {
	set_Slot(&p.Slot, v.Elems[0])
	set_U64(&p.Index, v.Elems[1])
	set_BytesN32(&p.BlockRoot, v.Elems[2])
	set_Checkpoint(&p.Source, v.Elems[3])
	set_Checkpoint(&p.Target, v.Elems[4])
}
func get_AttData(p *AttData) *Val {
	return &Val{Elems: []*Val{get_Slot(&p.Slot), get_U64(&p.Index), get_BytesN32(&p.BlockRoot), get_Checkpoint(&p.Source), get_Checkpoint(&p.Target)}}
}

type Header struct {
	Slot      uint64
	Parent    [32]byte
	State     [32]byte
	Body      [32]byte
	Signature [96]byte
}

func sch_Header() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_BytesN32(), sch_BytesN32(), sch_BytesN32(), sch_BytesN96()}, Names: []string{"Slot", "Parent", "State", "Body", "Signature"}}
}
func set_Header(p *Header, v *Val) {
	set_U64(&p.Slot, v.Elems[0])
	set_BytesN32(&p.Parent, v.Elems[1])
	set_BytesN32(&p.State, v.Elems[2])
	set_BytesN32(&p.Body, v.Elems[3])
	set_BytesN96(&p.Signature, v.Elems[4])
}
func get_Header(p *Header) *Val {
	return &Val{Elems: []*Val{get_U64(&p.Slot), get_BytesN32(&p.Parent), get_BytesN32(&p.State), get_BytesN32(&p.Body), get_BytesN96(&p.Signature)}}
}

type Validator struct {
	Pubkey  [48]byte
	Creds   [32]byte
	Balance uint64
	Slashed bool
	Elig    uint64
	Act     uint64
	Exit    uint64
	Withd   uint64
}

func sch_Validator() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN48(), sch_BytesN32(), sch_U64(), sch_Bool(), sch_U64(), sch_U64(), sch_U64(), sch_U64()}, Names: []string{"Pubkey", "Creds", "Balance", "Slashed", "Elig", "Act", "Exit", "Withd"}}
}
func set_Validator(p *Validator, v *Val) {
	set_BytesN48(&p.Pubkey, v.Elems[0])
	set_BytesN32(&p.Creds, v.Elems[1])
	set_U64(&p.Balance, v.Elems[2])
	set_Bool(&p.Slashed, v.Elems[3])
	set_U64(&p.Elig, v.Elems[4])
	set_U64(&p.Act, v.Elems[5])
	set_U64(&p.Exit, v.Elems[6])
	set_U64(&p.Withd, v.Elems[7])
}
func get_Validator(p *Validator) *Val {
	return &Val{Elems: []*Val{get_BytesN48(&p.Pubkey), get_BytesN32(&p.Creds), get_U64(&p.Balance), get_Bool(&p.Slashed), get_U64(&p.Elig), get_U64(&p.Act), get_U64(&p.Exit), get_U64(&p.Withd)}}
}

type Fork struct {
	Prev  [4]byte
	Cur   [4]byte
	Epoch uint64
}

func sch_Fork() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN4(), sch_BytesN4(), sch_U64()}, Names: []string{"Prev", "Cur", "Epoch"}}
}
func set_Fork(p *Fork, v *Val) {
	set_BytesN4(&p.Prev, v.Elems[0])
	set_BytesN4(&p.Cur, v.Elems[1])
	set_U64(&p.Epoch, v.Elems[2])
}
func get_Fork(p *Fork) *Val {
	return &Val{Elems: []*Val{get_BytesN4(&p.Prev), get_BytesN4(&p.Cur), get_U64(&p.Epoch)}}
}

type DepData struct {
	Pubkey    [48]byte
	Creds     [32]byte
	Amount    uint64
	Signature [96]byte
}

func sch_DepData() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN48(), sch_BytesN32(), sch_U64(), sch_BytesN96()}, Names: []string{"Pubkey", "Creds", "Amount", "Signature"}}
}
func set_DepData(p *DepData, v *Val) {
	set_BytesN48(&p.Pubkey, v.Elems[0])
	set_BytesN32(&p.Creds, v.Elems[1])
	set_U64(&p.Amount, v.Elems[2])
	set_BytesN96(&p.Signature, v.Elems[3])
}
func get_DepData(p *DepData) *Val {
	return &Val{Elems: []*Val{get_BytesN48(&p.Pubkey), get_BytesN32(&p.Creds), get_U64(&p.Amount), get_BytesN96(&p.Signature)}}
}

type Eth1 struct {
	Root  [32]byte
	Count uint64
	Hash  [32]byte
}

func sch_Eth1() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN32(), sch_U64(), sch_BytesN32()}, Names: []string{"Root", "Count", "Hash"}}
}
func set_Eth1(p *Eth1, v *Val) {
	set_BytesN32(&p.Root, v.Elems[0])
	set_U64(&p.Count, v.Elems[1])
	set_BytesN32(&p.Hash, v.Elems[2])
}
func get_Eth1(p *Eth1) *Val {
	return &Val{Elems: []*Val{get_BytesN32(&p.Root), get_U64(&p.Count), get_BytesN32(&p.Hash)}}
}

type ProposerSl struct {
	Index uint64
	H1    Header
	H2    Header
}

func sch_ProposerSl() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_Header(), sch_Header()}, Names: []string{"Index", "H1", "H2"}}
}
func set_ProposerSl(p *ProposerSl, v *Val) {
	set_U64(&p.Index, v.Elems[0])
	set_Header(&p.H1, v.Elems[1])
	set_Header(&p.H2, v.Elems[2])
}
func get_ProposerSl(p *ProposerSl) *Val {
	return &Val{Elems: []*Val{get_U64(&p.Index), get_Header(&p.H1), get_Header(&p.H2)}}
}

type Bitlist2048_n0_1_9 []byte

func (b *Bitlist2048_n0_1_9) Limit() uint64 { return 2048 }
func (b Bitlist2048_n0_1_9) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_Bitlist2048_n0_1_9() *Sch {
	s := lens(sBitlist(2048, 9), 0, 1, 9)
	s.Print = func(v *Val) []byte {
		var x Bitlist2048_n0_1_9
		set_Bitlist2048_n0_1_9(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*Bitlist2048_n0_1_9)(nil)))
	}
	return s
}
func set_Bitlist2048_n0_1_9(p *Bitlist2048_n0_1_9, v *Val) {
	*p = setBytes(*p, Ser(sch_Bitlist2048_n0_1_9(), v))
}
func get_Bitlist2048_n0_1_9(p *Bitlist2048_n0_1_9) *Val { return getBitlist(*p) }

type Attestation struct {
	Bits      Bitlist2048_n0_1_9
	Data      AttData
	Custody   Bitlist2048_n0_1_9
	Signature [96]byte
}

func sch_Attestation() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Bitlist2048_n0_1_9(), sch_AttData(), sch_Bitlist2048_n0_1_9(), sch_BytesN96()}, Names: []string{"Bits", "Data", "Custody", "Signature"}}
}
func set_Attestation(p *Attestation, v *Val) {
	set_Bitlist2048_n0_1_9(&p.Bits, v.Elems[0])
	set_AttData(&p.Data, v.Elems[1])
	set_Bitlist2048_n0_1_9(&p.Custody, v.Elems[2])
	set_BytesN96(&p.Signature, v.Elems[3])
}
func get_Attestation(p *Attestation) *Val {
	return &Val{Elems: []*Val{get_Bitlist2048_n0_1_9(&p.Bits), get_AttData(&p.Data), get_Bitlist2048_n0_1_9(&p.Custody), get_BytesN96(&p.Signature)}}
}

type List2048_U64_n0_2 []uint64

func (*List2048_U64_n0_2) Limit() uint64 { return 2048 }
func sch_List2048_U64_n0_2() *Sch        { return lens(sList(sch_U64(), 2048, 2), 0, 2) }
func set_List2048_U64_n0_2(p *List2048_U64_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2048_U64_n0_2, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List2048_U64_n0_2(p *List2048_U64_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type List2048_U64_n0_1 []uint64

func (*List2048_U64_n0_1) Limit() uint64 { return 2048 }
func sch_List2048_U64_n0_1() *Sch        { return lens(sList(sch_U64(), 2048, 1), 0, 1) }
func set_List2048_U64_n0_1(p *List2048_U64_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List2048_U64_n0_1, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List2048_U64_n0_1(p *List2048_U64_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type IndexedAtt struct {
	Bit0      List2048_U64_n0_2
	Bit1      List2048_U64_n0_1
	Data      AttData
	Signature [96]byte
}

func sch_IndexedAtt() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_List2048_U64_n0_2(), sch_List2048_U64_n0_1(), sch_AttData(), sch_BytesN96()}, Names: []string{"Bit0", "Bit1", "Data", "Signature"}}
}
func set_IndexedAtt(p *IndexedAtt, v *Val) {
	set_List2048_U64_n0_2(&p.Bit0, v.Elems[0])
	set_List2048_U64_n0_1(&p.Bit1, v.Elems[1])
	set_AttData(&p.Data, v.Elems[2])
	set_BytesN96(&p.Signature, v.Elems[3])
}
func get_IndexedAtt(p *IndexedAtt) *Val {
	return &Val{Elems: []*Val{get_List2048_U64_n0_2(&p.Bit0), get_List2048_U64_n0_1(&p.Bit1), get_AttData(&p.Data), get_BytesN96(&p.Signature)}}
}
func sch_Vec33_BytesN32() *Sch { return sVec(sch_BytesN32(), 33) }
func set_Vec33_BytesN32(p *[33][32]byte, v *Val) {
	for i := range p {
		set_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec33_BytesN32(p *[33][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN32(&p[i]))
	}
	return v
}

type Deposit struct {
	Proof [33][32]byte
	Data  DepData
}

func sch_Deposit() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_Vec33_BytesN32(), sch_DepData()}, Names: []string{"Proof", "Data"}}
}
func set_Deposit(p *Deposit, v *Val) {
	set_Vec33_BytesN32(&p.Proof, v.Elems[0])
	set_DepData(&p.Data, v.Elems[1])
}
func get_Deposit(p *Deposit) *Val {
	return &Val{Elems: []*Val{get_Vec33_BytesN32(&p.Proof), get_DepData(&p.Data)}}
}

type AttSl struct {
	A1 IndexedAtt
	A2 IndexedAtt
}

func sch_AttSl() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_IndexedAtt(), sch_IndexedAtt()}, Names: []string{"A1", "A2"}}
}
func set_AttSl(p *AttSl, v *Val) {
	set_IndexedAtt(&p.A1, v.Elems[0])
	set_IndexedAtt(&p.A2, v.Elems[1])
}
func get_AttSl(p *AttSl) *Val {
	return &Val{Elems: []*Val{get_IndexedAtt(&p.A1), get_IndexedAtt(&p.A2)}}
}

type List16_ProposerSl_n0_1 []ProposerSl

func (*List16_ProposerSl_n0_1) Limit() uint64 { return 16 }
func sch_List16_ProposerSl_n0_1() *Sch        { return lens(sList(sch_ProposerSl(), 16, 1), 0, 1) }
func set_List16_ProposerSl_n0_1(p *List16_ProposerSl_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List16_ProposerSl_n0_1, n+1)
			set_ProposerSl(&(*p)[n], junk(sch_ProposerSl()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_ProposerSl(&(*p)[i], v.Elems[i])
	}
}
func get_List16_ProposerSl_n0_1(p *List16_ProposerSl_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_ProposerSl(&(*p)[i]))
	}
	return v
}

type List128_Attestation_n0_1 []Attestation

func (*List128_Attestation_n0_1) Limit() uint64 { return 128 }
func sch_List128_Attestation_n0_1() *Sch        { return lens(sList(sch_Attestation(), 128, 1), 0, 1) }
func set_List128_Attestation_n0_1(p *List128_Attestation_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List128_Attestation_n0_1, n+1)
			set_Attestation(&(*p)[n], junk(sch_Attestation()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Attestation(&(*p)[i], v.Elems[i])
	}
}
func get_List128_Attestation_n0_1(p *List128_Attestation_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Attestation(&(*p)[i]))
	}
	return v
}

type List16_Deposit_n0 []Deposit

func (*List16_Deposit_n0) Limit() uint64 { return 16 }
func sch_List16_Deposit_n0() *Sch        { return lens(sList(sch_Deposit(), 16, 0), 0) }
func set_List16_Deposit_n0(p *List16_Deposit_n0, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List16_Deposit_n0, n+1)
			set_Deposit(&(*p)[n], junk(sch_Deposit()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Deposit(&(*p)[i], v.Elems[i])
	}
}
func get_List16_Deposit_n0(p *List16_Deposit_n0) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Deposit(&(*p)[i]))
	}
	return v
}

type Body struct {
	Randao   [96]byte
	Eth1     Eth1
	Graffiti [32]byte
	Prop     List16_ProposerSl_n0_1
	Atts     List128_Attestation_n0_1
	Deps     List16_Deposit_n0
}

func sch_Body() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_BytesN96(), sch_Eth1(), sch_BytesN32(), sch_List16_ProposerSl_n0_1(), sch_List128_Attestation_n0_1(), sch_List16_Deposit_n0()}, Names: []string{"Randao", "Eth1", "Graffiti", "Prop", "Atts", "Deps"}}
}
func set_Body(p *Body, v *Val) {
	set_BytesN96(&p.Randao, v.Elems[0])
	set_Eth1(&p.Eth1, v.Elems[1])
	set_BytesN32(&p.Graffiti, v.Elems[2])
	set_List16_ProposerSl_n0_1(&p.Prop, v.Elems[3])
	set_List128_Attestation_n0_1(&p.Atts, v.Elems[4])
	set_List16_Deposit_n0(&p.Deps, v.Elems[5])
}
func get_Body(p *Body) *Val {
	return &Val{Elems: []*Val{get_BytesN96(&p.Randao), get_Eth1(&p.Eth1), get_BytesN32(&p.Graffiti), get_List16_ProposerSl_n0_1(&p.Prop), get_List128_Attestation_n0_1(&p.Atts), get_List16_Deposit_n0(&p.Deps)}}
}
func sch_Vec4_BytesN32() *Sch { return sVec(sch_BytesN32(), 4) }
func set_Vec4_BytesN32(p *[4][32]byte, v *Val) {
	for i := range p {
		set_BytesN32(&p[i], v.Elems[i])
	}
}
func get_Vec4_BytesN32(p *[4][32]byte) *Val {
	v := &Val{}
	for i := range p {
		v.Elems = append(v.Elems, get_BytesN32(&p[i]))
	}
	return v
}

type List16777216_BytesN32_n0_2 [][32]byte

func (*List16777216_BytesN32_n0_2) Limit() uint64 { return 16777216 }
func sch_List16777216_BytesN32_n0_2() *Sch        { return lens(sList(sch_BytesN32(), 16777216, 2), 0, 2) }
func set_List16777216_BytesN32_n0_2(p *List16777216_BytesN32_n0_2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List16777216_BytesN32_n0_2, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_List16777216_BytesN32_n0_2(p *List16777216_BytesN32_n0_2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}

type List1099511627776_Validator_n0_1 []Validator

func (*List1099511627776_Validator_n0_1) Limit() uint64 { return 1099511627776 }
func sch_List1099511627776_Validator_n0_1() *Sch {
	return lens(sList(sch_Validator(), 1099511627776, 1), 0, 1)
}
func set_List1099511627776_Validator_n0_1(p *List1099511627776_Validator_n0_1, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1099511627776_Validator_n0_1, n+1)
			set_Validator(&(*p)[n], junk(sch_Validator()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Validator(&(*p)[i], v.Elems[i])
	}
}
func get_List1099511627776_Validator_n0_1(p *List1099511627776_Validator_n0_1) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Validator(&(*p)[i]))
	}
	return v
}

type List1099511627776_U64_n0_3 []uint64

func (*List1099511627776_U64_n0_3) Limit() uint64 { return 1099511627776 }
func sch_List1099511627776_U64_n0_3() *Sch        { return lens(sList(sch_U64(), 1099511627776, 3), 0, 3) }
func set_List1099511627776_U64_n0_3(p *List1099511627776_U64_n0_3, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(List1099511627776_U64_n0_3, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_List1099511627776_U64_n0_3(p *List1099511627776_U64_n0_3) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type StateLite struct {
	Genesis uint64
	Fork    Fork
	Header  Header
	Roots   [4][32]byte
	Hist    List16777216_BytesN32_n0_2
	Vals    List1099511627776_Validator_n0_1
	Bals    List1099511627776_U64_n0_3
	Just    Bitvec4
	Fin     Checkpoint
}

func sch_StateLite() *Sch {
	return &Sch{K: KContainer, Fields: []*Sch{sch_U64(), sch_Fork(), sch_Header(), sch_Vec4_BytesN32(), sch_List16777216_BytesN32_n0_2(), sch_List1099511627776_Validator_n0_1(), sch_List1099511627776_U64_n0_3(), sch_Bitvec4(), sch_Checkpoint()}, Names: []string{"Genesis", "Fork", "Header", "Roots", "Hist", "Vals", "Bals", "Just", "Fin"}}
}
func set_StateLite(p *StateLite, v *Val) {
	set_U64(&p.Genesis, v.Elems[0])
	set_Fork(&p.Fork, v.Elems[1])
	set_Header(&p.Header, v.Elems[2])
	set_Vec4_BytesN32(&p.Roots, v.Elems[3])
	set_List16777216_BytesN32_n0_2(&p.Hist, v.Elems[4])
	set_List1099511627776_Validator_n0_1(&p.Vals, v.Elems[5])
	set_List1099511627776_U64_n0_3(&p.Bals, v.Elems[6])
	set_Bitvec4(&p.Just, v.Elems[7])
	set_Checkpoint(&p.Fin, v.Elems[8])
}
func get_StateLite(p *StateLite) *Val {
	return &Val{Elems: []*Val{get_U64(&p.Genesis), get_Fork(&p.Fork), get_Header(&p.Header), get_Vec4_BytesN32(&p.Roots), get_List16777216_BytesN32_n0_2(&p.Hist), get_List1099511627776_Validator_n0_1(&p.Vals), get_List1099511627776_U64_n0_3(&p.Bals), get_Bitvec4(&p.Just), get_Checkpoint(&p.Fin)}}
}

type BytesSYM_g3 []byte

func (*BytesSYM_g3) Limit() uint64 { return symLimit }
func sch_BytesSYM_g3() *Sch {
	s := sBytes(symLimit, 3)
	s.Print = func(v *Val) []byte {
		var x BytesSYM_g3
		set_BytesSYM_g3(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*BytesSYM_g3)(nil)))
	}
	return s
}
func set_BytesSYM_g3(p *BytesSYM_g3, v *Val) { *p = setBytes(*p, v.B) }
func get_BytesSYM_g3(p *BytesSYM_g3) *Val    { return &Val{B: clone(*p)} }

type ListSYM_U16 []uint16

func (*ListSYM_U16) Limit() uint64 { return symLimit }
func sch_ListSYM_U16() *Sch        { return sList(sch_U16(), symLimit, 3) }
func set_ListSYM_U16(p *ListSYM_U16, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_U16, n+1)
			set_U16(&(*p)[n], junk(sch_U16()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U16(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_U16(p *ListSYM_U16) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U16(&(*p)[i]))
	}
	return v
}

type ListSYM_Bool []bool

func (*ListSYM_Bool) Limit() uint64 { return symLimit }
func sch_ListSYM_Bool() *Sch        { return sList(sch_Bool(), symLimit, 3) }
func set_ListSYM_Bool(p *ListSYM_Bool, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_Bool, n+1)
			set_Bool(&(*p)[n], junk(sch_Bool()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bool(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_Bool(p *ListSYM_Bool) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bool(&(*p)[i]))
	}
	return v
}

type ListSYM_U64_g2 []uint64

func (*ListSYM_U64_g2) Limit() uint64 { return symLimit }
func sch_ListSYM_U64_g2() *Sch        { return sList(sch_U64(), symLimit, 2) }
func set_ListSYM_U64_g2(p *ListSYM_U64_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_U64_g2, n+1)
			set_U64(&(*p)[n], junk(sch_U64()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U64(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_U64_g2(p *ListSYM_U64_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U64(&(*p)[i]))
	}
	return v
}

type ListSYM_U32_g2 []uint32

func (*ListSYM_U32_g2) Limit() uint64 { return symLimit }
func sch_ListSYM_U32_g2() *Sch        { return sList(sch_U32(), symLimit, 2) }
func set_ListSYM_U32_g2(p *ListSYM_U32_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_U32_g2, n+1)
			set_U32(&(*p)[n], junk(sch_U32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_U32(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_U32_g2(p *ListSYM_U32_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_U32(&(*p)[i]))
	}
	return v
}

type ListSYM_Small []Small

func (*ListSYM_Small) Limit() uint64 { return symLimit }
func sch_ListSYM_Small() *Sch        { return sList(sch_Small(), symLimit, 3) }
func set_ListSYM_Small(p *ListSYM_Small, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_Small, n+1)
			set_Small(&(*p)[n], junk(sch_Small()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Small(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_Small(p *ListSYM_Small) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Small(&(*p)[i]))
	}
	return v
}

type ListSYM_BytesN32 [][32]byte

func (*ListSYM_BytesN32) Limit() uint64 { return symLimit }
func sch_ListSYM_BytesN32() *Sch        { return sList(sch_BytesN32(), symLimit, 3) }
func set_ListSYM_BytesN32(p *ListSYM_BytesN32, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_BytesN32, n+1)
			set_BytesN32(&(*p)[n], junk(sch_BytesN32()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_BytesN32(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_BytesN32(p *ListSYM_BytesN32) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_BytesN32(&(*p)[i]))
	}
	return v
}

type ListSYM_Bytes2_g2_g2 []Bytes2_g2

func (*ListSYM_Bytes2_g2_g2) Limit() uint64 { return symLimit }
func sch_ListSYM_Bytes2_g2_g2() *Sch        { return sList(sch_Bytes2_g2(), symLimit, 2) }
func set_ListSYM_Bytes2_g2_g2(p *ListSYM_Bytes2_g2_g2, v *Val) {
	n := len(v.Elems)
	if keeps(cap(*p), n) {
		*p = (*p)[:n]
	} else {
		*p = nil
		if spares(n) {
			*p = make(ListSYM_Bytes2_g2_g2, n+1)
			set_Bytes2_g2(&(*p)[n], junk(sch_Bytes2_g2()))
			*p = (*p)[:n]
		}
	}
	for i := range *p {
		set_Bytes2_g2(&(*p)[i], v.Elems[i])
	}
}
func get_ListSYM_Bytes2_g2_g2(p *ListSYM_Bytes2_g2_g2) *Val {
	v := &Val{}
	for i := range *p {
		v.Elems = append(v.Elems, get_Bytes2_g2(&(*p)[i]))
	}
	return v
}

type BitlistSYM []byte

func (b *BitlistSYM) Limit() uint64 { return symLimit }
func (b BitlistSYM) BitLen() uint64 { return bitfields.BitlistLen(b) }
func sch_BitlistSYM() *Sch {
	s := sBitlist(symLimit, 10)
	s.Print = func(v *Val) []byte {
		var x BitlistSYM
		set_BitlistSYM(&x, v)
		return prettyOf(&x, zssz.GetSSZ((*BitlistSYM)(nil)))
	}
	return s
}
func set_BitlistSYM(p *BitlistSYM, v *Val) { *p = setBytes(*p, Ser(sch_BitlistSYM(), v)) }
func get_BitlistSYM(p *BitlistSYM) *Val    { return getBitlist(*p) }

var Types = []*TypeDef{
	{Name: "U8", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_U8, New: func() any { return new(uint8) }, Set: func(p any, v *Val) { set_U8(p.(*uint8), v) }, Get: func(p any) *Val { return get_U8(p.(*uint8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*uint8)(nil)) }},
	{Name: "U16", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_U16, New: func() any { return new(uint16) }, Set: func(p any, v *Val) { set_U16(p.(*uint16), v) }, Get: func(p any) *Val { return get_U16(p.(*uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*uint16)(nil)) }},
	{Name: "U32", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_U32, New: func() any { return new(uint32) }, Set: func(p any, v *Val) { set_U32(p.(*uint32), v) }, Get: func(p any) *Val { return get_U32(p.(*uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*uint32)(nil)) }},
	{Name: "U64", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_U64, New: func() any { return new(uint64) }, Set: func(p any, v *Val) { set_U64(p.(*uint64), v) }, Get: func(p any) *Val { return get_U64(p.(*uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*uint64)(nil)) }},
	{Name: "Bool", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bool, New: func() any { return new(bool) }, Set: func(p any, v *Val) { set_Bool(p.(*bool), v) }, Get: func(p any) *Val { return get_Bool(p.(*bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*bool)(nil)) }},
	{Name: "Slot", Tier: "thorough", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Slot, New: func() any { return new(Slot) }, Set: func(p any, v *Val) { set_Slot(p.(*Slot), v) }, Get: func(p any) *Val { return get_Slot(p.(*Slot)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Slot)(nil)) }},
	{Name: "Flag", Tier: "thorough", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Flag, New: func() any { return new(Flag) }, Set: func(p any, v *Val) { set_Flag(p.(*Flag), v) }, Get: func(p any) *Val { return get_Flag(p.(*Flag)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Flag)(nil)) }},
	{Name: "BytesN1", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_BytesN1, New: func() any { return new([1]byte) }, Set: func(p any, v *Val) { set_BytesN1(p.(*[1]byte), v) }, Get: func(p any) *Val { return get_BytesN1(p.(*[1]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]byte)(nil)) }},
	{Name: "BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_BytesN32, New: func() any { return new([32]byte) }, Set: func(p any, v *Val) { set_BytesN32(p.(*[32]byte), v) }, Get: func(p any) *Val { return get_BytesN32(p.(*[32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[32]byte)(nil)) }},
	{Name: "BytesN33", Tier: "", Fam: "", Parts: 0, Dec: 34, DecT: 34, Sch: sch_BytesN33, New: func() any { return new([33]byte) }, Set: func(p any, v *Val) { set_BytesN33(p.(*[33]byte), v) }, Get: func(p any) *Val { return get_BytesN33(p.(*[33]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[33]byte)(nil)) }},
	{Name: "BytesN65", Tier: "", Fam: "", Parts: 0, Dec: 66, DecT: 66, Sch: sch_BytesN65, New: func() any { return new([65]byte) }, Set: func(p any, v *Val) { set_BytesN65(p.(*[65]byte), v) }, Get: func(p any) *Val { return get_BytesN65(p.(*[65]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[65]byte)(nil)) }},
	{Name: "BytesN4", Tier: "thorough", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_BytesN4, New: func() any { return new([4]byte) }, Set: func(p any, v *Val) { set_BytesN4(p.(*[4]byte), v) }, Get: func(p any) *Val { return get_BytesN4(p.(*[4]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[4]byte)(nil)) }},
	{Name: "BytesN31", Tier: "thorough", Fam: "", Parts: 0, Dec: 32, DecT: 32, Sch: sch_BytesN31, New: func() any { return new([31]byte) }, Set: func(p any, v *Val) { set_BytesN31(p.(*[31]byte), v) }, Get: func(p any) *Val { return get_BytesN31(p.(*[31]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[31]byte)(nil)) }},
	{Name: "BytesN64", Tier: "thorough", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_BytesN64, New: func() any { return new([64]byte) }, Set: func(p any, v *Val) { set_BytesN64(p.(*[64]byte), v) }, Get: func(p any) *Val { return get_BytesN64(p.(*[64]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[64]byte)(nil)) }},
	{Name: "BytesN96", Tier: "thorough", Fam: "", Parts: 0, Dec: 97, DecT: 97, Sch: sch_BytesN96, New: func() any { return new([96]byte) }, Set: func(p any, v *Val) { set_BytesN96(p.(*[96]byte), v) }, Get: func(p any) *Val { return get_BytesN96(p.(*[96]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[96]byte)(nil)) }},
	{Name: "Vec3_U16", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec3_U16, New: func() any { return new([3]uint16) }, Set: func(p any, v *Val) { set_Vec3_U16(p.(*[3]uint16), v) }, Get: func(p any) *Val { return get_Vec3_U16(p.(*[3]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]uint16)(nil)) }},
	{Name: "Vec3_Bool", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Vec3_Bool, New: func() any { return new([3]bool) }, Set: func(p any, v *Val) { set_Vec3_Bool(p.(*[3]bool), v) }, Get: func(p any) *Val { return get_Vec3_Bool(p.(*[3]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]bool)(nil)) }},
	{Name: "Vec5_U64", Tier: "", Fam: "", Parts: 0, Dec: 41, DecT: 41, Sch: sch_Vec5_U64, New: func() any { return new([5]uint64) }, Set: func(p any, v *Val) { set_Vec5_U64(p.(*[5]uint64), v) }, Get: func(p any) *Val { return get_Vec5_U64(p.(*[5]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[5]uint64)(nil)) }},
	{Name: "Vec8_U32", Tier: "thorough", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Vec8_U32, New: func() any { return new([8]uint32) }, Set: func(p any, v *Val) { set_Vec8_U32(p.(*[8]uint32), v) }, Get: func(p any) *Val { return get_Vec8_U32(p.(*[8]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[8]uint32)(nil)) }},
	{Name: "Vec33_Bool", Tier: "thorough", Fam: "", Parts: 0, Dec: 34, DecT: 34, Sch: sch_Vec33_Bool, New: func() any { return new([33]bool) }, Set: func(p any, v *Val) { set_Vec33_Bool(p.(*[33]bool), v) }, Get: func(p any) *Val { return get_Vec33_Bool(p.(*[33]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[33]bool)(nil)) }},
	{Name: "Vec2_Slot", Tier: "thorough", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_Vec2_Slot, New: func() any { return new([2]Slot) }, Set: func(p any, v *Val) { set_Vec2_Slot(p.(*[2]Slot), v) }, Get: func(p any) *Val { return get_Vec2_Slot(p.(*[2]Slot)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Slot)(nil)) }},
	{Name: "Vec4_U64", Tier: "thorough", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Vec4_U64, New: func() any { return new([4]uint64) }, Set: func(p any, v *Val) { set_Vec4_U64(p.(*[4]uint64), v) }, Get: func(p any) *Val { return get_Vec4_U64(p.(*[4]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[4]uint64)(nil)) }},
	{Name: "Vec17_U16", Tier: "thorough", Fam: "", Parts: 0, Dec: 35, DecT: 35, Sch: sch_Vec17_U16, New: func() any { return new([17]uint16) }, Set: func(p any, v *Val) { set_Vec17_U16(p.(*[17]uint16), v) }, Get: func(p any) *Val { return get_Vec17_U16(p.(*[17]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[17]uint16)(nil)) }},
	{Name: "Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec2_Small, New: func() any { return new([2]Small) }, Set: func(p any, v *Val) { set_Vec2_Small(p.(*[2]Small), v) }, Get: func(p any) *Val { return get_Vec2_Small(p.(*[2]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Small)(nil)) }},
	{Name: "Vec3_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 97, DecT: 97, Sch: sch_Vec3_BytesN32, New: func() any { return new([3][32]byte) }, Set: func(p any, v *Val) { set_Vec3_BytesN32(p.(*[3][32]byte), v) }, Get: func(p any) *Val { return get_Vec3_BytesN32(p.(*[3][32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3][32]byte)(nil)) }},
	{Name: "Vec3_BytesN4", Tier: "thorough", Fam: "", Parts: 0, Dec: 13, DecT: 13, Sch: sch_Vec3_BytesN4, New: func() any { return new([3][4]byte) }, Set: func(p any, v *Val) { set_Vec3_BytesN4(p.(*[3][4]byte), v) }, Get: func(p any) *Val { return get_Vec3_BytesN4(p.(*[3][4]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3][4]byte)(nil)) }},
	{Name: "Vec2_Bytes3_g2", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 14, Sch: sch_Vec2_Bytes3_g2, New: func() any { return new([2]Bytes3_g2) }, Set: func(p any, v *Val) { set_Vec2_Bytes3_g2(p.(*[2]Bytes3_g2), v) }, Get: func(p any) *Val { return get_Vec2_Bytes3_g2(p.(*[2]Bytes3_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bytes3_g2)(nil)) }},
	{Name: "Vec1_Var2", Tier: "thorough", Fam: "", Parts: 1, Dec: 12, DecT: 14, Sch: sch_Vec1_Var2, New: func() any { return new([1]Var2) }, Set: func(p any, v *Val) { set_Vec1_Var2(p.(*[1]Var2), v) }, Get: func(p any) *Val { return get_Vec1_Var2(p.(*[1]Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Var2)(nil)) }},
	{Name: "Vec3_List3_U16_g1", Tier: "thorough", Fam: "", Parts: 3, Dec: 16, DecT: 18, Sch: sch_Vec3_List3_U16_g1, New: func() any { return new([3]List3_U16_g1) }, Set: func(p any, v *Val) { set_Vec3_List3_U16_g1(p.(*[3]List3_U16_g1), v) }, Get: func(p any) *Val { return get_Vec3_List3_U16_g1(p.(*[3]List3_U16_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]List3_U16_g1)(nil)) }},
	{Name: "Vec2_Ptr_Small", Tier: "thorough", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec2_Ptr_Small, New: func() any { return new([2]*Small) }, Set: func(p any, v *Val) { set_Vec2_Ptr_Small(p.(*[2]*Small), v) }, Get: func(p any) *Val { return get_Vec2_Ptr_Small(p.(*[2]*Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]*Small)(nil)) }},
	{Name: "Vec2_Vec2_U16", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Vec2_Vec2_U16, New: func() any { return new([2][2]uint16) }, Set: func(p any, v *Val) { set_Vec2_Vec2_U16(p.(*[2][2]uint16), v) }, Get: func(p any) *Val { return get_Vec2_Vec2_U16(p.(*[2][2]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][2]uint16)(nil)) }},
	{Name: "Vec2_Bitvec9", Tier: "thorough", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec2_Bitvec9, New: func() any { return new([2]Bitvec9) }, Set: func(p any, v *Val) { set_Vec2_Bitvec9(p.(*[2]Bitvec9), v) }, Get: func(p any) *Val { return get_Vec2_Bitvec9(p.(*[2]Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bitvec9)(nil)) }},
	{Name: "Vec2_Bitlist9_g9", Tier: "thorough", Fam: "", Parts: 2, Dec: 11, DecT: 12, Sch: sch_Vec2_Bitlist9_g9, New: func() any { return new([2]Bitlist9_g9) }, Set: func(p any, v *Val) { set_Vec2_Bitlist9_g9(p.(*[2]Bitlist9_g9), v) }, Get: func(p any) *Val { return get_Vec2_Bitlist9_g9(p.(*[2]Bitlist9_g9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bitlist9_g9)(nil)) }},
	{Name: "Bitvec1", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec1, New: func() any { return new(Bitvec1) }, Set: func(p any, v *Val) { set_Bitvec1(p.(*Bitvec1), v) }, Get: func(p any) *Val { return get_Bitvec1(p.(*Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec1)(nil)) }},
	{Name: "Bitvec8", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec8, New: func() any { return new(Bitvec8) }, Set: func(p any, v *Val) { set_Bitvec8(p.(*Bitvec8), v) }, Get: func(p any) *Val { return get_Bitvec8(p.(*Bitvec8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec8)(nil)) }},
	{Name: "Bitvec9", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec9, New: func() any { return new(Bitvec9) }, Set: func(p any, v *Val) { set_Bitvec9(p.(*Bitvec9), v) }, Get: func(p any) *Val { return get_Bitvec9(p.(*Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec9)(nil)) }},
	{Name: "Bitvec256", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Bitvec256, New: func() any { return new(Bitvec256) }, Set: func(p any, v *Val) { set_Bitvec256(p.(*Bitvec256), v) }, Get: func(p any) *Val { return get_Bitvec256(p.(*Bitvec256)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec256)(nil)) }},
	{Name: "Bitvec257", Tier: "", Fam: "", Parts: 0, Dec: 34, DecT: 34, Sch: sch_Bitvec257, New: func() any { return new(Bitvec257) }, Set: func(p any, v *Val) { set_Bitvec257(p.(*Bitvec257), v) }, Get: func(p any) *Val { return get_Bitvec257(p.(*Bitvec257)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec257)(nil)) }},
	{Name: "Bitvec7", Tier: "thorough", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec7, New: func() any { return new(Bitvec7) }, Set: func(p any, v *Val) { set_Bitvec7(p.(*Bitvec7), v) }, Get: func(p any) *Val { return get_Bitvec7(p.(*Bitvec7)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec7)(nil)) }},
	{Name: "Bitvec15", Tier: "thorough", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec15, New: func() any { return new(Bitvec15) }, Set: func(p any, v *Val) { set_Bitvec15(p.(*Bitvec15), v) }, Get: func(p any) *Val { return get_Bitvec15(p.(*Bitvec15)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec15)(nil)) }},
	{Name: "Bitvec16", Tier: "thorough", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec16, New: func() any { return new(Bitvec16) }, Set: func(p any, v *Val) { set_Bitvec16(p.(*Bitvec16), v) }, Get: func(p any) *Val { return get_Bitvec16(p.(*Bitvec16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec16)(nil)) }},
	{Name: "Bitvec17", Tier: "thorough", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec17, New: func() any { return new(Bitvec17) }, Set: func(p any, v *Val) { set_Bitvec17(p.(*Bitvec17), v) }, Get: func(p any) *Val { return get_Bitvec17(p.(*Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec17)(nil)) }},
	{Name: "Bitvec255", Tier: "thorough", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Bitvec255, New: func() any { return new(Bitvec255) }, Set: func(p any, v *Val) { set_Bitvec255(p.(*Bitvec255), v) }, Get: func(p any) *Val { return get_Bitvec255(p.(*Bitvec255)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec255)(nil)) }},
	{Name: "Bitvec512", Tier: "thorough", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Bitvec512, New: func() any { return new(Bitvec512) }, Set: func(p any, v *Val) { set_Bitvec512(p.(*Bitvec512), v) }, Get: func(p any) *Val { return get_Bitvec512(p.(*Bitvec512)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec512)(nil)) }},
	{Name: "Bitlist1_g1", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist1_g1, New: func() any { return new(Bitlist1_g1) }, Set: func(p any, v *Val) { set_Bitlist1_g1(p.(*Bitlist1_g1), v) }, Get: func(p any) *Val { return get_Bitlist1_g1(p.(*Bitlist1_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist1_g1)(nil)) }},
	{Name: "Bitlist7_g7", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist7_g7, New: func() any { return new(Bitlist7_g7) }, Set: func(p any, v *Val) { set_Bitlist7_g7(p.(*Bitlist7_g7), v) }, Get: func(p any) *Val { return get_Bitlist7_g7(p.(*Bitlist7_g7)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist7_g7)(nil)) }},
	{Name: "Bitlist8_g8", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist8_g8, New: func() any { return new(Bitlist8_g8) }, Set: func(p any, v *Val) { set_Bitlist8_g8(p.(*Bitlist8_g8), v) }, Get: func(p any) *Val { return get_Bitlist8_g8(p.(*Bitlist8_g8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist8_g8)(nil)) }},
	{Name: "Bitlist9_g9", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist9_g9, New: func() any { return new(Bitlist9_g9) }, Set: func(p any, v *Val) { set_Bitlist9_g9(p.(*Bitlist9_g9), v) }, Get: func(p any) *Val { return get_Bitlist9_g9(p.(*Bitlist9_g9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist9_g9)(nil)) }},
	{Name: "Bitlist16_g16", Tier: "thorough", Fam: "", Parts: 1, Dec: 4, DecT: 4, Sch: sch_Bitlist16_g16, New: func() any { return new(Bitlist16_g16) }, Set: func(p any, v *Val) { set_Bitlist16_g16(p.(*Bitlist16_g16), v) }, Get: func(p any) *Val { return get_Bitlist16_g16(p.(*Bitlist16_g16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist16_g16)(nil)) }},
	{Name: "Bitlist15_g15", Tier: "thorough", Fam: "", Parts: 1, Dec: 4, DecT: 4, Sch: sch_Bitlist15_g15, New: func() any { return new(Bitlist15_g15) }, Set: func(p any, v *Val) { set_Bitlist15_g15(p.(*Bitlist15_g15), v) }, Get: func(p any) *Val { return get_Bitlist15_g15(p.(*Bitlist15_g15)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist15_g15)(nil)) }},
	{Name: "Bitlist17_g17", Tier: "thorough", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_Bitlist17_g17, New: func() any { return new(Bitlist17_g17) }, Set: func(p any, v *Val) { set_Bitlist17_g17(p.(*Bitlist17_g17), v) }, Get: func(p any) *Val { return get_Bitlist17_g17(p.(*Bitlist17_g17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist17_g17)(nil)) }},
	{Name: "Bitlist0_g0", Tier: "thorough", Fam: "", Parts: 1, Dec: 2, DecT: 3, Sch: sch_Bitlist0_g0, New: func() any { return new(Bitlist0_g0) }, Set: func(p any, v *Val) { set_Bitlist0_g0(p.(*Bitlist0_g0), v) }, Get: func(p any) *Val { return get_Bitlist0_g0(p.(*Bitlist0_g0)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist0_g0)(nil)) }},
	{Name: "Bitlist256_g256", Tier: "", Fam: "big", Parts: 1, Dec: 34, DecT: 34, Sch: sch_Bitlist256_g256, New: func() any { return new(Bitlist256_g256) }, Set: func(p any, v *Val) { set_Bitlist256_g256(p.(*Bitlist256_g256), v) }, Get: func(p any) *Val { return get_Bitlist256_g256(p.(*Bitlist256_g256)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist256_g256)(nil)) }},
	{Name: "Bitlist255_g255", Tier: "thorough", Fam: "big", Parts: 1, Dec: 34, DecT: 34, Sch: sch_Bitlist255_g255, New: func() any { return new(Bitlist255_g255) }, Set: func(p any, v *Val) { set_Bitlist255_g255(p.(*Bitlist255_g255), v) }, Get: func(p any) *Val { return get_Bitlist255_g255(p.(*Bitlist255_g255)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist255_g255)(nil)) }},
	{Name: "Bitlist257_g257", Tier: "thorough", Fam: "big", Parts: 1, Dec: 35, DecT: 35, Sch: sch_Bitlist257_g257, New: func() any { return new(Bitlist257_g257) }, Set: func(p any, v *Val) { set_Bitlist257_g257(p.(*Bitlist257_g257), v) }, Get: func(p any) *Val { return get_Bitlist257_g257(p.(*Bitlist257_g257)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist257_g257)(nil)) }},
	{Name: "Bitlist513_g513", Tier: "thorough", Fam: "big", Parts: 1, Dec: 66, DecT: 66, Sch: sch_Bitlist513_g513, New: func() any { return new(Bitlist513_g513) }, Set: func(p any, v *Val) { set_Bitlist513_g513(p.(*Bitlist513_g513), v) }, Get: func(p any) *Val { return get_Bitlist513_g513(p.(*Bitlist513_g513)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist513_g513)(nil)) }},
	{Name: "Bytes3", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_Bytes3, New: func() any { return new(Bytes3) }, Set: func(p any, v *Val) { set_Bytes3(p.(*Bytes3), v) }, Get: func(p any) *Val { return get_Bytes3(p.(*Bytes3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes3)(nil)) }},
	{Name: "Bytes33_g33", Tier: "", Fam: "big", Parts: 1, Dec: 35, DecT: 36, Sch: sch_Bytes33_g33, New: func() any { return new(Bytes33_g33) }, Set: func(p any, v *Val) { set_Bytes33_g33(p.(*Bytes33_g33), v) }, Get: func(p any) *Val { return get_Bytes33_g33(p.(*Bytes33_g33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes33_g33)(nil)) }},
	{Name: "Bytes65_g65", Tier: "thorough", Fam: "big", Parts: 1, Dec: 67, DecT: 68, Sch: sch_Bytes65_g65, New: func() any { return new(Bytes65_g65) }, Set: func(p any, v *Val) { set_Bytes65_g65(p.(*Bytes65_g65), v) }, Get: func(p any) *Val { return get_Bytes65_g65(p.(*Bytes65_g65)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes65_g65)(nil)) }},
	{Name: "Bytes32_g32", Tier: "thorough", Fam: "big", Parts: 1, Dec: 34, DecT: 36, Sch: sch_Bytes32_g32, New: func() any { return new(Bytes32_g32) }, Set: func(p any, v *Val) { set_Bytes32_g32(p.(*Bytes32_g32), v) }, Get: func(p any) *Val { return get_Bytes32_g32(p.(*Bytes32_g32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes32_g32)(nil)) }},
	{Name: "Bytes1", Tier: "thorough", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes1, New: func() any { return new(Bytes1) }, Set: func(p any, v *Val) { set_Bytes1(p.(*Bytes1), v) }, Get: func(p any) *Val { return get_Bytes1(p.(*Bytes1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes1)(nil)) }},
	{Name: "Bytes0", Tier: "thorough", Fam: "", Parts: 1, Dec: 2, DecT: 2, Sch: sch_Bytes0, New: func() any { return new(Bytes0) }, Set: func(p any, v *Val) { set_Bytes0(p.(*Bytes0), v) }, Get: func(p any) *Val { return get_Bytes0(p.(*Bytes0)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes0)(nil)) }},
	{Name: "List5_Bool_g5", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_List5_Bool_g5, New: func() any { return new(List5_Bool_g5) }, Set: func(p any, v *Val) { set_List5_Bool_g5(p.(*List5_Bool_g5), v) }, Get: func(p any) *Val { return get_List5_Bool_g5(p.(*List5_Bool_g5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Bool_g5)(nil)) }},
	{Name: "List4_U16_g4", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 12, Sch: sch_List4_U16_g4, New: func() any { return new(List4_U16_g4) }, Set: func(p any, v *Val) { set_List4_U16_g4(p.(*List4_U16_g4), v) }, Get: func(p any) *Val { return get_List4_U16_g4(p.(*List4_U16_g4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_U16_g4)(nil)) }},
	{Name: "List5_U64_g5", Tier: "", Fam: "", Parts: 1, Dec: 44, DecT: 50, Sch: sch_List5_U64_g5, New: func() any { return new(List5_U64_g5) }, Set: func(p any, v *Val) { set_List5_U64_g5(p.(*List5_U64_g5), v) }, Get: func(p any) *Val { return get_List5_U64_g5(p.(*List5_U64_g5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_U64_g5)(nil)) }},
	{Name: "List3_U32", Tier: "thorough", Fam: "", Parts: 1, Dec: 14, DecT: 16, Sch: sch_List3_U32, New: func() any { return new(List3_U32) }, Set: func(p any, v *Val) { set_List3_U32(p.(*List3_U32), v) }, Get: func(p any) *Val { return get_List3_U32(p.(*List3_U32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_U32)(nil)) }},
	{Name: "List9_U32_g9", Tier: "thorough", Fam: "", Parts: 1, Dec: 40, DecT: 44, Sch: sch_List9_U32_g9, New: func() any { return new(List9_U32_g9) }, Set: func(p any, v *Val) { set_List9_U32_g9(p.(*List9_U32_g9), v) }, Get: func(p any) *Val { return get_List9_U32_g9(p.(*List9_U32_g9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List9_U32_g9)(nil)) }},
	{Name: "List17_U16_g17", Tier: "thorough", Fam: "", Parts: 1, Dec: 38, DecT: 40, Sch: sch_List17_U16_g17, New: func() any { return new(List17_U16_g17) }, Set: func(p any, v *Val) { set_List17_U16_g17(p.(*List17_U16_g17), v) }, Get: func(p any) *Val { return get_List17_U16_g17(p.(*List17_U16_g17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List17_U16_g17)(nil)) }},
	{Name: "List33_Bool_g33", Tier: "thorough", Fam: "big", Parts: 1, Dec: 35, DecT: 36, Sch: sch_List33_Bool_g33, New: func() any { return new(List33_Bool_g33) }, Set: func(p any, v *Val) { set_List33_Bool_g33(p.(*List33_Bool_g33), v) }, Get: func(p any) *Val { return get_List33_Bool_g33(p.(*List33_Bool_g33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List33_Bool_g33)(nil)) }},
	{Name: "List3_Slot", Tier: "thorough", Fam: "", Parts: 1, Dec: 25, DecT: 33, Sch: sch_List3_Slot, New: func() any { return new(List3_Slot) }, Set: func(p any, v *Val) { set_List3_Slot(p.(*List3_Slot), v) }, Get: func(p any) *Val { return get_List3_Slot(p.(*List3_Slot)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Slot)(nil)) }},
	{Name: "List3_Flag", Tier: "thorough", Fam: "", Parts: 1, Dec: 4, DecT: 6, Sch: sch_List3_Flag, New: func() any { return new(List3_Flag) }, Set: func(p any, v *Val) { set_List3_Flag(p.(*List3_Flag), v) }, Get: func(p any) *Val { return get_List3_Flag(p.(*List3_Flag)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Flag)(nil)) }},
	{Name: "List0_U16_g0", Tier: "thorough", Fam: "", Parts: 1, Dec: 2, DecT: 4, Sch: sch_List0_U16_g0, New: func() any { return new(List0_U16_g0) }, Set: func(p any, v *Val) { set_List0_U16_g0(p.(*List0_U16_g0), v) }, Get: func(p any) *Val { return get_List0_U16_g0(p.(*List0_U16_g0)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List0_U16_g0)(nil)) }},
	{Name: "List3_Small", Tier: "", Fam: "", Parts: 1, Dec: 11, DecT: 13, Sch: sch_List3_Small, New: func() any { return new(List3_Small) }, Set: func(p any, v *Val) { set_List3_Small(p.(*List3_Small), v) }, Get: func(p any) *Val { return get_List3_Small(p.(*List3_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Small)(nil)) }},
	{Name: "List5_BytesN32_g5", Tier: "", Fam: "big", Parts: 1, Dec: 165, DecT: 165, Sch: sch_List5_BytesN32_g5, New: func() any { return new(List5_BytesN32_g5) }, Set: func(p any, v *Val) { set_List5_BytesN32_g5(p.(*List5_BytesN32_g5), v) }, Get: func(p any) *Val { return get_List5_BytesN32_g5(p.(*List5_BytesN32_g5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_BytesN32_g5)(nil)) }},
	{Name: "List3_BytesN4", Tier: "thorough", Fam: "", Parts: 1, Dec: 14, DecT: 17, Sch: sch_List3_BytesN4, New: func() any { return new(List3_BytesN4) }, Set: func(p any, v *Val) { set_List3_BytesN4(p.(*List3_BytesN4), v) }, Get: func(p any) *Val { return get_List3_BytesN4(p.(*List3_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_BytesN4)(nil)) }},
	{Name: "List3_Bitvec9", Tier: "thorough", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List3_Bitvec9, New: func() any { return new(List3_Bitvec9) }, Set: func(p any, v *Val) { set_List3_Bitvec9(p.(*List3_Bitvec9), v) }, Get: func(p any) *Val { return get_List3_Bitvec9(p.(*List3_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Bitvec9)(nil)) }},
	{Name: "List3_Bytes2_g2_g2", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 14, Sch: sch_List3_Bytes2_g2_g2, New: func() any { return new(List3_Bytes2_g2_g2) }, Set: func(p any, v *Val) { set_List3_Bytes2_g2_g2(p.(*List3_Bytes2_g2_g2), v) }, Get: func(p any) *Val { return get_List3_Bytes2_g2_g2(p.(*List3_Bytes2_g2_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Bytes2_g2_g2)(nil)) }},
	{Name: "List2_List2_U16_g2_g2", Tier: "", Fam: "", Parts: 2, Dec: 13, DecT: 15, Sch: sch_List2_List2_U16_g2_g2, New: func() any { return new(List2_List2_U16_g2_g2) }, Set: func(p any, v *Val) { set_List2_List2_U16_g2_g2(p.(*List2_List2_U16_g2_g2), v) }, Get: func(p any) *Val { return get_List2_List2_U16_g2_g2(p.(*List2_List2_U16_g2_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_U16_g2_g2)(nil)) }},
	{Name: "List2_Bitlist3_g3_g2", Tier: "thorough", Fam: "", Parts: 2, Dec: 10, DecT: 12, Sch: sch_List2_Bitlist3_g3_g2, New: func() any { return new(List2_Bitlist3_g3_g2) }, Set: func(p any, v *Val) { set_List2_Bitlist3_g3_g2(p.(*List2_Bitlist3_g3_g2), v) }, Get: func(p any) *Val { return get_List2_Bitlist3_g3_g2(p.(*List2_Bitlist3_g3_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Bitlist3_g3_g2)(nil)) }},
	{Name: "List2_Var2_g2", Tier: "thorough", Fam: "", Parts: 2, Dec: 14, DecT: 20, Sch: sch_List2_Var2_g2, New: func() any { return new(List2_Var2_g2) }, Set: func(p any, v *Val) { set_List2_Var2_g2(p.(*List2_Var2_g2), v) }, Get: func(p any) *Val { return get_List2_Var2_g2(p.(*List2_Var2_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Var2_g2)(nil)) }},
	{Name: "List2_Ptr_Small_g2", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_List2_Ptr_Small_g2, New: func() any { return new(List2_Ptr_Small_g2) }, Set: func(p any, v *Val) { set_List2_Ptr_Small_g2(p.(*List2_Ptr_Small_g2), v) }, Get: func(p any) *Val { return get_List2_Ptr_Small_g2(p.(*List2_Ptr_Small_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Ptr_Small_g2)(nil)) }},
	{Name: "List2_Vec2_Bytes2_g1_g1", Tier: "thorough", Fam: "", Parts: 3, Dec: 14, DecT: 16, Sch: sch_List2_Vec2_Bytes2_g1_g1, New: func() any { return new(List2_Vec2_Bytes2_g1_g1) }, Set: func(p any, v *Val) { set_List2_Vec2_Bytes2_g1_g1(p.(*List2_Vec2_Bytes2_g1_g1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Bytes2_g1_g1(p.(*List2_Vec2_Bytes2_g1_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Bytes2_g1_g1)(nil)) }},
	{Name: "List2_List2_Bytes2_g1_g1_g1", Tier: "thorough", Fam: "", Parts: 3, Dec: 12, DecT: 14, Sch: sch_List2_List2_Bytes2_g1_g1_g1, New: func() any { return new(List2_List2_Bytes2_g1_g1_g1) }, Set: func(p any, v *Val) { set_List2_List2_Bytes2_g1_g1_g1(p.(*List2_List2_Bytes2_g1_g1_g1), v) }, Get: func(p any) *Val { return get_List2_List2_Bytes2_g1_g1_g1(p.(*List2_List2_Bytes2_g1_g1_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Bytes2_g1_g1_g1)(nil)) }},
	{Name: "List3_Vec2_U16", Tier: "thorough", Fam: "", Parts: 1, Dec: 13, DecT: 14, Sch: sch_List3_Vec2_U16, New: func() any { return new(List3_Vec2_U16) }, Set: func(p any, v *Val) { set_List3_Vec2_U16(p.(*List3_Vec2_U16), v) }, Get: func(p any) *Val { return get_List3_Vec2_U16(p.(*List3_Vec2_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Vec2_U16)(nil)) }},
	{Name: "List2_Ptr_Var2_g1", Tier: "thorough", Fam: "", Parts: 2, Dec: 12, DecT: 14, Sch: sch_List2_Ptr_Var2_g1, New: func() any { return new(List2_Ptr_Var2_g1) }, Set: func(p any, v *Val) { set_List2_Ptr_Var2_g1(p.(*List2_Ptr_Var2_g1), v) }, Get: func(p any) *Val { return get_List2_Ptr_Var2_g1(p.(*List2_Ptr_Var2_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Ptr_Var2_g1)(nil)) }},
	{Name: "One", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_One, New: func() any { return new(One) }, Set: func(p any, v *Val) { set_One(p.(*One), v) }, Get: func(p any) *Val { return get_One(p.(*One)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*One)(nil)) }},
	{Name: "Small", Tier: "thorough", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Small, New: func() any { return new(Small) }, Set: func(p any, v *Val) { set_Small(p.(*Small), v) }, Get: func(p any) *Val { return get_Small(p.(*Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Small)(nil)) }},
	{Name: "Fix3", Tier: "", Fam: "", Parts: 0, Dec: 10, DecT: 10, Sch: sch_Fix3, New: func() any { return new(Fix3) }, Set: func(p any, v *Val) { set_Fix3(p.(*Fix3), v) }, Get: func(p any) *Val { return get_Fix3(p.(*Fix3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Fix3)(nil)) }},
	{Name: "FixBig", Tier: "", Fam: "", Parts: 0, Dec: 51, DecT: 51, Sch: sch_FixBig, New: func() any { return new(FixBig) }, Set: func(p any, v *Val) { set_FixBig(p.(*FixBig), v) }, Get: func(p any) *Val { return get_FixBig(p.(*FixBig)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*FixBig)(nil)) }},
	{Name: "Nine", Tier: "", Fam: "", Parts: 0, Dec: 10, DecT: 10, Sch: sch_Nine, New: func() any { return new(Nine) }, Set: func(p any, v *Val) { set_Nine(p.(*Nine), v) }, Get: func(p any) *Val { return get_Nine(p.(*Nine)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Nine)(nil)) }},
	{Name: "Var1", Tier: "", Fam: "", Parts: 1, Dec: 9, DecT: 12, Sch: sch_Var1, New: func() any { return new(Var1) }, Set: func(p any, v *Val) { set_Var1(p.(*Var1), v) }, Get: func(p any) *Val { return get_Var1(p.(*Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Var1)(nil)) }},
	{Name: "Var2", Tier: "", Fam: "", Parts: 1, Dec: 11, DecT: 13, Sch: sch_Var2, New: func() any { return new(Var2) }, Set: func(p any, v *Val) { set_Var2(p.(*Var2), v) }, Get: func(p any) *Val { return get_Var2(p.(*Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Var2)(nil)) }},
	{Name: "Var2Only", Tier: "thorough", Fam: "", Parts: 2, Dec: 12, DecT: 14, Sch: sch_Var2Only, New: func() any { return new(Var2Only) }, Set: func(p any, v *Val) { set_Var2Only(p.(*Var2Only), v) }, Get: func(p any) *Val { return get_Var2Only(p.(*Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Var2Only)(nil)) }},
	{Name: "VarMix", Tier: "", Fam: "", Parts: 3, Dec: 19, DecT: 21, Sch: sch_VarMix, New: func() any { return new(VarMix) }, Set: func(p any, v *Val) { set_VarMix(p.(*VarMix), v) }, Get: func(p any) *Val { return get_VarMix(p.(*VarMix)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*VarMix)(nil)) }},
	{Name: "VarNest", Tier: "thorough", Fam: "", Parts: 3, Dec: 20, DecT: 26, Sch: sch_VarNest, New: func() any { return new(VarNest) }, Set: func(p any, v *Val) { set_VarNest(p.(*VarNest), v) }, Get: func(p any) *Val { return get_VarNest(p.(*VarNest)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*VarNest)(nil)) }},
	{Name: "Five", Tier: "thorough", Fam: "", Parts: 1, Dec: 49, DecT: 50, Sch: sch_Five, New: func() any { return new(Five) }, Set: func(p any, v *Val) { set_Five(p.(*Five), v) }, Get: func(p any) *Val { return get_Five(p.(*Five)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Five)(nil)) }},
	{Name: "PtrS", Tier: "", Fam: "", Parts: 1, Dec: 16, DecT: 18, Sch: sch_PtrS, New: func() any { return new(PtrS) }, Set: func(p any, v *Val) { set_PtrS(p.(*PtrS), v) }, Get: func(p any) *Val { return get_PtrS(p.(*PtrS)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*PtrS)(nil)) }},
	{Name: "PtrB", Tier: "thorough", Fam: "", Parts: 1, Dec: 12, DecT: 13, Sch: sch_PtrB, New: func() any { return new(PtrB) }, Set: func(p any, v *Val) { set_PtrB(p.(*PtrB), v) }, Get: func(p any) *Val { return get_PtrB(p.(*PtrB)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*PtrB)(nil)) }},
	{Name: "Sq1", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 13, Sch: sch_Sq1, New: func() any { return new(Sq1) }, Set: func(p any, v *Val) { set_Sq1(p.(*Sq1), v) }, Get: func(p any) *Val { return get_Sq1(p.(*Sq1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq1)(nil)) }},
	{Name: "Sq2", Tier: "", Fam: "squash", Parts: 2, Dec: 17, DecT: 19, Sch: sch_Sq2, New: func() any { return new(Sq2) }, Set: func(p any, v *Val) { set_Sq2(p.(*Sq2), v) }, Get: func(p any) *Val { return get_Sq2(p.(*Sq2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq2)(nil)) }},
	{Name: "Emb1", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 13, Sch: sch_Emb1, New: func() any { return new(Emb1) }, Set: func(p any, v *Val) { set_Emb1(p.(*Emb1), v) }, Get: func(p any) *Val { return get_Emb1(p.(*Emb1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Emb1)(nil)) }},
	{Name: "Emb2", Tier: "thorough", Fam: "squash", Parts: 1, Dec: 17, DecT: 18, Sch: sch_Emb2, New: func() any { return new(Emb2) }, Set: func(p any, v *Val) { set_Emb2(p.(*Emb2), v) }, Get: func(p any) *Val { return get_Emb2(p.(*Emb2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Emb2)(nil)) }},
	{Name: "Om1", Tier: "", Fam: "squash", Parts: 1, Dec: 9, DecT: 11, Sch: sch_Om1, New: func() any { return new(Om1) }, Set: func(p any, v *Val) { set_Om1(p.(*Om1), v) }, Get: func(p any) *Val { return get_Om1(p.(*Om1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Om1)(nil)) }},
	{Name: "Om2", Tier: "", Fam: "squash", Parts: 0, Dec: 8, DecT: 8, Sch: sch_Om2, New: func() any { return new(Om2) }, Set: func(p any, v *Val) { set_Om2(p.(*Om2), v) }, Get: func(p any) *Val { return get_Om2(p.(*Om2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Om2)(nil)) }},
	{Name: "EmbPtr", Tier: "", Fam: "squash", Parts: 0, Dec: 6, DecT: 6, Sch: sch_EmbPtr, New: func() any { return new(EmbPtr) }, Set: func(p any, v *Val) { set_EmbPtr(p.(*EmbPtr), v) }, Get: func(p any) *Val { return get_EmbPtr(p.(*EmbPtr)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*EmbPtr)(nil)) }},
	{Name: "EmbList", Tier: "thorough", Fam: "squash", Parts: 1, Dec: 8, DecT: 9, Sch: sch_EmbList, New: func() any { return new(EmbList) }, Set: func(p any, v *Val) { set_EmbList(p.(*EmbList), v) }, Get: func(p any) *Val { return get_EmbList(p.(*EmbList)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*EmbList)(nil)) }},
	{Name: "Un", Tier: "thorough", Fam: "squash", Parts: 1, Dec: 12, DecT: 13, Sch: sch_Un, New: func() any { return new(Un) }, Set: func(p any, v *Val) { set_Un(p.(*Un), v) }, Get: func(p any) *Val { return get_Un(p.(*Un)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Un)(nil)) }},
	{Name: "EmbDeep", Tier: "thorough", Fam: "squash", Parts: 2, Dec: 21, DecT: 23, Sch: sch_EmbDeep, New: func() any { return new(EmbDeep) }, Set: func(p any, v *Val) { set_EmbDeep(p.(*EmbDeep), v) }, Get: func(p any) *Val { return get_EmbDeep(p.(*EmbDeep)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*EmbDeep)(nil)) }},
	{Name: "PtrAll", Tier: "", Fam: "ptr", Parts: 0, Dec: 29, DecT: 29, Sch: sch_PtrAll, New: func() any { return new(PtrAll) }, Set: func(p any, v *Val) { set_PtrAll(p.(*PtrAll), v) }, Get: func(p any) *Val { return get_PtrAll(p.(*PtrAll)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*PtrAll)(nil)) }},
	{Name: "PtrVar", Tier: "", Fam: "ptr", Parts: 4, Dec: 29, DecT: 31, Sch: sch_PtrVar, New: func() any { return new(PtrVar) }, Set: func(p any, v *Val) { set_PtrVar(p.(*PtrVar), v) }, Get: func(p any) *Val { return get_PtrVar(p.(*PtrVar)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*PtrVar)(nil)) }},
	{Name: "PtrLL", Tier: "", Fam: "ptr", Parts: 3, Dec: 14, DecT: 16, Sch: sch_PtrLL, New: func() any { return new(PtrLL) }, Set: func(p any, v *Val) { set_PtrLL(p.(*PtrLL), v) }, Get: func(p any) *Val { return get_PtrLL(p.(*PtrLL)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*PtrLL)(nil)) }},
	{Name: "Ptr_U32", Tier: "", Fam: "ptr", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Ptr_U32, New: func() any { return new(*uint32) }, Set: func(p any, v *Val) { set_Ptr_U32(p.(**uint32), v) }, Get: func(p any) *Val { return get_Ptr_U32(p.(**uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((**uint32)(nil)) }},
	{Name: "Ptr_Bytes3_g2", Tier: "", Fam: "ptr", Parts: 1, Dec: 5, DecT: 6, Sch: sch_Ptr_Bytes3_g2, New: func() any { return new(*Bytes3_g2) }, Set: func(p any, v *Val) { set_Ptr_Bytes3_g2(p.(**Bytes3_g2), v) }, Get: func(p any) *Val { return get_Ptr_Bytes3_g2(p.(**Bytes3_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((**Bytes3_g2)(nil)) }},
	{Name: "Ptr_Var2", Tier: "", Fam: "ptr", Parts: 1, Dec: 11, DecT: 13, Sch: sch_Ptr_Var2, New: func() any { return new(*Var2) }, Set: func(p any, v *Val) { set_Ptr_Var2(p.(**Var2), v) }, Get: func(p any) *Val { return get_Ptr_Var2(p.(**Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((**Var2)(nil)) }},
	{Name: "Ptr_Ptr_Small", Tier: "", Fam: "ptr", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Ptr_Ptr_Small, New: func() any { return new(**Small) }, Set: func(p any, v *Val) { set_Ptr_Ptr_Small(p.(***Small), v) }, Get: func(p any) *Val { return get_Ptr_Ptr_Small(p.(***Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((***Small)(nil)) }},
	{Name: "S1_U8", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_S1_U8, New: func() any { return new(S1_U8) }, Set: func(p any, v *Val) { set_S1_U8(p.(*S1_U8), v) }, Get: func(p any) *Val { return get_S1_U8(p.(*S1_U8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_U8)(nil)) }},
	{Name: "S3_U8", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_S3_U8, New: func() any { return new(S3_U8) }, Set: func(p any, v *Val) { set_S3_U8(p.(*S3_U8), v) }, Get: func(p any) *Val { return get_S3_U8(p.(*S3_U8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_U8)(nil)) }},
	{Name: "SV_U8", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_SV_U8, New: func() any { return new(SV_U8) }, Set: func(p any, v *Val) { set_SV_U8(p.(*SV_U8), v) }, Get: func(p any) *Val { return get_SV_U8(p.(*SV_U8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_U8)(nil)) }},
	{Name: "SP_U8", Tier: "", Fam: "ptr", Parts: 1, Dec: 9, DecT: 10, Sch: sch_SP_U8, New: func() any { return new(SP_U8) }, Set: func(p any, v *Val) { set_SP_U8(p.(*SP_U8), v) }, Get: func(p any) *Val { return get_SP_U8(p.(*SP_U8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_U8)(nil)) }},
	{Name: "S1_U16", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_S1_U16, New: func() any { return new(S1_U16) }, Set: func(p any, v *Val) { set_S1_U16(p.(*S1_U16), v) }, Get: func(p any) *Val { return get_S1_U16(p.(*S1_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_U16)(nil)) }},
	{Name: "S3_U16", Tier: "", Fam: "", Parts: 0, Dec: 6, DecT: 6, Sch: sch_S3_U16, New: func() any { return new(S3_U16) }, Set: func(p any, v *Val) { set_S3_U16(p.(*S3_U16), v) }, Get: func(p any) *Val { return get_S3_U16(p.(*S3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_U16)(nil)) }},
	{Name: "SV_U16", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_SV_U16, New: func() any { return new(SV_U16) }, Set: func(p any, v *Val) { set_SV_U16(p.(*SV_U16), v) }, Get: func(p any) *Val { return get_SV_U16(p.(*SV_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_U16)(nil)) }},
	{Name: "SP_U16", Tier: "", Fam: "ptr", Parts: 1, Dec: 10, DecT: 11, Sch: sch_SP_U16, New: func() any { return new(SP_U16) }, Set: func(p any, v *Val) { set_SP_U16(p.(*SP_U16), v) }, Get: func(p any) *Val { return get_SP_U16(p.(*SP_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_U16)(nil)) }},
	{Name: "Vec1_U16", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Vec1_U16, New: func() any { return new([1]uint16) }, Set: func(p any, v *Val) { set_Vec1_U16(p.(*[1]uint16), v) }, Get: func(p any) *Val { return get_Vec1_U16(p.(*[1]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]uint16)(nil)) }},
	{Name: "Vec2_U16", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec2_U16, New: func() any { return new([2]uint16) }, Set: func(p any, v *Val) { set_Vec2_U16(p.(*[2]uint16), v) }, Get: func(p any) *Val { return get_Vec2_U16(p.(*[2]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]uint16)(nil)) }},
	{Name: "List4_U16_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List4_U16_n0_1_2, New: func() any { return new(List4_U16_n0_1_2) }, Set: func(p any, v *Val) { set_List4_U16_n0_1_2(p.(*List4_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_U16_n0_1_2(p.(*List4_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_U16_n0_1_2)(nil)) }},
	{Name: "S1_U32", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_S1_U32, New: func() any { return new(S1_U32) }, Set: func(p any, v *Val) { set_S1_U32(p.(*S1_U32), v) }, Get: func(p any) *Val { return get_S1_U32(p.(*S1_U32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_U32)(nil)) }},
	{Name: "S3_U32", Tier: "", Fam: "", Parts: 0, Dec: 8, DecT: 8, Sch: sch_S3_U32, New: func() any { return new(S3_U32) }, Set: func(p any, v *Val) { set_S3_U32(p.(*S3_U32), v) }, Get: func(p any) *Val { return get_S3_U32(p.(*S3_U32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_U32)(nil)) }},
	{Name: "SV_U32", Tier: "", Fam: "", Parts: 2, Dec: 20, DecT: 21, Sch: sch_SV_U32, New: func() any { return new(SV_U32) }, Set: func(p any, v *Val) { set_SV_U32(p.(*SV_U32), v) }, Get: func(p any) *Val { return get_SV_U32(p.(*SV_U32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_U32)(nil)) }},
	{Name: "SP_U32", Tier: "", Fam: "ptr", Parts: 1, Dec: 12, DecT: 13, Sch: sch_SP_U32, New: func() any { return new(SP_U32) }, Set: func(p any, v *Val) { set_SP_U32(p.(*SP_U32), v) }, Get: func(p any) *Val { return get_SP_U32(p.(*SP_U32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_U32)(nil)) }},
	{Name: "Vec1_U32", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec1_U32, New: func() any { return new([1]uint32) }, Set: func(p any, v *Val) { set_Vec1_U32(p.(*[1]uint32), v) }, Get: func(p any) *Val { return get_Vec1_U32(p.(*[1]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]uint32)(nil)) }},
	{Name: "Vec2_U32", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Vec2_U32, New: func() any { return new([2]uint32) }, Set: func(p any, v *Val) { set_Vec2_U32(p.(*[2]uint32), v) }, Get: func(p any) *Val { return get_Vec2_U32(p.(*[2]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]uint32)(nil)) }},
	{Name: "List4_U32_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List4_U32_n0_1_2, New: func() any { return new(List4_U32_n0_1_2) }, Set: func(p any, v *Val) { set_List4_U32_n0_1_2(p.(*List4_U32_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_U32_n0_1_2(p.(*List4_U32_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_U32_n0_1_2)(nil)) }},
	{Name: "S1_U64", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_S1_U64, New: func() any { return new(S1_U64) }, Set: func(p any, v *Val) { set_S1_U64(p.(*S1_U64), v) }, Get: func(p any) *Val { return get_S1_U64(p.(*S1_U64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_U64)(nil)) }},
	{Name: "S3_U64", Tier: "", Fam: "", Parts: 0, Dec: 12, DecT: 12, Sch: sch_S3_U64, New: func() any { return new(S3_U64) }, Set: func(p any, v *Val) { set_S3_U64(p.(*S3_U64), v) }, Get: func(p any) *Val { return get_S3_U64(p.(*S3_U64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_U64)(nil)) }},
	{Name: "SV_U64", Tier: "", Fam: "", Parts: 2, Dec: 28, DecT: 29, Sch: sch_SV_U64, New: func() any { return new(SV_U64) }, Set: func(p any, v *Val) { set_SV_U64(p.(*SV_U64), v) }, Get: func(p any) *Val { return get_SV_U64(p.(*SV_U64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_U64)(nil)) }},
	{Name: "SP_U64", Tier: "", Fam: "ptr", Parts: 1, Dec: 16, DecT: 17, Sch: sch_SP_U64, New: func() any { return new(SP_U64) }, Set: func(p any, v *Val) { set_SP_U64(p.(*SP_U64), v) }, Get: func(p any) *Val { return get_SP_U64(p.(*SP_U64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_U64)(nil)) }},
	{Name: "Vec1_U64", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Vec1_U64, New: func() any { return new([1]uint64) }, Set: func(p any, v *Val) { set_Vec1_U64(p.(*[1]uint64), v) }, Get: func(p any) *Val { return get_Vec1_U64(p.(*[1]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]uint64)(nil)) }},
	{Name: "Vec2_U64", Tier: "", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_Vec2_U64, New: func() any { return new([2]uint64) }, Set: func(p any, v *Val) { set_Vec2_U64(p.(*[2]uint64), v) }, Get: func(p any) *Val { return get_Vec2_U64(p.(*[2]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]uint64)(nil)) }},
	{Name: "List4_U64_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List4_U64_n0_1_2, New: func() any { return new(List4_U64_n0_1_2) }, Set: func(p any, v *Val) { set_List4_U64_n0_1_2(p.(*List4_U64_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_U64_n0_1_2(p.(*List4_U64_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_U64_n0_1_2)(nil)) }},
	{Name: "S1_Bool", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_S1_Bool, New: func() any { return new(S1_Bool) }, Set: func(p any, v *Val) { set_S1_Bool(p.(*S1_Bool), v) }, Get: func(p any) *Val { return get_S1_Bool(p.(*S1_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Bool)(nil)) }},
	{Name: "S3_Bool", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_S3_Bool, New: func() any { return new(S3_Bool) }, Set: func(p any, v *Val) { set_S3_Bool(p.(*S3_Bool), v) }, Get: func(p any) *Val { return get_S3_Bool(p.(*S3_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Bool)(nil)) }},
	{Name: "SV_Bool", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_SV_Bool, New: func() any { return new(SV_Bool) }, Set: func(p any, v *Val) { set_SV_Bool(p.(*SV_Bool), v) }, Get: func(p any) *Val { return get_SV_Bool(p.(*SV_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Bool)(nil)) }},
	{Name: "SP_Bool", Tier: "", Fam: "ptr", Parts: 1, Dec: 9, DecT: 10, Sch: sch_SP_Bool, New: func() any { return new(SP_Bool) }, Set: func(p any, v *Val) { set_SP_Bool(p.(*SP_Bool), v) }, Get: func(p any) *Val { return get_SP_Bool(p.(*SP_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Bool)(nil)) }},
	{Name: "Vec1_Bool", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Vec1_Bool, New: func() any { return new([1]bool) }, Set: func(p any, v *Val) { set_Vec1_Bool(p.(*[1]bool), v) }, Get: func(p any) *Val { return get_Vec1_Bool(p.(*[1]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]bool)(nil)) }},
	{Name: "Vec2_Bool", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Vec2_Bool, New: func() any { return new([2]bool) }, Set: func(p any, v *Val) { set_Vec2_Bool(p.(*[2]bool), v) }, Get: func(p any) *Val { return get_Vec2_Bool(p.(*[2]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]bool)(nil)) }},
	{Name: "List4_Bool_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List4_Bool_n0_1_2, New: func() any { return new(List4_Bool_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Bool_n0_1_2(p.(*List4_Bool_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Bool_n0_1_2(p.(*List4_Bool_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Bool_n0_1_2)(nil)) }},
	{Name: "S1_BytesN4", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_S1_BytesN4, New: func() any { return new(S1_BytesN4) }, Set: func(p any, v *Val) { set_S1_BytesN4(p.(*S1_BytesN4), v) }, Get: func(p any) *Val { return get_S1_BytesN4(p.(*S1_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_BytesN4)(nil)) }},
	{Name: "S3_BytesN4", Tier: "", Fam: "", Parts: 0, Dec: 8, DecT: 8, Sch: sch_S3_BytesN4, New: func() any { return new(S3_BytesN4) }, Set: func(p any, v *Val) { set_S3_BytesN4(p.(*S3_BytesN4), v) }, Get: func(p any) *Val { return get_S3_BytesN4(p.(*S3_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_BytesN4)(nil)) }},
	{Name: "SV_BytesN4", Tier: "", Fam: "", Parts: 2, Dec: 20, DecT: 21, Sch: sch_SV_BytesN4, New: func() any { return new(SV_BytesN4) }, Set: func(p any, v *Val) { set_SV_BytesN4(p.(*SV_BytesN4), v) }, Get: func(p any) *Val { return get_SV_BytesN4(p.(*SV_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_BytesN4)(nil)) }},
	{Name: "SP_BytesN4", Tier: "", Fam: "ptr", Parts: 1, Dec: 12, DecT: 13, Sch: sch_SP_BytesN4, New: func() any { return new(SP_BytesN4) }, Set: func(p any, v *Val) { set_SP_BytesN4(p.(*SP_BytesN4), v) }, Get: func(p any) *Val { return get_SP_BytesN4(p.(*SP_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_BytesN4)(nil)) }},
	{Name: "Vec1_BytesN4", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec1_BytesN4, New: func() any { return new([1][4]byte) }, Set: func(p any, v *Val) { set_Vec1_BytesN4(p.(*[1][4]byte), v) }, Get: func(p any) *Val { return get_Vec1_BytesN4(p.(*[1][4]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][4]byte)(nil)) }},
	{Name: "Vec2_BytesN4", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Vec2_BytesN4, New: func() any { return new([2][4]byte) }, Set: func(p any, v *Val) { set_Vec2_BytesN4(p.(*[2][4]byte), v) }, Get: func(p any) *Val { return get_Vec2_BytesN4(p.(*[2][4]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][4]byte)(nil)) }},
	{Name: "List4_BytesN4_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List4_BytesN4_n0_1_2, New: func() any { return new(List4_BytesN4_n0_1_2) }, Set: func(p any, v *Val) { set_List4_BytesN4_n0_1_2(p.(*List4_BytesN4_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_BytesN4_n0_1_2(p.(*List4_BytesN4_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_BytesN4_n0_1_2)(nil)) }},
	{Name: "List8589934592_BytesN4_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List8589934592_BytesN4_n0_1, New: func() any { return new(List8589934592_BytesN4_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_BytesN4_n0_1(p.(*List8589934592_BytesN4_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_BytesN4_n0_1(p.(*List8589934592_BytesN4_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_BytesN4_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_BytesN4", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Vec2_Vec1_BytesN4, New: func() any { return new([2][1][4]byte) }, Set: func(p any, v *Val) { set_Vec2_Vec1_BytesN4(p.(*[2][1][4]byte), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_BytesN4(p.(*[2][1][4]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][4]byte)(nil)) }},
	{Name: "List2_Vec2_BytesN4_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List2_Vec2_BytesN4_n0_1, New: func() any { return new(List2_Vec2_BytesN4_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_BytesN4_n0_1(p.(*List2_Vec2_BytesN4_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_BytesN4_n0_1(p.(*List2_Vec2_BytesN4_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_BytesN4_n0_1)(nil)) }},
	{Name: "List2_List2_BytesN4_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 10, DecT: 11, Sch: sch_List2_List2_BytesN4_n0_1_n0_2, New: func() any { return new(List2_List2_BytesN4_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_BytesN4_n0_1_n0_2(p.(*List2_List2_BytesN4_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_BytesN4_n0_1_n0_2(p.(*List2_List2_BytesN4_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_BytesN4_n0_1_n0_2)(nil)) }},
	{Name: "Sq_BytesN4", Tier: "", Fam: "squash", Parts: 1, Dec: 17, DecT: 18, Sch: sch_Sq_BytesN4, New: func() any { return new(Sq_BytesN4) }, Set: func(p any, v *Val) { set_Sq_BytesN4(p.(*Sq_BytesN4), v) }, Get: func(p any) *Val { return get_Sq_BytesN4(p.(*Sq_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_BytesN4)(nil)) }},
	{Name: "Em_BytesN4", Tier: "", Fam: "squash", Parts: 1, Dec: 12, DecT: 13, Sch: sch_Em_BytesN4, New: func() any { return new(Em_BytesN4) }, Set: func(p any, v *Val) { set_Em_BytesN4(p.(*Em_BytesN4), v) }, Get: func(p any) *Val { return get_Em_BytesN4(p.(*Em_BytesN4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_BytesN4)(nil)) }},
	{Name: "S1_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_S1_BytesN32, New: func() any { return new(S1_BytesN32) }, Set: func(p any, v *Val) { set_S1_BytesN32(p.(*S1_BytesN32), v) }, Get: func(p any) *Val { return get_S1_BytesN32(p.(*S1_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_BytesN32)(nil)) }},
	{Name: "S3_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 36, DecT: 36, Sch: sch_S3_BytesN32, New: func() any { return new(S3_BytesN32) }, Set: func(p any, v *Val) { set_S3_BytesN32(p.(*S3_BytesN32), v) }, Get: func(p any) *Val { return get_S3_BytesN32(p.(*S3_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_BytesN32)(nil)) }},
	{Name: "SV_BytesN32", Tier: "", Fam: "", Parts: 2, Dec: 76, DecT: 77, Sch: sch_SV_BytesN32, New: func() any { return new(SV_BytesN32) }, Set: func(p any, v *Val) { set_SV_BytesN32(p.(*SV_BytesN32), v) }, Get: func(p any) *Val { return get_SV_BytesN32(p.(*SV_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_BytesN32)(nil)) }},
	{Name: "SP_BytesN32", Tier: "", Fam: "ptr", Parts: 1, Dec: 40, DecT: 41, Sch: sch_SP_BytesN32, New: func() any { return new(SP_BytesN32) }, Set: func(p any, v *Val) { set_SP_BytesN32(p.(*SP_BytesN32), v) }, Get: func(p any) *Val { return get_SP_BytesN32(p.(*SP_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_BytesN32)(nil)) }},
	{Name: "Vec1_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Vec1_BytesN32, New: func() any { return new([1][32]byte) }, Set: func(p any, v *Val) { set_Vec1_BytesN32(p.(*[1][32]byte), v) }, Get: func(p any) *Val { return get_Vec1_BytesN32(p.(*[1][32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][32]byte)(nil)) }},
	{Name: "Vec2_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Vec2_BytesN32, New: func() any { return new([2][32]byte) }, Set: func(p any, v *Val) { set_Vec2_BytesN32(p.(*[2][32]byte), v) }, Get: func(p any) *Val { return get_Vec2_BytesN32(p.(*[2][32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][32]byte)(nil)) }},
	{Name: "List4_BytesN32_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 34, DecT: 35, Sch: sch_List4_BytesN32_n0_1_2, New: func() any { return new(List4_BytesN32_n0_1_2) }, Set: func(p any, v *Val) { set_List4_BytesN32_n0_1_2(p.(*List4_BytesN32_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_BytesN32_n0_1_2(p.(*List4_BytesN32_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_BytesN32_n0_1_2)(nil)) }},
	{Name: "List8589934592_BytesN32_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 34, DecT: 35, Sch: sch_List8589934592_BytesN32_n0_1, New: func() any { return new(List8589934592_BytesN32_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_BytesN32_n0_1(p.(*List8589934592_BytesN32_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_BytesN32_n0_1(p.(*List8589934592_BytesN32_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_BytesN32_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Vec2_Vec1_BytesN32, New: func() any { return new([2][1][32]byte) }, Set: func(p any, v *Val) { set_Vec2_Vec1_BytesN32(p.(*[2][1][32]byte), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_BytesN32(p.(*[2][1][32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][32]byte)(nil)) }},
	{Name: "List2_Vec2_BytesN32_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 66, DecT: 67, Sch: sch_List2_Vec2_BytesN32_n0_1, New: func() any { return new(List2_Vec2_BytesN32_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_BytesN32_n0_1(p.(*List2_Vec2_BytesN32_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_BytesN32_n0_1(p.(*List2_Vec2_BytesN32_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_BytesN32_n0_1)(nil)) }},
	{Name: "List2_List2_BytesN32_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 38, DecT: 39, Sch: sch_List2_List2_BytesN32_n0_1_n0_2, New: func() any { return new(List2_List2_BytesN32_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_BytesN32_n0_1_n0_2(p.(*List2_List2_BytesN32_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_BytesN32_n0_1_n0_2(p.(*List2_List2_BytesN32_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_BytesN32_n0_1_n0_2)(nil)) }},
	{Name: "Sq_BytesN32", Tier: "", Fam: "squash", Parts: 1, Dec: 73, DecT: 74, Sch: sch_Sq_BytesN32, New: func() any { return new(Sq_BytesN32) }, Set: func(p any, v *Val) { set_Sq_BytesN32(p.(*Sq_BytesN32), v) }, Get: func(p any) *Val { return get_Sq_BytesN32(p.(*Sq_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_BytesN32)(nil)) }},
	{Name: "Em_BytesN32", Tier: "", Fam: "squash", Parts: 1, Dec: 40, DecT: 41, Sch: sch_Em_BytesN32, New: func() any { return new(Em_BytesN32) }, Set: func(p any, v *Val) { set_Em_BytesN32(p.(*Em_BytesN32), v) }, Get: func(p any) *Val { return get_Em_BytesN32(p.(*Em_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_BytesN32)(nil)) }},
	{Name: "S1_BytesN33", Tier: "", Fam: "", Parts: 0, Dec: 34, DecT: 34, Sch: sch_S1_BytesN33, New: func() any { return new(S1_BytesN33) }, Set: func(p any, v *Val) { set_S1_BytesN33(p.(*S1_BytesN33), v) }, Get: func(p any) *Val { return get_S1_BytesN33(p.(*S1_BytesN33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_BytesN33)(nil)) }},
	{Name: "S3_BytesN33", Tier: "", Fam: "", Parts: 0, Dec: 37, DecT: 37, Sch: sch_S3_BytesN33, New: func() any { return new(S3_BytesN33) }, Set: func(p any, v *Val) { set_S3_BytesN33(p.(*S3_BytesN33), v) }, Get: func(p any) *Val { return get_S3_BytesN33(p.(*S3_BytesN33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_BytesN33)(nil)) }},
	{Name: "SV_BytesN33", Tier: "", Fam: "", Parts: 2, Dec: 78, DecT: 79, Sch: sch_SV_BytesN33, New: func() any { return new(SV_BytesN33) }, Set: func(p any, v *Val) { set_SV_BytesN33(p.(*SV_BytesN33), v) }, Get: func(p any) *Val { return get_SV_BytesN33(p.(*SV_BytesN33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_BytesN33)(nil)) }},
	{Name: "SP_BytesN33", Tier: "", Fam: "ptr", Parts: 1, Dec: 41, DecT: 42, Sch: sch_SP_BytesN33, New: func() any { return new(SP_BytesN33) }, Set: func(p any, v *Val) { set_SP_BytesN33(p.(*SP_BytesN33), v) }, Get: func(p any) *Val { return get_SP_BytesN33(p.(*SP_BytesN33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_BytesN33)(nil)) }},
	{Name: "Vec1_BytesN33", Tier: "", Fam: "", Parts: 0, Dec: 34, DecT: 34, Sch: sch_Vec1_BytesN33, New: func() any { return new([1][33]byte) }, Set: func(p any, v *Val) { set_Vec1_BytesN33(p.(*[1][33]byte), v) }, Get: func(p any) *Val { return get_Vec1_BytesN33(p.(*[1][33]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][33]byte)(nil)) }},
	{Name: "Vec2_BytesN33", Tier: "", Fam: "", Parts: 0, Dec: 67, DecT: 67, Sch: sch_Vec2_BytesN33, New: func() any { return new([2][33]byte) }, Set: func(p any, v *Val) { set_Vec2_BytesN33(p.(*[2][33]byte), v) }, Get: func(p any) *Val { return get_Vec2_BytesN33(p.(*[2][33]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][33]byte)(nil)) }},
	{Name: "List4_BytesN33_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 35, DecT: 36, Sch: sch_List4_BytesN33_n0_1_2, New: func() any { return new(List4_BytesN33_n0_1_2) }, Set: func(p any, v *Val) { set_List4_BytesN33_n0_1_2(p.(*List4_BytesN33_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_BytesN33_n0_1_2(p.(*List4_BytesN33_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_BytesN33_n0_1_2)(nil)) }},
	{Name: "List8589934592_BytesN33_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 35, DecT: 36, Sch: sch_List8589934592_BytesN33_n0_1, New: func() any { return new(List8589934592_BytesN33_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_BytesN33_n0_1(p.(*List8589934592_BytesN33_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_BytesN33_n0_1(p.(*List8589934592_BytesN33_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_BytesN33_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_BytesN33", Tier: "", Fam: "", Parts: 0, Dec: 67, DecT: 67, Sch: sch_Vec2_Vec1_BytesN33, New: func() any { return new([2][1][33]byte) }, Set: func(p any, v *Val) { set_Vec2_Vec1_BytesN33(p.(*[2][1][33]byte), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_BytesN33(p.(*[2][1][33]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][33]byte)(nil)) }},
	{Name: "List2_Vec2_BytesN33_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 68, DecT: 69, Sch: sch_List2_Vec2_BytesN33_n0_1, New: func() any { return new(List2_Vec2_BytesN33_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_BytesN33_n0_1(p.(*List2_Vec2_BytesN33_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_BytesN33_n0_1(p.(*List2_Vec2_BytesN33_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_BytesN33_n0_1)(nil)) }},
	{Name: "List2_List2_BytesN33_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 39, DecT: 40, Sch: sch_List2_List2_BytesN33_n0_1_n0_2, New: func() any { return new(List2_List2_BytesN33_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_BytesN33_n0_1_n0_2(p.(*List2_List2_BytesN33_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_BytesN33_n0_1_n0_2(p.(*List2_List2_BytesN33_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_BytesN33_n0_1_n0_2)(nil)) }},
	{Name: "Sq_BytesN33", Tier: "", Fam: "squash", Parts: 1, Dec: 75, DecT: 76, Sch: sch_Sq_BytesN33, New: func() any { return new(Sq_BytesN33) }, Set: func(p any, v *Val) { set_Sq_BytesN33(p.(*Sq_BytesN33), v) }, Get: func(p any) *Val { return get_Sq_BytesN33(p.(*Sq_BytesN33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_BytesN33)(nil)) }},
	{Name: "Em_BytesN33", Tier: "", Fam: "squash", Parts: 1, Dec: 41, DecT: 42, Sch: sch_Em_BytesN33, New: func() any { return new(Em_BytesN33) }, Set: func(p any, v *Val) { set_Em_BytesN33(p.(*Em_BytesN33), v) }, Get: func(p any) *Val { return get_Em_BytesN33(p.(*Em_BytesN33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_BytesN33)(nil)) }},
	{Name: "S1_Bitvec1", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_S1_Bitvec1, New: func() any { return new(S1_Bitvec1) }, Set: func(p any, v *Val) { set_S1_Bitvec1(p.(*S1_Bitvec1), v) }, Get: func(p any) *Val { return get_S1_Bitvec1(p.(*S1_Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Bitvec1)(nil)) }},
	{Name: "S3_Bitvec1", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_S3_Bitvec1, New: func() any { return new(S3_Bitvec1) }, Set: func(p any, v *Val) { set_S3_Bitvec1(p.(*S3_Bitvec1), v) }, Get: func(p any) *Val { return get_S3_Bitvec1(p.(*S3_Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Bitvec1)(nil)) }},
	{Name: "SV_Bitvec1", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_SV_Bitvec1, New: func() any { return new(SV_Bitvec1) }, Set: func(p any, v *Val) { set_SV_Bitvec1(p.(*SV_Bitvec1), v) }, Get: func(p any) *Val { return get_SV_Bitvec1(p.(*SV_Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Bitvec1)(nil)) }},
	{Name: "SP_Bitvec1", Tier: "", Fam: "ptr", Parts: 1, Dec: 9, DecT: 10, Sch: sch_SP_Bitvec1, New: func() any { return new(SP_Bitvec1) }, Set: func(p any, v *Val) { set_SP_Bitvec1(p.(*SP_Bitvec1), v) }, Get: func(p any) *Val { return get_SP_Bitvec1(p.(*SP_Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Bitvec1)(nil)) }},
	{Name: "Vec1_Bitvec1", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Vec1_Bitvec1, New: func() any { return new([1]Bitvec1) }, Set: func(p any, v *Val) { set_Vec1_Bitvec1(p.(*[1]Bitvec1), v) }, Get: func(p any) *Val { return get_Vec1_Bitvec1(p.(*[1]Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Bitvec1)(nil)) }},
	{Name: "Vec2_Bitvec1", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Vec2_Bitvec1, New: func() any { return new([2]Bitvec1) }, Set: func(p any, v *Val) { set_Vec2_Bitvec1(p.(*[2]Bitvec1), v) }, Get: func(p any) *Val { return get_Vec2_Bitvec1(p.(*[2]Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bitvec1)(nil)) }},
	{Name: "List4_Bitvec1_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_List4_Bitvec1_n0_1_2, New: func() any { return new(List4_Bitvec1_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Bitvec1_n0_1_2(p.(*List4_Bitvec1_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Bitvec1_n0_1_2(p.(*List4_Bitvec1_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Bitvec1_n0_1_2)(nil)) }},
	{Name: "List8589934592_Bitvec1_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_List8589934592_Bitvec1_n0_1, New: func() any { return new(List8589934592_Bitvec1_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Bitvec1_n0_1(p.(*List8589934592_Bitvec1_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Bitvec1_n0_1(p.(*List8589934592_Bitvec1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Bitvec1_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Bitvec1", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Vec2_Vec1_Bitvec1, New: func() any { return new([2][1]Bitvec1) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Bitvec1(p.(*[2][1]Bitvec1), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Bitvec1(p.(*[2][1]Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Bitvec1)(nil)) }},
	{Name: "List2_Vec2_Bitvec1_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List2_Vec2_Bitvec1_n0_1, New: func() any { return new(List2_Vec2_Bitvec1_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Bitvec1_n0_1(p.(*List2_Vec2_Bitvec1_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Bitvec1_n0_1(p.(*List2_Vec2_Bitvec1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Bitvec1_n0_1)(nil)) }},
	{Name: "List2_List2_Bitvec1_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List2_List2_Bitvec1_n0_1_n0_2, New: func() any { return new(List2_List2_Bitvec1_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Bitvec1_n0_1_n0_2(p.(*List2_List2_Bitvec1_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Bitvec1_n0_1_n0_2(p.(*List2_List2_Bitvec1_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Bitvec1_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Bitvec1", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 12, Sch: sch_Sq_Bitvec1, New: func() any { return new(Sq_Bitvec1) }, Set: func(p any, v *Val) { set_Sq_Bitvec1(p.(*Sq_Bitvec1), v) }, Get: func(p any) *Val { return get_Sq_Bitvec1(p.(*Sq_Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Bitvec1)(nil)) }},
	{Name: "Em_Bitvec1", Tier: "", Fam: "squash", Parts: 1, Dec: 9, DecT: 10, Sch: sch_Em_Bitvec1, New: func() any { return new(Em_Bitvec1) }, Set: func(p any, v *Val) { set_Em_Bitvec1(p.(*Em_Bitvec1), v) }, Get: func(p any) *Val { return get_Em_Bitvec1(p.(*Em_Bitvec1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Bitvec1)(nil)) }},
	{Name: "S1_Bitvec9", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_S1_Bitvec9, New: func() any { return new(S1_Bitvec9) }, Set: func(p any, v *Val) { set_S1_Bitvec9(p.(*S1_Bitvec9), v) }, Get: func(p any) *Val { return get_S1_Bitvec9(p.(*S1_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Bitvec9)(nil)) }},
	{Name: "S3_Bitvec9", Tier: "", Fam: "", Parts: 0, Dec: 6, DecT: 6, Sch: sch_S3_Bitvec9, New: func() any { return new(S3_Bitvec9) }, Set: func(p any, v *Val) { set_S3_Bitvec9(p.(*S3_Bitvec9), v) }, Get: func(p any) *Val { return get_S3_Bitvec9(p.(*S3_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Bitvec9)(nil)) }},
	{Name: "SV_Bitvec9", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_SV_Bitvec9, New: func() any { return new(SV_Bitvec9) }, Set: func(p any, v *Val) { set_SV_Bitvec9(p.(*SV_Bitvec9), v) }, Get: func(p any) *Val { return get_SV_Bitvec9(p.(*SV_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Bitvec9)(nil)) }},
	{Name: "SP_Bitvec9", Tier: "", Fam: "ptr", Parts: 1, Dec: 10, DecT: 11, Sch: sch_SP_Bitvec9, New: func() any { return new(SP_Bitvec9) }, Set: func(p any, v *Val) { set_SP_Bitvec9(p.(*SP_Bitvec9), v) }, Get: func(p any) *Val { return get_SP_Bitvec9(p.(*SP_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Bitvec9)(nil)) }},
	{Name: "Vec1_Bitvec9", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Vec1_Bitvec9, New: func() any { return new([1]Bitvec9) }, Set: func(p any, v *Val) { set_Vec1_Bitvec9(p.(*[1]Bitvec9), v) }, Get: func(p any) *Val { return get_Vec1_Bitvec9(p.(*[1]Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Bitvec9)(nil)) }},
	{Name: "List4_Bitvec9_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List4_Bitvec9_n0_1_2, New: func() any { return new(List4_Bitvec9_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Bitvec9_n0_1_2(p.(*List4_Bitvec9_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Bitvec9_n0_1_2(p.(*List4_Bitvec9_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Bitvec9_n0_1_2)(nil)) }},
	{Name: "List8589934592_Bitvec9_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List8589934592_Bitvec9_n0_1, New: func() any { return new(List8589934592_Bitvec9_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Bitvec9_n0_1(p.(*List8589934592_Bitvec9_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Bitvec9_n0_1(p.(*List8589934592_Bitvec9_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Bitvec9_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Bitvec9", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec2_Vec1_Bitvec9, New: func() any { return new([2][1]Bitvec9) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Bitvec9(p.(*[2][1]Bitvec9), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Bitvec9(p.(*[2][1]Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Bitvec9)(nil)) }},
	{Name: "List2_Vec2_Bitvec9_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List2_Vec2_Bitvec9_n0_1, New: func() any { return new(List2_Vec2_Bitvec9_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Bitvec9_n0_1(p.(*List2_Vec2_Bitvec9_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Bitvec9_n0_1(p.(*List2_Vec2_Bitvec9_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Bitvec9_n0_1)(nil)) }},
	{Name: "List2_List2_Bitvec9_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 8, DecT: 9, Sch: sch_List2_List2_Bitvec9_n0_1_n0_2, New: func() any { return new(List2_List2_Bitvec9_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Bitvec9_n0_1_n0_2(p.(*List2_List2_Bitvec9_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Bitvec9_n0_1_n0_2(p.(*List2_List2_Bitvec9_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Bitvec9_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Bitvec9", Tier: "", Fam: "squash", Parts: 1, Dec: 13, DecT: 14, Sch: sch_Sq_Bitvec9, New: func() any { return new(Sq_Bitvec9) }, Set: func(p any, v *Val) { set_Sq_Bitvec9(p.(*Sq_Bitvec9), v) }, Get: func(p any) *Val { return get_Sq_Bitvec9(p.(*Sq_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Bitvec9)(nil)) }},
	{Name: "Em_Bitvec9", Tier: "", Fam: "squash", Parts: 1, Dec: 10, DecT: 11, Sch: sch_Em_Bitvec9, New: func() any { return new(Em_Bitvec9) }, Set: func(p any, v *Val) { set_Em_Bitvec9(p.(*Em_Bitvec9), v) }, Get: func(p any) *Val { return get_Em_Bitvec9(p.(*Em_Bitvec9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Bitvec9)(nil)) }},
	{Name: "S1_Bitvec17", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_S1_Bitvec17, New: func() any { return new(S1_Bitvec17) }, Set: func(p any, v *Val) { set_S1_Bitvec17(p.(*S1_Bitvec17), v) }, Get: func(p any) *Val { return get_S1_Bitvec17(p.(*S1_Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Bitvec17)(nil)) }},
	{Name: "S3_Bitvec17", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_S3_Bitvec17, New: func() any { return new(S3_Bitvec17) }, Set: func(p any, v *Val) { set_S3_Bitvec17(p.(*S3_Bitvec17), v) }, Get: func(p any) *Val { return get_S3_Bitvec17(p.(*S3_Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Bitvec17)(nil)) }},
	{Name: "SV_Bitvec17", Tier: "", Fam: "", Parts: 2, Dec: 18, DecT: 19, Sch: sch_SV_Bitvec17, New: func() any { return new(SV_Bitvec17) }, Set: func(p any, v *Val) { set_SV_Bitvec17(p.(*SV_Bitvec17), v) }, Get: func(p any) *Val { return get_SV_Bitvec17(p.(*SV_Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Bitvec17)(nil)) }},
	{Name: "SP_Bitvec17", Tier: "", Fam: "ptr", Parts: 1, Dec: 11, DecT: 12, Sch: sch_SP_Bitvec17, New: func() any { return new(SP_Bitvec17) }, Set: func(p any, v *Val) { set_SP_Bitvec17(p.(*SP_Bitvec17), v) }, Get: func(p any) *Val { return get_SP_Bitvec17(p.(*SP_Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Bitvec17)(nil)) }},
	{Name: "Vec1_Bitvec17", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Vec1_Bitvec17, New: func() any { return new([1]Bitvec17) }, Set: func(p any, v *Val) { set_Vec1_Bitvec17(p.(*[1]Bitvec17), v) }, Get: func(p any) *Val { return get_Vec1_Bitvec17(p.(*[1]Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Bitvec17)(nil)) }},
	{Name: "Vec2_Bitvec17", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec2_Bitvec17, New: func() any { return new([2]Bitvec17) }, Set: func(p any, v *Val) { set_Vec2_Bitvec17(p.(*[2]Bitvec17), v) }, Get: func(p any) *Val { return get_Vec2_Bitvec17(p.(*[2]Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bitvec17)(nil)) }},
	{Name: "List4_Bitvec17_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List4_Bitvec17_n0_1_2, New: func() any { return new(List4_Bitvec17_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Bitvec17_n0_1_2(p.(*List4_Bitvec17_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Bitvec17_n0_1_2(p.(*List4_Bitvec17_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Bitvec17_n0_1_2)(nil)) }},
	{Name: "List8589934592_Bitvec17_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List8589934592_Bitvec17_n0_1, New: func() any { return new(List8589934592_Bitvec17_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Bitvec17_n0_1(p.(*List8589934592_Bitvec17_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Bitvec17_n0_1(p.(*List8589934592_Bitvec17_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Bitvec17_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Bitvec17", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec2_Vec1_Bitvec17, New: func() any { return new([2][1]Bitvec17) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Bitvec17(p.(*[2][1]Bitvec17), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Bitvec17(p.(*[2][1]Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Bitvec17)(nil)) }},
	{Name: "List2_Vec2_Bitvec17_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List2_Vec2_Bitvec17_n0_1, New: func() any { return new(List2_Vec2_Bitvec17_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Bitvec17_n0_1(p.(*List2_Vec2_Bitvec17_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Bitvec17_n0_1(p.(*List2_Vec2_Bitvec17_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Bitvec17_n0_1)(nil)) }},
	{Name: "List2_List2_Bitvec17_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 9, DecT: 10, Sch: sch_List2_List2_Bitvec17_n0_1_n0_2, New: func() any { return new(List2_List2_Bitvec17_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Bitvec17_n0_1_n0_2(p.(*List2_List2_Bitvec17_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Bitvec17_n0_1_n0_2(p.(*List2_List2_Bitvec17_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Bitvec17_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Bitvec17", Tier: "", Fam: "squash", Parts: 1, Dec: 15, DecT: 16, Sch: sch_Sq_Bitvec17, New: func() any { return new(Sq_Bitvec17) }, Set: func(p any, v *Val) { set_Sq_Bitvec17(p.(*Sq_Bitvec17), v) }, Get: func(p any) *Val { return get_Sq_Bitvec17(p.(*Sq_Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Bitvec17)(nil)) }},
	{Name: "Em_Bitvec17", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 12, Sch: sch_Em_Bitvec17, New: func() any { return new(Em_Bitvec17) }, Set: func(p any, v *Val) { set_Em_Bitvec17(p.(*Em_Bitvec17), v) }, Get: func(p any) *Val { return get_Em_Bitvec17(p.(*Em_Bitvec17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Bitvec17)(nil)) }},
	{Name: "S1_Bitlist9_n0_1_8_9", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_S1_Bitlist9_n0_1_8_9, New: func() any { return new(S1_Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_S1_Bitlist9_n0_1_8_9(p.(*S1_Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_S1_Bitlist9_n0_1_8_9(p.(*S1_Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "S3_Bitlist9_n0_1_8_9", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_S3_Bitlist9_n0_1_8_9, New: func() any { return new(S3_Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_S3_Bitlist9_n0_1_8_9(p.(*S3_Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_S3_Bitlist9_n0_1_8_9(p.(*S3_Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "SV_Bitlist9_n0_1_8_9", Tier: "", Fam: "", Parts: 3, Dec: 16, DecT: 17, Sch: sch_SV_Bitlist9_n0_1_8_9, New: func() any { return new(SV_Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_SV_Bitlist9_n0_1_8_9(p.(*SV_Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_SV_Bitlist9_n0_1_8_9(p.(*SV_Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "SP_Bitlist9_n0_1_8_9", Tier: "", Fam: "ptr", Parts: 2, Dec: 13, DecT: 14, Sch: sch_SP_Bitlist9_n0_1_8_9, New: func() any { return new(SP_Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_SP_Bitlist9_n0_1_8_9(p.(*SP_Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_SP_Bitlist9_n0_1_8_9(p.(*SP_Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "Vec1_Bitlist9_n0_1_8_9", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_Vec1_Bitlist9_n0_1_8_9, New: func() any { return new([1]Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_Vec1_Bitlist9_n0_1_8_9(p.(*[1]Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_Vec1_Bitlist9_n0_1_8_9(p.(*[1]Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "Vec2_Bitlist9_n0_1_8_9", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 13, Sch: sch_Vec2_Bitlist9_n0_1_8_9, New: func() any { return new([2]Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_Vec2_Bitlist9_n0_1_8_9(p.(*[2]Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_Vec2_Bitlist9_n0_1_8_9(p.(*[2]Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "List4_Bitlist9_n0_1_8_9_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List4_Bitlist9_n0_1_8_9_n0_1_2, New: func() any { return new(List4_Bitlist9_n0_1_8_9_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Bitlist9_n0_1_8_9_n0_1_2(p.(*List4_Bitlist9_n0_1_8_9_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Bitlist9_n0_1_8_9_n0_1_2(p.(*List4_Bitlist9_n0_1_8_9_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Bitlist9_n0_1_8_9_n0_1_2)(nil)) }},
	{Name: "List8589934592_Bitlist9_n0_1_8_9_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List8589934592_Bitlist9_n0_1_8_9_n0_1, New: func() any { return new(List8589934592_Bitlist9_n0_1_8_9_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_Bitlist9_n0_1_8_9_n0_1(p.(*List8589934592_Bitlist9_n0_1_8_9_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_Bitlist9_n0_1_8_9_n0_1(p.(*List8589934592_Bitlist9_n0_1_8_9_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Bitlist9_n0_1_8_9_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Bitlist9_n0_1_8_9", Tier: "", Fam: "", Parts: 2, Dec: 20, DecT: 21, Sch: sch_Vec2_Vec1_Bitlist9_n0_1_8_9, New: func() any { return new([2][1]Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Bitlist9_n0_1_8_9(p.(*[2][1]Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Bitlist9_n0_1_8_9(p.(*[2][1]Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "List2_Vec2_Bitlist9_n0_1_8_9_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List2_Vec2_Bitlist9_n0_1_8_9_n0_1, New: func() any { return new(List2_Vec2_Bitlist9_n0_1_8_9_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Bitlist9_n0_1_8_9_n0_1(p.(*List2_Vec2_Bitlist9_n0_1_8_9_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Bitlist9_n0_1_8_9_n0_1(p.(*List2_Vec2_Bitlist9_n0_1_8_9_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Bitlist9_n0_1_8_9_n0_1)(nil)) }},
	{Name: "List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2, New: func() any { return new(List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2(p.(*List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2(p.(*List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Bitlist9_n0_1_8_9", Tier: "", Fam: "squash", Parts: 3, Dec: 18, DecT: 19, Sch: sch_Sq_Bitlist9_n0_1_8_9, New: func() any { return new(Sq_Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_Sq_Bitlist9_n0_1_8_9(p.(*Sq_Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_Sq_Bitlist9_n0_1_8_9(p.(*Sq_Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "Em_Bitlist9_n0_1_8_9", Tier: "", Fam: "squash", Parts: 2, Dec: 13, DecT: 14, Sch: sch_Em_Bitlist9_n0_1_8_9, New: func() any { return new(Em_Bitlist9_n0_1_8_9) }, Set: func(p any, v *Val) { set_Em_Bitlist9_n0_1_8_9(p.(*Em_Bitlist9_n0_1_8_9), v) }, Get: func(p any) *Val { return get_Em_Bitlist9_n0_1_8_9(p.(*Em_Bitlist9_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Bitlist9_n0_1_8_9)(nil)) }},
	{Name: "S1_Bytes5_n0_1_3", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_S1_Bytes5_n0_1_3, New: func() any { return new(S1_Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_S1_Bytes5_n0_1_3(p.(*S1_Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_S1_Bytes5_n0_1_3(p.(*S1_Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Bytes5_n0_1_3)(nil)) }},
	{Name: "S3_Bytes5_n0_1_3", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_S3_Bytes5_n0_1_3, New: func() any { return new(S3_Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_S3_Bytes5_n0_1_3(p.(*S3_Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_S3_Bytes5_n0_1_3(p.(*S3_Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Bytes5_n0_1_3)(nil)) }},
	{Name: "SV_Bytes5_n0_1_3", Tier: "", Fam: "", Parts: 3, Dec: 16, DecT: 17, Sch: sch_SV_Bytes5_n0_1_3, New: func() any { return new(SV_Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_SV_Bytes5_n0_1_3(p.(*SV_Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_SV_Bytes5_n0_1_3(p.(*SV_Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Bytes5_n0_1_3)(nil)) }},
	{Name: "SP_Bytes5_n0_1_3", Tier: "", Fam: "ptr", Parts: 2, Dec: 13, DecT: 14, Sch: sch_SP_Bytes5_n0_1_3, New: func() any { return new(SP_Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_SP_Bytes5_n0_1_3(p.(*SP_Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_SP_Bytes5_n0_1_3(p.(*SP_Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Bytes5_n0_1_3)(nil)) }},
	{Name: "Vec1_Bytes5_n0_1_3", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_Vec1_Bytes5_n0_1_3, New: func() any { return new([1]Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_Vec1_Bytes5_n0_1_3(p.(*[1]Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_Vec1_Bytes5_n0_1_3(p.(*[1]Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Bytes5_n0_1_3)(nil)) }},
	{Name: "Vec2_Bytes5_n0_1_3", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 13, Sch: sch_Vec2_Bytes5_n0_1_3, New: func() any { return new([2]Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_Vec2_Bytes5_n0_1_3(p.(*[2]Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_Vec2_Bytes5_n0_1_3(p.(*[2]Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Bytes5_n0_1_3)(nil)) }},
	{Name: "List4_Bytes5_n0_1_3_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List4_Bytes5_n0_1_3_n0_1_2, New: func() any { return new(List4_Bytes5_n0_1_3_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Bytes5_n0_1_3_n0_1_2(p.(*List4_Bytes5_n0_1_3_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Bytes5_n0_1_3_n0_1_2(p.(*List4_Bytes5_n0_1_3_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Bytes5_n0_1_3_n0_1_2)(nil)) }},
	{Name: "List8589934592_Bytes5_n0_1_3_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List8589934592_Bytes5_n0_1_3_n0_1, New: func() any { return new(List8589934592_Bytes5_n0_1_3_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Bytes5_n0_1_3_n0_1(p.(*List8589934592_Bytes5_n0_1_3_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Bytes5_n0_1_3_n0_1(p.(*List8589934592_Bytes5_n0_1_3_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Bytes5_n0_1_3_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Bytes5_n0_1_3", Tier: "", Fam: "", Parts: 2, Dec: 20, DecT: 21, Sch: sch_Vec2_Vec1_Bytes5_n0_1_3, New: func() any { return new([2][1]Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Bytes5_n0_1_3(p.(*[2][1]Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Bytes5_n0_1_3(p.(*[2][1]Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Bytes5_n0_1_3)(nil)) }},
	{Name: "List2_Vec2_Bytes5_n0_1_3_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List2_Vec2_Bytes5_n0_1_3_n0_1, New: func() any { return new(List2_Vec2_Bytes5_n0_1_3_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Bytes5_n0_1_3_n0_1(p.(*List2_Vec2_Bytes5_n0_1_3_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Bytes5_n0_1_3_n0_1(p.(*List2_Vec2_Bytes5_n0_1_3_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Bytes5_n0_1_3_n0_1)(nil)) }},
	{Name: "List2_List2_Bytes5_n0_1_3_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List2_List2_Bytes5_n0_1_3_n0_1_n0_2, New: func() any { return new(List2_List2_Bytes5_n0_1_3_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_Bytes5_n0_1_3_n0_1_n0_2(p.(*List2_List2_Bytes5_n0_1_3_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_Bytes5_n0_1_3_n0_1_n0_2(p.(*List2_List2_Bytes5_n0_1_3_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Bytes5_n0_1_3_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Bytes5_n0_1_3", Tier: "", Fam: "squash", Parts: 3, Dec: 18, DecT: 19, Sch: sch_Sq_Bytes5_n0_1_3, New: func() any { return new(Sq_Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_Sq_Bytes5_n0_1_3(p.(*Sq_Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_Sq_Bytes5_n0_1_3(p.(*Sq_Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Bytes5_n0_1_3)(nil)) }},
	{Name: "Em_Bytes5_n0_1_3", Tier: "", Fam: "squash", Parts: 2, Dec: 13, DecT: 14, Sch: sch_Em_Bytes5_n0_1_3, New: func() any { return new(Em_Bytes5_n0_1_3) }, Set: func(p any, v *Val) { set_Em_Bytes5_n0_1_3(p.(*Em_Bytes5_n0_1_3), v) }, Get: func(p any) *Val { return get_Em_Bytes5_n0_1_3(p.(*Em_Bytes5_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Bytes5_n0_1_3)(nil)) }},
	{Name: "S1_List3_U16_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_S1_List3_U16_n0_1_2, New: func() any { return new(S1_List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_S1_List3_U16_n0_1_2(p.(*S1_List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_S1_List3_U16_n0_1_2(p.(*S1_List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_List3_U16_n0_1_2)(nil)) }},
	{Name: "S3_List3_U16_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 13, DecT: 14, Sch: sch_S3_List3_U16_n0_1_2, New: func() any { return new(S3_List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_S3_List3_U16_n0_1_2(p.(*S3_List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_S3_List3_U16_n0_1_2(p.(*S3_List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_List3_U16_n0_1_2)(nil)) }},
	{Name: "SV_List3_U16_n0_1_2", Tier: "", Fam: "", Parts: 3, Dec: 22, DecT: 23, Sch: sch_SV_List3_U16_n0_1_2, New: func() any { return new(SV_List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_SV_List3_U16_n0_1_2(p.(*SV_List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_SV_List3_U16_n0_1_2(p.(*SV_List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_List3_U16_n0_1_2)(nil)) }},
	{Name: "SP_List3_U16_n0_1_2", Tier: "", Fam: "ptr", Parts: 2, Dec: 16, DecT: 17, Sch: sch_SP_List3_U16_n0_1_2, New: func() any { return new(SP_List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_SP_List3_U16_n0_1_2(p.(*SP_List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_SP_List3_U16_n0_1_2(p.(*SP_List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_List3_U16_n0_1_2)(nil)) }},
	{Name: "Vec1_List3_U16_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_Vec1_List3_U16_n0_1_2, New: func() any { return new([1]List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_Vec1_List3_U16_n0_1_2(p.(*[1]List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_Vec1_List3_U16_n0_1_2(p.(*[1]List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]List3_U16_n0_1_2)(nil)) }},
	{Name: "Vec2_List3_U16_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 18, DecT: 19, Sch: sch_Vec2_List3_U16_n0_1_2, New: func() any { return new([2]List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_Vec2_List3_U16_n0_1_2(p.(*[2]List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_Vec2_List3_U16_n0_1_2(p.(*[2]List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]List3_U16_n0_1_2)(nil)) }},
	{Name: "List4_List3_U16_n0_1_2_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 10, DecT: 11, Sch: sch_List4_List3_U16_n0_1_2_n0_1_2, New: func() any { return new(List4_List3_U16_n0_1_2_n0_1_2) }, Set: func(p any, v *Val) { set_List4_List3_U16_n0_1_2_n0_1_2(p.(*List4_List3_U16_n0_1_2_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_List3_U16_n0_1_2_n0_1_2(p.(*List4_List3_U16_n0_1_2_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_List3_U16_n0_1_2_n0_1_2)(nil)) }},
	{Name: "List8589934592_List3_U16_n0_1_2_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 10, DecT: 11, Sch: sch_List8589934592_List3_U16_n0_1_2_n0_1, New: func() any { return new(List8589934592_List3_U16_n0_1_2_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_List3_U16_n0_1_2_n0_1(p.(*List8589934592_List3_U16_n0_1_2_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_List3_U16_n0_1_2_n0_1(p.(*List8589934592_List3_U16_n0_1_2_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_List3_U16_n0_1_2_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_List3_U16_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 26, DecT: 27, Sch: sch_Vec2_Vec1_List3_U16_n0_1_2, New: func() any { return new([2][1]List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_Vec2_Vec1_List3_U16_n0_1_2(p.(*[2][1]List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_List3_U16_n0_1_2(p.(*[2][1]List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]List3_U16_n0_1_2)(nil)) }},
	{Name: "List2_Vec2_List3_U16_n0_1_2_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 21, DecT: 22, Sch: sch_List2_Vec2_List3_U16_n0_1_2_n0_1, New: func() any { return new(List2_Vec2_List3_U16_n0_1_2_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_List3_U16_n0_1_2_n0_1(p.(*List2_Vec2_List3_U16_n0_1_2_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_List3_U16_n0_1_2_n0_1(p.(*List2_Vec2_List3_U16_n0_1_2_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_List3_U16_n0_1_2_n0_1)(nil)) }},
	{Name: "List2_List2_List3_U16_n0_1_2_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 13, DecT: 14, Sch: sch_List2_List2_List3_U16_n0_1_2_n0_1_n0_2, New: func() any { return new(List2_List2_List3_U16_n0_1_2_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_List3_U16_n0_1_2_n0_1_n0_2(p.(*List2_List2_List3_U16_n0_1_2_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_List3_U16_n0_1_2_n0_1_n0_2(p.(*List2_List2_List3_U16_n0_1_2_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_List3_U16_n0_1_2_n0_1_n0_2)(nil)) }},
	{Name: "Sq_List3_U16_n0_1_2", Tier: "", Fam: "squash", Parts: 3, Dec: 24, DecT: 25, Sch: sch_Sq_List3_U16_n0_1_2, New: func() any { return new(Sq_List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_Sq_List3_U16_n0_1_2(p.(*Sq_List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_Sq_List3_U16_n0_1_2(p.(*Sq_List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_List3_U16_n0_1_2)(nil)) }},
	{Name: "Em_List3_U16_n0_1_2", Tier: "", Fam: "squash", Parts: 2, Dec: 16, DecT: 17, Sch: sch_Em_List3_U16_n0_1_2, New: func() any { return new(Em_List3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_Em_List3_U16_n0_1_2(p.(*Em_List3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_Em_List3_U16_n0_1_2(p.(*Em_List3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_List3_U16_n0_1_2)(nil)) }},
	{Name: "S1_List3_Bool_n0_2", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_S1_List3_Bool_n0_2, New: func() any { return new(S1_List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_S1_List3_Bool_n0_2(p.(*S1_List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_S1_List3_Bool_n0_2(p.(*S1_List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_List3_Bool_n0_2)(nil)) }},
	{Name: "S3_List3_Bool_n0_2", Tier: "", Fam: "", Parts: 1, Dec: 11, DecT: 12, Sch: sch_S3_List3_Bool_n0_2, New: func() any { return new(S3_List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_S3_List3_Bool_n0_2(p.(*S3_List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_S3_List3_Bool_n0_2(p.(*S3_List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_List3_Bool_n0_2)(nil)) }},
	{Name: "SV_List3_Bool_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 18, DecT: 19, Sch: sch_SV_List3_Bool_n0_2, New: func() any { return new(SV_List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_SV_List3_Bool_n0_2(p.(*SV_List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_SV_List3_Bool_n0_2(p.(*SV_List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_List3_Bool_n0_2)(nil)) }},
	{Name: "SP_List3_Bool_n0_2", Tier: "", Fam: "ptr", Parts: 2, Dec: 14, DecT: 15, Sch: sch_SP_List3_Bool_n0_2, New: func() any { return new(SP_List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_SP_List3_Bool_n0_2(p.(*SP_List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_SP_List3_Bool_n0_2(p.(*SP_List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_List3_Bool_n0_2)(nil)) }},
	{Name: "Vec1_List3_Bool_n0_2", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_Vec1_List3_Bool_n0_2, New: func() any { return new([1]List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_Vec1_List3_Bool_n0_2(p.(*[1]List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_Vec1_List3_Bool_n0_2(p.(*[1]List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]List3_Bool_n0_2)(nil)) }},
	{Name: "Vec2_List3_Bool_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_Vec2_List3_Bool_n0_2, New: func() any { return new([2]List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_Vec2_List3_Bool_n0_2(p.(*[2]List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_Vec2_List3_Bool_n0_2(p.(*[2]List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]List3_Bool_n0_2)(nil)) }},
	{Name: "List4_List3_Bool_n0_2_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 8, DecT: 9, Sch: sch_List4_List3_Bool_n0_2_n0_1_2, New: func() any { return new(List4_List3_Bool_n0_2_n0_1_2) }, Set: func(p any, v *Val) { set_List4_List3_Bool_n0_2_n0_1_2(p.(*List4_List3_Bool_n0_2_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_List3_Bool_n0_2_n0_1_2(p.(*List4_List3_Bool_n0_2_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_List3_Bool_n0_2_n0_1_2)(nil)) }},
	{Name: "List8589934592_List3_Bool_n0_2_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 8, DecT: 9, Sch: sch_List8589934592_List3_Bool_n0_2_n0_1, New: func() any { return new(List8589934592_List3_Bool_n0_2_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_List3_Bool_n0_2_n0_1(p.(*List8589934592_List3_Bool_n0_2_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_List3_Bool_n0_2_n0_1(p.(*List8589934592_List3_Bool_n0_2_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_List3_Bool_n0_2_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_List3_Bool_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 22, DecT: 23, Sch: sch_Vec2_Vec1_List3_Bool_n0_2, New: func() any { return new([2][1]List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_Vec2_Vec1_List3_Bool_n0_2(p.(*[2][1]List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_List3_Bool_n0_2(p.(*[2][1]List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]List3_Bool_n0_2)(nil)) }},
	{Name: "List2_Vec2_List3_Bool_n0_2_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 17, DecT: 18, Sch: sch_List2_Vec2_List3_Bool_n0_2_n0_1, New: func() any { return new(List2_Vec2_List3_Bool_n0_2_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_List3_Bool_n0_2_n0_1(p.(*List2_Vec2_List3_Bool_n0_2_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_List3_Bool_n0_2_n0_1(p.(*List2_Vec2_List3_Bool_n0_2_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_List3_Bool_n0_2_n0_1)(nil)) }},
	{Name: "List2_List2_List3_Bool_n0_2_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 11, DecT: 12, Sch: sch_List2_List2_List3_Bool_n0_2_n0_1_n0_2, New: func() any { return new(List2_List2_List3_Bool_n0_2_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_List3_Bool_n0_2_n0_1_n0_2(p.(*List2_List2_List3_Bool_n0_2_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_List3_Bool_n0_2_n0_1_n0_2(p.(*List2_List2_List3_Bool_n0_2_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_List3_Bool_n0_2_n0_1_n0_2)(nil)) }},
	{Name: "Sq_List3_Bool_n0_2", Tier: "", Fam: "squash", Parts: 3, Dec: 20, DecT: 21, Sch: sch_Sq_List3_Bool_n0_2, New: func() any { return new(Sq_List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_Sq_List3_Bool_n0_2(p.(*Sq_List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_Sq_List3_Bool_n0_2(p.(*Sq_List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_List3_Bool_n0_2)(nil)) }},
	{Name: "Em_List3_Bool_n0_2", Tier: "", Fam: "squash", Parts: 2, Dec: 14, DecT: 15, Sch: sch_Em_List3_Bool_n0_2, New: func() any { return new(Em_List3_Bool_n0_2) }, Set: func(p any, v *Val) { set_Em_List3_Bool_n0_2(p.(*Em_List3_Bool_n0_2), v) }, Get: func(p any) *Val { return get_Em_List3_Bool_n0_2(p.(*Em_List3_Bool_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_List3_Bool_n0_2)(nil)) }},
	{Name: "S1_List5_U64_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_S1_List5_U64_n0_1, New: func() any { return new(S1_List5_U64_n0_1) }, Set: func(p any, v *Val) { set_S1_List5_U64_n0_1(p.(*S1_List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_S1_List5_U64_n0_1(p.(*S1_List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_List5_U64_n0_1)(nil)) }},
	{Name: "S3_List5_U64_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 17, DecT: 18, Sch: sch_S3_List5_U64_n0_1, New: func() any { return new(S3_List5_U64_n0_1) }, Set: func(p any, v *Val) { set_S3_List5_U64_n0_1(p.(*S3_List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_S3_List5_U64_n0_1(p.(*S3_List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_List5_U64_n0_1)(nil)) }},
	{Name: "SV_List5_U64_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 30, DecT: 31, Sch: sch_SV_List5_U64_n0_1, New: func() any { return new(SV_List5_U64_n0_1) }, Set: func(p any, v *Val) { set_SV_List5_U64_n0_1(p.(*SV_List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_SV_List5_U64_n0_1(p.(*SV_List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_List5_U64_n0_1)(nil)) }},
	{Name: "SP_List5_U64_n0_1", Tier: "", Fam: "ptr", Parts: 2, Dec: 20, DecT: 21, Sch: sch_SP_List5_U64_n0_1, New: func() any { return new(SP_List5_U64_n0_1) }, Set: func(p any, v *Val) { set_SP_List5_U64_n0_1(p.(*SP_List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_SP_List5_U64_n0_1(p.(*SP_List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_List5_U64_n0_1)(nil)) }},
	{Name: "Vec1_List5_U64_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_Vec1_List5_U64_n0_1, New: func() any { return new([1]List5_U64_n0_1) }, Set: func(p any, v *Val) { set_Vec1_List5_U64_n0_1(p.(*[1]List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_Vec1_List5_U64_n0_1(p.(*[1]List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]List5_U64_n0_1)(nil)) }},
	{Name: "Vec2_List5_U64_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 26, DecT: 27, Sch: sch_Vec2_List5_U64_n0_1, New: func() any { return new([2]List5_U64_n0_1) }, Set: func(p any, v *Val) { set_Vec2_List5_U64_n0_1(p.(*[2]List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_Vec2_List5_U64_n0_1(p.(*[2]List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]List5_U64_n0_1)(nil)) }},
	{Name: "List4_List5_U64_n0_1_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_List4_List5_U64_n0_1_n0_1_2, New: func() any { return new(List4_List5_U64_n0_1_n0_1_2) }, Set: func(p any, v *Val) { set_List4_List5_U64_n0_1_n0_1_2(p.(*List4_List5_U64_n0_1_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_List5_U64_n0_1_n0_1_2(p.(*List4_List5_U64_n0_1_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_List5_U64_n0_1_n0_1_2)(nil)) }},
	{Name: "List8589934592_List5_U64_n0_1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_List8589934592_List5_U64_n0_1_n0_1, New: func() any { return new(List8589934592_List5_U64_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_List5_U64_n0_1_n0_1(p.(*List8589934592_List5_U64_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_List5_U64_n0_1_n0_1(p.(*List8589934592_List5_U64_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_List5_U64_n0_1_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_List5_U64_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 34, DecT: 35, Sch: sch_Vec2_Vec1_List5_U64_n0_1, New: func() any { return new([2][1]List5_U64_n0_1) }, Set: func(p any, v *Val) { set_Vec2_Vec1_List5_U64_n0_1(p.(*[2][1]List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_List5_U64_n0_1(p.(*[2][1]List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]List5_U64_n0_1)(nil)) }},
	{Name: "List2_Vec2_List5_U64_n0_1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 29, DecT: 30, Sch: sch_List2_Vec2_List5_U64_n0_1_n0_1, New: func() any { return new(List2_Vec2_List5_U64_n0_1_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_List5_U64_n0_1_n0_1(p.(*List2_Vec2_List5_U64_n0_1_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_List5_U64_n0_1_n0_1(p.(*List2_Vec2_List5_U64_n0_1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_List5_U64_n0_1_n0_1)(nil)) }},
	{Name: "List2_List2_List5_U64_n0_1_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 17, DecT: 18, Sch: sch_List2_List2_List5_U64_n0_1_n0_1_n0_2, New: func() any { return new(List2_List2_List5_U64_n0_1_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_List5_U64_n0_1_n0_1_n0_2(p.(*List2_List2_List5_U64_n0_1_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_List5_U64_n0_1_n0_1_n0_2(p.(*List2_List2_List5_U64_n0_1_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_List5_U64_n0_1_n0_1_n0_2)(nil)) }},
	{Name: "Sq_List5_U64_n0_1", Tier: "", Fam: "squash", Parts: 3, Dec: 32, DecT: 33, Sch: sch_Sq_List5_U64_n0_1, New: func() any { return new(Sq_List5_U64_n0_1) }, Set: func(p any, v *Val) { set_Sq_List5_U64_n0_1(p.(*Sq_List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_Sq_List5_U64_n0_1(p.(*Sq_List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_List5_U64_n0_1)(nil)) }},
	{Name: "Em_List5_U64_n0_1", Tier: "", Fam: "squash", Parts: 2, Dec: 20, DecT: 21, Sch: sch_Em_List5_U64_n0_1, New: func() any { return new(Em_List5_U64_n0_1) }, Set: func(p any, v *Val) { set_Em_List5_U64_n0_1(p.(*Em_List5_U64_n0_1), v) }, Get: func(p any) *Val { return get_Em_List5_U64_n0_1(p.(*Em_List5_U64_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_List5_U64_n0_1)(nil)) }},
	{Name: "S1_Vec3_U16", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_S1_Vec3_U16, New: func() any { return new(S1_Vec3_U16) }, Set: func(p any, v *Val) { set_S1_Vec3_U16(p.(*S1_Vec3_U16), v) }, Get: func(p any) *Val { return get_S1_Vec3_U16(p.(*S1_Vec3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Vec3_U16)(nil)) }},
	{Name: "S3_Vec3_U16", Tier: "", Fam: "", Parts: 0, Dec: 10, DecT: 10, Sch: sch_S3_Vec3_U16, New: func() any { return new(S3_Vec3_U16) }, Set: func(p any, v *Val) { set_S3_Vec3_U16(p.(*S3_Vec3_U16), v) }, Get: func(p any) *Val { return get_S3_Vec3_U16(p.(*S3_Vec3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Vec3_U16)(nil)) }},
	{Name: "SV_Vec3_U16", Tier: "", Fam: "", Parts: 2, Dec: 24, DecT: 25, Sch: sch_SV_Vec3_U16, New: func() any { return new(SV_Vec3_U16) }, Set: func(p any, v *Val) { set_SV_Vec3_U16(p.(*SV_Vec3_U16), v) }, Get: func(p any) *Val { return get_SV_Vec3_U16(p.(*SV_Vec3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Vec3_U16)(nil)) }},
	{Name: "SP_Vec3_U16", Tier: "", Fam: "ptr", Parts: 1, Dec: 14, DecT: 15, Sch: sch_SP_Vec3_U16, New: func() any { return new(SP_Vec3_U16) }, Set: func(p any, v *Val) { set_SP_Vec3_U16(p.(*SP_Vec3_U16), v) }, Get: func(p any) *Val { return get_SP_Vec3_U16(p.(*SP_Vec3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Vec3_U16)(nil)) }},
	{Name: "Vec1_Vec3_U16", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec1_Vec3_U16, New: func() any { return new([1][3]uint16) }, Set: func(p any, v *Val) { set_Vec1_Vec3_U16(p.(*[1][3]uint16), v) }, Get: func(p any) *Val { return get_Vec1_Vec3_U16(p.(*[1][3]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][3]uint16)(nil)) }},
	{Name: "Vec2_Vec3_U16", Tier: "", Fam: "", Parts: 0, Dec: 13, DecT: 13, Sch: sch_Vec2_Vec3_U16, New: func() any { return new([2][3]uint16) }, Set: func(p any, v *Val) { set_Vec2_Vec3_U16(p.(*[2][3]uint16), v) }, Get: func(p any) *Val { return get_Vec2_Vec3_U16(p.(*[2][3]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][3]uint16)(nil)) }},
	{Name: "List4_Vec3_U16_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List4_Vec3_U16_n0_1_2, New: func() any { return new(List4_Vec3_U16_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Vec3_U16_n0_1_2(p.(*List4_Vec3_U16_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Vec3_U16_n0_1_2(p.(*List4_Vec3_U16_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Vec3_U16_n0_1_2)(nil)) }},
	{Name: "List8589934592_Vec3_U16_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List8589934592_Vec3_U16_n0_1, New: func() any { return new(List8589934592_Vec3_U16_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Vec3_U16_n0_1(p.(*List8589934592_Vec3_U16_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Vec3_U16_n0_1(p.(*List8589934592_Vec3_U16_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Vec3_U16_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Vec3_U16", Tier: "", Fam: "", Parts: 0, Dec: 13, DecT: 13, Sch: sch_Vec2_Vec1_Vec3_U16, New: func() any { return new([2][1][3]uint16) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Vec3_U16(p.(*[2][1][3]uint16), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Vec3_U16(p.(*[2][1][3]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][3]uint16)(nil)) }},
	{Name: "List2_Vec2_Vec3_U16_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_List2_Vec2_Vec3_U16_n0_1, New: func() any { return new(List2_Vec2_Vec3_U16_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Vec3_U16_n0_1(p.(*List2_Vec2_Vec3_U16_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Vec3_U16_n0_1(p.(*List2_Vec2_Vec3_U16_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Vec3_U16_n0_1)(nil)) }},
	{Name: "List2_List2_Vec3_U16_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 13, Sch: sch_List2_List2_Vec3_U16_n0_1_n0_2, New: func() any { return new(List2_List2_Vec3_U16_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Vec3_U16_n0_1_n0_2(p.(*List2_List2_Vec3_U16_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Vec3_U16_n0_1_n0_2(p.(*List2_List2_Vec3_U16_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Vec3_U16_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Vec3_U16", Tier: "", Fam: "squash", Parts: 1, Dec: 21, DecT: 22, Sch: sch_Sq_Vec3_U16, New: func() any { return new(Sq_Vec3_U16) }, Set: func(p any, v *Val) { set_Sq_Vec3_U16(p.(*Sq_Vec3_U16), v) }, Get: func(p any) *Val { return get_Sq_Vec3_U16(p.(*Sq_Vec3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Vec3_U16)(nil)) }},
	{Name: "Em_Vec3_U16", Tier: "", Fam: "squash", Parts: 1, Dec: 14, DecT: 15, Sch: sch_Em_Vec3_U16, New: func() any { return new(Em_Vec3_U16) }, Set: func(p any, v *Val) { set_Em_Vec3_U16(p.(*Em_Vec3_U16), v) }, Get: func(p any) *Val { return get_Em_Vec3_U16(p.(*Em_Vec3_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Vec3_U16)(nil)) }},
	{Name: "S1_Vec2_Bool", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_S1_Vec2_Bool, New: func() any { return new(S1_Vec2_Bool) }, Set: func(p any, v *Val) { set_S1_Vec2_Bool(p.(*S1_Vec2_Bool), v) }, Get: func(p any) *Val { return get_S1_Vec2_Bool(p.(*S1_Vec2_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Vec2_Bool)(nil)) }},
	{Name: "S3_Vec2_Bool", Tier: "", Fam: "", Parts: 0, Dec: 6, DecT: 6, Sch: sch_S3_Vec2_Bool, New: func() any { return new(S3_Vec2_Bool) }, Set: func(p any, v *Val) { set_S3_Vec2_Bool(p.(*S3_Vec2_Bool), v) }, Get: func(p any) *Val { return get_S3_Vec2_Bool(p.(*S3_Vec2_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Vec2_Bool)(nil)) }},
	{Name: "SV_Vec2_Bool", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_SV_Vec2_Bool, New: func() any { return new(SV_Vec2_Bool) }, Set: func(p any, v *Val) { set_SV_Vec2_Bool(p.(*SV_Vec2_Bool), v) }, Get: func(p any) *Val { return get_SV_Vec2_Bool(p.(*SV_Vec2_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Vec2_Bool)(nil)) }},
	{Name: "SP_Vec2_Bool", Tier: "", Fam: "ptr", Parts: 1, Dec: 10, DecT: 11, Sch: sch_SP_Vec2_Bool, New: func() any { return new(SP_Vec2_Bool) }, Set: func(p any, v *Val) { set_SP_Vec2_Bool(p.(*SP_Vec2_Bool), v) }, Get: func(p any) *Val { return get_SP_Vec2_Bool(p.(*SP_Vec2_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Vec2_Bool)(nil)) }},
	{Name: "Vec1_Vec2_Bool", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Vec1_Vec2_Bool, New: func() any { return new([1][2]bool) }, Set: func(p any, v *Val) { set_Vec1_Vec2_Bool(p.(*[1][2]bool), v) }, Get: func(p any) *Val { return get_Vec1_Vec2_Bool(p.(*[1][2]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][2]bool)(nil)) }},
	{Name: "Vec2_Vec2_Bool", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec2_Vec2_Bool, New: func() any { return new([2][2]bool) }, Set: func(p any, v *Val) { set_Vec2_Vec2_Bool(p.(*[2][2]bool), v) }, Get: func(p any) *Val { return get_Vec2_Vec2_Bool(p.(*[2][2]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][2]bool)(nil)) }},
	{Name: "List4_Vec2_Bool_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List4_Vec2_Bool_n0_1_2, New: func() any { return new(List4_Vec2_Bool_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Vec2_Bool_n0_1_2(p.(*List4_Vec2_Bool_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Vec2_Bool_n0_1_2(p.(*List4_Vec2_Bool_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Vec2_Bool_n0_1_2)(nil)) }},
	{Name: "List8589934592_Vec2_Bool_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List8589934592_Vec2_Bool_n0_1, New: func() any { return new(List8589934592_Vec2_Bool_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Vec2_Bool_n0_1(p.(*List8589934592_Vec2_Bool_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Vec2_Bool_n0_1(p.(*List8589934592_Vec2_Bool_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Vec2_Bool_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Vec2_Bool", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Vec2_Vec1_Vec2_Bool, New: func() any { return new([2][1][2]bool) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Vec2_Bool(p.(*[2][1][2]bool), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Vec2_Bool(p.(*[2][1][2]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][2]bool)(nil)) }},
	{Name: "List2_Vec2_Vec2_Bool_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List2_Vec2_Vec2_Bool_n0_1, New: func() any { return new(List2_Vec2_Vec2_Bool_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Vec2_Bool_n0_1(p.(*List2_Vec2_Vec2_Bool_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Vec2_Bool_n0_1(p.(*List2_Vec2_Vec2_Bool_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Vec2_Bool_n0_1)(nil)) }},
	{Name: "List2_List2_Vec2_Bool_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 8, DecT: 9, Sch: sch_List2_List2_Vec2_Bool_n0_1_n0_2, New: func() any { return new(List2_List2_Vec2_Bool_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Vec2_Bool_n0_1_n0_2(p.(*List2_List2_Vec2_Bool_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Vec2_Bool_n0_1_n0_2(p.(*List2_List2_Vec2_Bool_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Vec2_Bool_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Vec2_Bool", Tier: "", Fam: "squash", Parts: 1, Dec: 13, DecT: 14, Sch: sch_Sq_Vec2_Bool, New: func() any { return new(Sq_Vec2_Bool) }, Set: func(p any, v *Val) { set_Sq_Vec2_Bool(p.(*Sq_Vec2_Bool), v) }, Get: func(p any) *Val { return get_Sq_Vec2_Bool(p.(*Sq_Vec2_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Vec2_Bool)(nil)) }},
	{Name: "Em_Vec2_Bool", Tier: "", Fam: "squash", Parts: 1, Dec: 10, DecT: 11, Sch: sch_Em_Vec2_Bool, New: func() any { return new(Em_Vec2_Bool) }, Set: func(p any, v *Val) { set_Em_Vec2_Bool(p.(*Em_Vec2_Bool), v) }, Get: func(p any) *Val { return get_Em_Vec2_Bool(p.(*Em_Vec2_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Vec2_Bool)(nil)) }},
	{Name: "S1_Small", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_S1_Small, New: func() any { return new(S1_Small) }, Set: func(p any, v *Val) { set_S1_Small(p.(*S1_Small), v) }, Get: func(p any) *Val { return get_S1_Small(p.(*S1_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Small)(nil)) }},
	{Name: "S3_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_S3_Small, New: func() any { return new(S3_Small) }, Set: func(p any, v *Val) { set_S3_Small(p.(*S3_Small), v) }, Get: func(p any) *Val { return get_S3_Small(p.(*S3_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Small)(nil)) }},
	{Name: "SV_Small", Tier: "", Fam: "", Parts: 2, Dec: 18, DecT: 19, Sch: sch_SV_Small, New: func() any { return new(SV_Small) }, Set: func(p any, v *Val) { set_SV_Small(p.(*SV_Small), v) }, Get: func(p any) *Val { return get_SV_Small(p.(*SV_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Small)(nil)) }},
	{Name: "SP_Small", Tier: "", Fam: "ptr", Parts: 1, Dec: 11, DecT: 12, Sch: sch_SP_Small, New: func() any { return new(SP_Small) }, Set: func(p any, v *Val) { set_SP_Small(p.(*SP_Small), v) }, Get: func(p any) *Val { return get_SP_Small(p.(*SP_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Small)(nil)) }},
	{Name: "Vec1_Small", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Vec1_Small, New: func() any { return new([1]Small) }, Set: func(p any, v *Val) { set_Vec1_Small(p.(*[1]Small), v) }, Get: func(p any) *Val { return get_Vec1_Small(p.(*[1]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Small)(nil)) }},
	{Name: "List4_Small_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List4_Small_n0_1_2, New: func() any { return new(List4_Small_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Small_n0_1_2(p.(*List4_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Small_n0_1_2(p.(*List4_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Small_n0_1_2)(nil)) }},
	{Name: "List8589934592_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List8589934592_Small_n0_1, New: func() any { return new(List8589934592_Small_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Small_n0_1(p.(*List8589934592_Small_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Small_n0_1(p.(*List8589934592_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Small_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec2_Vec1_Small, New: func() any { return new([2][1]Small) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Small(p.(*[2][1]Small), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Small(p.(*[2][1]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Small)(nil)) }},
	{Name: "List2_Vec2_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List2_Vec2_Small_n0_1, New: func() any { return new(List2_Vec2_Small_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Small_n0_1(p.(*List2_Vec2_Small_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Small_n0_1(p.(*List2_Vec2_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Small_n0_1)(nil)) }},
	{Name: "List2_List2_Small_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 9, DecT: 10, Sch: sch_List2_List2_Small_n0_1_n0_2, New: func() any { return new(List2_List2_Small_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Small_n0_1_n0_2(p.(*List2_List2_Small_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Small_n0_1_n0_2(p.(*List2_List2_Small_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Small_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Small", Tier: "", Fam: "squash", Parts: 1, Dec: 15, DecT: 16, Sch: sch_Sq_Small, New: func() any { return new(Sq_Small) }, Set: func(p any, v *Val) { set_Sq_Small(p.(*Sq_Small), v) }, Get: func(p any) *Val { return get_Sq_Small(p.(*Sq_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Small)(nil)) }},
	{Name: "Em_Small", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 12, Sch: sch_Em_Small, New: func() any { return new(Em_Small) }, Set: func(p any, v *Val) { set_Em_Small(p.(*Em_Small), v) }, Get: func(p any) *Val { return get_Em_Small(p.(*Em_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Small)(nil)) }},
	{Name: "S1_Var1", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_S1_Var1, New: func() any { return new(S1_Var1) }, Set: func(p any, v *Val) { set_S1_Var1(p.(*S1_Var1), v) }, Get: func(p any) *Val { return get_S1_Var1(p.(*S1_Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Var1)(nil)) }},
	{Name: "S3_Var1", Tier: "", Fam: "", Parts: 1, Dec: 17, DecT: 18, Sch: sch_S3_Var1, New: func() any { return new(S3_Var1) }, Set: func(p any, v *Val) { set_S3_Var1(p.(*S3_Var1), v) }, Get: func(p any) *Val { return get_S3_Var1(p.(*S3_Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Var1)(nil)) }},
	{Name: "SV_Var1", Tier: "", Fam: "", Parts: 3, Dec: 30, DecT: 31, Sch: sch_SV_Var1, New: func() any { return new(SV_Var1) }, Set: func(p any, v *Val) { set_SV_Var1(p.(*SV_Var1), v) }, Get: func(p any) *Val { return get_SV_Var1(p.(*SV_Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Var1)(nil)) }},
	{Name: "SP_Var1", Tier: "", Fam: "ptr", Parts: 2, Dec: 20, DecT: 21, Sch: sch_SP_Var1, New: func() any { return new(SP_Var1) }, Set: func(p any, v *Val) { set_SP_Var1(p.(*SP_Var1), v) }, Get: func(p any) *Val { return get_SP_Var1(p.(*SP_Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Var1)(nil)) }},
	{Name: "Vec1_Var1", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_Vec1_Var1, New: func() any { return new([1]Var1) }, Set: func(p any, v *Val) { set_Vec1_Var1(p.(*[1]Var1), v) }, Get: func(p any) *Val { return get_Vec1_Var1(p.(*[1]Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Var1)(nil)) }},
	{Name: "Vec2_Var1", Tier: "", Fam: "", Parts: 2, Dec: 26, DecT: 27, Sch: sch_Vec2_Var1, New: func() any { return new([2]Var1) }, Set: func(p any, v *Val) { set_Vec2_Var1(p.(*[2]Var1), v) }, Get: func(p any) *Val { return get_Vec2_Var1(p.(*[2]Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Var1)(nil)) }},
	{Name: "List4_Var1_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_List4_Var1_n0_1_2, New: func() any { return new(List4_Var1_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Var1_n0_1_2(p.(*List4_Var1_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Var1_n0_1_2(p.(*List4_Var1_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Var1_n0_1_2)(nil)) }},
	{Name: "List8589934592_Var1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_List8589934592_Var1_n0_1, New: func() any { return new(List8589934592_Var1_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Var1_n0_1(p.(*List8589934592_Var1_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Var1_n0_1(p.(*List8589934592_Var1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Var1_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Var1", Tier: "", Fam: "", Parts: 2, Dec: 34, DecT: 35, Sch: sch_Vec2_Vec1_Var1, New: func() any { return new([2][1]Var1) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Var1(p.(*[2][1]Var1), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Var1(p.(*[2][1]Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Var1)(nil)) }},
	{Name: "List2_Vec2_Var1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 29, DecT: 30, Sch: sch_List2_Vec2_Var1_n0_1, New: func() any { return new(List2_Vec2_Var1_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Var1_n0_1(p.(*List2_Vec2_Var1_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Var1_n0_1(p.(*List2_Vec2_Var1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Var1_n0_1)(nil)) }},
	{Name: "List2_List2_Var1_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 17, DecT: 18, Sch: sch_List2_List2_Var1_n0_1_n0_2, New: func() any { return new(List2_List2_Var1_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Var1_n0_1_n0_2(p.(*List2_List2_Var1_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Var1_n0_1_n0_2(p.(*List2_List2_Var1_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Var1_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Var1", Tier: "", Fam: "squash", Parts: 3, Dec: 32, DecT: 33, Sch: sch_Sq_Var1, New: func() any { return new(Sq_Var1) }, Set: func(p any, v *Val) { set_Sq_Var1(p.(*Sq_Var1), v) }, Get: func(p any) *Val { return get_Sq_Var1(p.(*Sq_Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Var1)(nil)) }},
	{Name: "Em_Var1", Tier: "", Fam: "squash", Parts: 2, Dec: 20, DecT: 21, Sch: sch_Em_Var1, New: func() any { return new(Em_Var1) }, Set: func(p any, v *Val) { set_Em_Var1(p.(*Em_Var1), v) }, Get: func(p any) *Val { return get_Em_Var1(p.(*Em_Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Var1)(nil)) }},
	{Name: "S1_Var2Only", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_S1_Var2Only, New: func() any { return new(S1_Var2Only) }, Set: func(p any, v *Val) { set_S1_Var2Only(p.(*S1_Var2Only), v) }, Get: func(p any) *Val { return get_S1_Var2Only(p.(*S1_Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Var2Only)(nil)) }},
	{Name: "S3_Var2Only", Tier: "", Fam: "", Parts: 2, Dec: 19, DecT: 20, Sch: sch_S3_Var2Only, New: func() any { return new(S3_Var2Only) }, Set: func(p any, v *Val) { set_S3_Var2Only(p.(*S3_Var2Only), v) }, Get: func(p any) *Val { return get_S3_Var2Only(p.(*S3_Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Var2Only)(nil)) }},
	{Name: "SV_Var2Only", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 35, Sch: sch_SV_Var2Only, New: func() any { return new(SV_Var2Only) }, Set: func(p any, v *Val) { set_SV_Var2Only(p.(*SV_Var2Only), v) }, Get: func(p any) *Val { return get_SV_Var2Only(p.(*SV_Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Var2Only)(nil)) }},
	{Name: "SP_Var2Only", Tier: "", Fam: "ptr", Parts: 3, Dec: 21, DecT: 22, Sch: sch_SP_Var2Only, New: func() any { return new(SP_Var2Only) }, Set: func(p any, v *Val) { set_SP_Var2Only(p.(*SP_Var2Only), v) }, Get: func(p any) *Val { return get_SP_Var2Only(p.(*SP_Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Var2Only)(nil)) }},
	{Name: "Vec1_Var2Only", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_Vec1_Var2Only, New: func() any { return new([1]Var2Only) }, Set: func(p any, v *Val) { set_Vec1_Var2Only(p.(*[1]Var2Only), v) }, Get: func(p any) *Val { return get_Vec1_Var2Only(p.(*[1]Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]Var2Only)(nil)) }},
	{Name: "Vec2_Var2Only", Tier: "", Fam: "", Parts: 4, Dec: 29, DecT: 30, Sch: sch_Vec2_Var2Only, New: func() any { return new([2]Var2Only) }, Set: func(p any, v *Val) { set_Vec2_Var2Only(p.(*[2]Var2Only), v) }, Get: func(p any) *Val { return get_Vec2_Var2Only(p.(*[2]Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Var2Only)(nil)) }},
	{Name: "List4_Var2Only_n0_1_2", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List4_Var2Only_n0_1_2, New: func() any { return new(List4_Var2Only_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Var2Only_n0_1_2(p.(*List4_Var2Only_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Var2Only_n0_1_2(p.(*List4_Var2Only_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Var2Only_n0_1_2)(nil)) }},
	{Name: "List8589934592_Var2Only_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List8589934592_Var2Only_n0_1, New: func() any { return new(List8589934592_Var2Only_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Var2Only_n0_1(p.(*List8589934592_Var2Only_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Var2Only_n0_1(p.(*List8589934592_Var2Only_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Var2Only_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Var2Only", Tier: "", Fam: "", Parts: 4, Dec: 37, DecT: 38, Sch: sch_Vec2_Vec1_Var2Only, New: func() any { return new([2][1]Var2Only) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Var2Only(p.(*[2][1]Var2Only), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Var2Only(p.(*[2][1]Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]Var2Only)(nil)) }},
	{Name: "List2_Vec2_Var2Only_n0_1", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 34, Sch: sch_List2_Vec2_Var2Only_n0_1, New: func() any { return new(List2_Vec2_Var2Only_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Var2Only_n0_1(p.(*List2_Vec2_Var2Only_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Var2Only_n0_1(p.(*List2_Vec2_Var2Only_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Var2Only_n0_1)(nil)) }},
	{Name: "List2_List2_Var2Only_n0_1_n0_2", Tier: "", Fam: "", Parts: 4, Dec: 19, DecT: 20, Sch: sch_List2_List2_Var2Only_n0_1_n0_2, New: func() any { return new(List2_List2_Var2Only_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Var2Only_n0_1_n0_2(p.(*List2_List2_Var2Only_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Var2Only_n0_1_n0_2(p.(*List2_List2_Var2Only_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Var2Only_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Var2Only", Tier: "", Fam: "squash", Parts: 5, Dec: 0, DecT: 37, Sch: sch_Sq_Var2Only, New: func() any { return new(Sq_Var2Only) }, Set: func(p any, v *Val) { set_Sq_Var2Only(p.(*Sq_Var2Only), v) }, Get: func(p any) *Val { return get_Sq_Var2Only(p.(*Sq_Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Var2Only)(nil)) }},
	{Name: "Em_Var2Only", Tier: "", Fam: "squash", Parts: 3, Dec: 21, DecT: 22, Sch: sch_Em_Var2Only, New: func() any { return new(Em_Var2Only) }, Set: func(p any, v *Val) { set_Em_Var2Only(p.(*Em_Var2Only), v) }, Get: func(p any) *Val { return get_Em_Var2Only(p.(*Em_Var2Only)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Var2Only)(nil)) }},
	{Name: "S1_Ptr_Small", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_S1_Ptr_Small, New: func() any { return new(S1_Ptr_Small) }, Set: func(p any, v *Val) { set_S1_Ptr_Small(p.(*S1_Ptr_Small), v) }, Get: func(p any) *Val { return get_S1_Ptr_Small(p.(*S1_Ptr_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Ptr_Small)(nil)) }},
	{Name: "S3_Ptr_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_S3_Ptr_Small, New: func() any { return new(S3_Ptr_Small) }, Set: func(p any, v *Val) { set_S3_Ptr_Small(p.(*S3_Ptr_Small), v) }, Get: func(p any) *Val { return get_S3_Ptr_Small(p.(*S3_Ptr_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Ptr_Small)(nil)) }},
	{Name: "SV_Ptr_Small", Tier: "", Fam: "", Parts: 2, Dec: 18, DecT: 19, Sch: sch_SV_Ptr_Small, New: func() any { return new(SV_Ptr_Small) }, Set: func(p any, v *Val) { set_SV_Ptr_Small(p.(*SV_Ptr_Small), v) }, Get: func(p any) *Val { return get_SV_Ptr_Small(p.(*SV_Ptr_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Ptr_Small)(nil)) }},
	{Name: "SP_Ptr_Small", Tier: "", Fam: "ptr", Parts: 1, Dec: 11, DecT: 12, Sch: sch_SP_Ptr_Small, New: func() any { return new(SP_Ptr_Small) }, Set: func(p any, v *Val) { set_SP_Ptr_Small(p.(*SP_Ptr_Small), v) }, Get: func(p any) *Val { return get_SP_Ptr_Small(p.(*SP_Ptr_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Ptr_Small)(nil)) }},
	{Name: "Vec1_Ptr_Small", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Vec1_Ptr_Small, New: func() any { return new([1]*Small) }, Set: func(p any, v *Val) { set_Vec1_Ptr_Small(p.(*[1]*Small), v) }, Get: func(p any) *Val { return get_Vec1_Ptr_Small(p.(*[1]*Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]*Small)(nil)) }},
	{Name: "List4_Ptr_Small_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List4_Ptr_Small_n0_1_2, New: func() any { return new(List4_Ptr_Small_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Ptr_Small_n0_1_2(p.(*List4_Ptr_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Ptr_Small_n0_1_2(p.(*List4_Ptr_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Ptr_Small_n0_1_2)(nil)) }},
	{Name: "List8589934592_Ptr_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List8589934592_Ptr_Small_n0_1, New: func() any { return new(List8589934592_Ptr_Small_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Ptr_Small_n0_1(p.(*List8589934592_Ptr_Small_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Ptr_Small_n0_1(p.(*List8589934592_Ptr_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Ptr_Small_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Ptr_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec2_Vec1_Ptr_Small, New: func() any { return new([2][1]*Small) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Ptr_Small(p.(*[2][1]*Small), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Ptr_Small(p.(*[2][1]*Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]*Small)(nil)) }},
	{Name: "List2_Vec2_Ptr_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List2_Vec2_Ptr_Small_n0_1, New: func() any { return new(List2_Vec2_Ptr_Small_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Ptr_Small_n0_1(p.(*List2_Vec2_Ptr_Small_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Ptr_Small_n0_1(p.(*List2_Vec2_Ptr_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Ptr_Small_n0_1)(nil)) }},
	{Name: "List2_List2_Ptr_Small_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 9, DecT: 10, Sch: sch_List2_List2_Ptr_Small_n0_1_n0_2, New: func() any { return new(List2_List2_Ptr_Small_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Ptr_Small_n0_1_n0_2(p.(*List2_List2_Ptr_Small_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Ptr_Small_n0_1_n0_2(p.(*List2_List2_Ptr_Small_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Ptr_Small_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Ptr_Small", Tier: "", Fam: "squash", Parts: 1, Dec: 15, DecT: 16, Sch: sch_Sq_Ptr_Small, New: func() any { return new(Sq_Ptr_Small) }, Set: func(p any, v *Val) { set_Sq_Ptr_Small(p.(*Sq_Ptr_Small), v) }, Get: func(p any) *Val { return get_Sq_Ptr_Small(p.(*Sq_Ptr_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Ptr_Small)(nil)) }},
	{Name: "Em_Ptr_Small", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 12, Sch: sch_Em_Ptr_Small, New: func() any { return new(Em_Ptr_Small) }, Set: func(p any, v *Val) { set_Em_Ptr_Small(p.(*Em_Ptr_Small), v) }, Get: func(p any) *Val { return get_Em_Ptr_Small(p.(*Em_Ptr_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Ptr_Small)(nil)) }},
	{Name: "S1_Ptr_Var2", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_S1_Ptr_Var2, New: func() any { return new(S1_Ptr_Var2) }, Set: func(p any, v *Val) { set_S1_Ptr_Var2(p.(*S1_Ptr_Var2), v) }, Get: func(p any) *Val { return get_S1_Ptr_Var2(p.(*S1_Ptr_Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Ptr_Var2)(nil)) }},
	{Name: "S3_Ptr_Var2", Tier: "", Fam: "", Parts: 1, Dec: 17, DecT: 18, Sch: sch_S3_Ptr_Var2, New: func() any { return new(S3_Ptr_Var2) }, Set: func(p any, v *Val) { set_S3_Ptr_Var2(p.(*S3_Ptr_Var2), v) }, Get: func(p any) *Val { return get_S3_Ptr_Var2(p.(*S3_Ptr_Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Ptr_Var2)(nil)) }},
	{Name: "SV_Ptr_Var2", Tier: "", Fam: "", Parts: 3, Dec: 30, DecT: 31, Sch: sch_SV_Ptr_Var2, New: func() any { return new(SV_Ptr_Var2) }, Set: func(p any, v *Val) { set_SV_Ptr_Var2(p.(*SV_Ptr_Var2), v) }, Get: func(p any) *Val { return get_SV_Ptr_Var2(p.(*SV_Ptr_Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Ptr_Var2)(nil)) }},
	{Name: "SP_Ptr_Var2", Tier: "", Fam: "ptr", Parts: 2, Dec: 20, DecT: 21, Sch: sch_SP_Ptr_Var2, New: func() any { return new(SP_Ptr_Var2) }, Set: func(p any, v *Val) { set_SP_Ptr_Var2(p.(*SP_Ptr_Var2), v) }, Get: func(p any) *Val { return get_SP_Ptr_Var2(p.(*SP_Ptr_Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Ptr_Var2)(nil)) }},
	{Name: "Vec1_Ptr_Var2", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_Vec1_Ptr_Var2, New: func() any { return new([1]*Var2) }, Set: func(p any, v *Val) { set_Vec1_Ptr_Var2(p.(*[1]*Var2), v) }, Get: func(p any) *Val { return get_Vec1_Ptr_Var2(p.(*[1]*Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]*Var2)(nil)) }},
	{Name: "Vec2_Ptr_Var2", Tier: "", Fam: "", Parts: 2, Dec: 26, DecT: 27, Sch: sch_Vec2_Ptr_Var2, New: func() any { return new([2]*Var2) }, Set: func(p any, v *Val) { set_Vec2_Ptr_Var2(p.(*[2]*Var2), v) }, Get: func(p any) *Val { return get_Vec2_Ptr_Var2(p.(*[2]*Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]*Var2)(nil)) }},
	{Name: "List4_Ptr_Var2_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_List4_Ptr_Var2_n0_1_2, New: func() any { return new(List4_Ptr_Var2_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Ptr_Var2_n0_1_2(p.(*List4_Ptr_Var2_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Ptr_Var2_n0_1_2(p.(*List4_Ptr_Var2_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Ptr_Var2_n0_1_2)(nil)) }},
	{Name: "List8589934592_Ptr_Var2_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_List8589934592_Ptr_Var2_n0_1, New: func() any { return new(List8589934592_Ptr_Var2_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Ptr_Var2_n0_1(p.(*List8589934592_Ptr_Var2_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Ptr_Var2_n0_1(p.(*List8589934592_Ptr_Var2_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Ptr_Var2_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Ptr_Var2", Tier: "", Fam: "", Parts: 2, Dec: 34, DecT: 35, Sch: sch_Vec2_Vec1_Ptr_Var2, New: func() any { return new([2][1]*Var2) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Ptr_Var2(p.(*[2][1]*Var2), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Ptr_Var2(p.(*[2][1]*Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]*Var2)(nil)) }},
	{Name: "List2_Vec2_Ptr_Var2_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 29, DecT: 30, Sch: sch_List2_Vec2_Ptr_Var2_n0_1, New: func() any { return new(List2_Vec2_Ptr_Var2_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Ptr_Var2_n0_1(p.(*List2_Vec2_Ptr_Var2_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Ptr_Var2_n0_1(p.(*List2_Vec2_Ptr_Var2_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Ptr_Var2_n0_1)(nil)) }},
	{Name: "List2_List2_Ptr_Var2_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 17, DecT: 18, Sch: sch_List2_List2_Ptr_Var2_n0_1_n0_2, New: func() any { return new(List2_List2_Ptr_Var2_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Ptr_Var2_n0_1_n0_2(p.(*List2_List2_Ptr_Var2_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Ptr_Var2_n0_1_n0_2(p.(*List2_List2_Ptr_Var2_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Ptr_Var2_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Ptr_Var2", Tier: "", Fam: "squash", Parts: 3, Dec: 32, DecT: 33, Sch: sch_Sq_Ptr_Var2, New: func() any { return new(Sq_Ptr_Var2) }, Set: func(p any, v *Val) { set_Sq_Ptr_Var2(p.(*Sq_Ptr_Var2), v) }, Get: func(p any) *Val { return get_Sq_Ptr_Var2(p.(*Sq_Ptr_Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Ptr_Var2)(nil)) }},
	{Name: "Em_Ptr_Var2", Tier: "", Fam: "squash", Parts: 2, Dec: 20, DecT: 21, Sch: sch_Em_Ptr_Var2, New: func() any { return new(Em_Ptr_Var2) }, Set: func(p any, v *Val) { set_Em_Ptr_Var2(p.(*Em_Ptr_Var2), v) }, Get: func(p any) *Val { return get_Em_Ptr_Var2(p.(*Em_Ptr_Var2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Ptr_Var2)(nil)) }},
	{Name: "S1_Ptr_Bytes3_g1", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_S1_Ptr_Bytes3_g1, New: func() any { return new(S1_Ptr_Bytes3_g1) }, Set: func(p any, v *Val) { set_S1_Ptr_Bytes3_g1(p.(*S1_Ptr_Bytes3_g1), v) }, Get: func(p any) *Val { return get_S1_Ptr_Bytes3_g1(p.(*S1_Ptr_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Ptr_Bytes3_g1)(nil)) }},
	{Name: "S3_Ptr_Bytes3_g1", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_S3_Ptr_Bytes3_g1, New: func() any { return new(S3_Ptr_Bytes3_g1) }, Set: func(p any, v *Val) { set_S3_Ptr_Bytes3_g1(p.(*S3_Ptr_Bytes3_g1), v) }, Get: func(p any) *Val { return get_S3_Ptr_Bytes3_g1(p.(*S3_Ptr_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Ptr_Bytes3_g1)(nil)) }},
	{Name: "SV_Ptr_Bytes3_g1", Tier: "", Fam: "", Parts: 3, Dec: 16, DecT: 17, Sch: sch_SV_Ptr_Bytes3_g1, New: func() any { return new(SV_Ptr_Bytes3_g1) }, Set: func(p any, v *Val) { set_SV_Ptr_Bytes3_g1(p.(*SV_Ptr_Bytes3_g1), v) }, Get: func(p any) *Val { return get_SV_Ptr_Bytes3_g1(p.(*SV_Ptr_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Ptr_Bytes3_g1)(nil)) }},
	{Name: "SP_Ptr_Bytes3_g1", Tier: "", Fam: "ptr", Parts: 2, Dec: 13, DecT: 14, Sch: sch_SP_Ptr_Bytes3_g1, New: func() any { return new(SP_Ptr_Bytes3_g1) }, Set: func(p any, v *Val) { set_SP_Ptr_Bytes3_g1(p.(*SP_Ptr_Bytes3_g1), v) }, Get: func(p any) *Val { return get_SP_Ptr_Bytes3_g1(p.(*SP_Ptr_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Ptr_Bytes3_g1)(nil)) }},
	{Name: "Vec1_Ptr_Bytes3_g1", Tier: "", Fam: "", Parts: 1, Dec: 7, DecT: 8, Sch: sch_Vec1_Ptr_Bytes3_g1, New: func() any { return new([1]*Bytes3_g1) }, Set: func(p any, v *Val) { set_Vec1_Ptr_Bytes3_g1(p.(*[1]*Bytes3_g1), v) }, Get: func(p any) *Val { return get_Vec1_Ptr_Bytes3_g1(p.(*[1]*Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]*Bytes3_g1)(nil)) }},
	{Name: "Vec2_Ptr_Bytes3_g1", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 13, Sch: sch_Vec2_Ptr_Bytes3_g1, New: func() any { return new([2]*Bytes3_g1) }, Set: func(p any, v *Val) { set_Vec2_Ptr_Bytes3_g1(p.(*[2]*Bytes3_g1), v) }, Get: func(p any) *Val { return get_Vec2_Ptr_Bytes3_g1(p.(*[2]*Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]*Bytes3_g1)(nil)) }},
	{Name: "List4_Ptr_Bytes3_g1_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List4_Ptr_Bytes3_g1_n0_1_2, New: func() any { return new(List4_Ptr_Bytes3_g1_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Ptr_Bytes3_g1_n0_1_2(p.(*List4_Ptr_Bytes3_g1_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Ptr_Bytes3_g1_n0_1_2(p.(*List4_Ptr_Bytes3_g1_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Ptr_Bytes3_g1_n0_1_2)(nil)) }},
	{Name: "List8589934592_Ptr_Bytes3_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List8589934592_Ptr_Bytes3_g1_n0_1, New: func() any { return new(List8589934592_Ptr_Bytes3_g1_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Ptr_Bytes3_g1_n0_1(p.(*List8589934592_Ptr_Bytes3_g1_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Ptr_Bytes3_g1_n0_1(p.(*List8589934592_Ptr_Bytes3_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Ptr_Bytes3_g1_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Ptr_Bytes3_g1", Tier: "", Fam: "", Parts: 2, Dec: 20, DecT: 21, Sch: sch_Vec2_Vec1_Ptr_Bytes3_g1, New: func() any { return new([2][1]*Bytes3_g1) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Ptr_Bytes3_g1(p.(*[2][1]*Bytes3_g1), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Ptr_Bytes3_g1(p.(*[2][1]*Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]*Bytes3_g1)(nil)) }},
	{Name: "List2_Vec2_Ptr_Bytes3_g1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List2_Vec2_Ptr_Bytes3_g1_n0_1, New: func() any { return new(List2_Vec2_Ptr_Bytes3_g1_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Ptr_Bytes3_g1_n0_1(p.(*List2_Vec2_Ptr_Bytes3_g1_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Ptr_Bytes3_g1_n0_1(p.(*List2_Vec2_Ptr_Bytes3_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Ptr_Bytes3_g1_n0_1)(nil)) }},
	{Name: "List2_List2_Ptr_Bytes3_g1_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List2_List2_Ptr_Bytes3_g1_n0_1_n0_2, New: func() any { return new(List2_List2_Ptr_Bytes3_g1_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_Ptr_Bytes3_g1_n0_1_n0_2(p.(*List2_List2_Ptr_Bytes3_g1_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_Ptr_Bytes3_g1_n0_1_n0_2(p.(*List2_List2_Ptr_Bytes3_g1_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Ptr_Bytes3_g1_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Ptr_Bytes3_g1", Tier: "", Fam: "squash", Parts: 3, Dec: 18, DecT: 19, Sch: sch_Sq_Ptr_Bytes3_g1, New: func() any { return new(Sq_Ptr_Bytes3_g1) }, Set: func(p any, v *Val) { set_Sq_Ptr_Bytes3_g1(p.(*Sq_Ptr_Bytes3_g1), v) }, Get: func(p any) *Val { return get_Sq_Ptr_Bytes3_g1(p.(*Sq_Ptr_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Ptr_Bytes3_g1)(nil)) }},
	{Name: "Em_Ptr_Bytes3_g1", Tier: "", Fam: "squash", Parts: 2, Dec: 13, DecT: 14, Sch: sch_Em_Ptr_Bytes3_g1, New: func() any { return new(Em_Ptr_Bytes3_g1) }, Set: func(p any, v *Val) { set_Em_Ptr_Bytes3_g1(p.(*Em_Ptr_Bytes3_g1), v) }, Get: func(p any) *Val { return get_Em_Ptr_Bytes3_g1(p.(*Em_Ptr_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Ptr_Bytes3_g1)(nil)) }},
	{Name: "S1_List3_Small_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 9, DecT: 10, Sch: sch_S1_List3_Small_n0_1_2, New: func() any { return new(S1_List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_S1_List3_Small_n0_1_2(p.(*S1_List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_S1_List3_Small_n0_1_2(p.(*S1_List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_List3_Small_n0_1_2)(nil)) }},
	{Name: "S3_List3_Small_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 12, DecT: 13, Sch: sch_S3_List3_Small_n0_1_2, New: func() any { return new(S3_List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_S3_List3_Small_n0_1_2(p.(*S3_List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_S3_List3_Small_n0_1_2(p.(*S3_List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_List3_Small_n0_1_2)(nil)) }},
	{Name: "SV_List3_Small_n0_1_2", Tier: "", Fam: "", Parts: 3, Dec: 20, DecT: 21, Sch: sch_SV_List3_Small_n0_1_2, New: func() any { return new(SV_List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_SV_List3_Small_n0_1_2(p.(*SV_List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_SV_List3_Small_n0_1_2(p.(*SV_List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_List3_Small_n0_1_2)(nil)) }},
	{Name: "SP_List3_Small_n0_1_2", Tier: "", Fam: "ptr", Parts: 2, Dec: 15, DecT: 16, Sch: sch_SP_List3_Small_n0_1_2, New: func() any { return new(SP_List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_SP_List3_Small_n0_1_2(p.(*SP_List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_SP_List3_Small_n0_1_2(p.(*SP_List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_List3_Small_n0_1_2)(nil)) }},
	{Name: "Vec1_List3_Small_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 9, DecT: 10, Sch: sch_Vec1_List3_Small_n0_1_2, New: func() any { return new([1]List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_Vec1_List3_Small_n0_1_2(p.(*[1]List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_Vec1_List3_Small_n0_1_2(p.(*[1]List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]List3_Small_n0_1_2)(nil)) }},
	{Name: "Vec2_List3_Small_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_Vec2_List3_Small_n0_1_2, New: func() any { return new([2]List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_Vec2_List3_Small_n0_1_2(p.(*[2]List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_Vec2_List3_Small_n0_1_2(p.(*[2]List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]List3_Small_n0_1_2)(nil)) }},
	{Name: "List4_List3_Small_n0_1_2_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 9, DecT: 10, Sch: sch_List4_List3_Small_n0_1_2_n0_1_2, New: func() any { return new(List4_List3_Small_n0_1_2_n0_1_2) }, Set: func(p any, v *Val) { set_List4_List3_Small_n0_1_2_n0_1_2(p.(*List4_List3_Small_n0_1_2_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_List3_Small_n0_1_2_n0_1_2(p.(*List4_List3_Small_n0_1_2_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_List3_Small_n0_1_2_n0_1_2)(nil)) }},
	{Name: "List8589934592_List3_Small_n0_1_2_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 9, DecT: 10, Sch: sch_List8589934592_List3_Small_n0_1_2_n0_1, New: func() any { return new(List8589934592_List3_Small_n0_1_2_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_List3_Small_n0_1_2_n0_1(p.(*List8589934592_List3_Small_n0_1_2_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_List3_Small_n0_1_2_n0_1(p.(*List8589934592_List3_Small_n0_1_2_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_List3_Small_n0_1_2_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_List3_Small_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 24, DecT: 25, Sch: sch_Vec2_Vec1_List3_Small_n0_1_2, New: func() any { return new([2][1]List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_Vec2_Vec1_List3_Small_n0_1_2(p.(*[2][1]List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_List3_Small_n0_1_2(p.(*[2][1]List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]List3_Small_n0_1_2)(nil)) }},
	{Name: "List2_Vec2_List3_Small_n0_1_2_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 19, DecT: 20, Sch: sch_List2_Vec2_List3_Small_n0_1_2_n0_1, New: func() any { return new(List2_Vec2_List3_Small_n0_1_2_n0_1) }, Set: func(p any, v *Val) {
		set_List2_Vec2_List3_Small_n0_1_2_n0_1(p.(*List2_Vec2_List3_Small_n0_1_2_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List2_Vec2_List3_Small_n0_1_2_n0_1(p.(*List2_Vec2_List3_Small_n0_1_2_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_List3_Small_n0_1_2_n0_1)(nil)) }},
	{Name: "List2_List2_List3_Small_n0_1_2_n0_1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 12, DecT: 13, Sch: sch_List2_List2_List3_Small_n0_1_2_n0_1_n0_2, New: func() any { return new(List2_List2_List3_Small_n0_1_2_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_List3_Small_n0_1_2_n0_1_n0_2(p.(*List2_List2_List3_Small_n0_1_2_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_List3_Small_n0_1_2_n0_1_n0_2(p.(*List2_List2_List3_Small_n0_1_2_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_List3_Small_n0_1_2_n0_1_n0_2)(nil)) }},
	{Name: "Sq_List3_Small_n0_1_2", Tier: "", Fam: "squash", Parts: 3, Dec: 22, DecT: 23, Sch: sch_Sq_List3_Small_n0_1_2, New: func() any { return new(Sq_List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_Sq_List3_Small_n0_1_2(p.(*Sq_List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_Sq_List3_Small_n0_1_2(p.(*Sq_List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_List3_Small_n0_1_2)(nil)) }},
	{Name: "Em_List3_Small_n0_1_2", Tier: "", Fam: "squash", Parts: 2, Dec: 15, DecT: 16, Sch: sch_Em_List3_Small_n0_1_2, New: func() any { return new(Em_List3_Small_n0_1_2) }, Set: func(p any, v *Val) { set_Em_List3_Small_n0_1_2(p.(*Em_List3_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_Em_List3_Small_n0_1_2(p.(*Em_List3_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_List3_Small_n0_1_2)(nil)) }},
	{Name: "S1_List3_Bytes2_g1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 11, DecT: 12, Sch: sch_S1_List3_Bytes2_g1_n0_2, New: func() any { return new(S1_List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_S1_List3_Bytes2_g1_n0_2(p.(*S1_List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_S1_List3_Bytes2_g1_n0_2(p.(*S1_List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "S3_List3_Bytes2_g1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 14, DecT: 15, Sch: sch_S3_List3_Bytes2_g1_n0_2, New: func() any { return new(S3_List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_S3_List3_Bytes2_g1_n0_2(p.(*S3_List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_S3_List3_Bytes2_g1_n0_2(p.(*S3_List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "SV_List3_Bytes2_g1_n0_2", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 25, Sch: sch_SV_List3_Bytes2_g1_n0_2, New: func() any { return new(SV_List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_SV_List3_Bytes2_g1_n0_2(p.(*SV_List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_SV_List3_Bytes2_g1_n0_2(p.(*SV_List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "SP_List3_Bytes2_g1_n0_2", Tier: "", Fam: "ptr", Parts: 3, Dec: 16, DecT: 17, Sch: sch_SP_List3_Bytes2_g1_n0_2, New: func() any { return new(SP_List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_SP_List3_Bytes2_g1_n0_2(p.(*SP_List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_SP_List3_Bytes2_g1_n0_2(p.(*SP_List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "Vec1_List3_Bytes2_g1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 11, DecT: 12, Sch: sch_Vec1_List3_Bytes2_g1_n0_2, New: func() any { return new([1]List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_Vec1_List3_Bytes2_g1_n0_2(p.(*[1]List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_Vec1_List3_Bytes2_g1_n0_2(p.(*[1]List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1]List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "Vec2_List3_Bytes2_g1_n0_2", Tier: "", Fam: "", Parts: 4, Dec: 19, DecT: 20, Sch: sch_Vec2_List3_Bytes2_g1_n0_2, New: func() any { return new([2]List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_Vec2_List3_Bytes2_g1_n0_2(p.(*[2]List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_Vec2_List3_Bytes2_g1_n0_2(p.(*[2]List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "List4_List3_Bytes2_g1_n0_2_n0_1_2", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List4_List3_Bytes2_g1_n0_2_n0_1_2, New: func() any { return new(List4_List3_Bytes2_g1_n0_2_n0_1_2) }, Set: func(p any, v *Val) { set_List4_List3_Bytes2_g1_n0_2_n0_1_2(p.(*List4_List3_Bytes2_g1_n0_2_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_List3_Bytes2_g1_n0_2_n0_1_2(p.(*List4_List3_Bytes2_g1_n0_2_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_List3_Bytes2_g1_n0_2_n0_1_2)(nil)) }},
	{Name: "List8589934592_List3_Bytes2_g1_n0_2_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List8589934592_List3_Bytes2_g1_n0_2_n0_1, New: func() any { return new(List8589934592_List3_Bytes2_g1_n0_2_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_List3_Bytes2_g1_n0_2_n0_1(p.(*List8589934592_List3_Bytes2_g1_n0_2_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_List3_Bytes2_g1_n0_2_n0_1(p.(*List8589934592_List3_Bytes2_g1_n0_2_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_List3_Bytes2_g1_n0_2_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_List3_Bytes2_g1_n0_2", Tier: "", Fam: "", Parts: 4, Dec: 27, DecT: 28, Sch: sch_Vec2_Vec1_List3_Bytes2_g1_n0_2, New: func() any { return new([2][1]List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_Vec2_Vec1_List3_Bytes2_g1_n0_2(p.(*[2][1]List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_List3_Bytes2_g1_n0_2(p.(*[2][1]List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1]List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "List2_Vec2_List3_Bytes2_g1_n0_2_n0_1", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 24, Sch: sch_List2_Vec2_List3_Bytes2_g1_n0_2_n0_1, New: func() any { return new(List2_Vec2_List3_Bytes2_g1_n0_2_n0_1) }, Set: func(p any, v *Val) {
		set_List2_Vec2_List3_Bytes2_g1_n0_2_n0_1(p.(*List2_Vec2_List3_Bytes2_g1_n0_2_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List2_Vec2_List3_Bytes2_g1_n0_2_n0_1(p.(*List2_Vec2_List3_Bytes2_g1_n0_2_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_List3_Bytes2_g1_n0_2_n0_1)(nil)) }},
	{Name: "List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2", Tier: "", Fam: "", Parts: 4, Dec: 14, DecT: 15, Sch: sch_List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2, New: func() any { return new(List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2(p.(*List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2(p.(*List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2)(nil)) }},
	{Name: "Sq_List3_Bytes2_g1_n0_2", Tier: "", Fam: "squash", Parts: 5, Dec: 0, DecT: 27, Sch: sch_Sq_List3_Bytes2_g1_n0_2, New: func() any { return new(Sq_List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_Sq_List3_Bytes2_g1_n0_2(p.(*Sq_List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_Sq_List3_Bytes2_g1_n0_2(p.(*Sq_List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "Em_List3_Bytes2_g1_n0_2", Tier: "", Fam: "squash", Parts: 3, Dec: 16, DecT: 17, Sch: sch_Em_List3_Bytes2_g1_n0_2, New: func() any { return new(Em_List3_Bytes2_g1_n0_2) }, Set: func(p any, v *Val) { set_Em_List3_Bytes2_g1_n0_2(p.(*Em_List3_Bytes2_g1_n0_2), v) }, Get: func(p any) *Val { return get_Em_List3_Bytes2_g1_n0_2(p.(*Em_List3_Bytes2_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_List3_Bytes2_g1_n0_2)(nil)) }},
	{Name: "S1_Vec2_Bytes3_g1", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_S1_Vec2_Bytes3_g1, New: func() any { return new(S1_Vec2_Bytes3_g1) }, Set: func(p any, v *Val) { set_S1_Vec2_Bytes3_g1(p.(*S1_Vec2_Bytes3_g1), v) }, Get: func(p any) *Val { return get_S1_Vec2_Bytes3_g1(p.(*S1_Vec2_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Vec2_Bytes3_g1)(nil)) }},
	{Name: "S3_Vec2_Bytes3_g1", Tier: "", Fam: "", Parts: 2, Dec: 19, DecT: 20, Sch: sch_S3_Vec2_Bytes3_g1, New: func() any { return new(S3_Vec2_Bytes3_g1) }, Set: func(p any, v *Val) { set_S3_Vec2_Bytes3_g1(p.(*S3_Vec2_Bytes3_g1), v) }, Get: func(p any) *Val { return get_S3_Vec2_Bytes3_g1(p.(*S3_Vec2_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Vec2_Bytes3_g1)(nil)) }},
	{Name: "SV_Vec2_Bytes3_g1", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 35, Sch: sch_SV_Vec2_Bytes3_g1, New: func() any { return new(SV_Vec2_Bytes3_g1) }, Set: func(p any, v *Val) { set_SV_Vec2_Bytes3_g1(p.(*SV_Vec2_Bytes3_g1), v) }, Get: func(p any) *Val { return get_SV_Vec2_Bytes3_g1(p.(*SV_Vec2_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Vec2_Bytes3_g1)(nil)) }},
	{Name: "SP_Vec2_Bytes3_g1", Tier: "", Fam: "ptr", Parts: 3, Dec: 21, DecT: 22, Sch: sch_SP_Vec2_Bytes3_g1, New: func() any { return new(SP_Vec2_Bytes3_g1) }, Set: func(p any, v *Val) { set_SP_Vec2_Bytes3_g1(p.(*SP_Vec2_Bytes3_g1), v) }, Get: func(p any) *Val { return get_SP_Vec2_Bytes3_g1(p.(*SP_Vec2_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Vec2_Bytes3_g1)(nil)) }},
	{Name: "Vec1_Vec2_Bytes3_g1", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_Vec1_Vec2_Bytes3_g1, New: func() any { return new([1][2]Bytes3_g1) }, Set: func(p any, v *Val) { set_Vec1_Vec2_Bytes3_g1(p.(*[1][2]Bytes3_g1), v) }, Get: func(p any) *Val { return get_Vec1_Vec2_Bytes3_g1(p.(*[1][2]Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][2]Bytes3_g1)(nil)) }},
	{Name: "Vec2_Vec2_Bytes3_g1", Tier: "", Fam: "", Parts: 4, Dec: 29, DecT: 30, Sch: sch_Vec2_Vec2_Bytes3_g1, New: func() any { return new([2][2]Bytes3_g1) }, Set: func(p any, v *Val) { set_Vec2_Vec2_Bytes3_g1(p.(*[2][2]Bytes3_g1), v) }, Get: func(p any) *Val { return get_Vec2_Vec2_Bytes3_g1(p.(*[2][2]Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][2]Bytes3_g1)(nil)) }},
	{Name: "List4_Vec2_Bytes3_g1_n0_1_2", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List4_Vec2_Bytes3_g1_n0_1_2, New: func() any { return new(List4_Vec2_Bytes3_g1_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Vec2_Bytes3_g1_n0_1_2(p.(*List4_Vec2_Bytes3_g1_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Vec2_Bytes3_g1_n0_1_2(p.(*List4_Vec2_Bytes3_g1_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Vec2_Bytes3_g1_n0_1_2)(nil)) }},
	{Name: "List8589934592_Vec2_Bytes3_g1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 15, DecT: 16, Sch: sch_List8589934592_Vec2_Bytes3_g1_n0_1, New: func() any { return new(List8589934592_Vec2_Bytes3_g1_n0_1) }, Set: func(p any, v *Val) {
		set_List8589934592_Vec2_Bytes3_g1_n0_1(p.(*List8589934592_Vec2_Bytes3_g1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List8589934592_Vec2_Bytes3_g1_n0_1(p.(*List8589934592_Vec2_Bytes3_g1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Vec2_Bytes3_g1_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Vec2_Bytes3_g1", Tier: "", Fam: "", Parts: 4, Dec: 37, DecT: 38, Sch: sch_Vec2_Vec1_Vec2_Bytes3_g1, New: func() any { return new([2][1][2]Bytes3_g1) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Vec2_Bytes3_g1(p.(*[2][1][2]Bytes3_g1), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Vec2_Bytes3_g1(p.(*[2][1][2]Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][2]Bytes3_g1)(nil)) }},
	{Name: "List2_Vec2_Vec2_Bytes3_g1_n0_1", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 34, Sch: sch_List2_Vec2_Vec2_Bytes3_g1_n0_1, New: func() any { return new(List2_Vec2_Vec2_Bytes3_g1_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Vec2_Bytes3_g1_n0_1(p.(*List2_Vec2_Vec2_Bytes3_g1_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Vec2_Bytes3_g1_n0_1(p.(*List2_Vec2_Vec2_Bytes3_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Vec2_Bytes3_g1_n0_1)(nil)) }},
	{Name: "List2_List2_Vec2_Bytes3_g1_n0_1_n0_2", Tier: "", Fam: "", Parts: 4, Dec: 19, DecT: 20, Sch: sch_List2_List2_Vec2_Bytes3_g1_n0_1_n0_2, New: func() any { return new(List2_List2_Vec2_Bytes3_g1_n0_1_n0_2) }, Set: func(p any, v *Val) {
		set_List2_List2_Vec2_Bytes3_g1_n0_1_n0_2(p.(*List2_List2_Vec2_Bytes3_g1_n0_1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_Vec2_Bytes3_g1_n0_1_n0_2(p.(*List2_List2_Vec2_Bytes3_g1_n0_1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Vec2_Bytes3_g1_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Vec2_Bytes3_g1", Tier: "", Fam: "squash", Parts: 5, Dec: 0, DecT: 37, Sch: sch_Sq_Vec2_Bytes3_g1, New: func() any { return new(Sq_Vec2_Bytes3_g1) }, Set: func(p any, v *Val) { set_Sq_Vec2_Bytes3_g1(p.(*Sq_Vec2_Bytes3_g1), v) }, Get: func(p any) *Val { return get_Sq_Vec2_Bytes3_g1(p.(*Sq_Vec2_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Vec2_Bytes3_g1)(nil)) }},
	{Name: "Em_Vec2_Bytes3_g1", Tier: "", Fam: "squash", Parts: 3, Dec: 21, DecT: 22, Sch: sch_Em_Vec2_Bytes3_g1, New: func() any { return new(Em_Vec2_Bytes3_g1) }, Set: func(p any, v *Val) { set_Em_Vec2_Bytes3_g1(p.(*Em_Vec2_Bytes3_g1), v) }, Get: func(p any) *Val { return get_Em_Vec2_Bytes3_g1(p.(*Em_Vec2_Bytes3_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Vec2_Bytes3_g1)(nil)) }},
	{Name: "S1_Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_S1_Vec2_Small, New: func() any { return new(S1_Vec2_Small) }, Set: func(p any, v *Val) { set_S1_Vec2_Small(p.(*S1_Vec2_Small), v) }, Get: func(p any) *Val { return get_S1_Vec2_Small(p.(*S1_Vec2_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S1_Vec2_Small)(nil)) }},
	{Name: "S3_Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 10, DecT: 10, Sch: sch_S3_Vec2_Small, New: func() any { return new(S3_Vec2_Small) }, Set: func(p any, v *Val) { set_S3_Vec2_Small(p.(*S3_Vec2_Small), v) }, Get: func(p any) *Val { return get_S3_Vec2_Small(p.(*S3_Vec2_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*S3_Vec2_Small)(nil)) }},
	{Name: "SV_Vec2_Small", Tier: "", Fam: "", Parts: 2, Dec: 24, DecT: 25, Sch: sch_SV_Vec2_Small, New: func() any { return new(SV_Vec2_Small) }, Set: func(p any, v *Val) { set_SV_Vec2_Small(p.(*SV_Vec2_Small), v) }, Get: func(p any) *Val { return get_SV_Vec2_Small(p.(*SV_Vec2_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SV_Vec2_Small)(nil)) }},
	{Name: "SP_Vec2_Small", Tier: "", Fam: "ptr", Parts: 1, Dec: 14, DecT: 15, Sch: sch_SP_Vec2_Small, New: func() any { return new(SP_Vec2_Small) }, Set: func(p any, v *Val) { set_SP_Vec2_Small(p.(*SP_Vec2_Small), v) }, Get: func(p any) *Val { return get_SP_Vec2_Small(p.(*SP_Vec2_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SP_Vec2_Small)(nil)) }},
	{Name: "Vec1_Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec1_Vec2_Small, New: func() any { return new([1][2]Small) }, Set: func(p any, v *Val) { set_Vec1_Vec2_Small(p.(*[1][2]Small), v) }, Get: func(p any) *Val { return get_Vec1_Vec2_Small(p.(*[1][2]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1][2]Small)(nil)) }},
	{Name: "Vec2_Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 13, DecT: 13, Sch: sch_Vec2_Vec2_Small, New: func() any { return new([2][2]Small) }, Set: func(p any, v *Val) { set_Vec2_Vec2_Small(p.(*[2][2]Small), v) }, Get: func(p any) *Val { return get_Vec2_Vec2_Small(p.(*[2][2]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][2]Small)(nil)) }},
	{Name: "List4_Vec2_Small_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List4_Vec2_Small_n0_1_2, New: func() any { return new(List4_Vec2_Small_n0_1_2) }, Set: func(p any, v *Val) { set_List4_Vec2_Small_n0_1_2(p.(*List4_Vec2_Small_n0_1_2), v) }, Get: func(p any) *Val { return get_List4_Vec2_Small_n0_1_2(p.(*List4_Vec2_Small_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Vec2_Small_n0_1_2)(nil)) }},
	{Name: "List8589934592_Vec2_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List8589934592_Vec2_Small_n0_1, New: func() any { return new(List8589934592_Vec2_Small_n0_1) }, Set: func(p any, v *Val) { set_List8589934592_Vec2_Small_n0_1(p.(*List8589934592_Vec2_Small_n0_1), v) }, Get: func(p any) *Val { return get_List8589934592_Vec2_Small_n0_1(p.(*List8589934592_Vec2_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8589934592_Vec2_Small_n0_1)(nil)) }},
	{Name: "Vec2_Vec1_Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 13, DecT: 13, Sch: sch_Vec2_Vec1_Vec2_Small, New: func() any { return new([2][1][2]Small) }, Set: func(p any, v *Val) { set_Vec2_Vec1_Vec2_Small(p.(*[2][1][2]Small), v) }, Get: func(p any) *Val { return get_Vec2_Vec1_Vec2_Small(p.(*[2][1][2]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][1][2]Small)(nil)) }},
	{Name: "List2_Vec2_Vec2_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 14, DecT: 15, Sch: sch_List2_Vec2_Vec2_Small_n0_1, New: func() any { return new(List2_Vec2_Vec2_Small_n0_1) }, Set: func(p any, v *Val) { set_List2_Vec2_Vec2_Small_n0_1(p.(*List2_Vec2_Vec2_Small_n0_1), v) }, Get: func(p any) *Val { return get_List2_Vec2_Vec2_Small_n0_1(p.(*List2_Vec2_Vec2_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Vec2_Small_n0_1)(nil)) }},
	{Name: "List2_List2_Vec2_Small_n0_1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 12, DecT: 13, Sch: sch_List2_List2_Vec2_Small_n0_1_n0_2, New: func() any { return new(List2_List2_Vec2_Small_n0_1_n0_2) }, Set: func(p any, v *Val) { set_List2_List2_Vec2_Small_n0_1_n0_2(p.(*List2_List2_Vec2_Small_n0_1_n0_2), v) }, Get: func(p any) *Val { return get_List2_List2_Vec2_Small_n0_1_n0_2(p.(*List2_List2_Vec2_Small_n0_1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_Vec2_Small_n0_1_n0_2)(nil)) }},
	{Name: "Sq_Vec2_Small", Tier: "", Fam: "squash", Parts: 1, Dec: 21, DecT: 22, Sch: sch_Sq_Vec2_Small, New: func() any { return new(Sq_Vec2_Small) }, Set: func(p any, v *Val) { set_Sq_Vec2_Small(p.(*Sq_Vec2_Small), v) }, Get: func(p any) *Val { return get_Sq_Vec2_Small(p.(*Sq_Vec2_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Sq_Vec2_Small)(nil)) }},
	{Name: "Em_Vec2_Small", Tier: "", Fam: "squash", Parts: 1, Dec: 14, DecT: 15, Sch: sch_Em_Vec2_Small, New: func() any { return new(Em_Vec2_Small) }, Set: func(p any, v *Val) { set_Em_Vec2_Small(p.(*Em_Vec2_Small), v) }, Get: func(p any) *Val { return get_Em_Vec2_Small(p.(*Em_Vec2_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Em_Vec2_Small)(nil)) }},
	{Name: "Bitvec2", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec2, New: func() any { return new(Bitvec2) }, Set: func(p any, v *Val) { set_Bitvec2(p.(*Bitvec2), v) }, Get: func(p any) *Val { return get_Bitvec2(p.(*Bitvec2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec2)(nil)) }},
	{Name: "Bitvec3", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec3, New: func() any { return new(Bitvec3) }, Set: func(p any, v *Val) { set_Bitvec3(p.(*Bitvec3), v) }, Get: func(p any) *Val { return get_Bitvec3(p.(*Bitvec3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec3)(nil)) }},
	{Name: "Bitvec4", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec4, New: func() any { return new(Bitvec4) }, Set: func(p any, v *Val) { set_Bitvec4(p.(*Bitvec4), v) }, Get: func(p any) *Val { return get_Bitvec4(p.(*Bitvec4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec4)(nil)) }},
	{Name: "Bitvec5", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec5, New: func() any { return new(Bitvec5) }, Set: func(p any, v *Val) { set_Bitvec5(p.(*Bitvec5), v) }, Get: func(p any) *Val { return get_Bitvec5(p.(*Bitvec5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec5)(nil)) }},
	{Name: "Bitvec6", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Bitvec6, New: func() any { return new(Bitvec6) }, Set: func(p any, v *Val) { set_Bitvec6(p.(*Bitvec6), v) }, Get: func(p any) *Val { return get_Bitvec6(p.(*Bitvec6)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec6)(nil)) }},
	{Name: "Bitvec10", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec10, New: func() any { return new(Bitvec10) }, Set: func(p any, v *Val) { set_Bitvec10(p.(*Bitvec10), v) }, Get: func(p any) *Val { return get_Bitvec10(p.(*Bitvec10)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec10)(nil)) }},
	{Name: "Bitvec11", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec11, New: func() any { return new(Bitvec11) }, Set: func(p any, v *Val) { set_Bitvec11(p.(*Bitvec11), v) }, Get: func(p any) *Val { return get_Bitvec11(p.(*Bitvec11)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec11)(nil)) }},
	{Name: "Bitvec12", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec12, New: func() any { return new(Bitvec12) }, Set: func(p any, v *Val) { set_Bitvec12(p.(*Bitvec12), v) }, Get: func(p any) *Val { return get_Bitvec12(p.(*Bitvec12)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec12)(nil)) }},
	{Name: "Bitvec13", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec13, New: func() any { return new(Bitvec13) }, Set: func(p any, v *Val) { set_Bitvec13(p.(*Bitvec13), v) }, Get: func(p any) *Val { return get_Bitvec13(p.(*Bitvec13)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec13)(nil)) }},
	{Name: "Bitvec14", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Bitvec14, New: func() any { return new(Bitvec14) }, Set: func(p any, v *Val) { set_Bitvec14(p.(*Bitvec14), v) }, Get: func(p any) *Val { return get_Bitvec14(p.(*Bitvec14)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec14)(nil)) }},
	{Name: "Bitvec18", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec18, New: func() any { return new(Bitvec18) }, Set: func(p any, v *Val) { set_Bitvec18(p.(*Bitvec18), v) }, Get: func(p any) *Val { return get_Bitvec18(p.(*Bitvec18)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec18)(nil)) }},
	{Name: "Bitvec19", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec19, New: func() any { return new(Bitvec19) }, Set: func(p any, v *Val) { set_Bitvec19(p.(*Bitvec19), v) }, Get: func(p any) *Val { return get_Bitvec19(p.(*Bitvec19)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec19)(nil)) }},
	{Name: "Bitvec20", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec20, New: func() any { return new(Bitvec20) }, Set: func(p any, v *Val) { set_Bitvec20(p.(*Bitvec20), v) }, Get: func(p any) *Val { return get_Bitvec20(p.(*Bitvec20)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec20)(nil)) }},
	{Name: "Bitvec21", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec21, New: func() any { return new(Bitvec21) }, Set: func(p any, v *Val) { set_Bitvec21(p.(*Bitvec21), v) }, Get: func(p any) *Val { return get_Bitvec21(p.(*Bitvec21)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec21)(nil)) }},
	{Name: "Bitvec22", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec22, New: func() any { return new(Bitvec22) }, Set: func(p any, v *Val) { set_Bitvec22(p.(*Bitvec22), v) }, Get: func(p any) *Val { return get_Bitvec22(p.(*Bitvec22)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec22)(nil)) }},
	{Name: "Bitvec23", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec23, New: func() any { return new(Bitvec23) }, Set: func(p any, v *Val) { set_Bitvec23(p.(*Bitvec23), v) }, Get: func(p any) *Val { return get_Bitvec23(p.(*Bitvec23)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec23)(nil)) }},
	{Name: "Bitvec24", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Bitvec24, New: func() any { return new(Bitvec24) }, Set: func(p any, v *Val) { set_Bitvec24(p.(*Bitvec24), v) }, Get: func(p any) *Val { return get_Bitvec24(p.(*Bitvec24)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec24)(nil)) }},
	{Name: "Bitvec31", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Bitvec31, New: func() any { return new(Bitvec31) }, Set: func(p any, v *Val) { set_Bitvec31(p.(*Bitvec31), v) }, Get: func(p any) *Val { return get_Bitvec31(p.(*Bitvec31)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec31)(nil)) }},
	{Name: "Bitvec32", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Bitvec32, New: func() any { return new(Bitvec32) }, Set: func(p any, v *Val) { set_Bitvec32(p.(*Bitvec32), v) }, Get: func(p any) *Val { return get_Bitvec32(p.(*Bitvec32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec32)(nil)) }},
	{Name: "Bitvec33", Tier: "", Fam: "", Parts: 0, Dec: 6, DecT: 6, Sch: sch_Bitvec33, New: func() any { return new(Bitvec33) }, Set: func(p any, v *Val) { set_Bitvec33(p.(*Bitvec33), v) }, Get: func(p any) *Val { return get_Bitvec33(p.(*Bitvec33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec33)(nil)) }},
	{Name: "Bitvec63", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Bitvec63, New: func() any { return new(Bitvec63) }, Set: func(p any, v *Val) { set_Bitvec63(p.(*Bitvec63), v) }, Get: func(p any) *Val { return get_Bitvec63(p.(*Bitvec63)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec63)(nil)) }},
	{Name: "Bitvec64", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Bitvec64, New: func() any { return new(Bitvec64) }, Set: func(p any, v *Val) { set_Bitvec64(p.(*Bitvec64), v) }, Get: func(p any) *Val { return get_Bitvec64(p.(*Bitvec64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec64)(nil)) }},
	{Name: "Bitvec65", Tier: "", Fam: "", Parts: 0, Dec: 10, DecT: 10, Sch: sch_Bitvec65, New: func() any { return new(Bitvec65) }, Set: func(p any, v *Val) { set_Bitvec65(p.(*Bitvec65), v) }, Get: func(p any) *Val { return get_Bitvec65(p.(*Bitvec65)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec65)(nil)) }},
	{Name: "Bitvec127", Tier: "", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_Bitvec127, New: func() any { return new(Bitvec127) }, Set: func(p any, v *Val) { set_Bitvec127(p.(*Bitvec127), v) }, Get: func(p any) *Val { return get_Bitvec127(p.(*Bitvec127)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec127)(nil)) }},
	{Name: "Bitvec128", Tier: "", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_Bitvec128, New: func() any { return new(Bitvec128) }, Set: func(p any, v *Val) { set_Bitvec128(p.(*Bitvec128), v) }, Get: func(p any) *Val { return get_Bitvec128(p.(*Bitvec128)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec128)(nil)) }},
	{Name: "Bitvec129", Tier: "", Fam: "", Parts: 0, Dec: 18, DecT: 18, Sch: sch_Bitvec129, New: func() any { return new(Bitvec129) }, Set: func(p any, v *Val) { set_Bitvec129(p.(*Bitvec129), v) }, Get: func(p any) *Val { return get_Bitvec129(p.(*Bitvec129)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec129)(nil)) }},
	{Name: "Bitvec248", Tier: "", Fam: "", Parts: 0, Dec: 32, DecT: 32, Sch: sch_Bitvec248, New: func() any { return new(Bitvec248) }, Set: func(p any, v *Val) { set_Bitvec248(p.(*Bitvec248), v) }, Get: func(p any) *Val { return get_Bitvec248(p.(*Bitvec248)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec248)(nil)) }},
	{Name: "Bitvec249", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Bitvec249, New: func() any { return new(Bitvec249) }, Set: func(p any, v *Val) { set_Bitvec249(p.(*Bitvec249), v) }, Get: func(p any) *Val { return get_Bitvec249(p.(*Bitvec249)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec249)(nil)) }},
	{Name: "Bitvec511", Tier: "", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Bitvec511, New: func() any { return new(Bitvec511) }, Set: func(p any, v *Val) { set_Bitvec511(p.(*Bitvec511), v) }, Get: func(p any) *Val { return get_Bitvec511(p.(*Bitvec511)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec511)(nil)) }},
	{Name: "Bitvec513", Tier: "", Fam: "", Parts: 0, Dec: 66, DecT: 66, Sch: sch_Bitvec513, New: func() any { return new(Bitvec513) }, Set: func(p any, v *Val) { set_Bitvec513(p.(*Bitvec513), v) }, Get: func(p any) *Val { return get_Bitvec513(p.(*Bitvec513)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec513)(nil)) }},
	{Name: "Bitlist2_n0_1_2", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist2_n0_1_2, New: func() any { return new(Bitlist2_n0_1_2) }, Set: func(p any, v *Val) { set_Bitlist2_n0_1_2(p.(*Bitlist2_n0_1_2), v) }, Get: func(p any) *Val { return get_Bitlist2_n0_1_2(p.(*Bitlist2_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist2_n0_1_2)(nil)) }},
	{Name: "Bitlist3_n0_1_2_3", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist3_n0_1_2_3, New: func() any { return new(Bitlist3_n0_1_2_3) }, Set: func(p any, v *Val) { set_Bitlist3_n0_1_2_3(p.(*Bitlist3_n0_1_2_3), v) }, Get: func(p any) *Val { return get_Bitlist3_n0_1_2_3(p.(*Bitlist3_n0_1_2_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist3_n0_1_2_3)(nil)) }},
	{Name: "Bitlist6_n0_1_5_6", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist6_n0_1_5_6, New: func() any { return new(Bitlist6_n0_1_5_6) }, Set: func(p any, v *Val) { set_Bitlist6_n0_1_5_6(p.(*Bitlist6_n0_1_5_6), v) }, Get: func(p any) *Val { return get_Bitlist6_n0_1_5_6(p.(*Bitlist6_n0_1_5_6)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist6_n0_1_5_6)(nil)) }},
	{Name: "Bitlist10_n0_1_9_10", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist10_n0_1_9_10, New: func() any { return new(Bitlist10_n0_1_9_10) }, Set: func(p any, v *Val) { set_Bitlist10_n0_1_9_10(p.(*Bitlist10_n0_1_9_10), v) }, Get: func(p any) *Val { return get_Bitlist10_n0_1_9_10(p.(*Bitlist10_n0_1_9_10)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist10_n0_1_9_10)(nil)) }},
	{Name: "Bitlist23_n0_1_22_23", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist23_n0_1_22_23, New: func() any { return new(Bitlist23_n0_1_22_23) }, Set: func(p any, v *Val) { set_Bitlist23_n0_1_22_23(p.(*Bitlist23_n0_1_22_23), v) }, Get: func(p any) *Val { return get_Bitlist23_n0_1_22_23(p.(*Bitlist23_n0_1_22_23)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist23_n0_1_22_23)(nil)) }},
	{Name: "Bitlist24_n0_1_23_24", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist24_n0_1_23_24, New: func() any { return new(Bitlist24_n0_1_23_24) }, Set: func(p any, v *Val) { set_Bitlist24_n0_1_23_24(p.(*Bitlist24_n0_1_23_24), v) }, Get: func(p any) *Val { return get_Bitlist24_n0_1_23_24(p.(*Bitlist24_n0_1_23_24)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist24_n0_1_23_24)(nil)) }},
	{Name: "Bitlist25_n0_1_24_25", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist25_n0_1_24_25, New: func() any { return new(Bitlist25_n0_1_24_25) }, Set: func(p any, v *Val) { set_Bitlist25_n0_1_24_25(p.(*Bitlist25_n0_1_24_25), v) }, Get: func(p any) *Val { return get_Bitlist25_n0_1_24_25(p.(*Bitlist25_n0_1_24_25)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist25_n0_1_24_25)(nil)) }},
	{Name: "Bitlist31_n0_1_30_31", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist31_n0_1_30_31, New: func() any { return new(Bitlist31_n0_1_30_31) }, Set: func(p any, v *Val) { set_Bitlist31_n0_1_30_31(p.(*Bitlist31_n0_1_30_31), v) }, Get: func(p any) *Val { return get_Bitlist31_n0_1_30_31(p.(*Bitlist31_n0_1_30_31)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist31_n0_1_30_31)(nil)) }},
	{Name: "Bitlist32_n0_1_31_32", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist32_n0_1_31_32, New: func() any { return new(Bitlist32_n0_1_31_32) }, Set: func(p any, v *Val) { set_Bitlist32_n0_1_31_32(p.(*Bitlist32_n0_1_31_32), v) }, Get: func(p any) *Val { return get_Bitlist32_n0_1_31_32(p.(*Bitlist32_n0_1_31_32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist32_n0_1_31_32)(nil)) }},
	{Name: "Bitlist33_n0_1_32_33", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist33_n0_1_32_33, New: func() any { return new(Bitlist33_n0_1_32_33) }, Set: func(p any, v *Val) { set_Bitlist33_n0_1_32_33(p.(*Bitlist33_n0_1_32_33), v) }, Get: func(p any) *Val { return get_Bitlist33_n0_1_32_33(p.(*Bitlist33_n0_1_32_33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist33_n0_1_32_33)(nil)) }},
	{Name: "Bitlist64_n0_1_7_8_9", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist64_n0_1_7_8_9, New: func() any { return new(Bitlist64_n0_1_7_8_9) }, Set: func(p any, v *Val) { set_Bitlist64_n0_1_7_8_9(p.(*Bitlist64_n0_1_7_8_9), v) }, Get: func(p any) *Val { return get_Bitlist64_n0_1_7_8_9(p.(*Bitlist64_n0_1_7_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist64_n0_1_7_8_9)(nil)) }},
	{Name: "Bitlist248_n0_1_7_8_9_247_248", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist248_n0_1_7_8_9_247_248, New: func() any { return new(Bitlist248_n0_1_7_8_9_247_248) }, Set: func(p any, v *Val) { set_Bitlist248_n0_1_7_8_9_247_248(p.(*Bitlist248_n0_1_7_8_9_247_248), v) }, Get: func(p any) *Val { return get_Bitlist248_n0_1_7_8_9_247_248(p.(*Bitlist248_n0_1_7_8_9_247_248)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist248_n0_1_7_8_9_247_248)(nil)) }},
	{Name: "Bitlist255_n0_1_7_8_9_247_248_255", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist255_n0_1_7_8_9_247_248_255, New: func() any { return new(Bitlist255_n0_1_7_8_9_247_248_255) }, Set: func(p any, v *Val) { set_Bitlist255_n0_1_7_8_9_247_248_255(p.(*Bitlist255_n0_1_7_8_9_247_248_255), v) }, Get: func(p any) *Val { return get_Bitlist255_n0_1_7_8_9_247_248_255(p.(*Bitlist255_n0_1_7_8_9_247_248_255)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist255_n0_1_7_8_9_247_248_255)(nil)) }},
	{Name: "Bitlist256_n0_1_7_8_9_247_248_255_256", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist256_n0_1_7_8_9_247_248_255_256, New: func() any { return new(Bitlist256_n0_1_7_8_9_247_248_255_256) }, Set: func(p any, v *Val) {
		set_Bitlist256_n0_1_7_8_9_247_248_255_256(p.(*Bitlist256_n0_1_7_8_9_247_248_255_256), v)
	}, Get: func(p any) *Val {
		return get_Bitlist256_n0_1_7_8_9_247_248_255_256(p.(*Bitlist256_n0_1_7_8_9_247_248_255_256))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist256_n0_1_7_8_9_247_248_255_256)(nil)) }},
	{Name: "Bitlist257_n0_1_7_8_9_247_248_255_256_257", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist257_n0_1_7_8_9_247_248_255_256_257, New: func() any { return new(Bitlist257_n0_1_7_8_9_247_248_255_256_257) }, Set: func(p any, v *Val) {
		set_Bitlist257_n0_1_7_8_9_247_248_255_256_257(p.(*Bitlist257_n0_1_7_8_9_247_248_255_256_257), v)
	}, Get: func(p any) *Val {
		return get_Bitlist257_n0_1_7_8_9_247_248_255_256_257(p.(*Bitlist257_n0_1_7_8_9_247_248_255_256_257))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist257_n0_1_7_8_9_247_248_255_256_257)(nil)) }},
	{Name: "Bitlist264_n0_1_7_8_9_247_248_255_256_257_264", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264, New: func() any { return new(Bitlist264_n0_1_7_8_9_247_248_255_256_257_264) }, Set: func(p any, v *Val) {
		set_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264(p.(*Bitlist264_n0_1_7_8_9_247_248_255_256_257_264), v)
	}, Get: func(p any) *Val {
		return get_Bitlist264_n0_1_7_8_9_247_248_255_256_257_264(p.(*Bitlist264_n0_1_7_8_9_247_248_255_256_257_264))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist264_n0_1_7_8_9_247_248_255_256_257_264)(nil)) }},
	{Name: "Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511, New: func() any { return new(Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511) }, Set: func(p any, v *Val) {
		set_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511(p.(*Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511), v)
	}, Get: func(p any) *Val {
		return get_Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511(p.(*Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist511_n0_1_7_8_9_247_248_255_256_257_264_511)(nil)) }},
	{Name: "Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512, New: func() any { return new(Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512) }, Set: func(p any, v *Val) {
		set_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512(p.(*Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512), v)
	}, Get: func(p any) *Val {
		return get_Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512(p.(*Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist512_n0_1_7_8_9_247_248_255_256_257_264_511_512)(nil)) }},
	{Name: "Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, New: func() any { return new(Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) }, Set: func(p any, v *Val) {
		set_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513), v)
	}, Get: func(p any) *Val {
		return get_Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513))
	}, SSZ: func() types.SSZ {
		return zssz.GetSSZ((*Bitlist513_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil))
	}},
	{Name: "Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, New: func() any { return new(Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) }, Set: func(p any, v *Val) {
		set_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513), v)
	}, Get: func(p any) *Val {
		return get_Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513))
	}, SSZ: func() types.SSZ {
		return zssz.GetSSZ((*Bitlist768_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil))
	}},
	{Name: "Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, New: func() any { return new(Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) }, Set: func(p any, v *Val) {
		set_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513), v)
	}, Get: func(p any) *Val {
		return get_Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513))
	}, SSZ: func() types.SSZ {
		return zssz.GetSSZ((*Bitlist1024_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil))
	}},
	{Name: "Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513, New: func() any { return new(Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513) }, Set: func(p any, v *Val) {
		set_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513), v)
	}, Get: func(p any) *Val {
		return get_Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513(p.(*Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513))
	}, SSZ: func() types.SSZ {
		return zssz.GetSSZ((*Bitlist1099511627776_n0_1_7_8_9_247_248_255_256_257_264_511_512_513)(nil))
	}},
	{Name: "BytesN2", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_BytesN2, New: func() any { return new([2]byte) }, Set: func(p any, v *Val) { set_BytesN2(p.(*[2]byte), v) }, Get: func(p any) *Val { return get_BytesN2(p.(*[2]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]byte)(nil)) }},
	{Name: "BytesN3", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_BytesN3, New: func() any { return new([3]byte) }, Set: func(p any, v *Val) { set_BytesN3(p.(*[3]byte), v) }, Get: func(p any) *Val { return get_BytesN3(p.(*[3]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]byte)(nil)) }},
	{Name: "BytesN5", Tier: "", Fam: "", Parts: 0, Dec: 6, DecT: 6, Sch: sch_BytesN5, New: func() any { return new([5]byte) }, Set: func(p any, v *Val) { set_BytesN5(p.(*[5]byte), v) }, Get: func(p any) *Val { return get_BytesN5(p.(*[5]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[5]byte)(nil)) }},
	{Name: "BytesN8", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_BytesN8, New: func() any { return new([8]byte) }, Set: func(p any, v *Val) { set_BytesN8(p.(*[8]byte), v) }, Get: func(p any) *Val { return get_BytesN8(p.(*[8]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[8]byte)(nil)) }},
	{Name: "BytesN16", Tier: "", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_BytesN16, New: func() any { return new([16]byte) }, Set: func(p any, v *Val) { set_BytesN16(p.(*[16]byte), v) }, Get: func(p any) *Val { return get_BytesN16(p.(*[16]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[16]byte)(nil)) }},
	{Name: "BytesN20", Tier: "", Fam: "", Parts: 0, Dec: 21, DecT: 21, Sch: sch_BytesN20, New: func() any { return new([20]byte) }, Set: func(p any, v *Val) { set_BytesN20(p.(*[20]byte), v) }, Get: func(p any) *Val { return get_BytesN20(p.(*[20]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[20]byte)(nil)) }},
	{Name: "BytesN30", Tier: "", Fam: "", Parts: 0, Dec: 31, DecT: 31, Sch: sch_BytesN30, New: func() any { return new([30]byte) }, Set: func(p any, v *Val) { set_BytesN30(p.(*[30]byte), v) }, Get: func(p any) *Val { return get_BytesN30(p.(*[30]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[30]byte)(nil)) }},
	{Name: "BytesN48", Tier: "", Fam: "", Parts: 0, Dec: 49, DecT: 49, Sch: sch_BytesN48, New: func() any { return new([48]byte) }, Set: func(p any, v *Val) { set_BytesN48(p.(*[48]byte), v) }, Get: func(p any) *Val { return get_BytesN48(p.(*[48]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[48]byte)(nil)) }},
	{Name: "BytesN63", Tier: "", Fam: "", Parts: 0, Dec: 64, DecT: 64, Sch: sch_BytesN63, New: func() any { return new([63]byte) }, Set: func(p any, v *Val) { set_BytesN63(p.(*[63]byte), v) }, Get: func(p any) *Val { return get_BytesN63(p.(*[63]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[63]byte)(nil)) }},
	{Name: "BytesN95", Tier: "", Fam: "", Parts: 0, Dec: 96, DecT: 96, Sch: sch_BytesN95, New: func() any { return new([95]byte) }, Set: func(p any, v *Val) { set_BytesN95(p.(*[95]byte), v) }, Get: func(p any) *Val { return get_BytesN95(p.(*[95]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[95]byte)(nil)) }},
	{Name: "BytesN97", Tier: "", Fam: "", Parts: 0, Dec: 98, DecT: 98, Sch: sch_BytesN97, New: func() any { return new([97]byte) }, Set: func(p any, v *Val) { set_BytesN97(p.(*[97]byte), v) }, Get: func(p any) *Val { return get_BytesN97(p.(*[97]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[97]byte)(nil)) }},
	{Name: "BytesN128", Tier: "", Fam: "", Parts: 0, Dec: 129, DecT: 129, Sch: sch_BytesN128, New: func() any { return new([128]byte) }, Set: func(p any, v *Val) { set_BytesN128(p.(*[128]byte), v) }, Get: func(p any) *Val { return get_BytesN128(p.(*[128]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[128]byte)(nil)) }},
	{Name: "BytesN129", Tier: "", Fam: "", Parts: 0, Dec: 130, DecT: 130, Sch: sch_BytesN129, New: func() any { return new([129]byte) }, Set: func(p any, v *Val) { set_BytesN129(p.(*[129]byte), v) }, Get: func(p any) *Val { return get_BytesN129(p.(*[129]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[129]byte)(nil)) }},
	{Name: "Bytes2_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes2_n0_1, New: func() any { return new(Bytes2_n0_1) }, Set: func(p any, v *Val) { set_Bytes2_n0_1(p.(*Bytes2_n0_1), v) }, Get: func(p any) *Val { return get_Bytes2_n0_1(p.(*Bytes2_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes2_n0_1)(nil)) }},
	{Name: "Bytes31_n0_1_30_31", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes31_n0_1_30_31, New: func() any { return new(Bytes31_n0_1_30_31) }, Set: func(p any, v *Val) { set_Bytes31_n0_1_30_31(p.(*Bytes31_n0_1_30_31), v) }, Get: func(p any) *Val { return get_Bytes31_n0_1_30_31(p.(*Bytes31_n0_1_30_31)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes31_n0_1_30_31)(nil)) }},
	{Name: "Bytes64_n0_1_30_31_32_33_63_64", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes64_n0_1_30_31_32_33_63_64, New: func() any { return new(Bytes64_n0_1_30_31_32_33_63_64) }, Set: func(p any, v *Val) { set_Bytes64_n0_1_30_31_32_33_63_64(p.(*Bytes64_n0_1_30_31_32_33_63_64), v) }, Get: func(p any) *Val { return get_Bytes64_n0_1_30_31_32_33_63_64(p.(*Bytes64_n0_1_30_31_32_33_63_64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes64_n0_1_30_31_32_33_63_64)(nil)) }},
	{Name: "Bytes96_n0_1_30_31_32_33_63_64_65_95_96", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes96_n0_1_30_31_32_33_63_64_65_95_96, New: func() any { return new(Bytes96_n0_1_30_31_32_33_63_64_65_95_96) }, Set: func(p any, v *Val) {
		set_Bytes96_n0_1_30_31_32_33_63_64_65_95_96(p.(*Bytes96_n0_1_30_31_32_33_63_64_65_95_96), v)
	}, Get: func(p any) *Val {
		return get_Bytes96_n0_1_30_31_32_33_63_64_65_95_96(p.(*Bytes96_n0_1_30_31_32_33_63_64_65_95_96))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes96_n0_1_30_31_32_33_63_64_65_95_96)(nil)) }},
	{Name: "Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100, New: func() any { return new(Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100) }, Set: func(p any, v *Val) {
		set_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100(p.(*Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100), v)
	}, Get: func(p any) *Val {
		return get_Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100(p.(*Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes100_n0_1_30_31_32_33_63_64_65_95_96_97_100)(nil)) }},
	{Name: "Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128, New: func() any { return new(Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128) }, Set: func(p any, v *Val) {
		set_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128(p.(*Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128), v)
	}, Get: func(p any) *Val {
		return get_Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128(p.(*Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes128_n0_1_30_31_32_33_63_64_65_95_96_97_100_128)(nil)) }},
	{Name: "Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160, New: func() any { return new(Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160) }, Set: func(p any, v *Val) {
		set_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p.(*Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160), v)
	}, Get: func(p any) *Val {
		return get_Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p.(*Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160))
	}, SSZ: func() types.SSZ {
		return zssz.GetSSZ((*Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160)(nil))
	}},
	{Name: "Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160, New: func() any { return new(Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160) }, Set: func(p any, v *Val) {
		set_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p.(*Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160), v)
	}, Get: func(p any) *Val {
		return get_Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160(p.(*Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160))
	}, SSZ: func() types.SSZ {
		return zssz.GetSSZ((*Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160)(nil))
	}},
	{Name: "Vec15_U16", Tier: "", Fam: "", Parts: 0, Dec: 31, DecT: 31, Sch: sch_Vec15_U16, New: func() any { return new([15]uint16) }, Set: func(p any, v *Val) { set_Vec15_U16(p.(*[15]uint16), v) }, Get: func(p any) *Val { return get_Vec15_U16(p.(*[15]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[15]uint16)(nil)) }},
	{Name: "Vec16_U16", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Vec16_U16, New: func() any { return new([16]uint16) }, Set: func(p any, v *Val) { set_Vec16_U16(p.(*[16]uint16), v) }, Get: func(p any) *Val { return get_Vec16_U16(p.(*[16]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[16]uint16)(nil)) }},
	{Name: "Vec7_U32", Tier: "", Fam: "", Parts: 0, Dec: 29, DecT: 29, Sch: sch_Vec7_U32, New: func() any { return new([7]uint32) }, Set: func(p any, v *Val) { set_Vec7_U32(p.(*[7]uint32), v) }, Get: func(p any) *Val { return get_Vec7_U32(p.(*[7]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[7]uint32)(nil)) }},
	{Name: "Vec9_U32", Tier: "", Fam: "", Parts: 0, Dec: 37, DecT: 37, Sch: sch_Vec9_U32, New: func() any { return new([9]uint32) }, Set: func(p any, v *Val) { set_Vec9_U32(p.(*[9]uint32), v) }, Get: func(p any) *Val { return get_Vec9_U32(p.(*[9]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[9]uint32)(nil)) }},
	{Name: "Vec3_U64", Tier: "", Fam: "", Parts: 0, Dec: 25, DecT: 25, Sch: sch_Vec3_U64, New: func() any { return new([3]uint64) }, Set: func(p any, v *Val) { set_Vec3_U64(p.(*[3]uint64), v) }, Get: func(p any) *Val { return get_Vec3_U64(p.(*[3]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]uint64)(nil)) }},
	{Name: "Vec8_U64", Tier: "", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Vec8_U64, New: func() any { return new([8]uint64) }, Set: func(p any, v *Val) { set_Vec8_U64(p.(*[8]uint64), v) }, Get: func(p any) *Val { return get_Vec8_U64(p.(*[8]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[8]uint64)(nil)) }},
	{Name: "Vec9_U64", Tier: "", Fam: "", Parts: 0, Dec: 73, DecT: 73, Sch: sch_Vec9_U64, New: func() any { return new([9]uint64) }, Set: func(p any, v *Val) { set_Vec9_U64(p.(*[9]uint64), v) }, Get: func(p any) *Val { return get_Vec9_U64(p.(*[9]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[9]uint64)(nil)) }},
	{Name: "Vec31_Bool", Tier: "", Fam: "", Parts: 0, Dec: 32, DecT: 32, Sch: sch_Vec31_Bool, New: func() any { return new([31]bool) }, Set: func(p any, v *Val) { set_Vec31_Bool(p.(*[31]bool), v) }, Get: func(p any) *Val { return get_Vec31_Bool(p.(*[31]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[31]bool)(nil)) }},
	{Name: "Vec32_Bool", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Vec32_Bool, New: func() any { return new([32]bool) }, Set: func(p any, v *Val) { set_Vec32_Bool(p.(*[32]bool), v) }, Get: func(p any) *Val { return get_Vec32_Bool(p.(*[32]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[32]bool)(nil)) }},
	{Name: "Vec64_Bool", Tier: "", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Vec64_Bool, New: func() any { return new([64]bool) }, Set: func(p any, v *Val) { set_Vec64_Bool(p.(*[64]bool), v) }, Get: func(p any) *Val { return get_Vec64_Bool(p.(*[64]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[64]bool)(nil)) }},
	{Name: "Vec65_Bool", Tier: "", Fam: "", Parts: 0, Dec: 66, DecT: 66, Sch: sch_Vec65_Bool, New: func() any { return new([65]bool) }, Set: func(p any, v *Val) { set_Vec65_Bool(p.(*[65]bool), v) }, Get: func(p any) *Val { return get_Vec65_Bool(p.(*[65]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[65]bool)(nil)) }},
	{Name: "Vec33_U16", Tier: "", Fam: "", Parts: 0, Dec: 67, DecT: 67, Sch: sch_Vec33_U16, New: func() any { return new([33]uint16) }, Set: func(p any, v *Val) { set_Vec33_U16(p.(*[33]uint16), v) }, Get: func(p any) *Val { return get_Vec33_U16(p.(*[33]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[33]uint16)(nil)) }},
	{Name: "Vec17_U64", Tier: "", Fam: "", Parts: 0, Dec: 137, DecT: 137, Sch: sch_Vec17_U64, New: func() any { return new([17]uint64) }, Set: func(p any, v *Val) { set_Vec17_U64(p.(*[17]uint64), v) }, Get: func(p any) *Val { return get_Vec17_U64(p.(*[17]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[17]uint64)(nil)) }},
	{Name: "List16_U16_n0_15_16", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List16_U16_n0_15_16, New: func() any { return new(List16_U16_n0_15_16) }, Set: func(p any, v *Val) { set_List16_U16_n0_15_16(p.(*List16_U16_n0_15_16), v) }, Get: func(p any) *Val { return get_List16_U16_n0_15_16(p.(*List16_U16_n0_15_16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List16_U16_n0_15_16)(nil)) }},
	{Name: "List33_U16_n0_16_17_32_33", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List33_U16_n0_16_17_32_33, New: func() any { return new(List33_U16_n0_16_17_32_33) }, Set: func(p any, v *Val) { set_List33_U16_n0_16_17_32_33(p.(*List33_U16_n0_16_17_32_33), v) }, Get: func(p any) *Val { return get_List33_U16_n0_16_17_32_33(p.(*List33_U16_n0_16_17_32_33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List33_U16_n0_16_17_32_33)(nil)) }},
	{Name: "List8_U32_n0_7_8", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List8_U32_n0_7_8, New: func() any { return new(List8_U32_n0_7_8) }, Set: func(p any, v *Val) { set_List8_U32_n0_7_8(p.(*List8_U32_n0_7_8), v) }, Get: func(p any) *Val { return get_List8_U32_n0_7_8(p.(*List8_U32_n0_7_8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8_U32_n0_7_8)(nil)) }},
	{Name: "List17_U32_n0_8_9_16_17", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List17_U32_n0_8_9_16_17, New: func() any { return new(List17_U32_n0_8_9_16_17) }, Set: func(p any, v *Val) { set_List17_U32_n0_8_9_16_17(p.(*List17_U32_n0_8_9_16_17), v) }, Get: func(p any) *Val { return get_List17_U32_n0_8_9_16_17(p.(*List17_U32_n0_8_9_16_17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List17_U32_n0_8_9_16_17)(nil)) }},
	{Name: "List4_U64_n0_3_4", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List4_U64_n0_3_4, New: func() any { return new(List4_U64_n0_3_4) }, Set: func(p any, v *Val) { set_List4_U64_n0_3_4(p.(*List4_U64_n0_3_4), v) }, Get: func(p any) *Val { return get_List4_U64_n0_3_4(p.(*List4_U64_n0_3_4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_U64_n0_3_4)(nil)) }},
	{Name: "List16_U64_n0_1_4_5_8_9_13_16", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List16_U64_n0_1_4_5_8_9_13_16, New: func() any { return new(List16_U64_n0_1_4_5_8_9_13_16) }, Set: func(p any, v *Val) { set_List16_U64_n0_1_4_5_8_9_13_16(p.(*List16_U64_n0_1_4_5_8_9_13_16), v) }, Get: func(p any) *Val { return get_List16_U64_n0_1_4_5_8_9_13_16(p.(*List16_U64_n0_1_4_5_8_9_13_16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List16_U64_n0_1_4_5_8_9_13_16)(nil)) }},
	{Name: "List1099511627776_U64_n0_1_4_5", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List1099511627776_U64_n0_1_4_5, New: func() any { return new(List1099511627776_U64_n0_1_4_5) }, Set: func(p any, v *Val) { set_List1099511627776_U64_n0_1_4_5(p.(*List1099511627776_U64_n0_1_4_5), v) }, Get: func(p any) *Val { return get_List1099511627776_U64_n0_1_4_5(p.(*List1099511627776_U64_n0_1_4_5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1099511627776_U64_n0_1_4_5)(nil)) }},
	{Name: "List4294967296_U16_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List4294967296_U16_n0_1, New: func() any { return new(List4294967296_U16_n0_1) }, Set: func(p any, v *Val) { set_List4294967296_U16_n0_1(p.(*List4294967296_U16_n0_1), v) }, Get: func(p any) *Val { return get_List4294967296_U16_n0_1(p.(*List4294967296_U16_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4294967296_U16_n0_1)(nil)) }},
	{Name: "List32_Bool_n0_31_32", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List32_Bool_n0_31_32, New: func() any { return new(List32_Bool_n0_31_32) }, Set: func(p any, v *Val) { set_List32_Bool_n0_31_32(p.(*List32_Bool_n0_31_32), v) }, Get: func(p any) *Val { return get_List32_Bool_n0_31_32(p.(*List32_Bool_n0_31_32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List32_Bool_n0_31_32)(nil)) }},
	{Name: "List64_Bool_n0_33_64", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List64_Bool_n0_33_64, New: func() any { return new(List64_Bool_n0_33_64) }, Set: func(p any, v *Val) { set_List64_Bool_n0_33_64(p.(*List64_Bool_n0_33_64), v) }, Get: func(p any) *Val { return get_List64_Bool_n0_33_64(p.(*List64_Bool_n0_33_64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List64_Bool_n0_33_64)(nil)) }},
	{Name: "List1125899906842624_U32_n0_3", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List1125899906842624_U32_n0_3, New: func() any { return new(List1125899906842624_U32_n0_3) }, Set: func(p any, v *Val) { set_List1125899906842624_U32_n0_3(p.(*List1125899906842624_U32_n0_3), v) }, Get: func(p any) *Val { return get_List1125899906842624_U32_n0_3(p.(*List1125899906842624_U32_n0_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1125899906842624_U32_n0_3)(nil)) }},
	{Name: "Vec3_Small", Tier: "", Fam: "", Parts: 0, Dec: 10, DecT: 10, Sch: sch_Vec3_Small, New: func() any { return new([3]Small) }, Set: func(p any, v *Val) { set_Vec3_Small(p.(*[3]Small), v) }, Get: func(p any) *Val { return get_Vec3_Small(p.(*[3]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Small)(nil)) }},
	{Name: "List3_Small_n0_1_2_3", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List3_Small_n0_1_2_3, New: func() any { return new(List3_Small_n0_1_2_3) }, Set: func(p any, v *Val) { set_List3_Small_n0_1_2_3(p.(*List3_Small_n0_1_2_3), v) }, Get: func(p any) *Val { return get_List3_Small_n0_1_2_3(p.(*List3_Small_n0_1_2_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Small_n0_1_2_3)(nil)) }},
	{Name: "Many3", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Many3, New: func() any { return new(Many3) }, Set: func(p any, v *Val) { set_Many3(p.(*Many3), v) }, Get: func(p any) *Val { return get_Many3(p.(*Many3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many3)(nil)) }},
	{Name: "Vec4_Small", Tier: "", Fam: "", Parts: 0, Dec: 13, DecT: 13, Sch: sch_Vec4_Small, New: func() any { return new([4]Small) }, Set: func(p any, v *Val) { set_Vec4_Small(p.(*[4]Small), v) }, Get: func(p any) *Val { return get_Vec4_Small(p.(*[4]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[4]Small)(nil)) }},
	{Name: "List4_Small_n0_1_3_4", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List4_Small_n0_1_3_4, New: func() any { return new(List4_Small_n0_1_3_4) }, Set: func(p any, v *Val) { set_List4_Small_n0_1_3_4(p.(*List4_Small_n0_1_3_4), v) }, Get: func(p any) *Val { return get_List4_Small_n0_1_3_4(p.(*List4_Small_n0_1_3_4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4_Small_n0_1_3_4)(nil)) }},
	{Name: "Many4", Tier: "", Fam: "", Parts: 0, Dec: 9, DecT: 9, Sch: sch_Many4, New: func() any { return new(Many4) }, Set: func(p any, v *Val) { set_Many4(p.(*Many4), v) }, Get: func(p any) *Val { return get_Many4(p.(*Many4)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many4)(nil)) }},
	{Name: "Vec5_Small", Tier: "", Fam: "", Parts: 0, Dec: 16, DecT: 16, Sch: sch_Vec5_Small, New: func() any { return new([5]Small) }, Set: func(p any, v *Val) { set_Vec5_Small(p.(*[5]Small), v) }, Get: func(p any) *Val { return get_Vec5_Small(p.(*[5]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[5]Small)(nil)) }},
	{Name: "List5_Small_n0_1_4_5", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List5_Small_n0_1_4_5, New: func() any { return new(List5_Small_n0_1_4_5) }, Set: func(p any, v *Val) { set_List5_Small_n0_1_4_5(p.(*List5_Small_n0_1_4_5), v) }, Get: func(p any) *Val { return get_List5_Small_n0_1_4_5(p.(*List5_Small_n0_1_4_5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Small_n0_1_4_5)(nil)) }},
	{Name: "Many5", Tier: "", Fam: "", Parts: 0, Dec: 11, DecT: 11, Sch: sch_Many5, New: func() any { return new(Many5) }, Set: func(p any, v *Val) { set_Many5(p.(*Many5), v) }, Get: func(p any) *Val { return get_Many5(p.(*Many5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many5)(nil)) }},
	{Name: "Vec7_Small", Tier: "", Fam: "", Parts: 0, Dec: 22, DecT: 22, Sch: sch_Vec7_Small, New: func() any { return new([7]Small) }, Set: func(p any, v *Val) { set_Vec7_Small(p.(*[7]Small), v) }, Get: func(p any) *Val { return get_Vec7_Small(p.(*[7]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[7]Small)(nil)) }},
	{Name: "List7_Small_n0_1_6_7", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List7_Small_n0_1_6_7, New: func() any { return new(List7_Small_n0_1_6_7) }, Set: func(p any, v *Val) { set_List7_Small_n0_1_6_7(p.(*List7_Small_n0_1_6_7), v) }, Get: func(p any) *Val { return get_List7_Small_n0_1_6_7(p.(*List7_Small_n0_1_6_7)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List7_Small_n0_1_6_7)(nil)) }},
	{Name: "Many7", Tier: "", Fam: "", Parts: 0, Dec: 15, DecT: 15, Sch: sch_Many7, New: func() any { return new(Many7) }, Set: func(p any, v *Val) { set_Many7(p.(*Many7), v) }, Get: func(p any) *Val { return get_Many7(p.(*Many7)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many7)(nil)) }},
	{Name: "Vec8_Small", Tier: "", Fam: "", Parts: 0, Dec: 25, DecT: 25, Sch: sch_Vec8_Small, New: func() any { return new([8]Small) }, Set: func(p any, v *Val) { set_Vec8_Small(p.(*[8]Small), v) }, Get: func(p any) *Val { return get_Vec8_Small(p.(*[8]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[8]Small)(nil)) }},
	{Name: "List8_Small_n0_1_7_8", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List8_Small_n0_1_7_8, New: func() any { return new(List8_Small_n0_1_7_8) }, Set: func(p any, v *Val) { set_List8_Small_n0_1_7_8(p.(*List8_Small_n0_1_7_8), v) }, Get: func(p any) *Val { return get_List8_Small_n0_1_7_8(p.(*List8_Small_n0_1_7_8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8_Small_n0_1_7_8)(nil)) }},
	{Name: "Many8", Tier: "", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_Many8, New: func() any { return new(Many8) }, Set: func(p any, v *Val) { set_Many8(p.(*Many8), v) }, Get: func(p any) *Val { return get_Many8(p.(*Many8)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many8)(nil)) }},
	{Name: "Vec9_Small", Tier: "", Fam: "", Parts: 0, Dec: 28, DecT: 28, Sch: sch_Vec9_Small, New: func() any { return new([9]Small) }, Set: func(p any, v *Val) { set_Vec9_Small(p.(*[9]Small), v) }, Get: func(p any) *Val { return get_Vec9_Small(p.(*[9]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[9]Small)(nil)) }},
	{Name: "List9_Small_n0_1_8_9", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List9_Small_n0_1_8_9, New: func() any { return new(List9_Small_n0_1_8_9) }, Set: func(p any, v *Val) { set_List9_Small_n0_1_8_9(p.(*List9_Small_n0_1_8_9), v) }, Get: func(p any) *Val { return get_List9_Small_n0_1_8_9(p.(*List9_Small_n0_1_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List9_Small_n0_1_8_9)(nil)) }},
	{Name: "Many9", Tier: "", Fam: "", Parts: 0, Dec: 19, DecT: 19, Sch: sch_Many9, New: func() any { return new(Many9) }, Set: func(p any, v *Val) { set_Many9(p.(*Many9), v) }, Get: func(p any) *Val { return get_Many9(p.(*Many9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many9)(nil)) }},
	{Name: "Vec16_Small", Tier: "", Fam: "", Parts: 0, Dec: 49, DecT: 49, Sch: sch_Vec16_Small, New: func() any { return new([16]Small) }, Set: func(p any, v *Val) { set_Vec16_Small(p.(*[16]Small), v) }, Get: func(p any) *Val { return get_Vec16_Small(p.(*[16]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[16]Small)(nil)) }},
	{Name: "List16_Small_n0_1_15_16", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List16_Small_n0_1_15_16, New: func() any { return new(List16_Small_n0_1_15_16) }, Set: func(p any, v *Val) { set_List16_Small_n0_1_15_16(p.(*List16_Small_n0_1_15_16), v) }, Get: func(p any) *Val { return get_List16_Small_n0_1_15_16(p.(*List16_Small_n0_1_15_16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List16_Small_n0_1_15_16)(nil)) }},
	{Name: "Many16", Tier: "", Fam: "", Parts: 0, Dec: 33, DecT: 33, Sch: sch_Many16, New: func() any { return new(Many16) }, Set: func(p any, v *Val) { set_Many16(p.(*Many16), v) }, Get: func(p any) *Val { return get_Many16(p.(*Many16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many16)(nil)) }},
	{Name: "Vec17_Small", Tier: "", Fam: "", Parts: 0, Dec: 52, DecT: 52, Sch: sch_Vec17_Small, New: func() any { return new([17]Small) }, Set: func(p any, v *Val) { set_Vec17_Small(p.(*[17]Small), v) }, Get: func(p any) *Val { return get_Vec17_Small(p.(*[17]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[17]Small)(nil)) }},
	{Name: "List17_Small_n0_1_16_17", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List17_Small_n0_1_16_17, New: func() any { return new(List17_Small_n0_1_16_17) }, Set: func(p any, v *Val) { set_List17_Small_n0_1_16_17(p.(*List17_Small_n0_1_16_17), v) }, Get: func(p any) *Val { return get_List17_Small_n0_1_16_17(p.(*List17_Small_n0_1_16_17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List17_Small_n0_1_16_17)(nil)) }},
	{Name: "Many17", Tier: "", Fam: "", Parts: 0, Dec: 35, DecT: 35, Sch: sch_Many17, New: func() any { return new(Many17) }, Set: func(p any, v *Val) { set_Many17(p.(*Many17), v) }, Get: func(p any) *Val { return get_Many17(p.(*Many17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many17)(nil)) }},
	{Name: "ManyVar3", Tier: "", Fam: "", Parts: 3, Dec: 17, DecT: 18, Sch: sch_ManyVar3, New: func() any { return new(ManyVar3) }, Set: func(p any, v *Val) { set_ManyVar3(p.(*ManyVar3), v) }, Get: func(p any) *Val { return get_ManyVar3(p.(*ManyVar3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ManyVar3)(nil)) }},
	{Name: "Vec3_Bytes2_n1", Tier: "", Fam: "", Parts: 3, Dec: 16, DecT: 17, Sch: sch_Vec3_Bytes2_n1, New: func() any { return new([3]Bytes2_n1) }, Set: func(p any, v *Val) { set_Vec3_Bytes2_n1(p.(*[3]Bytes2_n1), v) }, Get: func(p any) *Val { return get_Vec3_Bytes2_n1(p.(*[3]Bytes2_n1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Bytes2_n1)(nil)) }},
	{Name: "List3_Bytes2_n1_n0_2_3", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List3_Bytes2_n1_n0_2_3, New: func() any { return new(List3_Bytes2_n1_n0_2_3) }, Set: func(p any, v *Val) { set_List3_Bytes2_n1_n0_2_3(p.(*List3_Bytes2_n1_n0_2_3), v) }, Get: func(p any) *Val { return get_List3_Bytes2_n1_n0_2_3(p.(*List3_Bytes2_n1_n0_2_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Bytes2_n1_n0_2_3)(nil)) }},
	{Name: "ManyVar5", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 27, Sch: sch_ManyVar5, New: func() any { return new(ManyVar5) }, Set: func(p any, v *Val) { set_ManyVar5(p.(*ManyVar5), v) }, Get: func(p any) *Val { return get_ManyVar5(p.(*ManyVar5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ManyVar5)(nil)) }},
	{Name: "Vec5_Bytes2_n1", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 27, Sch: sch_Vec5_Bytes2_n1, New: func() any { return new([5]Bytes2_n1) }, Set: func(p any, v *Val) { set_Vec5_Bytes2_n1(p.(*[5]Bytes2_n1), v) }, Get: func(p any) *Val { return get_Vec5_Bytes2_n1(p.(*[5]Bytes2_n1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[5]Bytes2_n1)(nil)) }},
	{Name: "List5_Bytes2_n1_n0_4_5", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List5_Bytes2_n1_n0_4_5, New: func() any { return new(List5_Bytes2_n1_n0_4_5) }, Set: func(p any, v *Val) { set_List5_Bytes2_n1_n0_4_5(p.(*List5_Bytes2_n1_n0_4_5), v) }, Get: func(p any) *Val { return get_List5_Bytes2_n1_n0_4_5(p.(*List5_Bytes2_n1_n0_4_5)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Bytes2_n1_n0_4_5)(nil)) }},
	{Name: "ManyVar9", Tier: "", Fam: "", Parts: 9, Dec: 0, DecT: 46, Sch: sch_ManyVar9, New: func() any { return new(ManyVar9) }, Set: func(p any, v *Val) { set_ManyVar9(p.(*ManyVar9), v) }, Get: func(p any) *Val { return get_ManyVar9(p.(*ManyVar9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ManyVar9)(nil)) }},
	{Name: "Vec9_Bytes2_n1", Tier: "", Fam: "", Parts: 9, Dec: 0, DecT: 46, Sch: sch_Vec9_Bytes2_n1, New: func() any { return new([9]Bytes2_n1) }, Set: func(p any, v *Val) { set_Vec9_Bytes2_n1(p.(*[9]Bytes2_n1), v) }, Get: func(p any) *Val { return get_Vec9_Bytes2_n1(p.(*[9]Bytes2_n1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[9]Bytes2_n1)(nil)) }},
	{Name: "List9_Bytes2_n1_n0_8_9", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List9_Bytes2_n1_n0_8_9, New: func() any { return new(List9_Bytes2_n1_n0_8_9) }, Set: func(p any, v *Val) { set_List9_Bytes2_n1_n0_8_9(p.(*List9_Bytes2_n1_n0_8_9), v) }, Get: func(p any) *Val { return get_List9_Bytes2_n1_n0_8_9(p.(*List9_Bytes2_n1_n0_8_9)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List9_Bytes2_n1_n0_8_9)(nil)) }},
	{Name: "ManyVar17", Tier: "", Fam: "", Parts: 17, Dec: 0, DecT: 104, Sch: sch_ManyVar17, New: func() any { return new(ManyVar17) }, Set: func(p any, v *Val) { set_ManyVar17(p.(*ManyVar17), v) }, Get: func(p any) *Val { return get_ManyVar17(p.(*ManyVar17)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ManyVar17)(nil)) }},
	{Name: "ManyVar33", Tier: "", Fam: "", Parts: 33, Dec: 0, DecT: 199, Sch: sch_ManyVar33, New: func() any { return new(ManyVar33) }, Set: func(p any, v *Val) { set_ManyVar33(p.(*ManyVar33), v) }, Get: func(p any) *Val { return get_ManyVar33(p.(*ManyVar33)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ManyVar33)(nil)) }},
	{Name: "ManyVar70", Tier: "", Fam: "", Parts: 70, Dec: 0, DecT: 423, Sch: sch_ManyVar70, New: func() any { return new(ManyVar70) }, Set: func(p any, v *Val) { set_ManyVar70(p.(*ManyVar70), v) }, Get: func(p any) *Val { return get_ManyVar70(p.(*ManyVar70)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ManyVar70)(nil)) }},
	{Name: "Vec3_Bytes4294967301_g1", Tier: "", Fam: "", Parts: 3, Dec: 16, DecT: 17, Sch: sch_Vec3_Bytes4294967301_g1, New: func() any { return new([3]Bytes4294967301_g1) }, Set: func(p any, v *Val) { set_Vec3_Bytes4294967301_g1(p.(*[3]Bytes4294967301_g1), v) }, Get: func(p any) *Val { return get_Vec3_Bytes4294967301_g1(p.(*[3]Bytes4294967301_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Bytes4294967301_g1)(nil)) }},
	{Name: "List5_Bytes4294967301_g1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 6, DecT: 7, Sch: sch_List5_Bytes4294967301_g1_n0_2, New: func() any { return new(List5_Bytes4294967301_g1_n0_2) }, Set: func(p any, v *Val) { set_List5_Bytes4294967301_g1_n0_2(p.(*List5_Bytes4294967301_g1_n0_2), v) }, Get: func(p any) *Val { return get_List5_Bytes4294967301_g1_n0_2(p.(*List5_Bytes4294967301_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Bytes4294967301_g1_n0_2)(nil)) }},
	{Name: "SF_Bytes4294967301_g1", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_SF_Bytes4294967301_g1, New: func() any { return new(SF_Bytes4294967301_g1) }, Set: func(p any, v *Val) { set_SF_Bytes4294967301_g1(p.(*SF_Bytes4294967301_g1), v) }, Get: func(p any) *Val { return get_SF_Bytes4294967301_g1(p.(*SF_Bytes4294967301_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SF_Bytes4294967301_g1)(nil)) }},
	{Name: "List1048576_List3_Bytes4294967301_g1_n0_1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List1048576_List3_Bytes4294967301_g1_n0_1_n0_1, New: func() any { return new(List1048576_List3_Bytes4294967301_g1_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List1048576_List3_Bytes4294967301_g1_n0_1_n0_1(p.(*List1048576_List3_Bytes4294967301_g1_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List1048576_List3_Bytes4294967301_g1_n0_1_n0_1(p.(*List1048576_List3_Bytes4294967301_g1_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_List3_Bytes4294967301_g1_n0_1_n0_1)(nil)) }},
	{Name: "Vec3_List4294967301_U64_g1", Tier: "", Fam: "", Parts: 3, Dec: 37, DecT: 38, Sch: sch_Vec3_List4294967301_U64_g1, New: func() any { return new([3]List4294967301_U64_g1) }, Set: func(p any, v *Val) { set_Vec3_List4294967301_U64_g1(p.(*[3]List4294967301_U64_g1), v) }, Get: func(p any) *Val { return get_Vec3_List4294967301_U64_g1(p.(*[3]List4294967301_U64_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]List4294967301_U64_g1)(nil)) }},
	{Name: "List5_List4294967301_U64_g1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 13, DecT: 14, Sch: sch_List5_List4294967301_U64_g1_n0_2, New: func() any { return new(List5_List4294967301_U64_g1_n0_2) }, Set: func(p any, v *Val) { set_List5_List4294967301_U64_g1_n0_2(p.(*List5_List4294967301_U64_g1_n0_2), v) }, Get: func(p any) *Val { return get_List5_List4294967301_U64_g1_n0_2(p.(*List5_List4294967301_U64_g1_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_List4294967301_U64_g1_n0_2)(nil)) }},
	{Name: "SF_List4294967301_U64_g1", Tier: "", Fam: "", Parts: 2, Dec: 30, DecT: 31, Sch: sch_SF_List4294967301_U64_g1, New: func() any { return new(SF_List4294967301_U64_g1) }, Set: func(p any, v *Val) { set_SF_List4294967301_U64_g1(p.(*SF_List4294967301_U64_g1), v) }, Get: func(p any) *Val { return get_SF_List4294967301_U64_g1(p.(*SF_List4294967301_U64_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SF_List4294967301_U64_g1)(nil)) }},
	{Name: "List1048576_List3_List4294967301_U64_g1_n0_1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 17, DecT: 18, Sch: sch_List1048576_List3_List4294967301_U64_g1_n0_1_n0_1, New: func() any { return new(List1048576_List3_List4294967301_U64_g1_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List1048576_List3_List4294967301_U64_g1_n0_1_n0_1(p.(*List1048576_List3_List4294967301_U64_g1_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List1048576_List3_List4294967301_U64_g1_n0_1_n0_1(p.(*List1048576_List3_List4294967301_U64_g1_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_List3_List4294967301_U64_g1_n0_1_n0_1)(nil)) }},
	{Name: "Vec3_Bitlist34359738373_g3", Tier: "", Fam: "", Parts: 3, Dec: 16, DecT: 17, Sch: sch_Vec3_Bitlist34359738373_g3, New: func() any { return new([3]Bitlist34359738373_g3) }, Set: func(p any, v *Val) { set_Vec3_Bitlist34359738373_g3(p.(*[3]Bitlist34359738373_g3), v) }, Get: func(p any) *Val { return get_Vec3_Bitlist34359738373_g3(p.(*[3]Bitlist34359738373_g3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Bitlist34359738373_g3)(nil)) }},
	{Name: "List5_Bitlist34359738373_g3_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 6, DecT: 7, Sch: sch_List5_Bitlist34359738373_g3_n0_2, New: func() any { return new(List5_Bitlist34359738373_g3_n0_2) }, Set: func(p any, v *Val) { set_List5_Bitlist34359738373_g3_n0_2(p.(*List5_Bitlist34359738373_g3_n0_2), v) }, Get: func(p any) *Val { return get_List5_Bitlist34359738373_g3_n0_2(p.(*List5_Bitlist34359738373_g3_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Bitlist34359738373_g3_n0_2)(nil)) }},
	{Name: "SF_Bitlist34359738373_g3", Tier: "", Fam: "", Parts: 2, Dec: 16, DecT: 17, Sch: sch_SF_Bitlist34359738373_g3, New: func() any { return new(SF_Bitlist34359738373_g3) }, Set: func(p any, v *Val) { set_SF_Bitlist34359738373_g3(p.(*SF_Bitlist34359738373_g3), v) }, Get: func(p any) *Val { return get_SF_Bitlist34359738373_g3(p.(*SF_Bitlist34359738373_g3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SF_Bitlist34359738373_g3)(nil)) }},
	{Name: "List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1, New: func() any { return new(List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1(p.(*List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1(p.(*List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_List3_Bitlist34359738373_g3_n0_1_n0_1)(nil)) }},
	{Name: "Vec3_List2147483648_Small_g1", Tier: "", Fam: "", Parts: 3, Dec: 22, DecT: 23, Sch: sch_Vec3_List2147483648_Small_g1, New: func() any { return new([3]List2147483648_Small_g1) }, Set: func(p any, v *Val) { set_Vec3_List2147483648_Small_g1(p.(*[3]List2147483648_Small_g1), v) }, Get: func(p any) *Val { return get_Vec3_List2147483648_Small_g1(p.(*[3]List2147483648_Small_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]List2147483648_Small_g1)(nil)) }},
	{Name: "List5_List2147483648_Small_g1_n0_2", Tier: "", Fam: "", Parts: 2, Dec: 8, DecT: 9, Sch: sch_List5_List2147483648_Small_g1_n0_2, New: func() any { return new(List5_List2147483648_Small_g1_n0_2) }, Set: func(p any, v *Val) {
		set_List5_List2147483648_Small_g1_n0_2(p.(*List5_List2147483648_Small_g1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List5_List2147483648_Small_g1_n0_2(p.(*List5_List2147483648_Small_g1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_List2147483648_Small_g1_n0_2)(nil)) }},
	{Name: "SF_List2147483648_Small_g1", Tier: "", Fam: "", Parts: 2, Dec: 20, DecT: 21, Sch: sch_SF_List2147483648_Small_g1, New: func() any { return new(SF_List2147483648_Small_g1) }, Set: func(p any, v *Val) { set_SF_List2147483648_Small_g1(p.(*SF_List2147483648_Small_g1), v) }, Get: func(p any) *Val { return get_SF_List2147483648_Small_g1(p.(*SF_List2147483648_Small_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SF_List2147483648_Small_g1)(nil)) }},
	{Name: "List1048576_List3_List2147483648_Small_g1_n0_1_n0_1", Tier: "", Fam: "", Parts: 3, Dec: 12, DecT: 13, Sch: sch_List1048576_List3_List2147483648_Small_g1_n0_1_n0_1, New: func() any { return new(List1048576_List3_List2147483648_Small_g1_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List1048576_List3_List2147483648_Small_g1_n0_1_n0_1(p.(*List1048576_List3_List2147483648_Small_g1_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List1048576_List3_List2147483648_Small_g1_n0_1_n0_1(p.(*List1048576_List3_List2147483648_Small_g1_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_List3_List2147483648_Small_g1_n0_1_n0_1)(nil)) }},
	{Name: "Vec3_List1073741824_Bytes2_g1_g1", Tier: "", Fam: "", Parts: 6, Dec: 0, DecT: 28, Sch: sch_Vec3_List1073741824_Bytes2_g1_g1, New: func() any { return new([3]List1073741824_Bytes2_g1_g1) }, Set: func(p any, v *Val) { set_Vec3_List1073741824_Bytes2_g1_g1(p.(*[3]List1073741824_Bytes2_g1_g1), v) }, Get: func(p any) *Val { return get_Vec3_List1073741824_Bytes2_g1_g1(p.(*[3]List1073741824_Bytes2_g1_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]List1073741824_Bytes2_g1_g1)(nil)) }},
	{Name: "List5_List1073741824_Bytes2_g1_g1_n0_2", Tier: "", Fam: "", Parts: 3, Dec: 10, DecT: 11, Sch: sch_List5_List1073741824_Bytes2_g1_g1_n0_2, New: func() any { return new(List5_List1073741824_Bytes2_g1_g1_n0_2) }, Set: func(p any, v *Val) {
		set_List5_List1073741824_Bytes2_g1_g1_n0_2(p.(*List5_List1073741824_Bytes2_g1_g1_n0_2), v)
	}, Get: func(p any) *Val {
		return get_List5_List1073741824_Bytes2_g1_g1_n0_2(p.(*List5_List1073741824_Bytes2_g1_g1_n0_2))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_List1073741824_Bytes2_g1_g1_n0_2)(nil)) }},
	{Name: "SF_List1073741824_Bytes2_g1_g1", Tier: "", Fam: "", Parts: 4, Dec: 24, DecT: 25, Sch: sch_SF_List1073741824_Bytes2_g1_g1, New: func() any { return new(SF_List1073741824_Bytes2_g1_g1) }, Set: func(p any, v *Val) { set_SF_List1073741824_Bytes2_g1_g1(p.(*SF_List1073741824_Bytes2_g1_g1), v) }, Get: func(p any) *Val { return get_SF_List1073741824_Bytes2_g1_g1(p.(*SF_List1073741824_Bytes2_g1_g1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SF_List1073741824_Bytes2_g1_g1)(nil)) }},
	{Name: "List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1", Tier: "", Fam: "", Parts: 4, Dec: 14, DecT: 15, Sch: sch_List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1, New: func() any { return new(List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1(p.(*List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1(p.(*List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_List3_List1073741824_Bytes2_g1_g1_n0_1_n0_1)(nil)) }},
	{Name: "List1_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List1_Small_n0_1, New: func() any { return new(List1_Small_n0_1) }, Set: func(p any, v *Val) { set_List1_Small_n0_1(p.(*List1_Small_n0_1), v) }, Get: func(p any) *Val { return get_List1_Small_n0_1(p.(*List1_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1_Small_n0_1)(nil)) }},
	{Name: "List1_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List1_Bytes2_g1_n0_1, New: func() any { return new(List1_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List1_Bytes2_g1_n0_1(p.(*List1_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List1_Bytes2_g1_n0_1(p.(*List1_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List2_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List2_Small_n0_1, New: func() any { return new(List2_Small_n0_1) }, Set: func(p any, v *Val) { set_List2_Small_n0_1(p.(*List2_Small_n0_1), v) }, Get: func(p any) *Val { return get_List2_Small_n0_1(p.(*List2_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Small_n0_1)(nil)) }},
	{Name: "List2_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List2_Bytes2_g1_n0_1, New: func() any { return new(List2_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List2_Bytes2_g1_n0_1(p.(*List2_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List2_Bytes2_g1_n0_1(p.(*List2_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List3_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List3_Small_n0_1, New: func() any { return new(List3_Small_n0_1) }, Set: func(p any, v *Val) { set_List3_Small_n0_1(p.(*List3_Small_n0_1), v) }, Get: func(p any) *Val { return get_List3_Small_n0_1(p.(*List3_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Small_n0_1)(nil)) }},
	{Name: "List3_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List3_Bytes2_g1_n0_1, New: func() any { return new(List3_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List3_Bytes2_g1_n0_1(p.(*List3_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List3_Bytes2_g1_n0_1(p.(*List3_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List5_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List5_Small_n0_1, New: func() any { return new(List5_Small_n0_1) }, Set: func(p any, v *Val) { set_List5_Small_n0_1(p.(*List5_Small_n0_1), v) }, Get: func(p any) *Val { return get_List5_Small_n0_1(p.(*List5_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Small_n0_1)(nil)) }},
	{Name: "List5_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List5_Bytes2_g1_n0_1, New: func() any { return new(List5_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List5_Bytes2_g1_n0_1(p.(*List5_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List5_Bytes2_g1_n0_1(p.(*List5_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List8_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List8_Small_n0_1, New: func() any { return new(List8_Small_n0_1) }, Set: func(p any, v *Val) { set_List8_Small_n0_1(p.(*List8_Small_n0_1), v) }, Get: func(p any) *Val { return get_List8_Small_n0_1(p.(*List8_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8_Small_n0_1)(nil)) }},
	{Name: "List8_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List8_Bytes2_g1_n0_1, New: func() any { return new(List8_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List8_Bytes2_g1_n0_1(p.(*List8_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List8_Bytes2_g1_n0_1(p.(*List8_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List8_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List9_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List9_Small_n0_1, New: func() any { return new(List9_Small_n0_1) }, Set: func(p any, v *Val) { set_List9_Small_n0_1(p.(*List9_Small_n0_1), v) }, Get: func(p any) *Val { return get_List9_Small_n0_1(p.(*List9_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List9_Small_n0_1)(nil)) }},
	{Name: "List9_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List9_Bytes2_g1_n0_1, New: func() any { return new(List9_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List9_Bytes2_g1_n0_1(p.(*List9_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List9_Bytes2_g1_n0_1(p.(*List9_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List9_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List1048576_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List1048576_Small_n0_1, New: func() any { return new(List1048576_Small_n0_1) }, Set: func(p any, v *Val) { set_List1048576_Small_n0_1(p.(*List1048576_Small_n0_1), v) }, Get: func(p any) *Val { return get_List1048576_Small_n0_1(p.(*List1048576_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_Small_n0_1)(nil)) }},
	{Name: "List1048576_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List1048576_Bytes2_g1_n0_1, New: func() any { return new(List1048576_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List1048576_Bytes2_g1_n0_1(p.(*List1048576_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List1048576_Bytes2_g1_n0_1(p.(*List1048576_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List4294967296_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List4294967296_Small_n0_1, New: func() any { return new(List4294967296_Small_n0_1) }, Set: func(p any, v *Val) { set_List4294967296_Small_n0_1(p.(*List4294967296_Small_n0_1), v) }, Get: func(p any) *Val { return get_List4294967296_Small_n0_1(p.(*List4294967296_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4294967296_Small_n0_1)(nil)) }},
	{Name: "List4294967296_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List4294967296_Bytes2_g1_n0_1, New: func() any { return new(List4294967296_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List4294967296_Bytes2_g1_n0_1(p.(*List4294967296_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List4294967296_Bytes2_g1_n0_1(p.(*List4294967296_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4294967296_Bytes2_g1_n0_1)(nil)) }},
	{Name: "List1099511627776_Small_n0_1", Tier: "", Fam: "", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List1099511627776_Small_n0_1, New: func() any { return new(List1099511627776_Small_n0_1) }, Set: func(p any, v *Val) { set_List1099511627776_Small_n0_1(p.(*List1099511627776_Small_n0_1), v) }, Get: func(p any) *Val { return get_List1099511627776_Small_n0_1(p.(*List1099511627776_Small_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1099511627776_Small_n0_1)(nil)) }},
	{Name: "List1099511627776_Bytes2_g1_n0_1", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List1099511627776_Bytes2_g1_n0_1, New: func() any { return new(List1099511627776_Bytes2_g1_n0_1) }, Set: func(p any, v *Val) { set_List1099511627776_Bytes2_g1_n0_1(p.(*List1099511627776_Bytes2_g1_n0_1), v) }, Get: func(p any) *Val { return get_List1099511627776_Bytes2_g1_n0_1(p.(*List1099511627776_Bytes2_g1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1099511627776_Bytes2_g1_n0_1)(nil)) }},
	{Name: "Pad1", Tier: "", Fam: "", Parts: 0, Dec: 18, DecT: 18, Sch: sch_Pad1, New: func() any { return new(Pad1) }, Set: func(p any, v *Val) { set_Pad1(p.(*Pad1), v) }, Get: func(p any) *Val { return get_Pad1(p.(*Pad1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Pad1)(nil)) }},
	{Name: "Pad2", Tier: "", Fam: "", Parts: 0, Dec: 11, DecT: 11, Sch: sch_Pad2, New: func() any { return new(Pad2) }, Set: func(p any, v *Val) { set_Pad2(p.(*Pad2), v) }, Get: func(p any) *Val { return get_Pad2(p.(*Pad2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Pad2)(nil)) }},
	{Name: "Vec3_Pad2", Tier: "", Fam: "", Parts: 0, Dec: 31, DecT: 31, Sch: sch_Vec3_Pad2, New: func() any { return new([3]Pad2) }, Set: func(p any, v *Val) { set_Vec3_Pad2(p.(*[3]Pad2), v) }, Get: func(p any) *Val { return get_Vec3_Pad2(p.(*[3]Pad2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Pad2)(nil)) }},
	{Name: "List3_Pad2_n0_1_3", Tier: "", Fam: "", Parts: 1, Dec: 12, DecT: 13, Sch: sch_List3_Pad2_n0_1_3, New: func() any { return new(List3_Pad2_n0_1_3) }, Set: func(p any, v *Val) { set_List3_Pad2_n0_1_3(p.(*List3_Pad2_n0_1_3), v) }, Get: func(p any) *Val { return get_List3_Pad2_n0_1_3(p.(*List3_Pad2_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Pad2_n0_1_3)(nil)) }},
	{Name: "Vec2_Vec2_Pad2", Tier: "", Fam: "", Parts: 0, Dec: 41, DecT: 41, Sch: sch_Vec2_Vec2_Pad2, New: func() any { return new([2][2]Pad2) }, Set: func(p any, v *Val) { set_Vec2_Vec2_Pad2(p.(*[2][2]Pad2), v) }, Get: func(p any) *Val { return get_Vec2_Vec2_Pad2(p.(*[2][2]Pad2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][2]Pad2)(nil)) }},
	{Name: "List2_Vec2_Pad2_n0_2", Tier: "", Fam: "", Parts: 1, Dec: 22, DecT: 23, Sch: sch_List2_Vec2_Pad2_n0_2, New: func() any { return new(List2_Vec2_Pad2_n0_2) }, Set: func(p any, v *Val) { set_List2_Vec2_Pad2_n0_2(p.(*List2_Vec2_Pad2_n0_2), v) }, Get: func(p any) *Val { return get_List2_Vec2_Pad2_n0_2(p.(*List2_Vec2_Pad2_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_Vec2_Pad2_n0_2)(nil)) }},
	{Name: "Vec2_Ptr_Pad2", Tier: "", Fam: "", Parts: 0, Dec: 21, DecT: 21, Sch: sch_Vec2_Ptr_Pad2, New: func() any { return new([2]*Pad2) }, Set: func(p any, v *Val) { set_Vec2_Ptr_Pad2(p.(*[2]*Pad2), v) }, Get: func(p any) *Val { return get_Vec2_Ptr_Pad2(p.(*[2]*Pad2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]*Pad2)(nil)) }},
	{Name: "List3_Ptr_Bytes3_g1_n0_1_2", Tier: "", Fam: "", Parts: 2, Dec: 7, DecT: 8, Sch: sch_List3_Ptr_Bytes3_g1_n0_1_2, New: func() any { return new(List3_Ptr_Bytes3_g1_n0_1_2) }, Set: func(p any, v *Val) { set_List3_Ptr_Bytes3_g1_n0_1_2(p.(*List3_Ptr_Bytes3_g1_n0_1_2), v) }, Get: func(p any) *Val { return get_List3_Ptr_Bytes3_g1_n0_1_2(p.(*List3_Ptr_Bytes3_g1_n0_1_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Ptr_Bytes3_g1_n0_1_2)(nil)) }},
	{Name: "Vec2_Ptr_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 65, DecT: 65, Sch: sch_Vec2_Ptr_BytesN32, New: func() any { return new([2]*[32]byte) }, Set: func(p any, v *Val) { set_Vec2_Ptr_BytesN32(p.(*[2]*[32]byte), v) }, Get: func(p any) *Val { return get_Vec2_Ptr_BytesN32(p.(*[2]*[32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]*[32]byte)(nil)) }},
	{Name: "List3_Ptr_Vec2_U16_n0_2", Tier: "", Fam: "", Parts: 1, Dec: 6, DecT: 7, Sch: sch_List3_Ptr_Vec2_U16_n0_2, New: func() any { return new(List3_Ptr_Vec2_U16_n0_2) }, Set: func(p any, v *Val) { set_List3_Ptr_Vec2_U16_n0_2(p.(*List3_Ptr_Vec2_U16_n0_2), v) }, Get: func(p any) *Val { return get_List3_Ptr_Vec2_U16_n0_2(p.(*List3_Ptr_Vec2_U16_n0_2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Ptr_Vec2_U16_n0_2)(nil)) }},
	{Name: "Oct", Tier: "", Fam: "", Parts: 0, Dec: 2, DecT: 2, Sch: sch_Oct, New: func() any { return new(Oct) }, Set: func(p any, v *Val) { set_Oct(p.(*Oct), v) }, Get: func(p any) *Val { return get_Oct(p.(*Oct)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Oct)(nil)) }},
	{Name: "Half", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Half, New: func() any { return new(Half) }, Set: func(p any, v *Val) { set_Half(p.(*Half), v) }, Get: func(p any) *Val { return get_Half(p.(*Half)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Half)(nil)) }},
	{Name: "Word", Tier: "", Fam: "", Parts: 0, Dec: 5, DecT: 5, Sch: sch_Word, New: func() any { return new(Word) }, Set: func(p any, v *Val) { set_Word(p.(*Word), v) }, Get: func(p any) *Val { return get_Word(p.(*Word)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Word)(nil)) }},
	{Name: "BytesN5_Oct", Tier: "", Fam: "", Parts: 0, Dec: 6, DecT: 6, Sch: sch_BytesN5_Oct, New: func() any { return new([5]Oct) }, Set: func(p any, v *Val) { set_BytesN5_Oct(p.(*[5]Oct), v) }, Get: func(p any) *Val { return get_BytesN5_Oct(p.(*[5]Oct)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[5]Oct)(nil)) }},
	{Name: "Bytes5_n0_1_5_Oct", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_Bytes5_n0_1_5_Oct, New: func() any { return new(Bytes5_n0_1_5_Oct) }, Set: func(p any, v *Val) { set_Bytes5_n0_1_5_Oct(p.(*Bytes5_n0_1_5_Oct), v) }, Get: func(p any) *Val { return get_Bytes5_n0_1_5_Oct(p.(*Bytes5_n0_1_5_Oct)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes5_n0_1_5_Oct)(nil)) }},
	{Name: "Vec3_Half", Tier: "", Fam: "", Parts: 0, Dec: 7, DecT: 7, Sch: sch_Vec3_Half, New: func() any { return new([3]Half) }, Set: func(p any, v *Val) { set_Vec3_Half(p.(*[3]Half), v) }, Get: func(p any) *Val { return get_Vec3_Half(p.(*[3]Half)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Half)(nil)) }},
	{Name: "List3_Word_n0_1_3", Tier: "", Fam: "", Parts: 1, Dec: 10, DecT: 11, Sch: sch_List3_Word_n0_1_3, New: func() any { return new(List3_Word_n0_1_3) }, Set: func(p any, v *Val) { set_List3_Word_n0_1_3(p.(*List3_Word_n0_1_3), v) }, Get: func(p any) *Val { return get_List3_Word_n0_1_3(p.(*List3_Word_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_Word_n0_1_3)(nil)) }},
	{Name: "Vec3_Flag", Tier: "", Fam: "", Parts: 0, Dec: 4, DecT: 4, Sch: sch_Vec3_Flag, New: func() any { return new([3]Flag) }, Set: func(p any, v *Val) { set_Vec3_Flag(p.(*[3]Flag), v) }, Get: func(p any) *Val { return get_Vec3_Flag(p.(*[3]Flag)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]Flag)(nil)) }},
	{Name: "Named", Tier: "", Fam: "", Parts: 1, Dec: 11, DecT: 12, Sch: sch_Named, New: func() any { return new(Named) }, Set: func(p any, v *Val) { set_Named(p.(*Named), v) }, Get: func(p any) *Val { return get_Named(p.(*Named)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Named)(nil)) }},
	{Name: "List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 19, Sch: sch_List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1, New: func() any { return new(List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1) }, Set: func(p any, v *Val) {
		set_List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1(p.(*List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1), v)
	}, Get: func(p any) *Val {
		return get_List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1(p.(*List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_List2_List2_List2_Bytes2_g1_n0_1_n0_1_n0_1_n0_1)(nil)) }},
	{Name: "Deep3", Tier: "", Fam: "", Parts: 0, Dec: 3, DecT: 3, Sch: sch_Deep3, New: func() any { return new(Deep3) }, Set: func(p any, v *Val) { set_Deep3(p.(*Deep3), v) }, Get: func(p any) *Val { return get_Deep3(p.(*Deep3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Deep3)(nil)) }},
	{Name: "DeepV3", Tier: "", Fam: "", Parts: 1, Dec: 23, DecT: 24, Sch: sch_DeepV3, New: func() any { return new(DeepV3) }, Set: func(p any, v *Val) { set_DeepV3(p.(*DeepV3), v) }, Get: func(p any) *Val { return get_DeepV3(p.(*DeepV3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*DeepV3)(nil)) }},
	{Name: "Vec2_Vec2_Vec2_Small", Tier: "", Fam: "", Parts: 0, Dec: 25, DecT: 25, Sch: sch_Vec2_Vec2_Vec2_Small, New: func() any { return new([2][2][2]Small) }, Set: func(p any, v *Val) { set_Vec2_Vec2_Vec2_Small(p.(*[2][2][2]Small), v) }, Get: func(p any) *Val { return get_Vec2_Vec2_Vec2_Small(p.(*[2][2][2]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2][2][2]Small)(nil)) }},
	{Name: "Ptr_Ptr_Ptr_Var1", Tier: "", Fam: "ptr", Parts: 1, Dec: 10, DecT: 11, Sch: sch_Ptr_Ptr_Ptr_Var1, New: func() any { return new(***Var1) }, Set: func(p any, v *Val) { set_Ptr_Ptr_Ptr_Var1(p.(****Var1), v) }, Get: func(p any) *Val { return get_Ptr_Ptr_Ptr_Var1(p.(****Var1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((****Var1)(nil)) }},
	{Name: "L1", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 12, Sch: sch_L1, New: func() any { return new(L1) }, Set: func(p any, v *Val) { set_L1(p.(*L1), v) }, Get: func(p any) *Val { return get_L1(p.(*L1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*L1)(nil)) }},
	{Name: "L2", Tier: "", Fam: "squash", Parts: 1, Dec: 14, DecT: 15, Sch: sch_L2, New: func() any { return new(L2) }, Set: func(p any, v *Val) { set_L2(p.(*L2), v) }, Get: func(p any) *Val { return get_L2(p.(*L2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*L2)(nil)) }},
	{Name: "L3", Tier: "", Fam: "squash", Parts: 2, Dec: 21, DecT: 22, Sch: sch_L3, New: func() any { return new(L3) }, Set: func(p any, v *Val) { set_L3(p.(*L3), v) }, Get: func(p any) *Val { return get_L3(p.(*L3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*L3)(nil)) }},
	{Name: "TwoIn", Tier: "", Fam: "squash", Parts: 0, Dec: 7, DecT: 7, Sch: sch_TwoIn, New: func() any { return new(TwoIn) }, Set: func(p any, v *Val) { set_TwoIn(p.(*TwoIn), v) }, Get: func(p any) *Val { return get_TwoIn(p.(*TwoIn)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*TwoIn)(nil)) }},
	{Name: "List2_L1_n0_1", Tier: "", Fam: "squash", Parts: 2, Dec: 15, DecT: 16, Sch: sch_List2_L1_n0_1, New: func() any { return new(List2_L1_n0_1) }, Set: func(p any, v *Val) { set_List2_L1_n0_1(p.(*List2_L1_n0_1), v) }, Get: func(p any) *Val { return get_List2_L1_n0_1(p.(*List2_L1_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_L1_n0_1)(nil)) }},
	{Name: "Vec2_Om1", Tier: "", Fam: "squash", Parts: 2, Dec: 24, DecT: 25, Sch: sch_Vec2_Om1, New: func() any { return new([2]Om1) }, Set: func(p any, v *Val) { set_Vec2_Om1(p.(*[2]Om1), v) }, Get: func(p any) *Val { return get_Vec2_Om1(p.(*[2]Om1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]Om1)(nil)) }},
	{Name: "Vec3_InOm", Tier: "", Fam: "squash", Parts: 0, Dec: 10, DecT: 10, Sch: sch_Vec3_InOm, New: func() any { return new([3]InOm) }, Set: func(p any, v *Val) { set_Vec3_InOm(p.(*[3]InOm), v) }, Get: func(p any) *Val { return get_Vec3_InOm(p.(*[3]InOm)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[3]InOm)(nil)) }},
	{Name: "List3_InOm_n0_1_3", Tier: "", Fam: "squash", Parts: 1, Dec: 5, DecT: 6, Sch: sch_List3_InOm_n0_1_3, New: func() any { return new(List3_InOm_n0_1_3) }, Set: func(p any, v *Val) { set_List3_InOm_n0_1_3(p.(*List3_InOm_n0_1_3), v) }, Get: func(p any) *Val { return get_List3_InOm_n0_1_3(p.(*List3_InOm_n0_1_3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List3_InOm_n0_1_3)(nil)) }},
	{Name: "OmAll", Tier: "", Fam: "squash", Parts: 0, Dec: 3, DecT: 3, Sch: sch_OmAll, New: func() any { return new(OmAll) }, Set: func(p any, v *Val) { set_OmAll(p.(*OmAll), v) }, Get: func(p any) *Val { return get_OmAll(p.(*OmAll)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*OmAll)(nil)) }},
	{Name: "SqEmb", Tier: "", Fam: "squash", Parts: 1, Dec: 19, DecT: 20, Sch: sch_SqEmb, New: func() any { return new(SqEmb) }, Set: func(p any, v *Val) { set_SqEmb(p.(*SqEmb), v) }, Get: func(p any) *Val { return get_SqEmb(p.(*SqEmb)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SqEmb)(nil)) }},
	{Name: "SqFix", Tier: "", Fam: "squash", Parts: 0, Dec: 60, DecT: 60, Sch: sch_SqFix, New: func() any { return new(SqFix) }, Set: func(p any, v *Val) { set_SqFix(p.(*SqFix), v) }, Get: func(p any) *Val { return get_SqFix(p.(*SqFix)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SqFix)(nil)) }},
	{Name: "EmbOmit", Tier: "", Fam: "squash", Parts: 1, Dec: 11, DecT: 12, Sch: sch_EmbOmit, New: func() any { return new(EmbOmit) }, Set: func(p any, v *Val) { set_EmbOmit(p.(*EmbOmit), v) }, Get: func(p any) *Val { return get_EmbOmit(p.(*EmbOmit)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*EmbOmit)(nil)) }},
	{Name: "TagNear", Tier: "", Fam: "squash", Parts: 1, Dec: 32, DecT: 33, Sch: sch_TagNear, New: func() any { return new(TagNear) }, Set: func(p any, v *Val) { set_TagNear(p.(*TagNear), v) }, Get: func(p any) *Val { return get_TagNear(p.(*TagNear)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*TagNear)(nil)) }},
	{Name: "OmFirst", Tier: "", Fam: "squash", Parts: 2, Dec: 16, DecT: 17, Sch: sch_OmFirst, New: func() any { return new(OmFirst) }, Set: func(p any, v *Val) { set_OmFirst(p.(*OmFirst), v) }, Get: func(p any) *Val { return get_OmFirst(p.(*OmFirst)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*OmFirst)(nil)) }},
	{Name: "SqHid", Tier: "", Fam: "squash", Parts: 0, Dec: 4, DecT: 4, Sch: sch_SqHid, New: func() any { return new(SqHid) }, Set: func(p any, v *Val) { set_SqHid(p.(*SqHid), v) }, Get: func(p any) *Val { return get_SqHid(p.(*SqHid)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SqHid)(nil)) }},
	{Name: "SqTwice", Tier: "", Fam: "squash", Parts: 3, Dec: 26, DecT: 27, Sch: sch_SqTwice, New: func() any { return new(SqTwice) }, Set: func(p any, v *Val) { set_SqTwice(p.(*SqTwice), v) }, Get: func(p any) *Val { return get_SqTwice(p.(*SqTwice)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SqTwice)(nil)) }},
	{Name: "SqPtrIn", Tier: "", Fam: "squash", Parts: 1, Dec: 18, DecT: 19, Sch: sch_SqPtrIn, New: func() any { return new(SqPtrIn) }, Set: func(p any, v *Val) { set_SqPtrIn(p.(*SqPtrIn), v) }, Get: func(p any) *Val { return get_SqPtrIn(p.(*SqPtrIn)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SqPtrIn)(nil)) }},
	{Name: "Vec2_EmbOmit", Tier: "", Fam: "squash", Parts: 2, Dec: 27, DecT: 28, Sch: sch_Vec2_EmbOmit, New: func() any { return new([2]EmbOmit) }, Set: func(p any, v *Val) { set_Vec2_EmbOmit(p.(*[2]EmbOmit), v) }, Get: func(p any) *Val { return get_Vec2_EmbOmit(p.(*[2]EmbOmit)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[2]EmbOmit)(nil)) }},
	{Name: "List2_L3_n0_1", Tier: "", Fam: "squash", Parts: 3, Dec: 23, DecT: 24, Sch: sch_List2_L3_n0_1, New: func() any { return new(List2_L3_n0_1) }, Set: func(p any, v *Val) { set_List2_L3_n0_1(p.(*List2_L3_n0_1), v) }, Get: func(p any) *Val { return get_List2_L3_n0_1(p.(*List2_L3_n0_1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List2_L3_n0_1)(nil)) }},
	{Name: "Ptr_L2", Tier: "", Fam: "ptr", Parts: 1, Dec: 14, DecT: 15, Sch: sch_Ptr_L2, New: func() any { return new(*L2) }, Set: func(p any, v *Val) { set_Ptr_L2(p.(**L2), v) }, Get: func(p any) *Val { return get_Ptr_L2(p.(**L2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((**L2)(nil)) }},
	{Name: "SqDeep", Tier: "", Fam: "squash", Parts: 2, Dec: 17, DecT: 18, Sch: sch_SqDeep, New: func() any { return new(SqDeep) }, Set: func(p any, v *Val) { set_SqDeep(p.(*SqDeep), v) }, Get: func(p any) *Val { return get_SqDeep(p.(*SqDeep)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*SqDeep)(nil)) }},
	{Name: "BytesN1000", Tier: "", Fam: "", Parts: 0, Dec: 1001, DecT: 1001, Sch: sch_BytesN1000, New: func() any { return new([1000]byte) }, Set: func(p any, v *Val) { set_BytesN1000(p.(*[1000]byte), v) }, Get: func(p any) *Val { return get_BytesN1000(p.(*[1000]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1000]byte)(nil)) }},
	{Name: "Bytes1048576_n1000_1024", Tier: "", Fam: "", Parts: 1, Dec: 1, DecT: 2, Sch: sch_Bytes1048576_n1000_1024, New: func() any { return new(Bytes1048576_n1000_1024) }, Set: func(p any, v *Val) { set_Bytes1048576_n1000_1024(p.(*Bytes1048576_n1000_1024), v) }, Get: func(p any) *Val { return get_Bytes1048576_n1000_1024(p.(*Bytes1048576_n1000_1024)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes1048576_n1000_1024)(nil)) }},
	{Name: "Bitlist4096_n2047_2048_4095_4096", Tier: "", Fam: "", Parts: 1, Dec: 1, DecT: 2, Sch: sch_Bitlist4096_n2047_2048_4095_4096, New: func() any { return new(Bitlist4096_n2047_2048_4095_4096) }, Set: func(p any, v *Val) { set_Bitlist4096_n2047_2048_4095_4096(p.(*Bitlist4096_n2047_2048_4095_4096), v) }, Get: func(p any) *Val { return get_Bitlist4096_n2047_2048_4095_4096(p.(*Bitlist4096_n2047_2048_4095_4096)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist4096_n2047_2048_4095_4096)(nil)) }},
	{Name: "List4096_U64_n300", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List4096_U64_n300, New: func() any { return new(List4096_U64_n300) }, Set: func(p any, v *Val) { set_List4096_U64_n300(p.(*List4096_U64_n300), v) }, Get: func(p any) *Val { return get_List4096_U64_n300(p.(*List4096_U64_n300)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List4096_U64_n300)(nil)) }},
	{Name: "Vec300_U64", Tier: "", Fam: "", Parts: 0, Dec: 0, DecT: 2401, Sch: sch_Vec300_U64, New: func() any { return new([300]uint64) }, Set: func(p any, v *Val) { set_Vec300_U64(p.(*[300]uint64), v) }, Get: func(p any) *Val { return get_Vec300_U64(p.(*[300]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[300]uint64)(nil)) }},
	{Name: "Vec1000_U16", Tier: "", Fam: "", Parts: 0, Dec: 0, DecT: 2001, Sch: sch_Vec1000_U16, New: func() any { return new([1000]uint16) }, Set: func(p any, v *Val) { set_Vec1000_U16(p.(*[1000]uint16), v) }, Get: func(p any) *Val { return get_Vec1000_U16(p.(*[1000]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1000]uint16)(nil)) }},
	{Name: "List100_Small_n99_100", Tier: "", Fam: "", Parts: 1, Dec: 3, DecT: 4, Sch: sch_List100_Small_n99_100, New: func() any { return new(List100_Small_n99_100) }, Set: func(p any, v *Val) { set_List100_Small_n99_100(p.(*List100_Small_n99_100), v) }, Get: func(p any) *Val { return get_List100_Small_n99_100(p.(*List100_Small_n99_100)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List100_Small_n99_100)(nil)) }},
	{Name: "Vec70_Small", Tier: "", Fam: "", Parts: 0, Dec: 211, DecT: 211, Sch: sch_Vec70_Small, New: func() any { return new([70]Small) }, Set: func(p any, v *Val) { set_Vec70_Small(p.(*[70]Small), v) }, Get: func(p any) *Val { return get_Vec70_Small(p.(*[70]Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[70]Small)(nil)) }},
	{Name: "Vec65_BytesN32", Tier: "", Fam: "", Parts: 0, Dec: 0, DecT: 2081, Sch: sch_Vec65_BytesN32, New: func() any { return new([65][32]byte) }, Set: func(p any, v *Val) { set_Vec65_BytesN32(p.(*[65][32]byte), v) }, Get: func(p any) *Val { return get_Vec65_BytesN32(p.(*[65][32]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[65][32]byte)(nil)) }},
	{Name: "List128_BytesN32_n65_128", Tier: "", Fam: "", Parts: 1, Dec: 32, DecT: 33, Sch: sch_List128_BytesN32_n65_128, New: func() any { return new(List128_BytesN32_n65_128) }, Set: func(p any, v *Val) { set_List128_BytesN32_n65_128(p.(*List128_BytesN32_n65_128), v) }, Get: func(p any) *Val { return get_List128_BytesN32_n65_128(p.(*List128_BytesN32_n65_128)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List128_BytesN32_n65_128)(nil)) }},
	{Name: "Vec33_Bytes2_n1", Tier: "", Fam: "", Parts: 33, Dec: 0, DecT: 166, Sch: sch_Vec33_Bytes2_n1, New: func() any { return new([33]Bytes2_n1) }, Set: func(p any, v *Val) { set_Vec33_Bytes2_n1(p.(*[33]Bytes2_n1), v) }, Get: func(p any) *Val { return get_Vec33_Bytes2_n1(p.(*[33]Bytes2_n1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[33]Bytes2_n1)(nil)) }},
	{Name: "List64_Bytes2_n1_n33_64", Tier: "", Fam: "", Parts: 2, Dec: 5, DecT: 6, Sch: sch_List64_Bytes2_n1_n33_64, New: func() any { return new(List64_Bytes2_n1_n33_64) }, Set: func(p any, v *Val) { set_List64_Bytes2_n1_n33_64(p.(*List64_Bytes2_n1_n33_64), v) }, Get: func(p any) *Val { return get_List64_Bytes2_n1_n33_64(p.(*List64_Bytes2_n1_n33_64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List64_Bytes2_n1_n33_64)(nil)) }},
	{Name: "Bitvec4097", Tier: "", Fam: "", Parts: 0, Dec: 514, DecT: 514, Sch: sch_Bitvec4097, New: func() any { return new(Bitvec4097) }, Set: func(p any, v *Val) { set_Bitvec4097(p.(*Bitvec4097), v) }, Get: func(p any) *Val { return get_Bitvec4097(p.(*Bitvec4097)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec4097)(nil)) }},
	{Name: "Bitvec8192", Tier: "", Fam: "", Parts: 0, Dec: 0, DecT: 1025, Sch: sch_Bitvec8192, New: func() any { return new(Bitvec8192) }, Set: func(p any, v *Val) { set_Bitvec8192(p.(*Bitvec8192), v) }, Get: func(p any) *Val { return get_Bitvec8192(p.(*Bitvec8192)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec8192)(nil)) }},
	{Name: "List300_Bool_n257_300", Tier: "", Fam: "", Parts: 1, Dec: 2, DecT: 3, Sch: sch_List300_Bool_n257_300, New: func() any { return new(List300_Bool_n257_300) }, Set: func(p any, v *Val) { set_List300_Bool_n257_300(p.(*List300_Bool_n257_300), v) }, Get: func(p any) *Val { return get_List300_Bool_n257_300(p.(*List300_Bool_n257_300)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List300_Bool_n257_300)(nil)) }},
	{Name: "Vec300_Bool", Tier: "", Fam: "", Parts: 0, Dec: 301, DecT: 301, Sch: sch_Vec300_Bool, New: func() any { return new([300]bool) }, Set: func(p any, v *Val) { set_Vec300_Bool(p.(*[300]bool), v) }, Get: func(p any) *Val { return get_Vec300_Bool(p.(*[300]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[300]bool)(nil)) }},
	{Name: "List1073741824_U32_n129", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List1073741824_U32_n129, New: func() any { return new(List1073741824_U32_n129) }, Set: func(p any, v *Val) { set_List1073741824_U32_n129(p.(*List1073741824_U32_n129), v) }, Get: func(p any) *Val { return get_List1073741824_U32_n129(p.(*List1073741824_U32_n129)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1073741824_U32_n129)(nil)) }},
	{Name: "Many70", Tier: "", Fam: "", Parts: 10, Dec: 0, DecT: 171, Sch: sch_Many70, New: func() any { return new(Many70) }, Set: func(p any, v *Val) { set_Many70(p.(*Many70), v) }, Get: func(p any) *Val { return get_Many70(p.(*Many70)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Many70)(nil)) }},
	{Name: "List1024_U64_n16_17_36_37_64_65", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List1024_U64_n16_17_36_37_64_65, New: func() any { return new(List1024_U64_n16_17_36_37_64_65) }, Set: func(p any, v *Val) { set_List1024_U64_n16_17_36_37_64_65(p.(*List1024_U64_n16_17_36_37_64_65), v) }, Get: func(p any) *Val { return get_List1024_U64_n16_17_36_37_64_65(p.(*List1024_U64_n16_17_36_37_64_65)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1024_U64_n16_17_36_37_64_65)(nil)) }},
	{Name: "List1024_U32_n32_33_40_41_64_65", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List1024_U32_n32_33_40_41_64_65, New: func() any { return new(List1024_U32_n32_33_40_41_64_65) }, Set: func(p any, v *Val) { set_List1024_U32_n32_33_40_41_64_65(p.(*List1024_U32_n32_33_40_41_64_65), v) }, Get: func(p any) *Val { return get_List1024_U32_n32_33_40_41_64_65(p.(*List1024_U32_n32_33_40_41_64_65)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1024_U32_n32_33_40_41_64_65)(nil)) }},
	{Name: "List1024_U16_n32_33_48_49_64_65_128_129", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List1024_U16_n32_33_48_49_64_65_128_129, New: func() any { return new(List1024_U16_n32_33_48_49_64_65_128_129) }, Set: func(p any, v *Val) {
		set_List1024_U16_n32_33_48_49_64_65_128_129(p.(*List1024_U16_n32_33_48_49_64_65_128_129), v)
	}, Get: func(p any) *Val {
		return get_List1024_U16_n32_33_48_49_64_65_128_129(p.(*List1024_U16_n32_33_48_49_64_65_128_129))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1024_U16_n32_33_48_49_64_65_128_129)(nil)) }},
	{Name: "List1024_Bool_n0_32_64_65_96_97_128_129", Tier: "", Fam: "", Parts: 1, Dec: 2, DecT: 3, Sch: sch_List1024_Bool_n0_32_64_65_96_97_128_129, New: func() any { return new(List1024_Bool_n0_32_64_65_96_97_128_129) }, Set: func(p any, v *Val) {
		set_List1024_Bool_n0_32_64_65_96_97_128_129(p.(*List1024_Bool_n0_32_64_65_96_97_128_129), v)
	}, Get: func(p any) *Val {
		return get_List1024_Bool_n0_32_64_65_96_97_128_129(p.(*List1024_Bool_n0_32_64_65_96_97_128_129))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1024_Bool_n0_32_64_65_96_97_128_129)(nil)) }},
	{Name: "Vec37_U64", Tier: "", Fam: "", Parts: 0, Dec: 297, DecT: 297, Sch: sch_Vec37_U64, New: func() any { return new([37]uint64) }, Set: func(p any, v *Val) { set_Vec37_U64(p.(*[37]uint64), v) }, Get: func(p any) *Val { return get_Vec37_U64(p.(*[37]uint64)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[37]uint64)(nil)) }},
	{Name: "Vec49_U16", Tier: "", Fam: "", Parts: 0, Dec: 99, DecT: 99, Sch: sch_Vec49_U16, New: func() any { return new([49]uint16) }, Set: func(p any, v *Val) { set_Vec49_U16(p.(*[49]uint16), v) }, Get: func(p any) *Val { return get_Vec49_U16(p.(*[49]uint16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[49]uint16)(nil)) }},
	{Name: "Vec97_Bool", Tier: "", Fam: "", Parts: 0, Dec: 98, DecT: 98, Sch: sch_Vec97_Bool, New: func() any { return new([97]bool) }, Set: func(p any, v *Val) { set_Vec97_Bool(p.(*[97]bool), v) }, Get: func(p any) *Val { return get_Vec97_Bool(p.(*[97]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[97]bool)(nil)) }},
	{Name: "Vec41_U32", Tier: "", Fam: "", Parts: 0, Dec: 165, DecT: 165, Sch: sch_Vec41_U32, New: func() any { return new([41]uint32) }, Set: func(p any, v *Val) { set_Vec41_U32(p.(*[41]uint32), v) }, Get: func(p any) *Val { return get_Vec41_U32(p.(*[41]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[41]uint32)(nil)) }},
	{Name: "Vec96_Bool", Tier: "", Fam: "", Parts: 0, Dec: 97, DecT: 97, Sch: sch_Vec96_Bool, New: func() any { return new([96]bool) }, Set: func(p any, v *Val) { set_Vec96_Bool(p.(*[96]bool), v) }, Get: func(p any) *Val { return get_Vec96_Bool(p.(*[96]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[96]bool)(nil)) }},
	{Name: "Vec128_Bool", Tier: "", Fam: "", Parts: 0, Dec: 129, DecT: 129, Sch: sch_Vec128_Bool, New: func() any { return new([128]bool) }, Set: func(p any, v *Val) { set_Vec128_Bool(p.(*[128]bool), v) }, Get: func(p any) *Val { return get_Vec128_Bool(p.(*[128]bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[128]bool)(nil)) }},
	{Name: "Bitlist2048_n767_768_769_1023_1024_1025", Tier: "", Fam: "", Parts: 1, Dec: 1, DecT: 2, Sch: sch_Bitlist2048_n767_768_769_1023_1024_1025, New: func() any { return new(Bitlist2048_n767_768_769_1023_1024_1025) }, Set: func(p any, v *Val) {
		set_Bitlist2048_n767_768_769_1023_1024_1025(p.(*Bitlist2048_n767_768_769_1023_1024_1025), v)
	}, Get: func(p any) *Val {
		return get_Bitlist2048_n767_768_769_1023_1024_1025(p.(*Bitlist2048_n767_768_769_1023_1024_1025))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist2048_n767_768_769_1023_1024_1025)(nil)) }},
	{Name: "Bitvec768", Tier: "", Fam: "", Parts: 0, Dec: 97, DecT: 97, Sch: sch_Bitvec768, New: func() any { return new(Bitvec768) }, Set: func(p any, v *Val) { set_Bitvec768(p.(*Bitvec768), v) }, Get: func(p any) *Val { return get_Bitvec768(p.(*Bitvec768)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec768)(nil)) }},
	{Name: "Bitvec769", Tier: "", Fam: "", Parts: 0, Dec: 98, DecT: 98, Sch: sch_Bitvec769, New: func() any { return new(Bitvec769) }, Set: func(p any, v *Val) { set_Bitvec769(p.(*Bitvec769), v) }, Get: func(p any) *Val { return get_Bitvec769(p.(*Bitvec769)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec769)(nil)) }},
	{Name: "Bitvec1024", Tier: "", Fam: "", Parts: 0, Dec: 129, DecT: 129, Sch: sch_Bitvec1024, New: func() any { return new(Bitvec1024) }, Set: func(p any, v *Val) { set_Bitvec1024(p.(*Bitvec1024), v) }, Get: func(p any) *Val { return get_Bitvec1024(p.(*Bitvec1024)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitvec1024)(nil)) }},
	{Name: "Bytes1000_n191_192_193_255_256_257", Tier: "", Fam: "", Parts: 1, Dec: 1, DecT: 2, Sch: sch_Bytes1000_n191_192_193_255_256_257, New: func() any { return new(Bytes1000_n191_192_193_255_256_257) }, Set: func(p any, v *Val) {
		set_Bytes1000_n191_192_193_255_256_257(p.(*Bytes1000_n191_192_193_255_256_257), v)
	}, Get: func(p any) *Val {
		return get_Bytes1000_n191_192_193_255_256_257(p.(*Bytes1000_n191_192_193_255_256_257))
	}, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes1000_n191_192_193_255_256_257)(nil)) }},
	{Name: "BytesN192", Tier: "", Fam: "", Parts: 0, Dec: 193, DecT: 193, Sch: sch_BytesN192, New: func() any { return new([192]byte) }, Set: func(p any, v *Val) { set_BytesN192(p.(*[192]byte), v) }, Get: func(p any) *Val { return get_BytesN192(p.(*[192]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[192]byte)(nil)) }},
	{Name: "BytesN256", Tier: "", Fam: "", Parts: 0, Dec: 257, DecT: 257, Sch: sch_BytesN256, New: func() any { return new([256]byte) }, Set: func(p any, v *Val) { set_BytesN256(p.(*[256]byte), v) }, Get: func(p any) *Val { return get_BytesN256(p.(*[256]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[256]byte)(nil)) }},
	{Name: "Vec1100_U32", Tier: "", Fam: "", Parts: 0, Dec: 4401, DecT: 4401, Sch: sch_Vec1100_U32, New: func() any { return new([1100]uint32) }, Set: func(p any, v *Val) { set_Vec1100_U32(p.(*[1100]uint32), v) }, Get: func(p any) *Val { return get_Vec1100_U32(p.(*[1100]uint32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[1100]uint32)(nil)) }},
	{Name: "List1048576_U64_n520", Tier: "", Fam: "", Parts: 1, Dec: 8, DecT: 9, Sch: sch_List1048576_U64_n520, New: func() any { return new(List1048576_U64_n520) }, Set: func(p any, v *Val) { set_List1048576_U64_n520(p.(*List1048576_U64_n520), v) }, Get: func(p any) *Val { return get_List1048576_U64_n520(p.(*List1048576_U64_n520)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List1048576_U64_n520)(nil)) }},
	{Name: "Bytes16384_n4096_4097", Tier: "", Fam: "", Parts: 1, Dec: 1, DecT: 2, Sch: sch_Bytes16384_n4096_4097, New: func() any { return new(Bytes16384_n4096_4097) }, Set: func(p any, v *Val) { set_Bytes16384_n4096_4097(p.(*Bytes16384_n4096_4097), v) }, Get: func(p any) *Val { return get_Bytes16384_n4096_4097(p.(*Bytes16384_n4096_4097)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bytes16384_n4096_4097)(nil)) }},
	{Name: "Bitlist40000_n33000", Tier: "", Fam: "", Parts: 1, Dec: 1, DecT: 2, Sch: sch_Bitlist40000_n33000, New: func() any { return new(Bitlist40000_n33000) }, Set: func(p any, v *Val) { set_Bitlist40000_n33000(p.(*Bitlist40000_n33000), v) }, Get: func(p any) *Val { return get_Bitlist40000_n33000(p.(*Bitlist40000_n33000)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Bitlist40000_n33000)(nil)) }},
	{Name: "List5000_U16_n2049", Tier: "", Fam: "", Parts: 1, Dec: 4, DecT: 5, Sch: sch_List5000_U16_n2049, New: func() any { return new(List5000_U16_n2049) }, Set: func(p any, v *Val) { set_List5000_U16_n2049(p.(*List5000_U16_n2049), v) }, Get: func(p any) *Val { return get_List5000_U16_n2049(p.(*List5000_U16_n2049)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*List5000_U16_n2049)(nil)) }},
	{Name: "BytesN8192", Tier: "", Fam: "", Parts: 0, Dec: 8193, DecT: 8193, Sch: sch_BytesN8192, New: func() any { return new([8192]byte) }, Set: func(p any, v *Val) { set_BytesN8192(p.(*[8192]byte), v) }, Get: func(p any) *Val { return get_BytesN8192(p.(*[8192]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[8192]byte)(nil)) }},
	{Name: "Vec128_BytesN48", Tier: "", Fam: "", Parts: 0, Dec: 6145, DecT: 6145, Sch: sch_Vec128_BytesN48, New: func() any { return new([128][48]byte) }, Set: func(p any, v *Val) { set_Vec128_BytesN48(p.(*[128][48]byte), v) }, Get: func(p any) *Val { return get_Vec128_BytesN48(p.(*[128][48]byte)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*[128][48]byte)(nil)) }},
	{Name: "Checkpoint", Tier: "", Fam: "", Parts: 0, Dec: 41, DecT: 41, Sch: sch_Checkpoint, New: func() any { return new(Checkpoint) }, Set: func(p any, v *Val) { set_Checkpoint(p.(*Checkpoint), v) }, Get: func(p any) *Val { return get_Checkpoint(p.(*Checkpoint)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Checkpoint)(nil)) }},
	{Name: "AttData", Tier: "", Fam: "", Parts: 0, Dec: 129, DecT: 129, Sch: sch_AttData, New: func() any { return new(AttData) }, Set: func(p any, v *Val) { set_AttData(p.(*AttData), v) }, Get: func(p any) *Val { return get_AttData(p.(*AttData)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*AttData)(nil)) }},
	{Name: "Header", Tier: "", Fam: "", Parts: 0, Dec: 201, DecT: 201, Sch: sch_Header, New: func() any { return new(Header) }, Set: func(p any, v *Val) { set_Header(p.(*Header), v) }, Get: func(p any) *Val { return get_Header(p.(*Header)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Header)(nil)) }},
	{Name: "Validator", Tier: "", Fam: "", Parts: 0, Dec: 122, DecT: 122, Sch: sch_Validator, New: func() any { return new(Validator) }, Set: func(p any, v *Val) { set_Validator(p.(*Validator), v) }, Get: func(p any) *Val { return get_Validator(p.(*Validator)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Validator)(nil)) }},
	{Name: "Fork", Tier: "", Fam: "", Parts: 0, Dec: 17, DecT: 17, Sch: sch_Fork, New: func() any { return new(Fork) }, Set: func(p any, v *Val) { set_Fork(p.(*Fork), v) }, Get: func(p any) *Val { return get_Fork(p.(*Fork)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Fork)(nil)) }},
	{Name: "DepData", Tier: "", Fam: "", Parts: 0, Dec: 185, DecT: 185, Sch: sch_DepData, New: func() any { return new(DepData) }, Set: func(p any, v *Val) { set_DepData(p.(*DepData), v) }, Get: func(p any) *Val { return get_DepData(p.(*DepData)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*DepData)(nil)) }},
	{Name: "Eth1", Tier: "", Fam: "", Parts: 0, Dec: 73, DecT: 73, Sch: sch_Eth1, New: func() any { return new(Eth1) }, Set: func(p any, v *Val) { set_Eth1(p.(*Eth1), v) }, Get: func(p any) *Val { return get_Eth1(p.(*Eth1)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Eth1)(nil)) }},
	{Name: "ProposerSl", Tier: "", Fam: "", Parts: 0, Dec: 409, DecT: 409, Sch: sch_ProposerSl, New: func() any { return new(ProposerSl) }, Set: func(p any, v *Val) { set_ProposerSl(p.(*ProposerSl), v) }, Get: func(p any) *Val { return get_ProposerSl(p.(*ProposerSl)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ProposerSl)(nil)) }},
	{Name: "Attestation", Tier: "", Fam: "", Parts: 2, Dec: 235, DecT: 236, Sch: sch_Attestation, New: func() any { return new(Attestation) }, Set: func(p any, v *Val) { set_Attestation(p.(*Attestation), v) }, Get: func(p any) *Val { return get_Attestation(p.(*Attestation)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Attestation)(nil)) }},
	{Name: "IndexedAtt", Tier: "", Fam: "", Parts: 2, Dec: 249, DecT: 250, Sch: sch_IndexedAtt, New: func() any { return new(IndexedAtt) }, Set: func(p any, v *Val) { set_IndexedAtt(p.(*IndexedAtt), v) }, Get: func(p any) *Val { return get_IndexedAtt(p.(*IndexedAtt)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*IndexedAtt)(nil)) }},
	{Name: "Deposit", Tier: "", Fam: "", Parts: 0, Dec: 0, DecT: 1241, Sch: sch_Deposit, New: func() any { return new(Deposit) }, Set: func(p any, v *Val) { set_Deposit(p.(*Deposit), v) }, Get: func(p any) *Val { return get_Deposit(p.(*Deposit)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Deposit)(nil)) }},
	{Name: "AttSl", Tier: "", Fam: "", Parts: 4, Dec: 0, DecT: 506, Sch: sch_AttSl, New: func() any { return new(AttSl) }, Set: func(p any, v *Val) { set_AttSl(p.(*AttSl), v) }, Get: func(p any) *Val { return get_AttSl(p.(*AttSl)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*AttSl)(nil)) }},
	{Name: "Body", Tier: "", Fam: "", Parts: 5, Dec: 0, DecT: 2100, Sch: sch_Body, New: func() any { return new(Body) }, Set: func(p any, v *Val) { set_Body(p.(*Body), v) }, Get: func(p any) *Val { return get_Body(p.(*Body)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*Body)(nil)) }},
	{Name: "StateLite", Tier: "", Fam: "", Parts: 3, Dec: 0, DecT: 568, Sch: sch_StateLite, New: func() any { return new(StateLite) }, Set: func(p any, v *Val) { set_StateLite(p.(*StateLite), v) }, Get: func(p any) *Val { return get_StateLite(p.(*StateLite)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*StateLite)(nil)) }},
	{Name: "BytesSYM_g3", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_BytesSYM_g3, New: func() any { return new(BytesSYM_g3) }, Set: func(p any, v *Val) { set_BytesSYM_g3(p.(*BytesSYM_g3), v) }, Get: func(p any) *Val { return get_BytesSYM_g3(p.(*BytesSYM_g3)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*BytesSYM_g3)(nil)) }},
	{Name: "ListSYM_U16", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_ListSYM_U16, New: func() any { return new(ListSYM_U16) }, Set: func(p any, v *Val) { set_ListSYM_U16(p.(*ListSYM_U16), v) }, Get: func(p any) *Val { return get_ListSYM_U16(p.(*ListSYM_U16)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_U16)(nil)) }},
	{Name: "ListSYM_Bool", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_ListSYM_Bool, New: func() any { return new(ListSYM_Bool) }, Set: func(p any, v *Val) { set_ListSYM_Bool(p.(*ListSYM_Bool), v) }, Get: func(p any) *Val { return get_ListSYM_Bool(p.(*ListSYM_Bool)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_Bool)(nil)) }},
	{Name: "ListSYM_U64_g2", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_ListSYM_U64_g2, New: func() any { return new(ListSYM_U64_g2) }, Set: func(p any, v *Val) { set_ListSYM_U64_g2(p.(*ListSYM_U64_g2), v) }, Get: func(p any) *Val { return get_ListSYM_U64_g2(p.(*ListSYM_U64_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_U64_g2)(nil)) }},
	{Name: "ListSYM_U32_g2", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_ListSYM_U32_g2, New: func() any { return new(ListSYM_U32_g2) }, Set: func(p any, v *Val) { set_ListSYM_U32_g2(p.(*ListSYM_U32_g2), v) }, Get: func(p any) *Val { return get_ListSYM_U32_g2(p.(*ListSYM_U32_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_U32_g2)(nil)) }},
	{Name: "ListSYM_Small", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_ListSYM_Small, New: func() any { return new(ListSYM_Small) }, Set: func(p any, v *Val) { set_ListSYM_Small(p.(*ListSYM_Small), v) }, Get: func(p any) *Val { return get_ListSYM_Small(p.(*ListSYM_Small)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_Small)(nil)) }},
	{Name: "ListSYM_BytesN32", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_ListSYM_BytesN32, New: func() any { return new(ListSYM_BytesN32) }, Set: func(p any, v *Val) { set_ListSYM_BytesN32(p.(*ListSYM_BytesN32), v) }, Get: func(p any) *Val { return get_ListSYM_BytesN32(p.(*ListSYM_BytesN32)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_BytesN32)(nil)) }},
	{Name: "ListSYM_Bytes2_g2_g2", Tier: "", Fam: "sym", Parts: 2, Dec: 12, DecT: 16, Sch: sch_ListSYM_Bytes2_g2_g2, New: func() any { return new(ListSYM_Bytes2_g2_g2) }, Set: func(p any, v *Val) { set_ListSYM_Bytes2_g2_g2(p.(*ListSYM_Bytes2_g2_g2), v) }, Get: func(p any) *Val { return get_ListSYM_Bytes2_g2_g2(p.(*ListSYM_Bytes2_g2_g2)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*ListSYM_Bytes2_g2_g2)(nil)) }},
	{Name: "BitlistSYM", Tier: "", Fam: "sym", Parts: 1, Dec: 12, DecT: 16, Sch: sch_BitlistSYM, New: func() any { return new(BitlistSYM) }, Set: func(p any, v *Val) { set_BitlistSYM(p.(*BitlistSYM), v) }, Get: func(p any) *Val { return get_BitlistSYM(p.(*BitlistSYM)) }, SSZ: func() types.SSZ { return zssz.GetSSZ((*BitlistSYM)(nil)) }},
}
var Omits = map[string]func(any) []any{
	"Om1":     func(q any) []any { p := q.(*Om1); return []any{&p.Hidden, &p.Cache} },
	"Om2":     func(q any) []any { p := q.(*Om2); return []any{&p.In.K, &p.Note, &p.InOm.K} },
	"L1":      func(q any) []any { p := q.(*L1); return []any{&p.N} },
	"L2":      func(q any) []any { p := q.(*L2); return []any{&p.L1.N, &p.M} },
	"L3":      func(q any) []any { p := q.(*L3); return []any{&p.L2.L1.N, &p.L2.M} },
	"OmAll":   func(q any) []any { p := q.(*OmAll); return []any{&p.A, &p.C, &p.D} },
	"EmbOmit": func(q any) []any { p := q.(*EmbOmit); return []any{&p.Small} },
	"OmFirst": func(q any) []any { p := q.(*OmFirst); return []any{&p.H, &p.I, &p.J, &p.K} },
	"SqHid":   func(q any) []any { p := q.(*SqHid); return []any{&p.Hid.X, &p.I.X} },
	"SqPtrIn": func(q any) []any { p := q.(*SqPtrIn); return []any{&p.S.N} },
	"SqDeep":  func(q any) []any { p := q.(*SqDeep); return []any{&p.A.B.C.D} },
}
