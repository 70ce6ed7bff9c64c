package main

import (
	"github.com/protolambda/zssz/types"
	"verif/harness/sym"
)

func checkInfo(s *Sch, ssz types.SSZ) {
	sym.Assert(ssz.IsFixed() == s.fixed(), "IsFixed is wrong")
	sym.Assert(ssz.MinLen() == s.minSize(), "MinLen is not the smallest size of a value")
	sym.Assert(ssz.MaxLen() == s.maxSize(), "MaxLen is not the largest size of a value")
	if s.fixed() {
		sym.Assert(ssz.FixedLen() == s.size(), "FixedLen is not the size of a fixed-size type")
	}
}
