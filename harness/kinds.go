package main

import "github.com/protolambda/zssz/types"

func isStruct(t *TypeDef) bool {
	return t.Fam != "sym" && (t.Fam != "ptr" || t.Name[:4] != "Ptr_") && t.Sch().K == KContainer
}
func isSquash(t *TypeDef) bool { return t.Fam == "squash" }
func isPtr(t *TypeDef) bool    { return t.Fam == "ptr" }
func squashOffsets(t *TypeDef) bool {
	return (isSquash(t) || isPtr(t)) && hasOffsets(t)
}
func isSym(t *TypeDef) bool    { return t.Fam == "sym" }
func allTypes(t *TypeDef) bool { return true }

// types whose hashing is affordable with collision-freeness axioms
func smallHash(t *TypeDef) bool { return t.Fam == "" || t.Fam == "squash" }

var Kinds = []*Family{
	{Prop: "C01", Name: "roundtrip", F: jobRoundtrip, All: true},
	{Prop: "C01", Name: "after", F: jobAfter(afterRoundtrip), All: true, Bytes: 1300, Max: 20, MaxT: 600},
	{Prop: "C02", Name: "canonical", F: jobCanonical, All: true, Dec: true},
	{Prop: "C02", Name: "window", F: windowed(jobCanonical), All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: hasOffsets},
	{Prop: "C03", Name: "encode", F: jobEncode, All: true},
	{Prop: "C03", Name: "after", F: jobAfter(afterEncode), All: true, Bytes: 1300, Max: 20, MaxT: 600},
	{Prop: "C03", Name: "writers", F: jobWriters, All: true, Max: 12, MaxT: 300},
	{Prop: "C03", Name: "offsets", G: jobBigEncode, Native: "engine", Bounds: "byte lists of any length up to 2^32 bytes in total"},
	{Prop: "C03", Name: "series", G: jobBigSeries, Native: "engine", Bounds: "byte, bool, uint16, uint32 and uint64 lists and bitlists of any length up to 2^28 elements"},
	{Prop: "C03", Name: "writeoffset", G: jobWriteOffset, Bounds: "any previous offset and element size, both and their sum below 2^32"},
	{Prop: "C04", Name: "decode", F: jobDecode, All: true, Dec: true},
	{Prop: "C04", Name: "window", F: windowed(jobDecode), All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: hasOffsets},
	{Prop: "C04", Name: "after", F: jobAfter(afterDecode), All: true, Bytes: 20, Max: 4, MaxT: 40, Parts: 2},
	{Prop: "C04", Name: "offsets", G: jobBigDecode, Native: "engine", Bounds: "two byte lists, any offsets and any declared length up to 2^33"},
	{Prop: "C05", Name: "drycheck", F: jobDryCheck, All: true, Dec: true},
	{Prop: "C05", Name: "window", F: windowed(jobDryCheck), All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: hasOffsets},
	{Prop: "C06", Name: "size", F: jobSize, All: true},
	{Prop: "C06", Name: "after", F: jobAfter(afterSize), All: true, Bytes: 1300, Max: 20, MaxT: 600},
	{Prop: "C06", Name: "bigsize", G: jobBigSize, Native: "engine", Bounds: "byte lists of any length up to 2^40"},
	{Prop: "C06", Name: "limits", F: jobSymInfo, All: true, Use: isSym},
	{Prop: "C07", Name: "robust", F: jobRobust, All: true, Bytes: 90, Slow: "Sq_Var1 Sq_Ptr_Var2 SqTwice IndexedAtt", Dec: true, Parts: 3, Use: allTypes},
	{Prop: "C07", Name: "window", F: jobRobustWindow, All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: hasOffsets},
	{Prop: "C08", Name: "consume", F: jobConsume, All: true, Dec: true, Use: allTypes},
	{Prop: "C08", Name: "window", F: windowed(jobConsume), All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: hasOffsets},
	{Prop: "C08", Name: "readers", F: jobReaders, All: true, Bytes: 290, Max: 12, MaxT: 300},
	{Prop: "C08", Name: "reader", G: jobReaderScope, Bounds: "two nested scopes and two reads of any sizes on an 8-byte stream"},
	{Prop: "C09", Name: "chunks", F: jobChunks, All: true, Bytes: 290, Max: 30, MaxT: 300, Parts: 3, Slow: "List1024_Bool_n0_32_64_65_96_97_128_129 SqTwice PtrVar Vec2_Vec2_Pad2 List2_Vec2_Pad2_n0_2 StateLite List2_List2_Ptr_Var2_n0_1_n0_2 Vec2_Vec1_Ptr_Var2 List3_Pad2_n0_1_3 Vec3_Pad2 VarNest List2_Vec2_Ptr_Var2_n0_1 Sq_Var1 SV_Var1 List2_Var2_g2 List4_Vec2_Bytes3_g1_n0_1_2"},
	{Prop: "C09", Name: "truncated", F: jobTruncated, All: true, Bytes: 290, Max: 300, MaxT: 600, Slow: "Sq_Var2Only SV_Var2Only List2_List2_Var2Only_n0_1_n0_2 PtrVar Body AttSl StateLite"},
	{Prop: "C09", Name: "readers", F: jobReaders, All: true, Bytes: 290, Max: 12, MaxT: 300},
	{Prop: "C10", Name: "writerfault", F: jobWriterFault, All: true, Bytes: 290},
	{Prop: "C11", Name: "htr", F: jobHTR, All: true},
	{Prop: "C11", Name: "after", F: jobAfter(afterHTR), All: true, Bytes: 1300, Max: 20, MaxT: 600},
	{Prop: "C12", Name: "merkleize", P: jobMerkleize, Quick: 17, Thorough: 70, Bounds: "%d leaves, any 64-bit limit"},
	{Prop: "C12", Name: "depth", G: jobDepth, Bounds: "any 64-bit size"},
	{Prop: "C12", Name: "overlimit", G: jobOverLimit, Bounds: "any 64-bit count above any limit"},
	{Prop: "C13", Name: "proof", P: jobProof, Quick: 6, Thorough: 33, Bounds: "%d leaves, any 64-bit limit and index"},
	{Prop: "C13", Name: "refuse", G: jobProofRefuse, Bounds: "any 64-bit count, limit and index"},
	{Prop: "C14", Name: "signingroot", F: jobSigningRoot, All: true, Use: isStruct},
	{Prop: "C14", Name: "after", F: jobAfter(afterSigningRoot), All: true, Bytes: 1300, Use: isStruct, Max: 20, MaxT: 600},
	{Prop: "C15", Name: "decode", F: jobSymDecode, All: true, Dec: true, Use: isSym},
	{Prop: "C15", Name: "htr", F: jobSymHTR, All: true, Use: isSym},
	{Prop: "C15", Name: "longlist", G: jobLongList, Native: "engine", Bounds: "byte and uint lists of any length up to 2^30 bytes, any limit"},
	{Prop: "C16", Name: "bits", G: jobBits, Quick: 20, Thorough: 34, Bounds: "bitfields of up to %d bytes, any index"},
	{Prop: "C16", Name: "bigbits", G: jobBigBits, Native: "engine", Bounds: "bitfields of any length up to 2^40 bytes, any index"},
	{Prop: "C16", Name: "bitlist", G: jobBitlistHelpers, Quick: 34, Thorough: 66, Bounds: "up to %d bytes, any limit"},
	{Prop: "C16", Name: "bitvector", G: jobBitvectorHelpers, Quick: 40, Thorough: 140, Bounds: "up to %d bytes, any bit length"},
	{Prop: "C17", Name: "fuzz", F: jobFuzz, All: true, Dec: true, Slow: "Vec3_Bitlist34359738373_g3 Vec3_Pad2 Vec2_Vec2_Pad2 Attestation"},
	{Prop: "C17", Name: "after", F: jobAfter(afterFuzz), All: true, Slow: "Vec3_Pad2 Vec2_Vec2_Pad2", Bytes: 290, Max: 8, MaxT: 40, Parts: 2},
	{Prop: "C18", Name: "reuse", F: jobReuse, All: true, Max: 40, MaxT: 300, Slow: "Vec3_List1073741824_Bytes2_g1_g1 SqTwice Vec2_Vec2_Bytes3_g1 List4_Vec2_Bytes3_g1_n0_1_2 Vec2_Vec1_Vec2_Bytes3_g1 List2_Vec2_Vec2_Bytes3_g1_n0_1 Sq_List3_Small_n0_1_2 SV_List3_Small_n0_1_2 Sq_Var1 List2_Var2_g2 Sq_List3_U16_n0_1_2 List2_List2_List3_Small_n0_1_2_n0_1_n0_2 Em_Var2Only Sq_Bytes5_n0_1_3 PtrVar VarMix List33_Bool_g33 Sq_Ptr_Var2 SV_Ptr_Var2 List2_List2_List3_Bytes2_g1_n0_2_n0_1_n0_2 SV_Vec2_Bytes3_g1 Sq_Bitlist9_n0_1_8_9 List4_List3_Bytes2_g1_n0_2_n0_1_2 List2_List2_Ptr_Var2_n0_1_n0_2 SV_Bitlist9_n0_1_8_9 List2_List2_Vec2_Bytes3_g1_n0_1_n0_2 Vec2_Vec2_Pad2 List2_Vec2_Pad2_n0_2 Sq_Vec2_Bytes3_g1 Body AttSl Vec2_Vec1_List3_Bytes2_g1_n0_2 List2_Vec2_List3_Bytes2_g1_n0_2_n0_1 Vec2_List3_Bytes2_g1_n0_2 List2_List2_Bitlist9_n0_1_8_9_n0_1_n0_2"},
	{Prop: "C18", Name: "pointees", G: jobPointees, Bounds: "struct with pointers to a fixed and a variable-size struct"},
	{Prop: "C19", Name: "readonly", F: jobReadOnly, All: true, Leaf: 2, Max: 1e3, MaxT: 2e5},
	{Prop: "C19", Name: "decoding", F: jobDecodeFrozen, All: true, Bytes: 290, Slow: "List4_List5_U64_n0_5_n0_1_2 List2_List2_List5_U64_n0_5_n0_1_n0_2 Body", Max: 60, MaxT: 600},
	{Prop: "C19", Name: "aliasing", F: jobAliasing, All: true, Slow: "Vec2_Vec2_Pad2 List2_Vec2_Pad2_n0_2", Max: 60, MaxT: 300},
	{Prop: "C20", Name: "encode", F: jobEncode, All: true, BE: true, Native: "engine"},
	{Prop: "C20", Name: "decode", F: jobDecode, All: true, Dec: true, Parts: 3, BE: true, Native: "engine"},
	{Prop: "C20", Name: "window", F: windowed(jobDecode), All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: hasOffsets, BE: true, Native: "engine"},
	{Prop: "C20", Name: "drycheck", F: jobDryCheckRef, All: true, Dec: true, Parts: 3, BE: true, Native: "engine"},
	{Prop: "C20", Name: "size", F: jobSize, All: true, BE: true, Native: "engine"},
	{Prop: "C20", Name: "htr", F: jobHTR, All: true, BE: true, Native: "engine"},
	{Prop: "C21", Name: "values", F: jobStructValues, All: true, Use: isSquash},
	{Prop: "C21", Name: "inputs", F: jobStructInputs, All: true, Dec: true, Use: isSquash},
	{Prop: "C21", Name: "pointers", F: jobStructValues, All: true, Use: isPtr},
	{Prop: "C21", Name: "pointees", F: jobStructInputs, All: true, Dec: true, Use: isPtr},
	{Prop: "C21", Name: "window", F: windowed(jobStructInputs), All: true, Win: true, Slow: "ManyVar70 List64_Bytes2_n1_n33_64", Max: 6, MaxT: 100, Use: squashOffsets},
	{Prop: "C22", Name: "distinct", F: jobDistinct, All: true, Bytes: 2500, Slow: "Sq_Var2Only SV_Var2Only", Use: smallHash},
	{Prop: "C23", Name: "namesakes", G: jobNamesakes, Bounds: "three definitions in a row, of local types with the same name"},
	{Prop: "C23", Name: "unsupported", G: jobUnsupported, Bounds: "the listed unsupported types, alone and nested"},
	{Prop: "C23", Name: "supported", F: jobSupported, All: true, Use: allTypes},
	{Prop: "C23", Name: "supportedmore", G: jobSupportedMore, Bounds: "the listed further types"},
	{Prop: "C23", Name: "bitvector", G: jobBitvecFactory, Bounds: "arrays of 1, 2, 4 and 33 bytes, any 64-bit bit length"},
	{Prop: "C24", Name: "nodes", G: jobNodes, Bounds: "any nodes and lengths"},
	{Prop: "C24", Name: "zerohashes", G: jobZeroHashes, Bounds: "all 64 levels, any hash function"},
	{Prop: "C25", Name: "pretty", F: jobPretty, All: true, Leaf: 2, Max: 2e3, MaxT: 2e5},
	{Prop: "C25", Name: "long", F: jobPrettyLong, All: true, Use: longElems},
	{Prop: "C25", Name: "after", F: jobAfter(afterPretty), All: true, Bytes: 1300, Leaf: 2, Max: 20, MaxT: 600},
	{Prop: "C25", Name: "determines", F: jobPrettyDetermines, All: true, Bytes: 290, Slow: "Deposit ProposerSl AttData Bytes1000_n191_192_193_255_256_257 Bytes8589934592_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160 Bytes160_n0_1_30_31_32_33_63_64_65_95_96_97_100_128_129_160", Leaf: 2, Max: 50, MaxT: 600},
	{Prop: "C26", Name: "collect", F: jobGC, All: true, Bytes: 600, Max: 30, MaxT: 600},
}

var _ types.SSZ
