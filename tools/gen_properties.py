#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line). Source of truth for the property texts.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SER = ["types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "types/ssz_vector_basic.go",
       "types/ssz_bytes.go", "types/ssz_bytes_n.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/elem_var_size_series.go",
       "types/elem_fixed_size_series.go", "types/basic_series.go", "types/ssz_ptr.go", "enc/encoder.go", "dec/decoder.go", "zssz.go"]

p("C01", "Decoding an encoded value gives the value back",
  "For every supported type and every valid value of it, encoding the value and decoding the resulting bytes (with their exact length) into a fresh destination succeeds and yields an equal value. An empty list and a nil list count as equal.",
  ["inputs", "programs"], "all values (all contents, all list lengths up to the bound) of every type in a catalogue that covers every type former and their nestings",
  "Tests round-trip nothing: they decode a few dozen literal byte strings; contents, list lengths and offset layouts outside those literals are never exercised.",
  SER, [("Encode/Decode pair of every SSZ type definition", "types/ssz_*.go"), ("offset writing and enforcing", "types/elem_var_size_series.go, types/ssz_container.go")],
  ["bytes written to the io.Writer", "decoded value"])
p("C02", "Every accepted byte string is the canonical encoding of what it decodes to",
  "Whenever decoding a byte string succeeds, re-encoding the decoded value produces exactly the same bytes. Hence no two different byte strings of a type decode to the same value.",
  ["inputs", "programs"], "all byte strings up to the length bound, for every catalogued type",
  "Tests never decode malformed or non-canonical input at all, so offset gaps, overlaps, stray bits, trailing bytes and non-boolean bools are untested.",
  SER, [("offset and index checks", "types/ssz_container.go, types/elem_var_size_series.go"), ("total-length check", "zssz.go Decode"), ("padding bit checks", "bitfields/*.go")],
  ["Decode error result", "bytes re-encoded"])
p("C03", "Encoding produces the SSZ wire format",
  "For every supported type and valid value, the bytes produced are exactly those the SSZ specification prescribes: little-endian basic values, fixed parts in field order, 4-byte little-endian offsets relative to the start of the enclosing object, variable parts in order, packed bitfields with the delimiter bit for bitlists. This includes offsets and sizes anywhere in the 32-bit range.",
  ["inputs", "programs"], "all values within bounds of every catalogued type against an independent reference serializer; variable-part sizes as 32-bit symbolic lengths for offset arithmetic",
  "The tests compare a few literals, none with an offset above 100 or with more than a few elements; a mistake for other contents, lengths or positions is invisible, and an encoder/decoder pair wrong in the same way passes any round trip.",
  SER, [("Encode methods", "types/ssz_*.go"), ("WriteOffset", "enc/encoder.go")], ["bytes written to the io.Writer"])
p("C04", "Decoding accepts exactly the valid SSZ encodings, with the right value",
  "Given any byte string and its length, decoding succeeds if and only if the bytes are a valid SSZ encoding for the type (correct size, offsets contiguous, ordered and inside the data, list limits respected, bools 0 or 1, bitlist delimiter present, unused bits zero, no leftover bytes). On success the value is the one the SSZ specification assigns to those bytes.",
  ["inputs", "programs"], "all byte strings up to the length bound, for every catalogued type, against an independent reference decoder",
  "No existing test feeds an invalid encoding to Decode; the rejection logic is entirely untested.",
  SER, [("ReadVarSliceOffsets, decodeVarSeriesFromOffsets", "types/elem_var_size_series.go"), ("decodeDynamicPart/processFixedPart", "types/ssz_container.go"), ("BitlistCheck, BitvectorCheck", "bitfields")],
  ["Decode error result", "decoded value"])
p("C05", "The dry check agrees with decoding",
  "For every type and every byte string with its length, the dry check reports success if and only if decoding the same bytes succeeds. The dry check also consumes the same number of input bytes as decoding whenever both succeed.",
  ["inputs", "programs"], "all byte strings up to the length bound, for every catalogued type, and symbolic list limits",
  "DryCheck is only ever run on valid encodings in the tests; the two parallel implementations can diverge on any malformed input.",
  ["types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/basic_series.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/ssz_container.go", "types/ssz_bool.go", "zssz.go", "dec/decoder.go"],
  [("DryCheck methods mirrored from Decode", "types/ssz_*.go")], ["error of DryCheck vs error of Decode"])
p("C06", "Size reports agree with the bytes actually produced",
  "For every valid value the reported size, the byte count returned by encoding and the number of bytes written are all equal, and lie between the type's reported minimum and maximum length. A type reports itself fixed-size if and only if all its values encode to the same length prescribed by SSZ, and then minimum, maximum and fixed length all equal it; the minimum and maximum are exactly the smallest and largest sizes valid values can have.",
  ["inputs", "programs"], "all values within bounds of every catalogued type; reported bounds against an independently computed minimum/maximum",
  "Tests compare SizeOf to the encoding of literal values only, and never look at the reported bounds.",
  ["types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "types/ssz_bitlist.go", "types/ssz_bytes.go", "zssz.go", "enc/encoder.go"],
  [("SizeOf/MinLen/MaxLen/FixedLen/IsFixed", "types/ssz_*.go"), ("Written", "enc/encoder.go")], ["SizeOf", "Encode result", "MinLen/MaxLen/FixedLen/IsFixed"])
p("C07", "Decoding arbitrary input never panics, hangs or touches foreign memory",
  "For any byte string, any declared length and any stream that delivers fewer, exactly or more bytes than declared, decoding and dry-checking return (with success or an error) without panicking. They only write to the destination value and memory freshly allocated for it, never to neighbouring memory, and never read outside the memory they own.",
  ["inputs", "programs"], "all byte strings up to the length bound, any declared length up to 2^63 (2^24 where more is valid), independent of the delivered length, for every catalogued type, with guard areas around the destination",
  "The code writes through raw pointers; tests only decode well-formed data, where every length agrees, so an out-of-bounds write or a panic on hostile lengths cannot show.",
  SER + ["util/ptrutil/allocation.go", "util/ptrutil/slice_header.go"], [("scoped reader", "dec/decoder.go"), ("slice allocation and pointer stepping", "util/ptrutil, types/elem_*.go")],
  ["panic", "memory around the destination", "every load/store of the encoded code"])
p("C08", "Decoding reads only the declared bytes and allocates in proportion to them",
  "Decoding and dry-checking never take more bytes from the stream than the declared length, and exactly that many when they succeed, so that whatever follows in the stream is left unread. The memory allocated by a decode is bounded by a type-dependent constant times the declared length, whatever the offsets and contents claim.",
  ["inputs", "programs"], "all byte strings up to the length bound followed by further stream data; allocation sizes as symbolic expressions of the input",
  "Tests hand Decode a buffer that ends exactly at the object's end and never measure allocation; a hostile offset causing a huge allocation needs a specific malformed input.",
  ["dec/decoder.go", "zssz.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "util/ptrutil/allocation.go", "types/ssz_bytes.go", "types/ssz_bitlist.go"],
  [("Scope/LimitReader", "dec/decoder.go"), ("length checks before MutateLenOrAllocNew", "types/elem_*.go")], ["bytes requested from the io.Reader", "bytes allocated"])
p("C09", "Decoding does not depend on how the stream delivers its bytes",
  "For any reader that honours the io.Reader contract - any split into short reads, and end-of-file reported together with or after the last bytes - decoding and dry-checking give the same outcome and value as from one contiguous buffer. If the stream ends early or fails before all required bytes were delivered, the operation returns an error.",
  ["inputs", "schedules", "fault_sequences"], "all chunkings of the input into reads, both end-of-file conventions, a read error after any number of delivered bytes",
  "All tests use bytes.Reader, which always delivers full reads and reports EOF separately.",
  ["dec/decoder.go", "zssz.go"], [("Read loop and Skip", "dec/decoder.go")], ["Decode/DryCheck result under a nondeterministic reader"])
p("C10", "Encoding reports writer failures and never writes past them",
  "If the output writer fails after accepting some bytes, encoding returns that failure as an error, the returned count is exactly the number of bytes the writer accepted, the accepted bytes are a prefix of the correct encoding, and nothing further is written after the failure.",
  ["inputs", "fault_sequences"], "a writer failing at every call and every short-write position, for all values within bounds of every catalogued type",
  "No test uses a failing writer.",
  ["enc/encoder.go", "types/ssz_container.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "zssz.go"],
  [("error propagation of every Encode", "types/ssz_*.go"), ("Write/WriteOffset/Written", "enc/encoder.go")], ["Encode result", "sequence of writer calls"])
p("C11", "The hash-tree-root equals the SSZ merkleization of the value",
  "For every supported type, every valid value and any hash function the zero-hashes were initialised with, the hash-tree-root equals the SSZ specification's: basic values packed into 32-byte chunks, composites by the roots of their elements, padding with zero-subtrees to the depth given by the type's limit, and the length mixed in for lists and bitlists (with the bitlist delimiter bit excluded from the chunks).",
  ["inputs", "programs"], "all values within bounds of every catalogued type (all lengths around chunk boundaries), the hash an uninterpreted function, against an independent recursive reference",
  "Tests check literals; e.g. no bitlist whose length falls in the last byte of a 32-byte chunk is among them.",
  ["types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/ssz_bytes.go", "types/ssz_bytes_n.go", "types/basic_series.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "merkle/merkleize.go", "htr/hash_tree_root.go"],
  [("HashTreeRoot methods", "types/ssz_*.go"), ("Merkleize", "merkle/merkleize.go")], ["HashTreeRoot result as a term over the hash function"])
p("C12", "Merkleization builds the zero-padded binary tree for any count and limit",
  "For any leaf contents, any leaf count and any limit not below the count (over the whole 64-bit range), the computed root is the root of the complete binary tree whose depth is the smallest one with room for limit leaves, with zero leaves after the given ones. A limit of zero gives the zero root, and a count above the limit is refused with a panic.",
  ["inputs"], "all limits in 64 bits (symbolic), leaf counts up to the bound, arbitrary leaf contents, uninterpreted hash",
  "Tests reach a handful of (count, limit) pairs with limits up to 128 chunks; depths above 7 are never computed.",
  ["merkle/merkleize.go", "htr/hash_tree_root.go"], [("Merkleize", "merkle/merkleize.go"), ("GetDepth", "merkle/merkleize.go"), ("ZeroHashes", "htr/hash_tree_root.go")], ["Merkleize result, GetDepth result"])
p("C13", "Merkle proofs verify against the merkleized root",
  "For any leaf contents, count, limit and index below the limit, the constructed branch has one node per tree level and, folded with the leaf at that index (the zero leaf beyond the count), reproduces the root computed by merkleization of the same leaves. Out-of-range indices and over-limit counts are refused with a panic.",
  ["inputs"], "all indices and limits in 64 bits within stated depth, leaf counts up to the bound, arbitrary leaves, uninterpreted hash",
  "Proof construction is not called by any test.",
  ["merkle/merkleize.go"], [("ConstructProof", "merkle/merkleize.go")], ["ConstructProof branch folded by the harness against Merkleize"])
p("C14", "The signing-root is the root of the container without its last field",
  "For every container value the signing-root equals the hash-tree-root of the container made of the same fields except the last one (the zero root when no field remains). It is therefore unaffected by the content of the last field.",
  ["inputs", "programs"], "all values within bounds of the catalogued containers, including squashed and omitted fields",
  "The only test checks that the signing root differs from the hash-tree-root.",
  ["types/ssz_container.go", "zssz.go"], [("SigningRoot", "types/ssz_container.go")], ["SigningRoot result"])
p("C15", "List limits are enforced exactly, whatever the limit",
  "For every list, byte-list and bitlist type, and whatever limit value the type declares (up to the point where the byte size no longer fits in 63 bits), decoding and dry-checking accept an otherwise valid encoding if and only if its element count (bit count for bitlists) does not exceed the limit. The limit governs depth of merkleization in the same way: the root is that of a tree with room for exactly limit elements.",
  ["inputs", "configurations"], "the limit itself is a symbolic 64-bit value; input lengths up to the bound, and for byte lists and basic lists symbolic lengths up to 32 bits",
  "Tests use fixed small limits and never exceed one.",
  ["types/limit.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/elem_fixed_size_series.go", "types/elem_var_size_series.go", "bitfields/bitlist.go"],
  [("ReadListLimit", "types/limit.go"), ("limit comparisons in Decode/DryCheck", "types"), ("BitlistCheck", "bitfields/bitlist.go")], ["Decode/DryCheck result as a function of the limit"])
p("C16", "The bitfield helpers implement their documented meaning",
  "For every byte contents, bit index, bit length and limit: setting a bit changes that bit only and reading returns the bit last set; the bitlist length is the position of the highest set bit of the last byte counted from the start; the zero test is true exactly if no bit other than the delimiter is set; the bitlist check accepts exactly non-empty data with a delimiter and no more than limit bits; the bitvector check accepts exactly data of the right byte length whose unused high bits are zero.",
  ["inputs"], "all byte strings up to the length bound, all indices, bit lengths and limits in 64 bits",
  "The tests sample a few byte patterns; index, limit and content combinations are unbounded.",
  ["bitfields/bitfield.go", "bitfields/bitlist.go", "bitfields/bitvector.go"], [("BitIndex, GetBit, SetBit, IsZeroBitlist", "bitfields/bitfield.go"), ("BitlistLen, BitlistCheck", "bitfields/bitlist.go"), ("BitvectorCheck", "bitfields/bitvector.go")],
  ["return values of the exported helpers"])
p("C17", "Fuzz-mode decoding turns any sufficiently long input into a valid value",
  "For every type, fuzz-mode decoding of any byte string at least as long as the type's reported fuzzing minimum succeeds without panicking; shorter input is refused with an error. The value produced is valid - limits and padding bits respected - so that it encodes, decodes back to itself and hashes; the reported consumption is the number of bytes taken from the stream and lies between the reported fuzzing minimum and maximum.",
  ["inputs", "programs"], "all byte strings up to the length bound, for every catalogued type",
  "Fuzz-mode decoding is not called by any test.",
  ["zssz.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_container.go", "types/elem_var_size_series.go", "types/basic_series.go", "types/ssz_bool.go"],
  [("fuzz branches of Decode", "types/ssz_*.go"), ("FuzzMinLen/FuzzMaxLen", "types/ssz_*.go")], ["DecodeFuzzBytes result and value"])
p("C18", "Decoding into a used destination gives the same value as into a fresh one",
  "Decoding valid input over a destination that already holds any other value of the type - longer or shorter lists, spare capacity, allocated pointers - yields exactly the value a fresh destination would get. Struct fields excluded from SSZ keep their previous content, and pre-existing allocated pointees are written in place rather than left with stale parts.",
  ["inputs", "histories"], "all earlier contents and lengths within bounds, then all encodings within bounds, for every catalogued type",
  "Every test decodes into a newly made value.",
  ["util/ptrutil/allocation.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_ptr.go", "types/ssz_container.go"],
  [("MutateLenOrAllocNew", "util/ptrutil/allocation.go"), ("SSZPtr.Decode", "types/ssz_ptr.go")], ["decoded value after reuse"])
p("C19", "Reading operations have no side effects and definitions can be shared",
  "Encoding, sizing, hashing, signing-root computation, pretty printing and dry-checking never modify the value they work on, and no operation - decoding included - modifies the type definition or other package state, so one definition can serve any number of concurrent goroutines. A decoded value shares no memory with the input bytes or with another decoded value.",
  ["inputs", "schedules"], "all values and inputs within bounds of every catalogued type: every store executed is checked against the set of shared memory, which excludes races under any schedule",
  "Tests run single-threaded and do not compare the value after the call.",
  SER, [("definitions are built once and only read", "types/*.go"), ("scratch space lives in the reader/writer, not in the definition", "dec/decoder.go, enc/encoder.go")], ["memory written by each operation"])
p("C20", "Results do not depend on the byte order of the host",
  "On a big-endian machine every operation - encoding, decoding, sizing, dry-checking, hash-tree-root - gives exactly the results it gives on a little-endian machine for the same values and inputs.",
  ["inputs", "programs", "configurations"], "all values and inputs within bounds for every catalogued type containing multi-byte basic series, with memory modelled big-endian",
  "The tests only ever run on little-endian hardware; the big-endian branches are dead code there.",
  ["util/endianness/endianness.go", "types/basic_series.go", "types/ssz_list_basic.go", "types/ssz_vector_basic.go"],
  [("IsLittleEndian switch", "util/endianness/endianness.go"), ("BigEndianBasicSeriesHTR, BigToLittleEndianChunk", "types/basic_series.go")], ["Encode/Decode/HashTreeRoot results under big-endian memory"])
p("C21", "Squashed, embedded, omitted and pointer fields act as documented",
  "A struct with embedded or squash-tagged structs behaves in encoding, decoding, sizing and hashing exactly like the struct with those fields written out in place, at any nesting depth. Fields tagged omit have no influence on any result and are never written by decoding, and a pointer field behaves exactly like its pointee, being allocated on decoding when nil.",
  ["inputs", "programs"], "all values within bounds for a catalogue of squash/embed/omit/pointer nestings, each compared with its flattened twin type",
  "Two literal test values exercise squashing; wrong field addresses that happen to agree on them, or writes to omitted fields, are not noticed.",
  ["types/ssz_container.go", "types/ssz_ptr.go", "util/tags/read_tag.go"], [("getFields, Wrap, WrapOffset", "types/ssz_container.go"), ("HasFlag", "util/tags/read_tag.go"), ("SSZPtr", "types/ssz_ptr.go")], ["results for twin types"])
p("C22", "Different values have different roots",
  "Assuming the hash function is collision-free, two valid values of the same type have the same hash-tree-root if and only if they are equal. In particular lists differing only in length or trailing zeros never share a root.",
  ["inputs", "programs"], "all pairs of values within bounds of the catalogued types, hash modelled as an injective function",
  "Tests compute roots of single literals and never compare pairs.",
  ["types/ssz_bitlist.go", "types/ssz_bytes.go", "types/basic_series.go", "types/ssz_list.go", "types/ssz_container.go", "merkle/merkleize.go", "htr/hash_tree_root.go"],
  [("length mix-in", "htr/hash_tree_root.go"), ("leaf packing", "types/*.go")], ["HashTreeRoot of two values"])
p("C23", "Definition building accepts exactly the supported types",
  "Building a definition succeeds for every supported Go type and fails with an error, not a panic, for every unsupported one: unsupported kinds anywhere inside the type, slices that declare no limit, types that contain themselves, and squash tags on fields that are not structs. A bitvector type is accepted if and only if its declared bit length needs exactly its number of bytes, whatever that bit length is.",
  ["programs", "configurations"], "a catalogue of supported and unsupported type shapes (limits and bit lengths declared by methods on the pointer, as documented); the declared bit length is a symbolic 64-bit value",
  "Tests only build definitions of supported types.",
  ["types/factory.go", "types/limit.go", "types/ssz_bitvector.go", "types/ssz_container.go", "types/ssz_vector_basic.go", "types/ssz_list_basic.go", "util/tags/read_tag.go"],
  [("DefaultSSZFactory", "types/factory.go"), ("ReadListLimit", "types/limit.go"), ("NewSSZ*", "types/ssz_*.go")], ["SSZFactory result"])
p("C24", "Hashing uses only the supplied hash function, in the standard shape",
  "Combining two nodes hashes exactly their 64-byte concatenation, and mixing in a length hashes the node followed by the length as a 32-byte little-endian integer. After initialising with a hash function the zero-hash of each of the 64 levels is the hash of two zero-hashes of the level below, starting from 32 zero bytes, and the default is SHA-256; all roots depend on data through the supplied function only.",
  ["inputs", "configurations"], "the hash function is uninterpreted, node contents and the mixed-in number are symbolic",
  "Tests only ever use SHA-256 and lengths below 300.",
  ["htr/hash_tree_root.go"], [("Combi, MixIn, InitZeroHashes", "htr/hash_tree_root.go")], ["arguments passed to the hash function, ZeroHashes"])
p("C25", "Pretty printing shows every element once, in order, for any value",
  "Pretty printing any value of a supported type, including nil pointers and empty lists, completes without panicking or modifying the value. The output lists every field name and every element value exactly once, in declaration and index order, each value in a form that determines it.",
  ["inputs", "programs"], "all values within bounds of the catalogued types, leaf formatting compared with the documented per-kind form",
  "Pretty printing is not called by any test.",
  ["types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "types/ssz_vector_basic.go", "types/ssz_ptr.go", "types/ssz_uint8.go", "pretty/pretty.go"],
  [("Pretty methods", "types/ssz_*.go"), ("PrettyWriter", "pretty/pretty.go")], ["text written to the io.Writer"])
p("C26", "Values and results survive garbage collection",
  "Everything the library allocates is known to the garbage collector with the type it is used as, and whatever is still in use is referenced from memory the collector scans (not by plain numbers). Decoded values, in fresh and in used destinations, encodings, roots and fuzz-mode values are therefore the same whenever collections happen during the operation, and decoded values stay intact through collections afterwards, also when values of earlier operations have become garbage in between.",
  ["inputs", "schedules", "histories"], "all values within bounds of the catalogued types; a collection at every call of the stream or the hash function and after the operation, following a history whose values are garbage",
  "Collections hardly ever happen within a short test, and freed memory keeps its contents until it is reused, so a test passes even when memory in use has been freed.",
  ["util/ptrutil/allocation.go", "util/ptrutil/slice_header.go", "types/ssz_ptr.go", "types/ssz_list.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "zssz.go"],
  [("AllocateSliceSpaceAndBind, AllocateSpace", "util/ptrutil/allocation.go"), ("SSZPtr.Decode", "types/ssz_ptr.go")], ["decoded values, encodings and roots after collections"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
