From 55735a603ad8616ac0f91ec6c7f8e8bfcd5b3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 01/13] fix: check the limit of byte lists in the dry check

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ba5bac2 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	length := dr.GetBytesSpan()
+	if length > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
+	}
+	_, err := dr.Skip(length)
 	return err
 }
 
-- 
2.43.0


From f47c39b3bdc2ac7947f437a340bf7bebfc71083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 02/13] fix: exclude the bitlist delimiter from a full last
 leaf

---
 types/ssz_bitlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..631e7c9 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -147,8 +147,8 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-		// pad the data
-		if e > byteLen {
+		// pad the data, and remove the delimiting bit (the last leaf may be full, and still hold it)
+		if e >= byteLen {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
-- 
2.43.0


From f307c8aa48e7236c3a078c3567d3b23b9c642f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 03/13] fix: count the offsets in the maximum length of lists
 of variable-size elements

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..2846ac0 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 3825728a3d47b744cbc16525653e083e93c4e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 04/13] fix: accept an EOF that arrives together with the last
 bytes

---
 dec/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..90059b2 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -85,7 +85,8 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	for n < len(p) {
 		v, err := dr.input.Read(p[n:])
 		n += v
-		if err != nil {
+		// a reader may return the last bytes together with an error, e.g. io.EOF
+		if err != nil && n < len(p) {
 			return n, err
 		}
 	}
-- 
2.43.0


From 357d2e24054efa8d59ab2dcc051b2be9494fd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 05/13] fix: decode length, not byte-length, elements of basic
 vectors on big-endian machines

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From 75215c2d5aef20fcfb0d016f3f06837f71d76fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 06/13] fix: include partially padded siblings in merkle proofs

---
 merkle/merkleize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..d010183 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (everything after the count is zero),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && (i == count || (((1<<j)-1)&i) == ((1<<j)-1)) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// the next power of two may be smaller than the ultimate virtual size,
+	// everything next to the merged leafs is complemented with zero-hashes at each depth.
+	for j := depth; j < limitDepth; j++ {
+		if index>>j == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From b9afb417cb557e24f7ae96e0b4af46b9092f11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 07/13] fix: keep fuzz-mode basic lists within the available
 input

---
 types/ssz_list_basic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..34453f0 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,13 +97,13 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
 	}
-	bytesLen := x % span
 	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-- 
2.43.0


From ee78389792eb7bf90037da7ac870216b8ee700d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 08/13] fix: mask the unused bits of fuzz-mode bitvectors

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..76cdec8 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// clear the unused bits
+		data[len(data)-1] &= (1 << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From 51d473291d65189b1e5e1686849e181dc13f4825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 09/13] fix: mask the last byte of fuzz-mode bitlists to the
 bit limit

---
 types/ssz_bitlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 631e7c9..0d3d2ae 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -112,7 +112,7 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	}
 	if dr.IsFuzzMode() {
 		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		data[len(data)-1] &= (1 << (v.bitLimit - ((byteLen - 1) << 3) + 1)) - 1
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From b983eb51f196501b19ce66b2a64a6feeeb3a2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 10/13] fix: count the delimiting bit in the maximum fuzz
 length of bitlists

---
 types/ssz_bitlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 0d3d2ae..9df7680 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -49,8 +49,8 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
-	// 8 for a random byte count, limit for maximum fill
-	return 8 + v.byteLimit
+	// 8 for a random byte count, limit for maximum fill (including the delimiting bit)
+	return 8 + v.MaxLen()
 }
 
 // in bytes (rounded up), not bits. Includes the delimiting 1 bit.
-- 
2.43.0


From d9983b8f0738cd8c5131704de20d2bc9ed0bdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 11/13] fix: keep fuzz-mode lists within their limit

---
 types/ssz_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 2846ac0..92b0409 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -119,6 +119,9 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
 	}
+	if length > v.limit {
+		length = v.limit
+	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSeries(v.elemSSZ.Decode, length, v.elemMemSize, dr, contentsPtr)
-- 
2.43.0


From 78c188f3fa3ff6fa7d67b5cadc759f9e9bed1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:52 +0000
Subject: [PATCH 12/13] fix: refuse recursive types with an error instead of
 overflowing the stack

---
 types/factory.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/types/factory.go b/types/factory.go
index 815ae23..b231e71 100644
--- a/types/factory.go
+++ b/types/factory.go
@@ -9,7 +9,18 @@ type SSZFactoryFn func(typ reflect.Type) (SSZ, error)
 
 // The default SSZ factory
 func SSZFactory(typ reflect.Type) (SSZ, error) {
-	return DefaultSSZFactory(SSZFactory, typ)
+	// types that contain themselves have no SSZ equivalent, do not follow them forever
+	building := make(map[reflect.Type]struct{})
+	var factory SSZFactoryFn
+	factory = func(typ reflect.Type) (SSZ, error) {
+		if _, ok := building[typ]; ok {
+			return nil, fmt.Errorf("ssz: type %s is recursive", typ.String())
+		}
+		building[typ] = struct{}{}
+		defer delete(building, typ)
+		return DefaultSSZFactory(factory, typ)
+	}
+	return factory(typ)
 }
 
 func DefaultSSZFactory(factory SSZFactoryFn, typ reflect.Type) (SSZ, error) {
-- 
2.43.0


From adfd933cdcf17c5ff49bef23e0d86467a5ad9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:34 +0000
Subject: [PATCH 13/13] fix: check list limits before allocating

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 9df7680..e5e7c26 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check the limit before allocating anything, the length may be anything
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 34453f0..b77edf7 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -120,6 +120,10 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
+	// check the limit before allocating anything, the length may be anything
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
+	}
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0

