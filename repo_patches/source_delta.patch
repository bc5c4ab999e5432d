From a8a69a252f2dbe0d07ae9285d95ea5e96c05f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:28 +0000
Subject: [PATCH 01/45] fix: report alignment errors of variant cases

AlignmentVariant returned a zero alignment and no error when the alignment
of a case type could not be computed.
---
 abi/io/alignment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..8d6d89b 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -75,11 +75,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
-- 
2.43.0


From e8b81c3fe0558a5d35c3908be93364c898477fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 02/45] fix: check guest memory ranges without 32-bit overflow

---
 abi/io/canon_lift.go  |  4 ++--
 abi/io/canon_lower.go |  4 ++--
 abi/io/load.go        | 28 +++++++++++++++++++--------
 abi/io/store.go       | 45 ++++++++++++++++++++++++-------------------
 4 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..700c382 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -121,8 +121,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
 	}
 
 	load, err := Load(cx, tupleType, ptr)
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..fece85e 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -133,8 +133,8 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
 	}
 	return []any{ptr}, nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..5b52cbb 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -130,12 +130,25 @@ func LoadUInt64(cx *types.CallContext, ptr uint32) (uint64, error) {
 	return u64, nil
 }
 
+// memoryRange returns the size bytes of memory starting at ptr and traps if they are not all inside of memory
+func memoryRange(c *types.CallContext, ptr uint32, size uint64) ([]byte, error) {
+	buf := c.Options.Memory.Bytes()
+	end := uint64(ptr) + size
+	if end > uint64(len(buf)) {
+		return nil, types.TrapWith("range [%d, %d) exceeds memory size %d", ptr, end, len(buf))
+	}
+	return buf[ptr:end], nil
+}
+
 func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	size, err := Size(t)
 	if err != nil {
 		return nil, err
 	}
-	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
+	buf, err := memoryRange(c, ptr, uint64(size))
+	if err != nil {
+		return nil, err
+	}
 	switch t.(type) {
 	case types.U8:
 		return buf[0], nil
@@ -233,7 +246,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -244,11 +257,10 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, byteLength)
+	if err != nil {
+		return "", err
 	}
-
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
@@ -283,8 +295,8 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(length)*uint64(size)); err != nil {
+		return nil, err
 	}
 	var list []any
 	var i uint32 = 0
diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..94d67e9 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -90,10 +90,7 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
-		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
-	}
-
+	_, err = memoryRange(c, ptr, uint64(size))
 	return err
 }
 
@@ -112,7 +109,10 @@ func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error
 }
 
 func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
-	buf := c.Options.Memory.Bytes()[ptr : ptr+SizeOfU32]
+	buf, err := memoryRange(c, ptr, uint64(SizeOfU32))
+	if err != nil {
+		return err
+	}
 	binary.LittleEndian.PutUint32(buf, val)
 	return nil
 }
@@ -182,7 +182,10 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		}
 	}
 
-	buf := c.Options.Memory.Bytes()[ptr : ptr+nbytes]
+	buf, err := memoryRange(c, ptr, uint64(nbytes))
+	if err != nil {
+		return err
+	}
 	switch nbytes {
 	case SizeOfS8:
 		buf[0] = uint8(u64)
@@ -281,7 +284,10 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
+	buf, err := memoryRange(cx, ptr, uint64(lenEncoded))
+	if err != nil {
+		return 0, 0, err
+	}
 	copy(buf, encoded)
 
 	// return the pointer and the adjusted length (in runes)
@@ -305,8 +311,9 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 	if ptr != align {
 		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
 	}
-	if ptr+dstByteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("array size %d is greater than the memory size %d", ptr+dstByteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, uint64(dstByteLength))
+	if err != nil {
+		return 0, 0, err
 	}
 
 	encoded, err := encoding.EncodeString(dstEncoding, src)
@@ -314,7 +321,6 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+dstByteLength]
 	copy(buf, encoded)
 
 	return ptr, srcCodeUnits, err
@@ -341,8 +347,9 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, types.TrapWith("ptr %d is not alinged to 2", ptr)
 	}
 
-	if ptr+worstCaseSize > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("worst case size %d is greater than memory size %d", ptr+worstCaseSize, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, uint64(worstCaseSize))
+	if err != nil {
+		return 0, 0, err
 	}
 
 	encoded, err := encoding.EncodeString(encoding.NewUTF16(), src)
@@ -350,8 +357,6 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, err
 	}
 
-	hiPtr := ptr + uint32(len(encoded))
-	buf := cx.Options.Memory.Bytes()[ptr:hiPtr]
 	copy(buf, encoded)
 
 	if len(encoded) < int(worstCaseSize) {
@@ -368,8 +373,8 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 			return 0, 0, types.TrapWith("ptr %d could not be aligned to 2", ptr)
 		}
 
-		if hiPtr > uint32(cx.Options.Memory.Len()) {
-			return 0, 0, types.TrapWith("ptr %d is greater than memory size %d", hiPtr, cx.Options.Memory.Len())
+		if _, err := memoryRange(cx, ptr, uint64(len(encoded))); err != nil {
+			return 0, 0, err
 		}
 	}
 
@@ -401,8 +406,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 	}
 
 	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	if byteLengthInt > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, uint32(math.MaxUint32))
 	}
 	byteLength := uint32(byteLengthInt)
 
@@ -424,8 +429,8 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	if _, err := memoryRange(cx, ptr, uint64(byteLength)); err != nil {
+		return 0, 0, err
 	}
 
 	for i, element := range slice {
-- 
2.43.0


From f6fbdac0a9a01a03a8d16ee92fa3f30314c6e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:13 +0000
Subject: [PATCH 03/45] fix: reject misaligned string allocations and oversized
 strings

---
 abi/io/store.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 94d67e9..1c7fce3 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -277,12 +277,22 @@ func StoreStringDynamic(
 	}
 
 	dstAlignment := uint32(codec.Alignment())
+	if uint64(len(encoded)) > uint64(types.MaxStringByteLength) {
+		return 0, 0, types.TrapWith("destination byte length %d is greater than max string byte length %d", len(encoded), types.MaxStringByteLength)
+	}
 	lenEncoded := uint32(len(encoded))
 
 	ptr, err := cx.Options.Realloc(0, 0, dstAlignment, lenEncoded)
 	if err != nil {
 		return 0, 0, err
 	}
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
+	}
 
 	buf, err := memoryRange(cx, ptr, uint64(lenEncoded))
 	if err != nil {
-- 
2.43.0


From d85a3a568e1c86666bca23537412c32a9b5d04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:14 +0000
Subject: [PATCH 04/45] fix: check the discriminant load error before using its
 value

---
 abi/io/load.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index 5b52cbb..2f86f5f 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -342,6 +342,9 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		return nil, err
 	}
 	caseIndex, err := LoadInt(cx, ptr, dt)
+	if err != nil {
+		return nil, err
+	}
 	var u32CaseIndex uint32 = 0
 	switch dt.(type) {
 	case types.U8:
@@ -354,9 +357,6 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		// could cause problems if caseIndex is actually a u64
 		u32CaseIndex = uint32(caseIndex.(uint64))
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	discSize, err := Size(dt)
 	if err != nil {
-- 
2.43.0


From a68d09c06f908ed2ad836c636653a69d708d0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:15 +0000
Subject: [PATCH 05/45] fix: free the removed handle index

---
 abi/types/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..b360d5c 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
-- 
2.43.0


From df55113332d2dd95f6ad3bbcd878e122b75eb77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:16 +0000
Subject: [PATCH 06/45] fix: allow handle tables without a preallocated map

---
 abi/types/handle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index b360d5c..e640034 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -74,6 +74,9 @@ func (ht *HandleTables) Table(rt ResourceType) *HandleTable {
 	t, ok := ht.ResourceTypeToTable[rt]
 	if !ok {
 		t = &HandleTable{}
+		if ht.ResourceTypeToTable == nil {
+			ht.ResourceTypeToTable = map[ResourceType]*HandleTable{}
+		}
 		ht.ResourceTypeToTable[rt] = t
 	}
 	return t
-- 
2.43.0


From e7403eb6453a69ce718e274d5140110d65c17a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:17 +0000
Subject: [PATCH 07/45] fix: return spilled values in declaration order

---
 abi/io/canon_lift.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 700c382..19dae8c 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
-- 
2.43.0


From 6e741bd8541179d7ac1e2d3b2af53af9e80649cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:18 +0000
Subject: [PATCH 08/45] fix: store spilled values and pass their address as a
 core value

---
 abi/io/canon_lower.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index fece85e..6335942 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -136,5 +136,9 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
 		return nil, err
 	}
-	return []any{ptr}, nil
+	err = Store(cx, tupleValue, tupleType, ptr)
+	if err != nil {
+		return nil, err
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From 4543feb4623e9915298fbb8a4aa1d895c04dbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:19 +0000
Subject: [PATCH 09/45] fix: reject a value count that does not match the
 signature

---
 abi/io/canon_lower.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 6335942..ede17cb 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -69,6 +69,10 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, fmt.Errorf("expected %d values but found %d", len(ts), len(vs))
+	}
+
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2482ff0fa4f5c0e1eabae112d00a9a42fdd68fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:20 +0000
Subject: [PATCH 10/45] fix: report a call that ends with outstanding borrows

---
 abi/io/canon_lower.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index ede17cb..2edc443 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -60,7 +60,10 @@ func CanonLower(
 	inst.MayLeave = true
 
 	postReturn()
-	cx.ExitCall()
+	err = cx.ExitCall()
+	if err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From 8ea5cf2a98f2eba0cb9c5b21d74faaa09809fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:21 +0000
Subject: [PATCH 11/45] fix: support storing own and borrow handles

---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 1c7fce3..20aed76 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -67,6 +67,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreUInt32(c, i, ptr)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From f3a44d4030a56eb03295adf0d5068f168a1928aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:22 +0000
Subject: [PATCH 12/45] fix: return cast errors for ill-typed floats, flags,
 chars and strings

---
 abi/io/lower.go | 10 ++++++++--
 abi/io/store.go | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..22ce98f 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,19 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index 20aed76..13f60ac 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -108,12 +108,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -540,7 +546,10 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
+	vMap, err := ToMapStringAny(val)
+	if err != nil {
+		return err
+	}
 	i, err := PackFlagsIntoInt(vMap, f)
 	if err != nil {
 		return err
-- 
2.43.0


From 1df841c387dce9826a332e1ba15795884cc6fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:23 +0000
Subject: [PATCH 13/45] fix: report exhausted value iterators

---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..f996387 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= vi.Length() {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From adede8b90a4f9879cb5b3fb3b9ecea2279573556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:42 +0000
Subject: [PATCH 14/45] fix: reject integers that do not fit the stored width

---
 abi/io/store.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index 13f60ac..1a4d95e 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -143,40 +143,30 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 	switch t := val.(type) {
 	case uint8:
 		u64 = uint64(t)
-		max = math.MaxUint8
 	case uint16:
 		u64 = uint64(t)
-		max = math.MaxUint16
 	case uint32:
 		u64 = uint64(t)
-		max = math.MaxUint32
 	case uint64:
 		u64 = t
-		max = math.MaxUint64
 	case int8:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt8
-		min = math.MinInt8
 	case int16:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt16
-		min = math.MinInt16
 	case int32:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt32
-		min = math.MinInt32
 	case int64:
 		u64 = uint64(t)
 		sign = true
-		max = math.MaxInt64
-		min = math.MinInt64
 	case int:
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "sized integer")
 	}
 
 	if sign != signed {
@@ -187,13 +177,28 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("invalid integer sign %v for value %v", signCh, val)
 	}
 
+	// the value must fit in the bytes it is stored in
+	switch nbytes {
+	case 0:
+	case SizeOfS8:
+		max, min = math.MaxUint8, math.MinInt8
+	case SizeOfS16:
+		max, min = math.MaxUint16, math.MinInt16
+	case SizeOfS32:
+		max, min = math.MaxUint32, math.MinInt32
+	case SizeOfS64:
+		max, min = math.MaxUint64, math.MinInt64
+	default:
+		return fmt.Errorf("unable to store integer in %d bytes", nbytes)
+	}
+
 	if !signed && u64 > max {
 		return fmt.Errorf("invalid integer %d exceeds max value %d", val, max)
 	}
 	if signed {
 		s64 := int64(u64)
-		if s64 > int64(max) {
-			return fmt.Errorf("invalid integer %d exceeds max value %d", val, int64(max))
+		if s64 > int64(max>>1) {
+			return fmt.Errorf("invalid integer %d exceeds max value %d", val, int64(max>>1))
 		}
 		if s64 < min {
 			return fmt.Errorf("invalid integer %d exceeds min value %d", val, min)
-- 
2.43.0


From 199b16e52b16eeb39d8554f34ae66b5f1701d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:43 +0000
Subject: [PATCH 15/45] fix: reject flags that do not fit in 64 bits instead of
 dropping labels

---
 abi/io/lift.go  | 3 +++
 abi/io/store.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..97b04c9 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -323,6 +323,9 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
+	if len(f.Labels()) > 64 {
+		return nil, fmt.Errorf("unable to unpack more than 64 flags")
+	}
 	var flat uint64 = 0
 	shift := 0
 	numFlags := NumI32Flags(f.Labels())
diff --git a/abi/io/store.go b/abi/io/store.go
index 1a4d95e..8cf79cd 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -575,6 +575,9 @@ func ToMapStringAny(val any) (map[string]any, error) {
 }
 
 func PackFlagsIntoInt(v map[string]any, flags types.Flags) (uint64, error) {
+	if len(flags.Labels()) > 64 {
+		return 0, fmt.Errorf("unable to pack more than 64 flags")
+	}
 	var packed uint64 = 0
 	shift := 0
 	for _, label := range flags.Labels() {
-- 
2.43.0


From 6fc96ae91b954cc302f2e27346d337b46f076a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:17 +0000
Subject: [PATCH 16/45] fix: refuse to lift a borrowed handle as an owned one

---
 abi/io/lift.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 97b04c9..dba63af 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -13,6 +13,9 @@ func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
+	if !h.Own {
+		return 0, types.TrapWith("handle %d does not own its resource", i)
+	}
 	return h.Rep, nil
 }
 
-- 
2.43.0


From 05af9bc5eaa4185bae4b1666a41e9ffa21f5decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:20 +0000
Subject: [PATCH 17/45] fix: compute transcoded string sizes without 32-bit
 wrap-around

---
 abi/io/store.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index 8cf79cd..fdb11a8 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -329,10 +329,11 @@ func StoreStringDynamic(
 
 func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dstCodeUnitSize uint32, dstAlignment uint32, dstEncoding encoding.Encoder) (uint32, uint32, error) {
 
-	dstByteLength := dstCodeUnitSize * srcCodeUnits
-	if dstByteLength > types.MaxStringByteLength {
-		return 0, 0, types.TrapWith("destination byte length %d is greater than max string byte length %d", dstByteLength, types.MaxStringByteLength)
+	byteLength := uint64(dstCodeUnitSize) * uint64(srcCodeUnits)
+	if byteLength > uint64(types.MaxStringByteLength) {
+		return 0, 0, types.TrapWith("destination byte length %d is greater than max string byte length %d", byteLength, types.MaxStringByteLength)
 	}
+	dstByteLength := uint32(byteLength)
 	ptr, err := cx.Options.Realloc(0, 0, dstAlignment, dstByteLength)
 	if err != nil {
 		return 0, 0, err
@@ -361,11 +362,12 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 
 func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (uint32, uint32, error) {
 
-	worstCaseSize := 2 * srcCodeUnits
+	byteLength := 2 * uint64(srcCodeUnits)
 
-	if worstCaseSize > types.MaxStringByteLength {
-		return 0, 0, types.TrapWith("worst case size %d is greater than max string byte length %d", worstCaseSize, types.MaxStringByteLength)
+	if byteLength > uint64(types.MaxStringByteLength) {
+		return 0, 0, types.TrapWith("worst case size %d is greater than max string byte length %d", byteLength, types.MaxStringByteLength)
 	}
+	worstCaseSize := uint32(byteLength)
 
 	ptr, err := cx.Options.Realloc(0, 0, 2, worstCaseSize)
 	if err != nil {
-- 
2.43.0


From 5050ea3acf635457bf32d8a91b2a888233864866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:47 +0000
Subject: [PATCH 18/45] fix: reject loads of values that do not lie entirely in
 memory

Reading a string, list, record or variant near the top of the 32-bit address
space advanced the address past 2^32 and read the remainder from address 0.
Load now checks the range of the whole value first, like Store does.
---
 abi/io/load.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index 2f86f5f..a581259 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -11,6 +11,15 @@ import (
 )
 
 func Load(cx *types.CallContext, t types.ValType, ptr uint32) (any, error) {
+	// the whole value must lie in memory
+	size, err := Size(t)
+	if err != nil {
+		return nil, err
+	}
+	if _, err := memoryRange(cx, ptr, uint64(size)); err != nil {
+		return nil, err
+	}
+
 	t = Despecialize(t)
 
 	switch vt := t.(type) {
-- 
2.43.0


From e8ce6a00476bec79171f6f8c79650843c2d47571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:38 +0000
Subject: [PATCH 19/45] fix: forbid re-entering an instance while it calls an
 import

CanonLower restored MayEnter after an import call but never withdrew it.
---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 2edc443..3cc7575 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -47,6 +47,9 @@ func CanonLower(
 		return nil, err
 	}
 
+	if callingImport {
+		inst.MayEnter = false
+	}
 	results, postReturn, err := callee(lifted)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f6c782ecf3ddd82ed71626fc7b60cf2ac76443ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:48 +0000
Subject: [PATCH 20/45] fix: reject truncated and oversized LEB128 numbers

Numbers longer than 32 bits silently lost their high bits, a slice ending inside
a number was accepted, and a byte delivered together with io.EOF was dropped.
---
 leb128/decode.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..2d2b149 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -2,10 +2,13 @@ package leb128
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 )
 
+var errOverflow = errors.New("leb128: value does not fit in 32 bits")
+
 func DecodeReader(r io.Reader) (uint32, int, error) {
 	var val uint32
 	shift := 0
@@ -13,8 +16,8 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
-		if n == 0 {
+		_, err := io.ReadFull(r, buf)
+		if errors.Is(err, io.EOF) {
 			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
 		}
 		if err != nil {
@@ -22,6 +25,10 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 		}
 		b := buf[0]
 		total++
+		// the fifth byte holds the last 4 of 32 bits
+		if shift == 28 && b > 0b_0000_1111 {
+			return 0, 0, errOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -41,6 +48,10 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 			return 0, 0, err
 		}
 		total++
+		// the fifth byte holds the last 4 of 32 bits
+		if shift == 28 && b > 0b_0000_1111 {
+			return 0, 0, errOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -57,11 +68,15 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	for index := 0; index < len(s); index++ {
 		b := s[index]
 		total++
+		// the fifth byte holds the last 4 of 32 bits
+		if shift == 28 && b > 0b_0000_1111 {
+			return 0, 0, errOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
 }
-- 
2.43.0


From f095588ea0ee797004314f25dd7f026f25281909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:00 +0000
Subject: [PATCH 21/45] fix: read local declarations as counted groups and
 require function bodies

Locals are encoded as (count, type) pairs but were read as a plain list of types,
and a code section with fewer entries than the function section was accepted.
---
 binary/binary.go |  3 +++
 binary/read.go   | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/binary/binary.go b/binary/binary.go
index 5a2636e..7d18574 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -5,6 +5,9 @@ var Magic = []byte{0x00, 0x61, 0x73, 0x6d}
 const ModuleVersion uint16 = 0x01
 const ComponentVersion uint16 = 0x0a
 
+// MaxLocals is the largest number of locals a function may declare
+const MaxLocals = 50000
+
 type SectionID uint8
 
 const (
diff --git a/binary/read.go b/binary/read.go
index 0748f7e..cf5dcc8 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -113,6 +113,11 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 		}
 	}
+	for i, fn := range module.Funcs {
+		if fn.Body == nil {
+			return nil, fmt.Errorf("function %d has no entry in the code section", i)
+		}
+	}
 	return module, nil
 }
 
@@ -353,7 +358,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		locals, err := ReadLocals(reader)
 		if err != nil {
 			return err
 		}
@@ -367,6 +372,33 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 	return nil
 }
 
+// ReadLocals reads the local declarations of a function, each of which
+// declares a number of locals of the same type
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	groups, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < groups; i++ {
+		count, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(len(locals))+uint64(count) > MaxLocals {
+			return nil, fmt.Errorf("function declares more than %d locals", MaxLocals)
+		}
+		for j := uint32(0); j < count; j++ {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadInstruction(reader io.Reader) (api.Instruction, error) {
 	opCode, err := ReadOpCode(reader)
 	if err != nil {
-- 
2.43.0


From 44b6029f0d87879bf9901c29f0cd36d633e8d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:42 +0000
Subject: [PATCH 22/45] fix: do not allocate binary vectors by their declared
 count

A fifteen byte file declaring 2^32-1 exports made the reader allocate
128 GiB up front and crash the process. Grow the vectors as entries are
read instead.
---
 binary/read.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index cf5dcc8..4c86b2f 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -144,13 +144,13 @@ func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := []*api.FuncType{}
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -193,13 +193,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := []api.ValType{}
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -229,13 +229,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := []*api.Func{}
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -257,13 +257,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := []api.Export{}
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
-- 
2.43.0


From ebf8a43d2c93d849e30fad2caca8136d4ab1c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:50 +0000
Subject: [PATCH 23/45] fix: return lexing errors from Lexer.Peek instead of
 panicking

---
 wat/lex/lexer.go | 8 ++++++--
 wit/lex/lexer.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..f562961 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,8 +71,12 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
-	return l.peekToken, nil
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
+	return tok, nil
 }
 
 func (l *Lexer) Next() (*token.Token, error) {
diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..ae7222b 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,8 +71,12 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
-	return l.peekToken, nil
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
+	return tok, nil
 }
 
 func (l *Lexer) next() (res types.Result[*token.Token]) {
-- 
2.43.0


From 87dfabb9de46de548b94f0c5c4ea2351b7407aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:50 +0000
Subject: [PATCH 24/45] fix: return lexing errors from wat ParseString instead
 of panicking

---
 wat/parse/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..10f1706 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -760,6 +760,7 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
-- 
2.43.0


From c6f99154e1d40c33db083c6ed5652ddf01d20dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:58 +0000
Subject: [PATCH 25/45] fix: store the item type of wit list and option types
 in ItemType

---
 wit/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..896aa58 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -563,7 +563,7 @@ func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
@@ -573,7 +573,7 @@ func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
-- 
2.43.0


From 2c2a67ff995d1f8edc0a7183eb2074782db068ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:59 +0000
Subject: [PATCH 26/45] fix: keep the name of wit resource methods

---
 wit/parse/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 896aa58..57d8120 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -250,6 +250,7 @@ func parseResourceMethod(lexer *lex.Lexer) (res types.Result[ast.ResourceMethod]
 		// throw away the clone
 		funcItem := parseFuncItem(lexer).Unwrap()
 		resourceMethod = ast.Method{
+			ID:   id,
 			Func: funcItem,
 		}
 	} else {
-- 
2.43.0


From 24cb5e0e995921f2d8793e4446c92acf75a002c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:59 +0000
Subject: [PATCH 27/45] fix: reject unknown top level items in wit documents

A stray token was accepted as an empty item. The semicolon that ends a top
level use was accepted that way too, so it is now part of the use item.
---
 wit/parse/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 57d8120..146898f 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : unexpected token '%s'. expected (use, world, interface)", parseError(tok), tok.Capture)
 		}
 		n.Items = append(n.Items, *item)
 
@@ -106,6 +108,9 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+
+	// ;
+	expect(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
-- 
2.43.0


From 596f3785abf599c824c529b19efeb33f620c1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:00 +0000
Subject: [PATCH 28/45] fix: require an identifier as wit package namespace

---
 wit/parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 146898f..23b262e 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -59,7 +59,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
-- 
2.43.0


From b011abb7f374c330dbc44a20befd809f3c462b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:01 +0000
Subject: [PATCH 29/45] fix: require ';' or a method list after a wit resource
 name

---
 wit/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 23b262e..fff69b6 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -216,6 +216,8 @@ func parseResource(lexer *lex.Lexer) (res types.Result[ast.Resource]) {
 			tok = peek(lexer).Unwrap()
 		}
 		expect(lexer, token.CloseBrace).Unwrap()
+	default:
+		return result.Errorf[ast.Resource]("%w. expected ';' or '{' but found '%s'", parseError(tok), tok.Capture)
 	}
 
 	return result.Ok(ast.Resource{
-- 
2.43.0


From 3053188d2b1303fd6f690284b9950a35235516d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:01 +0000
Subject: [PATCH 30/45] fix: separate renamed wit includes with commas

---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index fff69b6..a2b7c6b 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -713,6 +713,10 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 				Name: id,
 				As:   as,
 			})
+			if !eat(lexer, token.Comma).Unwrap() {
+				expect(lexer, token.CloseBrace).Unwrap()
+				break
+			}
 		}
 	} else {
 		expect(lexer, token.Semicolon).Unwrap()
-- 
2.43.0


From f1a258abb9809cbf8dc69ab789b71d8d036e89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:02 +0000
Subject: [PATCH 31/45] fix: accept flags and enum definitions in wit worlds

---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index a2b7c6b..06ba5be 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -660,6 +660,10 @@ func parseWorldItem(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 		worldItem = parseRecord(lexer).Unwrap()
 	case token.Variant:
 		worldItem = parseVariant(lexer).Unwrap()
+	case token.Flags:
+		worldItem = parseFlags(lexer).Unwrap()
+	case token.Enum:
+		worldItem = parseEnum(lexer).Unwrap()
 	case token.Resource:
 		worldItem = parseResource(lexer).Unwrap()
 	case token.Include:
-- 
2.43.0


From 0c2ac34c1e30cbdcb436a763cd2445c682359e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:02 +0000
Subject: [PATCH 32/45] fix: parse package qualified use paths in wit documents

The optional version after the path always failed, and imports and exports
never fell back to the path.
---
 wit/parse/parser.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 06ba5be..fcf22b2 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -358,7 +358,6 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 	name := parseId(lexer).Unwrap()
 	version := parseOptionalVersion(lexer).Unwrap()
 	usePath := &ast.UsePath{
-		Id: "string",
 		Package: struct {
 			Id   *ast.PackageDeclaration
 			Name string
@@ -375,7 +374,12 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 }
 
 func parseOptionalVersion(lexer *lex.Lexer) (res types.Result[types.Option[ast.Version]]) {
-	return result.Errorf[types.Option[ast.Version]]("not implemented")
+	defer handle.Error(&res)
+	if !eat(lexer, token.At).Unwrap() {
+		return result.Ok(option.None[ast.Version]())
+	}
+	version := parseVersion(lexer).Unwrap()
+	return result.Ok(option.Some(*version))
 }
 
 func parseFuncItem(lexer *lex.Lexer) (res types.Result[*ast.FuncItem]) {
@@ -769,7 +773,12 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 		})
 	}
 
-	return result.Errorf[ast.ExternType]("unable to parse ExternType %w", parseError(tok))
+	// `foo:bar/baz@1.0`
+	usePath := parseUsePath(lexer).Unwrap()
+	expect(lexer, token.Semicolon).Unwrap()
+	return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
+		UsePath: usePath,
+	})
 }
 
 // record-item ::= 'record' id '{' record-fields '}'
-- 
2.43.0


From 9fbfea7a77ef9f2e369d0f4a438cb747f0b2a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:03 +0000
Subject: [PATCH 33/45] fix: tell wit primitive types, named types and other
 tokens apart

Every token that was not one of a few primitive types became a reference to
a type of that name, including punctuation.
---
 wit/parse/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index fcf22b2..33329fa 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -489,8 +489,26 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	var ty ast.Type
 	switch name.Type {
+	case token.U8:
+		ty = &ast.U8{}
+	case token.U16:
+		ty = &ast.U16{}
 	case token.U32:
 		ty = &ast.U32{}
+	case token.U64:
+		ty = &ast.U64{}
+	case token.S8:
+		ty = &ast.S8{}
+	case token.S16:
+		ty = &ast.S16{}
+	case token.S32:
+		ty = &ast.S32{}
+	case token.S64:
+		ty = &ast.S64{}
+	case token.Char:
+		ty = &ast.Char{}
+	case token.Bool:
+		ty = &ast.Bool{}
 	case token.String:
 		ty = &ast.String{}
 	case token.Float32:
@@ -521,8 +539,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : unexpected token '%s', expected a type", parseError(name), name.Capture)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0


From 5262f586fe36be83a0b7e4959f74ebfbaffd1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:48 +0000
Subject: [PATCH 34/45] fix: keep all i32 instructions in the parsed wat tree

Most bitwise, shift and comparison instructions were parsed to nil.
---
 wat/ast/ast.go      | 100 ++++++++++++++++++++++++++++++++++++++++++++
 wat/parse/parser.go |  25 +++++++++++
 2 files changed, 125 insertions(+)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 3da2ded..4a2f1c1 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -223,6 +223,106 @@ type I32DivU struct{}
 
 func (I32DivU) inst() {}
 
+type I32RemS struct{}
+
+func (I32RemS) inst() {}
+
+type I32RemU struct{}
+
+func (I32RemU) inst() {}
+
+type I32And struct{}
+
+func (I32And) inst() {}
+
+type I32Or struct{}
+
+func (I32Or) inst() {}
+
+type I32Xor struct{}
+
+func (I32Xor) inst() {}
+
+type I32Shl struct{}
+
+func (I32Shl) inst() {}
+
+type I32ShrS struct{}
+
+func (I32ShrS) inst() {}
+
+type I32ShrU struct{}
+
+func (I32ShrU) inst() {}
+
+type I32Rotl struct{}
+
+func (I32Rotl) inst() {}
+
+type I32Rotr struct{}
+
+func (I32Rotr) inst() {}
+
+type I32Clz struct{}
+
+func (I32Clz) inst() {}
+
+type I32Ctz struct{}
+
+func (I32Ctz) inst() {}
+
+type I32Popcnt struct{}
+
+func (I32Popcnt) inst() {}
+
+type I32Extend8S struct{}
+
+func (I32Extend8S) inst() {}
+
+type I32Extend16S struct{}
+
+func (I32Extend16S) inst() {}
+
+type I32Eq struct{}
+
+func (I32Eq) inst() {}
+
+type I32Ne struct{}
+
+func (I32Ne) inst() {}
+
+type I32LtS struct{}
+
+func (I32LtS) inst() {}
+
+type I32LtU struct{}
+
+func (I32LtU) inst() {}
+
+type I32LeS struct{}
+
+func (I32LeS) inst() {}
+
+type I32LeU struct{}
+
+func (I32LeU) inst() {}
+
+type I32GtS struct{}
+
+func (I32GtS) inst() {}
+
+type I32GtU struct{}
+
+func (I32GtU) inst() {}
+
+type I32GeS struct{}
+
+func (I32GeS) inst() {}
+
+type I32GeU struct{}
+
+func (I32GeU) inst() {}
+
 type Folded struct {
 	Instruction Instruction
 	Parameters  []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 10f1706..6c49977 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -484,32 +484,57 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.div_u":
 		inst = ast.I32DivU{}
 	case "i32.rem_s":
+		inst = ast.I32RemS{}
 	case "i32.rem_u":
+		inst = ast.I32RemU{}
 	case "i32.and":
+		inst = ast.I32And{}
 	case "i32.or":
+		inst = ast.I32Or{}
 	case "i32.xor":
+		inst = ast.I32Xor{}
 	case "i32.shl":
+		inst = ast.I32Shl{}
 	case "i32.shr_s":
+		inst = ast.I32ShrS{}
 	case "i32.shr_u":
+		inst = ast.I32ShrU{}
 	case "i32.rotl":
+		inst = ast.I32Rotl{}
 	case "i32.rotr":
+		inst = ast.I32Rotr{}
 	case "i32.clz":
+		inst = ast.I32Clz{}
 	case "i32.ctz":
+		inst = ast.I32Ctz{}
 	case "i32.popcnt":
+		inst = ast.I32Popcnt{}
 	case "i32.extend8_s":
+		inst = ast.I32Extend8S{}
 	case "i32.extend16_s":
+		inst = ast.I32Extend16S{}
 	case "i32.eqz":
 		inst = ast.I32Eqz{}
 	case "i32.eq":
+		inst = ast.I32Eq{}
 	case "i32.ne":
+		inst = ast.I32Ne{}
 	case "i32.lt_s":
+		inst = ast.I32LtS{}
 	case "i32.lt_u":
+		inst = ast.I32LtU{}
 	case "i32.le_s":
+		inst = ast.I32LeS{}
 	case "i32.le_u":
+		inst = ast.I32LeU{}
 	case "i32.gt_s":
+		inst = ast.I32GtS{}
 	case "i32.gt_u":
+		inst = ast.I32GtU{}
 	case "i32.ge_s":
+		inst = ast.I32GeS{}
 	case "i32.ge_u":
+		inst = ast.I32GeU{}
 	case "block":
 		inst = parseBlock(lexer).Unwrap()
 	case "loop":
-- 
2.43.0


From a18a4ed9afcc7e42c079da663b4963f0f829c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:48 +0000
Subject: [PATCH 35/45] fix: keep inline imports of wat functions

---
 wat/ast/ast.go      | 1 +
 wat/parse/parser.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 4a2f1c1..347eb3d 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -27,6 +27,7 @@ type Function struct {
 	ID           types.Option[string]
 	Locals       []Local
 	Exports      []InlineExport
+	Imports      []InlineImport
 	Parameters   []Parameter
 	Results      []Result
 	Instructions []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 6c49977..a5e868f 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -109,7 +109,8 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			export := parseExport(lexer).Unwrap()
 			function.Exports = append(function.Exports, export)
 		case "import":
-			_ = parseImport(lexer).Unwrap()
+			imp := parseImport(lexer).Unwrap()
+			function.Imports = append(function.Imports, imp)
 		default:
 			inst := parseInstruction(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
-- 
2.43.0


From e93d416af9b2c608a0e85307b8d10b7ebcead158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:48 +0000
Subject: [PATCH 36/45] fix: reject unknown reference types of wat tables

---
 wat/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index a5e868f..53ecd77 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -262,6 +262,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
-- 
2.43.0


From b6c82b030262e155a2f62398e18d08607a0caa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:48 +0000
Subject: [PATCH 37/45] fix: reject empty clauses in wat function types

---
 wat/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 53ecd77..88b1dd9 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -205,6 +205,8 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 		case "result":
 			result := parseResult(lexer).Unwrap()
 			results = append(results, *result)
+		default:
+			return result.Errorf[ast.FuncType]("%w : expected 'param' or 'result' but found '%s'", parseError(tok), tok.Capture)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
-- 
2.43.0


From 898f37bdf2da81886d2e67f77e29c207f6e6ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:48 +0000
Subject: [PATCH 38/45] fix: reject repeated then and else clauses of a wat if

Only the last one was kept.
---
 wat/parse/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 88b1dd9..12ac874 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -663,6 +663,7 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 	_else := option.None[ast.Else]()
 	var then ast.Then
 	var instructions []ast.Instruction
+	hasThen := false
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok = peek(lexer).Unwrap()
 		switch tok.Capture {
@@ -670,8 +671,15 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 			res := parseResult(lexer).Unwrap()
 			results = append(results, *res)
 		case "then":
+			if hasThen {
+				return result.Errorf[ast.If]("%w : repeated then", parseError(tok))
+			}
 			then = parseThen(lexer).Unwrap()
+			hasThen = true
 		case "else":
+			if _else.IsSome() {
+				return result.Errorf[ast.If]("%w : repeated else", parseError(tok))
+			}
 			e := parseElse(lexer).Unwrap()
 			_else = option.Some(e)
 		default:
-- 
2.43.0


From 5d48fa8164d2a8d38c225a51fe46b87416c734b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:48 +0000
Subject: [PATCH 39/45] fix: read wat integers at the width of their type

64-bit constants were limited to 32 bits, indices were truncated to 32 bits,
limits could be negative, a leading zero meant octal and a plus sign was
rejected.
---
 wat/parse/parser.go | 59 +++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 12ac874..34c7b9a 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -316,15 +316,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := parseUint32(lexer).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := parseUint32(lexer).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -574,7 +574,7 @@ func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
+		i := result.New(parseUint(tok.Capture, 32)).Unwrap()
 		index = &ast.RawIndex{
 			Index: uint32(i),
 		}
@@ -817,14 +817,47 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int32]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int32(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInt(tok.Capture, 32)
 	return result.New(int32(i), err)
 }
 
+func parseUint32(lexer *lex.Lexer) (res types.Result[uint32]) {
+	defer handle.Error(&res)
+
+	tok := next(lexer).Unwrap()
+	if tok.Type != token.Integer {
+		return result.Errorf[uint32]("expected integer %w", parseError(tok))
+	}
+	i, err := parseUint(tok.Capture, 32)
+	return result.New(uint32(i), err)
+}
+
+// parseInt parses an integer in the signed or unsigned range of the given size
+func parseInt(capture string, bits int) (int64, error) {
+	if strings.HasPrefix(capture, "-") {
+		digits, base := parseDigits(capture[1:])
+		return strconv.ParseInt("-"+digits, base, bits)
+	}
+	i, err := parseUint(strings.TrimPrefix(capture, "+"), bits)
+	return int64(i), err
+}
+
+// parseUint parses an integer without a sign
+func parseUint(capture string, bits int) (uint64, error) {
+	digits, base := parseDigits(capture)
+	return strconv.ParseUint(digits, base, bits)
+}
+
+// parseDigits returns the digits of a number without separators and their base.
+// A number is decimal, leading zeros included, unless it starts with 0x.
+func parseDigits(capture string) (string, int) {
+	digits := strings.ReplaceAll(capture, "_", "")
+	if strings.HasPrefix(digits, "0x") {
+		return digits[2:], 16
+	}
+	return digits, 10
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
@@ -836,11 +869,7 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int64]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int64(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInt(tok.Capture, 64)
 	return result.New(int64(i), err)
 }
 
-- 
2.43.0


From 270b34e3ffe76b8ec516b357f391b6ec555c16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:49 +0000
Subject: [PATCH 40/45] fix: round wat float constants once and keep nan
 payloads

f64 constants were rounded to single precision and knew no nan payloads,
integer notation went through a 32 or 64 bit integer, nan without payload
became infinity and the sign of canonical nans was lost.
---
 wast/parse/parser.go |  34 +-----------
 wat/parse/parser.go  | 121 +++++++++++++++++++------------------------
 2 files changed, 55 insertions(+), 100 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 34c7b9a..2c5a007 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -433,25 +433,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		inst = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		inst = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	// f32 math instructions
 	case "f32.add":
@@ -873,12 +860,6 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	return result.New(int64(i), err)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
@@ -886,52 +867,11 @@ func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float32]("expected float %w", parseError(tok))
 	}
-	negative := false
-	capture := tok.Capture
-	if strings.HasPrefix(capture, "-") {
-		negative = true
-		capture = capture[1:]
-	}
-	if strings.HasPrefix(capture, "nan") {
-		capture = capture[3:]
-
-		var u32 uint64
-		if strings.HasPrefix(capture, ":") {
-			capture = capture[1:]
-
-			var err error
-			if len(capture) > 0 {
-				if strings.HasPrefix(capture, "canonical") {
-					// https://en.wikipedia.org/wiki/NaN#Canonical_NaN
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				if strings.HasPrefix(capture, "arithmetic") {
-					// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
-				if err != nil {
-					return result.Error[float32](err)
-				}
-			}
-		}
-		// create float from data
-		// s111 1111 1xxx xxxx xxxx xxxx xxxx xxxx
-		if negative {
-			u32 |= 0b_1111_1111_1000_0000_0000_0000_0000_0000
-		} else {
-			u32 |= 0b_0111_1111_1000_0000_0000_0000_0000_0000
-		}
-		return result.Ok(math.Float32frombits(uint32(u32)))
-	}
-	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
-	return result.New(float32(f), err)
+	bits, err := parseFloat(tok.Capture, 32)
+	return result.New(math.Float32frombits(uint32(bits)), err)
 }
 
 func ParseFloat64(lexer *lex.Lexer) (float64, error) {
@@ -941,11 +881,56 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float64]("expected float %w", parseError(tok))
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
-	return result.New(f, err)
+	bits, err := parseFloat(tok.Capture, 64)
+	return result.New(math.Float64frombits(bits), err)
+}
+
+// parseFloat returns the bits of a number rounded to a float of the given size
+func parseFloat(capture string, size int) (uint64, error) {
+	number := strings.ReplaceAll(capture, "_", "")
+	if name := strings.TrimLeft(number, "+-"); strings.HasPrefix(name, "nan") {
+		return parseNaN(strings.HasPrefix(number, "-"), strings.TrimPrefix(name, "nan"), size)
+	}
+	// strconv requires an exponent for hexadecimal numbers
+	if strings.Contains(number, "0x") && !strings.ContainsAny(number, "pP") {
+		number += "p0"
+	}
+	f, err := strconv.ParseFloat(number, size)
+	if size == 32 {
+		return uint64(math.Float32bits(float32(f))), err
+	}
+	return math.Float64bits(f), err
+}
+
+// parseNaN returns the bits of a nan with the given payload
+// s111 1111 1xxx xxxx xxxx xxxx xxxx xxxx
+func parseNaN(negative bool, payload string, size int) (uint64, error) {
+	mantissa := 23
+	if size == 64 {
+		mantissa = 52
+	}
+	bits := uint64(1) << (mantissa - 1)
+	switch payload {
+	case "", ":canonical", ":arithmetic":
+		// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
+	default:
+		var err error
+		bits, err = strconv.ParseUint(strings.TrimPrefix(payload, ":0x"), 16, mantissa)
+		if err != nil {
+			return 0, err
+		}
+		if bits == 0 {
+			return 0, fmt.Errorf("nan payload must not be zero")
+		}
+	}
+	bits |= (uint64(1)<<(size-1-mantissa) - 1) << mantissa
+	if negative {
+		bits |= uint64(1) << (size - 1)
+	}
+	return bits, nil
 }
 
 func eat(lexer *lex.Lexer, ty token.Type) (res types.Result[bool]) {
-- 
2.43.0


From 064bd1997bd38dbac57f2770e924161e61c66406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:49 +0000
Subject: [PATCH 41/45] fix: report unsupported reference constants in wast
 scripts

They were parsed to nil.
---
 wast/parse/parser.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..5ab382f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -298,8 +298,6 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 		c = ast.F64Const{
 			Value: parseFloat64(lexer).Unwrap(),
 		}
-	case "ref.null":
-	case "ref.extern":
 	default:
 		return result.Error[ast.Const](parseError(tok))
 	}
-- 
2.43.0


From 32ea6ba0065a2a8162304c0acd418e9d9bab0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:50 +0000
Subject: [PATCH 42/45] fix: reject unknown actions in wast scripts

---
 wast/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 5ab382f..8227872 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : expected 'invoke' or 'get' but found '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 6a439e8cbdedae5c394aaec77cd27abee8856232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:50 +0000
Subject: [PATCH 43/45] fix: report wat strings and block comments that do not
 end

They were taken for the end of the input.
---
 wat/lex/lexer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index f562961..d5245e8 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -125,8 +125,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ends inside of a token
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
@@ -233,7 +233,10 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	semi2 := &Node{
+		// the last line may end without a new line
+		Final: true,
+	}
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From cbe28d4371459aac9d4e3b3c12756cd6dad3a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:51 +0000
Subject: [PATCH 44/45] fix: recognise wat floats with a fraction or an
 unsigned exponent

Decimal fractions were never recognised, malformed numbers such as 1.e were
read past their end and text after a hexadecimal number was ignored.
---
 wat/lex/lexer.go | 126 ++++++++++-------------------------------------
 1 file changed, 27 insertions(+), 99 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index d5245e8..7ed99ab 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -370,7 +370,7 @@ func num(s string, i int) (int, bool) {
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -408,7 +408,7 @@ func frac(s string, i int) (int, bool) {
 		if isDigit(s[i]) {
 			continue
 		}
-		return i, false
+		return i, true
 	}
 	return i, true
 }
@@ -433,114 +433,42 @@ func hexfrac(s string, i int) (int, bool) {
 }
 
 func float(s string, i int) (int, bool) {
-	n, ok := num(s, i)
-	if !ok {
-		return i, false
-	}
-	if n == len(s) {
-		return n, ok
-	}
-	i = n
-	// p:num '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
-	}
-	// p:num '.'?('E'|'e')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'E' || s[i+1] == 'e')) ||
-		(s[i] == 'e' || s[i] == 'E') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'E' | 'e'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
-	}
-	// p:num '.' q:frac
-	n, ok = frac(s, i)
+	// p:num
+	i, ok := num(s, i)
 	if !ok {
 		return i, false
 	}
-	i = n
-	if i == len(s) {
-		return i, true
+	// p:num '.' q:frac?
+	if i < len(s) && s[i] == '.' {
+		i, _ = frac(s, i+1)
 	}
-	// p:num '.' q:frac ('E'|'e')('+'|'-')e:num
-	if s[i] != 'e' && s[i] != 'E' {
-		return i, false
-	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
+	// ('E'|'e')('+'|'-')?e:num
+	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
+		i, _ = sign(s, i+1)
+		return num(s, i)
 	}
-	i = n
-	return num(s, i)
+	return i, true
 }
 
 func hexfloat(s string, i int) (int, bool) {
 	if !strings.HasPrefix(s, "0x") {
 		return i, false
 	}
-	i += 2
-	n, ok := hexnum(s, i)
-	if !ok {
-		return i, false
-	}
-	if n == len(s) {
-		return n, ok
-	}
-	i = n
-	// p:hexnum '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
-	}
-	// p:hexnum '.'?('P'|'p')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'P' || s[i+1] == 'p')) ||
-		(s[i] == 'p' || s[i] == 'P') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'P' | 'p'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
-	}
-	i++ // '.'
-	// p:hexnum '.' q:hexfrac
-	n, ok = hexfrac(s, i)
+	// p:hexnum
+	i, ok := hexnum(s, i+2)
 	if !ok {
 		return i, false
 	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('P'|'p')('+'|'-')e:num
-	if s[i] != 'p' && s[i] != 'P' {
-		return i, false
+	// p:hexnum '.' q:hexfrac?
+	if i < len(s) && s[i] == '.' {
+		i, _ = hexfrac(s, i+1)
 	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
+	// ('P'|'p')('+'|'-')?e:num
+	if i < len(s) && (s[i] == 'p' || s[i] == 'P') {
+		i, _ = sign(s, i+1)
+		return num(s, i)
 	}
-	i = n
-	return num(s, i)
+	return i, true
 }
 
 func isFloat(s string) bool {
@@ -565,13 +493,13 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		n, ok := hexnum(s, 0)
+		return ok && n == len(s)
 	}
-	if _, ok := float(s, 0); ok {
+	if n, ok := float(s, 0); ok && n == len(s) {
 		return true
 	}
-	if _, ok := hexfloat(s, 0); ok {
+	if n, ok := hexfloat(s, 0); ok && n == len(s) {
 		return true
 	}
 	return false
@@ -585,7 +513,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if n, ok := num(s, 0); ok && n == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From 93a88bec70c6ab1b54c5d6d39b7a77b41bedb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:51 +0000
Subject: [PATCH 45/45] fix: reject '%' without an identifier in wit documents

---
 wit/lex/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index ae7222b..de81d0a 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -157,9 +157,10 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 	case r == '+':
 		return l.token(token.Plus)
 	case r == '%':
-		if l.eatIf(isKeyLikeStart).Unwrap() {
-			for l.eatIf(isKeyLikeContinue).Unwrap() {
-			}
+		if !l.eatIf(isKeyLikeStart).Unwrap() {
+			return result.Errorf[*token.Token]("%w : expected an identifier after '%%'", l.lexerError())
+		}
+		for l.eatIf(isKeyLikeContinue).Unwrap() {
 		}
 		return l.token(token.ExplicitId)
 
-- 
2.43.0

