From 769c86912c887d67da9a6ec8713544c3b768db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 01/50] fix: SignedBitSize and WriteVarint64 accept MinInt64
 for types that cannot hold it

---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..7c9f5f5 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,14 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// The magnitude does not fit an int64. Only varint (9 bytes) has an
+		// encoding for this value, which takes a single byte.
+		if maxBytes == 9 {
+			return 8, nil
+		}
+		return 0, ErrOutOfBounds
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From bd3f6b077c56fd608654b2a22e9d816655b1db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 02/50] fix: arrays report the error when writing an element
 fails

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..a94a08d 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err = packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..7112881 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err = packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From 839235d2072e724fb975a07f6216c36e20b4f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 03/50] fix: packed decoding reports the error when the
 descriptor cannot be read

---
 ztype/delta_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
-- 
2.43.0


From c96ad35d5f9f02f515efc2ed0b68dd762d7a1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 04/50] fix: bit field array traits are not shared between
 element types, goroutines and for 64 bits

---
 ztype/array_traits.go | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..8a2272d 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,16 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
+// GetSignedBitFieldArrayTraits returns the array traits of a signed bit field
+// with a given number of bits.
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
+// GetBitFieldArrayTraits returns the array traits of an unsigned bit field
+// with a given number of bits.
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From a2f5726e5d887285d9cb7c29fc45cee2a4157a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 05/50] fix: array element sizes match the bits that are
 written

---
 ztype/array_traits.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 8a2272d..47d1a02 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -277,7 +277,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -461,7 +461,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -596,7 +596,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -844,15 +844,10 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
-	if err != nil {
-		return 0
-	}
-
 	// the total size of a string is 8 bits for each (UTF-8) character, and a
 	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	bitSize, _ := BitSizeOfString(element)
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
@@ -896,7 +891,9 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	// the number of bits is written as a varsize before the content
+	bitSizeOfLength, _ := UnsignedBitSize(element.BitSize, 5)
+	return bitSizeOfLength + int(element.BitSize)
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -940,7 +937,9 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	// the number of bytes is written as a varsize before the content
+	bitSizeOfLength, _ := UnsignedBitSize(element.ByteSize, 5)
+	return bitSizeOfLength + int(element.ByteSize)*8
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
-- 
2.43.0


From a6626f6e42e440c7988d01ff855a77af8688cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 06/50] fix: arrays of bit fields reject values that do not fit
 instead of truncating them

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 47d1a02..96e017c 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -701,7 +701,7 @@ func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, er
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -762,7 +762,7 @@ func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
-- 
2.43.0


From dd809c07216eedd6772283585b05c85f58566ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 07/50] fix: sizes in a stream do not cause large allocations
 or a panic before the content is read

---
 ztype/array_decode.go        | 12 +++++++++++-
 ztype/bytes_decode.go        | 28 ++++++++++++++++++++++------
 ztype/extern_decode.go       | 15 +++------------
 ztype/object_array_decode.go |  9 ++++++++-
 ztype/string_decode.go       | 10 +++-------
 5 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..16e73c2 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -1,9 +1,14 @@
 package ztype
 
 import (
+	"errors"
+
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// ErrInvalidArraySize is returned when the size of an array is negative.
+var ErrInvalidArraySize = errors.New("array size is negative")
+
 // UnmarshalZserio reads an array from a bit reader, in either packed or unpacked configuration.
 func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 	arraySize := array.FixedSize
@@ -16,7 +21,12 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return ErrInvalidArraySize
+	}
+
+	// The size is not trustworthy until the elements were read.
+	array.RawArray = make([]T, 0, min(arraySize, maxInitialAlloc))
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..ebdd329 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,7 +1,6 @@
 package ztype
 
 import (
-	"errors"
 	"io"
 
 	zserio "github.com/woven-planet/go-zserio"
@@ -16,13 +15,30 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
+	b.Buffer, err = readFull(r, b.ByteSize)
 	if err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
+
+// maxInitialAlloc limits the memory that is reserved based on a size found in
+// the stream alone, before any of the content was read.
+const maxInitialAlloc = 4096
+
+// readFull reads n bytes. The buffer grows with the data that is available, a
+// size in a truncated or corrupted stream does not lead to a large allocation.
+func readFull(r zserio.Reader, n uint64) ([]byte, error) {
+	buf := make([]byte, 0, min(n, maxInitialAlloc))
+	for uint64(len(buf)) < n {
+		start := len(buf)
+		buf = append(buf, make([]byte, min(n-uint64(start), max(uint64(start), maxInitialAlloc)))...)
+		if _, err := io.ReadFull(r, buf[start:]); err != nil {
+			if err == io.EOF && start > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, err
+		}
+	}
+	return buf, nil
+}
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..00afefd 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,11 +1,6 @@
 package ztype
 
-import (
-	"errors"
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadExtern reads an zserio extern type (variable size bitbuffer) from a reader.
 func ReadExtern(r zserio.Reader) (*ExternType, error) {
@@ -15,17 +10,13 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	if err != nil {
 		return nil, err
 	}
-	numOfFullBytes := int(e.BitSize / 8)
+	numOfFullBytes := e.BitSize / 8
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
+	e.Buffer, err = readFull(r, numOfFullBytes)
 	if err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..c34e656 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,7 +14,12 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, ErrInvalidArraySize
+	}
+
+	// The size is not trustworthy until the elements were read.
+	result := make([]T, 0, min(arraySize, maxInitialAlloc))
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +37,8 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			var zero T
+			result = append(result, zero)
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..73e683e 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -1,10 +1,6 @@
 package ztype
 
-import (
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadString reads a string from the bitstream.
 func ReadString(r zserio.Reader) (string, error) {
@@ -12,8 +8,8 @@ func ReadString(r zserio.Reader) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readFull(r, size)
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From b1d835d6e71511f90836aabc8798b2f73188796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 08/50] fix: bytes and extern values whose size does not match
 the buffer are rejected

---
 ztype/bytes_encode.go  | 13 ++++++++++++-
 ztype/extern_encode.go |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..225d4bb 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -1,9 +1,20 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
+
+// ErrBufferSize is returned when the size given for a bytes or extern value does
+// not match its buffer.
+var ErrBufferSize = errors.New("size does not match the buffer")
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if uint64(len(b.Buffer)) != b.ByteSize {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..8315c58 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -4,6 +4,9 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if uint64(len(e.Buffer)) < e.BitSize/8+(e.BitSize%8+7)/8 {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
@@ -17,7 +20,7 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 
 	// and the remaining 1-7 bits
 	if remainingBits != 0 {
-		lastByte := uint64(e.Buffer[len(e.Buffer)-1])
+		lastByte := uint64(e.Buffer[numOfFullBytes])
 		numOfBitShift := 8 - remainingBits
 		lastByte = lastByte >> numOfBitShift
 		if err := w.WriteBits(lastByte, remainingBits); err != nil {
-- 
2.43.0


From 98ff46fedb43a359edcb4d6f0ef98dd5bbd062a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 09/50] fix: aligning a writer to a large boundary does not
 lose bits

---
 zstream/writer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..821259e 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -73,9 +73,13 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 		return w.writer.BitsCount, nil
 	}
 
-	err := w.WriteBits(0, d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	// at most 64 bits can be written at once
+	for d > 0 {
+		n := min(d, 64)
+		if err := w.WriteBits(0, n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
 	return w.writer.BitsCount, nil
-- 
2.43.0


From 7c5a5eb06c712c11fb298c15073ec61602e4304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 10/50] fix: the predicted bit size matches the bits written
 for arrays, bytes and extern fields

---
 .../generator/templates/bitsizeof.go.tmpl     |  2 ++
 .../templates/builtin_bitsizeof.go.tmpl       | 18 ++++++++++++++----
 .../templates/packing_context_bitsize.go.tmpl | 13 +++++++++++--
 ztype/array.go                                | 19 ++++++++++++++-----
 ztype/object_array.go                         | 19 ++++++++++++++-----
 5 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..3156b7a 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,6 +41,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..301130b 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,18 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
+        {{- else if eq $native.Type.Name "extern" }} 
+            if delta, err := ztype.UnsignedBitSize({{ $name }}.BitSize, 5); err != nil {
+                return 0, err
+            } else {
+                endBitPosition += delta + int({{ $name }}.BitSize)
+            }
+        {{- else if eq $native.Type.Name "bytes" }} 
+            if delta, err := ztype.UnsignedBitSize({{ $name }}.ByteSize, 5); err != nil {
+                return 0, err
+            } else {
+                endBitPosition += delta + 8*int({{ $name }}.ByteSize)
+            }
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -46,9 +56,9 @@
 {{- else }}
     {{- $traits := goArrayTraits $scope $native.Type }}
     {{- if and ( $isarray ) ( eq $traits "ztype.ObjectArrayTraits" )}}
-        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
+        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize{{ if $isarray.IsPacked }}Packed{{ end }}({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
     {{- else }}
-        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize(endBitPosition); err != nil {
+        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize{{ if $isarray }}{{ if $isarray.IsPacked }}Packed{{ end }}{{ end }}(endBitPosition); err != nil {
     {{- end }}
             return 0, err
         } else {
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..76830d2 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,8 +18,8 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
 
 {{- if $field.IsOptional}}
@@ -27,6 +27,10 @@
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
@@ -43,6 +47,8 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
         if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
@@ -79,3 +85,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..cef04ce 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -42,7 +42,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -51,10 +51,10 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
-			// all elements are spaced in the same way
+			// all elements are aligned, and therefore spaced in the same way
 			endBitPosition = alignTo(8, endBitPosition)
 			endBitPosition += elementSize + (size-1)*alignTo(8, elementSize)
 		}
@@ -74,7 +74,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -82,12 +82,21 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	}
 	if size > 0 {
 		packedTraits := array.ArrayTraits.PackedTraits()
+		context, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err := packedTraits.InitContext(context, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(context, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..6dda14c 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -29,7 +29,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -41,10 +41,10 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
-			// all elements are spaced in the same way
+			// all elements are aligned, and therefore spaced in the same way
 			endBitPosition = alignTo(8, endBitPosition)
 			endBitPosition += elementSize + (size-1)*alignTo(8, elementSize)
 		}
@@ -64,7 +64,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -73,12 +73,21 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		context, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err := packedTraits.InitContext(context, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(context, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 0fe11eb344e798d357c883a7a4465192ca5e59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 11/50] fix: choices honour every condition of a case, cases
 without a field and compound selectors

---
 internal/generator/templates/choice.go.tmpl | 34 ++++++++++++---------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..e8f1fee 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -1,3 +1,7 @@
+{{- define "choice_conditions" }}
+{{- range $i, $c := .Conditions }}{{ if $i }}, {{ end }}{{ if eq $c.Condition.ResultType "bool" }}{{ $c.Condition.ResultBoolValue }}{{ else }}{{ $c.Condition.ResultIntValue }}{{ end }}
+{{- end }}
+{{- end }}
 {{ $scope := .pkg }} 
 {{ $choice := .choice }}
 {{- $expr := $choice.SelectorExpression }}
@@ -36,10 +40,10 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ template "choice_conditions" . }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -57,10 +61,10 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ template "choice_conditions" . }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -78,10 +82,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ template "choice_conditions" . }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
@@ -109,18 +113,18 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 {{- if $choice.Cases }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
@@ -132,11 +136,11 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -156,11 +160,11 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -184,11 +188,11 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
 {{- if $choice.Cases }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-- 
2.43.0


From 50f0679988f04374777ecd95fa76a01b1430399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 12/50] fix: packed arrays of elements that cannot be delta
 encoded do not lose data

---
 ztype/array.go        |  6 +++++-
 ztype/array_decode.go |  4 +++-
 ztype/array_encode.go |  6 ++++--
 ztype/array_traits.go | 28 +++++++++-------------------
 4 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index cef04ce..e67ec0b 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -71,6 +71,11 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 
 // BitSizeOfPacked returns the total size of the packed array in bits.
 func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
+	packedTraits := array.ArrayTraits.PackedTraits()
+	if packedTraits == nil {
+		return array.ZserioBitSize(bitPosition)
+	}
+
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
@@ -81,7 +86,6 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 		endBitPosition += delta
 	}
 	if size > 0 {
-		packedTraits := array.ArrayTraits.PackedTraits()
 		context, err := packedTraits.CreateContext()
 		if err != nil {
 			return 0, err
diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 16e73c2..8580457 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -35,6 +35,8 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 
 		if array.IsPacked {
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
 			// A descriptor is only written for packed arrays.
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
@@ -51,7 +53,7 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 				array.checkOffsetMethod(index, count)
 			}
 
-			if array.IsPacked {
+			if packedTraits != nil {
 				element, err = packedTraits.Read(array.PackedContext, reader, index)
 			} else {
 				element, err = array.ArrayTraits.Read(reader, index)
diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index a94a08d..74450d4 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -18,8 +18,10 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 		var packedTraits IPackedArrayTraits[T]
 		if array.IsPacked {
 			// descriptors are only needed if the array is packed
-			var err error
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
+			var err error
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
 				return err
@@ -39,7 +41,7 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				array.checkOffsetMethod(index, count)
 			}
 			var err error
-			if array.IsPacked {
+			if packedTraits != nil {
 				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
 				err = array.ArrayTraits.Write(writer, element)
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 96e017c..d1bffc7 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -21,7 +21,9 @@ type IArrayTraits[T any] interface {
 	// NeedsReadIndex specifies if the traits need the array index of the element.
 	NeedsReadIndex() bool
 
-	// PackedTraits will return the array trait as a packed object.
+	// PackedTraits will return the array trait as a packed object. It is nil
+	// for types that do not support delta encoding, arrays of them are never
+	// packed.
 	PackedTraits() IPackedArrayTraits[T]
 
 	// BitSizeOf returns the bit size of array element. If the sizee depends on
@@ -118,9 +120,7 @@ func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArra
 type Float16ArrayTraits struct{}
 
 func (trait Float16ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float16ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float16ArrayTraits) BitSizeOfIsConstant() bool {
@@ -165,9 +165,7 @@ func (trait Float16ArrayTraits) FromUint64(value uint64) float32 {
 type Float32ArrayTraits struct{}
 
 func (trait Float32ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float32ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float32ArrayTraits) BitSizeOfIsConstant() bool {
@@ -210,9 +208,7 @@ func (trait Float32ArrayTraits) FromUint64(value uint64) float32 {
 type Float64ArrayTraits struct{}
 
 func (trait Float64ArrayTraits) PackedTraits() IPackedArrayTraits[float64] {
-	return &PackedArrayTraits[float64, Float64ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float64ArrayTraits) BitSizeOfIsConstant() bool {
@@ -826,9 +822,7 @@ func (trait BooleanArrayTraits) FromUint64(value uint64) bool {
 type StringArrayTraits struct{}
 
 func (trait StringArrayTraits) PackedTraits() IPackedArrayTraits[string] {
-	return &PackedArrayTraits[string, StringArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait StringArrayTraits) BitSizeOfIsConstant() bool {
@@ -873,9 +867,7 @@ func (trait StringArrayTraits) FromUint64(value uint64) string {
 type BitBufferArrayTraits struct{}
 
 func (trait BitBufferArrayTraits) PackedTraits() IPackedArrayTraits[*ExternType] {
-	return &PackedArrayTraits[*ExternType, BitBufferArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BitBufferArrayTraits) BitSizeOfIsConstant() bool {
@@ -919,9 +911,7 @@ func (trait BitBufferArrayTraits) FromUint64(value uint64) *ExternType {
 type BytesArrayTraits struct{}
 
 func (trait BytesArrayTraits) PackedTraits() IPackedArrayTraits[*BytesType] {
-	return &PackedArrayTraits[*BytesType, BytesArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BytesArrayTraits) BitSizeOfIsConstant() bool {
-- 
2.43.0


From 8e4b5c7b55e07d29bf4415fe704c8a5f5bdb262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 13/50] fix: unions use the zserio tag and reject a selection
 without a field

---
 internal/generator/templates/union.go.tmpl | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..08c4a91 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -33,7 +33,11 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
 
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
-  err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("union {{ $union.Name }} has no field with choice %d", v.UnionChoice)
+  }
+  // the tag in the stream is the index of the field
+  err := ztype.WriteVarsize(w, uint64(v.UnionChoice) - 1)
   if err != nil {
     return err
   }
@@ -51,7 +55,10 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
     if err != nil {
        return err
     }
-    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if unionChoice >= {{ len $union.Fields }} {
+      return fmt.Errorf("union {{ $union.Name }} has no field with tag %d", unionChoice)
+    }
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
@@ -66,7 +73,10 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice), 5); err != nil {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("union {{ $union.Name }} has no field with choice %d", v.UnionChoice)
+  }
+  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice) - 1, 5); err != nil {
     return 0, err
   } else {
     endBitPosition += delta
-- 
2.43.0


From 9f2f9d18118a8fac7bc6cda54c0f3afbf243afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 14/50] fix: packed arrays reject elements that would be read
 back as another value

---
 ztype/delta_context.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index de5b10c..2cb7dad 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -120,12 +120,17 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
 	if context.maxBitNumber > 0 {
-		delta := arrayTraits.AsUint64(element) - *context.previousElement
+		value := arrayTraits.AsUint64(element)
+		if arrayTraits.AsUint64(arrayTraits.FromUint64(value)) != value {
+			// the element would be read back as another value
+			return ErrValueOutOfBitRange
+		}
+		delta := value - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
 		if err != nil {
 			return err
 		}
-		*context.previousElement = arrayTraits.AsUint64(element)
+		*context.previousElement = value
 	}
 	return nil
 }
-- 
2.43.0


From 1c797b0a550c79fc97fff7cc741a3a37d03b6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 15/50] fix: choices accept constants, bitmask values and
 members of a selector as conditions

---
 internal/ast/choice.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..c06d372 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -57,20 +57,27 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 			// symbol is unique. If this is not done, the text value might be
 			// ambiguous, for example if the value  is defined in more than one enum.
 			// e.g. VALUE -> EnumType.VALUE
-			if condition.Condition.Type == parser.ZserioParserID {
+			// Other selectors have no symbols of their own, the text is a constant.
+			if condition.Condition.Type == parser.ZserioParserID &&
+				(choice.SelectorExpression.ResultType == ExpressionTypeEnum ||
+					choice.SelectorExpression.ResultType == ExpressionTypeBitmask) {
 				// convert the selector from the parameter type to the underlying
 				// actual type (e.g. enum, bitfield)
-				parameterType, ok := choice.SelectorExpression.ResultSymbol.Symbol.(*Parameter)
-				if !ok {
-					return errors.New("choice selector type is not a parameter")
+				selectorType, err := choice.selectorType()
+				if err != nil {
+					return err
 				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
 						Type: parser.ZserioParserID,
-						Text: parameterType.Type.Name,
+						Text: selectorType.Name,
+					},
+					// the value can only be found in its type
+					Operand2: &Expression{
+						Type: parser.UnevaluatableExpressionType,
+						Text: condition.Condition.Text,
 					},
-					Operand2: condition.Condition,
 				}
 				condition.Condition = dotExpression
 			}
@@ -78,6 +85,22 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 	}
 	return nil
 }
+
+// selectorType returns the type of the choice selector.
+func (choice *Choice) selectorType() (*TypeReference, error) {
+	if choice.SelectorExpression.ResultSymbol != nil {
+		switch n := choice.SelectorExpression.ResultSymbol.Symbol.(type) {
+		case *Parameter:
+			return n.Type, nil
+		case *Field:
+			return n.Type, nil
+		case *Function:
+			return n.ReturnType, nil
+		}
+	}
+	return nil, errors.New("choice selector type is not a parameter, field or function")
+}
+
 func (choice *Choice) Evaluate(p *Package) error {
 	// Ignore templates
 	if len(choice.TemplateParameters) > 0 {
-- 
2.43.0


From 4dde3e88b324530a3aeecd63ec09fb4e15edd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 16/50] fix: symbols of a union resolve in the union, not in
 the compound before it

---
 internal/ast/union.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..5e96fe0 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -30,6 +30,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
-- 
2.43.0


From dcd7ca4f161c9d542cec6fb636fcd830b9a75971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 17/50] fix: packed arrays of unions are encoded instead of
 losing every element

---
 internal/generator/templates/union.go.tmpl | 77 ++++++++++++++++++++--
 1 file changed, 71 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 08c4a91..856ef44 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -91,6 +91,9 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  contextNode.AddChild(&zserio.PackingContextNode{
+    Context: &ztype.DeltaContext[uint64]{},
+  })
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -98,20 +101,63 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 }
 
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
-    childrenNodes := contextNode.GetChildren()
-    _ = childrenNodes // to avoid "declared but not used" warning
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("union {{ $union.Name }} has no field with choice %d", v.UnionChoice)
+  }
+  childrenNodes := contextNode.GetChildren()
+  tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unknown context type")
+  }
+  tagContext.Init(&ztype.VarSizeArrayTraits{}, uint64(v.UnionChoice) - 1)
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
+  childrenNodes := contextNode.GetChildren()
+  tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unknown context type")
+  }
+  unionChoice, err := tagContext.Read(&ztype.VarSizeArrayTraits{}, r)
+  if err != nil {
+    return err
+  }
+  if unionChoice >= {{ len $union.Fields }} {
+    return fmt.Errorf("union {{ $union.Name }} has no field with tag %d", unionChoice)
+  }
+  v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
   return nil
 }
 
-
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("union {{ $union.Name }} has no field with choice %d", v.UnionChoice)
+  }
+  childrenNodes := contextNode.GetChildren()
+  tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unknown context type")
+  }
+  err := tagContext.Write(&ztype.VarSizeArrayTraits{}, w, uint64(v.UnionChoice) - 1)
+  if err != nil {
+    return err
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
   return nil
 }
 
@@ -120,5 +166,24 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  endBitPosition := bitPosition
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("union {{ $union.Name }} has no field with choice %d", v.UnionChoice)
+  }
+  childrenNodes := contextNode.GetChildren()
+  tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return 0, errors.New("invalid packing context")
+  }
+  if delta, err := tagContext.BitSizeOf(&ztype.VarSizeArrayTraits{}, endBitPosition, uint64(v.UnionChoice) - 1); err != nil {
+    return 0, err
+  } else {
+    endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From fbc4f392859e0fe92610dfd824669ce501f64fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 18/50] fix: reading zero bits yields zero instead of the bits
 read before

---
 zstream/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..92c5383 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -39,6 +39,10 @@ func (r *BitReader) ReadByte() (byte, error) {
 
 // ReadBits reads n bits and returns them as the lowest n bits of u.
 func (r *BitReader) ReadBits(n uint8) (uint64, error) {
+	if n == 0 {
+		// the underlying reader would return the bits that it read last
+		return 0, nil
+	}
 	return r.reader.ReadBits(n)
 }
 
-- 
2.43.0


From 4be73626d3359c795207a90ee8967c5e860db18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 19/50] fix: enums of varuint, varsize and other 64 bit
 variable-length types compile

---
 internal/generator/templates/enum.go.tmpl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index d2dcd9b..ff4e364 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -2,6 +2,7 @@
 {{ $enum := .enum }}
 {{ $options := .options }}
 {{ $native := goNativeType $scope $enum.Type }}
+{{ $obj_with_cast := printf "%s(*v)" (goType $scope $enum.Type) }}
 
 {{ $enum.Comment }}
 type {{ $enum.Name }} {{ goType $scope $enum.Type }}
@@ -151,7 +152,7 @@ func (v *{{ $enum.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" "*v" "native" $native "isarray" false "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $obj_with_cast "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 50bd4323f06a60a141c8b96f6a5794f3e832731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 20/50] fix: enums and bitmasks accept a subtype as base type

---
 internal/generator/templates/bitmask.go.tmpl |  4 ++--
 internal/model/transform.go                  | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index e41159f..5182b4f 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -27,9 +27,9 @@ func (v *{{ $bitmask.Name}}) MarshalZserio(w zserio.Writer) error {
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
     {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
-      return ztype.WriteSignedBits(w, int64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
       panic("unsupported type")
     {{- end }}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..11688ee 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -786,6 +786,20 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
+		for _, enum := range pkg.Enums {
+			if err := m.resolveTypeReference(pkg, enum.Type, map[string]bool{}); err != nil {
+				return TypeError{
+					TypeReference: ast.TypeReference{
+						IsBuiltin: false,
+						Package:   pkg.Name,
+						Name:      enum.Type.Name,
+					},
+					Field: enum.Name,
+					Err:   err,
+				}
+			}
+		}
+
 		for _, bitmask := range pkg.Bitmasks {
 			if err := m.resolveTypeReference(pkg, bitmask.Type, map[string]bool{}); err != nil {
 				return TypeError{
-- 
2.43.0


From a9cfcc355fa58611ae1c7bcd6219f5028b481a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 21/50] fix: expressions that use enum items or bitmask values
 keep their value

---
 internal/ast/expression.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..af38a24 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -83,6 +83,11 @@ type Expression struct {
 
 	// FullyResolved specifies if the expression is fully resolved (no variables)
 	FullyResolved bool
+
+	// hasValue specifies if the value of the expression is known. In contrast to
+	// FullyResolved, this includes expressions that use enum items or bitmask
+	// values.
+	hasValue bool
 }
 
 func copyExpressionResult(src, dst *Expression) {
@@ -171,6 +176,7 @@ func evaluateSymbolType(symbol *SymbolReference, scope *Package) (ExpressionType
 func (expr *Expression) evaluateIndexExpression() error {
 	expr.ResultType = ExpressionTypeInteger
 	expr.FullyResolved = false
+	expr.hasValue = false
 	return nil
 }
 
@@ -196,6 +202,7 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// All subsequent symbols cannot be fully resolved.
 	expr.FullyResolved = false
+	expr.hasValue = false
 	expr.ResultSymbol = symbol
 	expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, scope)
 	return err
@@ -388,6 +395,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 						}
 					}
 					copyExpressionResult(enumItem.Expression, expr)
+					expr.hasValue = true
 					return nil
 				}
 			}
@@ -398,6 +406,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 				if bitmaskValue.Name == expr.Operand2.Text {
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
+					expr.hasValue = true
 					return nil
 				}
 			}
@@ -495,7 +504,7 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		}
 		op1 := expr.Operand1.ResultIntValue
 		op2 := expr.Operand2.ResultIntValue
-		if !expr.Operand1.FullyResolved || !expr.Operand2.FullyResolved {
+		if !expr.hasValue {
 			// If the expression operands are not a fully defined to a constant,
 			// we fill in some dummy values for the sake of checking the correct
 			// operator.
@@ -536,7 +545,7 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		if expr.Operand2.ResultType == ExpressionTypeInteger {
 			op2 = float64(expr.Operand2.ResultIntValue)
 		}
-		if !expr.Operand1.FullyResolved || !expr.Operand2.FullyResolved {
+		if !expr.hasValue {
 			op1 = 1.0
 			op2 = 1.0
 			expr.FullyResolved = false
@@ -782,6 +791,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 
 	// First, assume that the expression can be fully resolved
 	expr.FullyResolved = true
+	expr.hasValue = true
 	if expr.Operand1 != nil {
 		err = expr.Operand1.Evaluate(scope)
 		if err != nil {
@@ -790,6 +800,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		if !expr.Operand1.FullyResolved {
 			expr.FullyResolved = false
 		}
+		expr.hasValue = expr.hasValue && expr.Operand1.hasValue
 	}
 	if expr.Operand2 != nil {
 		err = expr.Operand2.Evaluate(scope)
@@ -799,6 +810,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		if !expr.Operand2.FullyResolved {
 			expr.FullyResolved = false
 		}
+		expr.hasValue = expr.hasValue && expr.Operand2.hasValue
 	}
 
 	if expr.Operand3 != nil {
@@ -809,6 +821,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		if !expr.Operand3.FullyResolved {
 			expr.FullyResolved = false
 		}
+		expr.hasValue = expr.hasValue && expr.Operand3.hasValue
 	}
 
 	switch expr.Type {
-- 
2.43.0


From 327d4ba3c6195ea858dffa1142029e65146f10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 22/50] fix: valueof accepts enum items and has the type of the
 enum

---
 internal/ast/expression.go       | 31 +++++++++++++++++++++++++++----
 internal/generator/expression.go | 10 +++++++++-
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index af38a24..51e4cef 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -209,16 +209,39 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 }
 
 // evaluateValueOfOperator evaluates a value of operator.
-func (expr *Expression) evaluateValueOfOperator() error {
+func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
-	if expr.Operand1.ResultType != ExpressionTypeEnum &&
-		expr.Operand1.ResultType != ExpressionTypeBitmask {
+	symbol := expr.Operand1.ResultSymbol
+	resultType := expr.Operand1.ResultType
+	if expr.Operand1.Type == parser.ZserioParserDOT &&
+		(expr.Operand1.Operand1.ResultType == ExpressionTypeEnum ||
+			expr.Operand1.Operand1.ResultType == ExpressionTypeBitmask) {
+		// An enum item or a bitmask value: the symbol is the one of its type.
+		symbol = expr.Operand1.Operand1.ResultSymbol
+		resultType = expr.Operand1.Operand1.ResultType
+	}
+	if resultType != ExpressionTypeEnum && resultType != ExpressionTypeBitmask {
 		return errors.New("valueof operator needs an expression or bitmask type")
 	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	if symbol == nil {
+		return nil
+	}
+
+	// The value has the type that the enum or bitmask is based on.
+	originalSymbol, err := scope.GetOriginalSymbol(symbol)
+	if err != nil {
+		return err
+	}
+	switch n := originalSymbol.Symbol.(type) {
+	case *Enum:
+		expr.NativeZserioType = n.Type
+	case *BitmaskType:
+		expr.NativeZserioType = n.Type
+	}
 	return nil
 }
 
@@ -838,7 +861,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserLENGTHOF:
 		err = expr.evaluateLengthOfOperator(scope)
 	case parser.ZserioParserVALUEOF:
-		err = expr.evaluateValueOfOperator()
+		err = expr.evaluateValueOfOperator(scope)
 	case parser.ZserioParserNUMBITS:
 		err = expr.evaluateNumBitsOperator()
 	case parser.ZserioParserPLUS:
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..15515af 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -323,7 +323,15 @@ func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return ExpressionToGoString(scope, expression.Operand1)
+	operandStr := ExpressionToGoString(scope, expression.Operand1)
+	if expression.NativeZserioType == nil {
+		return operandStr
+	}
+	goType, err := GoType(scope, expression.NativeZserioType)
+	if err != nil {
+		panic(err)
+	}
+	return fmt.Sprintf("%s(%s)", goType, operandStr)
 }
 
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-- 
2.43.0


From 221b58f8d571e1a8af103c4451fe834f799dc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 23/50] fix: keep the float value in unary, parenthesized and
 ternary expressions

---
 internal/ast/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 51e4cef..597c9bb 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -467,6 +467,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
 	expr.ResultStringValue = expr.Operand1.ResultStringValue
 	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
+	expr.ResultFloatValue = expr.Operand1.ResultFloatValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	return nil
 }
@@ -489,6 +490,11 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
 		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
+		}
 	}
 	return nil
 }
@@ -692,12 +698,14 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		expr.ResultIntValue = expr.Operand2.ResultIntValue
 		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
 		expr.ResultStringValue = expr.Operand2.ResultStringValue
+		expr.ResultFloatValue = expr.Operand2.ResultFloatValue
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
 	} else {
 		expr.ResultType = expr.Operand3.ResultType
 		expr.ResultIntValue = expr.Operand3.ResultIntValue
 		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
 		expr.ResultStringValue = expr.Operand3.ResultStringValue
+		expr.ResultFloatValue = expr.Operand3.ResultFloatValue
 		expr.NativeZserioType = expr.Operand3.NativeZserioType
 	}
 	return nil
-- 
2.43.0


From 0d7c37845087f55b8ae35881ef78165ba4e1af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 24/50] fix: report a division by zero and a negative shift
 count in constant expressions

---
 internal/ast/expression.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 597c9bb..f3d1f9a 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -541,6 +541,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 			op2 = 1
 			expr.FullyResolved = false
 		}
+		if op2 == 0 && (expr.Type == parser.ZserioParserDIVIDE || expr.Type == parser.ZserioParserMODULO) {
+			return errors.New("division by zero")
+		}
 
 		switch expr.Type {
 		case parser.ZserioParserPLUS:
@@ -579,6 +582,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 			op2 = 1.0
 			expr.FullyResolved = false
 		}
+		if op2 == 0 && expr.Type == parser.ZserioParserDIVIDE {
+			return errors.New("division by zero")
+		}
 		switch expr.Type {
 		case parser.ZserioParserPLUS:
 			expr.ResultFloatValue = op1 + op2
@@ -738,13 +744,23 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	expr.ResultType = expr.Operand1.ResultType
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
+	shiftCount := expr.Operand2.ResultIntValue
+	if expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT {
+		if !expr.hasValue {
+			// The count is not known.
+			shiftCount = 0
+		}
+		if shiftCount < 0 {
+			return errors.New("negative shift count")
+		}
+	}
 
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue << shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue >> shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserAND:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue & expr.Operand2.ResultIntValue
-- 
2.43.0


From 433e6fe2bdcf6cd9c16909b40cec8703a9ed02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 25/50] fix: fold numbits to the value the runtime computes

---
 internal/ast/expression.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index f3d1f9a..a208aaf 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -254,7 +254,13 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// The number of bits needed for the values below the operand, as computed
+	// by ztype.NumBits() at run time.
+	value := uint64(expr.Operand1.ResultIntValue)
+	if value > 1 {
+		value--
+	}
+	expr.ResultIntValue = int64(bits.Len64(value))
 	return nil
 }
 
-- 
2.43.0


From c5f1de00dc79c308ccc5cfe140808134f60feb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 26/50] fix: accept the suffixes of binary and float literals

---
 internal/ast/expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index a208aaf..6c85ad6 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -812,9 +812,9 @@ func (expr *Expression) evaluateStringLiteral() error {
 
 func (expr *Expression) evaluateBinaryLiteral() error {
 	expr.ResultType = ExpressionTypeInteger
-	// remove the trailing "b"
+	// remove the trailing "b" (or "B")
 	binaryString := expr.Text
-	if !strings.HasSuffix(binaryString, "b") {
+	if !strings.HasSuffix(binaryString, "b") && !strings.HasSuffix(binaryString, "B") {
 		return errors.New("binary expression is not valid")
 	}
 	binaryString = binaryString[:len(binaryString)-1]
@@ -960,7 +960,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioLexerFLOAT_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float32"}
-		expr.ResultFloatValue, err = strconv.ParseFloat(expr.Text, 32)
+		expr.ResultFloatValue, err = strconv.ParseFloat(strings.TrimRight(expr.Text, "fF"), 32)
 	case parser.ZserioParserDOUBLE_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
-- 
2.43.0


From 6772f9496ec28819279df743077f5d338e56fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 27/50] fix: fold comparisons of booleans

---
 internal/ast/expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 6c85ad6..e7a0787 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -696,6 +696,15 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		default:
 			return errors.New("string types does not support greater / smaller comparisons")
 		}
+	} else if expr.Operand1.ResultType == ExpressionTypeBool {
+		switch expr.Type {
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue == expr.Operand2.ResultBoolValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue != expr.Operand2.ResultBoolValue
+		default:
+			return errors.New("bool types does not support greater / smaller comparisons")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 36e51378e5fe4a577a8aa5b5381729524fa375d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 28/50] fix: replace the escape sequences of string literals

---
 internal/ast/expression.go | 58 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index e7a0787..c4c0877 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -815,8 +815,62 @@ func (expr *Expression) evaluateStringLiteral() error {
 		return errors.New("string literal should contain quotes")
 	}
 	expr.ResultType = ExpressionTypeString
-	expr.ResultStringValue = expressionString[1 : len(expressionString)-1]
-	return nil
+	var err error
+	expr.ResultStringValue, err = unescapeString(expressionString[1 : len(expressionString)-1])
+	return err
+}
+
+// stringEscapes are the escape sequences that stand for a single character.
+var stringEscapes = map[byte]rune{
+	'"': '"', '\\': '\\', 'r': '\r', 'n': '\n', 'f': '\f', 't': '\t',
+}
+
+// unescapeString replaces the escape sequences of a string literal.
+func unescapeString(s string) (string, error) {
+	var result strings.Builder
+	for {
+		start := strings.IndexByte(s, '\\')
+		if start < 0 {
+			result.WriteString(s)
+			return result.String(), nil
+		}
+		result.WriteString(s[:start])
+		s = s[start+1:]
+		if s == "" {
+			return "", errors.New("incomplete escape sequence")
+		}
+		kind := s[0]
+		s = s[1:]
+		if char, ok := stringEscapes[kind]; ok {
+			result.WriteRune(char)
+			continue
+		}
+
+		// the code of the character: \uHHHH, \xHH or \0OOO
+		base, size := 16, 0
+		switch kind {
+		case 'u':
+			size = 4
+		case 'x':
+			size = 2
+		case '0':
+			base = 8
+			for size < len(s) && '0' <= s[size] && s[size] <= '7' && (size < 2 || size == 2 && s[0] <= '3') {
+				size++
+			}
+		default:
+			return "", errors.New("unknown escape sequence")
+		}
+		if size > len(s) {
+			return "", errors.New("incomplete escape sequence")
+		}
+		code, err := strconv.ParseUint(s[:size], base, 16)
+		if err != nil {
+			return "", err
+		}
+		result.WriteRune(rune(code))
+		s = s[size:]
+	}
 }
 
 func (expr *Expression) evaluateBinaryLiteral() error {
-- 
2.43.0


From 993880956e9bfb096cfb0ea808c34bd677251ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 29/50] fix: write float constants with all their digits

---
 internal/generator/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 15515af..08dccaf 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -344,7 +345,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			return strconv.FormatFloat(expression.ResultFloatValue, 'g', -1, 64)
 		default:
 			return "UNSUPPORTED_TYPE"
 		}
-- 
2.43.0


From 33142cbff3d8b2e659490da678fc2e232ba0df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 30/50] fix: evaluate the constants and items an expression
 refers to in their package

---
 internal/ast/bitmask.go    | 10 ++++++++++
 internal/ast/enum.go       |  9 +++++++++
 internal/ast/expression.go | 33 +++++++++++++++++++++++++++------
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..b8f05c3 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -4,6 +4,16 @@ type BitmaskValue struct {
 	Name string
 	*Expression
 }
+
+// evaluate evaluates a single value of a bitmask. Values without an expression
+// get it from the values before them.
+func (v *BitmaskValue) evaluate(bitmask *BitmaskType, scope *Package) error {
+	if v.Expression == nil {
+		return bitmask.Evaluate(scope)
+	}
+	return v.Expression.Evaluate(scope)
+}
+
 type BitmaskType struct {
 	Name    string
 	Comment string
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..11d6156 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -63,6 +63,15 @@ type EnumItem struct {
 	*Expression
 }
 
+// evaluate evaluates the value of a single item. Items without an expression
+// get their value from the items before them.
+func (e *EnumItem) evaluate(scope *Package) error {
+	if e.Expression == nil {
+		return e.enum.Evaluate(scope)
+	}
+	return e.Expression.Evaluate(scope)
+}
+
 func (e EnumItem) GoName() string {
 	return e.enum.Name + strcase.ToCamel(strings.ToLower(e.Name))
 }
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index c4c0877..357fd68 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -189,13 +189,25 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		constScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := constSymbol.ValueExpression.Evaluate(constScope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		enumScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := enumItem.evaluate(enumScope); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
@@ -414,14 +426,20 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		return err
 	}
 
+	// The values are evaluated in the package that defines them.
+	valueScope := scope
+	if op1Symbol.Package != "" {
+		if valueScope, err = scope.GetImportedScope(op1Symbol.Package); err != nil {
+			return err
+		}
+	}
+
 	if expr.Operand1.ResultType == ExpressionTypeEnum {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
-							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
-						}
+					if err := enumItem.evaluate(valueScope); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 					}
 					copyExpressionResult(enumItem.Expression, expr)
 					expr.hasValue = true
@@ -433,6 +451,9 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					if err := bitmaskValue.evaluate(bitmask, valueScope); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
 					expr.hasValue = true
-- 
2.43.0


From 7ff3617fe9c8a64cc028f1451fb5a79696abf243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 31/50] fix: bitmask values may be combinations of other values

---
 internal/ast/bitmask.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index b8f05c3..e216844 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -53,6 +53,10 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 			if err := value.Evaluate(p); err != nil {
 				return err
 			}
+			if value.ResultType == ExpressionTypeBitmask {
+				// A combination of other values.
+				value.ResultType = ExpressionTypeInteger
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 1d39074dab2e75c4ff558f022bdc71b146c2e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 32/50] fix: a path length limit of 0 is no limit

---
 internal/generator/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..51ed189 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -139,7 +139,7 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		uniquePaths = make(map[string]int)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
-- 
2.43.0


From 070d0865160e198dac6d53a2766570919a670937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 33/50] fix: never assign a path to two generated files

---
 internal/generator/gen.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 51ed189..8be0325 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -60,8 +60,8 @@ func (limiter PathLengthLimiter) LimitPathLength(opts *options) {
 
 type data map[string]any
 
-// uniquePaths keeps track of all codes files that have been generated so far and adds an "_idx" suffix if the same path appears again
-var uniquePaths map[string]int
+// uniquePaths keeps track of all codes files that have been generated so far. An "_idx" suffix is added if the same path appears again
+var uniquePaths map[string]bool
 
 func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags ...Option) error {
 	opts := &options{
@@ -136,7 +136,7 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
 	if uniquePaths == nil {
-		uniquePaths = make(map[string]int)
+		uniquePaths = make(map[string]bool)
 	}
 
 	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
@@ -155,12 +155,23 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		}
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
-		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+	for index := 0; ; index++ {
+		suffix := FileSuffix
+		if index > 0 {
+			suffix = fmt.Sprintf("_%d%s", index, FileSuffix)
+		}
+		file := outputFile
+		if maxPathLength > 0 && len(file)+len(suffix) > maxPathLength {
+			file = file[:maxPathLength-len(suffix)]
+			if len(file) < len(outputDir)+MinFileNameLength {
+				return "", fmt.Errorf("maximum path length %d is too short to make the name of %s unique", maxPathLength, fn)
+			}
+		}
+		file += suffix
+		if !uniquePaths[file] {
+			uniquePaths[file] = true
+			return file, nil
+		}
 	}
 }
 
-- 
2.43.0


From ae4ed24084fd76f2237a7abc1e50997cb25ccab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 34/50] fix: generated files are part of every build

---
 internal/generator/gen.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 8be0325..88f2be3 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -143,6 +143,10 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
+	// The Go tools ignore files with a leading underscore.
+	if fn = strings.TrimLeft(fn, "_"); fn == "" {
+		fn = "type"
+	}
 	outputFile := path.Join(outputDir, fn)
 
 	if maxPathLength > 0 {
@@ -168,13 +172,34 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 			}
 		}
 		file += suffix
-		if !uniquePaths[file] {
+		if !uniquePaths[file] && !isConstrainedFile(file) {
 			uniquePaths[file] = true
 			return file, nil
 		}
 	}
 }
 
+// constrainedSuffixes are the endings of file names that the Go tools only use
+// for tests, or for a specific operating system or architecture.
+var constrainedSuffixes = func() map[string]bool {
+	suffixes := map[string]bool{}
+	for _, suffix := range strings.Fields("test " +
+		"aix android darwin dragonfly freebsd hurd illumos ios js linux nacl netbsd openbsd plan9 solaris wasip1 windows zos " +
+		"386 amd64 amd64p32 arm armbe arm64 arm64be loong64 mips mipsle mips64 mips64le mips64p32 mips64p32le " +
+		"ppc ppc64 ppc64le riscv riscv64 s390 s390x sparc sparc64 wasm") {
+		suffixes[suffix] = true
+	}
+	return suffixes
+}()
+
+// isConstrainedFile tells if the Go tools ignore a file in some builds because
+// of its name.
+func isConstrainedFile(file string) bool {
+	name := strings.TrimSuffix(path.Base(file), FileSuffix)
+	index := strings.LastIndex(name, "_")
+	return index >= 0 && constrainedSuffixes[name[index+1:]]
+}
+
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 	if doNotFormatCode {
 		if _, err := w.Write(code); err != nil {
-- 
2.43.0


From 03ac37969b7ebf6596c6ca4673542fc0fa77b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 35/50] fix: keep the precedence of operators in generated
 expressions

The generated code used the precedence of the Go operators, and the unary
operators +, - and ~ were generated as UNSUPPORTED or without their operand.
---
 internal/generator/expression.go | 42 +++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 08dccaf..879f044 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -158,8 +158,8 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		operator = "!="
 	}
 
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	operand2Str := ExpressionToGoString(scope, expression.Operand2)
+	operand1Str := operandToGoString(scope, expression.Operand1)
+	operand2Str := operandToGoString(scope, expression.Operand2)
 
 	// Check if casting is needed because of different original types.
 	// Casting is needed in the following cases:
@@ -273,7 +273,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserLOGICAL_OR:
 		operator = "||"
 	}
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
+	operand1Str := operandToGoString(scope, expression.Operand1)
 	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
 		// Resolve issue
 		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
@@ -289,7 +289,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
-		ExpressionToGoString(scope, expression.Operand2))
+		operandToGoString(scope, expression.Operand2))
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -313,7 +313,7 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	return fmt.Sprintf("(%s & %s != 0)", operandToGoString(scope, expression.Operand1), operandToGoString(scope, expression.Operand2))
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -335,6 +335,28 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 	return fmt.Sprintf("%s(%s)", goType, operandStr)
 }
 
+// operandToGoString prints an expression that is an operand of another one. The
+// precedence of the Go operators differs from the zserio operators, hence all
+// operands that consist of an operator and its operands are put in parentheses.
+func operandToGoString(scope ast.Scope, expression *ast.Expression) string {
+	str := ExpressionToGoString(scope, expression)
+	if expression.FullyResolved {
+		return str
+	}
+	switch expression.Type {
+	case parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY,
+		parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
+		parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT,
+		parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR,
+		parser.ZserioParserLOGICAL_AND, parser.ZserioParserLOGICAL_OR,
+		parser.ZserioParserLT, parser.ZserioParserLE, parser.ZserioParserGT,
+		parser.ZserioParserGE, parser.ZserioParserEQ, parser.ZserioParserNE,
+		parser.ZserioParserBANG, parser.ZserioParserTILDE:
+		return "(" + str + ")"
+	}
+	return str
+}
+
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
@@ -368,15 +390,23 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserNUMBITS:
 		return numBitsOperatorToGoString(scope, expression)
 	case parser.ZserioParserPLUS:
+		if expression.Operand2 == nil {
+			return fmt.Sprintf("+%s", operandToGoString(scope, expression.Operand1))
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMINUS:
+		if expression.Operand2 == nil {
+			return fmt.Sprintf("-%s", operandToGoString(scope, expression.Operand1))
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMULTIPLY:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserDIVIDE:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserBANG: // the ! (negation operator)
-		return fmt.Sprintf("!%s", ExpressionToGoString(scope, expression.Operand1))
+		return fmt.Sprintf("!%s", operandToGoString(scope, expression.Operand1))
+	case parser.ZserioParserTILDE:
+		return fmt.Sprintf("^%s", operandToGoString(scope, expression.Operand1))
 	case parser.ZserioParserMODULO:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioLexerLSHIFT:
-- 
2.43.0


From 2448215c65ebe760b0ad2b613b6277338d7d74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 36/50] fix: compute integer expressions without losing digits

The operands of an operation were casted to the type of one of them, so that
uint8 values wrapped around and negative values became positive. Operations on
integers are now computed in 64 bits, ternary expressions have a type, elements
of arrays can be accessed and subtypes of bool, string and floats are not
integers.
---
 internal/ast/expression.go                   | 105 +++++--
 internal/ast/mixing_native_types.go          | 114 +++----
 internal/generator/expression.go             | 310 ++++++++++++-------
 internal/generator/templates/package.go.tmpl |   2 +-
 4 files changed, 317 insertions(+), 214 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 357fd68..7ef0b9d 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -118,19 +118,15 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 		return "", nil, errors.New("type is not fully resolved")
 	}
 	if originalType.Type.IsBuiltin {
-		switch typeRef.Name {
+		switch originalType.Type.Name {
 		case "bool":
-			return ExpressionTypeBool, typeRef, nil
+			return ExpressionTypeBool, originalType.Type, nil
 		case "string":
-			return ExpressionTypeString, typeRef, nil
-		case "float16":
-			return ExpressionTypeFloat, typeRef, nil
-		case "float32":
-			return ExpressionTypeFloat, typeRef, nil
-		case "float64":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeString, originalType.Type, nil
+		case "float16", "float32", "float64":
+			return ExpressionTypeFloat, originalType.Type, nil
 		default:
-			return ExpressionTypeInteger, typeRef, nil
+			return ExpressionTypeInteger, originalType.Type, nil
 		}
 	}
 	symbolScope, err := scope.GetImportedScope(typeRef.Package)
@@ -175,6 +171,7 @@ func evaluateSymbolType(symbol *SymbolReference, scope *Package) (ExpressionType
 // evaluateIndexExpression evaluates an index expression, such as [@index].
 func (expr *Expression) evaluateIndexExpression() error {
 	expr.ResultType = ExpressionTypeInteger
+	expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "int64"}
 	expr.FullyResolved = false
 	expr.hasValue = false
 	return nil
@@ -248,12 +245,21 @@ func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if err != nil {
 		return err
 	}
+	var valueType *TypeReference
 	switch n := originalSymbol.Symbol.(type) {
 	case *Enum:
-		expr.NativeZserioType = n.Type
+		valueType = n.Type
 	case *BitmaskType:
-		expr.NativeZserioType = n.Type
+		valueType = n.Type
+	}
+	if valueType == nil {
+		return nil
 	}
+	originalType, err := scope.GetOriginalType(valueType)
+	if err != nil {
+		return err
+	}
+	expr.NativeZserioType = originalType.Type
 	return nil
 }
 
@@ -273,6 +279,9 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		value--
 	}
 	expr.ResultIntValue = int64(bits.Len64(value))
+	if !expr.FullyResolved {
+		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "int64"}
+	}
 	return nil
 }
 
@@ -366,6 +375,11 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
+	// The call has the type that the function declares.
+	expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(function.ReturnType, functionEvaluationScope)
+	if err != nil {
+		return err
+	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
@@ -399,6 +413,8 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
+	// The element has the type of the field.
+	expr.ResultSymbol = expr.Operand1.ResultSymbol
 	return nil
 }
 
@@ -513,6 +529,10 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 	expr.ResultType = expr.Operand1.ResultType
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	if expr.Operand1.ResultType == ExpressionTypeInteger {
+		var err error
+		if _, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand1, expr.Operand1); err != nil {
+			return err
+		}
 		expr.ResultIntValue = expr.Operand1.ResultIntValue
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
@@ -750,6 +770,31 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		expr.ResultFloatValue = expr.Operand3.ResultFloatValue
 		expr.NativeZserioType = expr.Operand3.NativeZserioType
 	}
+	if expr.FullyResolved {
+		return nil
+	}
+
+	// The type of the result does not depend on the condition. The values of
+	// enums, which are integers, can be mixed with an expression of the enum type.
+	type2, type3 := expr.Operand2.ResultType, expr.Operand3.ResultType
+	isNumber2 := type2 == ExpressionTypeInteger || type2 == ExpressionTypeFloat
+	isNumber3 := type3 == ExpressionTypeInteger || type3 == ExpressionTypeFloat
+	switch {
+	case isNumber2 && isNumber3:
+		var err error
+		expr.ResultType, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand2, expr.Operand3)
+		if err == nil && expr.NativeZserioType == nil {
+			// both are numerals
+			expr.NativeZserioType, err = evaluateMixingIntegerTypes()
+		}
+		return err
+	case type2 == ExpressionTypeEnum && type3 == ExpressionTypeInteger,
+		type2 == ExpressionTypeInteger && type3 == ExpressionTypeEnum:
+		expr.ResultType = ExpressionTypeInteger
+		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "int64"}
+	case type2 != type3:
+		return errors.New("ternary expression operands 2 and 3 must have the same type")
+	}
 	return nil
 }
 
@@ -764,6 +809,12 @@ func (expr *Expression) evaluateBitwiseNegation() error {
 	expr.ResultType = expr.Operand1.ResultType
 	expr.ResultIntValue = ^expr.Operand1.ResultIntValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	if expr.ResultType == ExpressionTypeInteger {
+		var err error
+		if _, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand1, expr.Operand1); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -808,25 +859,23 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 		return errors.New("unexpected bitwise operator")
 	}
 
-	// If operand 1 has no native zserio type determined (e.g. because it is
-	// a numeral), try to deduce the type from the second operand.
-	// This does not apply to shift operations.
-	if expr.NativeZserioType == nil && !isShiftOperation {
-		expr.NativeZserioType = expr.Operand2.NativeZserioType
-	}
-
-	// If this is a shift operation, and there is no clear type defined,
-	// assume an uint32. This is the case if numerals are used, e.g.
-	// "17 < numShift". In this case, the result type is not determined.
-	// To avoid https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
-	if isShiftOperation && expr.NativeZserioType == nil {
-		expr.NativeZserioType = &TypeReference{
-			IsBuiltin: true,
-			Name:      "uint32",
+	if expr.Operand1.ResultType != ExpressionTypeInteger || expr.Operand2.ResultType != ExpressionTypeInteger {
+		// If operand 1 has no native zserio type determined (e.g. because it is
+		// a numeral), try to deduce the type from the second operand.
+		if expr.NativeZserioType == nil && !isShiftOperation {
+			expr.NativeZserioType = expr.Operand2.NativeZserioType
 		}
+		return nil
 	}
 
-	return nil
+	// The type of a shift operation does not depend on the shift count.
+	var err error
+	if isShiftOperation {
+		expr.NativeZserioType, err = evaluateMixingIntegerTypes(expr.Operand1.NativeZserioType)
+	} else {
+		_, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand1, expr.Operand2)
+	}
+	return err
 }
 
 func (expr *Expression) evaluateStringLiteral() error {
diff --git a/internal/ast/mixing_native_types.go b/internal/ast/mixing_native_types.go
index f6aae16..45796f2 100644
--- a/internal/ast/mixing_native_types.go
+++ b/internal/ast/mixing_native_types.go
@@ -8,6 +8,9 @@ var zserioIntegerTypeRank = map[string]int{
 	"int16":  16,
 	"int32":  32,
 	"int64":  64,
+	"int":    8,
+	"bit":    8,
+	"uint":   8,
 	"uint8":  8,
 	"uint16": 16,
 	"uint32": 32,
@@ -21,21 +24,21 @@ var zserioIntegerTypeRank = map[string]int{
 	"varsize":   31,
 	"varuint16": 15,
 	"varuint32": 29,
-	"varuint64": 64,
+	"varuint64": 57,
 }
 
-var zserioSignedToUnsigned = map[string]string{
+var zserioSignedTypes = map[string]bool{
 	// integer types
-	"int8":  "uint8",
-	"int16": "uint16",
-	"int32": "uint32",
-	"int64": "uint64",
-	"int":   "bit",
+	"int8":  true,
+	"int16": true,
+	"int32": true,
+	"int64": true,
+	"int":   true,
 	// varint types
-	"varint":   "varuint",
-	"varint16": "varuint16",
-	"varint32": "varuint32",
-	"varint64": "varuint64",
+	"varint":   true,
+	"varint16": true,
+	"varint32": true,
+	"varint64": true,
 }
 
 // DetermineArithmeticOperationResultType determines the result type of an expression
@@ -43,11 +46,6 @@ var zserioSignedToUnsigned = map[string]string{
 // integers with floats, the resulting type should be float, and how to handle operations
 // that mix unsigned/signed types, or types of different bit length.
 func DetermineArithmeticOperationResultType(operand1 *Expression, operand2 *Expression) (ExpressionType, *TypeReference, error) {
-	// Short-circuit if both operands have the same type.
-	if operand1.ResultType == operand2.ResultType && compareNativeTypeReferences(operand1.NativeZserioType, operand2.NativeZserioType) {
-		return operand1.ResultType, operand1.NativeZserioType, nil
-	}
-
 	// check mixing floats with integers - the result type will always be a float type.
 	if operand1.ResultType == ExpressionTypeFloat || operand2.ResultType == ExpressionTypeFloat {
 		resultType, err := evaluateMixingFloatTypes(operand1.NativeZserioType, operand2.NativeZserioType)
@@ -59,6 +57,10 @@ func DetermineArithmeticOperationResultType(operand1 *Expression, operand2 *Expr
 		return "", nil, fmt.Errorf("%w: %s, %s", ErrUnknownType, operand1.ResultType, operand2.ResultType)
 	}
 
+	if operand1.FullyResolved && operand2.FullyResolved {
+		// The result is a numeral.
+		return ExpressionTypeInteger, nil, nil
+	}
 	resultType, err := evaluateMixingIntegerTypes(operand1.NativeZserioType, operand2.NativeZserioType)
 	return ExpressionTypeInteger, resultType, err
 }
@@ -85,24 +87,18 @@ func evaluateMixingFloatTypes(type1 *TypeReference, type2 *TypeReference) (*Type
 	}
 	// Note that the types may be nil - this is the case for hard-coded numerals,
 	// e.g. "17.5". It is not clear if their type is float16, float32 or float64.
-	// Their type needs to be deduced from the other operand, if set.
-	if type1 == nil {
-		return type2, nil
-	}
-	if type2 == nil {
-		return type1, nil
-	}
-
+	// Their type needs to be deduced from the other operand, if it is a float type.
 	// When mixing two float types, pick the larger one as the result.
 	for _, float_type := range []string{"float64", "float32", "float16"} {
-		if type1.Name == float_type || type2.Name == float_type {
+		if type1 != nil && type1.Name == float_type || type2 != nil && type2.Name == float_type {
 			return &TypeReference{
 				IsBuiltin: true,
 				Name:      float_type,
 			}, nil
 		}
 	}
-	return nil, fmt.Errorf("%w: %s, %s", ErrUnknownType, type1.Name, type2.Name)
+	// a numeral and an integer
+	return &TypeReference{IsBuiltin: true, Name: "float64"}, nil
 }
 
 // getIntegerTypeRank returns the rank of an integer (the number of bits).
@@ -120,57 +116,23 @@ func getIntegerTypeRank(integerType *TypeReference) (int, error) {
 	return 0, fmt.Errorf("%w: %s", ErrUnknownType, integerType.Name)
 }
 
-func evaluateMixingIntegerTypes(type1 *TypeReference, type2 *TypeReference) (*TypeReference, error) {
-	// For now, we use the same logic as C++ when mixing integer types:
-	// Mixing signed/unsigned values of the same type (in the sequence of int16, int32, int64),
-	// the unsigned type will win.
-	// Mixing different ranks result in the higher rank being used.
-	if compareNativeTypeReferences(type1, type2) {
-		return type1, nil
-	}
-
-	// Handle cases such as "u16Var + 12"
-	if type1 == nil {
-		return type2, nil
-	}
-	if type2 == nil {
-		return type1, nil
-	}
-
-	// Identify if the resulting integer type should be signed or unsigned.
-	_, op1IsSigned := zserioSignedToUnsigned[type1.Name]
-	_, op2IsSigned := zserioSignedToUnsigned[type2.Name]
-	resultIsSigned := op1IsSigned && op2IsSigned
-
-	op1Rank, err := getIntegerTypeRank(type1)
-	if err != nil {
-		return nil, err
-	}
-	op2Rank, err := getIntegerTypeRank(type2)
-	if err != nil {
-		return nil, err
-	}
-
-	// Pick the higher rank.
-	newType := &TypeReference{}
-	if op1Rank >= op2Rank {
-		if op1IsSigned == resultIsSigned {
-			return type1, nil
+// evaluateMixingIntegerTypes determines the type in which an operation on integers is
+// computed. The operands are widened to 64 bits, so that the result is exact in case it
+// fits into 64 bits. Only the unsigned types of 64 bits need an unsigned type; when
+// mixed with signed types, the unsigned type wins (as it does in C++).
+func evaluateMixingIntegerTypes(types ...*TypeReference) (*TypeReference, error) {
+	for _, t := range types {
+		// Numerals do not have a type.
+		if t == nil {
+			continue
 		}
-		*newType = *type1
-	} else {
-		if op2IsSigned == resultIsSigned {
-			return type2, nil
+		rank, err := getIntegerTypeRank(t)
+		if err != nil {
+			return nil, err
+		}
+		if rank == 64 && !zserioSignedTypes[t.Name] {
+			return &TypeReference{IsBuiltin: true, Name: "uint64"}, nil
 		}
-		*newType = *type2
-	}
-
-	// The result type needs to be unsigned. Convert the type
-	// with the highest rank to unsigned.
-	if newTypeName, ok := zserioSignedToUnsigned[newType.Name]; !ok {
-		return nil, fmt.Errorf("%w: %s", ErrUnknownType, newType.Name)
-	} else {
-		newType.Name = newTypeName
 	}
-	return newType, nil
+	return &TypeReference{IsBuiltin: true, Name: "int64"}, nil
 }
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 879f044..151d62c 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -100,7 +100,7 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("ztype.NumBits(uint64(%s))", ExpressionToGoString(scope, expression.Operand1))
+	return fmt.Sprintf("int64(ztype.NumBits(uint64(%s)))", ExpressionToGoString(scope, expression.Operand1))
 }
 
 func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeReference, error) {
@@ -161,89 +161,18 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 	operand1Str := operandToGoString(scope, expression.Operand1)
 	operand2Str := operandToGoString(scope, expression.Operand2)
 
-	// Check if casting is needed because of different original types.
-	// Casting is needed in the following cases:
-	// - mixing floats with integers
-	// - mixing signed/unsigned types
-	// - mixing different bit lengths
-	// - mixing numerals of different types, e.g. 17 + 3.5
-	// Casting is not needed in the following cases:
-	// - The expression result is not an integer.
-	// - One or both operands are numerals without type annotations, for example
-	//   "17.5 + 13.6"
-	//   In that case, NativeZserioType will be set to nil. Both operands must be
-	//   integer or float numerals.
-	if (expression.ResultType == ast.ExpressionTypeInteger || expression.ResultType == ast.ExpressionTypeFloat) && expression.NativeZserioType != nil {
-		// Retrieve the resulting type of the expression
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
-		if err != nil {
-			panic(err)
-		}
-
-		operand1RequiresCast := false
-		operand2RequiresCast := false
-		operand1GoType := ""
-		operand2GoType := ""
-		// Check if operand1 or operand2 (or both) needs a type cast.
-		// In very rare cases, both operands need to be casted:
-		// For example, mixing an uint8 with an int32 will require both
-		// operands to be casted to uint32 (highest rank + unsigned wins).
-		if expression.Operand1.ResultSymbol != nil {
-			// If symbols are used, they are likely subtypes. We also need
-			// to cast if different subtypes are used
-			op1Type, err := getSymbolType(scope, expression.Operand1.ResultSymbol)
-			if err != nil {
-				panic(err)
-			}
-			operand1GoType, err = GoType(scope, op1Type)
-			if err != nil {
-				panic(err)
-			}
-		} else {
-			if expression.Operand1.ResultType != expression.ResultType {
-				operand1RequiresCast = true
-			} else if expression.Operand1.NativeZserioType != nil {
-				operand1GoType, err = GoType(scope, expression.Operand1.NativeZserioType)
-				if err != nil {
-					panic(err)
-				}
-			}
-		}
-		if operand1GoType != expressionGoType {
-			operand1RequiresCast = true
-		}
-
-		if expression.Operand2.ResultSymbol != nil {
-			// If symbols are used, they are likely subtypes. We also need
-			// to cast if different subtypes are used
-			op2Type, err := getSymbolType(scope, expression.Operand2.ResultSymbol)
-			if err != nil {
-				panic(err)
-			}
-			operand2GoType, err = GoType(scope, op2Type)
-			if err != nil {
-				panic(err)
-			}
-		} else {
-			if expression.Operand2.ResultType != expression.ResultType {
-				operand2RequiresCast = true
-			} else if expression.Operand2.NativeZserioType != nil {
-				operand2GoType, err = GoType(scope, expression.Operand2.NativeZserioType)
-				if err != nil {
-					panic(err)
-				}
-			}
-		}
-		if operand2GoType != expressionGoType {
-			operand2RequiresCast = true
-		}
-
-		if operand1RequiresCast {
-			operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
-		}
-		if operand2RequiresCast {
-			operand2Str = fmt.Sprintf("%s(%s)", expressionGoType, operand2Str)
-		}
+	// Both operands need to have the same type in Go, hence casting might be needed:
+	// - when mixing floats with integers
+	// - when mixing signed/unsigned types, or different bit lengths
+	// - when mixing a subtype with its original type
+	// Numerals never need to be casted.
+	goType, err := commonGoType(scope, expression)
+	if err != nil {
+		panic(err)
+	}
+	if goType != "" {
+		operand1Str = castToGoString(scope, expression.Operand1, goType)
+		operand2Str = castToGoString(scope, expression.Operand2, goType)
 	}
 
 	return fmt.Sprintf("%s %s %s",
@@ -274,46 +203,55 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		operator = "||"
 	}
 	operand1Str := operandToGoString(scope, expression.Operand1)
-	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
+	operand2Str := operandToGoString(scope, expression.Operand2)
+	goType, err := commonGoType(scope, expression)
+	if err != nil {
+		panic(err)
+	}
+	if isShiftOperator && goType != "" {
 		// Resolve issue
 		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
 		// Shift operations in Go may implicitly cast the first parameter to a float
 		// if there is a cast to a different type.
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
-		if err != nil {
-			panic(err)
-		}
-		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
+		operand1Str = fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, expression.Operand1))
+	} else if goType != "" {
+		operand1Str = castToGoString(scope, expression.Operand1, goType)
+		operand2Str = castToGoString(scope, expression.Operand2, goType)
 	}
 
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
-		operandToGoString(scope, expression.Operand2))
+		operand2Str)
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-	op1 := ExpressionToGoString(scope, expression.Operand1)
-	op2 := ExpressionToGoString(scope, expression.Operand2)
-	op3 := ExpressionToGoString(scope, expression.Operand3)
-	if expression.ResultType == ast.ExpressionTypeInteger {
-		// in case the expression is a subtype of int (such as uint16), cast to
-		// integer to avoid type cast errors
-		typeCast := "int"
-		op3 = fmt.Sprintf("%s(%s)", typeCast, op3)
-		op2 = fmt.Sprintf("%s(%s)", typeCast, op2)
+	goType, err := expressionGoType(scope, expression)
+	if err != nil {
+		panic(err)
 	}
 	// Ternary expressions are not supported by Go. As a workaround,
 	// generate the ternary expression as an if/else
-	return fmt.Sprintf("%s\nif %s {\nretVal = %s\n}\n",
-		op3,
-		op1,
-		op2,
+	return fmt.Sprintf("func() %s {\nif %s {\nreturn %s\n}\nreturn %s\n}()",
+		goType,
+		ExpressionToGoString(scope, expression.Operand1),
+		castToGoString(scope, expression.Operand2, goType),
+		castToGoString(scope, expression.Operand3, goType),
 	)
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("(%s & %s != 0)", operandToGoString(scope, expression.Operand1), operandToGoString(scope, expression.Operand2))
+	goType, err := commonGoType(scope, expression)
+	if err != nil {
+		panic(err)
+	}
+	operand1Str := operandToGoString(scope, expression.Operand1)
+	operand2Str := operandToGoString(scope, expression.Operand2)
+	if goType != "" {
+		operand1Str = castToGoString(scope, expression.Operand1, goType)
+		operand2Str = castToGoString(scope, expression.Operand2, goType)
+	}
+	return fmt.Sprintf("(%s & %s != 0)", operand1Str, operand2Str)
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -357,6 +295,160 @@ func operandToGoString(scope ast.Scope, expression *ast.Expression) string {
 	return str
 }
 
+// expressionGoType returns the type that an expression has in Go. It is empty for
+// numerals and other expressions that adapt to the type of the other operand.
+func expressionGoType(scope ast.Scope, expression *ast.Expression) (string, error) {
+	switch expression.Type {
+	case parser.ZserioParserLPAREN, parser.ZserioParserBANG:
+		if !expression.FullyResolved {
+			return expressionGoType(scope, expression.Operand1)
+		}
+	case parser.ZserioParserDOT:
+		enum := expression.Operand1
+		if enum.ResultType == ast.ExpressionTypeEnum || enum.ResultType == ast.ExpressionTypeBitmask {
+			return GoType(scope, &ast.TypeReference{
+				Name:    enum.ResultSymbol.Name,
+				Package: enum.ResultSymbol.Package,
+			})
+		}
+	case parser.ZserioParserLBRACKET:
+		if field, ok := expression.Operand1.ResultSymbol.Symbol.(*ast.Field); ok {
+			return GoType(scope, field.Type)
+		}
+	}
+	if expression.FullyResolved {
+		return "", nil
+	}
+	if expression.ResultSymbol != nil {
+		symbolType, err := getSymbolType(scope, expression.ResultSymbol)
+		if err != nil {
+			return "", err
+		}
+		return GoType(scope, symbolType)
+	}
+
+	switch expression.ResultType {
+	case ast.ExpressionTypeInteger, ast.ExpressionTypeFloat:
+		if expression.NativeZserioType == nil {
+			return "", nil
+		}
+		return GoType(scope, expression.NativeZserioType)
+	case ast.ExpressionTypeString:
+		return "string", nil
+	case ast.ExpressionTypeBool:
+		return "bool", nil
+	}
+
+	// The expression has the type of its operands.
+	for _, operand := range []*ast.Expression{expression.Operand3, expression.Operand2, expression.Operand1} {
+		if operand != nil {
+			return expressionGoType(scope, operand)
+		}
+	}
+	return "", nil
+}
+
+// castToGoString prints an operand with the given type.
+func castToGoString(scope ast.Scope, operand *ast.Expression, goType string) string {
+	if operand.FullyResolved && operand.ResultType == ast.ExpressionTypeInteger &&
+		operand.ResultIntValue < 0 && goType == "uint64" {
+		// unsigned operations are modulo 2^64
+		return fmt.Sprintf("%d", uint64(operand.ResultIntValue))
+	}
+	operandType, err := expressionGoType(scope, operand)
+	if err != nil {
+		panic(err)
+	}
+	if operandType == "" || operandType == goType {
+		return operandToGoString(scope, operand)
+	}
+	return fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, operand))
+}
+
+// numberOperandToGoString prints the operand of an unary operator.
+func numberOperandToGoString(scope ast.Scope, expression *ast.Expression) string {
+	goType, err := expressionGoType(scope, expression)
+	if err != nil {
+		panic(err)
+	}
+	if goType == "" {
+		return operandToGoString(scope, expression.Operand1)
+	}
+	return castToGoString(scope, expression.Operand1, goType)
+}
+
+// commonGoType returns the type that the operands of an expression need to be
+// casted to. It is empty if no casts are needed.
+func commonGoType(scope ast.Scope, expression *ast.Expression) (string, error) {
+	isNumber := func(e *ast.Expression) bool {
+		return e.ResultType == ast.ExpressionTypeInteger || e.ResultType == ast.ExpressionTypeFloat
+	}
+	if isNumber(expression) {
+		if expression.NativeZserioType == nil {
+			return "", nil
+		}
+		return GoType(scope, expression.NativeZserioType)
+	}
+
+	type1, err := expressionGoType(scope, expression.Operand1)
+	if err != nil {
+		return "", err
+	}
+	type2, err := expressionGoType(scope, expression.Operand2)
+	if err != nil {
+		return "", err
+	}
+	if type1 == type2 || type1 == "" && !exceedsType(scope, expression.Operand2, expression.Operand1) ||
+		type2 == "" && !exceedsType(scope, expression.Operand1, expression.Operand2) {
+		return "", nil
+	}
+	switch expression.Operand1.ResultType {
+	case ast.ExpressionTypeString:
+		return "string", nil
+	case ast.ExpressionTypeBool:
+		return "bool", nil
+	case ast.ExpressionTypeBitmask:
+		if expression.Operand2.ResultType == ast.ExpressionTypeBitmask {
+			return type1, nil
+		}
+	}
+	if isNumber(expression.Operand1) && isNumber(expression.Operand2) {
+		_, native, err := ast.DetermineArithmeticOperationResultType(expression.Operand1, expression.Operand2)
+		if err != nil || native == nil {
+			return "", err
+		}
+		return GoType(scope, native)
+	}
+	return "int64", nil
+}
+
+// exceedsType returns if a numeral does not fit into the type of an expression.
+func exceedsType(scope ast.Scope, expression, numeral *ast.Expression) bool {
+	if expression.NativeZserioType == nil || numeral.ResultType != ast.ExpressionTypeInteger || !numeral.FullyResolved {
+		return false
+	}
+	goType, err := GoType(scope, expression.NativeZserioType)
+	if err != nil {
+		return false
+	}
+	value := numeral.ResultIntValue
+	switch goType {
+	case "int8":
+		return value != int64(int8(value))
+	case "int16":
+		return value != int64(int16(value))
+	case "int32":
+		return value != int64(int32(value))
+	case "uint8":
+		return value != int64(uint8(value))
+	case "uint16":
+		return value != int64(uint16(value))
+	case "uint32":
+		return value != int64(uint32(value))
+	}
+	return false
+}
+
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
@@ -391,12 +483,12 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		return numBitsOperatorToGoString(scope, expression)
 	case parser.ZserioParserPLUS:
 		if expression.Operand2 == nil {
-			return fmt.Sprintf("+%s", operandToGoString(scope, expression.Operand1))
+			return "+" + numberOperandToGoString(scope, expression)
 		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMINUS:
 		if expression.Operand2 == nil {
-			return fmt.Sprintf("-%s", operandToGoString(scope, expression.Operand1))
+			return "-" + numberOperandToGoString(scope, expression)
 		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMULTIPLY:
@@ -406,7 +498,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserBANG: // the ! (negation operator)
 		return fmt.Sprintf("!%s", operandToGoString(scope, expression.Operand1))
 	case parser.ZserioParserTILDE:
-		return fmt.Sprintf("^%s", operandToGoString(scope, expression.Operand1))
+		return "^" + numberOperandToGoString(scope, expression)
 	case parser.ZserioParserMODULO:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioLexerLSHIFT:
@@ -437,7 +529,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserINDEX:
 		// hard-code the name of the index variable used in the template
-		return "index"
+		return "int64(index)"
 	case parser.ZserioParserID:
 		return IdentifierToGoString(scope, expression)
 	case parser.ZserioParserQUESTIONMARK:
diff --git a/internal/generator/templates/package.go.tmpl b/internal/generator/templates/package.go.tmpl
index 286c275..ae05edb 100644
--- a/internal/generator/templates/package.go.tmpl
+++ b/internal/generator/templates/package.go.tmpl
@@ -3,7 +3,7 @@
 const (
 {{- range $name, $constant := .pkg.Consts }}
     {{ $constant.Comment }}
-    {{ $constant.Name }} {{ goType $scope $constant.Type }} = {{ goExpression $scope $constant.ValueExpression }} 
+    {{ $constant.Name }} {{ goType $scope $constant.Type }} = {{ if $constant.ValueExpression.FullyResolved }}{{ goExpression $scope $constant.ValueExpression }}{{ else }}{{ goType $scope $constant.Type }}({{ goExpression $scope $constant.ValueExpression }}){{ end }}
 {{- end }}
 )
 
-- 
2.43.0


From 2ea0598705236eef6238d4b9f9f01c42e8acd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 37/50] fix: default values of enums, bitmasks and expressions

The initializer of a field whose type is generated was ignored.
---
 internal/generator/templates/default_values.go.tmpl | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..5b4a895 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -12,13 +12,15 @@
 {{- end }}
 
 {{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+    {{- if $field.Initializer }}
+        {{- if and $field.Initializer.FullyResolved (not $native.RequiresCast) }}
+        v.{{ $field.Name }} = {{ goExpression $scope $field.Initializer }}
+        {{- else }}
+        v.{{ $field.Name }} = {{ goType $scope $field.Type }}({{ goExpression $scope $field.Initializer }})
+        {{- end }}
+    {{- else if $native.IsMarshaler }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
-    {{- else if not $field.Array }}
-        {{- if $field.Initializer }}
-        {{- $field_name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
-        {{- end }}
     {{- end }}
 {{- end }}
-- 
2.43.0


From 14dd44d977a92c9e13be0aa3de2a81dc526e61f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 38/50] fix: instances of templates are independent

Instances with different arguments, such as T<bit:5> and T<bit:7> or T<T<A>> and
T<T<B>>, were the same type if their names were, nested template parameters
were not replaced, and expressions were evaluated with the types of the instance
that came first.
---
 internal/ast/expression.go  |  12 ++
 internal/model/model.go     |   3 +
 internal/model/transform.go | 218 +++++++++++++++++++++---------------
 3 files changed, 145 insertions(+), 88 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 7ef0b9d..c84cec1 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -956,6 +956,18 @@ func (expr *Expression) evaluateBinaryLiteral() error {
 	return err
 }
 
+// Clone copies an expression, so that the copy can be evaluated in another scope.
+func (expr *Expression) Clone() *Expression {
+	if expr == nil {
+		return nil
+	}
+	clone := *expr
+	clone.Operand1 = expr.Operand1.Clone()
+	clone.Operand2 = expr.Operand2.Clone()
+	clone.Operand3 = expr.Operand3.Clone()
+	return &clone
+}
+
 // Evaluate evalues the value of the expression, by evaluating all child
 // expressions. If successful, expr will have valid ExpressionType and Values
 // set.
diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..3ac63ca 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -13,6 +13,9 @@ import (
 
 type Model struct {
 	Packages map[string]*ast.Package
+
+	// instances stores the template and its arguments for all instantiated types
+	instances map[string]string
 }
 
 func NewModel() *Model {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 11688ee..0481f15 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,6 +3,7 @@ package model
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -36,6 +37,10 @@ func (e UnknownType) Error() string {
 
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
 
+// ErrInstanceNameClash is returned if the name of an instantiated template is
+// already used by another type.
+var ErrInstanceNameClash = errors.New("name of the instantiated template is already used")
+
 func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
@@ -308,43 +313,79 @@ func (m *Model) InstantiateTemplates() error {
 	return nil
 }
 
-func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
-	if len(field.Type.TemplateArguments) > 0 {
-		// the field itself is a templated compound type, and needs to
-		// be instantiated first.
-
-		// the template argument parameter must be recreated, as the
+// substituteType replaces the template parameters in a type reference.
+func substituteType(tr *ast.TypeReference, templateTypes map[string]*ast.TypeReference) *ast.TypeReference {
+	newType := *tr
+	if tt, found := templateTypes[tr.Name]; found && !tr.IsBuiltin && tr.Package == "" {
+		newType = *tt
+	} else if len(tr.TemplateArguments) > 0 {
+		// The template argument parameter must be recreated, as the
 		// field template arguments might differ from the struct template
 		// arguments. Example:
 		// struct<A, B, C> {
 		//    foo<int, C> field1;
 		//    bar<B, A> field2;
 		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
-			}
+		newType.TemplateArguments = make([]*ast.TypeReference, 0, len(tr.TemplateArguments))
+		for _, templateArgument := range tr.TemplateArguments {
+			newType.TemplateArguments = append(newType.TemplateArguments, substituteType(templateArgument, templateTypes))
 		}
+	}
+	// If the template has type arguments, these arguments need to
+	// be applied also to the instantiated type.
+	newType.TypeArguments = nil
+	for _, typeArgument := range tr.TypeArguments {
+		newType.TypeArguments = append(newType.TypeArguments, typeArgument.Clone())
+	}
+	if tr.LengthExpression != nil {
+		newType.LengthExpression = tr.LengthExpression.Clone()
+	}
+	return &newType
+}
 
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
-		if err != nil {
-			return nil, err
+// instantiateField creates the field of an instance. Its expressions are not shared
+// with other instances, because their types differ.
+func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
+	fieldCopy := *field
+	fieldType := substituteType(field.Type, templateTypes)
+	var err error
+	if fieldCopy.Type, err = m.instantiateType(pkgScope, fieldType, fieldType.TemplateArguments, ""); err != nil {
+		return nil, err
+	}
+	fieldCopy.Initializer = field.Initializer.Clone()
+	fieldCopy.Constraint = field.Constraint.Clone()
+	fieldCopy.OptionalClause = field.OptionalClause.Clone()
+	if field.Array != nil {
+		fieldCopy.Array = &ast.Array{
+			IsPacked: field.Array.IsPacked,
+			Length:   field.Array.Length.Clone(),
 		}
-		fieldCopy.Type = tt
-		return &fieldCopy, nil
 	}
-	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
-		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+	return &fieldCopy, nil
+}
+
+func instantiateParameters(parameters []*ast.Parameter, templateTypes map[string]*ast.TypeReference) []*ast.Parameter {
+	var newParameters []*ast.Parameter
+	for _, parameter := range parameters {
+		newParameters = append(newParameters, &ast.Parameter{
+			Name: parameter.Name,
+			Type: substituteType(parameter.Type, templateTypes),
+		})
 	}
-	// not templated
-	return field, nil
+	return newParameters
+}
+
+func instantiateFunctions(functions []*ast.Function, templateTypes map[string]*ast.TypeReference) []*ast.Function {
+	var newFunctions []*ast.Function
+	for _, function := range functions {
+		newFunctions = append(newFunctions, &ast.Function{
+			Name:       function.Name,
+			Comment:    function.Comment,
+			Result:     function.Result.Clone(),
+			ReturnType: substituteType(function.ReturnType, templateTypes),
+		})
+	}
+	return newFunctions
 }
 
 func (m *Model) instantiateStruct(
@@ -393,35 +434,9 @@ func (m *Model) instantiateStruct(
 		structure.Fields = append(structure.Fields, newField)
 	}
 
-	// resolve the templates for the types
-	for _, typeParam := range templStruct.TypeParameters {
-		if tt := templateTypes[typeParam.Type.Name]; tt != nil && typeParam.Type.Package == "" {
-			// the parameter is a template
-			structure.TypeParameters = append(structure.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
-		}
-	}
-
-	// resolve the template for the functions
-	for _, function := range templStruct.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			structure.Functions = append(structure.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			structure.Functions = append(structure.Functions, function)
-		}
-	}
+	// resolve the templates for the types and the functions
+	structure.TypeParameters = instantiateParameters(templStruct.TypeParameters, templateTypes)
+	structure.Functions = instantiateFunctions(templStruct.Functions, templateTypes)
 
 	// update the scope with the newly created scope
 	pkgScope.Structs[newType.Name] = structure
@@ -466,14 +481,19 @@ func (m *Model) instantiateChoice(
 	choice := &ast.Choice{
 		Name:               newType.Name,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		SelectorExpression: templChoice.SelectorExpression.Clone(),
 	}
 
 	// resolve the templates for the choices
 	for _, choiceCase := range templChoice.Cases {
 		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
-			Comment:    choiceCase.Comment,
+			Comment: choiceCase.Comment,
+		}
+		for _, condition := range choiceCase.Conditions {
+			newChoiceCase.Conditions = append(newChoiceCase.Conditions, &ast.ChoiceCaseExpression{
+				Condition: condition.Condition.Clone(),
+				Comment:   condition.Comment,
+			})
 		}
 		if choiceCase.Field != nil {
 			newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
@@ -500,35 +520,9 @@ func (m *Model) instantiateChoice(
 		}
 
 	}
-	// resolve the templates for the types
-	for _, typeParam := range templChoice.TypeParameters {
-		if tt, ok := templateTypes[typeParam.Type.Name]; ok && typeParam.Type.Package == "" {
-			// the parameter is a template
-			choice.TypeParameters = append(choice.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
-		}
-	}
-
-	// resolve the template for the functions
-	for _, function := range templChoice.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			choice.Functions = append(choice.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			choice.Functions = append(choice.Functions, function)
-		}
-	}
+	// resolve the templates for the types and the functions
+	choice.TypeParameters = instantiateParameters(templChoice.TypeParameters, templateTypes)
+	choice.Functions = instantiateFunctions(templChoice.Functions, templateTypes)
 
 	// update the scope with the newly created scope
 	pkgScope.Choices[newType.Name] = choice
@@ -541,15 +535,43 @@ func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.Ty
 	name := []string{strings.Title(tr.Name)}
 	for _, ta := range templateArguments {
 		name = append(name, strings.Title(ta.Name))
+		if ta.Bits != 0 {
+			name = append(name, strconv.Itoa(ta.Bits))
+		}
 	}
 	return strings.Join(name, "")
 }
 
+// instanceKey identifies the type that a template is instantiated to.
+func instanceKey(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
+	key := fmt.Sprintf("%s.%s:%d", tr.Package, tr.Name, tr.Bits)
+	if tr.LengthExpression != nil {
+		key += fmt.Sprintf("(%p)", tr.LengthExpression)
+	}
+	for _, ta := range templateArguments {
+		key += fmt.Sprintf("<%s>", instanceKey(ta, ta.TemplateArguments))
+	}
+	return key
+}
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
 	if len(templateArguments) == 0 {
 		return tr, nil
 	}
 
+	// Instantiate the template arguments first, because their names are part of the
+	// name of the instance.
+	instantiatedArguments := make([]*ast.TypeReference, 0, len(templateArguments))
+	for _, ta := range templateArguments {
+		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+		if err != nil {
+			return nil, err
+		}
+		instantiatedArguments = append(instantiatedArguments, ta)
+	}
+	templateArguments = instantiatedArguments
+	hasGivenName := instantiatedName != ""
+
 	if instantiatedName == "" {
 		// No explicit name  for the new instantiated object was given.
 		// We need to create an instance of tr, using the arguments from
@@ -558,10 +580,30 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 		instantiatedName = generateInstantiatedName(tr, templateArguments)
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
+	templateScope := pkgScope
+	if tr.Package != "" {
+		var err error
+		if templateScope, err = pkgScope.GetImportedScope(tr.Package); err != nil {
+			return nil, err
+		}
+	}
+	templateSymbol, err := templateScope.GetSymbol(tr.Name)
 	if err != nil {
 		return nil, err
 	}
+
+	// Different types must not get the same name.
+	instanceName := pkgScope.Name + "." + instantiatedName
+	key := instanceKey(tr, templateArguments)
+	if instance, exists := m.instances[instanceName]; exists && instance != key ||
+		!exists && !hasGivenName && pkgScope.HasType(instantiatedName) {
+		return nil, fmt.Errorf("%w: %s", ErrInstanceNameClash, instantiatedName)
+	}
+	if m.instances == nil {
+		m.instances = map[string]string{}
+	}
+	m.instances[instanceName] = key
+
 	var instantiatedType *ast.TypeReference
 
 	switch n := templateSymbol.Symbol.(type) {
-- 
2.43.0


From 017799e7308bdb5c21a9fe57b9394b7959cca793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 39/50] fix: functions and default cases of choices, functions
 of unions

Functions of choices were not generated, fields of unions could not be accessed
in expressions, and the type of the field of a default case was not resolved.
---
 internal/ast/choice.go                      | 19 +++++-
 internal/ast/expression.go                  | 69 +++++++-------------
 internal/ast/union.go                       |  3 +
 internal/generator/templates/choice.go.tmpl |  2 +
 internal/model/transform.go                 | 71 ++++++++++++++++++++-
 5 files changed, 114 insertions(+), 50 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index c06d372..ecd73cf 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,6 +43,12 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
@@ -140,8 +146,15 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
+	}
+	return nil
 }
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index c84cec1..5944144 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -287,61 +287,38 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 
 func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 	var typeReference *TypeReference
-	if t, ok := expr.Operand1.ResultSymbol.Symbol.(*TypeReference); ok {
-		typeReference = t
-	} else if f, ok := expr.Operand1.ResultSymbol.Symbol.(*Field); ok {
-		typeReference = f.Type
-	} else if p, ok := expr.Operand1.ResultSymbol.Symbol.(*Parameter); ok {
-		typeReference = p.Type
-	} else {
+	switch n := expr.Operand1.ResultSymbol.Symbol.(type) {
+	case *TypeReference:
+		typeReference = n
+	case *Field:
+		typeReference = n.Type
+	case *Parameter:
+		typeReference = n.Type
+	case *Function:
+		typeReference = n.ReturnType
+	default:
 		return errors.New("unknown compound dot expression")
 	}
 
 	// look up through all levels of indirections (subtypes)
-	var compoundSymbol *SymbolReference
-	newScope := scope
-	var err error
-	for {
-		compoundSymbol, err = scope.GetSymbol(typeReference.Name)
-		if err != nil {
-			return err
-		}
-		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
-		if err != nil {
-			return err
-		}
-		if subtype, ok := compoundSymbol.Symbol.(*Subtype); ok {
-			typeReference = subtype.Type
-			// TODO comment
-			newScope, err = newScope.GetImportedScope(typeReference.Package)
-			if err != nil {
-				return err
-			}
-			continue
-		}
-		break
+	originalType, err := scope.GetOriginalType(typeReference)
+	if err != nil {
+		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Struct); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	if originalType.Type.IsBuiltin {
+		return errors.New("compound type is not supported")
+	}
+	compoundScope, err := scope.GetImportedScope(originalType.Type.Package)
+	if err != nil {
 		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Choice); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	symbol, err := compoundScope.GetCompoundType(originalType.Type.Name, expr.Operand2.Text)
+	if err != nil {
 		return err
 	}
-	return errors.New("compound type is not supported")
+	expr.ResultSymbol = symbol
+	expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, compoundScope)
+	return err
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 5e96fe0..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index e8f1fee..324bf05 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -79,6 +79,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   return nil
 }
 
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
+
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 0481f15..126ac6d 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -116,6 +116,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
@@ -263,6 +264,32 @@ func (m *Model) InstantiateTemplates() error {
 			}
 		}
 
+		// instantiate all unions that have template fields
+		for _, union := range pkg.Unions {
+			// don't instantiate template unions
+			if len(union.TemplateParameters) > 0 {
+				continue
+			}
+			for _, field := range union.Fields {
+				if field.Type, err = m.instantiateType(
+					pkg,
+					field.Type,
+					field.Type.TemplateArguments,
+					""); // auto-generate a new name
+				err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: field.Name,
+						Err:   err,
+					}
+				}
+			}
+		}
+
 		// instantiate all choices that have template fields
 		for _, choice := range pkg.Choices {
 			// don't instantiate template choices
@@ -746,7 +773,11 @@ func (m *Model) ResolveTypes() error {
 				}
 			}
 
-			for _, choiceCase := range choice.Cases {
+			choiceCases := choice.Cases
+			if choice.DefaultCase != nil {
+				choiceCases = append(choiceCases[:len(choiceCases):len(choiceCases)], choice.DefaultCase)
+			}
+			for _, choiceCase := range choiceCases {
 				if choiceCase.Field == nil {
 					continue
 				}
@@ -767,6 +798,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, functions := range choice.Functions {
+				if functions.ReturnType.Package == "" && templateParams[functions.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, functions.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: functions.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
@@ -812,6 +862,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, functions := range union.Functions {
+				if functions.ReturnType.Package == "" && templateParams[functions.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, functions.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: functions.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
-- 
2.43.0


From 66feffde8654b4a64c72e1f79888be897451bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 40/50] fix: imports of single types, and types given with
 their package

'import a.b.Type' was an import from the package a.b. of a type called '.', and
the package of a fully qualified name was only found if it was also imported.
---
 internal/model/transform.go | 32 +++++++++++++++++++++++++-------
 internal/visitor/visitor.go |  6 ++----
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 126ac6d..5247f11 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -653,19 +653,35 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 
 func (m *Model) ResolveImports() error {
 	for _, pkg := range m.Packages {
-		for _, imp := range pkg.Imports {
-			iPkg, found := m.Packages[imp.Package]
-			if !found {
-				return UnknownPackage{imp.Package}
-			}
-			if imp.Type == "*" {
-				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
+		// Packages of which all symbols are imported are searched first.
+		for _, importsAll := range []bool{true, false} {
+			for _, imp := range pkg.Imports {
+				iPkg, found := m.Packages[imp.Package]
+				if !found {
+					return UnknownPackage{imp.Package}
+				}
+				if (imp.Type == "*") == importsAll {
+					addImportedPackage(pkg, iPkg)
+				}
 			}
 		}
 	}
 	return nil
 }
 
+// addImportedPackage makes sure that the symbols of a package can be found.
+func addImportedPackage(pkg, importedPackage *ast.Package) {
+	if pkg == importedPackage {
+		return
+	}
+	for _, p := range pkg.ImportedPackages {
+		if p == importedPackage {
+			return
+		}
+	}
+	pkg.ImportedPackages = append(pkg.ImportedPackages, importedPackage)
+}
+
 // ResolveTypes resolves all type references.
 // This assumes that template instantiation has already happened.
 func (m *Model) ResolveTypes() error {
@@ -954,6 +970,8 @@ func (m *Model) resolveTypeReference(pkgScope *ast.Package, tr *ast.TypeReferenc
 		if !fPkg.HasType(tr.Name) {
 			return UnknownType{TypeReference: *tr}
 		}
+		// A type that is given with its package does not need an import.
+		addImportedPackage(pkgScope, fPkg)
 	} else {
 		if pkgScope.HasType(tr.Name) {
 			tr.Package = pkgScope.Name
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..1734a31 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -114,10 +114,8 @@ func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) a
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
-	if ctx.MULTIPLY() != nil {
-		symbolName = "*"
-	}
+	// The last part is the name of the symbol, or "*".
+	symbolName := children[len(children)-2].(antlr.ParseTree).GetText()
 	return &ast.Import{
 		Package: strings.Join(parts[:len(parts)-1], ""),
 		Type:    symbolName,
-- 
2.43.0


From ae69fedc07f0d1693288d43f7cc258dbb521cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 41/50] fix: imports that only comments and strings mention do
 not compile

---
 internal/generator/strip_imports.go | 31 ++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/internal/generator/strip_imports.go b/internal/generator/strip_imports.go
index 0d0d31f..e6f55f1 100644
--- a/internal/generator/strip_imports.go
+++ b/internal/generator/strip_imports.go
@@ -1,9 +1,37 @@
 package generator
 
 import (
+	"go/scanner"
+	"go/token"
 	"strings"
 )
 
+// usedPackages returns all names in the code that a member is selected from.
+// Comments and strings are not code.
+func usedPackages(code string) map[string]bool {
+	used := map[string]bool{}
+
+	var s scanner.Scanner
+	s.Init(token.NewFileSet().AddFile("", -1, len(code)), []byte(code), nil, 0)
+
+	name := ""
+	last := token.ILLEGAL
+	for {
+		_, tok, literal := s.Scan()
+		if tok == token.EOF {
+			return used
+		}
+		if tok == token.PERIOD && name != "" {
+			used[name] = true
+		}
+		name = ""
+		if tok == token.IDENT && last != token.PERIOD {
+			name = literal
+		}
+		last = tok
+	}
+}
+
 // StripImports searches a *.go file for the import section, and checks if the
 // imports are used.
 func StripImports(code []byte) ([]byte, error) {
@@ -28,6 +56,7 @@ func StripImports(code []byte) ([]byte, error) {
 
 	// Extract the last name of the import line, search in the code if it is used,
 	// and delete the import if it cannot be found.
+	used := usedPackages(content)
 	usedImports := []string{}
 	for _, currentImport := range imports {
 		line := strings.TrimSpace(currentImport)
@@ -48,7 +77,7 @@ func StripImports(code []byte) ([]byte, error) {
 				importName = line[lastSeparator+1 : len(line)-1]
 			}
 		}
-		if strings.Contains(content, importName+".") {
+		if used[importName] {
 			usedImports = append(usedImports, currentImport)
 		}
 	}
-- 
2.43.0


From 2cc0fe35dc4bc72985bffa536260925a75d02dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 42/50] fix: types with lower case names do not compile

---
 internal/model/transform.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 5247f11..d0b4af1 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -45,16 +45,14 @@ func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
 			c.Name = strings.Title(c.Name)
-			if !c.Type.IsBuiltin {
-				c.Type.Name = strings.Title(c.Type.Name)
-			}
+		}
+
+		for _, s := range pkg.Subtypes {
+			s.Name = strings.Title(s.Name)
 		}
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-			if !e.Type.IsBuiltin {
-				e.Type.Name = strings.Title(e.Type.Name)
-			}
 
 			for _, item := range e.Items {
 				item.Name = strings.Title(item.Name)
@@ -69,9 +67,6 @@ func (m *Model) CapitalizeNames() {
 			for _, field := range u.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range u.Functions {
 				function.Name = strings.Title(function.Name)
@@ -86,15 +81,13 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, structure := range pkg.Structs {
+			structure.Name = strings.Title(structure.Name)
 			for _, typeParameter := range structure.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
 			for _, field := range structure.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range structure.Functions {
 				function.Name = strings.Title(function.Name)
@@ -103,6 +96,7 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, choice := range pkg.Choices {
+			choice.Name = strings.Title(choice.Name)
 			for _, typeParameter := range choice.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -110,17 +104,11 @@ func (m *Model) CapitalizeNames() {
 				if choiceCase.Field != nil {
 					choiceCase.Field.ZserioName = choiceCase.Field.Name
 					choiceCase.Field.Name = strings.Title(choiceCase.Field.Name)
-					if !choiceCase.Field.Type.IsBuiltin {
-						choiceCase.Field.Type.Name = strings.Title(choiceCase.Field.Type.Name)
-					}
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
-				if !choice.DefaultCase.Field.Type.IsBuiltin {
-					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-				}
 			}
 			for _, function := range choice.Functions {
 				function.Name = strings.Title(function.Name)
-- 
2.43.0


From 4564deacda8d1a64ba1fe276eefa75432a399338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 43/50] fix: packed arrays of recursive types recurse without
 end

---
 internal/generator/templates/choice.go.tmpl   | 20 +++++++++----------
 .../templates/packing_context_bitsize.go.tmpl |  7 ++++++-
 .../templates/packing_context_create.go.tmpl  |  4 +++-
 .../templates/packing_context_decode.go.tmpl  |  7 ++++++-
 .../templates/packing_context_encode.go.tmpl  |  7 ++++++-
 .../templates/packing_context_init.go.tmpl    |  7 ++++++-
 internal/generator/templates/struct.go.tmpl   | 10 +++++-----
 internal/generator/templates/union.go.tmpl    | 10 +++++-----
 8 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 324bf05..58a30ee 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -102,11 +102,11 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
 {{- range $case := $choice.Cases }}
   {{- if .Field }}
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" .Field }}
+    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "compound" $choice "field" .Field }}
   {{- end }}
 {{- end }}
 {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
-   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "compound" $choice "field" $choice.DefaultCase.Field }}
 {{- end }}
   return nil
 }
@@ -120,13 +120,13 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
+      {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "compound" $choice "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "compound" $choice "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
@@ -143,13 +143,13 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
+      {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "compound" $choice "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end}}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "compound" $choice "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -167,13 +167,13 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
+      {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "compound" $choice "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end}}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "compound" $choice "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -195,13 +195,13 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" . }}:
     {{- if .Field }}
-      {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
+      {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "compound" $choice "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end}}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "compound" $choice "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 76830d2..d03ca5e 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -3,6 +3,11 @@
 {{ $field := .field }}
 {{ $index := .index }}
 {{ $native := goNativeType $scope $field.Type }}
+{{- $node := printf "childrenNodes[%d]" $index }}
+{{- if eq (goType $scope $native.Type) .compound.Name }}
+    {{- /* A recursive field shares the contexts of the compound it is in */}}
+    {{- $node = "contextNode" }}
+{{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
     {{- $field_name = printf "(*v.%s)" $field.Name }}
@@ -59,7 +64,7 @@
     }
 
 {{- else  if $native.IsMarshaler }}
-    if delta, err := {{ $field_name }}.ZserioBitSizePacked(childrenNodes[{{ $index }}], endBitPosition); err != nil {
+    if delta, err := {{ $field_name }}.ZserioBitSizePacked({{ $node }}, endBitPosition); err != nil {
         return 0, err
     } else {
         endBitPosition += delta
diff --git a/internal/generator/templates/packing_context_create.go.tmpl b/internal/generator/templates/packing_context_create.go.tmpl
index fb774bd..935d702 100644
--- a/internal/generator/templates/packing_context_create.go.tmpl
+++ b/internal/generator/templates/packing_context_create.go.tmpl
@@ -6,7 +6,9 @@
 field{{ $field.Name }}Node := &zserio.PackingContextNode{}
 contextNode.AddChild(field{{ $field.Name }}Node)
 {{- if not $field.Array }}
-    {{- if $native.IsMarshaler }}
+    {{- if eq (goType $scope $native.Type) .compound.Name }}
+        {{- /* A recursive field shares the contexts of the compound it is in */}}
+    {{- else if $native.IsMarshaler }}
         {{- /* The if IsMarshaler must come before checking if the type is 
         isDeltaPackable, because some marshable types, such es Enums, can also be 
         delta packed */}}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 49fb863..1d5f4c2 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -2,6 +2,11 @@
 {{ $field := .field }}
 {{ $index := .index }}
 {{ $native := goNativeType $scope $field.Type }}
+{{- $node := printf "childrenNodes[%d]" $index }}
+{{- if eq (goType $scope $native.Type) .compound.Name }}
+    {{- /* A recursive field shares the contexts of the compound it is in */}}
+    {{- $node = "contextNode" }}
+{{- end }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
     {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
@@ -85,7 +90,7 @@
    
 
 {{- else if $native.IsMarshaler }}
-    if err = {{ $assign_str_rvalue }}.UnmarshalZserioPacked(childrenNodes[{{ $index }}], r); err != nil {
+    if err = {{ $assign_str_rvalue }}.UnmarshalZserioPacked({{ $node }}, r); err != nil {
         return err
     }
     
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9222412..ac8e7d6 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -2,6 +2,11 @@
 {{ $field := .field }}
 {{ $index := .index }}
 {{ $native := goNativeType $scope $field.Type }} 
+{{- $node := printf "childrenNodes[%d]" $index }}
+{{- if eq (goType $scope $native.Type) .compound.Name }}
+    {{- /* A recursive field shares the contexts of the compound it is in */}}
+    {{- $node = "contextNode" }}
+{{- end }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
     {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
@@ -76,7 +81,7 @@
      {{- end }}
 
 {{- else if $native.IsMarshaler }}
-    if err := {{ $field_name }}.MarshalZserioPacked(childrenNodes[{{ $index }}], w); err != nil {
+    if err := {{ $field_name }}.MarshalZserioPacked({{ $node }}, w); err != nil {
         return err
     }
 
diff --git a/internal/generator/templates/packing_context_init.go.tmpl b/internal/generator/templates/packing_context_init.go.tmpl
index 8fee3a2..3fae973 100644
--- a/internal/generator/templates/packing_context_init.go.tmpl
+++ b/internal/generator/templates/packing_context_init.go.tmpl
@@ -2,6 +2,11 @@
 {{ $field := .field }}
 {{ $index := .index }}
 {{ $native := goNativeType $scope $field.Type }}
+{{- $node := printf "childrenNodes[%d]" $index }}
+{{- if eq (goType $scope $native.Type) .compound.Name }}
+    {{- /* A recursive field shares the contexts of the compound it is in */}}
+    {{- $node = "contextNode" }}
+{{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
     {{- $field_name = printf "(*v.%s)" $field.Name }}
@@ -28,7 +33,7 @@
 
     {{- template "decode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name "native" $native }}
     {{- if $native.IsMarshaler }}
-        if err := {{ $field_name }}.ZserioInitPackingContext(childrenNodes[{{ $index }}]); err != nil {
+        if err := {{ $field_name }}.ZserioInitPackingContext({{ $node }}); err != nil {
             return err
         }
     {{- else }}
diff --git a/internal/generator/templates/struct.go.tmpl b/internal/generator/templates/struct.go.tmpl
index 2ee8d85..311c127 100644
--- a/internal/generator/templates/struct.go.tmpl
+++ b/internal/generator/templates/struct.go.tmpl
@@ -56,7 +56,7 @@ func (v *{{ $struct.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 func (v *{{ $struct.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
 {{- range $field := $struct.Fields }}
-  {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
+  {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "compound" $struct "field" $field }}
 {{- end}}
   return nil
 }
@@ -65,7 +65,7 @@ func (v *{{ $struct.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
 {{- range $index, $field := $struct.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "compound" $struct "field" $field "index" $index }}
 {{- end}}
   return nil
 }
@@ -77,7 +77,7 @@ func (v *{{ $struct.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
 {{- range $index, $field := $struct.Fields }}
-{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "compound" $struct "field" $field "index" $index }}
 {{- end}}
     _ = err // to avoid "declared but not used" warning
 {{- end }}
@@ -91,7 +91,7 @@ func (v *{{ $struct.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
 {{- range $index, $field := $struct.Fields }}
-{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "compound" $struct "field" $field "index" $index }}
 {{- end }}
     _ = err // to avoid "declared but not used" warning
 {{- end }}
@@ -108,7 +108,7 @@ func (v *{{ $struct.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
 {{- range $index, $field := $struct.Fields }}
-  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "compound" $struct "field" $field "index" $index }}
 {{- end}}
 {{- end }}
   return endBitPosition - bitPosition, nil
diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 856ef44..4b944f4 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -95,7 +95,7 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
     Context: &ztype.DeltaContext[uint64]{},
   })
 {{- range $field := $union.Fields }}
-  {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
+  {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "compound" $union "field" $field }}
 {{- end}}
   return nil
 }
@@ -112,7 +112,7 @@ func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingC
   tagContext.Init(&ztype.VarSizeArrayTraits{}, uint64(v.UnionChoice) - 1)
 {{- range $index, $field := $union.Fields }}
   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "compound" $union "field" $field "index" (add $index 1) }}
   }
 {{- end}}
   return nil
@@ -134,7 +134,7 @@ func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCont
   v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
 {{- range $index, $field := $union.Fields }}
   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
-  {{- template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  {{- template "packing_context_decode.go.tmpl" dict "pkg" $scope "compound" $union "field" $field "index" (add $index 1) }}
   }
 {{- end}}
   return nil
@@ -155,7 +155,7 @@ func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContex
   }
 {{- range $index, $field := $union.Fields }}
   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
-  {{- template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  {{- template "packing_context_encode.go.tmpl" dict "pkg" $scope "compound" $union "field" $field "index" (add $index 1) }}
   }
 {{- end}}
   return nil
@@ -182,7 +182,7 @@ func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContex
   }
 {{- range $index, $field := $union.Fields }}
   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
-  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "compound" $union "field" $field "index" (add $index 1) }}
   }
 {{- end}}
   return endBitPosition - bitPosition, nil
-- 
2.43.0


From f29fcd760fc584a7658be27bfd363cd4d92bf6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 44/50] fix: names of enum items are those of the schema

---
 internal/model/transform.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index d0b4af1..e600bf1 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -53,10 +53,6 @@ func (m *Model) CapitalizeNames() {
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-
-			for _, item := range e.Items {
-				item.Name = strings.Title(item.Name)
-			}
 		}
 
 		for _, u := range pkg.Unions {
-- 
2.43.0


From 898337518f2358ccb9b1c234c847d80499bf4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 45/50] fix: members of a compound are hidden by constants and
 types of the same name

---
 internal/ast/bitmask.go    |  4 ++--
 internal/ast/const.go      |  2 +-
 internal/ast/enum.go       |  4 ++--
 internal/ast/expression.go | 20 +++++++++++++++++++-
 internal/ast/package.go    | 20 +++++++++++++++-----
 5 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index e216844..df6462a 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -11,7 +11,7 @@ func (v *BitmaskValue) evaluate(bitmask *BitmaskType, scope *Package) error {
 	if v.Expression == nil {
 		return bitmask.Evaluate(scope)
 	}
-	return v.Expression.Evaluate(scope)
+	return v.Expression.evaluateOutsideCompounds(scope)
 }
 
 type BitmaskType struct {
@@ -50,7 +50,7 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				}
 			}
 		} else {
-			if err := value.Evaluate(p); err != nil {
+			if err := value.Expression.evaluateOutsideCompounds(p); err != nil {
 				return err
 			}
 			if value.ResultType == ExpressionTypeBitmask {
diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8cd7e24..68728be 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -10,5 +10,5 @@ type Const struct {
 
 // Evaluate evalutes the value expression of a const type
 func (c *Const) Evaluate(scope *Package) error {
-	return c.ValueExpression.Evaluate(scope)
+	return c.ValueExpression.evaluateOutsideCompounds(scope)
 }
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index 11d6156..9966c62 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -48,7 +48,7 @@ func (e *Enum) Evaluate(scope *Package) error {
 				}
 			}
 		} else {
-			if err := item.Evaluate(scope); err != nil {
+			if err := item.Expression.evaluateOutsideCompounds(scope); err != nil {
 				return err
 			}
 		}
@@ -69,7 +69,7 @@ func (e *EnumItem) evaluate(scope *Package) error {
 	if e.Expression == nil {
 		return e.enum.Evaluate(scope)
 	}
-	return e.Expression.Evaluate(scope)
+	return e.Expression.evaluateOutsideCompounds(scope)
 }
 
 func (e EnumItem) GoName() string {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 5944144..3c8c530 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -184,13 +184,21 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 		return errors.New("symbol not found")
 	}
 
+	// The members of a compound type hide constants and other compound types.
+	switch symbol.Symbol.(type) {
+	case *Const, *Struct, *Union, *Choice, *InstantiateType:
+		if member, err := scope.getLocalMember(expr.Text); err == nil {
+			symbol = member
+		}
+	}
+
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
 		constScope, err := scope.GetImportedScope(symbol.Package)
 		if err != nil {
 			return err
 		}
-		if err := constSymbol.ValueExpression.Evaluate(constScope); err != nil {
+		if err := constSymbol.Evaluate(constScope); err != nil {
 			return err
 		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
@@ -945,6 +953,16 @@ func (expr *Expression) Clone() *Expression {
 	return &clone
 }
 
+// evaluateOutsideCompounds evaluates an expression that does not belong to a
+// compound type, and therefore can not refer to the members of one.
+func (expr *Expression) evaluateOutsideCompounds(scope *Package) error {
+	if scope.LocalSymbols != nil {
+		defer func(name *string) { scope.LocalSymbols.CurrentCompoundScope = name }(scope.LocalSymbols.CurrentCompoundScope)
+		scope.LocalSymbols.CurrentCompoundScope = nil
+	}
+	return expr.Evaluate(scope)
+}
+
 // Evaluate evalues the value of the expression, by evaluating all child
 // expressions. If successful, expr will have valid ExpressionType and Values
 // set.
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..a410faa 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -246,12 +246,22 @@ func (p *Package) GetType(name string) (*SymbolReference, error) {
 	return nil, errors.New("type not found")
 }
 
+// getLocalMember searches for a member of the compound type that is evaluated.
+func (p *Package) getLocalMember(name string) (*SymbolReference, error) {
+	if p.LocalSymbols.CurrentCompoundScope == nil {
+		return nil, errors.New("no compound is evaluated")
+	}
+	typeSymbol, err := p.LocalSymbols.GetCompoundType(*p.LocalSymbols.CurrentCompoundScope, name)
+	if err != nil {
+		return nil, err
+	}
+	typeSymbol.Package = p.Name
+	return typeSymbol, nil
+}
+
 func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error) {
-	if p.LocalSymbols.CurrentCompoundScope != nil {
-		if typeSymbol, err := p.LocalSymbols.GetCompoundType(*p.LocalSymbols.CurrentCompoundScope, name); err == nil {
-			typeSymbol.Package = p.Name
-			return typeSymbol, nil
-		}
+	if typeSymbol, err := p.getLocalMember(name); err == nil {
+		return typeSymbol, nil
 	}
 
 	// check all imported scopes
-- 
2.43.0


From 3d9a274af232a14a559fbecee2275ab54b36659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:19 +0000
Subject: [PATCH 46/50] fix: bit fields of more than 64 bits panic or lose bits

---
 ztype/bits_decode.go | 5 ++++-
 ztype/bits_encode.go | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..c9c2178 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits > 64 {
+		return 0, ErrBitsOutOfRange
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrBitsOutOfRange
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..7641653 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,8 +10,15 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrBitsOutOfRange is returned when a bit field type has more bits than a
+// number can have.
+var ErrBitsOutOfRange = errors.New("number of bits is out of range")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits > 64 {
+		return ErrBitsOutOfRange
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -21,7 +28,7 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrBitsOutOfRange
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 1331f794919c47eac2233bff4c53d78d4bc49fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:19 +0000
Subject: [PATCH 47/50] fix: widths of bit fields that are known at run time
 are cut to 8 bits

---
 internal/generator/templates/decode.go.tmpl          |  2 +-
 internal/generator/templates/encode.go.tmpl          |  2 +-
 .../templates/instantiate_array_traits.go.tmpl       |  2 +-
 .../templates/packing_context_decode.go.tmpl         |  2 +-
 .../templates/packing_context_encode.go.tmpl         |  2 +-
 ztype/bits_encode.go                                 | 12 +++++++++++-
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..3abe698 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..dd372d4 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/instantiate_array_traits.go.tmpl b/internal/generator/templates/instantiate_array_traits.go.tmpl
index a76fcdf..a0e313b 100644
--- a/internal/generator/templates/instantiate_array_traits.go.tmpl
+++ b/internal/generator/templates/instantiate_array_traits.go.tmpl
@@ -5,7 +5,7 @@
     {{- if gt $type.Bits 0 -}}
         ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- $type.Bits }}))
     {{- else if $type.LengthExpression -}}
-        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- goExpression $scope $type.LengthExpression }}))
+        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](ztype.BitWidth(int64({{- goExpression $scope $type.LengthExpression }})))
     {{- else if eq $type.Name "uint8" }}ztype.ArrayTraits.UInt8
     {{- else if eq $type.Name "uint16" }}ztype.ArrayTraits.UInt16
     {{- else if eq $type.Name "uint32" }}ztype.ArrayTraits.UInt32
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 1d5f4c2..daa9e1e 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -9,7 +9,7 @@
 {{- end }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index ac8e7d6..9c4d6b3 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -9,7 +9,7 @@
 {{- end }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index 7641653..16835c5 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -2,6 +2,7 @@ package ztype
 
 import (
 	"errors"
+	"math"
 
 	zserio "github.com/woven-planet/go-zserio"
 )
@@ -11,9 +12,18 @@ import (
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
 // ErrBitsOutOfRange is returned when a bit field type has more bits than a
-// number can have.
+// number can have, or a negative number of bits.
 var ErrBitsOutOfRange = errors.New("number of bits is out of range")
 
+// BitWidth returns the number of bits of a bit field type, whose length is only
+// known at run time. Lengths that no bit field can have remain invalid.
+func BitWidth(bits int64) uint8 {
+	if bits < 0 || bits > 64 {
+		return math.MaxUint8
+	}
+	return uint8(bits)
+}
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 	if bits > 64 {
-- 
2.43.0


From 1ac275b8c863ff2b0d471c340b6b70f33e6e940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 48/50] fix: elements of more than 64 bits are read without an
 error

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index d1bffc7..dedb0d8 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -692,7 +692,7 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
@@ -753,7 +753,7 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(fillUpperBits(value, trait.NumBits)), err
 }
 
-- 
2.43.0


From 5245fa5eb3e768d377162a2c93899677dfac9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 49/50] fix: choices with only a default case are not written
 in packed arrays

---
 internal/generator/templates/choice.go.tmpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 58a30ee..16ce1a9 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -112,7 +112,7 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
 }
 
 func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
     switch {{ goExpression $scope $expr }} {
@@ -134,7 +134,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 }
 
 func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -158,7 +158,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
 }
 
 func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -187,7 +187,7 @@ func (v *{{ $choice.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
 
 func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
   endBitPosition := bitPosition
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
   switch {{ goExpression $scope $expr }} {
-- 
2.43.0


From a3d8892cd5e3be4890b7dadcd0ff71ff5b66a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:23 +0000
Subject: [PATCH 50/50] fix: the highest bit of a uint64 bitmask

---
 internal/ast/bitmask.go                      | 16 +++++++++++++---
 internal/generator/templates/bitmask.go.tmpl |  3 ++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index df6462a..19549de 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -21,10 +21,16 @@ type BitmaskType struct {
 	Values  []*BitmaskValue
 }
 
+// UintValue is the value as an unsigned number. It needs all 64 bits when the
+// highest one is set.
+func (v *BitmaskValue) UintValue() uint64 {
+	return uint64(v.ResultIntValue)
+}
+
+// findNextFreeBit returns zero if there is none.
 func findNextFreeBit(lastValue int64) int64 {
 	highestBitPosition := 0
-	for lastValue > 0 {
-		lastValue = lastValue >> 1
+	for value := uint64(lastValue); value > 0; value >>= 1 {
 		highestBitPosition++
 	}
 	return 1 << highestBitPosition
@@ -43,10 +49,14 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
 					return MissingEnumValue{value.Name}
 				}
+				next := findNextFreeBit(bitmask.Values[ix-1].ResultIntValue)
+				if next == 0 {
+					return MissingEnumValue{value.Name}
+				}
 				value.Expression = &Expression{
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  findNextFreeBit(bitmask.Values[ix-1].ResultIntValue),
+					ResultIntValue:  next,
 				}
 			}
 		} else {
diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index 5182b4f..a7eaa86 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -9,7 +9,8 @@
 type {{ $bitmask.Name }} {{ goType $scope $bitmask.Type }}
 const (
 {{- range $value := $bitmask.Values }}
-    {{ $bitmask.Name }}{{ $value.Name }} {{ $bitmask.Name }} = {{ if eq $value.ResultType "int" }}{{ .ResultIntValue }}
+    {{ $bitmask.Name }}{{ $value.Name }} {{ $bitmask.Name }} = {{ if eq $value.ResultType "int" }}
+        {{- if eq (goType $scope $native.Type) "uint64" }}{{ .UintValue }}{{ else }}{{ .ResultIntValue }}{{ end }}
     {{- else if eq $value.ResultType "string" }}{{ .ResultStringValue }}
     {{- else }}UNSUPPORTED
     {{- end }}
-- 
2.43.0

