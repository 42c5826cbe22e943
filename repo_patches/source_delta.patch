From 903441d856fc93c924f6e71bbf9e2cf31c57bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 01/60] fix: SignedBitSize and WriteVarint64 accept the minimum
 int64 they cannot encode

-MinInt64 overflows to itself, so the size loop saw a negative magnitude and
reported one byte; WriteVarint64(MinInt64) silently wrote 0x80.
---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..32ece63 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,14 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// The absolute value does not fit an int64. Only varint (9 bytes)
+		// can represent it, as the single byte 0x80.
+		if maxBytes < 9 {
+			return 0, ErrOutOfBounds
+		}
+		return 8, nil
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From 4cc5e61167fb79d5579fafe52a2aa6b95c75b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 02/60] fix: bit field widths above 64 are an error, not a
 panic

---
 ztype/bits_decode.go | 5 ++++-
 ztype/bits_encode.go | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..e825561 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits > 64 {
+		return 0, ErrTooManyBits
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrTooManyBits
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..e56dac2 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,8 +10,15 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrTooManyBits is returned when you try to read or write a bit field type
+// that is wider than 64 bits.
+var ErrTooManyBits = errors.New("bit fields can not have more than 64 bits")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits > 64 {
+		return ErrTooManyBits
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -21,7 +28,7 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrTooManyBits
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 7611c1621e8faa94282dac8542f1dd71c1ed094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 03/60] fix: bytes and extern values are never written with a
 mismatching buffer

---
 ztype/bytes_encode.go  | 13 ++++++++++++-
 ztype/extern_encode.go | 10 +++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..3b2b8a0 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -1,9 +1,20 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
+
+// ErrBufferSize is returned when the declared size of a bytes or extern value
+// does not match its buffer.
+var ErrBufferSize = errors.New("size does not match the buffer")
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b.ByteSize != uint64(len(b.Buffer)) {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..68f7939 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -4,20 +4,24 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	numOfFullBytes := e.BitSize / 8
+	remainingBits := uint8(e.BitSize % 8)
+	if uint64(len(e.Buffer)) < numOfFullBytes || (remainingBits != 0 && uint64(len(e.Buffer)) == numOfFullBytes) {
+		return ErrBufferSize
+	}
+
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
 
 	// write full bytes
-	numOfFullBytes := e.BitSize / 8
-	remainingBits := uint8(e.BitSize % 8)
 	if _, err := w.Write(e.Buffer[0:numOfFullBytes]); err != nil {
 		return err
 	}
 
 	// and the remaining 1-7 bits
 	if remainingBits != 0 {
-		lastByte := uint64(e.Buffer[len(e.Buffer)-1])
+		lastByte := uint64(e.Buffer[numOfFullBytes])
 		numOfBitShift := 8 - remainingBits
 		lastByte = lastByte >> numOfBitShift
 		if err := w.WriteBits(lastByte, remainingBits); err != nil {
-- 
2.43.0


From 0b2cab05f0433a92150e0dd318e1a24e0fa5e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 04/60] fix: BitWriter.Align fills gaps of more than 64 bits
 with the right number of bits

---
 zstream/writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..b0d6d7c 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -73,8 +73,14 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 		return w.writer.BitsCount, nil
 	}
 
-	err := w.WriteBits(0, d)
-	if err != nil {
+	// WriteBits can write at most 64 bits at once
+	for d > 64 {
+		if err := w.WriteBits(0, 64); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= 64
+	}
+	if err := w.WriteBits(0, d); err != nil {
 		return 0, fmt.Errorf("discard: %w", err)
 	}
 
-- 
2.43.0


From c17479f1c7c72b83eaf22c48e1d9c6dc003389f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 05/60] fix: BitReader.ReadBits(0) returns 0, not bits read
 before

---
 zstream/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..91991c9 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -39,6 +39,10 @@ func (r *BitReader) ReadByte() (byte, error) {
 
 // ReadBits reads n bits and returns them as the lowest n bits of u.
 func (r *BitReader) ReadBits(n uint8) (uint64, error) {
+	if n == 0 {
+		// the bitio reader would return whatever is left in its cache
+		return 0, nil
+	}
 	return r.reader.ReadBits(n)
 }
 
-- 
2.43.0


From 9f8d69099f2623229d85cf46a198eed914992476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 06/60] fix: report the errors of writing array elements and of
 reading a delta descriptor

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/delta_context.go       |  4 +++-
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 5 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..11ab38b 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err := packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..b140487 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err := packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From f5c326d6a58bac81a500953402747d75e09e9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 07/60] fix: bit field array traits do not depend on earlier
 requests for the same width

---
 ztype/array_traits.go | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..3ead718 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,16 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
+// GetSignedBitFieldArrayTraits returns the array traits of signed bit fields
+// with the given width.
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
+// GetBitFieldArrayTraits returns the array traits of unsigned bit fields with
+// the given width.
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From 1a254f13328fa5f68bd19fcaefbbcc3d337432fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 08/60] fix: bit sizes of varint, varuint16, varuint, string,
 bytes and extern elements

---
 .../templates/builtin_bitsizeof.go.tmpl       |  4 +--
 ztype/array_traits.go                         | 27 +++++++++----------
 ztype/bytes_encode.go                         | 10 +++++++
 ztype/extern_encode.go                        | 10 +++++++
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d45c3ca 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 3ead718..f7fc73b 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -277,7 +277,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -461,7 +461,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -596,7 +596,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -844,15 +844,10 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
-	if err != nil {
-		return 0
-	}
-
-	// the total size of a string is 8 bits for each (UTF-8) character, and a
-	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	// the total size of a string is 8 bits for each byte of its UTF-8
+	// encoding, and a varsize type for the number of bytes
+	bitSize, _ := BitSizeOfString(element)
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
@@ -896,7 +891,9 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	// the length in bits is encoded as a varsize in front of the content
+	bitSize, _ := BitSizeOfExtern(element)
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -940,7 +937,9 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	// the length in bytes is encoded as a varsize in front of the content
+	bitSize, _ := BitSizeOfBytes(element)
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 3b2b8a0..6045613 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -24,3 +24,13 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 	}
 	return nil
 }
+
+// BitSizeOfBytes returns the zserio bit size of a bytes type.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	// the length is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(b.ByteSize)*8, nil
+}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 68f7939..4b20d4c 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -30,3 +30,13 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 	}
 	return nil
 }
+
+// BitSizeOfExtern returns the zserio bit size of an extern type.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	// the length is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
-- 
2.43.0


From e36274be5208f0076a80cd92350620f9c3ff033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 09/60] fix: array sizes use the encoder's length header,
 alignment and a packing context of their own

---
 ztype/array.go        | 24 +++++++++++++++++-------
 ztype/object_array.go | 24 +++++++++++++++++-------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..daca64d 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -42,7 +42,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -51,16 +51,16 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.checkOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
-			// all elements are spaced in the same way
+			// all elements are aligned and spaced in the same way
 			endBitPosition = alignTo(8, endBitPosition)
 			endBitPosition += elementSize + (size-1)*alignTo(8, elementSize)
 		}
 	} else {
 		for _, element := range array.RawArray {
-			if array.setOffsetMethod != nil {
+			if array.checkOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
 			endBitPosition += array.ArrayTraits.BitSizeOf(element, endBitPosition)
@@ -74,7 +74,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -82,12 +82,22 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	}
 	if size > 0 {
 		packedTraits := array.ArrayTraits.PackedTraits()
+		// the encoder starts with a new context as well
+		contextNode, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err := packedTraits.InitContext(contextNode, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
-			if array.setOffsetMethod != nil {
+			if array.checkOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(contextNode, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..98b5f4f 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -29,7 +29,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -41,16 +41,16 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.checkOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
-			// all elements are spaced in the same way
+			// all elements are aligned and spaced in the same way
 			endBitPosition = alignTo(8, endBitPosition)
 			endBitPosition += elementSize + (size-1)*alignTo(8, elementSize)
 		}
 	} else {
 		for i := 0; i < size; i++ {
-			if array.setOffsetMethod != nil {
+			if array.checkOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
 			endBitPosition += arrayTraits.BitSizeOf(&elements[i], endBitPosition)
@@ -64,7 +64,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -73,12 +73,22 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		// the encoder starts with a new context as well
+		contextNode, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err := packedTraits.InitContext(contextNode, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
-			if array.setOffsetMethod != nil {
+			if array.checkOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(contextNode, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 7ae3a89b114c154bbfd7e4c696dce7b02bd02302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 10/60] fix: bit field arrays refuse elements that do not fit
 the width

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index f7fc73b..46b302b 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -701,7 +701,7 @@ func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, er
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -762,7 +762,7 @@ func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
-- 
2.43.0


From 6bb6d546c7e13338892332a60014f1bffd05b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 11/60] fix: bit field arrays wider than 64 bits are reported
 as an error when decoding

---
 ztype/array_traits.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 46b302b..094594a 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -696,7 +696,7 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
@@ -757,8 +757,8 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
-	return T(fillUpperBits(value, trait.NumBits)), err
+	value, err := ReadSignedBits(reader, trait.NumBits)
+	return T(value), err
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-- 
2.43.0


From 4fbf92e76b4a7550f3d3645003bde7c7e3f6fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 12/60] fix: decoding an array of negative or excessive fixed
 size returns an error

---
 ztype/array.go               | 6 ++++++
 ztype/array_decode.go        | 4 ++++
 ztype/object_array_decode.go | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/ztype/array.go b/ztype/array.go
index daca64d..d5c6dbe 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -1,9 +1,15 @@
 package ztype
 
 import (
+	"errors"
+
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// ErrArraySize is returned when the size of an array is negative or larger
+// than a varsize.
+var ErrArraySize = errors.New("array size is out of bounds")
+
 // OffsetMethod is a function used to set/check bit offsets in the buffer.
 type OffsetMethod func(int, int64)
 
diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..a3c95b9 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -16,6 +16,10 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
+	if arraySize < 0 || arraySize > MaxVarsize {
+		return ErrArraySize
+	}
+
 	array.RawArray = make([]T, 0, arraySize)
 
 	if arraySize > 0 {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..46f8f6e 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,6 +14,10 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
+	if arraySize < 0 || arraySize > MaxVarsize {
+		return nil, ErrArraySize
+	}
+
 	result := make([]T, arraySize)
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
-- 
2.43.0


From 9c23e5d0c490a030451b0df4b876ee30b267119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 13/60] fix: delta packing compares signed elements as signed
 values

---
 ztype/delta_context.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index de5b10c..a7c9d50 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -34,8 +34,16 @@ func arrayTraitsBitsizeOf[T any](arrayTraits IArrayTraits[T], bitPosition int, e
 	return arrayTraits.BitSizeOf(element, bitPosition)
 }
 
-func absDiff(lhs, rhs uint64) uint64 {
-	if lhs > rhs {
+// absDiff returns the absolute difference of two elements, as converted by the
+// AsUint64 method of the array traits of type T.
+func absDiff[T any](lhs, rhs uint64) uint64 {
+	var element T
+	isGreater := lhs > rhs
+	if _, isUint64 := any(element).(uint64); !isUint64 {
+		// all other types fit an int64, negative elements are sign-extended
+		isGreater = int64(lhs) > int64(rhs)
+	}
+	if isGreater {
 		return lhs - rhs
 	}
 	return rhs - lhs
@@ -53,7 +61,7 @@ func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 		context.isPacked = true
 		// Calculate the delta to the previous value, and calculate how many
 		// bits are needed to store the delta.
-		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement)
+		delta := absDiff[T](arrayTraits.AsUint64(element), *context.previousElement)
 		maxBitNumber := bits.Len64(delta)
 		if maxBitNumber > context.maxBitNumber {
 			context.maxBitNumber = maxBitNumber
-- 
2.43.0


From 2948a6d6d0b4623152b99ec095a9bc3b8c95a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 14/60] fix: packed arrays of elements that can not be delta
 encoded keep their elements

---
 ztype/array.go        |  6 +++++-
 ztype/array_decode.go |  4 +++-
 ztype/array_encode.go |  6 ++++--
 ztype/array_traits.go | 31 +++++++++----------------------
 4 files changed, 21 insertions(+), 26 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index d5c6dbe..a1a3389 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -77,6 +77,11 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 
 // BitSizeOfPacked returns the total size of the packed array in bits.
 func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
+	packedTraits := array.ArrayTraits.PackedTraits()
+	if packedTraits == nil {
+		return array.ZserioBitSize(bitPosition)
+	}
+
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
@@ -87,7 +92,6 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 		endBitPosition += delta
 	}
 	if size > 0 {
-		packedTraits := array.ArrayTraits.PackedTraits()
 		// the encoder starts with a new context as well
 		contextNode, err := packedTraits.CreateContext()
 		if err != nil {
diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index a3c95b9..a2d89bc 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -29,6 +29,8 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 
 		if array.IsPacked {
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
 			// A descriptor is only written for packed arrays.
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
@@ -45,7 +47,7 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 				array.checkOffsetMethod(index, count)
 			}
 
-			if array.IsPacked {
+			if packedTraits != nil {
 				element, err = packedTraits.Read(array.PackedContext, reader, index)
 			} else {
 				element, err = array.ArrayTraits.Read(reader, index)
diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index 11ab38b..0ba5a48 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -18,8 +18,10 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 		var packedTraits IPackedArrayTraits[T]
 		if array.IsPacked {
 			// descriptors are only needed if the array is packed
-			var err error
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
+			var err error
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
 				return err
@@ -39,7 +41,7 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				array.checkOffsetMethod(index, count)
 			}
 			var err error
-			if array.IsPacked {
+			if packedTraits != nil {
 				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
 				err = array.ArrayTraits.Write(writer, element)
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 094594a..fd7c32e 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -21,7 +21,8 @@ type IArrayTraits[T any] interface {
 	// NeedsReadIndex specifies if the traits need the array index of the element.
 	NeedsReadIndex() bool
 
-	// PackedTraits will return the array trait as a packed object.
+	// PackedTraits will return the array trait as a packed object. It returns
+	// nil if the elements can not be delta encoded.
 	PackedTraits() IPackedArrayTraits[T]
 
 	// BitSizeOf returns the bit size of array element. If the sizee depends on
@@ -118,9 +119,7 @@ func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArra
 type Float16ArrayTraits struct{}
 
 func (trait Float16ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float16ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float16ArrayTraits) BitSizeOfIsConstant() bool {
@@ -165,9 +164,7 @@ func (trait Float16ArrayTraits) FromUint64(value uint64) float32 {
 type Float32ArrayTraits struct{}
 
 func (trait Float32ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float32ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float32ArrayTraits) BitSizeOfIsConstant() bool {
@@ -210,9 +207,7 @@ func (trait Float32ArrayTraits) FromUint64(value uint64) float32 {
 type Float64ArrayTraits struct{}
 
 func (trait Float64ArrayTraits) PackedTraits() IPackedArrayTraits[float64] {
-	return &PackedArrayTraits[float64, Float64ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float64ArrayTraits) BitSizeOfIsConstant() bool {
@@ -776,9 +771,7 @@ func (trait SignedBitFieldArrayTraits[T]) FromUint64(value uint64) T {
 type BooleanArrayTraits struct{}
 
 func (trait BooleanArrayTraits) PackedTraits() IPackedArrayTraits[bool] {
-	return &PackedArrayTraits[bool, BooleanArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BooleanArrayTraits) BitSizeOfIsConstant() bool {
@@ -826,9 +819,7 @@ func (trait BooleanArrayTraits) FromUint64(value uint64) bool {
 type StringArrayTraits struct{}
 
 func (trait StringArrayTraits) PackedTraits() IPackedArrayTraits[string] {
-	return &PackedArrayTraits[string, StringArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait StringArrayTraits) BitSizeOfIsConstant() bool {
@@ -873,9 +864,7 @@ func (trait StringArrayTraits) FromUint64(value uint64) string {
 type BitBufferArrayTraits struct{}
 
 func (trait BitBufferArrayTraits) PackedTraits() IPackedArrayTraits[*ExternType] {
-	return &PackedArrayTraits[*ExternType, BitBufferArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BitBufferArrayTraits) BitSizeOfIsConstant() bool {
@@ -919,9 +908,7 @@ func (trait BitBufferArrayTraits) FromUint64(value uint64) *ExternType {
 type BytesArrayTraits struct{}
 
 func (trait BytesArrayTraits) PackedTraits() IPackedArrayTraits[*BytesType] {
-	return &PackedArrayTraits[*BytesType, BytesArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BytesArrayTraits) BitSizeOfIsConstant() bool {
-- 
2.43.0


From 0297714d0d353bf78dae78e7f888b5d05d6f9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 15/60] fix: packed bit field arrays refuse elements that do
 not fit the width

---
 ztype/array_traits.go  | 11 ++++++++---
 ztype/delta_context.go |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index fd7c32e..c805d81 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -704,13 +704,18 @@ func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
 }
 
 func (trait BitFieldArrayTraits[T]) FromUint64(value uint64) T {
-	return T(value)
+	return T(lowerBits(value, trait.NumBits))
 }
 
 type SignedBitFieldArrayTraits[T constraints.Signed] struct {
 	NumBits uint8
 }
 
+// lowerBits returns the numBits lowest bits of the value.
+func lowerBits(value uint64, numBits uint8) uint64 {
+	return value & (1<<uint64(numBits) - 1)
+}
+
 func fillUpperBits(value uint64, numBits uint8) uint64 {
 	// check if the value is negative. If yes,
 	// it will be later casted to the correct final type,
@@ -720,9 +725,9 @@ func fillUpperBits(value uint64, numBits uint8) uint64 {
 		// if yes, mask all bits from NumBits to 64 with a 1, to make
 		// the uint64 negative when casting to an int type
 		upperMask := uint64(math.MaxUint64) - (1<<uint64(numBits) - 1)
-		value = value | upperMask
+		return value | upperMask
 	}
-	return value
+	return lowerBits(value, numBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) PackedTraits() IPackedArrayTraits[T] {
diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index a7c9d50..4636a8b 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -127,6 +127,10 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 	if !context.isPacked {
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
+	if value := arrayTraits.AsUint64(element); arrayTraits.AsUint64(arrayTraits.FromUint64(value)) != value {
+		// the delta would be decoded as another value
+		return ErrValueOutOfBitRange
+	}
 	if context.maxBitNumber > 0 {
 		delta := arrayTraits.AsUint64(element) - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
-- 
2.43.0


From f7574cc969a5bd0d0b043de59555ac69269092a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 16/60] fix: propagate float values through parentheses, unary
 and conditional operators

---
 internal/ast/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..3b0b21e 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -433,6 +433,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	}
 	expr.ResultType = expr.Operand1.ResultType
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	expr.ResultFloatValue = expr.Operand1.ResultFloatValue
 	expr.ResultStringValue = expr.Operand1.ResultStringValue
 	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
@@ -457,6 +458,11 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
 		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
+		}
 	}
 	return nil
 }
@@ -658,12 +664,14 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	if expr.Operand1.ResultBoolValue {
 		expr.ResultType = expr.Operand2.ResultType
 		expr.ResultIntValue = expr.Operand2.ResultIntValue
+		expr.ResultFloatValue = expr.Operand2.ResultFloatValue
 		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
 		expr.ResultStringValue = expr.Operand2.ResultStringValue
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
 	} else {
 		expr.ResultType = expr.Operand3.ResultType
 		expr.ResultIntValue = expr.Operand3.ResultIntValue
+		expr.ResultFloatValue = expr.Operand3.ResultFloatValue
 		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
 		expr.ResultStringValue = expr.Operand3.ResultStringValue
 		expr.NativeZserioType = expr.Operand3.NativeZserioType
-- 
2.43.0


From 2f0c8d7c94b376178a182418d42bd974b09a3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 17/60] fix: evaluate equality of boolean constant expressions

---
 internal/ast/expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 3b0b21e..80e7117 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -652,6 +652,15 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		default:
 			return errors.New("string types does not support greater / smaller comparisons")
 		}
+	} else if expr.Operand1.ResultType == ExpressionTypeBool {
+		switch expr.Type {
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue == expr.Operand2.ResultBoolValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue != expr.Operand2.ResultBoolValue
+		default:
+			return errors.New("bool types does not support greater / smaller comparisons")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 776cf61e1102afc2acf9e11fa07ed30418939e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 18/60] fix: constant numbits gives the same value as at
 runtime

---
 internal/ast/expression.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 80e7117..b4b824c 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -224,7 +224,13 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// this must give the same result as ztype.NumBits, which is used at runtime:
+	// the number of bits needed to represent that many different values.
+	numValues := uint64(expr.Operand1.ResultIntValue)
+	if numValues > 1 {
+		numValues--
+	}
+	expr.ResultIntValue = int64(bits.Len64(numValues))
 	return nil
 }
 
-- 
2.43.0


From d439334ebd4acb1773fb5c33c74eb482bd087d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 19/60] fix: report constant division by zero and negative
 shift counts as errors

---
 internal/ast/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index b4b824c..82c47f5 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -524,8 +524,14 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultIntValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultIntValue = op1 / op2
 		case parser.ZserioParserMODULO:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultIntValue = op1 % op2
 		default:
 			return errors.New("unexpected operation in integer arithmetic expression")
@@ -724,9 +730,15 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
+		if expr.Operand2.ResultIntValue < 0 {
+			return errors.New("negative shift count")
+		}
 		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
 		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
+		if expr.Operand2.ResultIntValue < 0 {
+			return errors.New("negative shift count")
+		}
 		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
 		isShiftOperation = true
 	case parser.ZserioParserAND:
-- 
2.43.0


From 5d94a0833abd318b677267141120f33f706fc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 20/60] fix: evaluate float literals with suffix and binary
 literals with capital suffix

---
 internal/ast/expression.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 82c47f5..0b763a0 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -785,9 +785,9 @@ func (expr *Expression) evaluateStringLiteral() error {
 
 func (expr *Expression) evaluateBinaryLiteral() error {
 	expr.ResultType = ExpressionTypeInteger
-	// remove the trailing "b"
+	// remove the trailing "b" or "B"
 	binaryString := expr.Text
-	if !strings.HasSuffix(binaryString, "b") {
+	if !strings.HasSuffix(binaryString, "b") && !strings.HasSuffix(binaryString, "B") {
 		return errors.New("binary expression is not valid")
 	}
 	binaryString = binaryString[:len(binaryString)-1]
@@ -929,7 +929,8 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioLexerFLOAT_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float32"}
-		expr.ResultFloatValue, err = strconv.ParseFloat(expr.Text, 32)
+		// remove the trailing "f"
+		expr.ResultFloatValue, err = strconv.ParseFloat(strings.TrimRight(expr.Text, "fF"), 32)
 	case parser.ZserioParserDOUBLE_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
-- 
2.43.0


From 29c6723a7f4fe6f33678028c65df1e7d7b5dc8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 21/60] fix: resolve escape sequences in string literals

---
 internal/ast/expression.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 0b763a0..b16b698 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -779,8 +779,9 @@ func (expr *Expression) evaluateStringLiteral() error {
 		return errors.New("string literal should contain quotes")
 	}
 	expr.ResultType = ExpressionTypeString
-	expr.ResultStringValue = expressionString[1 : len(expressionString)-1]
-	return nil
+	var err error
+	expr.ResultStringValue, err = strconv.Unquote(expressionString)
+	return err
 }
 
 func (expr *Expression) evaluateBinaryLiteral() error {
-- 
2.43.0


From 74d1781bb65f50e8b54d251620dabfeb257194bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 22/60] fix: report errors in constants and enum items that an
 expression refers to

---
 internal/ast/expression.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index b16b698..5c2efd5 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -183,13 +183,22 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		if err := constSymbol.ValueExpression.Evaluate(scope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		if enumItem.Expression == nil {
+			// the value of the item follows from the preceding items
+			if err := enumItem.enum.Evaluate(scope); err != nil {
+				return err
+			}
+		} else if err := enumItem.Evaluate(scope); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
-- 
2.43.0


From a9dc9ed9ab322d2a3a338ad78c2177304ba19fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 23/60] fix: evaluate enum items and bitmask values without
 explicit value on first use

---
 internal/ast/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 5c2efd5..9be585a 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -397,7 +397,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
+					if enumItem.Expression == nil || enumItem.EvaluationState != EvaluationStateComplete {
 						if err := enum.Evaluate(scope); err != nil {
 							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 						}
@@ -411,6 +411,11 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					if bitmaskValue.Expression == nil || bitmaskValue.EvaluationState != EvaluationStateComplete {
+						if err := bitmask.Evaluate(scope); err != nil {
+							return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+						}
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
 					return nil
-- 
2.43.0


From f4171a073735f03261c1e9b518490044d31c92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 24/60] fix: use the value of enum items and bitmask values in
 constant expressions

---
 internal/ast/bitmask.go          | 2 ++
 internal/ast/enum.go             | 2 ++
 internal/ast/expression.go       | 2 ++
 internal/generator/expression.go | 3 ++-
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..882c55f 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -28,6 +28,7 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  1, // bitmasks start with 1
+					FullyResolved:   true,
 				}
 			} else {
 				if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
@@ -37,6 +38,7 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  findNextFreeBit(bitmask.Values[ix-1].ResultIntValue),
+					FullyResolved:   bitmask.Values[ix-1].FullyResolved,
 				}
 			}
 		} else {
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..0f5910d 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -36,6 +36,7 @@ func (e *Enum) Evaluate(scope *Package) error {
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  0,
+					FullyResolved:   true,
 				}
 			} else {
 				if e.Items[ix-1].ResultType != ExpressionTypeInteger {
@@ -45,6 +46,7 @@ func (e *Enum) Evaluate(scope *Package) error {
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  e.Items[ix-1].ResultIntValue + 1,
+					FullyResolved:   e.Items[ix-1].FullyResolved,
 				}
 			}
 		} else {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 9be585a..f8e2cb7 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -403,6 +403,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 						}
 					}
 					copyExpressionResult(enumItem.Expression, expr)
+					expr.FullyResolved = enumItem.FullyResolved
 					return nil
 				}
 			}
@@ -418,6 +419,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
+					expr.FullyResolved = bitmaskValue.FullyResolved
 					return nil
 				}
 			}
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..454fdcb 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -327,7 +327,8 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 }
 
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-	if expression.FullyResolved {
+	// Enum items and bitmask values are constants, but keep their name.
+	if expression.FullyResolved && expression.Type != parser.ZserioParserDOT && expression.ResultType != ast.ExpressionTypeBitmask {
 		switch expression.ResultType {
 		case ast.ExpressionTypeInteger:
 			return fmt.Sprintf("%v", expression.ResultIntValue)
-- 
2.43.0


From 91d48efb20ad51244597a050584478a6b65b8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 25/60] fix: print float constants without loss of precision

---
 internal/generator/expression.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 454fdcb..64108b5 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -326,6 +327,16 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 	return ExpressionToGoString(scope, expression.Operand1)
 }
 
+// floatToGoString prints a float constant such that it has exactly the same
+// value in Go, and is not mistaken for an integer constant.
+func floatToGoString(value float64) string {
+	str := strconv.FormatFloat(value, 'g', -1, 64)
+	if !strings.ContainsAny(str, ".eIN") {
+		str += ".0"
+	}
+	return str
+}
+
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	// Enum items and bitmask values are constants, but keep their name.
 	if expression.FullyResolved && expression.Type != parser.ZserioParserDOT && expression.ResultType != ast.ExpressionTypeBitmask {
@@ -337,7 +348,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			return floatToGoString(expression.ResultFloatValue)
 		default:
 			return "UNSUPPORTED_TYPE"
 		}
-- 
2.43.0


From 4c63f345d4d56854700f34047ecca5cf9c006e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 26/60] fix: keep the zserio operator precedence in generated
 Go expressions

---
 internal/generator/expression.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 64108b5..4e7c6bc 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -158,8 +158,8 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		operator = "!="
 	}
 
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	operand2Str := ExpressionToGoString(scope, expression.Operand2)
+	operand1Str := operandToGoString(scope, expression.Operand1)
+	operand2Str := operandToGoString(scope, expression.Operand2)
 
 	// Check if casting is needed because of different original types.
 	// Casting is needed in the following cases:
@@ -273,7 +273,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserLOGICAL_OR:
 		operator = "||"
 	}
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
+	operand1Str := operandToGoString(scope, expression.Operand1)
 	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
 		// Resolve issue
 		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
@@ -289,7 +289,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
-		ExpressionToGoString(scope, expression.Operand2))
+		operandToGoString(scope, expression.Operand2))
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -312,8 +312,28 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 	)
 }
 
+// operandToGoString prints an operand of an operator. Go's operator precedence
+// differs from the one of zserio, so that nested operators need parentheses.
+func operandToGoString(scope ast.Scope, expression *ast.Expression) string {
+	str := ExpressionToGoString(scope, expression)
+	if expression.FullyResolved {
+		return str
+	}
+	switch expression.Type {
+	case parser.ZserioParserISSET, parser.ZserioParserPLUS, parser.ZserioParserMINUS,
+		parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
+		parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT,
+		parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR,
+		parser.ZserioParserLOGICAL_AND, parser.ZserioParserLOGICAL_OR,
+		parser.ZserioParserLT, parser.ZserioParserLE, parser.ZserioParserGT, parser.ZserioParserGE,
+		parser.ZserioParserEQ, parser.ZserioParserNE:
+		return fmt.Sprintf("(%s)", str)
+	}
+	return str
+}
+
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	return fmt.Sprintf("%s & %s != 0", operandToGoString(scope, expression.Operand1), operandToGoString(scope, expression.Operand2))
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -379,7 +399,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserDIVIDE:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserBANG: // the ! (negation operator)
-		return fmt.Sprintf("!%s", ExpressionToGoString(scope, expression.Operand1))
+		return fmt.Sprintf("!%s", operandToGoString(scope, expression.Operand1))
 	case parser.ZserioParserMODULO:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioLexerLSHIFT:
-- 
2.43.0


From 2a1ebfdbe20537b5eec25adcccac4188d2f1f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 27/60] fix: generate unary arithmetic and bitwise negation of
 variables

---
 internal/generator/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 4e7c6bc..14f4d6d 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -391,9 +391,17 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserNUMBITS:
 		return numBitsOperatorToGoString(scope, expression)
 	case parser.ZserioParserPLUS:
+		if expression.Operand2 == nil {
+			return fmt.Sprintf("+%s", operandToGoString(scope, expression.Operand1))
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMINUS:
+		if expression.Operand2 == nil {
+			return fmt.Sprintf("-%s", operandToGoString(scope, expression.Operand1))
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
+	case parser.ZserioParserTILDE:
+		return fmt.Sprintf("^%s", operandToGoString(scope, expression.Operand1))
 	case parser.ZserioParserMULTIPLY:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserDIVIDE:
-- 
2.43.0


From 034bdc49dcade8a3d9515a580b6a26ea7fb5eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 28/60] fix: a maximum path length of 0 means no limit

---
 internal/generator/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..51ed189 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -139,7 +139,7 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		uniquePaths = make(map[string]int)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
-- 
2.43.0


From c80d6cf6797ed96a9afc7bc4d3db8c595a0366ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 29/60] fix: output paths with an index are unique and within
 the maximum length

---
 internal/generator/gen.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 51ed189..0c6f3ae 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -155,13 +155,23 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		}
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
+	// Append an index until the path is not used by any other file, be it with
+	// or without index.
+	uniqueFile := outputFile
+	for uniquePaths[uniqueFile] != 0 {
+		index := fmt.Sprintf("_%d", uniquePaths[outputFile])
 		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+		base := outputFile
+		if maxLength := maxPathLength - len(index) - len(FileSuffix); maxPathLength > 0 && len(base) > maxLength {
+			if maxLength <= strings.LastIndex(base, "/")+1 {
+				return "", fmt.Errorf("maximum path length %d is too short for a unique path of %q", maxPathLength, fn)
+			}
+			base = base[:maxLength]
+		}
+		uniqueFile = base + index
 	}
+	uniquePaths[uniqueFile] = 1
+	return uniqueFile + FileSuffix, nil
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
-- 
2.43.0


From ae04869537cb60403bf782df087109c77f9f63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 30/60] fix: mixing varsize with another integer type keeps 64
 bits

---
 internal/ast/mixing_native_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/mixing_native_types.go b/internal/ast/mixing_native_types.go
index f6aae16..7628376 100644
--- a/internal/ast/mixing_native_types.go
+++ b/internal/ast/mixing_native_types.go
@@ -18,7 +18,7 @@ var zserioIntegerTypeRank = map[string]int{
 	"varint32":  29,
 	"varint64":  57,
 	"varuint":   64,
-	"varsize":   31,
+	"varsize":   64, // stored in an uint64
 	"varuint16": 15,
 	"varuint32": 29,
 	"varuint64": 64,
-- 
2.43.0


From 4db4b8ccb1aa15d55645cddb49482b2b9bb1395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 31/60] fix: the sum of an integer and a float literal is a
 float64

---
 internal/ast/mixing_native_types.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/ast/mixing_native_types.go b/internal/ast/mixing_native_types.go
index 7628376..a76c470 100644
--- a/internal/ast/mixing_native_types.go
+++ b/internal/ast/mixing_native_types.go
@@ -85,12 +85,17 @@ func evaluateMixingFloatTypes(type1 *TypeReference, type2 *TypeReference) (*Type
 	}
 	// Note that the types may be nil - this is the case for hard-coded numerals,
 	// e.g. "17.5". It is not clear if their type is float16, float32 or float64.
-	// Their type needs to be deduced from the other operand, if set.
-	if type1 == nil {
-		return type2, nil
-	}
-	if type2 == nil {
-		return type1, nil
+	// Their type needs to be deduced from the other operand, if set. If that is
+	// an integer, the literal is a float64.
+	if type1 == nil || type2 == nil {
+		other := type1
+		if other == nil {
+			other = type2
+		}
+		if _, err := getIntegerTypeRank(other); err == nil {
+			return &TypeReference{IsBuiltin: true, Name: "float64"}, nil
+		}
+		return other, nil
 	}
 
 	// When mixing two float types, pick the larger one as the result.
-- 
2.43.0


From 8bee654963fabdc5e38d04bb30d534ac2e606774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 32/60] fix: align optional fields after their presence bit

---
 internal/generator/templates/bitsizeof.go.tmpl       |  8 ++++----
 internal/generator/templates/decode.go.tmpl          | 12 ++++++------
 internal/generator/templates/encode.go.tmpl          | 10 +++++-----
 .../templates/packing_context_bitsize.go.tmpl        |  8 ++++----
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..b9f8960 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -19,15 +19,15 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
-
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $name "field" $field "native" $native }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..8c925df 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -24,12 +24,6 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err = r.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
-
 {{- $assign_str_lvalue := printf "v.%s" $field.Name }}
 {{- $assign_str_rvalue := $field_name }}
 {{- if $field.IsOptional}}
@@ -46,6 +40,12 @@
     {{- $assign_str_rvalue = "value" }}
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    if _, err = r.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
+
 {{- if and (not $native.IsMarshaler) (not $field.Array) }}
     {{- if or (gt $native.Type.Bits 0) $native.Type.LengthExpression }}
     if tempValue, err := ztype.Read{{if eq $native.Type.Name "int"}}Signed{{else}}Unsigned{{end}}Bits(r, {{ $bit_size }}); err == nil {
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..0d74323 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -24,17 +24,17 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err := w.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
 {{- if $field.IsOptional}}
     if err = ztype.WriteBool(w, v.{{ $field.Name }} != nil); err != nil {
         return err
     }
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    if _, err := w.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..c910d7c 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,15 +18,15 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
-
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
-- 
2.43.0


From ec32b73b38e0821e10ee26f20359fbc9b4092e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 33/60] fix: choices select by the whole selector expression
 and all labels of a case

---
 internal/generator/funcs.go                 |  9 ++++++
 internal/generator/templates.go             |  1 +
 internal/generator/templates/choice.go.tmpl | 32 ++++++++++-----------
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index e33110e..ca7ee4c 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -65,6 +65,15 @@ func GoExpression(scope ast.Scope, expression *ast.Expression) string {
 	return ExpressionToGoString(scope, expression)
 }
 
+// GoChoiceLabels lists the labels of a choice case.
+func GoChoiceLabels(scope ast.Scope, conditions []*ast.ChoiceCaseExpression) string {
+	labels := make([]string, 0, len(conditions))
+	for _, condition := range conditions {
+		labels = append(labels, ExpressionToGoString(scope, condition.Condition))
+	}
+	return strings.Join(labels, ", ")
+}
+
 func GoNativeType(pkg *ast.Package, typ *ast.TypeReference) (*ast.OriginalTypeReference, error) {
 	return pkg.GetOriginalType(typ)
 }
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 0d70aae..b3a9667 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -22,6 +22,7 @@ func init() {
 		"getTypeParameter":  GetTypeParameter,
 		"goPackageAlias":    GoPackageAlias,
 		"goExpression":      GoExpression,
+		"goChoiceLabels":    GoChoiceLabels,
 		"goArrayTraits":     GoArrayTraits,
 		"goNativeType":      GoNativeType,
 		"add":               Add,
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..98fa1c9 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -36,16 +36,16 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceLabels $scope .Conditions }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
 {{- if $choice.DefaultCase }}
-  {{- if $choice.DefaultCase.Field }}
   default:
+  {{- if $choice.DefaultCase.Field }}
    {{- template "encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
 {{- end }}
@@ -57,16 +57,16 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceLabels $scope .Conditions }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
 {{- if $choice.DefaultCase }}
-  {{- if $choice.DefaultCase.Field }}
   default:
+  {{- if $choice.DefaultCase.Field }}
    {{- template "decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
 {{- end }}
@@ -78,10 +78,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceLabels $scope .Conditions }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
@@ -109,11 +109,11 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 {{- if $choice.Cases }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $scope .Conditions }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -132,11 +132,11 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $scope .Conditions }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -156,11 +156,11 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $scope .Conditions }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -184,11 +184,11 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
 {{- if $choice.Cases }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $scope .Conditions }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-- 
2.43.0


From 6e301112547358312908129f64ef0a489f577852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 34/60] fix: constants can be labels of choice cases

---
 internal/ast/choice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..cc0b5dc 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -50,6 +50,11 @@ func (choice *Choice) BuildScope(p *Package) error {
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
 func (choice *Choice) fullySpecifyChoiceConditions() error {
+	if choice.SelectorExpression.ResultType != ExpressionTypeEnum &&
+		choice.SelectorExpression.ResultType != ExpressionTypeBitmask {
+		// the text is the name of a constant
+		return nil
+	}
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 			// in case the choice case is just a text string, replace that
-- 
2.43.0


From 765d72d3d4b8e76536353fbc454e4b1546afea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 35/60] fix: initialise the packing context of the default
 member of a choice

---
 internal/generator/templates/choice.go.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 98fa1c9..c44a198 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -120,7 +120,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
-- 
2.43.0


From db5d87fbe8d818d46eab8019cf7b19f27dacd8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 36/60] fix: generate the functions of choices

---
 internal/ast/choice.go                      | 20 +++++++++++++++++---
 internal/generator/templates/choice.go.tmpl |  2 ++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index cc0b5dc..385b7e8 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,6 +43,12 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
@@ -122,8 +128,16 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
+	}
+	return nil
 }
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index c44a198..8a7cdc9 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -75,6 +75,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   return nil
 }
 
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
+
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-- 
2.43.0


From afa6906c07bd7d533eb7664f1142ea1abb135b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 37/60] fix: evaluate the members of a union in its own scope

---
 internal/ast/union.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..07cdcb9 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,7 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
-- 
2.43.0


From f67936a0c1c99b7b59218eac868be924a4268bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 38/60] fix: the tag of a union is the index of its field

---
 internal/generator/templates/union.go.tmpl | 34 +++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..63707dd 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -31,12 +31,32 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
   return nil
 }
 
+// zserioChoiceTag returns the tag of the field that is selected.
+func (v *{{ $union.Name}}) zserioChoiceTag() (uint64, error) {
+  if v.UnionChoice < 1 || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("union {{ $union.Name }} has no field for choice %d", v.UnionChoice)
+  }
+  return uint64(v.UnionChoice) - 1, nil
+}
+
+// setZserioChoiceTag selects the field with the given tag.
+func (v *{{ $union.Name}}) setZserioChoiceTag(tag uint64) error {
+  if tag >= {{ len $union.Fields }} {
+    return fmt.Errorf("union {{ $union.Name }} has no field for tag %d", tag)
+  }
+  v.UnionChoice = {{ $union.Name }}UnionChoiceType(tag + 1)
+  return nil
+}
+
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
-  err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
+  tag, err := v.zserioChoiceTag()
   if err != nil {
     return err
   }
+  if err = ztype.WriteVarsize(w, tag); err != nil {
+    return err
+  }
 {{- range $field := $union.Fields }}
   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
 {{template "encode.go.tmpl" dict "pkg" $scope "field" $field }}
@@ -47,11 +67,13 @@ func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
 
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
-    unionChoice, err := ztype.ReadVarsize(r)
+    tag, err := ztype.ReadVarsize(r)
     if err != nil {
        return err
     }
-    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if err = v.setZserioChoiceTag(tag); err != nil {
+       return err
+    }
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
@@ -66,7 +88,11 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice), 5); err != nil {
+  tag, err := v.zserioChoiceTag()
+  if err != nil {
+    return 0, err
+  }
+  if delta, err := ztype.UnsignedBitSize(tag, 5); err != nil {
     return 0, err
   } else {
     endBitPosition += delta
-- 
2.43.0


From f463d11c3ee80a7a658ba81415227a5b223c5e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 39/60] fix: unions can be packed

---
 internal/generator/templates/union.go.tmpl | 72 +++++++++++++++++++---
 1 file changed, 65 insertions(+), 7 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 63707dd..a2649dc 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -107,6 +107,8 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  // the first child is the context of the choice tag
+  contextNode.AddChild(&zserio.PackingContextNode{Context: &ztype.DeltaContext[uint64]{}})
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -115,20 +117,58 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
-    _ = childrenNodes // to avoid "declared but not used" warning
+    tag, err := v.zserioChoiceTag()
+    if err != nil {
+      return err
+    }
+    if tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64]); !ok {
+      return errors.New("unknown context type")
+    } else {
+      tagContext.Init(ztype.ArrayTraits.VarSize, tag)
+    }
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+    }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-  return nil
+    childrenNodes := contextNode.GetChildren()
+    var err error
+    if tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64]); !ok {
+      return errors.New("unknown context type")
+    } else if tag, err := tagContext.Read(ztype.ArrayTraits.VarSize, r); err != nil {
+      return err
+    } else if err = v.setZserioChoiceTag(tag); err != nil {
+      return err
+    }
+{{- range $index, $field := $union.Fields }}
+    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+    }
+{{- end}}
+    return err
 }
 
-
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
-  return nil
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+    childrenNodes := contextNode.GetChildren()
+    tag, err := v.zserioChoiceTag()
+    if err != nil {
+      return err
+    }
+    if tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64]); !ok {
+      return errors.New("unknown context type")
+    } else if err = tagContext.Write(ztype.ArrayTraits.VarSize, w, tag); err != nil {
+      return err
+    }
+{{- range $index, $field := $union.Fields }}
+    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+    }
+{{- end}}
+    return nil
 }
 
 func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.PackingContextNode, bitPosition int) int {
@@ -136,5 +176,23 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  endBitPosition := bitPosition
+  childrenNodes := contextNode.GetChildren()
+  tag, err := v.zserioChoiceTag()
+  if err != nil {
+    return 0, err
+  }
+  if tagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64]); !ok {
+    return 0, errors.New("invalid packing context")
+  } else if delta, err := tagContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, tag); err != nil {
+    return 0, err
+  } else {
+    endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 251a226407d356e7480afeb6851b75f4c65fdc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 40/60] fix: the size of an array of builtin elements includes
 its elements

---
 internal/generator/templates/bitsizeof.go.tmpl               | 2 ++
 internal/generator/templates/packing_context_bitsize.go.tmpl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index b9f8960..99d1ea4 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,6 +41,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index c910d7c..3bdd7c2 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -43,6 +43,8 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
         if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
-- 
2.43.0


From 3e23b740f25b5a1fe3e291e26428d7f23942a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 41/60] fix: the packed size of an absent field is zero

---
 .../generator/templates/packing_context_bitsize.go.tmpl     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 3bdd7c2..b0d0914 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,6 +18,9 @@
     {{- end }}
 {{- end }}
 
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
+{{- end }}
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
@@ -81,3 +84,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
-- 
2.43.0


From 48af4f93a4cfcd267bd9a52b748e42eefdbdb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 42/60] fix: the size of a packed array is its packed size

---
 internal/generator/templates/builtin_bitsizeof.go.tmpl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index d45c3ca..ea4b79e 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -45,10 +45,16 @@
     {{- end }}
 {{- else }}
     {{- $traits := goArrayTraits $scope $native.Type }}
+    {{- $size_method := "ZserioBitSize" }}
+    {{- if $isarray }}
+        {{- if $isarray.IsPacked }}
+            {{- $size_method = "ZserioBitSizePacked" }}
+        {{- end }}
+    {{- end }}
     {{- if and ( $isarray ) ( eq $traits "ztype.ObjectArrayTraits" )}}
-        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
+        if delta, err := {{ $name }}ArrayProperties.{{ $size_method }}({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
     {{- else }}
-        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize(endBitPosition); err != nil {
+        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.{{ $size_method }}(endBitPosition); err != nil {
     {{- end }}
             return 0, err
         } else {
-- 
2.43.0


From 70047e59ba1e0d36603e4ae435927afe30caf925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 43/60] fix: enums can be of variable size types

---
 internal/generator/templates/enum.go.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index d2dcd9b..3cacc1b 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -151,7 +151,7 @@ func (v *{{ $enum.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" "*v" "native" $native "isarray" false "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" (printf "%s(*v)" (goType $scope $native.Type)) "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From b096b2b67b567a09d07c45bac5c14e1cabe7b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 44/60] fix: the width of a bitmask is the width of its native
 type

---
 internal/generator/templates/bitmask.go.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index e41159f..5182b4f 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -27,9 +27,9 @@ func (v *{{ $bitmask.Name}}) MarshalZserio(w zserio.Writer) error {
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
     {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
-      return ztype.WriteSignedBits(w, int64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
       panic("unsupported type")
     {{- end }}
-- 
2.43.0


From 9f87b479d0cdb2885c97919c982853e0ed2880ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 45/60] fix: instantiations with different template arguments
 have different names

---
 internal/model/transform.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..204568a 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,6 +3,7 @@ package model
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -540,7 +541,11 @@ func (m *Model) instantiateChoice(
 func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
 	name := []string{strings.Title(tr.Name)}
 	for _, ta := range templateArguments {
-		name = append(name, strings.Title(ta.Name))
+		argument := generateInstantiatedName(ta, ta.TemplateArguments)
+		if ta.Bits != 0 {
+			argument += strconv.Itoa(ta.Bits)
+		}
+		name = append(name, argument)
 	}
 	return strings.Join(name, "")
 }
-- 
2.43.0


From 9ae332f48c01807e3589250b7b8270af97fe0f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 46/60] fix: fields of a template have their own type arguments

---
 internal/model/transform.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 204568a..a940365 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -338,7 +338,8 @@ func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templa
 	}
 	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
 		// the field a template itself
-		fieldCopy.Type = tt
+		typeCopy := *tt
+		fieldCopy.Type = &typeCopy
 		//  If the template has type arguments, these arguments need to
 		// be applied also to the instantiated type.
 		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-- 
2.43.0


From 982705380abb96363d5af92a710ef81e1ed689e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 47/60] fix: substitute the template parameters in nested
 template arguments

---
 internal/model/transform.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index a940365..ff33fa9 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -309,6 +309,23 @@ func (m *Model) InstantiateTemplates() error {
 	return nil
 }
 
+// substituteTemplateArguments replaces template parameters in template arguments
+// (and the template arguments of these) with the types they are instantiated with.
+func substituteTemplateArguments(arguments []*ast.TypeReference, templateTypes map[string]*ast.TypeReference) []*ast.TypeReference {
+	substituted := make([]*ast.TypeReference, len(arguments))
+	for ix, argument := range arguments {
+		substituted[ix] = argument
+		if passedTemplateArgument, found := templateTypes[argument.Name]; found {
+			substituted[ix] = passedTemplateArgument
+		} else if len(argument.TemplateArguments) > 0 {
+			argumentCopy := *argument
+			argumentCopy.TemplateArguments = substituteTemplateArguments(argument.TemplateArguments, templateTypes)
+			substituted[ix] = &argumentCopy
+		}
+	}
+	return substituted
+}
+
 func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
 	fieldCopy := *field
 	if len(field.Type.TemplateArguments) > 0 {
@@ -322,12 +339,7 @@ func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templa
 		//    foo<int, C> field1;
 		//    bar<B, A> field2;
 		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
-			}
-		}
+		newTemplateParameters := substituteTemplateArguments(field.Type.TemplateArguments, templateTypes)
 
 		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
 		if err != nil {
-- 
2.43.0


From 1b828d282a2c756765f0f5ca90b4646a36444b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 48/60] fix: instantiate the templates in fields of unions

---
 internal/model/transform.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index ff33fa9..aa93172 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -259,6 +259,32 @@ func (m *Model) InstantiateTemplates() error {
 			}
 		}
 
+		// instantiate all unions that have template fields
+		for _, union := range pkg.Unions {
+			// don't instantiate template unions
+			if len(union.TemplateParameters) > 0 {
+				continue
+			}
+			for _, field := range union.Fields {
+				if field.Type, err = m.instantiateType(
+					pkg,
+					field.Type,
+					field.Type.TemplateArguments,
+					""); // auto-generate a new name
+				err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: field.Name,
+						Err:   err,
+					}
+				}
+			}
+		}
+
 		// instantiate all choices that have template fields
 		for _, choice := range pkg.Choices {
 			// don't instantiate template choices
-- 
2.43.0


From adc6d01123486bb0c6fe001aae2ca0c26b93c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 49/60] fix: resolve the types of default members and functions
 of choices and unions

---
 internal/model/transform.go | 45 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index aa93172..2c4a4e4 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -112,6 +112,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
@@ -748,7 +749,11 @@ func (m *Model) ResolveTypes() error {
 				}
 			}
 
-			for _, choiceCase := range choice.Cases {
+			choiceCases := append([]*ast.ChoiceCase{}, choice.Cases...)
+			if choice.DefaultCase != nil {
+				choiceCases = append(choiceCases, choice.DefaultCase)
+			}
+			for _, choiceCase := range choiceCases {
 				if choiceCase.Field == nil {
 					continue
 				}
@@ -769,6 +774,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, functions := range choice.Functions {
+				if functions.ReturnType.Package == "" && templateParams[functions.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, functions.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: functions.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
@@ -814,6 +838,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, functions := range union.Functions {
+				if functions.ReturnType.Package == "" && templateParams[functions.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, functions.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: functions.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
-- 
2.43.0


From 20199599563124004db797dba2d873739dde9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 50/60] fix: every instantiation of a template has its own
 expressions

---
 internal/ast/expression.go     | 12 +++++++++
 internal/ast/field.go          | 16 +++++++++++
 internal/ast/type_reference.go | 15 +++++++++++
 internal/model/transform.go    | 49 +++++++++++++++++++++++-----------
 4 files changed, 76 insertions(+), 16 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index f8e2cb7..d09b807 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -85,6 +85,18 @@ type Expression struct {
 	FullyResolved bool
 }
 
+// Copy creates a deep copy of an expression.
+func (expr *Expression) Copy() *Expression {
+	if expr == nil {
+		return nil
+	}
+	expressionCopy := *expr
+	expressionCopy.Operand1 = expr.Operand1.Copy()
+	expressionCopy.Operand2 = expr.Operand2.Copy()
+	expressionCopy.Operand3 = expr.Operand3.Copy()
+	return &expressionCopy
+}
+
 func copyExpressionResult(src, dst *Expression) {
 	dst.ResultBoolValue = src.ResultBoolValue
 	dst.ResultIntValue = src.ResultIntValue
diff --git a/internal/ast/field.go b/internal/ast/field.go
index 75239da..55ffd5f 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -29,6 +29,22 @@ type Field struct {
 	Array *Array
 }
 
+// Copy creates a deep copy of a field.
+func (f *Field) Copy() *Field {
+	fieldCopy := *f
+	fieldCopy.Type = f.Type.Copy()
+	fieldCopy.Initializer = f.Initializer.Copy()
+	fieldCopy.Constraint = f.Constraint.Copy()
+	fieldCopy.OptionalClause = f.OptionalClause.Copy()
+	if f.Array != nil {
+		fieldCopy.Array = &Array{
+			IsPacked: f.Array.IsPacked,
+			Length:   f.Array.Length.Copy(),
+		}
+	}
+	return &fieldCopy
+}
+
 func (f *Field) Evaluate(p *Package) error {
 	if err := f.Type.Evaluate(p); err != nil {
 		return err
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index ebc243b..8385599 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -18,6 +18,21 @@ type TypeReference struct {
 	LengthExpression *Expression
 }
 
+// Copy creates a deep copy of a type reference.
+func (tr *TypeReference) Copy() *TypeReference {
+	typeCopy := *tr
+	typeCopy.TemplateArguments = nil
+	for _, argument := range tr.TemplateArguments {
+		typeCopy.TemplateArguments = append(typeCopy.TemplateArguments, argument.Copy())
+	}
+	typeCopy.TypeArguments = nil
+	for _, argument := range tr.TypeArguments {
+		typeCopy.TypeArguments = append(typeCopy.TypeArguments, argument.Copy())
+	}
+	typeCopy.LengthExpression = tr.LengthExpression.Copy()
+	return &typeCopy
+}
+
 func (tr *TypeReference) Evaluate(p *Package) error {
 	if tr.LengthExpression != nil {
 		if err := tr.LengthExpression.Evaluate(p); err != nil {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 2c4a4e4..acae423 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -354,7 +354,9 @@ func substituteTemplateArguments(arguments []*ast.TypeReference, templateTypes m
 }
 
 func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
+	// every instantiation has its own field, as the expressions in it depend on
+	// the template arguments
+	fieldCopy := field.Copy()
 	if len(field.Type.TemplateArguments) > 0 {
 		// the field itself is a templated compound type, and needs to
 		// be instantiated first.
@@ -366,26 +368,26 @@ func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templa
 		//    foo<int, C> field1;
 		//    bar<B, A> field2;
 		// }
-		newTemplateParameters := substituteTemplateArguments(field.Type.TemplateArguments, templateTypes)
+		newTemplateParameters := substituteTemplateArguments(fieldCopy.Type.TemplateArguments, templateTypes)
 
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
+		tt, err := m.instantiateType(pkgScope, fieldCopy.Type, newTemplateParameters, "")
 		if err != nil {
 			return nil, err
 		}
 		fieldCopy.Type = tt
-		return &fieldCopy, nil
+		return fieldCopy, nil
 	}
 	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
 		// the field a template itself
-		typeCopy := *tt
-		fieldCopy.Type = &typeCopy
+		typeArguments := fieldCopy.Type.TypeArguments
+		fieldCopy.Type = tt.Copy()
 		//  If the template has type arguments, these arguments need to
 		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+		fieldCopy.Type.TypeArguments = typeArguments
+		return fieldCopy, nil
 	}
 	// not templated
-	return field, nil
+	return fieldCopy, nil
 }
 
 func (m *Model) instantiateStruct(
@@ -455,12 +457,17 @@ func (m *Model) instantiateStruct(
 			structure.Functions = append(structure.Functions, &ast.Function{
 				Name:       function.Name,
 				Comment:    function.Comment,
-				Result:     function.Result,
+				Result:     function.Result.Copy(),
 				ReturnType: tt,
 			})
 		} else {
 			// not templated
-			structure.Functions = append(structure.Functions, function)
+			structure.Functions = append(structure.Functions, &ast.Function{
+				Name:       function.Name,
+				Comment:    function.Comment,
+				Result:     function.Result.Copy(),
+				ReturnType: function.ReturnType,
+			})
 		}
 	}
 
@@ -507,14 +514,19 @@ func (m *Model) instantiateChoice(
 	choice := &ast.Choice{
 		Name:               newType.Name,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		SelectorExpression: templChoice.SelectorExpression.Copy(),
 	}
 
 	// resolve the templates for the choices
 	for _, choiceCase := range templChoice.Cases {
 		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
-			Comment:    choiceCase.Comment,
+			Comment: choiceCase.Comment,
+		}
+		for _, condition := range choiceCase.Conditions {
+			newChoiceCase.Conditions = append(newChoiceCase.Conditions, &ast.ChoiceCaseExpression{
+				Condition: condition.Condition.Copy(),
+				Comment:   condition.Comment,
+			})
 		}
 		if choiceCase.Field != nil {
 			newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
@@ -562,12 +574,17 @@ func (m *Model) instantiateChoice(
 			choice.Functions = append(choice.Functions, &ast.Function{
 				Name:       function.Name,
 				Comment:    function.Comment,
-				Result:     function.Result,
+				Result:     function.Result.Copy(),
 				ReturnType: tt,
 			})
 		} else {
 			// not templated
-			choice.Functions = append(choice.Functions, function)
+			choice.Functions = append(choice.Functions, &ast.Function{
+				Name:       function.Name,
+				Comment:    function.Comment,
+				Result:     function.Result.Copy(),
+				ReturnType: function.ReturnType,
+			})
 		}
 	}
 
-- 
2.43.0


From bfba6a2689c09d736563c71f6b4e5adb9a1097b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 51/60] fix: subtypes of builtin types have the type of their
 base in expressions

---
 internal/ast/expression.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index d09b807..3e5279b 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -125,19 +125,19 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 		return "", nil, errors.New("type is not fully resolved")
 	}
 	if originalType.Type.IsBuiltin {
-		switch typeRef.Name {
+		switch originalType.Type.Name {
 		case "bool":
-			return ExpressionTypeBool, typeRef, nil
+			return ExpressionTypeBool, originalType.Type, nil
 		case "string":
-			return ExpressionTypeString, typeRef, nil
+			return ExpressionTypeString, originalType.Type, nil
 		case "float16":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, originalType.Type, nil
 		case "float32":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, originalType.Type, nil
 		case "float64":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, originalType.Type, nil
 		default:
-			return ExpressionTypeInteger, typeRef, nil
+			return ExpressionTypeInteger, originalType.Type, nil
 		}
 	}
 	symbolScope, err := scope.GetImportedScope(typeRef.Package)
-- 
2.43.0


From e18fabbac1dfa4b3f31b7208802c66913748601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 52/60] fix: comparisons of different types compile

---
 internal/generator/expression.go | 54 ++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 14f4d6d..e3a6244 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -127,6 +127,52 @@ func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeRefer
 	}
 }
 
+// operandGoType returns the Go type of an operand, or an empty string if it is
+// an untyped constant, or its type is not known.
+func operandGoType(scope ast.Scope, operand *ast.Expression) string {
+	if operand.FullyResolved {
+		return ""
+	}
+	operandType := operand.NativeZserioType
+	if operand.ResultSymbol != nil {
+		if symbolType, err := getSymbolType(scope, operand.ResultSymbol); err == nil {
+			operandType = symbolType
+		}
+	}
+	if operandType == nil {
+		return ""
+	}
+	goType, err := GoType(scope, operandType)
+	if err != nil {
+		return ""
+	}
+	return goType
+}
+
+// comparisonGoType returns the Go type that both operands of a comparison need
+// to be cast to, or an empty string if they can be compared as they are.
+func comparisonGoType(scope ast.Scope, operand1, operand2 *ast.Expression) string {
+	goType1 := operandGoType(scope, operand1)
+	goType2 := operandGoType(scope, operand2)
+	if goType1 == "" || goType2 == "" || goType1 == goType2 || operand1.ResultType != operand2.ResultType {
+		return ""
+	}
+	switch operand1.ResultType {
+	case ast.ExpressionTypeInteger:
+		// only the 64 bit unsigned types have values that are not in an int64
+		for _, nativeType := range []*ast.TypeReference{operand1.NativeZserioType, operand2.NativeZserioType} {
+			switch nativeGoType, _ := GoType(scope, nativeType); nativeGoType {
+			case "uint64", "uint":
+				return "uint64"
+			}
+		}
+		return "int64"
+	case ast.ExpressionTypeFloat:
+		return "float64"
+	}
+	return ""
+}
+
 // twoOperatorEqualTypesToGoString prints out an expression that uses two
 // operands, where the operator expects to be both sides of the same type.
 // since there are many different integer and type to integer types, casting
@@ -161,6 +207,14 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 	operand1Str := operandToGoString(scope, expression.Operand1)
 	operand2Str := operandToGoString(scope, expression.Operand2)
 
+	// Go does not compare different types.
+	if expression.ResultType == ast.ExpressionTypeBool {
+		if goType := comparisonGoType(scope, expression.Operand1, expression.Operand2); goType != "" {
+			operand1Str = fmt.Sprintf("%s(%s)", goType, operand1Str)
+			operand2Str = fmt.Sprintf("%s(%s)", goType, operand2Str)
+		}
+	}
+
 	// Check if casting is needed because of different original types.
 	// Casting is needed in the following cases:
 	// - mixing floats with integers
-- 
2.43.0


From 790a0ad7784e5fedc1f360dca15c97852fe781ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 53/60] fix: bitwise operators on different types compile

---
 internal/ast/expression.go       |  9 +++++++++
 internal/generator/expression.go | 16 +++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 3e5279b..c40a01e 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -786,6 +786,15 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
 	}
 
+	// As in arithmetic expressions, the larger type is used when mixing types.
+	if !isShiftOperation && expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand2.ResultType == ExpressionTypeInteger {
+		var err error
+		_, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand1, expr.Operand2)
+		if err != nil {
+			return err
+		}
+	}
+
 	// If this is a shift operation, and there is no clear type defined,
 	// assume an uint32. This is the case if numerals are used, e.g.
 	// "17 < numShift". In this case, the result type is not determined.
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index e3a6244..873824d 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -339,11 +339,25 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
 	}
+	operand2Str := operandToGoString(scope, expression.Operand2)
+	if !isShiftOperator && expression.ResultType == ast.ExpressionTypeInteger && expression.NativeZserioType != nil {
+		// Go does not combine different types.
+		goType1 := operandGoType(scope, expression.Operand1)
+		goType2 := operandGoType(scope, expression.Operand2)
+		if goType1 != "" && goType2 != "" && goType1 != goType2 {
+			expressionGoType, err := GoType(scope, expression.NativeZserioType)
+			if err != nil {
+				panic(err)
+			}
+			operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
+			operand2Str = fmt.Sprintf("%s(%s)", expressionGoType, operand2Str)
+		}
+	}
 
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
 		operator,
-		operandToGoString(scope, expression.Operand2))
+		operand2Str)
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-- 
2.43.0


From b022f134ac3c7310e707e9f2b91dec1035711c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 54/60] fix: the result of a function call has the declared
 type

---
 internal/ast/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index c40a01e..69fd5e6 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -345,6 +345,11 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
+	// the result is of the declared type, not of the type of the calculation
+	expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(function.ReturnType, functionEvaluationScope)
+	if err != nil {
+		return err
+	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
-- 
2.43.0


From eaaffbdfd97534fc843ec945c17db2badae0622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 55/60] fix: packages of which single types are imported can be
 used

---
 internal/model/transform.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index acae423..1ae2da3 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -646,6 +646,7 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 
 func (m *Model) ResolveImports() error {
 	for _, pkg := range m.Packages {
+		imported := map[string]bool{}
 		for _, imp := range pkg.Imports {
 			iPkg, found := m.Packages[imp.Package]
 			if !found {
@@ -653,6 +654,14 @@ func (m *Model) ResolveImports() error {
 			}
 			if imp.Type == "*" {
 				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
+				imported[imp.Package] = true
+			}
+		}
+		// packages of which only some types are imported come last
+		for _, imp := range pkg.Imports {
+			if !imported[imp.Package] {
+				pkg.ImportedPackages = append(pkg.ImportedPackages, m.Packages[imp.Package])
+				imported[imp.Package] = true
 			}
 		}
 	}
-- 
2.43.0


From a5f7aac86fa3fc640175fe96047bc2442c2e10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 56/60] fix: import of a single type

---
 internal/visitor/visitor.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..681a923 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -114,10 +114,8 @@ func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) a
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
-	if ctx.MULTIPLY() != nil {
-		symbolName = "*"
-	}
+	// the symbol (or "*") is between the last dot and the semicolon
+	symbolName := children[len(children)-2].(antlr.ParseTree).GetText()
 	return &ast.Import{
 		Package: strings.Join(parts[:len(parts)-1], ""),
 		Type:    symbolName,
-- 
2.43.0


From 4ece5d75a621ad1db0864ad2cc4772f5901ad000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 57/60] fix: default values of fields of enum and bitmask types

---
 internal/generator/templates/default_values.go.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..06960da 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -12,13 +12,13 @@
 {{- end }}
 
 {{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+    {{- if and $native.IsMarshaler (not $field.Initializer) }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
     {{- else if not $field.Array }}
         {{- if $field.Initializer }}
-        {{- $field_name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
+        v.{{ $field.Name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
         {{- end }}
     {{- end }}
 {{- end }}
-- 
2.43.0


From 36a2fa0ccfc92501181b636b26cc67f960fa30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 58/60] fix: valueof has the base type of the enum or bitmask

---
 internal/ast/expression.go       | 29 ++++++++++++++++++++++++++---
 internal/generator/expression.go |  5 +++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 69fd5e6..1302db3 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -223,14 +223,37 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 }
 
 // evaluateValueOfOperator evaluates a value of operator.
-func (expr *Expression) evaluateValueOfOperator() error {
+func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
+	// an enum item, such as <enum>.<value>, has been evaluated to its value
+	isEnumItem := expr.Operand1.Type == parser.ZserioParserDOT && expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand1.FullyResolved
 	if expr.Operand1.ResultType != ExpressionTypeEnum &&
-		expr.Operand1.ResultType != ExpressionTypeBitmask {
+		expr.Operand1.ResultType != ExpressionTypeBitmask && !isEnumItem {
 		return errors.New("valueof operator needs an expression or bitmask type")
 	}
+	if expr.Operand1.ResultSymbol != nil && !expr.FullyResolved {
+		// the value has the type that the enum or bitmask is based on
+		symbol, err := scope.GetOriginalSymbol(expr.Operand1.ResultSymbol)
+		if err != nil {
+			return err
+		}
+		var baseType *TypeReference
+		switch n := symbol.Symbol.(type) {
+		case *Enum:
+			baseType = n.Type
+		case *BitmaskType:
+			baseType = n.Type
+		}
+		if baseType != nil {
+			originalType, err := scope.GetOriginalType(baseType)
+			if err != nil {
+				return err
+			}
+			expr.NativeZserioType = originalType.Type
+		}
+	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
 	return nil
@@ -903,7 +926,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserLENGTHOF:
 		err = expr.evaluateLengthOfOperator(scope)
 	case parser.ZserioParserVALUEOF:
-		err = expr.evaluateValueOfOperator()
+		err = expr.evaluateValueOfOperator(scope)
 	case parser.ZserioParserNUMBITS:
 		err = expr.evaluateNumBitsOperator()
 	case parser.ZserioParserPLUS:
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 873824d..a7a4c68 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -412,6 +412,11 @@ func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
+	if expression.NativeZserioType != nil {
+		if goType, err := GoType(scope, expression.NativeZserioType); err == nil {
+			return fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, expression.Operand1))
+		}
+	}
 	return ExpressionToGoString(scope, expression.Operand1)
 }
 
-- 
2.43.0


From 282e9b05c04f6ee9b156684570d50c55972aecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 59/60] fix: conditional expressions can be used anywhere and
 keep their type

---
 internal/ast/expression.go       | 33 ++++++++++++++++++++++++++++++
 internal/generator/expression.go | 35 ++++++++++++++++++++++++--------
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 1302db3..1144bbf 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -733,11 +733,44 @@ func (expr *Expression) evaluateComparisonExpression() error {
 	return nil
 }
 
+// ternaryResultType returns a type for the values of both operands.
+func ternaryResultType(operand1, operand2 *Expression) (ExpressionType, *TypeReference) {
+	if operand1.ResultType == operand2.ResultType && operand1.NativeZserioType != nil &&
+		compareNativeTypeReferences(operand1.NativeZserioType, operand2.NativeZserioType) {
+		return operand1.ResultType, operand1.NativeZserioType
+	}
+	isNumber := func(operand *Expression) bool {
+		return operand.ResultType == ExpressionTypeInteger || operand.ResultType == ExpressionTypeFloat
+	}
+	if !isNumber(operand1) || !isNumber(operand2) {
+		return operand2.ResultType, operand2.NativeZserioType
+	}
+	if operand1.ResultType == ExpressionTypeFloat || operand2.ResultType == ExpressionTypeFloat {
+		return ExpressionTypeFloat, &TypeReference{IsBuiltin: true, Name: "float64"}
+	}
+	for _, nativeType := range []*TypeReference{operand1.NativeZserioType, operand2.NativeZserioType} {
+		if nativeType == nil {
+			continue
+		}
+		_, isSigned := zserioSignedToUnsigned[nativeType.Name]
+		if rank, err := getIntegerTypeRank(nativeType); err == nil && !isSigned && rank == 64 {
+			return ExpressionTypeInteger, &TypeReference{IsBuiltin: true, Name: "uint64"}
+		}
+	}
+	return ExpressionTypeInteger, &TypeReference{IsBuiltin: true, Name: "int64"}
+}
+
 func (expr *Expression) evaluateTernaryExpression() error {
 	if expr.Operand1.ResultType != ExpressionTypeBool {
 		return errors.New("ternary expression operand 1 must be a boolean expression")
 	}
 
+	if !expr.FullyResolved {
+		// either operand can be the result
+		expr.ResultType, expr.NativeZserioType = ternaryResultType(expr.Operand2, expr.Operand3)
+		return nil
+	}
+
 	if expr.Operand1.ResultBoolValue {
 		expr.ResultType = expr.Operand2.ResultType
 		expr.ResultIntValue = expr.Operand2.ResultIntValue
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index a7a4c68..2a43523 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -364,19 +364,36 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 	op1 := ExpressionToGoString(scope, expression.Operand1)
 	op2 := ExpressionToGoString(scope, expression.Operand2)
 	op3 := ExpressionToGoString(scope, expression.Operand3)
-	if expression.ResultType == ast.ExpressionTypeInteger {
-		// in case the expression is a subtype of int (such as uint16), cast to
-		// integer to avoid type cast errors
-		typeCast := "int"
-		op3 = fmt.Sprintf("%s(%s)", typeCast, op3)
-		op2 = fmt.Sprintf("%s(%s)", typeCast, op2)
+	goType := ""
+	if expression.NativeZserioType != nil {
+		// cast subtypes and mixed types to the type of the result
+		var err error
+		if goType, err = GoType(scope, expression.NativeZserioType); err != nil {
+			return "UNSUPPORTED_TYPE"
+		}
+		op3 = fmt.Sprintf("%s(%s)", goType, op3)
+		op2 = fmt.Sprintf("%s(%s)", goType, op2)
+	} else {
+		switch expression.ResultType {
+		case ast.ExpressionTypeBool:
+			goType = "bool"
+		case ast.ExpressionTypeString:
+			goType = "string"
+		default:
+			for _, operand := range []*ast.Expression{expression.Operand2, expression.Operand3} {
+				if goType == "" {
+					goType = operandGoType(scope, operand)
+				}
+			}
+		}
 	}
 	// Ternary expressions are not supported by Go. As a workaround,
-	// generate the ternary expression as an if/else
-	return fmt.Sprintf("%s\nif %s {\nretVal = %s\n}\n",
-		op3,
+	// generate the ternary expression as a function.
+	return fmt.Sprintf("func() %s {\nif %s {\nreturn %s\n}\nreturn %s\n}()",
+		goType,
 		op1,
 		op2,
+		op3,
 	)
 }
 
-- 
2.43.0


From ef6a92dbe12ee440e354a22cd26f2df55280e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 60/60] fix: integer constants beyond the range of the other
 operand's type

---
 internal/ast/mixing_native_types.go | 25 +++++++++++++++++++++++++
 internal/generator/expression.go    | 24 +++++++++++++++++++-----
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/internal/ast/mixing_native_types.go b/internal/ast/mixing_native_types.go
index a76c470..2750883 100644
--- a/internal/ast/mixing_native_types.go
+++ b/internal/ast/mixing_native_types.go
@@ -60,9 +60,34 @@ func DetermineArithmeticOperationResultType(operand1 *Expression, operand2 *Expr
 	}
 
 	resultType, err := evaluateMixingIntegerTypes(operand1.NativeZserioType, operand2.NativeZserioType)
+	if err == nil && (!IntegerConstantFits(operand1, resultType) || !IntegerConstantFits(operand2, resultType)) {
+		resultType = &TypeReference{IsBuiltin: true, Name: "int64"}
+	}
 	return ExpressionTypeInteger, resultType, err
 }
 
+// IntegerConstantFits returns false if an expression is a constant that the Go
+// type of an integer type can not represent.
+func IntegerConstantFits(expr *Expression, integerType *TypeReference) bool {
+	if !expr.FullyResolved || expr.ResultType != ExpressionTypeInteger || integerType == nil {
+		return true
+	}
+	rank, err := getIntegerTypeRank(integerType)
+	if err != nil {
+		return true
+	}
+	// the smallest Go type of that rank
+	numBits := 8
+	for numBits < rank {
+		numBits *= 2
+	}
+	_, isSigned := zserioSignedToUnsigned[integerType.Name]
+	if isSigned {
+		return expr.ResultIntValue>>(numBits-1) == expr.ResultIntValue>>63
+	}
+	return expr.ResultIntValue >= 0 && (numBits >= 64 || expr.ResultIntValue>>numBits == 0)
+}
+
 // compareNativeTypeReferences compares two native type references.
 // The type references can be nil, in which case the evaluation returns true if
 // both type references are nil.
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 2a43523..adb5dfc 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -154,6 +154,17 @@ func operandGoType(scope ast.Scope, operand *ast.Expression) string {
 func comparisonGoType(scope ast.Scope, operand1, operand2 *ast.Expression) string {
 	goType1 := operandGoType(scope, operand1)
 	goType2 := operandGoType(scope, operand2)
+	if operand1.ResultType == ast.ExpressionTypeInteger && operand2.ResultType == ast.ExpressionTypeInteger {
+		// a constant that the other type can not represent
+		for _, operands := range [][2]*ast.Expression{{operand1, operand2}, {operand2, operand1}} {
+			if ast.IntegerConstantFits(operands[0], operands[1].NativeZserioType) {
+				continue
+			}
+			if nativeGoType, err := GoType(scope, operands[1].NativeZserioType); err == nil && nativeGoType != "uint64" && nativeGoType != "uint" {
+				return "int64"
+			}
+		}
+	}
 	if goType1 == "" || goType2 == "" || goType1 == goType2 || operand1.ResultType != operand2.ResultType {
 		return ""
 	}
@@ -344,11 +355,14 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		// Go does not combine different types.
 		goType1 := operandGoType(scope, expression.Operand1)
 		goType2 := operandGoType(scope, expression.Operand2)
-		if goType1 != "" && goType2 != "" && goType1 != goType2 {
-			expressionGoType, err := GoType(scope, expression.NativeZserioType)
-			if err != nil {
-				panic(err)
-			}
+		expressionGoType, err := GoType(scope, expression.NativeZserioType)
+		if err != nil {
+			panic(err)
+		}
+		isMixed := goType1 != "" && goType2 != "" && goType1 != goType2 ||
+			!ast.IntegerConstantFits(expression.Operand1, expression.Operand2.NativeZserioType) ||
+			!ast.IntegerConstantFits(expression.Operand2, expression.Operand1.NativeZserioType)
+		if isMixed {
 			operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
 			operand2Str = fmt.Sprintf("%s(%s)", expressionGoType, operand2Str)
 		}
-- 
2.43.0

