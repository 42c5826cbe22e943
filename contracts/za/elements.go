package za

import (
	"math"

	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
	"golang.org/x/exp/constraints"
)

// elem is the contract of an element kind, which arrays rely on: Write
// succeeds exactly for the values that fit and emits the specified bits, the
// size is their number at every position, Read restores the value.
func elem[T any](traits ztype.IArrayTraits[T], v T, fits bool, spec func(s *cv.S), packable bool) {
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := traits.Write(s.Writer(), v)
	if !fits {
		cv.Ensures(err != nil, "refuses a value that can not be represented")
		cv.Ensures(s.Len() == 0, "writes nothing for a refused value")
		return
	}
	cv.Cover("written")
	cv.Ensures(err == nil, "writes every value that can be represented")
	want := cv.At(pos)
	spec(want)
	cv.Ensures(s.Eq(want), "writes the encoding of the kind")
	size := traits.BitSizeOf(v, int(pos))
	cv.Ensures(uint64(size) == s.Len(), "size is the number of bits written")
	var zero T
	cv.Ensures(!traits.BitSizeOfIsConstant() || traits.BitSizeOf(zero, 0) == size, "a constant size is the size of every element")
	cv.Ensures(traits.InitializeOffsets(int(pos), v) == int(s.Pos()), "offset of the end")
	cv.Ensures((traits.PackedTraits() != nil) == packable, "packable exactly for integers")

	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, rerr := traits.Read(r, cv.Any[int]("index"))
	cv.Ensures(rerr == nil, "reads what was written")
	cv.Ensures(cv.Same(got, v), "reads the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
	if packable {
		u := traits.AsUint64(v)
		cv.Ensures(cv.Same(traits.FromUint64(u), v), "conversion to uint64 and back")
	}
}

// elemFail: the contract of an element kind about errors and arbitrary input.
func elemFail[T any](traits ztype.IArrayTraits[T], v T) {
	w := cv.At(cv.AnyPos("pos")).FailWriter()
	err := traits.Write(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = traits.Read(r, cv.Any[int]("index")) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func varKind[T constraints.Integer](traits ztype.IArrayTraits[T], v T, kind string) {
	elem(traits, v, cv.VarInRange(kind, uint64(v)), func(s *cv.S) { s.Tok(kind, uint64(v)) }, true)
}

// The element kinds of variable-length integers.
//
//gocv:harness prop=C08,C04,C09 use=var,size param=kind:0..8
func HElemVar() {
	switch cv.Param("kind") {
	case 0:
		varKind[int16](ztype.ArrayTraits.VarInt16, cv.Any[int16]("v"), "varint16")
	case 1:
		varKind[int32](ztype.ArrayTraits.VarInt32, cv.Any[int32]("v"), "varint32")
	case 2:
		varKind[int64](ztype.ArrayTraits.VarInt64, cv.Any[int64]("v"), "varint64")
	case 3:
		varKind[int64](ztype.ArrayTraits.VarInt, cv.Any[int64]("v"), "varint")
	case 4:
		varKind[uint16](ztype.ArrayTraits.VarUInt16, cv.Any[uint16]("v"), "varuint16")
	case 5:
		varKind[uint32](ztype.ArrayTraits.VarUInt32, cv.Any[uint32]("v"), "varuint32")
	case 6:
		varKind[uint64](ztype.ArrayTraits.VarUInt64, cv.Any[uint64]("v"), "varuint64")
	case 7:
		varKind[uint64](ztype.ArrayTraits.VarUInt, cv.Any[uint64]("v"), "varuint")
	case 8:
		varKind[uint64](ztype.ArrayTraits.VarSize, cv.Any[uint64]("v"), "varsize")
	}
}

// The element kinds of variable-length integers: errors are reported.
//
//gocv:harness prop=C10,C11,C12 use=var,size param=kind:0..8
func HElemVarFail() {
	switch cv.Param("kind") {
	case 0:
		elemFail[int16](ztype.ArrayTraits.VarInt16, cv.Any[int16]("v"))
	case 1:
		elemFail[int32](ztype.ArrayTraits.VarInt32, cv.Any[int32]("v"))
	case 2:
		elemFail[int64](ztype.ArrayTraits.VarInt64, cv.Any[int64]("v"))
	case 3:
		elemFail[int64](ztype.ArrayTraits.VarInt, cv.Any[int64]("v"))
	case 4:
		elemFail[uint16](ztype.ArrayTraits.VarUInt16, cv.Any[uint16]("v"))
	case 5:
		elemFail[uint32](ztype.ArrayTraits.VarUInt32, cv.Any[uint32]("v"))
	case 6:
		elemFail[uint64](ztype.ArrayTraits.VarUInt64, cv.Any[uint64]("v"))
	case 7:
		elemFail[uint64](ztype.ArrayTraits.VarUInt, cv.Any[uint64]("v"))
	case 8:
		elemFail[uint64](ztype.ArrayTraits.VarSize, cv.Any[uint64]("v"))
	}
}

func fitsUnsigned(v uint64, n int) bool { return n >= 64 || v>>uint(n) == 0 }

func fitsSigned(v int64, n int) bool {
	return n >= 64 || v>>uint(n-1) == 0 || v>>uint(n-1) == -1
}

func bitField[T constraints.Unsigned](n int) {
	v := cv.Any[T]("v")
	elem[T](ztype.GetBitFieldArrayTraits[T](uint8(n)), v, fitsUnsigned(uint64(v), n), func(s *cv.S) { s.Bits(uint64(v), n) }, true)
}

func signedBitField[T constraints.Signed](n int) {
	v := cv.Any[T]("v")
	elem[T](ztype.GetSignedBitFieldArrayTraits[T](uint8(n)), v, fitsSigned(int64(v), n), func(s *cv.S) { s.Bits(uint64(v), n) }, true)
}

// The element kinds of bit fields, for every width and integer type.
//
//gocv:harness prop=C08,C04,C09,C12 param=n:1..64
func HElemBitField() {
	n := cv.Param("n")
	switch cv.Choose("type", 0, 7) {
	case 0:
		bitField[uint8](n)
	case 1:
		bitField[uint16](n)
	case 2:
		bitField[uint32](n)
	case 3:
		bitField[uint64](n)
	case 4:
		signedBitField[int8](n)
	case 5:
		signedBitField[int16](n)
	case 6:
		signedBitField[int32](n)
	case 7:
		signedBitField[int64](n)
	}
}

// The element kinds of bit fields: errors are reported, for every width,
// representable or not.
//
//gocv:harness prop=C10,C11 param=n:0..255
func HElemBitFieldFail() {
	n := uint8(cv.Param("n"))
	switch cv.Choose("type", 0, 3) {
	case 0:
		elemFail[uint16](ztype.GetBitFieldArrayTraits[uint16](n), cv.Any[uint16]("v"))
	case 1:
		elemFail[uint64](ztype.GetBitFieldArrayTraits[uint64](n), cv.Any[uint64]("v"))
	case 2:
		elemFail[int16](ztype.GetSignedBitFieldArrayTraits[int16](n), cv.Any[int16]("v"))
	case 3:
		elemFail[int64](ztype.GetSignedBitFieldArrayTraits[int64](n), cv.Any[int64]("v"))
	}
}

// The element kinds of standard integers.
//
//gocv:harness prop=C08,C04,C09 param=kind:0..7
func HElemInt() {
	switch cv.Param("kind") {
	case 0:
		v := cv.Any[uint8]("v")
		elem[uint8](ztype.ArrayTraits.UInt8, v, true, func(s *cv.S) { s.Bits(uint64(v), 8) }, true)
	case 1:
		v := cv.Any[uint16]("v")
		elem[uint16](ztype.ArrayTraits.UInt16, v, true, func(s *cv.S) { s.Bits(uint64(v), 16) }, true)
	case 2:
		v := cv.Any[uint32]("v")
		elem[uint32](ztype.ArrayTraits.UInt32, v, true, func(s *cv.S) { s.Bits(uint64(v), 32) }, true)
	case 3:
		v := cv.Any[uint64]("v")
		elem[uint64](ztype.ArrayTraits.UInt64, v, true, func(s *cv.S) { s.Bits(uint64(v), 64) }, true)
	case 4:
		v := cv.Any[int8]("v")
		elem[int8](ztype.ArrayTraits.Int8, v, true, func(s *cv.S) { s.Bits(uint64(v), 8) }, true)
	case 5:
		v := cv.Any[int16]("v")
		elem[int16](ztype.ArrayTraits.Int16, v, true, func(s *cv.S) { s.Bits(uint64(v), 16) }, true)
	case 6:
		v := cv.Any[int32]("v")
		elem[int32](ztype.ArrayTraits.Int32, v, true, func(s *cv.S) { s.Bits(uint64(v), 32) }, true)
	case 7:
		v := cv.Any[int64]("v")
		elem[int64](ztype.ArrayTraits.Int64, v, true, func(s *cv.S) { s.Bits(uint64(v), 64) }, true)
	}
}

// The element kinds of booleans and floats.
//
//gocv:harness prop=C08,C04 param=kind:0..3
func HElemFloat() {
	switch cv.Param("kind") {
	case 0:
		v := cv.Any[bool]("v")
		elem[bool](ztype.ArrayTraits.Bool, v, true, func(s *cv.S) { s.Bits(cv.Ite[uint64](v, 1, 0), 1) }, false)
	case 1:
		// a value that is a half-precision pattern (rounding is C07)
		h := cv.Any[uint16]("h")
		cv.Requires(h&0x7fff <= 0x7c00)
		in := cv.At(0)
		in.Bits(uint64(h), 16)
		v, _ := ztype.ReadFloat16(in.Reader())
		elem[float32](ztype.ArrayTraits.Float16, v, true, func(s *cv.S) { s.Bits(uint64(h), 16) }, false)
	case 2:
		v := cv.Any[float32]("v")
		elem[float32](ztype.ArrayTraits.Float32, v, true, func(s *cv.S) { s.Bits(uint64(math.Float32bits(v)), 32) }, false)
	case 3:
		v := cv.Any[float64]("v")
		elem[float64](ztype.ArrayTraits.Float64, v, true, func(s *cv.S) { s.Bits(math.Float64bits(v), 64) }, false)
	}
}

// The element kinds of booleans and floats: errors are reported.
//
//gocv:harness prop=C10,C11,C12 param=kind:0..3
func HElemFloatFail() {
	switch cv.Param("kind") {
	case 0:
		elemFail[bool](ztype.ArrayTraits.Bool, cv.Any[bool]("v"))
	case 1:
		elemFail[float32](ztype.ArrayTraits.Float16, cv.Any[float32]("v"))
	case 2:
		elemFail[float32](ztype.ArrayTraits.Float32, cv.Any[float32]("v"))
	case 3:
		elemFail[float64](ztype.ArrayTraits.Float64, cv.Any[float64]("v"))
	}
}

// The element kind of strings.
//
//gocv:harness prop=C08,C04 use=var,size
func HElemString() {
	v := cv.Any[string]("v")
	fits := uint64(len(v)) < 1<<31
	elem[string](ztype.ArrayTraits.String, v, fits, func(s *cv.S) {
		s.Tok("varsize", uint64(len(v)))
		s.Str(v)
	}, false)
}

// The element kind of byte buffers.
//
//gocv:harness prop=C08,C04 use=var,size
func HElemBytes() {
	b := cv.Any[[]byte]("b")
	size := cv.Any[uint64]("size")
	v := &ztype.BytesType{Buffer: b, ByteSize: size}
	fits := size < 1<<31 && uint64(len(b)) == size
	elem[*ztype.BytesType](ztype.ArrayTraits.Bytes, v, fits, func(s *cv.S) {
		s.Tok("varsize", size)
		s.Bytes(b)
	}, false)
}

// The element kind of bit buffers of a whole number of bytes and of up to
// seven bits more (the content of the last byte is C06).
//
//gocv:harness prop=C08,C04 use=var,size
func HElemExtern() {
	b := cv.Any[[]byte]("b")
	size := cv.Any[uint64]("size")
	cv.Requires(uint64(len(b)) == size/8+cv.Ite[uint64](size%8 != 0, 1, 0))
	v := &ztype.ExternType{Buffer: b, BitSize: size}
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.ArrayTraits.Extern.Write(s.Writer(), v)
	if size >= 1<<31 {
		cv.Ensures(err != nil, "refuses a buffer beyond the varsize range")
		return
	}
	cv.Cover("written")
	cv.Ensures(err == nil, "writes every consistent buffer")
	cv.Ensures(uint64(ztype.ArrayTraits.Extern.BitSizeOf(v, cv.Any[int]("at"))) == s.Len(), "size is the number of bits written")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, rerr := ztype.ArrayTraits.Extern.Read(r, cv.Any[int]("index"))
	cv.Ensures(rerr == nil, "reads what was written")
	cv.Ensures(got.BitSize == size && len(got.Buffer) == len(b), "reads the length")
	cv.Ensures(cv.SameBytes(got.Buffer[:size/8], b[:size/8]), "reads the full bytes")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Obtaining a bit-field element kind gives the same answer whatever was
// requested before.
//
//gocv:harness prop=C12
func HTraitsHistory() {
	m, n := cv.Any[uint8]("m"), cv.Any[uint8]("n")
	ok := cv.NoPanic(func() {
		switch cv.Choose("before", 0, 3) {
		case 0:
			ztype.GetBitFieldArrayTraits[uint8](m)
		case 1:
			ztype.GetBitFieldArrayTraits[uint64](m)
		case 2:
			ztype.GetSignedBitFieldArrayTraits[int8](m)
		case 3:
			ztype.GetSignedBitFieldArrayTraits[int64](m)
		}
		switch cv.Choose("then", 0, 3) {
		case 0:
			cv.Ensures(ztype.GetBitFieldArrayTraits[uint16](n).BitSizeOf(0, 0) == int(n), "is the kind asked for")
		case 1:
			cv.Ensures(ztype.GetBitFieldArrayTraits[uint8](n).BitSizeOf(0, 0) == int(n), "is the kind asked for")
		case 2:
			cv.Ensures(ztype.GetSignedBitFieldArrayTraits[int16](n).BitSizeOf(0, 0) == int(n), "is the kind asked for")
		case 3:
			cv.Ensures(ztype.GetSignedBitFieldArrayTraits[int8](n).BitSizeOf(0, 0) == int(n), "is the kind asked for")
		}
	})
	cv.Ensures(ok, "every history of requests succeeds")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}
