package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/basic"
	"github.com/woven-planet/go-zserio/ztype"
)

//gocv:harness prop=C15,C04 use=var,size
func HGenScalars() {
	h, hb := anyHalf("f16")
	v := basic.Scalars{B: cv.Any[bool]("b"), I8: cv.Any[int8]("i8"), I16: cv.Any[int16]("i16"), I32: cv.Any[int32]("i32"), I64: cv.Any[int64]("i64"),
		U8: cv.Any[uint8]("u8"), U16: cv.Any[uint16]("u16"), U32: cv.Any[uint32]("u32"), U64: cv.Any[uint64]("u64"),
		S: anyStr("s"), F16: h, F32: cv.Any[float32]("f32"), F64: cv.Any[float64]("f64")}
	o := v
	layout(&v, &basic.Scalars{}, &o, func(s *cv.S) {
		bit(s, o.B)
		s.Bits(uint64(o.I8), 8)
		s.Bits(uint64(o.I16), 16)
		s.Bits(uint64(o.I32), 32)
		s.Bits(uint64(o.I64), 64)
		s.Bits(uint64(o.U8), 8)
		s.Bits(uint64(o.U16), 16)
		s.Bits(uint64(o.U32), 32)
		s.Bits(uint64(o.U64), 64)
		str(s, o.S)
		s.Bits(hb, 16)
		f32(s, o.F32)
		f64(s, o.F64)
	})
}

//gocv:harness prop=C15,C04 use=var,size
func HGenVars() {
	v := basic.Vars{Vi: anyVar[int64]("vi", "varint"), Vi16: anyVar[int16]("vi16", "varint16"), Vi32: anyVar[int32]("vi32", "varint32"), Vi64: anyVar[int64]("vi64", "varint64"),
		Vu: anyVar[uint64]("vu", "varuint"), Vu16: anyVar[uint16]("vu16", "varuint16"), Vu32: anyVar[uint32]("vu32", "varuint32"), Vu64: anyVar[uint64]("vu64", "varuint64"), Vs: anyVar[uint64]("vs", "varsize")}
	o := v
	layout(&v, &basic.Vars{}, &o, func(s *cv.S) {
		s.Tok("varint", uint64(o.Vi))
		s.Tok("varint16", uint64(o.Vi16))
		s.Tok("varint32", uint64(o.Vi32))
		s.Tok("varint64", uint64(o.Vi64))
		s.Tok("varuint", o.Vu)
		s.Tok("varuint16", uint64(o.Vu16))
		s.Tok("varuint32", uint64(o.Vu32))
		s.Tok("varuint64", o.Vu64)
		s.Tok("varsize", o.Vs)
	})
}

//gocv:harness prop=C15,C04
func HGenBits() {
	v := basic.Bits{B1: anyUint[uint8]("b1", 1), I5: anyInt[int8]("i5", 5), B8: cv.Any[uint8]("b8"), B12: anyUint[uint16]("b12", 12),
		I17: anyInt[int32]("i17", 17), B33: anyUint[uint64]("b33", 33), I64: cv.Any[int64]("i64"), B64: cv.Any[uint64]("b64")}
	o := v
	layout(&v, &basic.Bits{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.B1), 1)
		s.Bits(uint64(o.I5), 5)
		s.Bits(uint64(o.B8), 8)
		s.Bits(uint64(o.B12), 12)
		s.Bits(uint64(o.I17), 17)
		s.Bits(uint64(o.B33), 33)
		s.Bits(uint64(o.I64), 64)
		s.Bits(uint64(o.B64), 64)
	})
}

//gocv:harness prop=C15,C10
func HGenBitsRefused() {
	v := cv.Any[basic.Bits]("v")
	cv.Requires(v.B1>>1 != 0 || v.I5 < -16 || v.I5 > 15 || v.B12>>12 != 0 || v.I17 < -1<<16 || v.I17 >= 1<<16 || v.B33>>33 != 0)
	refused(&v)
}

//gocv:harness prop=C15,C04 param=w:0..64
func HGenDynamic() {
	w := cv.Param("w")
	if w == 0 || w == 64 {
		// no width, or more than 64 bits
		return
	}
	v := basic.Dynamic{W: uint8(w), U: anyUint[uint64]("u", w), I: anyInt[int64]("i", w+1)}
	o := v
	layout(&v, &basic.Dynamic{}, &o, func(s *cv.S) {
		s.Bits(uint64(w), 8)
		s.Bits(o.U, w)
		s.Bits(uint64(o.I), w+1)
	})
}

//gocv:harness prop=C15,C04 use=var,size
func HGenNamed() {
	v := basic.Named{Mood: basic.Mood(cv.Choose("mood", -3, -2)), Level: basic.LevelMid, Big: basic.BigMuch,
		Flags: basic.Flags(cv.Any[uint16]("flags")), Narrow: basic.Narrow(anyUint[uint8]("narrow", 6)), Rank: basic.LevelHigh,
		Pair: basic.Pair{First: cv.Any[uint16]("p1"), Second: cv.Any[uint16]("p2")}, Couple: basic.Pair{First: cv.Any[uint16]("c1"), Second: cv.Any[uint16]("c2")}}
	o := v
	layout(&v, &basic.Named{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.Mood), 8)
		s.Bits(12, 5)
		s.Tok("varuint32", 200000)
		s.Bits(uint64(o.Flags), 16)
		s.Bits(uint64(o.Narrow), 6)
		s.Bits(13, 5)
		s.Bits(uint64(o.Pair.First), 16)
		s.Bits(uint64(o.Pair.Second), 16)
		s.Bits(uint64(o.Couple.First), 16)
		s.Bits(uint64(o.Couple.Second), 16)
	})
}

// The items of enums and bitmasks have their values.
//
//gocv:harness prop=C15,C13
func HGenItems() {
	cv.Ensures(basic.MoodSad == -3 && basic.MoodFine == -2 && basic.MoodGlad == 7, "values of the items")
	cv.Ensures(basic.LevelLow == 0 && basic.LevelMid == 12 && basic.LevelHigh == 13, "values of the items")
	cv.Ensures(basic.BigNothing == 0 && basic.BigSome == 1000 && basic.BigMuch == 200000, "values of the items")
	cv.Ensures(basic.FlagsA == 1 && basic.FlagsB == 2 && basic.FlagsC == 16 && basic.FlagsD == 32, "values of the bits")
	cv.Ensures(basic.NarrowX == 2 && basic.NarrowY == 4, "values of the bits")
}

//gocv:harness prop=C15,C04 use=var,size
func HGenBlobs() {
	data := cv.Any[[]byte]("data")
	cv.Requires(uint64(len(data)) < 1<<31)
	ext := cv.Any[[]byte]("ext")
	rem := cv.Choose("bits of the last byte", 0, 7)
	cv.Requires(uint64(len(ext)) < 1<<27)
	n := len(ext)
	last := byte(0)
	if rem > 0 {
		cv.Requires(n >= 1)
		n--
		last = ext[n]
		cv.Requires(last<<uint(rem) == 0)
	}
	size := uint64(n)*8 + uint64(rem)
	v := basic.Blobs{Lead: anyUint[uint8]("lead", 3), Data: &ztype.BytesType{Buffer: data, ByteSize: uint64(len(data))}, Ext: &ztype.ExternType{Buffer: ext, BitSize: size}}
	o := v
	layout(&v, &basic.Blobs{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.Lead), 3)
		s.Tok("varsize", uint64(len(data)))
		s.Bytes(data)
		s.Tok("varsize", size)
		s.Bytes(ext[:n])
		if rem > 0 {
			s.Bits(uint64(last>>(8-uint(rem))), rem)
		}
	})
}

//gocv:harness prop=C15,C04
func HGenEmpty() {
	layout(&basic.Empty{}, &basic.Empty{}, &basic.Empty{}, func(s *cv.S) {})
	v := basic.HoldsEmpty{A: anyUint[uint8]("a", 2), B: anyUint[uint8]("b", 2)}
	o := v
	layout(&v, &basic.HoldsEmpty{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.A), 2)
		s.Bits(uint64(o.B), 2)
	})
}

//gocv:harness prop=C10,C11,C12,C15 use=var param=t:0..6
func HGenBasicFail() {
	switch cv.Param("t") {
	case 0:
		v := basic.Scalars{B: cv.Any[bool]("b"), I16: cv.Any[int16]("i16"), S: anyStr("s"), F16: 0.5, F32: cv.Any[float32]("f32")}
		failing(&v, &basic.Scalars{})
	case 1:
		v := basic.Vars{Vi: -3, Vi16: 300, Vi32: 70000, Vi64: 1 << 40, Vu: 1, Vu16: 2, Vu32: 3, Vu64: cv.Any[uint64]("vu64"), Vs: cv.Any[uint64]("vs")}
		failing(&v, &basic.Vars{})
	case 2:
		v := cv.Any[basic.Bits]("v")
		failing(&v, &basic.Bits{})
	case 3:
		v := cv.Any[basic.Dynamic]("v")
		failing(&v, &basic.Dynamic{})
	case 4:
		v := cv.Any[basic.Named]("v")
		failing(&v, &basic.Named{})
	case 5:
		v := basic.Blobs{Data: &ztype.BytesType{}, Ext: &ztype.ExternType{}}
		failing(&v, &basic.Blobs{})
	case 6:
		v := cv.Any[basic.HoldsEmpty]("v")
		failing(&v, &basic.HoldsEmpty{})
	}
}
