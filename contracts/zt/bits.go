package zt

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

// fitsUnsigned: v is representable with n bits (1..64).
func fitsUnsigned(v uint64, n int) bool { return n >= 64 || v>>uint(n) == 0 }

// fitsSigned: v is representable in n-bit two's complement.
func fitsSigned(v int64, n int) bool {
	return v>>uint(n-1) == 0 || v>>uint(n-1) == -1
}

// WriteUnsignedBits emits exactly n bits, or refuses.
//
//gocv:harness prop=C03 provides=bits param=n:1..64
func HWriteUnsignedBits() {
	n := cv.Param("n")
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteUnsignedBits(s.Writer(), v, uint8(n))
	if fitsUnsigned(v, n) {
		cv.Cover("in range")
		cv.Ensures(err == nil, "accepts a value that fits")
		t := cv.At(0)
		t.Bits(v, n)
		cv.Ensures(s.Eq(t), "writes n bits, most significant first")
	} else {
		cv.Ensures(err != nil && cv.IsErr(err, ztype.ErrValueOutOfBitRange), "refuses a value that does not fit")
		cv.Ensures(s.Len() == 0, "writes nothing for a refused value")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteSignedBits emits exactly n bits of two's complement, or refuses.
//
//gocv:harness prop=C03 provides=bits param=n:1..64
func HWriteSignedBits() {
	n := cv.Param("n")
	v := cv.Any[int64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteSignedBits(s.Writer(), v, uint8(n))
	if fitsSigned(v, n) {
		cv.Cover("in range")
		cv.Ensures(err == nil, "accepts a value that fits")
		t := cv.At(0)
		t.Bits(uint64(v), n)
		cv.Ensures(s.Eq(t), "writes n bits of two's complement")
	} else {
		cv.Ensures(err != nil && cv.IsErr(err, ztype.ErrValueOutOfBitRange), "refuses a value that does not fit")
		cv.Ensures(s.Len() == 0, "writes nothing for a refused value")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// ReadUnsignedBits returns the next n bits.
//
//gocv:harness prop=C03 provides=bits param=n:1..64
func HReadUnsignedBits() {
	n := cv.Param("n")
	v := cv.Any[uint64]("v")
	cv.Requires(fitsUnsigned(v, n))
	s := cv.At(cv.AnyPos("pos"))
	s.Bits(v, n)
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadUnsignedBits(r, uint8(n))
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(got == v, "returns the value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly n bits")
}

// ReadSignedBits returns the next n bits with the sign restored.
//
//gocv:harness prop=C03 provides=bits param=n:1..64
func HReadSignedBits() {
	n := cv.Param("n")
	v := cv.Any[int64]("v")
	cv.Requires(fitsSigned(v, n))
	s := cv.At(cv.AnyPos("pos"))
	s.Bits(uint64(v), n)
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadSignedBits(r, uint8(n))
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(got == v, "returns the value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly n bits")
}

// Arbitrary width and input: an error or a value, never a panic; failures are
// reported.
//
//gocv:harness prop=C10,C11 param=n:0..255
func HAnyReadBits() {
	n := cv.Param("n")
	r := cv.AnyReader()
	var err error
	ok := cv.NoPanic(func() { _, err = ztype.ReadSignedBits(r, uint8(n)) })
	cv.Ensures(ok, "signed: never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "signed: a failed read is reported")
	r2 := cv.AnyReader()
	var err2 error
	ok2 := cv.NoPanic(func() { _, err2 = ztype.ReadUnsignedBits(r2, uint8(n)) })
	cv.Ensures(ok2, "unsigned: never panics")
	cv.Ensures(cv.Implies(r2.Failed(), err2 != nil), "unsigned: a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// A failing writer is reported.
//
//gocv:harness prop=C10 param=n:1..64
func HFailWriteBits() {
	n := cv.Param("n")
	w := cv.At(cv.AnyPos("pos")).FailWriter()
	err := ztype.WriteSignedBits(w, cv.Any[int64]("v"), uint8(n))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "signed: a failed write is reported")
	w2 := cv.At(cv.AnyPos("pos")).FailWriter()
	err = ztype.WriteUnsignedBits(w2, cv.Any[uint64]("u"), uint8(n))
	cv.Ensures(cv.Implies(w2.Failed(), err != nil), "unsigned: a failed write is reported")
}

// WriteInt8/ReadInt8: 8 bits, round trip.
//
//gocv:harness prop=C03
func HInt8() {
	v := cv.Any[int8]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteInt8(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 8)
	cv.Ensures(s.Eq(t), "writes 8 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadInt8(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 8 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Int8: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyInt8() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteInt8(w, cv.Any[int8]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadInt8(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteUint8/ReadUint8: 8 bits, round trip.
//
//gocv:harness prop=C03
func HUint8() {
	v := cv.Any[uint8]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteUint8(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 8)
	cv.Ensures(s.Eq(t), "writes 8 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadUint8(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 8 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Uint8: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyUint8() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteUint8(w, cv.Any[uint8]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadUint8(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteInt16/ReadInt16: 16 bits, round trip.
//
//gocv:harness prop=C03
func HInt16() {
	v := cv.Any[int16]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteInt16(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 16)
	cv.Ensures(s.Eq(t), "writes 16 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadInt16(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 16 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Int16: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyInt16() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteInt16(w, cv.Any[int16]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadInt16(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteUint16/ReadUint16: 16 bits, round trip.
//
//gocv:harness prop=C03
func HUint16() {
	v := cv.Any[uint16]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteUint16(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 16)
	cv.Ensures(s.Eq(t), "writes 16 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadUint16(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 16 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Uint16: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyUint16() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteUint16(w, cv.Any[uint16]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadUint16(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteInt32/ReadInt32: 32 bits, round trip.
//
//gocv:harness prop=C03
func HInt32() {
	v := cv.Any[int32]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteInt32(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 32)
	cv.Ensures(s.Eq(t), "writes 32 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadInt32(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 32 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Int32: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyInt32() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteInt32(w, cv.Any[int32]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadInt32(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteUint32/ReadUint32: 32 bits, round trip.
//
//gocv:harness prop=C03
func HUint32() {
	v := cv.Any[uint32]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteUint32(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 32)
	cv.Ensures(s.Eq(t), "writes 32 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadUint32(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 32 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Uint32: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyUint32() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteUint32(w, cv.Any[uint32]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadUint32(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteInt64/ReadInt64: 64 bits, round trip.
//
//gocv:harness prop=C03
func HInt64() {
	v := cv.Any[int64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteInt64(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 64)
	cv.Ensures(s.Eq(t), "writes 64 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadInt64(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 64 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Int64: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyInt64() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteInt64(w, cv.Any[int64]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadInt64(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// WriteUint64/ReadUint64: 64 bits, round trip.
//
//gocv:harness prop=C03
func HUint64() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteUint64(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(v), 64)
	cv.Ensures(s.Eq(t), "writes 64 bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadUint64(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 64 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Uint64: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyUint64() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteUint64(w, cv.Any[uint64]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadUint64(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// Bool: one bit, round trip; errors are reported.
//
//gocv:harness prop=C03,C10,C11
func HBool() {
	v := cv.Any[bool]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteBool(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(cv.Ite[uint64](v, 1, 0), 1)
	cv.Ensures(s.Eq(t), "writes one bit")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadBool(r)
	cv.Ensures(err == nil && got == v, "reads the value back")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly one bit")
	w := cv.At(0).FailWriter()
	err = ztype.WriteBool(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r2 := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadBool(r2) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r2.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}
