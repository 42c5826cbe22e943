package zt

import (
	"math"

	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

// float32: the IEEE bit pattern, bit for bit, both ways.
//
//gocv:harness prop=C07
func HFloat32() {
	v := cv.Any[float32]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteFloat32(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(math.Float32bits(v)), 32)
	cv.Ensures(s.Eq(t), "writes the IEEE bit pattern")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadFloat32(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(math.Float32bits(got) == math.Float32bits(v), "reads the same bit pattern")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 32 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// float64: the IEEE bit pattern, bit for bit, both ways.
//
//gocv:harness prop=C07
func HFloat64() {
	v := cv.Any[float64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteFloat64(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	t := cv.At(0)
	t.Bits(uint64(math.Float64bits(v)), 64)
	cv.Ensures(s.Eq(t), "writes the IEEE bit pattern")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadFloat64(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(math.Float64bits(got) == math.Float64bits(v), "reads the same bit pattern")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 64 bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// float16: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyFloat16() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteFloat16(w, cv.Any[float32]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadFloat16(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// float32: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyFloat32() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteFloat32(w, cv.Any[float32]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadFloat32(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// float64: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11
func HAnyFloat64() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteFloat64(w, cv.Any[float64]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadFloat64(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
}

// mini is the float32 magnitude pattern of the value with a 5-bit exponent k>>11
// (bias 15) and 11 mantissa bits: the half-precision values are the even k, the
// odd k are the midpoints between neighbours.
func mini(k uint32) uint32 {
	e, m := k>>11, k&0x7ff
	norm := (e+112)<<23 | m<<12
	// subnormal: m * 2^-25, normalised
	sub := uint32(0)
	for i := uint32(0); i < 11; i++ {
		sub = cv.Ite(m>>i == 1, (i+102)<<23|(m<<(23-i))&0x7fffff, sub)
	}
	return cv.Ite(e == 0, sub, norm)
}

// float16 reading yields the exact value of every half-precision pattern.
//
//gocv:harness prop=C07
func HReadFloat16() {
	h := cv.Any[uint16]("h")
	s := cv.At(cv.AnyPos("pos"))
	s.Bits(uint64(h), 16)
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadFloat16(r)
	cv.Ensures(err == nil, "accepts every pattern")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly 16 bits")
	b := math.Float32bits(got)
	mag := uint32(h) & 0x7fff
	cv.Ensures(b>>31 == uint32(h)>>15, "keeps the sign")
	if mag < 0x7c00 {
		cv.Ensures(b&0x7fffffff == mini(mag<<1), "finite values are exact")
	} else if mag == 0x7c00 {
		cv.Ensures(b&0x7fffffff == 0x7f800000, "infinity")
	} else {
		cv.Ensures(b&0x7fffffff > 0x7f800000, "NaN stays NaN")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Writing a float32 as float16 rounds to nearest, ties to even.
//
//gocv:harness prop=C07
func HWriteFloat16() {
	v := cv.Any[float32]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteFloat16(s.Writer(), v)
	cv.Ensures(err == nil, "accepts every value")
	cv.Ensures(s.Len() == 16, "writes 16 bits")
	u, _ := s.Reader().ReadBits(16)
	h := uint32(u)
	b := math.Float32bits(v)
	mag, x := h&0x7fff, b&0x7fffffff
	cv.Ensures(h>>15 == b>>31, "keeps the sign")
	if x > 0x7f800000 {
		cv.Ensures(mag > 0x7c00, "NaN stays NaN")
		return
	}
	top := mini(2*0x7bff + 1)
	if x >= top {
		cv.Ensures(mag == 0x7c00, "overflow rounds to infinity")
		return
	}
	cv.Ensures(mag < 0x7c00, "finite value stays finite")
	hi := mini(2*mag + 1)
	cv.Ensures(cv.Ite(mag&1 == 0, x <= hi, x < hi), "not above half way to the next value")
	if mag > 0 {
		lo := mini(2*mag - 1)
		cv.Ensures(cv.Ite(mag&1 == 0, x >= lo, x > lo), "not below half way to the previous value")
	}
}

// Reading a half-precision pattern and writing it again yields the pattern.
//
//gocv:harness prop=C07
func HFloat16RoundTrip() {
	h := cv.Any[uint16]("h")
	s := cv.At(0)
	s.Bits(uint64(h), 16)
	v, err := ztype.ReadFloat16(s.Reader())
	cv.Ensures(err == nil, "reads")
	t := cv.At(0)
	err = ztype.WriteFloat16(t.Writer(), v)
	cv.Ensures(err == nil, "writes")
	u, _ := t.Reader().ReadBits(16)
	if h&0x7fff > 0x7c00 {
		cv.Ensures(uint16(u)&0x7fff > 0x7c00 && uint16(u)>>15 == h>>15, "NaN stays NaN with its sign")
	} else {
		cv.Ensures(uint16(u) == h, "yields the same pattern")
	}
}
