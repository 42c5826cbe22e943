// Package zt holds the contracts of the ztype library.
package zt

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

// checkWrite: the contract of a variable-length integer writer.
func checkWrite(kind string, v uint64, pos uint64, err error, s *cv.S) {
	if cv.VarInRange(kind, v) {
		cv.Cover("accepted")
		cv.Ensures(err == nil, "accepts every value of the documented range")
		t := cv.At(pos)
		cv.SpecVar(t, kind, v)
		cv.Ensures(s.Eq(t), "writes the zserio encoding")
	} else {
		cv.Ensures(err != nil && cv.IsErr(err, ztype.ErrOutOfBounds), "refuses a value out of range")
		cv.Ensures(s.Len() == 0, "writes nothing for a refused value")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// emit is the contract of a writer as used at call sites.
func emit(g *cv.W, kind string, v uint64) error {
	if !cv.VarInRange(kind, v) {
		return ztype.ErrOutOfBounds
	}
	return g.EmitTok(kind, v)
}

// WriteVarint16: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVarint16() {
	v := cv.Any[int16]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVarint16(s.Writer(), v)
	checkWrite("varint16", uint64(int64(v)), pos, err, s)
}

// ReadVarint16: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVarint16() {
	v := cv.Any[int16]("v")
	cv.Requires(cv.VarInRange("varint16", uint64(int64(v))))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varint16", uint64(int64(v)))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint16(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVarint16 then ReadVarint16 is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVarint16() {
	v := cv.Any[int16]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVarint16(s.Writer(), v)
	if cv.VarInRange("varint16", uint64(int64(v))) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint16(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVarint16 reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVarint16() {
	v := cv.Any[int16]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVarint16(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVarint16 reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVarint16() {
	r := cv.AnyReader()
	var v int16
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVarint16(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varint16", uint64(int64(v)))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVarint16 set=var
func cWriteVarint16(w zserio.Writer, v int16) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVarint16(w, v)
	}
	return emit(g, "varint16", uint64(int64(v)))
}

//gocv:replaces ztype.ReadVarint16 set=var
func cReadVarint16(r zserio.Reader) (int16, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varint16") {
		v, err := g.TakeTok("varint16")
		return int16(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varint16")
		return int16(v), err
	}
	return ztype.ReadVarint16(r)
}

// The verifier's own expansion of a varint16 token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVarint16() {
	v := cv.Any[int16]("v")
	cv.Requires(cv.VarInRange("varint16", uint64(int64(v))))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varint16", uint64(int64(v)))
	cv.SpecVar(b, "varint16", uint64(int64(v)))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varint16", uint64(int64(v)))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVarint32: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVarint32() {
	v := cv.Any[int32]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVarint32(s.Writer(), v)
	checkWrite("varint32", uint64(int64(v)), pos, err, s)
}

// ReadVarint32: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVarint32() {
	v := cv.Any[int32]("v")
	cv.Requires(cv.VarInRange("varint32", uint64(int64(v))))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varint32", uint64(int64(v)))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint32(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVarint32 then ReadVarint32 is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVarint32() {
	v := cv.Any[int32]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVarint32(s.Writer(), v)
	if cv.VarInRange("varint32", uint64(int64(v))) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint32(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVarint32 reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVarint32() {
	v := cv.Any[int32]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVarint32(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVarint32 reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVarint32() {
	r := cv.AnyReader()
	var v int32
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVarint32(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varint32", uint64(int64(v)))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVarint32 set=var
func cWriteVarint32(w zserio.Writer, v int32) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVarint32(w, v)
	}
	return emit(g, "varint32", uint64(int64(v)))
}

//gocv:replaces ztype.ReadVarint32 set=var
func cReadVarint32(r zserio.Reader) (int32, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varint32") {
		v, err := g.TakeTok("varint32")
		return int32(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varint32")
		return int32(v), err
	}
	return ztype.ReadVarint32(r)
}

// The verifier's own expansion of a varint32 token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVarint32() {
	v := cv.Any[int32]("v")
	cv.Requires(cv.VarInRange("varint32", uint64(int64(v))))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varint32", uint64(int64(v)))
	cv.SpecVar(b, "varint32", uint64(int64(v)))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varint32", uint64(int64(v)))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVarint64: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVarint64() {
	v := cv.Any[int64]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVarint64(s.Writer(), v)
	checkWrite("varint64", uint64(int64(v)), pos, err, s)
}

// ReadVarint64: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVarint64() {
	v := cv.Any[int64]("v")
	cv.Requires(cv.VarInRange("varint64", uint64(int64(v))))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varint64", uint64(int64(v)))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint64(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVarint64 then ReadVarint64 is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVarint64() {
	v := cv.Any[int64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVarint64(s.Writer(), v)
	if cv.VarInRange("varint64", uint64(int64(v))) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint64(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVarint64 reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVarint64() {
	v := cv.Any[int64]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVarint64(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVarint64 reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVarint64() {
	r := cv.AnyReader()
	var v int64
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVarint64(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varint64", uint64(int64(v)))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVarint64 set=var
func cWriteVarint64(w zserio.Writer, v int64) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVarint64(w, v)
	}
	return emit(g, "varint64", uint64(int64(v)))
}

//gocv:replaces ztype.ReadVarint64 set=var
func cReadVarint64(r zserio.Reader) (int64, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varint64") {
		v, err := g.TakeTok("varint64")
		return int64(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varint64")
		return int64(v), err
	}
	return ztype.ReadVarint64(r)
}

// The verifier's own expansion of a varint64 token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVarint64() {
	v := cv.Any[int64]("v")
	cv.Requires(cv.VarInRange("varint64", uint64(int64(v))))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varint64", uint64(int64(v)))
	cv.SpecVar(b, "varint64", uint64(int64(v)))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varint64", uint64(int64(v)))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVarint: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVarint() {
	v := cv.Any[int64]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVarint(s.Writer(), v)
	checkWrite("varint", uint64(int64(v)), pos, err, s)
}

// ReadVarint: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVarint() {
	v := cv.Any[int64]("v")
	cv.Requires(cv.VarInRange("varint", uint64(int64(v))))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varint", uint64(int64(v)))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVarint then ReadVarint is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVarint() {
	v := cv.Any[int64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVarint(s.Writer(), v)
	if cv.VarInRange("varint", uint64(int64(v))) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarint(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVarint reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVarint() {
	v := cv.Any[int64]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVarint(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVarint reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVarint() {
	r := cv.AnyReader()
	var v int64
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVarint(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varint", uint64(int64(v)))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVarint set=var
func cWriteVarint(w zserio.Writer, v int64) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVarint(w, v)
	}
	return emit(g, "varint", uint64(int64(v)))
}

//gocv:replaces ztype.ReadVarint set=var
func cReadVarint(r zserio.Reader) (int64, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varint") {
		v, err := g.TakeTok("varint")
		return int64(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varint")
		return int64(v), err
	}
	return ztype.ReadVarint(r)
}

// The verifier's own expansion of a varint token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVarint() {
	v := cv.Any[int64]("v")
	cv.Requires(cv.VarInRange("varint", uint64(int64(v))))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varint", uint64(int64(v)))
	cv.SpecVar(b, "varint", uint64(int64(v)))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varint", uint64(int64(v)))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVaruint16: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVaruint16() {
	v := cv.Any[uint16]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVaruint16(s.Writer(), v)
	checkWrite("varuint16", uint64(v), pos, err, s)
}

// ReadVaruint16: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVaruint16() {
	v := cv.Any[uint16]("v")
	cv.Requires(cv.VarInRange("varuint16", uint64(v)))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varuint16", uint64(v))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint16(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVaruint16 then ReadVaruint16 is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVaruint16() {
	v := cv.Any[uint16]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVaruint16(s.Writer(), v)
	if cv.VarInRange("varuint16", uint64(v)) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint16(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVaruint16 reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVaruint16() {
	v := cv.Any[uint16]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVaruint16(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVaruint16 reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVaruint16() {
	r := cv.AnyReader()
	var v uint16
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVaruint16(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varuint16", uint64(v))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVaruint16 set=var
func cWriteVaruint16(w zserio.Writer, v uint16) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVaruint16(w, v)
	}
	return emit(g, "varuint16", uint64(v))
}

//gocv:replaces ztype.ReadVaruint16 set=var
func cReadVaruint16(r zserio.Reader) (uint16, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varuint16") {
		v, err := g.TakeTok("varuint16")
		return uint16(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varuint16")
		return uint16(v), err
	}
	return ztype.ReadVaruint16(r)
}

// The verifier's own expansion of a varuint16 token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVaruint16() {
	v := cv.Any[uint16]("v")
	cv.Requires(cv.VarInRange("varuint16", uint64(v)))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varuint16", uint64(v))
	cv.SpecVar(b, "varuint16", uint64(v))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varuint16", uint64(v))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVaruint32: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVaruint32() {
	v := cv.Any[uint32]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVaruint32(s.Writer(), v)
	checkWrite("varuint32", uint64(v), pos, err, s)
}

// ReadVaruint32: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVaruint32() {
	v := cv.Any[uint32]("v")
	cv.Requires(cv.VarInRange("varuint32", uint64(v)))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varuint32", uint64(v))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint32(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVaruint32 then ReadVaruint32 is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVaruint32() {
	v := cv.Any[uint32]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVaruint32(s.Writer(), v)
	if cv.VarInRange("varuint32", uint64(v)) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint32(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVaruint32 reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVaruint32() {
	v := cv.Any[uint32]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVaruint32(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVaruint32 reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVaruint32() {
	r := cv.AnyReader()
	var v uint32
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVaruint32(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varuint32", uint64(v))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVaruint32 set=var
func cWriteVaruint32(w zserio.Writer, v uint32) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVaruint32(w, v)
	}
	return emit(g, "varuint32", uint64(v))
}

//gocv:replaces ztype.ReadVaruint32 set=var
func cReadVaruint32(r zserio.Reader) (uint32, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varuint32") {
		v, err := g.TakeTok("varuint32")
		return uint32(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varuint32")
		return uint32(v), err
	}
	return ztype.ReadVaruint32(r)
}

// The verifier's own expansion of a varuint32 token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVaruint32() {
	v := cv.Any[uint32]("v")
	cv.Requires(cv.VarInRange("varuint32", uint64(v)))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varuint32", uint64(v))
	cv.SpecVar(b, "varuint32", uint64(v))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varuint32", uint64(v))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVaruint64: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVaruint64() {
	v := cv.Any[uint64]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVaruint64(s.Writer(), v)
	checkWrite("varuint64", uint64(v), pos, err, s)
}

// ReadVaruint64: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVaruint64() {
	v := cv.Any[uint64]("v")
	cv.Requires(cv.VarInRange("varuint64", uint64(v)))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varuint64", uint64(v))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint64(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVaruint64 then ReadVaruint64 is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVaruint64() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVaruint64(s.Writer(), v)
	if cv.VarInRange("varuint64", uint64(v)) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint64(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVaruint64 reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVaruint64() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVaruint64(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVaruint64 reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVaruint64() {
	r := cv.AnyReader()
	var v uint64
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVaruint64(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varuint64", uint64(v))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVaruint64 set=var
func cWriteVaruint64(w zserio.Writer, v uint64) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVaruint64(w, v)
	}
	return emit(g, "varuint64", uint64(v))
}

//gocv:replaces ztype.ReadVaruint64 set=var
func cReadVaruint64(r zserio.Reader) (uint64, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varuint64") {
		v, err := g.TakeTok("varuint64")
		return uint64(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varuint64")
		return uint64(v), err
	}
	return ztype.ReadVaruint64(r)
}

// The verifier's own expansion of a varuint64 token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVaruint64() {
	v := cv.Any[uint64]("v")
	cv.Requires(cv.VarInRange("varuint64", uint64(v)))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varuint64", uint64(v))
	cv.SpecVar(b, "varuint64", uint64(v))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varuint64", uint64(v))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVaruint: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVaruint() {
	v := cv.Any[uint64]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVaruint(s.Writer(), v)
	checkWrite("varuint", uint64(v), pos, err, s)
}

// ReadVaruint: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVaruint() {
	v := cv.Any[uint64]("v")
	cv.Requires(cv.VarInRange("varuint", uint64(v)))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varuint", uint64(v))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVaruint then ReadVaruint is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVaruint() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVaruint(s.Writer(), v)
	if cv.VarInRange("varuint", uint64(v)) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVaruint(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVaruint reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVaruint() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVaruint(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVaruint reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVaruint() {
	r := cv.AnyReader()
	var v uint64
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVaruint(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varuint", uint64(v))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVaruint set=var
func cWriteVaruint(w zserio.Writer, v uint64) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVaruint(w, v)
	}
	return emit(g, "varuint", uint64(v))
}

//gocv:replaces ztype.ReadVaruint set=var
func cReadVaruint(r zserio.Reader) (uint64, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varuint") {
		v, err := g.TakeTok("varuint")
		return uint64(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varuint")
		return uint64(v), err
	}
	return ztype.ReadVaruint(r)
}

// The verifier's own expansion of a varuint token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVaruint() {
	v := cv.Any[uint64]("v")
	cv.Requires(cv.VarInRange("varuint", uint64(v)))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varuint", uint64(v))
	cv.SpecVar(b, "varuint", uint64(v))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varuint", uint64(v))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}

// WriteVarsize: exact zserio encoding for every value in range, error otherwise.
//
//gocv:harness prop=C02 provides=var
func HWriteVarsize() {
	v := cv.Any[uint64]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteVarsize(s.Writer(), v)
	checkWrite("varsize", uint64(v), pos, err, s)
}

// ReadVarsize: reads back the specified encoding of any value in range.
//
//gocv:harness prop=C02 provides=var
func HReadVarsize() {
	v := cv.Any[uint64]("v")
	cv.Requires(cv.VarInRange("varsize", uint64(v)))
	s := cv.At(cv.AnyPos("pos"))
	cv.SpecVar(s, "varsize", uint64(v))
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarsize(r)
	cv.Ensures(err == nil, "accepts the specified encoding")
	cv.Ensures(got == v, "returns the encoded value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the encoding")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// WriteVarsize then ReadVarsize is the identity, from any bit position.
//
//gocv:harness prop=C01
func HRoundTripVarsize() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	err := ztype.WriteVarsize(s.Writer(), v)
	if cv.VarInRange("varsize", uint64(v)) {
		cv.Ensures(err == nil, "accepts every value of the documented range")
	}
	if err != nil {
		return
	}
	cv.Cover("accepted")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadVarsize(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == v, "returns the written value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
}

// WriteVarsize reports a failing writer.
//
//gocv:harness prop=C10 provides=var
func HFailWriteVarsize() {
	v := cv.Any[uint64]("v")
	s := cv.At(cv.AnyPos("pos"))
	w := s.FailWriter()
	err := ztype.WriteVarsize(w, v)
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// ReadVarsize reports a failing or truncated input and never panics.
//
//gocv:harness prop=C10,C11 provides=var
func HAnyReadVarsize() {
	r := cv.AnyReader()
	var v uint64
	var err error
	ok := cv.NoPanic(func() { v, err = ztype.ReadVarsize(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(err == nil, cv.VarReadable("varsize", uint64(v))), "returns a value of the kind")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.WriteVarsize set=var
func cWriteVarsize(w zserio.Writer, v uint64) error {
	g, ok := cv.GhostW(w)
	if !ok {
		return ztype.WriteVarsize(w, v)
	}
	return emit(g, "varsize", uint64(v))
}

//gocv:replaces ztype.ReadVarsize set=var
func cReadVarsize(r zserio.Reader) (uint64, error) {
	g, ok := cv.GhostR(r)
	if ok && g.HasTok("varsize") {
		v, err := g.TakeTok("varsize")
		return uint64(v), err
	}
	if ok && g.Arb() {
		v, err := g.AnyTok("varsize")
		return uint64(v), err
	}
	return ztype.ReadVarsize(r)
}

// The verifier's own expansion of a varsize token equals the specification.
//
//gocv:harness prop=C02 provides=var
func HTokenVarsize() {
	v := cv.Any[uint64]("v")
	cv.Requires(cv.VarInRange("varsize", uint64(v)))
	a, b := cv.At(0), cv.At(0)
	a.Tok("varsize", uint64(v))
	cv.SpecVar(b, "varsize", uint64(v))
	cv.Ensures(a.Len() == b.Len(), "token length")
	cv.Ensures(uint64(8*cv.VarLen("varsize", uint64(v))) == a.Len(), "token length is VarLen")
	cv.Ensures(a.Eq(b), "token bits")
}
