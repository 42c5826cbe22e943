package zt

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

// String: varsize length, then the bytes; round trip; size.
//
//gocv:harness prop=C06,C04 use=var,size
func HString() {
	v := cv.Any[string]("v")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteString(s.Writer(), v)
	n, serr := ztype.BitSizeOfString(v)
	if uint64(len(v)) >= 1<<31 {
		cv.Cover("too long")
		cv.Ensures(err != nil && cv.IsErr(err, ztype.ErrOutOfBounds), "refuses a string beyond the varsize range")
		cv.Ensures(s.Len() == 0, "writes nothing for a refused string")
		return
	}
	cv.Ensures(err == nil, "accepts every string of the varsize range")
	cv.Ensures(serr == nil && uint64(n) == s.Len(), "size is the number of bits written")
	t := cv.At(pos)
	t.Tok("varsize", uint64(len(v)))
	t.Str(v)
	cv.Ensures(s.Eq(t), "writes length and content")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadString(r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(cv.Same(got, v), "reads an equal string")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// String: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11 use=var
func HAnyString() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteString(w, cv.Any[string]("v"))
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadString(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Strings are read completely from a reader that delivers less than asked.
//
//gocv:harness prop=C06,C10 use=var
func HShortString() {
	v := cv.Any[string]("v")
	cv.Requires(uint64(len(v)) < 1<<31)
	s := cv.At(cv.AnyPos("pos"))
	s.Tok("varsize", uint64(len(v)))
	s.Str(v)
	r := s.ShortReader()
	got, err := ztype.ReadString(r)
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(cv.Same(got, v), "reads the whole string")
}

// Bytes: varsize length, then the bytes; round trip.
//
//gocv:harness prop=C06 use=var
func HBytes() {
	buf := cv.Any[[]byte]("buf")
	size := cv.Any[uint64]("size")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := ztype.WriteBytes(s.Writer(), &ztype.BytesType{Buffer: buf, ByteSize: size})
	if uint64(len(buf)) == size && size < 1<<31 {
		cv.Cover("consistent")
		cv.Ensures(err == nil, "accepts every buffer of the varsize range")
	}
	if err != nil {
		return
	}
	cv.Ensures(uint64(len(buf)) == size, "refuses a length that does not match the buffer")
	t := cv.At(pos)
	t.Tok("varsize", uint64(len(buf)))
	t.Bytes(buf)
	cv.Ensures(s.Eq(t), "writes length and content")
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	got, err := ztype.ReadBytes(r)
	cv.Ensures(err == nil && got != nil, "reads what was written")
	cv.Ensures(got.ByteSize == size, "reads the length")
	cv.Ensures(cv.SameBytes(got.Buffer, buf), "reads equal bytes")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Bytes: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11 use=var
func HAnyBytes() {
	w := cv.At(0).FailWriter()
	err := ztype.WriteBytes(w, &ztype.BytesType{Buffer: cv.Any[[]byte]("buf"), ByteSize: cv.Any[uint64]("size")})
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadBytes(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Bytes are read completely from a reader that delivers less than asked.
//
//gocv:harness prop=C06,C10 use=var
func HShortBytes() {
	v := cv.Any[[]byte]("v")
	cv.Requires(uint64(len(v)) < 1<<31)
	s := cv.At(cv.AnyPos("pos"))
	s.Tok("varsize", uint64(len(v)))
	s.Bytes(v)
	r := s.ShortReader()
	got, err := ztype.ReadBytes(r)
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(cv.SameBytes(got.Buffer, v), "reads all bytes")
}

// Extern: varsize bit length, then exactly that many bits.
//
//gocv:harness prop=C06 use=var
func HExtern() {
	buf := cv.Any[[]byte]("buf")
	size := cv.Any[uint64]("size")
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	var err error
	ok := cv.NoPanic(func() {
		err = ztype.WriteExtern(s.Writer(), &ztype.ExternType{Buffer: buf, BitSize: size})
	})
	cv.Ensures(ok, "never panics")
	full, rem := size/8, size%8
	need := full
	if rem != 0 {
		need++
	}
	if uint64(len(buf)) == need && size < 1<<31 {
		cv.Cover("consistent")
		cv.Ensures(err == nil, "accepts every buffer of the varsize range")
	}
	if err != nil {
		return
	}
	cv.Ensures(uint64(len(buf)) >= need, "refuses a length beyond the buffer")
	t := cv.At(pos)
	t.Tok("varsize", size)
	t.Bytes(buf[:full])
	last := byte(0)
	if rem != 0 {
		last = buf[full] >> (8 - rem)
		t.Bits(uint64(last), int(rem))
	}
	cv.Ensures(s.Eq(t), "writes the length and exactly its bits")
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	got, err := ztype.ReadExtern(r)
	cv.Ensures(err == nil && got != nil, "reads what was written")
	cv.Ensures(got.BitSize == size, "reads the length")
	cv.Ensures(uint64(len(got.Buffer)) == need, "buffer length")
	cv.Ensures(cv.SameBytes(got.Buffer[:full], buf[:full]), "reads equal full bytes")
	if rem != 0 {
		cv.Cover("partial byte")
		cv.Ensures(got.Buffer[full] == last<<(8-rem), "reads the bits of the last byte")
	}
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Extern: errors are reported, nothing panics.
//
//gocv:harness prop=C10,C11 use=var
func HAnyExtern() {
	w := cv.At(0).FailWriter()
	buf := cv.Any[[]byte]("buf")
	size := cv.Any[uint64]("size")
	cv.Requires(uint64(len(buf)) == (size+7)/8 && size < 1<<31)
	err := ztype.WriteExtern(w, &ztype.ExternType{Buffer: buf, BitSize: size})
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
	r := cv.AnyReader()
	ok := cv.NoPanic(func() { _, err = ztype.ReadExtern(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Extern buffers are read completely from a reader that delivers less than asked.
//
//gocv:harness prop=C06,C10 use=var
func HShortExtern() {
	v := cv.Any[[]byte]("v")
	cv.Requires(uint64(len(v)) < 1<<28)
	s := cv.At(cv.AnyPos("pos"))
	s.Tok("varsize", uint64(len(v))*8)
	s.Bytes(v)
	r := s.ShortReader()
	got, err := ztype.ReadExtern(r)
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(cv.SameBytes(got.Buffer, v), "reads all bytes")
}
