// Package zr holds the contracts of the root package (Marshal, Unmarshal).
package zr

import (
	"errors"
	"io"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
)

var errObject = errors.New("object failure")

// object stands for any object: its encoder writes any bits, in any of the
// ways a writer offers (the contracts of the stream show that the state of a
// writer depends only on the bits written), and may fail afterwards. Its
// decoder reads part of the input and may fail.
type object struct {
	bytes []byte
	k     int
	v     uint64
	fail  bool

	decode func(r zserio.Reader) error
}

func (o *object) MarshalZserio(w zserio.Writer) error {
	if _, err := w.Write(o.bytes); err != nil {
		return err
	}
	if err := w.WriteBits(o.v, uint8(o.k)); err != nil {
		return err
	}
	if o.fail {
		return errObject
	}
	return nil
}

func (o *object) ZserioBitSize(bitPosition int) (int, error) { return 0, nil }

func (o *object) UnmarshalZserio(r zserio.Reader) error { return o.decode(r) }

func checkMarshal(b []byte) {
	o := &object{bytes: b, k: cv.Choose("k", 0, 7), v: cv.Any[uint64]("v"), fail: cv.Any[bool]("fail")}
	out, err := zserio.Marshal(o)
	if o.fail {
		cv.Ensures(err != nil && cv.IsErr(err, errObject), "returns the encoder's error, wrapped")
		cv.Ensures(out == nil, "returns no bytes with an error")
		return
	}
	cv.Cover("success")
	cv.Ensures(err == nil, "succeeds when the encoder succeeds")
	want := cv.At(0)
	want.Bytes(b)
	want.Bits(o.v, o.k)
	want.Align(8)
	got := cv.At(0)
	got.Bytes(out)
	cv.Ensures(got.Eq(want), "returns every bit, the last byte filled with zero bits")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Marshal hands over exactly the encoding, for encodings of any length.
//
//gocv:harness prop=C17,C10 use=stream
func HMarshal() { checkMarshal(cv.Any[[]byte]("bytes")) }

// The same with the buffer's own code, for short encodings.
//
//gocv:harness prop=C17,C10 param=n:0..70 bounded="encodings of at most 70 bytes"
func HMarshalSmall() { checkMarshal(cv.AnySlice[byte]("bytes", cv.Param("n"))) }

// Unmarshal presents exactly the input, from the first bit.
//
//gocv:harness prop=C17,C10 use=stream
func HUnmarshal() {
	in := cv.Any[[]byte]("in")
	fail := cv.Any[bool]("fail")
	called := 0
	var got []byte
	var derr error
	o := &object{decode: func(r zserio.Reader) error {
		called++
		pos, err := r.Align(1)
		cv.Ensures(err == nil && pos == 0, "starts at position 0")
		got = make([]byte, len(in))
		_, derr = io.ReadFull(r, got)
		if fail {
			return errObject
		}
		return derr
	}}
	err := zserio.Unmarshal(in, o)
	cv.Ensures(called == 1, "calls the decoder once")
	cv.Ensures(derr == nil, "the input can be read")
	cv.Ensures(cv.SameBytes(got, in), "presents exactly the given bytes")
	if fail {
		cv.Ensures(err != nil && cv.IsErr(err, errObject), "returns the decoder's error, wrapped")
	} else {
		cv.Ensures(err == nil, "succeeds when the decoder succeeds")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Nothing beyond the input is presented.
//
//gocv:harness prop=C17,C10 use=stream param=n:0..20 bounded="inputs of at most 20 bytes"
func HUnmarshalEnd() {
	n := cv.Param("n")
	in := cv.AnySlice[byte]("in", n)
	var errs, err2 error
	o := &object{decode: func(r zserio.Reader) error {
		for i := 0; i < n; i++ {
			b, err := r.ReadByte()
			cv.Ensures(err == nil && b == in[i], "presents exactly the given bytes")
		}
		_, errs = r.ReadBits(1)
		_, err2 = r.ReadByte()
		return errs
	}}
	err := zserio.Unmarshal(in, o)
	cv.Ensures(errs != nil && err2 != nil, "the input ends with the given bytes")
	cv.Ensures(err != nil && cv.IsErr(err, errs), "returns the decoder's error, wrapped")
}

// A result stays what it was whatever is marshalled later.
//
//gocv:harness prop=C17,C12 param=n:1..4 bounded="two encodings of at most 4 bytes"
func HMarshalTwice() {
	n := cv.Param("n")
	a, b := cv.AnySlice[byte]("a", n), cv.AnySlice[byte]("b", n)
	out, err := zserio.Marshal(&object{bytes: a})
	_, err2 := zserio.Marshal(&object{bytes: b})
	cv.Ensures(err == nil && err2 == nil, "succeeds when the encoder succeeds")
	cv.Ensures(cv.SameBytes(out, a), "a result is not affected by later calls")
}
