// Package gc holds contracts of generated code: the corpus in /verif/schemas is
// compiled by the generator of the repository, and the encoders, decoders and
// size functions it makes are verified against the layout the schema defines.
package gc

import (
	"math"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

type object interface {
	MarshalZserio(w zserio.Writer) error
	UnmarshalZserio(r zserio.Reader) error
	ZserioBitSize(bitPosition int) (int, error)
}

// layout checks that v is encoded as spec says, that its size is the number of
// bits written, and that decoding into fresh (which has the parameters of v)
// restores a value equal to want and consumes exactly the encoding.
func layout(v, fresh, want object, spec func(s *cv.S)) {
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := v.MarshalZserio(s.Writer())
	cv.Ensures(err == nil, "encodes every value that fits")
	t := cv.At(pos)
	spec(t)
	cv.Ensures(s.Eq(t), "writes the layout of the schema")
	n, err := v.ZserioBitSize(int(pos))
	cv.Ensures(err == nil && uint64(n) == t.Len(), "size is the number of bits written")
	decode(t, fresh, want)
	cv.Cover("decoded")
}

func decode(t *cv.S, fresh, want object) {
	tail := cv.At(0)
	tail.AnyTail("tail")
	t.Cat(tail)
	r := t.Reader()
	err := fresh.UnmarshalZserio(r)
	cv.Ensures(err == nil, "decodes what was encoded")
	cv.Ensures(cv.Same(fresh, want), "restores an equal value")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// refused checks that a value which does not fit the schema is an error.
func refused(v object) {
	err := v.MarshalZserio(cv.At(cv.AnyPos("pos")).Writer())
	cv.Ensures(err != nil, "a value that does not fit is an error")
}

// failing checks that errors of the streams are reported.
func failing(v, fresh object) {
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	if cv.Any[bool]("write") {
		w := s.FailWriter()
		err := v.MarshalZserio(w)
		cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
		return
	}
	cv.Requires(v.MarshalZserio(s.Writer()) == nil)
	r := s.FailReader()
	err := fresh.UnmarshalZserio(r)
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// garbage checks that decoding arbitrary input never panics.
func garbage(fresh object) {
	r := cv.AnyReader()
	var err error
	ok := cv.NoPanic(func() { err = fresh.UnmarshalZserio(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func bit(s *cv.S, b bool) { s.Bits(cv.Ite[uint64](b, 1, 0), 1) }

func str(s *cv.S, x string) {
	s.Tok("varsize", uint64(len(x)))
	s.Str(x)
}

func f32(s *cv.S, x float32) { s.Bits(uint64(math.Float32bits(x)), 32) }
func f64(s *cv.S, x float64) { s.Bits(math.Float64bits(x), 64) }

func anyStr(label string) string {
	x := cv.Any[string](label)
	cv.Requires(uint64(len(x)) < 1<<31)
	return x
}

// anyHalf is an arbitrary value that half precision can represent, and its
// encoding.
func anyHalf(label string) (float32, uint64) {
	h := cv.Any[uint16](label)
	cv.Requires(h&0x7fff <= 0x7c00)
	in := cv.At(0)
	in.Bits(uint64(h), 16)
	v, _ := ztype.ReadFloat16(in.Reader())
	return v, uint64(h)
}

// anyUint and anyInt are arbitrary values of n bits.
func anyUint[T uint8 | uint16 | uint32 | uint64](label string, n int) T {
	v := cv.Any[T](label)
	cv.Requires(n >= 64 || uint64(v)>>uint(n) == 0)
	return v
}

func anyInt[T int8 | int16 | int32 | int64](label string, n int) T {
	v := cv.Any[T](label)
	cv.Requires(int64(v)<<(64-uint(n))>>(64-uint(n)) == int64(v))
	return v
}

// anyVar is an arbitrary value in the range of a variable-length integer.
func anyVar[T int8 | int16 | int32 | int64 | uint8 | uint16 | uint32 | uint64](label, kind string) T {
	v := cv.Any[T](label)
	cv.Requires(cv.VarInRange(kind, uint64(v)))
	return v
}
