// Package za holds the contracts of the arrays of the ztype library. The array
// code is checked against the contract of the element interface: abstract
// element kinds that exist only here stand for every kind (package zt shows
// that each concrete kind satisfies that contract).
package za

import (
	"errors"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

var errElement = errors.New("element can not be represented")

// varElem is an element kind of variable size: three bits and a variable-length
// integer; elements with the top bit set are refused.
type varElem struct{}

func (varElem) bad(v uint64) bool { return v>>63 != 0 }
func (varElem) spec(s *cv.S, v uint64) {
	s.Bits(v, 3)
	s.Tok("varuint", v)
}

func (varElem) BitSizeOfIsConstant() bool                      { return false }
func (varElem) NeedsBitsizeOfPosition() bool                   { return false }
func (varElem) NeedsReadIndex() bool                           { return false }
func (varElem) PackedTraits() ztype.IPackedArrayTraits[uint64] { return nil }
func (varElem) BitSizeOf(element uint64, endBitPosition int) int {
	return 3 + 8*cv.VarLen("varuint", element)
}
func (t varElem) InitializeOffsets(bitPosition int, value uint64) int {
	return bitPosition + t.BitSizeOf(value, 0)
}
func (varElem) AsUint64(value uint64) uint64   { return value }
func (varElem) FromUint64(value uint64) uint64 { return value }
func (t varElem) Write(w zserio.Writer, v uint64) error {
	if t.bad(v) {
		return errElement
	}
	if err := w.WriteBits(v&7, 3); err != nil {
		return err
	}
	return ztype.WriteVaruint(w, v)
}
func (t varElem) Read(r zserio.Reader, index int) (uint64, error) {
	b, err := r.ReadBits(3)
	if err != nil {
		return 0, err
	}
	v, err := ztype.ReadVaruint(r)
	if err != nil {
		return 0, err
	}
	if v&7 != b {
		return 0, errElement
	}
	return v, nil
}

// fixElem is an element kind of constant size.
type fixElem struct{ width int }

func (t fixElem) bad(v uint64) bool      { return v>>uint(t.width) != 0 }
func (t fixElem) spec(s *cv.S, v uint64) { s.Bits(v, t.width) }

func (fixElem) BitSizeOfIsConstant() bool                             { return true }
func (fixElem) NeedsBitsizeOfPosition() bool                          { return false }
func (fixElem) NeedsReadIndex() bool                                  { return false }
func (fixElem) PackedTraits() ztype.IPackedArrayTraits[uint64]        { return nil }
func (t fixElem) BitSizeOf(element uint64, endBitPosition int) int    { return t.width }
func (t fixElem) InitializeOffsets(bitPosition int, value uint64) int { return bitPosition + t.width }
func (fixElem) AsUint64(value uint64) uint64                          { return value }
func (fixElem) FromUint64(value uint64) uint64                        { return value }
func (t fixElem) Write(w zserio.Writer, v uint64) error {
	if t.bad(v) {
		return errElement
	}
	return w.WriteBits(v, uint8(t.width))
}
func (t fixElem) Read(r zserio.Reader, index int) (uint64, error) { return r.ReadBits(uint8(t.width)) }

// switchElem is an element kind whose size depends on the value: the low bit
// chooses between a short and a long form; long forms have limited range.
type switchElem struct{}

func (switchElem) bad(v uint64) bool { return v&1 != 0 && v>>12 != 0 }
func (switchElem) spec(s *cv.S, v uint64) {
	if v&1 != 0 {
		s.Bits(1, 1)
		s.Bits(v, 12)
	} else {
		s.Bits(0, 1)
		s.Bits(v, 64)
	}
}

func (switchElem) BitSizeOfIsConstant() bool                      { return false }
func (switchElem) NeedsBitsizeOfPosition() bool                   { return false }
func (switchElem) NeedsReadIndex() bool                           { return false }
func (switchElem) PackedTraits() ztype.IPackedArrayTraits[uint64] { return nil }
func (switchElem) BitSizeOf(v uint64, endBitPosition int) int {
	if v&1 != 0 {
		return 13
	}
	return 65
}
func (t switchElem) InitializeOffsets(bitPosition int, value uint64) int {
	return bitPosition + t.BitSizeOf(value, 0)
}
func (switchElem) AsUint64(value uint64) uint64   { return value }
func (switchElem) FromUint64(value uint64) uint64 { return value }
func (t switchElem) Write(w zserio.Writer, v uint64) error {
	if t.bad(v) {
		return errElement
	}
	if err := w.WriteBits(v&1, 1); err != nil {
		return err
	}
	if v&1 != 0 {
		return w.WriteBits(v, 12)
	}
	return w.WriteBits(v, 64)
}
func (t switchElem) Read(r zserio.Reader, index int) (uint64, error) {
	b, err := r.ReadBits(1)
	if err != nil {
		return 0, err
	}
	if b != 0 {
		return r.ReadBits(12)
	}
	return r.ReadBits(64)
}

// kind is what the contracts need to know of an element kind.
type kind[T any] interface {
	ztype.IArrayTraits[T]
	bad(v T) bool
	spec(s *cv.S, v T)
}

type call struct {
	index int
	pos   int64
}

// newArray returns an array, aligned or not, through the public constructor.
func newArray[T any, Y ztype.IArrayTraits[T]](traits Y, aligned, auto, packed bool, calls *[]call) *ztype.Array[T, Y] {
	var opts []ztype.ArrayOption[T, Y]
	if aligned {
		opts = append(opts, ztype.WithCheckOffsetMethod[T, Y](func(i int, p int64) { *calls = append(*calls, call{i, p}) }))
	}
	a, err := ztype.ArrayFromReader(cv.At(0).Reader(), traits, 0, packed, false, opts...)
	cv.Ensures(err == nil && a != nil, "an empty array of fixed size needs no input")
	a.IsAuto = auto
	return a
}

func checkArray[Y kind[uint64]](traits Y, n int, aligned bool) {
	auto := cv.Any[bool]("auto")
	elems := cv.AnySlice[uint64]("elems", n)
	var calls []call
	a := newArray[uint64, Y](traits, aligned, auto, false, &calls)
	a.RawArray = elems
	if !auto {
		a.FixedSize = n
	}
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := a.MarshalZserio(s.Writer())
	bad := false
	for _, e := range elems {
		bad = cv.Or(bad, traits.bad(e))
	}
	if bad {
		cv.Ensures(err != nil && cv.IsErr(err, errElement), "an element that can not be written is reported")
		return
	}
	cv.Cover("encoded")
	cv.Ensures(err == nil, "encodes when every element can be written")
	want := cv.At(pos)
	if auto {
		want.Tok("varsize", uint64(n))
	}
	for i, e := range elems {
		if aligned {
			want.Align(8)
			cv.Ensures(len(calls) > i && calls[i].index == i && uint64(calls[i].pos) == want.Pos(), "reports the offset of every element")
		}
		traits.spec(want, e)
	}
	cv.Ensures(s.Eq(want), "writes the count if automatic, then every element in order")
	size, serr := a.ZserioBitSize(int(pos))
	cv.Ensures(serr == nil && uint64(size) == s.Len(), "size is the number of bits written")

	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	b := newArray[uint64, Y](traits, aligned, auto, false, &calls)
	if !auto {
		b.FixedSize = n
	}
	derr := b.UnmarshalZserio(r)
	cv.Ensures(derr == nil, "decodes what was encoded")
	cv.Ensures(len(b.RawArray) == n, "decodes as many elements")
	for i, e := range elems {
		cv.Ensures(b.RawArray[i] == e, "decodes the same elements in order")
	}
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Arrays of an element kind of variable size, not aligned.
//
//gocv:harness prop=C08,C04,C10,C12 use=var,size param=n:0..4 bounded="arrays of at most 4 elements" weight=3
func HArrayVar() { checkArray(varElem{}, cv.Param("n"), false) }

// Arrays of an element kind whose size depends on the value.
//
//gocv:harness prop=C08,C04,C10,C12 use=var,size param=n:0..4 bounded="arrays of at most 4 elements" weight=3
func HArraySwitch() { checkArray(switchElem{}, cv.Param("n"), cv.Any[bool]("aligned")) }

// Arrays of an element kind of constant size.
//
//gocv:harness prop=C08,C04,C10,C12 use=var,size param=n:0..4 bounded="arrays of at most 4 elements" weight=3
func HArrayFix() {
	checkArray(fixElem{cv.Choose("width", 1, 9)}, cv.Param("n"), cv.Any[bool]("aligned"))
}
