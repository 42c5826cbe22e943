package za

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

// packElem is an element kind with a packing of its own: the context counts
// and adds up the elements announced, the first element written is preceded by
// both, every element by its index. It stands for every packable kind.
type packElem struct{ fixElem }

type packCtx struct {
	count, sum uint64
	index      uint64
}

func (*packCtx) ReadDescriptor(zserio.Reader) error  { return nil }
func (*packCtx) WriteDescriptor(zserio.Writer) error { return nil }
func (*packCtx) BitSizeOfDescriptor() int            { return 0 }

type packTraits struct{}

func (packElem) PackedTraits() ztype.IPackedArrayTraits[uint64] { return packTraits{} }

func (packTraits) CreateContext() (*zserio.PackingContextNode, error) {
	return &zserio.PackingContextNode{Context: &packCtx{}}, nil
}
func (packTraits) InitContext(n *zserio.PackingContextNode, e uint64) error {
	c := n.Context.(*packCtx)
	c.sum = c.sum*3 + e
	c.count++
	return nil
}
func (packTraits) BitSizeOf(n *zserio.PackingContextNode, bitPosition int, e uint64) (int, error) {
	c := n.Context.(*packCtx)
	c.index++
	size := 4 + 65
	if c.index == 1 {
		size += 4 + 64
		size += int(c.count) // depends on the elements announced
	}
	return size, nil
}
func (p packTraits) InitializeOffsets(n *zserio.PackingContextNode, bitPosition int, e uint64) int {
	size, _ := p.BitSizeOf(n, bitPosition, e)
	return bitPosition + size
}
func (packTraits) Write(n *zserio.PackingContextNode, w zserio.Writer, e uint64) error {
	if e>>62 != 0 {
		return errElement
	}
	c := n.Context.(*packCtx)
	if c.index == 0 {
		if err := w.WriteBits(c.count, 4); err != nil {
			return err
		}
		if err := w.WriteBits(c.sum, 64); err != nil {
			return err
		}
		for i := uint64(0); i < c.count; i++ {
			if err := w.WriteBits(0, 1); err != nil {
				return err
			}
		}
	}
	if err := w.WriteBits(c.index, 4); err != nil {
		return err
	}
	c.index++
	if err := w.WriteBits(1, 1); err != nil {
		return err
	}
	return w.WriteBits(e, 64)
}
func (packTraits) Read(n *zserio.PackingContextNode, r zserio.Reader, index int) (uint64, error) {
	c := n.Context.(*packCtx)
	if c.index == 0 {
		count, err := r.ReadBits(4)
		if err != nil {
			return 0, err
		}
		if _, err := r.ReadBits(64); err != nil {
			return 0, err
		}
		if count > 15 {
			count = 15
		}
		for i := uint64(0); i < count; i++ {
			if _, err := r.ReadBits(1); err != nil {
				return 0, err
			}
		}
	}
	i, err := r.ReadBits(4)
	if err != nil {
		return 0, err
	}
	if i != c.index || i != uint64(index) {
		return 0, errElement
	}
	c.index++
	if _, err := r.ReadBits(1); err != nil {
		return 0, err
	}
	return r.ReadBits(64)
}

// Packed arrays: one context, every element announced in order, then every
// element written in order with that context.
//
//gocv:harness prop=C09,C08,C04,C12 use=var,size param=n:0..4 bounded="arrays of at most 4 elements"
func HPackedArray() {
	n := cv.Param("n")
	traits := packElem{fixElem{64}}
	aligned, auto := cv.Any[bool]("aligned"), cv.Any[bool]("auto")
	elems := cv.AnySlice[uint64]("elems", n)
	var calls []call
	a := newArray[uint64, packElem](traits, aligned, auto, true, &calls)
	a.RawArray = elems
	if !auto {
		a.FixedSize = n
	}
	pos := cv.AnyPos("pos")
	before := cv.Any[bool]("size before")
	var size int
	var serr error
	if before {
		size, serr = a.ZserioBitSizePacked(int(pos))
	}
	s := cv.At(pos)
	err := a.MarshalZserio(s.Writer())
	if !before {
		size, serr = a.ZserioBitSizePacked(int(pos))
	}
	bad := false
	for _, e := range elems {
		bad = cv.Or(bad, e>>62 != 0)
	}
	if bad {
		cv.Ensures(err != nil && cv.IsErr(err, errElement), "an element that can not be written is reported")
		return
	}
	cv.Cover("encoded")
	cv.Ensures(err == nil, "encodes when every element can be written")
	cv.Ensures(serr == nil && uint64(size) == s.Len(), "size is the number of bits written")
	want := cv.At(pos)
	if auto {
		want.Tok("varsize", uint64(n))
	}
	sum := uint64(0)
	for _, e := range elems {
		sum = sum*3 + e
	}
	for i, e := range elems {
		if aligned {
			want.Align(8)
			cv.Ensures(len(calls) > i && calls[i].index == i && uint64(calls[i].pos) == want.Pos(), "reports the offset of every element")
		}
		if i == 0 {
			want.Bits(uint64(n), 4)
			want.Bits(sum, 64)
			want.Bits(0, n)
		}
		want.Bits(uint64(i), 4)
		want.Bits(1, 1)
		want.Bits(e, 64)
	}
	cv.Ensures(s.Eq(want), "announces and writes every element in order with one context")

	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	b := newArray[uint64, packElem](traits, aligned, auto, true, &calls)
	if !auto {
		b.FixedSize = n
	}
	derr := b.UnmarshalZserio(r)
	cv.Ensures(derr == nil, "decodes what was encoded")
	cv.Ensures(len(b.RawArray) == n, "decodes as many elements")
	for i, e := range elems {
		cv.Ensures(b.RawArray[i] == e, "decodes the same elements in order")
	}
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Arrays report every failure of the stream and of an element.
//
//gocv:harness prop=C10 use=var,size param=n:0..3 bounded="arrays of at most 3 elements"
func HArrayFail() {
	n := cv.Param("n")
	var calls []call
	aligned := cv.Any[bool]("aligned")
	w := cv.At(cv.AnyPos("pos")).FailWriter()
	elems := cv.AnySlice[uint64]("elems", n)
	var err error
	if cv.Any[bool]("packed") {
		a := newArray[uint64, packElem](packElem{fixElem{64}}, aligned, cv.Any[bool]("auto"), true, &calls)
		a.RawArray = elems
		err = a.MarshalZserio(w)
	} else {
		a := newArray[uint64, fixElem](fixElem{9}, aligned, cv.Any[bool]("auto"), false, &calls)
		a.RawArray = elems
		err = a.MarshalZserio(w)
	}
	cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
}

// Decoding an array from arbitrary input reports every failure and does not
// panic, whatever the declared or fixed length.
//
//gocv:harness prop=C10,C11 use=var,size loop=3 bounded="at most 3 elements are followed"
func HArrayAny() {
	var calls []call
	aligned, auto := cv.Any[bool]("aligned"), cv.Any[bool]("auto")
	size := cv.Any[int]("size")
	var err error
	r := cv.AnyReader()
	ok := cv.NoPanic(func() {
		if cv.Any[bool]("packed") {
			a := newArray[uint64, packElem](packElem{fixElem{64}}, aligned, auto, true, &calls)
			a.FixedSize = size
			err = a.UnmarshalZserio(r)
		} else {
			a := newArray[uint64, fixElem](fixElem{9}, aligned, auto, false, &calls)
			a.FixedSize = size
			err = a.UnmarshalZserio(r)
		}
	})
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}
