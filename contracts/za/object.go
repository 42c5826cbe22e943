package za

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

// obj stands for every object type: three bits, then, for odd values, a byte
// aligned field, so that its size depends on value and position. The parameter
// must be set before decoding; the packed form uses the context of the array.
type obj struct {
	v, p uint64
}

func (o *obj) bad() bool { return o.v>>11 != 0 || o.v&1 == 0 && o.v>>3 != 0 }
func (o *obj) spec(s *cv.S) {
	s.Bits(o.v, 3)
	if o.v&1 != 0 {
		s.Align(8)
		s.Bits(o.v>>3, 8)
	}
}

func (o *obj) MarshalZserio(w zserio.Writer) error {
	if o.bad() {
		return errElement
	}
	if err := w.WriteBits(o.v&7, 3); err != nil {
		return err
	}
	if o.v&1 != 0 {
		if _, err := w.Align(8); err != nil {
			return err
		}
		return w.WriteBits(o.v>>3, 8)
	}
	return nil
}

func (o *obj) ZserioBitSize(bitPosition int) (int, error) {
	if o.v&1 != 0 {
		return (bitPosition+3+7)&^7 - bitPosition + 8, nil
	}
	return 3, nil
}

func (o *obj) UnmarshalZserio(r zserio.Reader) error {
	b, err := r.ReadBits(3)
	if err != nil {
		return err
	}
	o.v = b
	if o.v&1 != 0 {
		if _, err := r.Align(8); err != nil {
			return err
		}
		h, err := r.ReadBits(8)
		if err != nil {
			return err
		}
		o.v |= h << 3
	}
	return nil
}

func (o *obj) ZserioCreatePackingContext(n *zserio.PackingContextNode) error {
	n.Context = &packCtx{}
	return nil
}
func (o *obj) ZserioInitPackingContext(n *zserio.PackingContextNode) error {
	return packTraits{}.InitContext(n, o.v)
}
func (o *obj) ZserioInitializeOffsetsPacked(n *zserio.PackingContextNode, bitPosition int) int {
	return packTraits{}.InitializeOffsets(n, bitPosition, o.v)
}
func (o *obj) ZserioBitSizePacked(n *zserio.PackingContextNode, bitPosition int) (int, error) {
	return packTraits{}.BitSizeOf(n, bitPosition, o.v)
}
func (o *obj) MarshalZserioPacked(n *zserio.PackingContextNode, w zserio.Writer) error {
	return packTraits{}.Write(n, w, o.v)
}
func (o *obj) UnmarshalZserioPacked(n *zserio.PackingContextNode, r zserio.Reader) error {
	c := n.Context.(*packCtx)
	v, err := packTraits{}.Read(n, r, int(c.index))
	o.v = v
	return err
}

func specPackElems(want *cv.S, vs []uint64) {
	sum := uint64(0)
	for _, e := range vs {
		sum = sum*3 + e
	}
	for i, e := range vs {
		if i == 0 {
			want.Bits(uint64(len(vs)), 4)
			want.Bits(sum, 64)
			want.Bits(0, len(vs))
		}
		want.Bits(uint64(i), 4)
		want.Bits(1, 1)
		want.Bits(e, 64)
	}
}

// Arrays of objects, packed and not: count if automatic, then every object in
// order; decoding passes each object its parameters first.
//
//gocv:harness prop=C08,C04,C09,C10,C12 use=var,size param=n:0..4 bounded="arrays of at most 4 objects"
func HObjectArray() {
	n := cv.Param("n")
	auto, packed := cv.Any[bool]("auto"), cv.Any[bool]("packed")
	elems := make([]obj, n)
	bad := false
	var vs []uint64
	for i := range elems {
		elems[i].v = cv.Any[uint64]("v")
		bad = cv.Or(bad, cv.Ite(packed, elems[i].v>>62 != 0, elems[i].bad()))
		vs = append(vs, elems[i].v)
	}
	a := ztype.ObjectArray[obj, *obj]{IsAuto: auto, IsPacked: packed}
	if !auto {
		a.FixedSize = n
	}
	pos := cv.AnyPos("pos")
	s := cv.At(pos)
	err := a.MarshalZserio(elems, s.Writer())
	if bad {
		cv.Ensures(err != nil && cv.IsErr(err, errElement), "an object that can not be written is reported")
		return
	}
	cv.Cover("encoded")
	cv.Ensures(err == nil, "encodes when every object can be written")
	want := cv.At(pos)
	if auto {
		want.Tok("varsize", uint64(n))
	}
	var size int
	var serr error
	if packed {
		specPackElems(want, vs)
		size, serr = a.ZserioBitSizePacked(elems, int(pos))
	} else {
		for i := range elems {
			elems[i].spec(want)
		}
		size, serr = a.ZserioBitSize(elems, int(pos))
	}
	cv.Ensures(s.Eq(want), "writes the count if automatic, then every object in order")
	cv.Ensures(serr == nil && uint64(size) == s.Len(), "size is the number of bits written")
	for i := range elems {
		cv.Ensures(elems[i].v == vs[i], "the objects are not modified")
	}

	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	b := ztype.ObjectArray[obj, *obj]{IsAuto: auto, IsPacked: packed}
	if !auto {
		b.FixedSize = n
	}
	params := 0
	if cv.Any[bool]("parameters") {
		params = 1
		b.SetCompoundParameterFn = func(i int, o *obj) { o.p = uint64(i)*10 + 7 }
	}
	got, derr := b.UnmarshalZserio(r)
	cv.Ensures(derr == nil, "decodes what was encoded")
	cv.Ensures(len(got) == n, "decodes as many objects")
	for i := range vs {
		cv.Ensures(got[i].v == vs[i], "decodes the same objects in order")
		cv.Ensures(got[i].p == uint64(params)*(uint64(i)*10+7), "passes every object its parameters")
	}
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Arrays of objects report every failure and do not panic on any input.
//
//gocv:harness prop=C10,C11 use=var,size loop=3 bounded="at most 3 objects are followed"
func HObjectArrayAny() {
	auto, packed := cv.Any[bool]("auto"), cv.Any[bool]("packed")
	a := ztype.ObjectArray[obj, *obj]{IsAuto: auto, IsPacked: packed, FixedSize: cv.Any[int]("size")}
	if cv.Any[bool]("write") {
		w := cv.At(cv.AnyPos("pos")).FailWriter()
		elems := make([]obj, cv.Choose("n", 0, 2))
		for i := range elems {
			elems[i].v = cv.Any[uint64]("v")
		}
		err := a.MarshalZserio(elems, w)
		cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
		return
	}
	r := cv.AnyReader()
	var err error
	ok := cv.NoPanic(func() { _, err = a.UnmarshalZserio(r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}
