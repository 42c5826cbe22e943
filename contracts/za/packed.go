package za

import (
	"math/bits"

	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
	"golang.org/x/exp/constraints"
)

// packedKind describes an integer element kind to the contract.
type packedKind[T any] struct {
	fits func(v T) bool
	size func(v T) int
	spec func(s *cv.S, v T)
}

// absDiff is |a-b| of two elements as integers.
func absDiff[T constraints.Integer](a, b T) uint64 {
	return cv.Ite(a > b, uint64(a)-uint64(b), uint64(b)-uint64(a))
}

func bitLen(v uint64) int { return bits.Len64(v) }

// specPacked appends the zserio encoding of a packed array of n elements.
func specPacked[T constraints.Integer](s *cv.S, k packedKind[T], elems []T, aligned bool) {
	n := len(elems)
	if n == 0 {
		return
	}
	all, max := 0, 0
	for i, e := range elems {
		all += k.size(e)
		if i > 0 {
			l := bitLen(absDiff(e, elems[i-1]))
			max = cv.Ite(l > max, l, max)
		}
	}
	delta := cv.Ite(max > 0, max+1, 0)
	packed := cv.And(n > 1, cv.And(max <= 62, 6+k.size(elems[0])+(n-1)*delta < all))
	for i, e := range elems {
		if aligned {
			s.Align(8)
		}
		if i == 0 {
			s.Bits(cv.Ite[uint64](packed, 1, 0), 1)
			if packed {
				cv.Cover("packed")
				s.Bits(uint64(max), 6)
			}
		}
		if i > 0 && packed {
			s.Bits(uint64(e)-uint64(elems[i-1]), delta)
		} else {
			k.spec(s, e)
		}
	}
}

func checkPacked[T constraints.Integer, Y ztype.IArrayTraits[T]](traits Y, k packedKind[T], n int, aligned bool) {
	auto := n%2 == 0
	elems := cv.AnySlice[T]("elems", n)
	fit := true
	for _, e := range elems {
		fit = cv.And(fit, k.fits(e))
	}
	cv.Requires(fit)
	var calls []call
	a := newArray[T, Y](traits, aligned, auto, true, &calls)
	a.RawArray = elems
	if !auto {
		a.FixedSize = n
	}
	pos := cv.AnyPos("pos")
	size, serr := a.ZserioBitSizePacked(int(pos))
	s := cv.At(pos)
	err := a.MarshalZserio(s.Writer())
	cv.Ensures(err == nil, "encodes when every element can be represented")
	cv.Cover("encoded")
	cv.Ensures(serr == nil && uint64(size) == s.Len(), "size is the number of bits written")
	want := cv.At(pos)
	if auto {
		want.Tok("varsize", uint64(n))
	}
	specPacked(want, k, elems, aligned)
	cv.Ensures(s.Eq(want), "writes the zserio encoding of a packed array")

	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	b := newArray[T, Y](traits, aligned, auto, true, &calls)
	if !auto {
		b.FixedSize = n
	}
	derr := b.UnmarshalZserio(r)
	cv.Ensures(derr == nil, "decodes what was encoded")
	cv.Ensures(len(b.RawArray) == n, "decodes as many elements")
	for i, e := range elems {
		cv.Ensures(b.RawArray[i] == e, "decodes the same elements in order")
	}
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func bitKind[T constraints.Unsigned](w int) packedKind[T] {
	return packedKind[T]{
		fits: func(v T) bool { return fitsUnsigned(uint64(v), w) },
		size: func(v T) int { return w },
		spec: func(s *cv.S, v T) { s.Bits(uint64(v), w) },
	}
}

func signedBitKind[T constraints.Signed](w int) packedKind[T] {
	return packedKind[T]{
		fits: func(v T) bool { return fitsSigned(int64(v), w) },
		size: func(v T) int { return w },
		spec: func(s *cv.S, v T) { s.Bits(uint64(v), w) },
	}
}

// Packed arrays of bit fields.
//
//gocv:harness prop=C09,C08,C04,C12 use=var,size param=n:0..2 deep=n:0..3 param=kind:0..7 bounded="arrays of at most 2 elements (thorough: 3)" weight=5 time=600
func HPackedBits() {
	n := cv.Param("n")
	switch cv.Param("kind") {
	case 0:
		checkPacked[uint8](ztype.GetBitFieldArrayTraits[uint8](8), bitKind[uint8](8), n, false)
	case 1:
		checkPacked[uint16](ztype.GetBitFieldArrayTraits[uint16](16), bitKind[uint16](16), n, false)
	case 2:
		checkPacked[uint32](ztype.GetBitFieldArrayTraits[uint32](32), bitKind[uint32](32), n, false)
	case 3:
		checkPacked[uint64](ztype.GetBitFieldArrayTraits[uint64](64), bitKind[uint64](64), n, false)
	case 4:
		checkPacked[int8](ztype.GetSignedBitFieldArrayTraits[int8](8), signedBitKind[int8](8), n, false)
	case 5:
		checkPacked[int16](ztype.GetSignedBitFieldArrayTraits[int16](16), signedBitKind[int16](16), n, false)
	case 6:
		checkPacked[int32](ztype.GetSignedBitFieldArrayTraits[int32](32), signedBitKind[int32](32), n, false)
	case 7:
		checkPacked[int64](ztype.GetSignedBitFieldArrayTraits[int64](64), signedBitKind[int64](64), n, false)
	}
}

// ---- the delta context, step by step, for arrays of any number of elements

// delta is what a delta context knows after n elements were announced.
type delta struct {
	n, sum, first, max int
	prev               uint64
}

const (
	dPrev    = "previousElement"
	dMax     = "maxBitNumber"
	dSum     = "unpackedBitSize"
	dFirst   = "firstElementBitSize"
	dNum     = "numElements"
	dPacked  = "isPacked"
	dStarted = "processingStarted"
)

// announced returns an arbitrary context to which at least one element was
// announced (the object invariant of the first phase).
func announced[T constraints.Integer](max int) (*ztype.DeltaContext[T], *delta, T) {
	ctx := &ztype.DeltaContext[T]{}
	d := &delta{n: cv.Any[int]("n"), sum: cv.Any[int]("sum"), first: cv.Any[int]("first"), max: max}
	prev := cv.Any[T]("prev")
	d.prev = uint64(prev)
	cv.Requires(d.n >= 1 && d.n < 1<<31 && d.first >= 0 && d.first < 1<<20 && d.sum >= d.first && d.sum < 1<<51)
	cv.Requires(d.max >= 0 && d.max <= 64)
	cv.Requires(cv.Implies(d.n == 1, d.max == 0))
	u := d.prev
	cv.Poke(ctx, dPrev, &u)
	cv.Poke(ctx, dNum, d.n)
	cv.Poke(ctx, dSum, d.sum)
	cv.Poke(ctx, dFirst, d.first)
	cv.Poke(ctx, dMax, d.max)
	cv.Poke(ctx, dPacked, cv.And(d.n > 1, d.max <= 62))
	return ctx, d, prev
}

func isAnnounced[T any](ctx *ztype.DeltaContext[T], d *delta) {
	cv.Ensures(!cv.Peek[bool](ctx, dStarted), "announcing an element does not start the second phase")
	p := cv.Peek[*uint64](ctx, dPrev)
	cv.Ensures(p != nil && *p == d.prev, "remembers the previous element")
	cv.Ensures(cv.Peek[int](ctx, dNum) == d.n, "counts the elements")
	cv.Ensures(cv.Peek[int](ctx, dSum) == d.sum, "adds up the sizes")
	cv.Ensures(cv.Peek[int](ctx, dFirst) == d.first, "remembers the size of the first element")
	max := cv.Peek[int](ctx, dMax)
	cv.Ensures(cv.Ite(d.max <= 62, max == d.max, max > 62), "remembers the width of the widest difference")
	cv.Ensures(cv.Peek[bool](ctx, dPacked) == cv.And(d.n > 1, d.max <= 62), "can be packed if every difference fits 62 bits")
}

func deltaInit[T constraints.Integer](traits ztype.IArrayTraits[T]) {
	e := cv.Any[T]("e")
	size := traits.BitSizeOf(e, 0)
	if cv.Any[bool]("first of all") {
		ctx := &ztype.DeltaContext[T]{}
		ctx.Init(traits, e)
		isAnnounced(ctx, &delta{n: 1, sum: size, first: size, prev: traits.AsUint64(e)})
		return
	}
	ctx, d, prev := announced[T](cv.Any[int]("max"))
	ctx.Init(traits, e)
	l := bitLen(absDiff(e, prev))
	d.n, d.sum, d.prev = d.n+1, d.sum+size, traits.AsUint64(e)
	d.max = cv.Ite(l > d.max, l, d.max)
	isAnnounced(ctx, d)
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func deltaPacked(d *delta) bool {
	w := cv.Ite(d.max > 0, d.max+1, 0)
	return cv.And(cv.And(d.n > 1, d.max <= 62), 6+d.first+(d.n-1)*w < d.sum)
}

func deltaWriteFirst[T constraints.Integer](traits ztype.IArrayTraits[T], k packedKind[T]) {
	ctx, d, _ := announced[T](cv.Choose("max", 0, 64))
	e := cv.Any[T]("e")
	cv.Requires(k.fits(e))
	want := cv.At(0)
	packed := deltaPacked(d)
	want.Bits(cv.Ite[uint64](packed, 1, 0), 1)
	if packed {
		want.Bits(uint64(d.max), 6)
	}
	k.spec(want, e)
	if cv.Any[bool]("size") {
		size, err := ctx.BitSizeOf(traits, cv.Any[int]("at"), e)
		cv.Ensures(err == nil && uint64(size) == want.Len(), "size of the descriptor and the first element")
	} else {
		s := cv.At(0)
		err := ctx.Write(traits, s.Writer(), e)
		cv.Ensures(err == nil, "writes the first element")
		cv.Ensures(s.Eq(want), "writes the descriptor and the first element in full")
		p := cv.Peek[*uint64](ctx, dPrev)
		cv.Ensures(p != nil && *p == traits.AsUint64(e), "remembers the previous element")
	}
	cv.Ensures(cv.Peek[bool](ctx, dStarted), "starts the second phase")
	cv.Ensures(cv.Peek[bool](ctx, dPacked) == packed, "packs exactly if the result is strictly smaller")
	cv.Ensures(cv.Implies(packed, cv.Peek[int](ctx, dMax) == d.max), "keeps the width")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// started returns a context in the second phase.
func started[T constraints.Integer](packed bool, max int, prev uint64) *ztype.DeltaContext[T] {
	ctx := &ztype.DeltaContext[T]{}
	cv.Poke(ctx, dPrev, &prev)
	cv.Poke(ctx, dNum, cv.Any[int]("n"))
	cv.Poke(ctx, dSum, cv.Any[int]("sum"))
	cv.Poke(ctx, dFirst, cv.Any[int]("first"))
	cv.Poke(ctx, dMax, max)
	cv.Poke(ctx, dPacked, packed)
	cv.Poke(ctx, dStarted, true)
	return ctx
}

func isStarted[T any](ctx *ztype.DeltaContext[T], packed bool, max int, prev uint64) {
	cv.Ensures(cv.Peek[bool](ctx, dStarted), "stays in the second phase")
	cv.Ensures(cv.Peek[bool](ctx, dPacked) == packed, "stays packed or not")
	if packed {
		cv.Ensures(cv.Peek[int](ctx, dMax) == max, "keeps the width")
		p := cv.Peek[*uint64](ctx, dPrev)
		cv.Ensures(p != nil && *p == prev, "remembers the previous element")
	}
}

func deltaStep[T constraints.Integer](traits ztype.IArrayTraits[T], k packedKind[T], max int) {
	packed := max >= 0
	prev, e := cv.Any[T]("prev"), cv.Any[T]("e")
	cv.Requires(k.fits(prev) && k.fits(e))
	pos := cv.AnyPos("pos")
	want := cv.At(pos)
	if packed {
		d := absDiff(e, prev)
		cv.Requires(d>>uint(max) == 0)
		if max > 0 {
			want.Bits(uint64(e)-uint64(prev), max+1)
		}
	} else {
		k.spec(want, e)
		max = cv.Any[int]("max")
	}
	// encoder
	ctx := started[T](packed, max, traits.AsUint64(prev))
	size, err := ctx.BitSizeOf(traits, int(pos), e)
	cv.Ensures(err == nil && uint64(size) == want.Len(), "size is the number of bits written")
	s := cv.At(pos)
	err = ctx.Write(traits, s.Writer(), e)
	cv.Ensures(err == nil, "writes the element")
	cv.Ensures(s.Eq(want), "writes the difference if packed, else the element")
	isStarted(ctx, packed, max, traits.AsUint64(e))
	// decoder
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	dec := started[T](packed, max, traits.AsUint64(prev))
	got, err := dec.Read(traits, r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == e, "reads the written element")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	isStarted(dec, packed, max, traits.AsUint64(e))
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func deltaReadFirst[T constraints.Integer](traits ztype.IArrayTraits[T], k packedKind[T]) {
	e := cv.Any[T]("e")
	cv.Requires(k.fits(e))
	packed, max := cv.Any[bool]("packed"), cv.Any[int]("max")
	cv.Requires(max >= 0 && max <= 62)
	s := cv.At(cv.AnyPos("pos"))
	s.Bits(cv.Ite[uint64](packed, 1, 0), 1)
	if packed {
		s.Bits(uint64(max), 6)
	}
	k.spec(s, e)
	tail := cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	r := s.Reader()
	ctx := &ztype.DeltaContext[T]{}
	got, err := ctx.Read(traits, r)
	cv.Ensures(err == nil, "reads what was written")
	cv.Ensures(got == e, "reads the first element")
	cv.Ensures(r.Rest().Eq(tail), "consumes exactly the bits written")
	isStarted(ctx, packed, max, traits.AsUint64(e))
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

func deltaAll[T constraints.Integer](traits ztype.IArrayTraits[T], k packedKind[T]) {
	switch cv.Choose("step", 0, 3) {
	case 0:
		deltaInit(traits)
	case 1:
		deltaWriteFirst(traits, k)
	case 2:
		deltaReadFirst(traits, k)
	case 3:
		deltaStep(traits, k, cv.Choose("max", -1, 62))
	}
}

// Every step of the delta context preserves the invariant that ties it to the
// elements announced, written and read, for any number of elements.
//
//gocv:harness prop=C09,C04 use=var,size param=kind:0..16 whitebox=HPackedBits weight=3
func HDelta() {
	switch cv.Param("kind") {
	case 0:
		deltaAll[uint8](ztype.ArrayTraits.UInt8, bitKind[uint8](8))
	case 1:
		deltaAll[uint16](ztype.ArrayTraits.UInt16, bitKind[uint16](16))
	case 2:
		deltaAll[uint32](ztype.ArrayTraits.UInt32, bitKind[uint32](32))
	case 3:
		deltaAll[uint64](ztype.ArrayTraits.UInt64, bitKind[uint64](64))
	case 4:
		deltaAll[int8](ztype.ArrayTraits.Int8, signedBitKind[int8](8))
	case 5:
		deltaAll[int16](ztype.ArrayTraits.Int16, signedBitKind[int16](16))
	case 6:
		deltaAll[int32](ztype.ArrayTraits.Int32, signedBitKind[int32](32))
	case 7:
		deltaAll[int64](ztype.ArrayTraits.Int64, signedBitKind[int64](64))
	case 8:
		deltaAll[int16](ztype.ArrayTraits.VarInt16, varPacked[int16]("varint16"))
	case 9:
		deltaAll[int32](ztype.ArrayTraits.VarInt32, varPacked[int32]("varint32"))
	case 10:
		deltaAll[int64](ztype.ArrayTraits.VarInt64, varPacked[int64]("varint64"))
	case 11:
		deltaAll[int64](ztype.ArrayTraits.VarInt, varPacked[int64]("varint"))
	case 12:
		deltaAll[uint16](ztype.ArrayTraits.VarUInt16, varPacked[uint16]("varuint16"))
	case 13:
		deltaAll[uint32](ztype.ArrayTraits.VarUInt32, varPacked[uint32]("varuint32"))
	case 14:
		deltaAll[uint64](ztype.ArrayTraits.VarUInt64, varPacked[uint64]("varuint64"))
	case 15:
		deltaAll[uint64](ztype.ArrayTraits.VarUInt, varPacked[uint64]("varuint"))
	case 16:
		deltaAll[uint64](ztype.ArrayTraits.VarSize, varPacked[uint64]("varsize"))
	}
}

func varPacked[T constraints.Integer](kind string) packedKind[T] {
	return packedKind[T]{
		fits: func(v T) bool { return cv.VarInRange(kind, uint64(v)) },
		size: func(v T) int { return 8 * cv.VarLen(kind, uint64(v)) },
		spec: func(s *cv.S, v T) { s.Tok(kind, uint64(v)) },
	}
}

func deltaAny[T constraints.Integer](traits ztype.IArrayTraits[T]) {
	max := cv.Any[int]("max")
	packed := cv.Any[bool]("packed")
	cv.Requires(max >= 0 && max <= 63) // six bits in the descriptor
	if cv.Any[bool]("write") {
		w := cv.At(cv.AnyPos("pos")).FailWriter()
		e := cv.Any[T]("e")
		var ctx *ztype.DeltaContext[T]
		if cv.Any[bool]("first") {
			ctx, _, _ = announced[T](cv.Choose("max", 0, 63))
		} else {
			cv.Requires(max <= 62)
			ctx = started[T](packed, max, traits.AsUint64(cv.Any[T]("prev")))
		}
		var err error
		ok := cv.NoPanic(func() { err = ctx.Write(traits, w, e) })
		cv.Ensures(ok, "never panics")
		cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
		return
	}
	r := cv.AnyReader()
	ctx := &ztype.DeltaContext[T]{}
	first := cv.Any[bool]("first")
	if !first {
		ctx = started[T](packed, max, traits.AsUint64(cv.Any[T]("prev")))
	}
	var err error
	ok := cv.NoPanic(func() { _, err = ctx.Read(traits, r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	if err == nil {
		cv.Ensures(cv.Peek[bool](ctx, dStarted), "is in the second phase")
		cv.Ensures(cv.Peek[*uint64](ctx, dPrev) != nil, "remembers the previous element")
		m := cv.Peek[int](ctx, dMax)
		cv.Ensures(cv.Implies(cv.Peek[bool](ctx, dPacked), m >= 0 && m <= 63), "the width is in range")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// Every step of the delta context reports failures and does not panic, in any
// state that decoding can reach.
//
//gocv:harness prop=C10,C11,C12 use=var,size param=kind:0..5 whitebox=HPackedAny
func HDeltaAny() {
	switch cv.Param("kind") {
	case 0:
		deltaAny[uint8](ztype.GetBitFieldArrayTraits[uint8](5))
	case 1:
		deltaAny[uint64](ztype.ArrayTraits.UInt64)
	case 2:
		deltaAny[int8](ztype.GetSignedBitFieldArrayTraits[int8](3))
	case 3:
		deltaAny[int64](ztype.ArrayTraits.Int64)
	case 4:
		deltaAny[int32](ztype.ArrayTraits.VarInt32)
	case 5:
		deltaAny[uint64](ztype.ArrayTraits.VarSize)
	}
}

// Decoding a packed array from arbitrary input, and encoding one to a failing
// writer.
//
//gocv:harness prop=C10,C11,C12 use=var,size param=kind:0..3 loop=2 bounded="at most 2 elements are followed"
func HPackedAny() {
	switch cv.Param("kind") {
	case 0:
		packedAny[uint8](ztype.GetBitFieldArrayTraits[uint8](5))
	case 1:
		packedAny[uint64](ztype.ArrayTraits.UInt64)
	case 2:
		packedAny[int64](ztype.ArrayTraits.Int64)
	case 3:
		packedAny[int16](ztype.ArrayTraits.VarInt16)
	}
}

func packedAny[T constraints.Integer, Y ztype.IArrayTraits[T]](traits Y) {
	var err error
	if cv.Any[bool]("write") {
		w := cv.At(cv.AnyPos("pos")).FailWriter()
		a := newArray[T, Y](traits, false, true, true, nil)
		a.RawArray = cv.AnySlice[T]("elems", 2)
		err = a.MarshalZserio(w)
		cv.Ensures(cv.Implies(w.Failed(), err != nil), "a failed write is reported")
		return
	}
	r := cv.AnyReader()
	ok := cv.NoPanic(func() {
		_, err = ztype.ArrayFromReader(r, traits, cv.Any[int]("size"), true, cv.Any[bool]("auto"))
	})
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(r.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}
