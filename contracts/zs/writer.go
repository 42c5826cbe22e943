// Package zs holds the contracts of the bit stream (package zstream, down to
// the bit cache of the bitio library it is built on).
//
// Representation invariant of a writer: fewer than 8 bits are pending in the
// cache, below them the cache is zero, and the bit count is congruent to the
// number of pending bits modulo 8. The abstract content of a writer is the
// bytes handed to the underlying writer followed by the pending bits. Every
// operation is verified from an arbitrary state that satisfies the invariant
// and must re-establish it, so the contracts hold after any history.
package zs

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/zstream"
)

const (
	wCache = "@CountWriter.Writer.cache"
	wBits  = "@CountWriter.Writer.bits"
	wCount = "@CountWriter.BitsCount"
)

// state is a writer in an arbitrary state with its expected abstract content.
type state struct {
	w     *zstream.BitWriter
	g     *cv.W
	out   *cv.S // bytes handed to the underlying writer
	want  *cv.S // abstract content
	count int64
}

func anyWriter(k int, fail bool) *state {
	s := &state{out: cv.At(0), want: cv.At(0)}
	if fail {
		s.g = s.out.FailWriter()
	} else {
		s.g = s.out.Writer()
	}
	s.w = zstream.NewWriter(s.g)
	s.count = int64(cv.AnyPos("bytes"))*8 + int64(k)
	v := cv.Any[uint8]("pending")
	cv.Requires(v < 1<<uint(k))
	cv.Poke(s.w, wCache, v<<uint(8-k))
	cv.Poke(s.w, wBits, byte(k))
	cv.Poke(s.w, wCount, s.count)
	s.want.Bits(uint64(v), k)
	return s
}

// check: the invariant holds and the abstract content is s.want, at position
// count.
func (s *state) check(count int64) {
	cv.Ensures(s.w.BitPosition() == count, "position counts the bits")
	cv.Ensures(cv.Peek[int64](s.w, wCount) == count, "bit count")
	bits := cv.Peek[byte](s.w, wBits)
	cv.Ensures(bits < 8 && int64(bits) == count%8, "pending bits")
	cache := cv.Peek[byte](s.w, wCache)
	cv.Ensures(cache<<bits == 0, "cache is zero below the pending bits")
	content := cv.At(0)
	content.Cat(s.out)
	content.Bits(uint64(cache>>(8-bits)), int(bits))
	cv.Ensures(content.Eq(s.want), "appends exactly the bits, in order")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// A new writer is empty, at position 0.
//
//gocv:harness prop=C05,C17 provides=stream
func HNewWriter() {
	s := &state{out: cv.At(0), want: cv.At(0)}
	s.g = s.out.Writer()
	s.w = zstream.NewWriter(s.g)
	s.check(0)
}

// WriteBits appends the n low bits, most significant first.
//
//gocv:harness prop=C05 provides=stream param=n:0..64
func HWriteBits() {
	n, k := cv.Param("n"), cv.Choose("k", 0, 7)
	s := anyWriter(k, false)
	x := cv.Any[uint64]("x")
	err := s.w.WriteBits(x, uint8(n))
	cv.Ensures(err == nil, "succeeds")
	s.want.Bits(x, n)
	s.check(s.count + int64(n))
}

// WriteBitsUnsafe does the same for a value below 2^n.
//
//gocv:harness prop=C05 provides=stream param=n:0..64
func HWriteBitsUnsafe() {
	n, k := cv.Param("n"), cv.Choose("k", 0, 7)
	s := anyWriter(k, false)
	x := cv.Any[uint64]("x")
	if n < 64 {
		cv.Requires(x>>uint(n) == 0)
	}
	err := s.w.WriteBitsUnsafe(x, uint8(n))
	cv.Ensures(err == nil, "succeeds")
	s.want.Bits(x, n)
	s.check(s.count + int64(n))
}

// WriteBool appends one bit.
//
//gocv:harness prop=C05 provides=stream
func HWriteBool() {
	s := anyWriter(cv.Choose("k", 0, 7), false)
	b := cv.Any[bool]("b")
	err := s.w.WriteBool(b)
	cv.Ensures(err == nil, "succeeds")
	s.want.Bits(cv.Ite[uint64](b, 1, 0), 1)
	s.check(s.count + 1)
}

// WriteByte appends eight bits.
//
//gocv:harness prop=C05 provides=stream
func HWriteByte() {
	s := anyWriter(cv.Choose("k", 0, 7), false)
	b := cv.Any[byte]("b")
	err := s.w.WriteByte(b)
	cv.Ensures(err == nil, "succeeds")
	s.want.Bits(uint64(b), 8)
	s.check(s.count + 8)
}

// Write at a byte boundary appends a byte slice of any length.
//
//gocv:harness prop=C05 provides=stream
func HWriteAligned() {
	s := anyWriter(0, false)
	p := cv.Any[[]byte]("p")
	n, err := s.w.Write(p)
	cv.Ensures(err == nil && n == len(p), "succeeds")
	s.want.Bytes(p)
	s.check(s.count + 8*int64(len(p)))
}

// Write between byte boundaries appends a byte slice.
//
//gocv:harness prop=C05 provides=stream bounded="slices of at most 9 bytes" param=n:0..9
func HWriteUnaligned() {
	n, k := cv.Param("n"), cv.Choose("k", 1, 7)
	s := anyWriter(k, false)
	p := cv.AnySlice[byte]("p", n)
	m, err := s.w.Write(p)
	cv.Ensures(err == nil && m == n, "succeeds")
	s.want.Bytes(p)
	s.check(s.count + 8*int64(n))
}

func checkAlign(b uint64, k int) {
	s := anyWriter(k, false)
	// any position: a multiple of the boundary plus a remainder
	rem := uint64(cv.Choose("rem", 0, int(b)-1))
	s.count = int64(uint64(cv.Any[uint32]("multiple"))*b + rem)
	cv.Requires(s.count%8 == int64(k))
	cv.Poke(s.w, wCount, s.count)
	pos, err := s.w.Align(uint8(b))
	cv.Ensures(err == nil, "succeeds")
	d := uint64(0)
	if rem != 0 {
		d = b - rem
	}
	for i := uint64(0); i < d; i++ {
		s.want.Bits(0, 1)
	}
	cv.Ensures(uint64(pos) == uint64(s.count)+d, "moves to the least following multiple")
	s.check(s.count + int64(d))
}

// Align fills with zero bits up to the next multiple of the boundary.
//
//gocv:harness prop=C05 provides=stream param=e:0..7 weight=2
func HAlign() {
	checkAlign(1<<uint(cv.Param("e")), cv.Choose("k", 0, 7))
}

// The same for boundaries that are no power of two.
//
//gocv:harness prop=C05 param=b:3..31 weight=1
func HAlignSmall() {
	checkAlign(uint64(cv.Param("b")), cv.Choose("k", 0, 7))
}

// The same for the largest boundaries.
//
//gocv:harness prop=C05 param=b:250..255 weight=5
func HAlignLarge() {
	checkAlign(uint64(cv.Param("b")), cv.Choose("k", 0, 7))
}

// The same for every other boundary.
//
//gocv:harness prop=C05 tier=thorough param=b:32..249 weight=3
func HAlignAny() {
	checkAlign(uint64(cv.Param("b")), cv.Choose("k", 0, 7))
}

// Close flushes the pending bits, filled up with zero bits.
//
//gocv:harness prop=C05,C17 provides=stream
func HClose() {
	k := cv.Choose("k", 0, 7)
	s := anyWriter(k, false)
	err := s.w.Close()
	cv.Ensures(err == nil, "succeeds")
	if k != 0 {
		s.want.Bits(0, 8-k)
	}
	cv.Ensures(s.out.Eq(s.want), "hands over every bit, the last byte filled with zero bits")
	err = s.w.Close()
	cv.Ensures(err == nil && s.out.Eq(s.want), "closing again adds nothing")
}

// Every failure of the underlying writer is reported.
//
//gocv:harness prop=C05,C10 provides=stream
func HWriterFails() {
	k := cv.Choose("k", 0, 7)
	s := anyWriter(k, true)
	var err error
	switch cv.Choose("op", 0, 6) {
	case 0:
		err = s.w.WriteBits(cv.Any[uint64]("x"), uint8(cv.Choose("n", 0, 64)))
	case 1:
		n := cv.Choose("n", 0, 64)
		x := cv.Any[uint64]("x")
		if n < 64 {
			cv.Requires(x>>uint(n) == 0)
		}
		err = s.w.WriteBitsUnsafe(x, uint8(n))
	case 2:
		err = s.w.WriteBool(cv.Any[bool]("b"))
	case 3:
		err = s.w.WriteByte(cv.Any[byte]("b"))
	case 4:
		_, err = s.w.Write(cv.AnySlice[byte]("p", cv.Choose("n", 0, 3)))
	case 5:
		_, err = s.w.Align(uint8(1) << uint(cv.Choose("e", 0, 6)))
	case 6:
		err = s.w.Close()
	}
	cv.Ensures(cv.Implies(s.g.Failed(), err != nil), "a failed write is reported")
	cv.Ensures(cv.Implies(!s.g.Failed(), err == nil), "no failure is made up")
}
