package zs

import (
	"io"

	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/zstream"
)

const (
	rCache = "@CountReader.Reader.cache"
	rBits  = "@CountReader.Reader.bits"
	rCount = "@CountReader.BitsCount"
)

// rstate is a reader in an arbitrary state that satisfies the representation
// invariant: fewer than 8 unread bits are in the cache, the cache holds nothing
// above them (unless there are none), and the bit count plus the unread bits
// is a multiple of 8. Its abstract content is the unread bits of the cache
// followed by the bytes the underlying reader still holds.
type rstate struct {
	r       *zstream.BitReader
	pending uint8
	k       int
	count   int64
}

// prepare returns an arbitrary state with k unread bits in the cache, over an
// underlying reader.
func prepare(u *cv.R, k int) *rstate {
	s := &rstate{k: k}
	s.r = zstream.NewReader(u)
	s.count = int64(cv.AnyPos("bytes"))*8 + int64(8-k)%8
	s.pending = cv.Any[uint8]("pending")
	if k == 0 {
		cv.Poke(s.r, rCache, cv.Any[uint8]("stale"))
		cv.Requires(s.pending == 0)
	} else {
		cv.Requires(s.pending < 1<<uint(k))
		cv.Poke(s.r, rCache, s.pending)
	}
	cv.Poke(s.r, rBits, byte(k))
	cv.Poke(s.r, rCount, s.count)
	return s
}

// check: the invariant holds, what is left is want, at position count.
func (s *rstate) check(u *cv.R, want *cv.S, count int64) {
	cv.Ensures(cv.Peek[int64](s.r, rCount) == count, "position counts the bits")
	pos, err := s.r.Align(1)
	cv.Ensures(err == nil && pos == count, "reported position")
	bits := cv.Peek[byte](s.r, rBits)
	cv.Ensures(bits < 8 && (count+int64(bits))%8 == 0, "unread bits")
	cache := cv.Peek[byte](s.r, rCache)
	content := cv.At(0)
	if bits > 0 {
		cv.Ensures(cache>>bits == 0, "cache is zero above the unread bits")
		content.Bits(uint64(cache), int(bits))
	}
	content.Cat(u.Rest())
	cv.Ensures(content.Eq(want), "consumes exactly the bits asked for")
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// input returns content of n bytes followed by an arbitrary rest, and the
// first byte count as a bit string; with short, there is no rest and at least
// one byte is missing.
func content(n int) (s *cv.S, head []byte, tail *cv.S) {
	s = cv.At(0)
	head = cv.AnySlice[byte]("in", n)
	s.Bytes(head)
	tail = cv.At(0)
	tail.AnyTail("tail")
	s.Cat(tail)
	return
}

// want splits pending bits and input into the first n bits and the rest.
func (s *rstate) split(head []byte, tail *cv.S, n int) (v uint64, rest *cv.S) {
	all := cv.At(0)
	all.Bits(uint64(s.pending), s.k)
	all.Bytes(head)
	r := all.Reader()
	v, _ = r.ReadBits(uint8(n))
	rest = cv.At(0)
	rest.Cat(r.Rest())
	rest.Cat(tail)
	return
}

// need is the number of input bytes an operation of n bits needs.
func need(n, k int) int {
	if n <= k {
		return 0
	}
	return (n - k + 7) / 8
}

// A new reader presents the input from the first bit, at position 0.
//
//gocv:harness prop=C05,C17 provides=stream
func HNewReader() {
	in, _, tail := content(0)
	u := in.Reader()
	s := &rstate{r: zstream.NewReader(u)}
	s.check(u, tail, 0)
}

// ReadBits returns the next n bits.
//
//gocv:harness prop=C05 provides=stream param=n:0..64
func HReadBits() {
	n, k := cv.Param("n"), cv.Choose("k", 0, 7)
	in, head, tail := content(need(n, k))
	u := in.Reader()
	s := prepare(u, k)
	v, rest := s.split(head, tail, n)
	got, err := s.r.ReadBits(uint8(n))
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(got == v, "returns the next bits")
	s.check(u, rest, s.count+int64(n))
}

// ReadBool returns the next bit.
//
//gocv:harness prop=C05 provides=stream
func HReadBool() {
	k := cv.Choose("k", 0, 7)
	in, head, tail := content(need(1, k))
	u := in.Reader()
	s := prepare(u, k)
	v, rest := s.split(head, tail, 1)
	got, err := s.r.ReadBool()
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(got == (v == 1), "returns the next bit")
	s.check(u, rest, s.count+1)
}

// ReadByte returns the next eight bits.
//
//gocv:harness prop=C05 provides=stream
func HReadByte() {
	k := cv.Choose("k", 0, 7)
	in, head, tail := content(1)
	u := in.Reader()
	s := prepare(u, k)
	v, rest := s.split(head, tail, 8)
	got, err := s.r.ReadByte()
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(uint64(got) == v, "returns the next byte")
	s.check(u, rest, s.count+8)
}

// io.ReadFull at a byte boundary fills a slice of any length with the next
// bytes.
//
//gocv:harness prop=C05 provides=stream
func HReadAligned() {
	in, want := cv.At(0), cv.Any[[]byte]("in")
	in.Bytes(want)
	tail := cv.At(0)
	tail.AnyTail("tail")
	in.Cat(tail)
	u := in.Reader()
	s := prepare(u, 0)
	p := make([]byte, len(want))
	n, err := s.r.Read(p)
	cv.Ensures(err == nil && n == len(p), "succeeds")
	cv.Ensures(cv.SameBytes(p, want), "returns the next bytes")
	s.check(u, tail, s.count+8*int64(len(p)))
}

// A read at a byte boundary that delivers fewer bytes counts those.
//
//gocv:harness prop=C05 provides=stream
func HReadShort() {
	in, head, tail := content(3)
	u := in.ShortReader()
	s := prepare(u, 0)
	p := make([]byte, 3)
	n, err := s.r.Read(p)
	cv.Ensures(err == nil && n >= 1 && n <= 3, "succeeds")
	n = cv.Choose("n", n, n)
	for i := 0; i < n; i++ {
		cv.Ensures(p[i] == head[i], "returns the next bytes")
	}
	rest := cv.At(0)
	rest.Bytes(head[n:])
	rest.Cat(tail)
	s.check(u, rest, s.count+8*int64(n))
}

// Read between byte boundaries fills a slice with the next bytes.
//
//gocv:harness prop=C05 provides=stream bounded="slices of at most 9 bytes" param=n:0..9
func HReadUnaligned() {
	n, k := cv.Param("n"), cv.Choose("k", 1, 7)
	in, head, tail := content(n)
	u := in.Reader()
	s := prepare(u, k)
	all := cv.At(0)
	all.Bits(uint64(s.pending), k)
	all.Bytes(head)
	p := make([]byte, n)
	m, err := io.ReadFull(s.r, p)
	cv.Ensures(err == nil && m == n, "succeeds")
	got := cv.At(0)
	got.Bytes(p)
	rest := cv.At(0)
	r := all.Reader()
	for i := 0; i < n; i++ {
		b, _ := r.ReadByte()
		cv.Ensures(p[i] == b, "returns the next bytes")
	}
	rest.Cat(r.Rest())
	rest.Cat(tail)
	s.check(u, rest, s.count+8*int64(n))
}

func checkAlignReader(b uint64, k int) {
	rem := uint64(cv.Choose("rem", 0, int(b)-1))
	d := 0
	if rem != 0 {
		d = int(b - rem)
	}
	in, head, tail := content(need(d, k))
	u := in.Reader()
	s := prepare(u, k)
	s.count = int64(uint64(cv.Any[uint32]("multiple"))*b + rem)
	cv.Requires((s.count+int64(k))%8 == 0)
	cv.Poke(s.r, rCount, s.count)
	all := cv.At(0)
	all.Bits(uint64(s.pending), k)
	all.Bytes(head)
	r := all.Reader()
	for i := 0; i < d; i++ {
		r.ReadBool()
	}
	rest := cv.At(0)
	rest.Cat(r.Rest())
	rest.Cat(tail)
	pos, err := s.r.Align(uint8(b))
	cv.Ensures(err == nil, "succeeds")
	cv.Ensures(pos == s.count+int64(d), "moves to the least following multiple")
	s.check(u, rest, s.count+int64(d))
}

// Align moves to the next multiple of the boundary.
//
//gocv:harness prop=C05 provides=stream param=e:0..7 weight=2
func HAlignReader() {
	checkAlignReader(1<<uint(cv.Param("e")), cv.Choose("k", 0, 7))
}

// The same for boundaries that are no power of two.
//
//gocv:harness prop=C05 param=b:3..31 weight=1
func HAlignReaderSmall() {
	checkAlignReader(uint64(cv.Param("b")), cv.Choose("k", 0, 7))
}

// The same for the largest boundaries.
//
//gocv:harness prop=C05 param=b:253..255 weight=5
func HAlignReaderLarge() {
	checkAlignReader(uint64(cv.Param("b")), cv.Choose("k", 0, 7))
}

// The same for every other boundary.
//
//gocv:harness prop=C05 tier=thorough param=b:32..252 weight=3
func HAlignReaderAny() {
	checkAlignReader(uint64(cv.Param("b")), cv.Choose("k", 0, 7))
}

func anyRead(r *zstream.BitReader) (bits int64, err error) {
	switch cv.Choose("op", 0, 4) {
	case 0:
		n := cv.Choose("n", 0, 64)
		_, err = r.ReadBits(uint8(n))
		return int64(n), err
	case 1:
		_, err = r.ReadBool()
		return 1, err
	case 2:
		_, err = r.ReadByte()
		return 8, err
	case 3:
		n := cv.Choose("n", 0, 3)
		_, err = io.ReadFull(r, make([]byte, n))
		return 8 * int64(n), err
	}
	_, err = r.Align(uint8(1) << uint(cv.Choose("e", 0, 6)))
	return 0, err
}

// Every failure of the underlying reader is reported, and nothing panics.
//
//gocv:harness prop=C05,C10,C11 provides=stream
func HReaderFails() {
	u := cv.AnyReader()
	s := prepare(u, cv.Choose("k", 0, 7))
	var err error
	ok := cv.NoPanic(func() { _, err = anyRead(s.r) })
	cv.Ensures(ok, "never panics")
	cv.Ensures(cv.Implies(u.Failed(), err != nil), "a failed read is reported")
	cv.Ensures(cv.Implies(!u.Failed(), err == nil), "no failure is made up")
}

// Reading beyond the end is an error.
//
//gocv:harness prop=C05,C10 provides=stream weight=5
func HReaderEnds() {
	in := cv.At(0)
	m := cv.Choose("bytes left", 0, 8)
	in.Bytes(cv.AnySlice[byte]("in", m))
	k := cv.Choose("k", 0, 7)
	s := prepare(in.Reader(), k)
	n, err := anyRead(s.r)
	if n > int64(8*m+k) {
		cv.Cover("too few bits")
		cv.Ensures(err != nil, "reading beyond the end is an error")
	} else if n > 0 {
		cv.Ensures(err == nil, "reading up to the end succeeds")
	}
}
