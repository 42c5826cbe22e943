// Package cv is the contract runtime. Under the verifier (gocv) its functions
// are primitives with a logical meaning; compiled normally, they execute the
// contract on concrete values, which is how counterexamples are replayed
// against the real code.
package cv

import (
	"errors"
	"io"
	"reflect"
)

// ErrIO is the error of a failing ghost stream.
var ErrIO = errors.New("ghost stream failure")

// Any returns an arbitrary value of type T (universally quantified input).
func Any[T any](label string) T { return anyValue(reflect.TypeFor[T](), label).Interface().(T) }

// AnySlice returns a slice of n arbitrary elements.
func AnySlice[T any](label string, n int) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = Any[T](label)
	}
	return out
}

// Choose returns an arbitrary integer in [lo,hi], enumerated case by case.
func Choose(label string, lo, hi int) int { return choose(label, lo, hi) }

// Param returns the parameter of a parametrised harness instance.
func Param(name string) int { return params[name] }

// AnyPos returns an arbitrary bit position of a stream.
func AnyPos(label string) uint64 { return anyPos(label) }

// Requires restricts the inputs considered (precondition).
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// Ensures is a proof obligation.
func Ensures(b bool, name string) {
	if !b {
		fail(name)
	}
}

// Cover must be reachable (guards against vacuous contracts).
func Cover(name string) {}

// NoPanic runs f and reports whether it returned without panicking.
func NoPanic(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case skip, failSig:
				panic(x)
			}
			lastPanic = x
			ok = false
		}
	}()
	f()
	return true
}

// IsErr is errors.Is.
func IsErr(err, target error) bool { return errors.Is(err, target) }

// Same is deep equality of two values (floats compared by bit pattern, nil and
// empty slices identified).
func Same(a, b any) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

// SameBytes reports whether two byte slices hold the same bytes.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// Unchanged reports whether no package-level variable was written since the
// start of the harness (frame condition; only meaningful to the verifier).
func Unchanged() bool { return true }

// Ite selects without branching.
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// And, Or, Not, Implies are non-branching connectives.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// ---- ghost bit strings

// S is a ghost bit string that starts at an absolute bit position.
type S struct {
	start uint64
	bits  []byte // one bit per byte
}

// At returns the empty bit string at a position.
func At(pos uint64) *S { return &S{start: pos} }

// Bits appends the n low bits of v, most significant first.
func (s *S) Bits(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		b := byte(0)
		if i < 64 {
			b = byte(v >> uint(i) & 1)
		}
		s.bits = append(s.bits, b)
	}
}

// Bytes appends a byte sequence.
func (s *S) Bytes(b []byte) {
	for _, x := range b {
		s.Bits(uint64(x), 8)
	}
}

// Str appends the bytes of a string.
func (s *S) Str(x string) { s.Bytes([]byte(x)) }

// Tok appends the specified encoding of a variable-length integer.
func (s *S) Tok(kind string, v uint64) { SpecVar(s, kind, v) }

// Align appends zero bits up to the next multiple of b.
func (s *S) Align(b uint64) {
	for s.Pos()%b != 0 {
		s.Bits(0, 1)
	}
}

// Cat appends another bit string (its own start is irrelevant).
func (s *S) Cat(t *S) { s.bits = append(s.bits, t.bits...) }

// AnyTail appends an arbitrary byte sequence.
func (s *S) AnyTail(label string) { s.Bytes(Any[[]byte](label)) }

// Len is the number of bits; Pos the absolute position of the end.
func (s *S) Len() uint64 { return uint64(len(s.bits)) }
func (s *S) Pos() uint64 { return s.start + uint64(len(s.bits)) }

// Eq reports equality of the bits.
func (s *S) Eq(t *S) bool { return string(s.bits) == string(t.bits) }

// Writer returns a reliable writer appending to s.
func (s *S) Writer() *W { return &W{s: s} }

// FailWriter returns a writer one of whose operations may fail.
func (s *S) FailWriter() *W { return &W{s: s, mayFail: true} }

// Reader returns a reader over the bits of s.
func (s *S) Reader() *R { return &R{start: s.start, bits: s.bits} }

// FailReader returns a reader over the bits of s whose operations may fail.
func (s *S) FailReader() *R { return &R{start: s.start, bits: s.bits, mayFail: true} }

// ShortReader returns a reader whose Read may deliver fewer bytes than asked.
func (s *S) ShortReader() *R { return &R{start: s.start, bits: s.bits, short: true} }

// AnyReader returns a reader over arbitrary content that may end or fail at
// any operation.
func AnyReader() *R { return &R{start: anyPos("pos"), arb: true} }

// W is a ghost writer; it implements zserio.Writer.
type W struct {
	s       *S
	mayFail bool
	failed  bool
}

func (w *W) fail() bool {
	if w.mayFail && !w.failed && nondet("wfail") {
		w.failed = true
		return true
	}
	return false
}

// Failed reports whether an operation failed.
func (w *W) Failed() bool { return w.failed }

// S is the bit string written so far.
func (w *W) S() *S { return w.s }

func (w *W) WriteBits(v uint64, n uint8) error {
	if w.fail() {
		return ErrIO
	}
	w.s.Bits(v, int(n))
	return nil
}
func (w *W) WriteBitsUnsafe(v uint64, n uint8) error {
	if n < 64 && v>>n != 0 {
		fail("pre:WriteBitsUnsafe")
	}
	return w.WriteBits(v, n)
}
func (w *W) WriteBool(b bool) error {
	if b {
		return w.WriteBits(1, 1)
	}
	return w.WriteBits(0, 1)
}
func (w *W) WriteByte(b byte) error { return w.WriteBits(uint64(b), 8) }
func (w *W) Write(b []byte) (int, error) {
	if w.fail() {
		return 0, ErrIO
	}
	w.s.Bytes(b)
	return len(b), nil
}
func (w *W) Align(b uint8) (int64, error) {
	if w.s.Pos()%uint64(b) != 0 && w.fail() {
		return 0, ErrIO
	}
	w.s.Align(uint64(b))
	return int64(w.s.Pos()), nil
}

// EmitTok writes the specified encoding of a variable-length integer.
func (w *W) EmitTok(kind string, v uint64) error {
	if w.fail() {
		return ErrIO
	}
	w.s.Tok(kind, v)
	return nil
}

// R is a ghost reader; it implements zserio.Reader.
type R struct {
	start   uint64
	bits    []byte
	pos     int
	mayFail bool
	short   bool
	arb     bool
	failed  bool
}

// Failed reports whether an operation failed (other than by a short read).
func (r *R) Failed() bool { return r.failed }

// Pos is the absolute position of the next bit.
func (r *R) Pos() uint64 { return r.start + uint64(r.pos) }

// Rest is the bit string not yet read.
func (r *R) Rest() *S { return &S{start: r.Pos(), bits: r.bits[r.pos:]} }

func (r *R) take(n int) (uint64, error) {
	if r.failed {
		return 0, ErrIO
	}
	if (r.arb || r.mayFail) && nondet("rfail") {
		r.failed = true
		return 0, ErrIO
	}
	if r.arb {
		v := uint64(0)
		if n > 0 {
			v = anyBits("rbits", n)
		}
		for i := n - 1; i >= 0; i-- {
			r.bits = append(r.bits, byte(v>>uint(i)&1))
		}
		r.pos += n
		return v, nil
	}
	if r.pos+n > len(r.bits) {
		r.failed = true
		return 0, io.EOF
	}
	v := uint64(0)
	for _, b := range r.bits[r.pos : r.pos+n] {
		v = v<<1 | uint64(b)
	}
	r.pos += n
	return v, nil
}

func (r *R) ReadBits(n uint8) (uint64, error) { return r.take(int(n)) }
func (r *R) ReadBool() (bool, error) {
	v, err := r.take(1)
	return v == 1, err
}
func (r *R) ReadByte() (byte, error) {
	v, err := r.take(8)
	return byte(v), err
}
func (r *R) Read(p []byte) (int, error) {
	if r.arb {
		if r.failed || nondet("rfail") {
			r.failed = true
			return 0, io.EOF
		}
		b := anyBytesN("rbytes", len(p))
		copy(p, b)
		for _, x := range p {
			for i := 7; i >= 0; i-- {
				r.bits = append(r.bits, x>>uint(i)&1)
			}
		}
		r.pos += 8 * len(p)
		return len(p), nil
	}
	if r.short && len(p) > 1 && nondet("rshort") {
		p = p[:1]
	}
	if r.mayFail && !r.failed && len(p) > 0 && nondet("rfail") {
		r.failed = true
		return 0, ErrIO
	}
	for i := range p {
		if r.pos+8 > len(r.bits) {
			if i == 0 {
				r.failed = true
				return 0, io.EOF
			}
			return i, nil
		}
		v := byte(0)
		for _, b := range r.bits[r.pos : r.pos+8] {
			v = v<<1 | b
		}
		r.pos += 8
		p[i] = v
	}
	return len(p), nil
}
func (r *R) Align(b uint8) (int64, error) {
	n := 0
	if m := r.Pos() % uint64(b); m != 0 {
		n = int(uint64(b) - m)
		for n > 64 {
			if _, err := r.take(64); err != nil {
				return 0, err
			}
			n -= 64
		}
		if _, err := r.take(n); err != nil {
			return 0, err
		}
	}
	return int64(r.Pos()), nil
}

// HasTok reports whether the next thing to read is known to be the encoding
// of a variable-length integer of this kind (verifier only).
func (r *R) HasTok(kind string) bool { return false }

// TakeTok reads it.
func (r *R) TakeTok(kind string) (uint64, error) { panic("TakeTok") }

// GhostW and GhostR report whether a stream is a ghost stream on which
// contracts may be used instead of code (verifier only).
func GhostW(w any) (*W, bool) { return nil, false }
func GhostR(r any) (*R, bool) { return nil, false }

// Arb reports whether a reader has arbitrary content.
func (r *R) Arb() bool { return r.arb }

// AnyTok reads an arbitrary variable-length integer (arbitrary content).
func (r *R) AnyTok(kind string) (uint64, error) { panic("AnyTok") }

// Peek and Poke access a field of a real object by path ("f.g", where each
// step is a field name or "@Type", the field of that type).
func Peek[T any](obj any, path string) T    { return peek(obj, path).Interface().(T) }
func Poke[T any](obj any, path string, v T) { poke(obj, path, reflect.ValueOf(v)) }
