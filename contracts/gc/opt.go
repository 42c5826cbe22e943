package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/opt"
)

// maybe is nil or a pointer to v.
func maybe[T any](label string, v T) *T {
	if cv.Any[bool](label + " present") {
		return &v
	}
	return nil
}

// present appends the presence bit, and the encoding of a present value.
func present[T any](s *cv.S, p *T, spec func(v T)) {
	bit(s, p != nil)
	if p != nil {
		spec(*p)
	}
}

func inner(label string) opt.Inner {
	return opt.Inner{X: anyUint[uint8](label+".x", 7), Name: anyStr(label + ".name")}
}

func specInner(s *cv.S, v opt.Inner) {
	s.Bits(uint64(v.X), 7)
	str(s, v.Name)
}

//gocv:harness prop=C15,C04 use=var,size
func HGenOptionals() {
	v := opt.Optionals{B: maybe("b", cv.Any[bool]("b")), V: maybe("v", anyVar[uint64]("v", "varuint")), S: maybe("s", anyStr("s")),
		Bits: maybe("bits", anyUint[uint8]("bits", 5)), Kind: maybe("kind", opt.KindMany), Inner: maybe("inner", inner("inner"))}
	o := v
	layout(&v, &opt.Optionals{}, &o, func(s *cv.S) {
		present(s, o.B, func(b bool) { bit(s, b) })
		present(s, o.V, func(v uint64) { s.Tok("varuint", v) })
		present(s, o.S, func(x string) { str(s, x) })
		present(s, o.Bits, func(v uint8) { s.Bits(uint64(v), 5) })
		present(s, o.Kind, func(v opt.Kind) { s.Bits(9, 8) })
		present(s, o.Inner, func(v opt.Inner) { specInner(s, v) })
		s.Bits(0, 3)
	})
}

//gocv:harness prop=C15,C04 use=var,size
func HGenOptionalNames() {
	v := opt.Optionals{Id: maybe("id", cv.Any[uint32]("id")), Part: maybe("part", inner("part")), F: maybe("f", cv.Any[float32]("f"))}
	o := v
	layout(&v, &opt.Optionals{}, &o, func(s *cv.S) {
		s.Bits(0, 6)
		present(s, o.Id, func(v opt.Id) { s.Bits(uint64(v), 32) })
		present(s, o.Part, func(v opt.Part) { specInner(s, v) })
		present(s, o.F, func(v float32) { f32(s, v) })
	})
}

// Decoding replaces the values an object had before.
//
//gocv:harness prop=C15 use=var
func HGenDecodeAgain() {
	old := opt.Optionals{B: maybe("b", true), V: maybe("v", uint64(3)), Kind: maybe("kind", opt.KindOne), Inner: maybe("inner", inner("inner"))}
	t := cv.At(cv.AnyPos("pos"))
	t.Bits(0, 9)
	decode(t, &old, &opt.Optionals{})
}

//gocv:harness prop=C15,C04 use=var,size param=kind:0..2
func HGenConditions() {
	v := opt.Conditions{N: cv.Any[uint8]("n"), Kind: []opt.Kind{opt.KindNone, opt.KindOne, opt.KindMany}[cv.Param("kind")], Flag: cv.Any[bool]("flag"),
		A: cv.Any[uint16]("a"), S: anyStr("s"), Inner: inner("inner"), C: anyUint[uint8]("c", 3), D: maybe("d", cv.Any[uint8]("d"))}
	o := v
	// fields whose condition does not hold are not decoded
	want := v
	spec := func(s *cv.S) {
		s.Bits(uint64(o.N), 8)
		s.Bits(uint64(o.Kind), 8)
		bit(s, o.Flag)
		if o.N > 10 {
			s.Bits(uint64(o.A), 16)
		} else {
			want.A = 0
		}
		if o.Flag && o.N != 7 {
			str(s, o.S)
		} else {
			want.S = ""
		}
		if o.Kind == opt.KindMany {
			specInner(s, o.Inner)
		} else {
			want.Inner = opt.Inner{}
		}
		if !o.Flag || o.N>>2&1 == 1 {
			s.Bits(uint64(o.C), 3)
		} else {
			want.C = 0
		}
		if o.Flag {
			present(s, o.D, func(v uint8) { s.Bits(uint64(v), 8) })
		} else {
			want.D = nil
		}
	}
	layout(&v, &opt.Conditions{}, &want, spec)
}

//gocv:harness prop=C15,C04 use=var,size
func HGenAligned() {
	v := opt.Aligned{A: anyUint[uint8]("a", 3), B: cv.Any[uint16]("b"), C: anyUint[uint8]("c", 1), D: anyUint[uint8]("d", 5),
		E: maybe("e", anyUint[uint8]("e", 2)), F: maybe("f", cv.Any[uint8]("f")), G: cv.Any[bool]("g"), H: anyStr("h")}
	o := v
	layout(&v, &opt.Aligned{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.A), 3)
		s.Align(8)
		s.Bits(uint64(o.B), 16)
		s.Bits(uint64(o.C), 1)
		s.Align(32)
		s.Bits(uint64(o.D), 5)
		present(s, o.E, func(v uint8) { s.Bits(uint64(v), 2) })
		// the presence bit comes before the alignment of the value
		present(s, o.F, func(v uint8) { s.Align(16); s.Bits(uint64(v), 8) })
		bit(s, o.G)
		s.Align(64)
		str(s, o.H)
	})
}

//gocv:harness prop=C10,C11,C12,C15 use=var param=t:0..2
func HGenOptFail() {
	switch cv.Param("t") {
	case 0:
		v := opt.Optionals{B: maybe("b", true), V: maybe("v", uint64(3)), Kind: maybe("kind", opt.KindOne), Inner: maybe("inner", inner("inner"))}
		failing(&v, &opt.Optionals{})
	case 1:
		v := opt.Conditions{N: cv.Any[uint8]("n"), Kind: opt.KindMany, Flag: cv.Any[bool]("flag"), A: 3, S: "x", Inner: inner("inner")}
		failing(&v, &opt.Conditions{})
	case 2:
		v := opt.Aligned{E: maybe("e", uint8(2)), F: maybe("f", uint8(77))}
		failing(&v, &opt.Aligned{})
	}
}
