package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/tpl"
)

// Instantiations are reached through the fields, whatever their names are.
//
//gocv:harness prop=C15,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenTemplates() {
	n := cv.Param("n")
	pt := func() tpl.Point { return tpl.Point{X: anyUint[uint8]("x", 5)} }
	var v tpl.Uses
	v.P.First, v.P.Second = cv.Any[uint16]("p1"), cv.Any[bool]("p2")
	v.T = tpl.Tagged{First: cv.Any[uint8]("t1"), Second: anyStr("t2")}
	v.Points.Head, v.Points.Items = pt(), many(n, pt)
	v.Numbers.Head = anyVar[uint32]("head", "varuint32")
	v.Numbers.Items = many(n, func() uint32 { return anyVar[uint32]("items", "varuint32") })
	v.Deep.First = pt()
	v.Deep.Second.First = cv.Any[bool]("d1")
	v.Deep.Second.Second = cv.Any[int8]("d2")
	v.Deeper.First = pt()
	v.Deeper.Second.First = cv.Any[int8]("d3")
	v.Deeper.Second.Second = cv.Any[bool]("d4")
	o := v
	layout(&v, &tpl.Uses{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.P.First), 16)
		bit(s, o.P.Second)
		s.Bits(uint64(o.T.First), 8)
		str(s, o.T.Second)
		s.Bits(uint64(o.Points.Head.X), 5)
		list(s, o.Points.Items, func(p tpl.Point) { s.Bits(uint64(p.X), 5) })
		s.Tok("varuint32", uint64(o.Numbers.Head))
		list(s, o.Numbers.Items, func(v uint32) { s.Tok("varuint32", uint64(v)) })
		s.Bits(uint64(o.Deep.First.X), 5)
		bit(s, o.Deep.Second.First)
		s.Bits(uint64(o.Deep.Second.Second), 8)
		s.Bits(uint64(o.Deeper.First.X), 5)
		s.Bits(uint64(o.Deeper.Second.First), 8)
		bit(s, o.Deeper.Second.Second)
	})
}

//gocv:harness prop=C15,C04 use=var,size loop=4 param=c:1..2
func HGenTemplateMembers() {
	var v tpl.Others
	v.B3.V = anyUint[uint8]("b3", 3)
	v.B11.V = anyUint[uint16]("b11", 11)
	v.W.W.V.V = cv.Any[uint8]("w")
	v.Any.UnionChoice = tpl.AnyUnionChoiceType(cv.Param("c"))
	v.Twice.A.V = many(1, func() uint8 { return cv.Any[uint8]("a") })
	v.Twice.B.V = many(2, func() uint8 { return cv.Any[uint8]("b") })
	if cv.Param("c") == 1 {
		v.Any.A.V = cv.Any[uint16]("any.a")
	} else {
		v.Any.B.First, v.Any.B.Second.X = cv.Any[bool]("any.b"), anyUint[uint8]("any.x", 5)
	}
	o := v
	o.Twice.A.N, o.Twice.B.N = 1, 2
	layout(&v, &tpl.Others{}, &o, func(s *cv.S) {
		s.Bits(uint64(o.B3.V), 3)
		s.Bits(uint64(o.B11.V), 11)
		s.Bits(uint64(o.W.W.V.V), 8)
		s.Tok("varsize", uint64(cv.Param("c")-1))
		if cv.Param("c") == 1 {
			s.Bits(uint64(o.Any.A.V), 16)
		} else {
			bit(s, o.Any.B.First)
			s.Bits(uint64(o.Any.B.Second.X), 5)
		}
		each(o.Twice.A.V, func(v uint8) { s.Bits(uint64(v), 8) })
		each(o.Twice.B.V, func(v uint8) { s.Bits(uint64(v), 8) })
	})
}

//gocv:harness prop=C15,C04 use=var,size
func HGenTemplateExpressions() {
	var v tpl.Limits
	v.C8.A, v.C8.B = cv.Any[uint8]("a"), cv.Any[uint8]("b")
	v.C64.A, v.C64.B = cv.Any[int64]("c"), cv.Any[uint8]("d")
	// no overflow
	cv.Requires(v.C8.A < 255 && v.C64.A < 1<<62)
	v.Left, v.N = cv.Any[bool]("left"), cv.Any[uint8]("n")
	v.Either.L, v.Either.R.X = cv.Any[uint8]("l"), anyUint[uint8]("r", 5)
	v.Fallback.One, v.Fallback.Other.X = cv.Any[uint8]("one"), anyUint[uint8]("other", 5)
	o := v
	want := v
	want.Either.Left, want.Fallback.N = v.Left, v.N
	spec := func(s *cv.S) {
		s.Bits(uint64(o.C8.A), 8)
		if o.C8.A > 2 {
			s.Bits(uint64(o.C8.B), 8)
		} else {
			want.C8.B = 0
		}
		s.Bits(uint64(o.C64.A), 64)
		if o.C64.A > 2 {
			s.Bits(uint64(o.C64.B), 8)
		} else {
			want.C64.B = 0
		}
		bit(s, o.Left)
		if o.Left {
			s.Bits(uint64(o.Either.L), 8)
			want.Either.R.X = 0
		} else {
			s.Bits(uint64(o.Either.R.X), 5)
			want.Either.L = 0
		}
		s.Bits(uint64(o.N), 8)
		if o.N == 1 {
			s.Bits(uint64(o.Fallback.One), 8)
			want.Fallback.Other.X = 0
		} else {
			s.Bits(uint64(o.Fallback.Other.X), 5)
			want.Fallback.One = 0
		}
	}
	layout(&v, &tpl.Limits{}, &want, spec)
}
