package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/sel"
)

func body(label string) sel.Body {
	return sel.Body{X: anyUint[uint8](label+".x", 3), Y: anyVar[uint16](label+".y", "varuint16")}
}

func specBody(s *cv.S, v sel.Body) {
	s.Bits(uint64(v.X), 3)
	s.Tok("varuint16", uint64(v.Y))
}

// specByNumber appends the selected member and returns what decoding restores.
func specByNumber(s *cv.S, o sel.ByNumber) sel.ByNumber {
	want := sel.ByNumber{N: o.N}
	switch o.N {
	case 1:
		s.Bits(uint64(o.A), 16)
		want.A = o.A
	case 2, 3:
		specBody(s, o.B)
		want.B = o.B
	case 4:
	default:
		str(s, o.C)
		want.C = o.C
	}
	return want
}

//gocv:harness prop=C15,C04 use=var,size
func HGenChoiceNumber() {
	v := sel.ByNumber{N: cv.Any[uint8]("n"), A: cv.Any[uint16]("a"), B: body("b"), C: anyStr("c")}
	want := specByNumber(cv.At(0), v)
	o := v
	layout(&v, &sel.ByNumber{N: v.N}, &want, func(s *cv.S) { specByNumber(s, o) })
}

func specByKind(s *cv.S, o sel.ByKind) sel.ByKind {
	want := sel.ByKind{Kind: o.Kind}
	switch o.Kind {
	case 4:
		s.Bits(uint64(o.One), 32)
		want.One = o.One
	case 5, 7:
		list(s, o.Two, func(v uint8) { s.Bits(uint64(v), 3) })
		want.Two = o.Two
	}
	return want
}

//gocv:harness prop=C15,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenChoiceKind() {
	v := sel.ByKind{Kind: sel.Kind(cv.Choose("kind", 4, 7)), One: cv.Any[uint32]("one"), Two: many(cv.Param("n"), func() uint8 { return anyUint[uint8]("two", 3) })}
	want := specByKind(cv.At(0), v)
	o := v
	layout(&v, &sel.ByKind{Kind: v.Kind}, &want, func(s *cv.S) { specByKind(s, o) })
}

func specByFlag(s *cv.S, o sel.ByFlag) sel.ByFlag {
	want := sel.ByFlag{Flag: o.Flag}
	if o.Flag {
		s.Bits(uint64(o.Yes), 8)
		want.Yes = o.Yes
	} else {
		str(s, o.No)
		want.No = o.No
	}
	return want
}

//gocv:harness prop=C15,C04 use=var,size
func HGenChoiceFlag() {
	v := sel.ByFlag{Flag: cv.Any[bool]("flag"), Yes: cv.Any[int8]("yes"), No: anyStr("no")}
	want := specByFlag(cv.At(0), v)
	o := v
	layout(&v, &sel.ByFlag{Flag: v.Flag}, &want, func(s *cv.S) { specByFlag(s, o) })
}

// The selector is an expression over two parameters.
//
//gocv:harness prop=C15,C14,C04 use=var,size
func HGenChoiceExpression() {
	v := sel.Summed{A: anyUint[uint8]("a", 4), B: cv.Any[uint8]("b")}
	v.Sum.Ten = cv.Any[uint8]("ten")
	v.Sum.Sixteen = cv.Any[uint16]("sixteen")
	// the sum of a bit:4 and an uint8 is not truncated
	sum := int(v.A) + int(v.B)
	cv.Requires(sum == 10 || sum == 16)
	o := v
	want := v
	want.Sum = sel.ByExpression{A: v.A, B: v.B}
	if sum == 10 {
		want.Sum.Ten = v.Sum.Ten
	} else {
		want.Sum.Sixteen = v.Sum.Sixteen
	}
	layout(&v, &sel.Summed{}, &want, func(s *cv.S) {
		s.Bits(uint64(o.A), 4)
		s.Bits(uint64(o.B), 8)
		if sum == 10 {
			s.Bits(uint64(o.Sum.Ten), 8)
		} else {
			s.Bits(uint64(o.Sum.Sixteen), 16)
		}
	})
}

// The members get their parameters from the fields before them, whatever
// parameters they had.
//
//gocv:harness prop=C15,C04 use=var,size loop=4 param=kind:4..7
func HGenSelected() {
	v := sel.Selected{N: cv.Any[uint8]("n"), Kind: sel.Kind(cv.Param("kind")), Flag: cv.Any[bool]("flag"),
		ByNumber: sel.ByNumber{N: cv.Any[uint8]("old n"), A: cv.Any[uint16]("a"), B: body("b"), C: anyStr("c")},
		ByKind:   sel.ByKind{Kind: 4, One: cv.Any[uint32]("one"), Two: []uint8{anyUint[uint8]("two", 3)}},
		ByFlag:   sel.ByFlag{Flag: cv.Any[bool]("old flag"), Yes: cv.Any[int8]("yes"), No: anyStr("no")}}
	o := v
	o.ByNumber.N, o.ByKind.Kind, o.ByFlag.Flag = o.N, o.Kind, o.Flag
	want := o
	spec := func(s *cv.S) {
		s.Bits(uint64(o.N), 8)
		s.Bits(uint64(o.Kind), 8)
		bit(s, o.Flag)
		want.ByNumber = specByNumber(s, o.ByNumber)
		want.ByKind = specByKind(s, o.ByKind)
		want.ByFlag = specByFlag(s, o.ByFlag)
	}
	layout(&v, &sel.Selected{}, &want, spec)
}

func anyUnion(label string, choice int) sel.Any {
	return sel.Any{UnionChoice: sel.AnyUnionChoiceType(choice), Small: cv.Any[uint8](label + ".small"), Text: anyStr(label + ".text"), Body: body(label + ".body"),
		Nibbles: []uint8{anyUint[uint8](label+".nibbles", 4), anyUint[uint8](label+".nibbles", 4)}, Kind: sel.KindThree}
}

// specUnion appends the tag, which is the index of the selected field, and the
// field, and returns what decoding restores.
func specUnion(s *cv.S, o sel.Any) sel.Any {
	want := sel.Any{UnionChoice: o.UnionChoice}
	switch o.UnionChoice {
	case sel.AnyChoiceSmall:
		s.Tok("varsize", 0)
		s.Bits(uint64(o.Small), 8)
		want.Small = o.Small
	case sel.AnyChoiceText:
		s.Tok("varsize", 1)
		str(s, o.Text)
		want.Text = o.Text
	case sel.AnyChoiceBody:
		s.Tok("varsize", 2)
		specBody(s, o.Body)
		want.Body = o.Body
	case sel.AnyChoiceNibbles:
		s.Tok("varsize", 3)
		list(s, o.Nibbles, func(v uint8) { s.Bits(uint64(v), 4) })
		want.Nibbles = o.Nibbles
	case sel.AnyChoiceKind:
		s.Tok("varsize", 4)
		s.Bits(uint64(o.Kind), 8)
		want.Kind = o.Kind
	}
	return want
}

//gocv:harness prop=C15,C04 use=var,size loop=4 param=choice:1..5 bounded="arrays of 2 elements"
func HGenUnion() {
	v := anyUnion("v", cv.Param("choice"))
	want := specUnion(cv.At(0), v)
	o := v
	layout(&v, &sel.Any{}, &want, func(s *cv.S) { specUnion(s, o) })
}

//gocv:harness prop=C15,C04 use=var,size loop=4 param=choice:1..5 bounded="arrays of 2 elements"
func HGenHoldsUnion() {
	c := cv.Param("choice")
	v := sel.HoldsUnion{Lead: anyUint[uint8]("lead", 2), Any: anyUnion("any", c), More: []sel.Any{anyUnion("more", c%5+1), anyUnion("more", 1)}}
	o := v
	o.More = []sel.Any{v.More[0], v.More[1]}
	want := o
	want.Any = specUnion(cv.At(0), o.Any)
	want.More = []sel.Any{specUnion(cv.At(0), o.More[0]), specUnion(cv.At(0), o.More[1])}
	layout(&v, &sel.HoldsUnion{}, &want, func(s *cv.S) {
		s.Bits(uint64(o.Lead), 2)
		specUnion(s, o.Any)
		list(s, o.More, func(v sel.Any) { specUnion(s, v) })
	})
}

// Unions without a selected field, and tags without a field, are errors.
//
//gocv:harness prop=C15 use=var,size
func HGenUnionRefused() {
	v := anyUnion("v", 1)
	v.UnionChoice = cv.Any[sel.AnyUnionChoiceType]("choice")
	cv.Requires(v.UnionChoice < 1 || v.UnionChoice > 5)
	refused(&v)
	tag := cv.Any[uint64]("tag")
	cv.Requires(tag >= 5 && tag < 1<<31)
	s := cv.At(cv.AnyPos("at"))
	s.Tok("varsize", tag)
	s.AnyTail("tail")
	err := (&sel.Any{}).UnmarshalZserio(s.Reader())
	cv.Ensures(err != nil, "an unknown tag is an error")
}

//gocv:harness prop=C10,C11,C12,C15 use=var loop=4 param=t:0..4 bounded="arrays of up to 2 elements"
func HGenSelFail() {
	switch cv.Param("t") {
	case 0:
		n := cv.Any[uint8]("n")
		failing(&sel.ByNumber{N: n, A: 3, B: sel.Body{X: 1, Y: 300}, C: "text"}, &sel.ByNumber{N: n})
	case 1:
		k := sel.Kind(cv.Choose("kind", 4, 7))
		failing(&sel.ByKind{Kind: k, One: 3, Two: []uint8{1, 2}}, &sel.ByKind{Kind: k})
	case 2:
		failing(&sel.Selected{N: 2, Kind: 5, Flag: true, ByKind: sel.ByKind{Two: []uint8{2}}}, &sel.Selected{})
	case 3:
		v := anyUnion("v", cv.Choose("choice", 1, 5))
		failing(&v, &sel.Any{})
	case 4:
		failing(&sel.HoldsUnion{Any: anyUnion("v", 1), More: []sel.Any{anyUnion("v", 2)}}, &sel.HoldsUnion{})
	}
}
