package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/expr"
	"github.com/woven-planet/go-zserio/ztype"
)

func operands() expr.Operands {
	return expr.Operands{A: cv.Any[uint8]("a"), B: cv.Any[uint16]("b"), C: cv.Any[int8]("c"), D: cv.Any[int64]("d"), E: anyUint[uint8]("e", 5),
		V: cv.Any[uint32]("v"), F: cv.Any[float32]("f"), G: cv.Any[float64]("g"), Id: expr.Id(cv.Any[uint16]("id")), Flag: expr.Flag(cv.Any[bool]("flag")),
		Real: expr.Real(cv.Any[float32]("real")), Paint: expr.Paint(cv.Any[uint8]("paint")), Flags: expr.Flags(cv.Any[uint8]("flags")), S: anyStr("s"),
		Part: expr.Part{N: cv.Any[uint8]("n"), M: cv.Any[int32]("m"), Colour: expr.Colour(cv.Any[uint8]("colour")),
			List: []uint8{cv.Any[uint8]("l0"), cv.Any[uint8]("l1"), cv.Any[uint8]("l2")}},
		List: []uint32{cv.Any[uint32]("i0"), cv.Any[uint32]("i1")}}
}

// Conditions have the value that the language defines: comparisons of different
// types compare the numbers, and operators have their precedence in zserio.
//
//gocv:harness prop=C15,C14
func HGenComparisons() {
	v := operands()
	is := func(got, want bool, what string) { cv.Ensures(got == want, what) }
	is(v.Less(), v.A < 10, "less")
	is(v.LessEqual(), int64(v.A) <= int64(v.B), "less or equal")
	is(v.Greater(), v.C > -5, "greater")
	is(v.GreaterEqual(), int64(v.C) >= int64(v.A), "greater or equal")
	is(v.Equal(), v.D == int64(v.A), "equal")
	is(v.NotEqual(), uint64(v.E) != uint64(v.V), "not equal")
	is(v.Floats(), float64(v.F) < v.G, "floats")
	is(v.Booleans(), bool(v.Flag) == (v.A > 3), "booleans")
	is(v.Subtyped(), v.Paint == 2, "enum subtype")
	is(v.Member(), v.Part.Colour != 7, "enum of a member")
	is(v.Mask(), v.Flags&2 != 0, "isset")
	is(v.Masked(), v.Flags&0x10 == 0x10, "bitmask")
	is(v.Length(), false, "lengthof")
	is(v.Element(), v.Part.List[1] == 5, "array element")
	is(v.Called(), v.Part.List[0] > v.A, "function of a member")
	is(v.Value(), v.Paint > 3, "valueof")
	is(v.Precedence(), v.A&8 == 8, "precedence of + over &")
	is(v.Shift(), v.A>>4 < 3, "precedence of >> over <")
	is(v.Complement(), v.A == 250, "complement")
	is(v.Negative(), v.C == -5, "negation")
	is(v.Text(), v.S == "zserio", "strings")
	is(v.Beyond(), true, "literal above the range of the operand")
	is(v.Below(), true, "literal below the range of the operand")
	is(v.SameValue(), uint8(v.Paint) == uint8(v.Part.Colour), "values of enums")
	is(v.Calls(), v.A+0 == v.A && uint16(v.A)+v.B < uint16(v.Part.N+v.Part.N), "functions")
}

//gocv:harness prop=C15,C14
func HGenLogical() {
	v := operands()
	got := v.Logical()
	want := cv.Or(cv.And(bool(v.Flag), v.A == 3), cv.And(!bool(v.Flag), v.B != 0x100))
	cv.Ensures(got == want, "&& binds closer than ||")
	cv.Cover("logical")
}

// Arithmetic between different types is done in the larger of the types, which
// is unsigned if one of them is (C14).
//
//gocv:harness prop=C15,C14
func HGenArithmetic() {
	v := operands()
	is := func(ok bool, what string) { cv.Ensures(ok, what) }
	is(v.Sum() == uint16(v.A)+v.B, "sum")
	is(v.Mixed() == int64(v.C)*v.D, "product of signed types")
	is(v.Nested() == int64(v.C)+v.D*2+3, "precedence")
	is(v.Grouped() == (int64(v.C)+v.D)*5, "parentheses")
	is(v.Left() == v.D-int64(v.A)-int64(v.C), "from left to right")
	is(v.IdSum() == uint16(v.Id)+uint16(v.A), "subtypes")
	is(v.Call() == uint16(v.Part.N+v.Part.N)+uint16(v.A), "function result has its declared type")
	is(v.Call2() == -v.Part.M-int32(v.C), "negation")
	is(v.Nest() == uint16(v.A)+v.B+1, "own function")
	is(v.Shifted() == v.D<<3, "shift")
	is(v.Bits() == uint32(v.B&0xff)|(uint32(v.E)^v.V), "bitwise operators")
	is(v.Item() == v.List[1]+uint32(v.A), "array element")
	is(v.Colour() == uint8(v.Paint), "valueof")
	is(v.Same() == v.Part.Colour, "enum")
	is(v.Sized() == 2*v.D, "lengthof")
	is(v.Rest() == (v.A+1)%8/2, "% and / have the same precedence")
	is(v.Inverse() == ^v.B, "complement")
	is(v.Constant() == 21, "constant")
	is(v.Identity() == v.Id, "subtype")
	is(v.Needed() == uint8(ztype.NumBits(uint64(v.B))+1), "numbits")
	is(v.Name() == v.S, "string")
	is(v.Large() == uint32(v.A)+1000, "literal that needs a larger type")
	is(v.Minus() == int64(v.C)-200, "negative result")
	is(v.Wide() == uint16(v.A)|0x100, "literal in a bitwise operator")
	is(v.Values() == uint16(v.Paint)+v.B, "valueof has the base type")
	is(v.FixedValue() == 8, "value of an enum item")
	is(v.FlagValue() == int16(uint8(v.Flags))-300, "value of a bitmask")
}

//gocv:harness prop=C15,C14
func HGenFloats() {
	v := operands()
	cv.Ensures(cv.Same(v.Product(), float64(v.F)*v.G), "product")
	cv.Ensures(cv.Same(v.Ratio(), v.F/float32(v.A)), "integer becomes a float")
	cv.Ensures(cv.Same(v.Third(), v.G/3), "literal")
	cv.Ensures(cv.Same(v.Reals(), float64(v.Real)*2), "subtype")
}

//gocv:harness prop=C15,C14
func HGenTernary() {
	v := operands()
	cv.Ensures(v.Choose() == cv.Ite(v.A > 3, v.A, uint8(7)), "integer")
	cv.Ensures(v.Choose2() == cv.Ite(bool(v.Flag), int32(v.C), int32(-3)), "constant")
	cv.Ensures(v.Choose3() == cv.And(v.A > 1, bool(v.Flag)), "bool")
	cv.Ensures(v.Choose4() == cv.Ite(v.A > 3, v.A, uint8(7))+cv.Ite(bool(v.Flag), uint8(1), uint8(2)), "as operands")
	cv.Ensures(v.Choose5() == cv.Ite(bool(v.Flag), expr.Colour(v.Paint), expr.Colour(7)), "enums")
	cv.Ensures(v.Choose6() == cv.Ite(bool(v.Flag), uint64(v.V), cv.Ite(v.D < 0, uint64(v.B), uint64(v.A))), "nested, different types")
	cv.Ensures(cv.Same(v.Choose7(), cv.Ite(bool(v.Flag), float64(v.F), v.G)), "floats")
	if v.Flag {
		cv.Ensures(v.Choose8() == v.S, "strings")
	} else {
		cv.Ensures(v.Choose8() == "none", "strings")
	}
	cv.Ensures(v.Choose9() == (cv.Ite(bool(v.Flag), int64(v.A), int64(v.C)) < 5), "compares the number")
	cv.Cover("chosen")
}

//gocv:harness prop=C15,C04,C14 use=var,size loop=4 bounded="arrays of up to 3 elements"
func HGenConditional() {
	v := expr.Conditional{A: cv.Any[uint8]("a"), B: cv.Any[int16]("b"), Paint: expr.Paint(cv.Any[uint8]("paint")), Flags: expr.Flags(cv.Any[uint8]("flags")),
		Mixed: cv.Any[uint8]("mixed"), Coloured: cv.Any[uint8]("coloured")}
	cv.Requires(v.Paint == 1 || v.Paint == 2 || v.Paint == 7)
	switch v.A % 3 {
	case 0:
		v.Values = many(1, func() uint16 { return cv.Any[uint16]("value") })
	case 1:
		v.Values = many(2, func() uint16 { return cv.Any[uint16]("value") })
	default:
		v.Values = many(3, func() uint16 { return cv.Any[uint16]("value") })
	}
	if int64(v.A) > int64(v.B) {
		v.More = many(2, func() uint8 { return anyUint[uint8]("more", 4) })
	} else {
		v.More = many(1, func() uint8 { return anyUint[uint8]("more", 4) })
	}
	o := v
	want := v
	layout(&v, &expr.Conditional{}, &want, func(s *cv.S) {
		s.Bits(uint64(o.A), 8)
		s.Bits(uint64(uint16(o.B)), 16)
		s.Bits(uint64(o.Paint), 8)
		s.Bits(uint64(o.Flags), 8)
		if int64(o.B) >= int64(o.A) {
			s.Bits(uint64(o.Mixed), 8)
		} else {
			want.Mixed = 0
		}
		if o.Paint == 7 || o.Flags&1 != 0 {
			s.Bits(uint64(o.Coloured), 8)
		} else {
			want.Coloured = 0
		}
		each(o.Values, func(x uint16) { s.Bits(uint64(x), 16) })
		each(o.More, func(x uint8) { s.Bits(uint64(x), 4) })
	})
}
