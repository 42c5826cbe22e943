package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/arr"
)

// many makes a slice of n elements.
func many[T any](n int, f func() T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = f()
	}
	return out
}

// list appends the length of an array as varsize and its elements.
func list[T any](s *cv.S, a []T, spec func(v T)) {
	s.Tok("varsize", uint64(len(a)))
	each(a, spec)
}

func each[T any](a []T, spec func(v T)) {
	for _, v := range a {
		spec(v)
	}
}

func point() arr.Point { return arr.Point{X: anyUint[uint16]("x", 9), Label: anyStr("label")} }

func specPoint(s *cv.S, p arr.Point) {
	s.Bits(uint64(p.X), 9)
	str(s, p.Label)
}

func anyColor() arr.Color { return arr.Color(anyUint[uint8]("color", 3)) }

// All arrays have n elements, except for the first, which has one more.
//
//gocv:harness prop=C15,C08,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 3 elements"
func HGenAutomatic() {
	n := cv.Param("n")
	v := arr.Automatic{
		U8:      many(n+1, func() uint8 { return cv.Any[uint8]("u8") }),
		Bits:    many(n, func() uint8 { return anyUint[uint8]("bits", 5) }),
		Ints:    many(n, func() int16 { return anyInt[int16]("ints", 12) }),
		Vars:    many(n, func() int32 { return anyVar[int32]("vars", "varint32") }),
		Bools:   many(n, func() bool { return cv.Any[bool]("bools") }),
		Floats:  many(n, func() float64 { return cv.Any[float64]("floats") }),
		Strings: many(n, func() string { return anyStr("strings") }),
	}
	o := v
	layout(&v, &arr.Automatic{}, &o, func(s *cv.S) {
		list(s, o.U8, func(v uint8) { s.Bits(uint64(v), 8) })
		list(s, o.Bits, func(v uint8) { s.Bits(uint64(v), 5) })
		list(s, o.Ints, func(v int16) { s.Bits(uint64(v), 12) })
		list(s, o.Vars, func(v int32) { s.Tok("varint32", uint64(v)) })
		list(s, o.Bools, func(v bool) { bit(s, v) })
		list(s, o.Floats, func(v float64) { f64(s, v) })
		list(s, o.Strings, func(v string) { str(s, v) })
	})
}

//gocv:harness prop=C15,C08,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 3 elements"
func HGenNamedArrays() {
	n := cv.Param("n")
	v := arr.Named{
		Colors: many(n+1, anyColor),
		Masks:  many(n, func() arr.Mask { return arr.Mask(cv.Any[uint8]("masks")) }),
		Ids:    many(n, func() uint16 { return cv.Any[uint16]("ids") }),
		Paints: many(n, func() arr.Paint { return arr.Paint(anyColor()) }),
		Points: many(n, point),
		Spots:  many(n, func() arr.Spot { return arr.Spot(point()) }),
	}
	o := v
	layout(&v, &arr.Named{}, &o, func(s *cv.S) {
		list(s, o.Colors, func(v arr.Color) { s.Bits(uint64(v), 3) })
		list(s, o.Masks, func(v arr.Mask) { s.Bits(uint64(v), 8) })
		list(s, o.Ids, func(v uint16) { s.Bits(uint64(v), 16) })
		list(s, o.Paints, func(v arr.Paint) { s.Bits(uint64(v), 3) })
		list(s, o.Points, func(v arr.Point) { specPoint(s, v) })
		list(s, o.Spots, func(v arr.Spot) { specPoint(s, arr.Point(v)) })
	})
}

//gocv:harness prop=C15,C08,C04 use=var,size loop=4 param=n:1..3 bounded="arrays of up to 3 elements"
func HGenFixed() {
	n := cv.Param("n")
	v := arr.Fixed{
		N:      uint8(n),
		Three:  many(3, func() uint16 { return cv.Any[uint16]("three") }),
		Many:   many(n, func() uint8 { return anyUint[uint8]("many", 3) }),
		Points: many(n-1, point),
		Colors: many(n, anyColor),
	}
	o := v
	layout(&v, &arr.Fixed{}, &o, func(s *cv.S) {
		s.Bits(uint64(n), 8)
		each(o.Three, func(v uint16) { s.Bits(uint64(v), 16) })
		each(o.Many, func(v uint8) { s.Bits(uint64(v), 3) })
		each(o.Points, func(v arr.Point) { specPoint(s, v) })
		each(o.Colors, func(v arr.Color) { s.Bits(uint64(v), 3) })
	})
}

// Arrays whose number of elements is not the one of the schema are refused.
//
//gocv:harness prop=C15,C08 use=var loop=5 param=n:0..4 bounded="arrays of up to 4 elements"
func HGenFixedLength() {
	n := cv.Param("n")
	v := arr.Fixed{N: 2, Three: make([]uint16, 3), Many: make([]uint8, 2), Points: make([]arr.Point, 1), Colors: make([]arr.Color, 2)}
	switch cv.Choose("array", 0, 3) {
	case 0:
		cv.Requires(n != 3)
		v.Three = make([]uint16, n)
	case 1:
		cv.Requires(n != 2)
		v.Many = make([]uint8, n)
	case 2:
		cv.Requires(n != 1)
		v.Points = make([]arr.Point, n)
	case 3:
		cv.Requires(n != 2)
		v.Colors = make([]arr.Color, n)
	}
	refused(&v)
}

//gocv:harness prop=C15,C08,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenMixedArrays() {
	n := cv.Param("n")
	v := arr.Mixed{
		Flag:    anyUint[uint8]("flag", 1),
		Opt:     maybe("opt", many(n, func() uint8 { return cv.Any[uint8]("opt") })),
		Cond:    many(n, func() uint64 { return anyVar[uint64]("cond", "varsize") }),
		Points:  maybe("points", many(n, point)),
		Aligned: many(n, func() uint8 { return anyUint[uint8]("aligned", 7) }),
		Colors:  maybe("colors", many(n, anyColor)),
	}
	o := v
	want := v
	if v.Flag != 1 {
		want.Cond = nil
	}
	layout(&v, &arr.Mixed{}, &want, func(s *cv.S) {
		s.Bits(uint64(o.Flag), 1)
		present(s, o.Opt, func(a []uint8) { list(s, a, func(v uint8) { s.Bits(uint64(v), 8) }) })
		if o.Flag == 1 {
			list(s, o.Cond, func(v uint64) { s.Tok("varsize", v) })
		}
		present(s, o.Points, func(a []arr.Point) { list(s, a, func(v arr.Point) { specPoint(s, v) }) })
		s.Align(8)
		list(s, o.Aligned, func(v uint8) { s.Bits(uint64(v), 7) })
		present(s, o.Colors, func(a []arr.Color) { list(s, a, func(v arr.Color) { s.Bits(uint64(v), 3) }) })
	})
}

//gocv:harness prop=C15,C08,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements, widths 1, 7, 13 and 64"
func HGenDynamicArray() {
	w := []int{1, 7, 13, 64}[cv.Choose("w", 0, 3)]
	v := arr.Dyn{W: uint8(w), V: many(cv.Param("n"), func() uint64 { return anyUint[uint64]("v", w) })}
	o := v
	layout(&v, &arr.Dyn{}, &o, func(s *cv.S) {
		s.Bits(uint64(w), 8)
		list(s, o.V, func(v uint64) { s.Bits(v, w) })
	})
}

//gocv:harness prop=C10,C11,C12,C15 use=var loop=4 param=t:0..5 bounded="arrays of up to 2 elements"
func HGenArrayFail() {
	switch cv.Param("t") {
	case 0:
		failing(&arr.Automatic{U8: []uint8{1, 2}, Strings: []string{"x"}}, &arr.Automatic{})
	case 1:
		failing(&arr.Named{Colors: []arr.Color{arr.ColorGreen}, Ids: []uint16{1}, Points: []arr.Point{{X: 1}}}, &arr.Named{})
	case 2:
		failing(&arr.Fixed{N: 2, Three: make([]uint16, 3), Many: make([]uint8, 2), Points: make([]arr.Point, 1), Colors: make([]arr.Color, 2)}, &arr.Fixed{})
	case 3:
		c := []uint8{1, 2}
		failing(&arr.Mixed{Flag: 1, Opt: &c, Cond: []uint64{2}}, &arr.Mixed{})
	case 4:
		failing(&arr.Dyn{W: 9, V: []uint64{1, 2}}, &arr.Dyn{})
	case 5:
		failing(&arr.Packed{U32: []uint32{1, 2, 3}, Fixed: make([]uint8, 2), Colors: []arr.Color{1, 2}}, &arr.Packed{})
	}
}
