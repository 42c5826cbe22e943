package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/base"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/imp"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/other"
)

func anyPoint(label string) base.Point {
	return base.Point{X: cv.Any[int8](label + ".x"), Y: anyUint[uint8](label+".y", 4)}
}

func specBasePoint(s *cv.S, p base.Point) {
	s.Bits(uint64(uint8(p.X)), 8)
	s.Bits(uint64(p.Y), 4)
}

func anyUses() imp.Uses {
	v := imp.Uses{Id: base.Id(cv.Any[uint16]("id")), Location: base.Location(anyPoint("location")), Shape: base.Shape(anyUint[uint8]("shape", 4)),
		Form: imp.Form(anyUint[uint8]("form", 4)), Marks: base.Marks(cv.Any[uint16]("marks")), Key: imp.Key(cv.Any[uint16]("key")),
		Thing: other.Thing{Q: cv.Any[uint32]("q"), Point: other.Point{Z: anyUint[uint8]("z", 7)}},
		N:     5, Old: cv.Any[uint8]("old"), Big: cv.Any[uint8]("big")}
	v.Fixed = many(2, func() uint8 { return cv.Any[uint8]("fixed") })
	v.Scaled.V = anyUint[uint64]("scaled", 5)
	v.Sel.Radius = cv.Any[uint8]("radius")
	v.Sel.Corner = anyPoint("corner")
	return v
}

// Names of other packages, of their own names and through subtypes.
//
//gocv:harness prop=C15,C04 use=var,size loop=4
func HGenImported() {
	v := anyUses()
	cv.Requires(v.Shape == 0 || v.Shape == 3)
	cv.Requires(v.Form == 0 || v.Form == 3 || v.Form == 4)
	o := v
	want := v
	want.Scaled.Scale = 5
	want.Sel.Shape = v.Shape
	layout(&v, &imp.Uses{}, &want, func(s *cv.S) {
		s.Bits(uint64(o.Id), 16)
		specBasePoint(s, base.Point(o.Location))
		s.Bits(uint64(o.Shape), 4)
		s.Bits(uint64(o.Form), 4)
		s.Bits(uint64(o.Marks), 16)
		s.Bits(uint64(o.Key), 16)
		s.Bits(uint64(o.Thing.Q), 32)
		s.Bits(uint64(o.Thing.Point.Z), 7)
		each(o.Fixed, func(x uint8) { s.Bits(uint64(x), 8) })
		s.Bits(5, 8)
		s.Bits(o.Scaled.V, 5)
		if o.Shape == 0 {
			s.Bits(uint64(o.Sel.Radius), 8)
			want.Sel.Corner = base.Point{}
		} else {
			specBasePoint(s, o.Sel.Corner)
			want.Sel.Radius = 0
		}
		if o.Marks&2 != 0 {
			s.Bits(uint64(o.Old), 8)
		} else {
			want.Old = 0
		}
		if o.Location.X > 3 {
			s.Bits(uint64(o.Big), 8)
		} else {
			want.Big = 0
		}
	})
}

//gocv:harness prop=C15,C14
func HGenImportedFunctions() {
	v := anyUses()
	cv.Ensures(v.Round() == (v.Shape == 0), "enum of another package")
	cv.Ensures(v.Flat() == (v.Form == 4), "subtype of it")
	cv.Ensures(v.Moved() == int16(uint16(int16(uint8(v.Location.X)+v.Location.Y))+uint16(v.Id)), "function of another package")
	cv.Ensures(v.Count() == 3, "constant of another package")
}

//gocv:harness prop=C15,C04,C08 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenImportedTemplates() {
	n := cv.Param("n")
	v := imp.Pairs{}
	v.Points.First, v.Points.Second = anyPoint("p1"), anyPoint("p2")
	v.Locals.First, v.Locals.Second = imp.Local{V: cv.Any[uint8]("l1")}, imp.Local{V: cv.Any[uint8]("l2")}
	v.Numbers.First, v.Numbers.Second = cv.Any[uint16]("n1"), cv.Any[uint16]("n2")
	v.List = many(n, func() base.Point { return anyPoint("list") })
	o := v
	layout(&v, &imp.Pairs{}, &o, func(s *cv.S) {
		specBasePoint(s, o.Points.First)
		specBasePoint(s, o.Points.Second)
		s.Bits(uint64(o.Locals.First.V), 8)
		s.Bits(uint64(o.Locals.Second.V), 8)
		s.Bits(uint64(o.Numbers.First), 16)
		s.Bits(uint64(o.Numbers.Second), 16)
		list(s, o.List, func(e base.Point) { specBasePoint(s, e) })
		s.Tok("varsize", 0)
	})
}

//gocv:harness prop=C15,C04 use=var,size
func HGenImportedChoice() {
	shape := base.Shape(anyUint[uint8]("shape", 4))
	v := imp.OnImported{Shape: shape, A: base.Id(cv.Any[uint16]("a")), B: base.Marks(cv.Any[uint16]("b")), C: anyPoint("c")}
	o := v
	want := imp.OnImported{Shape: shape}
	layout(&v, &imp.OnImported{Shape: shape}, &want, func(s *cv.S) {
		switch shape {
		case 0:
			s.Bits(uint64(o.A), 16)
			want.A = o.A
		case 4:
			s.Bits(uint64(o.B), 16)
			want.B = o.B
		default:
			specBasePoint(s, o.C)
			want.C = o.C
		}
	})
}
