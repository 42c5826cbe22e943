package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/par"
)

func sized(label string, n int) par.Sized {
	return par.Sized{Items: many(n, func() uint16 { return cv.Any[uint16](label + ".items") }), Extra: cv.Any[uint32](label + ".extra")}
}

// specSized appends o with the parameters n and wide, and returns what decoding
// restores.
func specSized(s *cv.S, o par.Sized, n int, wide bool) par.Sized {
	want := par.Sized{N: uint8(n), Wide: wide, Items: o.Items}
	each(o.Items, func(v uint16) { s.Bits(uint64(v), 16) })
	if wide {
		s.Bits(uint64(o.Extra), 32)
		want.Extra = o.Extra
	}
	return want
}

//gocv:harness prop=C15,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 3 elements"
func HGenParameters() {
	n := cv.Param("n")
	wide := cv.Any[bool]("wide")
	v := par.Outer{Count: uint8(n), Wide: wide, One: sized("one", n), Two: sized("two", n+1), List: many(n, func() par.Sized { return sized("list", 2) })}
	// parameters a value had before are replaced
	v.One.N, v.One.Wide = cv.Any[uint8]("old n"), cv.Any[bool]("old wide")
	o := v
	o.List = append([]par.Sized{}, v.List...)
	want := o
	want.One = specSized(cv.At(0), o.One, n, wide)
	want.Two = specSized(cv.At(0), o.Two, n+1, !wide)
	want.List = nil
	for _, e := range o.List {
		want.List = append(want.List, specSized(cv.At(0), e, 2, false))
	}
	layout(&v, &par.Outer{}, &want, func(s *cv.S) {
		s.Bits(uint64(n), 8)
		bit(s, wide)
		specSized(s, o.One, n, wide)
		specSized(s, o.Two, n+1, !wide)
		list(s, o.List, func(e par.Sized) { specSized(s, e, 2, false) })
	})
}

// Every element of an array gets the parameters for its own index.
//
//gocv:harness prop=C15,C04 use=var,size loop=4 param=n:0..3 bounded="arrays of up to 3 elements"
func HGenIndexed() {
	n := cv.Param("n")
	lens := []uint8{2, 0, 1}[:n]
	v := par.Head{Lens: lens}
	for _, l := range lens {
		v.Blocks = append(v.Blocks, sized("block", int(l)))
	}
	o := par.Head{Lens: lens, Blocks: append([]par.Sized{}, v.Blocks...)}
	want := par.Head{Lens: lens}
	for i, e := range o.Blocks {
		want.Blocks = append(want.Blocks, specSized(cv.At(0), e, int(lens[i]), true))
	}
	layout(&v, &par.Head{}, &want, func(s *cv.S) {
		list(s, lens, func(l uint8) { s.Bits(uint64(l), 8) })
		for i, e := range o.Blocks {
			specSized(s, e, int(lens[i]), true)
		}
	})
}

// A function of the schema gives the length of an array.
//
//gocv:harness prop=C15,C04 use=var,size loop=5 param=w:1..6 bounded="arrays of up to 3 elements"
func HGenFunctions() {
	w := cv.Param("w")
	v := par.Outer2{Width: uint8(w), V: anyUint[uint64]("v", w), Extra: many(w/2, func() uint8 { return anyUint[uint8]("extra", 1) })}
	o := v
	cv.Ensures(v.Size() == uint8(w/2), "function has the value of its expression")
	layout(&v, &par.Outer2{}, &o, func(s *cv.S) {
		s.Bits(uint64(w), 8)
		s.Bits(o.V, w)
		each(o.Extra, func(v uint8) { s.Bits(uint64(v), 1) })
	})
}

// Parameters are passed on through several levels.
//
//gocv:harness prop=C15,C04 use=var,size
func HGenNestedParameters() {
	d := cv.Any[uint8]("depth")
	v := par.Root{Depth: d}
	v.Nested.V = cv.Any[uint8]("v")
	v.Nested.Deeper.W = cv.Any[uint16]("w")
	v.Nested.Depth = cv.Any[uint8]("old")
	v.Nested.Deeper.Depth = cv.Any[uint8]("older")
	o := v
	want := par.Root{Depth: d, Nested: par.Nested{Depth: d, Deeper: par.Deeper{Depth: d}}}
	if d > 0 {
		want.Nested.V = v.Nested.V
	}
	if d > 1 {
		want.Nested.Deeper.W = v.Nested.Deeper.W
	}
	layout(&v, &par.Root{}, &want, func(s *cv.S) {
		s.Bits(uint64(d), 8)
		if d > 0 {
			s.Bits(uint64(o.Nested.V), 8)
		}
		if d > 1 {
			s.Bits(uint64(o.Nested.Deeper.W), 16)
		}
	})
}

//gocv:harness prop=C10,C11,C12,C15 use=var loop=4 param=t:0..2 bounded="arrays of up to 2 elements"
func HGenParFail() {
	switch cv.Param("t") {
	case 0:
		failing(&par.Outer{Count: 1, Wide: true, One: sized("one", 1), Two: sized("two", 2), List: []par.Sized{sized("l", 2)}}, &par.Outer{})
	case 1:
		failing(&par.Head{Lens: []uint8{1}, Blocks: []par.Sized{sized("l", 1)}}, &par.Head{})
	case 2:
		failing(&par.Root{Depth: cv.Any[uint8]("d")}, &par.Root{})
	}
}
