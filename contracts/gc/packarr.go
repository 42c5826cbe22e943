package gc

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/arr"
)

// One of the arrays has n elements.
//
//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:1..2 param=f:0..6 bounded="arrays of up to 2 elements"
func HGenPackedArrays() {
	lens := make([]int, 7)
	lens[cv.Param("f")] = cv.Param("n")
	v := arr.Packed{
		U32:     many(lens[0], func() uint32 { return cv.Any[uint32]("u32") }),
		Ids:     many(lens[1], func() arr.Id { return arr.Id(cv.Any[uint16]("ids")) }),
		Ints:    many(lens[2], func() int16 { return anyInt[int16]("ints", 9) }),
		Fixed:   make([]uint8, 2),
		Vars:    many(lens[4], func() uint64 { return anyVar[uint64]("vars", "varuint64") }),
		Colors:  many(lens[5], anyColor),
		Strings: many(lens[6], func() string { return anyStr("strings") }),
	}
	if lens[3] != 0 {
		v.Fixed = many(2, func() uint8 { return anyUint[uint8]("fixed", 7) })
	}
	o := v
	layout(&v, &arr.Packed{}, &o, func(s *cv.S) { specPackedArrays(s, o) })
}

func specPackedArrays(s *cv.S, o arr.Packed) {
	s.Tok("varsize", uint64(len(o.U32)))
	bitColumn(o.U32, 32).whole(s)
	s.Tok("varsize", uint64(len(o.Ids)))
	bitColumn(mapped(o.Ids, func(v arr.Id) uint16 { return uint16(v) }), 16).whole(s)
	s.Tok("varsize", uint64(len(o.Ints)))
	bitColumn(o.Ints, 9).whole(s)
	bitColumn(o.Fixed, 7).whole(s)
	s.Tok("varsize", uint64(len(o.Vars)))
	newColumn(o.Vars, func(v uint64) int { return 8 * cv.VarLen("varuint64", v) }, func(s *cv.S, v uint64) { s.Tok("varuint64", v) }).whole(s)
	s.Tok("varsize", uint64(len(o.Colors)))
	bitColumn(mapped(o.Colors, func(v arr.Color) uint8 { return uint8(v) }), 3).whole(s)
	// strings can not be packed
	list(s, o.Strings, func(v string) { str(s, v) })
}
