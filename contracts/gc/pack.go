package gc

import (
	"math/bits"

	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/internal/zzv/gen/pack"
)

// column is the zserio encoding of one integer field of the elements of a packed
// array: the values of all elements share a delta context.
type column struct {
	vals   []uint64 // as two's complement
	spec   func(s *cv.S, v uint64)
	packed bool
	max    int
	i      int
}

// newColumn has values that are encoded with size bits by spec.
func newColumn[T uint8 | uint16 | uint32 | uint64 | int8 | int16 | int32 | int64](vals []T, size func(v T) int, spec func(s *cv.S, v uint64)) *column {
	c := &column{spec: spec}
	all, max, first := 0, 0, 0
	for i, v := range vals {
		c.vals = append(c.vals, uint64(v))
		n := size(v)
		all += n
		if i == 0 {
			first = n
			continue
		}
		p := vals[i-1]
		l := bits.Len64(cv.Ite(v > p, uint64(v)-uint64(p), uint64(p)-uint64(v)))
		max = cv.Ite(l > max, l, max)
	}
	delta := cv.Ite(max > 0, max+1, 0)
	c.max = max
	c.packed = cv.And(len(vals) > 1, cv.And(max <= 62, 6+first+(len(vals)-1)*delta < all))
	return c
}

func bitColumn[T uint8 | uint16 | uint32 | uint64 | int8 | int16 | int32 | int64](vals []T, w int) *column {
	return newColumn(vals, func(T) int { return w }, func(s *cv.S, v uint64) { s.Bits(v, w) })
}

// next appends the next value.
func (c *column) next(s *cv.S) {
	v := c.vals[c.i]
	if c.i == 0 {
		s.Bits(cv.Ite[uint64](c.packed, 1, 0), 1)
		if c.packed {
			s.Bits(uint64(c.max), 6)
		}
	}
	if c.i > 0 && c.packed {
		s.Bits(v-c.vals[c.i-1], cv.Ite(c.max > 0, c.max+1, 0))
	} else {
		c.spec(s, v)
	}
	c.i++
}

// whole appends a packed array, whose length is not written.
func (c *column) whole(s *cv.S) {
	for range c.vals {
		c.next(s)
	}
}

func mapped[A, B any](a []A, f func(A) B) []B {
	out := make([]B, len(a))
	for i, v := range a {
		out[i] = f(v)
	}
	return out
}

//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenPackedRows() {
	rows := many(cv.Param("n"), func() pack.Row {
		return pack.Row{Id: anyUint[uint8]("id", 4), Name: anyStr("name"), Ok: cv.Any[bool]("ok"), V: anyInt[int8]("v", 5)}
	})
	v := pack.Tables{Rows: rows}
	o := v
	layout(&v, &pack.Tables{}, &o, func(s *cv.S) {
		id := bitColumn(mapped(rows, func(r pack.Row) uint8 { return r.Id }), 4)
		val := bitColumn(mapped(rows, func(r pack.Row) int8 { return r.V }), 5)
		list(s, rows, func(r pack.Row) {
			id.next(s)
			str(s, r.Name)
			bit(s, r.Ok)
			val.next(s)
		})
		s.Tok("varsize", 0)
	})
}

//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenPackedNames() {
	names := many(cv.Param("n"), func() pack.Names {
		return pack.Names{C: pack.Color(anyUint[uint8]("c", 3)), M: pack.Mask(anyUint[uint8]("m", 6)), Id: pack.Id(anyUint[uint8]("id", 5)), Spot: pack.Spot{X: anyUint[uint8]("x", 5)}}
	})
	v := pack.Tables{Names: names}
	o := v
	layout(&v, &pack.Tables{}, &o, func(s *cv.S) {
		s.Tok("varsize", 0)
		c := bitColumn(mapped(names, func(n pack.Names) uint8 { return uint8(n.C) }), 3)
		m := bitColumn(mapped(names, func(n pack.Names) uint8 { return uint8(n.M) }), 6)
		id := bitColumn(mapped(names, func(n pack.Names) uint8 { return uint8(n.Id) }), 5)
		x := bitColumn(mapped(names, func(n pack.Names) uint8 { return n.Spot.X }), 5)
		list(s, names, func(pack.Names) {
			c.next(s)
			m.next(s)
			id.next(s)
			x.next(s)
		})
	})
}

// Absent fields take no part in packing.
//
//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:0..2 param=f:0..2 bounded="arrays of up to 2 elements"
func HGenPackedOptional() {
	n := cv.Param("n")
	opts := many(n, func() pack.Opt {
		switch cv.Param("f") {
		case 0:
			return pack.Opt{O: maybe("o", anyUint[uint8]("o", 5))}
		case 1:
			return pack.Opt{F: anyUint[uint8]("f", 1), C: anyInt[int8]("c", 5)}
		}
		return pack.Opt{Color: maybe("color", pack.Color(anyUint[uint8]("color", 3)))}
	})
	v := pack.More{N: uint8(n), Opts: opts}
	want := pack.More{N: uint8(n), Opts: append([]pack.Opt{}, opts...)}
	var os, colors []uint8
	var cs []int8
	for i, e := range opts {
		if e.O != nil {
			os = append(os, *e.O)
		}
		if e.F == 1 {
			cs = append(cs, e.C)
		} else {
			want.Opts[i].C = 0
		}
		if e.Color != nil {
			colors = append(colors, uint8(*e.Color))
		}
	}
	layout(&v, &pack.More{}, &want, func(s *cv.S) {
		s.Bits(uint64(n), 8)
		f := bitColumn(mapped(opts, func(e pack.Opt) uint8 { return e.F }), 1)
		o := bitColumn(os, 5)
		c := bitColumn(cs, 5)
		color := bitColumn(colors, 3)
		each(opts, func(e pack.Opt) {
			f.next(s)
			present(s, e.O, func(uint8) { o.next(s) })
			if e.F == 1 {
				c.next(s)
			}
			present(s, e.Color, func(pack.Color) { color.next(s) })
		})
		s.Tok("varsize", 0)
	})
}

// Arrays inside packed elements are packed, each on its own.
//
//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenPackedInner() {
	inners := many(cv.Param("n"), func() pack.Inner {
		return pack.Inner{A: []uint8{cv.Any[uint8]("a"), cv.Any[uint8]("a")}, Points: []pack.Point{{X: anyUint[uint8]("x", 5)}, {X: anyUint[uint8]("x", 5)}}}
	})
	v := pack.More{Inners: inners}
	o := v
	layout(&v, &pack.More{}, &o, func(s *cv.S) {
		s.Bits(0, 8)
		list(s, inners, func(e pack.Inner) {
			s.Tok("varsize", 2)
			bitColumn(e.A, 8).whole(s)
			bitColumn(mapped(e.Points, func(p pack.Point) uint8 { return p.X }), 5).whole(s)
		})
	})
}

//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements"
func HGenPackedAligned() {
	elems := many(cv.Param("n"), func() pack.Aligned { return pack.Aligned{A: anyUint[uint8]("a", 3), B: cv.Any[uint8]("b")} })
	v := pack.Others{Aligned: elems}
	o := v
	layout(&v, &pack.Others{}, &o, func(s *cv.S) {
		a := bitColumn(mapped(elems, func(e pack.Aligned) uint8 { return e.A }), 3)
		b := bitColumn(mapped(elems, func(e pack.Aligned) uint8 { return e.B }), 8)
		list(s, elems, func(pack.Aligned) {
			a.next(s)
			s.Align(8)
			b.next(s)
		})
		s.Tok("varsize", 0)
	})
}

//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=n:0..2 bounded="arrays of up to 2 elements, widths 1, 4 and 7"
func HGenPackedDynamic() {
	elems := many(cv.Param("n"), func() pack.Dyn {
		w := []int{1, 4, 7}[cv.Choose("w", 0, 2)]
		return pack.Dyn{W: uint8(w), V: anyUint[uint64]("v", w)}
	})
	v := pack.Others{Dyns: elems}
	o := v
	layout(&v, &pack.Others{}, &o, func(s *cv.S) {
		s.Tok("varsize", 0)
		w := bitColumn(mapped(elems, func(e pack.Dyn) uint8 { return e.W }), 3)
		i := 0
		width := func(uint64) int { i++; return int(elems[i-1].W) }
		vc := newColumn(mapped(elems, func(e pack.Dyn) uint64 { return e.V }), width, nil)
		list(s, elems, func(e pack.Dyn) {
			vc.spec = func(s *cv.S, v uint64) { s.Bits(v, int(e.W)) }
			w.next(s)
			vc.next(s)
		})
	})
}

func anySel(label string, k uint8) pack.Sel {
	return pack.Sel{K: k, A: cv.Any[uint16](label + ".a"), B: pack.Color(anyUint[uint8](label+".b", 3)), C: anyStr(label + ".c")}
}

func restoredSel(v pack.Sel) pack.Sel {
	switch v.K {
	case 1:
		return pack.Sel{K: v.K, A: v.A}
	case 2:
		return pack.Sel{K: v.K, B: v.B}
	}
	return pack.Sel{K: v.K, C: v.C}
}

// selSpec encodes the members of several choices.
func selSpec(sels []pack.Sel) func(s *cv.S, v pack.Sel) {
	var as []uint16
	var bs []uint8
	for _, e := range sels {
		switch e.K {
		case 1:
			as = append(as, e.A)
		case 2:
			bs = append(bs, uint8(e.B))
		}
	}
	a, b := bitColumn(as, 16), bitColumn(bs, 3)
	return func(s *cv.S, v pack.Sel) {
		switch v.K {
		case 1:
			a.next(s)
		case 2:
			b.next(s)
		default:
			str(s, v.C)
		}
	}
}

//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=k:0..2 bounded="arrays of up to 2 elements"
func HGenPackedChoice() {
	elems := []pack.Chosen{}
	for i, k := range []int{cv.Param("k"), cv.Choose("k1", 0, 3)} {
		if k == 3 {
			break
		}
		elems = append(elems, pack.Chosen{K: uint8(k), S: anySel("s", uint8(i))})
	}
	v := pack.Selections{Chosen: elems}
	o := pack.Selections{Chosen: append([]pack.Chosen{}, elems...)}
	var sels []pack.Sel
	for i := range o.Chosen {
		o.Chosen[i].S.K = o.Chosen[i].K
		sels = append(sels, o.Chosen[i].S)
		o.Chosen[i].S = restoredSel(o.Chosen[i].S)
	}
	layout(&v, &pack.Selections{}, &o, func(s *cv.S) {
		k := bitColumn(mapped(o.Chosen, func(e pack.Chosen) uint8 { return e.K }), 8)
		spec := selSpec(sels)
		list(s, sels, func(e pack.Sel) {
			k.next(s)
			spec(s, e)
		})
		s.Tok("varsize", 0)
	})
}

//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=k:0..2 bounded="arrays of 2 elements"
func HGenPackedParameter() {
	k := uint8(cv.Param("k"))
	v := pack.Given{K: k, Sels: []pack.Sel{anySel("s", 1), anySel("s", 7)}}
	sels := append([]pack.Sel{}, v.Sels...)
	sels[0].K, sels[1].K = k, k
	o := pack.Given{K: k, Sels: mapped(sels, restoredSel)}
	layout(&v, &pack.Given{}, &o, func(s *cv.S) {
		s.Bits(uint64(k), 8)
		spec := selSpec(sels)
		list(s, sels, func(e pack.Sel) { spec(s, e) })
	})
}

// The tag of a packed union is packed as well.
//
//gocv:harness prop=C15,C09,C04 use=var,size loop=4 param=k:1..3 bounded="arrays of up to 2 elements"
func HGenPackedUnion() {
	elems := []pack.Either{}
	for _, k := range []int{cv.Param("k"), cv.Choose("k1", 1, 4)} {
		if k == 4 {
			break
		}
		elems = append(elems, pack.Either{UnionChoice: pack.EitherUnionChoiceType(k), Num: cv.Any[uint16]("num"), Point: pack.Point{X: anyUint[uint8]("x", 5)}, Text: anyStr("text")})
	}
	v := pack.Selections{Eithers: elems}
	var o pack.Selections
	var nums []uint16
	var xs []uint8
	for _, e := range elems {
		r := pack.Either{UnionChoice: e.UnionChoice}
		switch e.UnionChoice {
		case pack.EitherChoiceNum:
			r.Num = e.Num
			nums = append(nums, e.Num)
		case pack.EitherChoicePoint:
			r.Point = e.Point
			xs = append(xs, e.Point.X)
		default:
			r.Text = e.Text
		}
		o.Eithers = append(o.Eithers, r)
	}
	layout(&v, &pack.Selections{}, &o, func(s *cv.S) {
		s.Tok("varsize", 0)
		tag := newColumn(mapped(elems, func(e pack.Either) uint64 { return uint64(e.UnionChoice) - 1 }), func(uint64) int { return 8 }, func(s *cv.S, v uint64) { s.Tok("varsize", v) })
		num, x := bitColumn(nums, 16), bitColumn(xs, 5)
		list(s, elems, func(e pack.Either) {
			tag.next(s)
			switch e.UnionChoice {
			case pack.EitherChoiceNum:
				num.next(s)
			case pack.EitherChoicePoint:
				x.next(s)
			default:
				str(s, e.Text)
			}
		})
	})
}
