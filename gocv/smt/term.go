// Package smt builds bit-vector/array terms and discharges them with external
// SMT solvers. Terms are hash-consed per Ctx and simplified on construction.
package smt

import (
	"fmt"
	"math/bits"
	"strings"
)

// Sort of a term: W==0 Bool, W>0 bit-vector of width W. Elem>0: array from
// 64-bit vectors to bit-vectors of width Elem (W is -1 then).
type Sort struct {
	W    int
	Elem int
}

var Bool = Sort{}

func BV(w int) Sort        { return Sort{W: w} }
func Arr(elem int) Sort    { return Sort{W: -1, Elem: elem} }
func (s Sort) IsArr() bool { return s.W == -1 }
func (s Sort) String() string {
	switch {
	case s.W == -1:
		return fmt.Sprintf("(Array (_ BitVec 64) (_ BitVec %d))", s.Elem)
	case s.W == 0:
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W)
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OUlt
	OUle
	OSlt
	OSle
	OSelect
	OStore
	OUF
	OCopy // array: args dst, dOff, src, sOff, n; only ever seen by Select
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor",
	OBvXor: "bvxor", OBvNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OSelect: "select", OStore: "store",
}

type Term struct {
	ub uint64 // memo of ubound, plus one
	ID   int
	Op   Op
	Sort Sort
	Args []*Term
	Val  uint64
	Name string
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.Sort.W == 0 && t.Val == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.Sort.W == 0 && t.Val == 0 }

// Ctx owns hash-consed terms. Not safe for concurrent use.
type Ctx struct {
	tab   map[string]*Term
	next  int
	fresh int
	T, F  *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}}
	c.T = c.mk(OConst, Bool, 1, "")
	c.F = c.mk(OConst, Bool, 0, "")
	return c
}

func (c *Ctx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	var b strings.Builder
	b.Grow(48)
	b.WriteByte(byte(op) + 'A')
	writeInt(&b, uint64(s.W+1))
	writeInt(&b, uint64(s.Elem))
	writeInt(&b, val)
	b.WriteString(name)
	for _, a := range args {
		b.WriteByte('|')
		writeInt(&b, uint64(a.ID))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{ID: c.next, Op: op, Sort: s, Val: val, Name: name, Args: args}
	c.next++
	c.tab[k] = t
	return t
}

func writeInt(b *strings.Builder, v uint64) {
	for v >= 64 {
		b.WriteByte(byte(v&63) + 0x80)
		v >>= 6
	}
	b.WriteByte(byte(v))
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

// SignExt sign-extends v from w to 64 bits.
func SignExt(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

func (c *Ctx) Const(v uint64, w int) *Term { return c.mk(OConst, BV(w), v&mask(w), "") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(OVar, s, 0, name) }
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}
func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term { return c.mk(OUF, s, 0, name, args...) }

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.Val == 0)
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	return c.mk(ONot, Bool, 0, "", a)
}
func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.IsTrue() {
			continue
		}
		if a.IsFalse() {
			return c.F
		}
		dup := false
		for _, o := range out {
			if o == a {
				dup = true
			}
			if o == c.Not(a) {
				return c.F
			}
		}
		if !dup {
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return c.T
	case 1:
		return out[0]
	}
	return c.mk(OAnd, Bool, 0, "", out...)
}
func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.IsFalse() {
			continue
		}
		if a.IsTrue() {
			return c.T
		}
		dup := false
		for _, o := range out {
			if o == a {
				dup = true
			}
			if o == c.Not(a) {
				return c.T
			}
		}
		if !dup {
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return c.F
	case 1:
		return out[0]
	}
	return c.mk(OOr, Bool, 0, "", out...)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort.W == 0 && !a.Sort.IsArr() {
		if a.IsTrue() && b.IsFalse() {
			return cond
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(cond)
		}
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	return c.mk(OIte, a.Sort, 0, "", cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("smt.Eq: sorts %v %v", a.Sort, b.Sort))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val == b.Val)
	}
	if a.Sort.W == 0 && !a.Sort.IsArr() {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OZext:
			x := a.Args[0]
			if b.Val&^mask(x.Sort.W) != 0 {
				return c.F
			}
			return c.Eq(x, c.Const(b.Val, x.Sort.W))
		case OConcat:
			lo := a.Args[1]
			hi := a.Args[0]
			return c.And(c.Eq(hi, c.Const(b.Val>>uint(lo.Sort.W), hi.Sort.W)), c.Eq(lo, c.Const(b.Val, lo.Sort.W)))
		case OIte:
			if a.Args[1].IsConst() && a.Args[2].IsConst() {
				return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OEq, Bool, 0, "", a, b)
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("smt.bin %v: sorts %v %v", opName[op], a.Sort, b.Sort))
	}
	return c.mk(op, a.Sort, 0, "", a, b)
}
func (c *Ctx) Add(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() && b.IsConst() {
		return c.Const(a.Val+b.Val, w)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if a.Op == OAdd && a.Args[1].IsConst() {
			return c.Add(a.Args[0], c.Const(a.Args[1].Val+b.Val, w))
		}
		return c.bin(OAdd, a, b)
	}
	// keep constants outermost
	if a.Op == OAdd && a.Args[1].IsConst() {
		return c.Add(c.Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OAdd && b.Args[1].IsConst() {
		return c.Add(c.Add(a, b.Args[0]), b.Args[1])
	}
	return c.bin(OAdd, a, b)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	w := a.Sort.W
	if a == b {
		return c.Const(0, w)
	}
	if b.IsConst() {
		return c.Add(a, c.Const(-b.Val, w))
	}
	if a.Op == OAdd {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
		if a.Args[1].IsConst() && b.Op == OAdd && b.Args[1].IsConst() {
			return c.Add(c.Sub(a.Args[0], b.Args[0]), c.Const(a.Args[1].Val-b.Args[1].Val, w))
		}
		if a.Args[1].IsConst() {
			return c.Add(c.Sub(a.Args[0], b), a.Args[1])
		}
	}
	return c.bin(OSub, a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() && b.IsConst() {
		return c.Const(a.Val*b.Val, w)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == 1 {
			return a
		}
		if a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
			return c.Ite(a.Args[0], c.Mul(a.Args[1], b), c.Mul(a.Args[2], b))
		}
	}
	return c.bin(OMul, a, b)
}
func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return c.Const(a.Val/b.Val, a.Sort.W)
		}
		if b.Val == 1 {
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return c.Lshr(a, c.Const(uint64(bits.TrailingZeros64(b.Val)), a.Sort.W))
		}
	}
	return c.bin(OUdiv, a, b)
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := SignExt(a.Val, w), SignExt(b.Val, w)
		if y == -1 {
			return c.Const(uint64(-x), w)
		}
		return c.Const(uint64(x/y), w)
	}
	if b.IsConst() && b.Val == 1 {
		return a
	}
	return c.bin(OSdiv, a, b)
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return c.Const(a.Val%b.Val, a.Sort.W)
		}
		if b.Val == 1 {
			return c.Const(0, a.Sort.W)
		}
		if b.Val&(b.Val-1) == 0 {
			k := bits.TrailingZeros64(b.Val)
			return c.Zext(c.Extract(a, k-1, 0), a.Sort.W)
		}
		if ubound(a) < b.Val {
			return a
		}
		if a.Op == OAdd && ubound(a) < mask(a.Sort.W) {
			// drop multiples of the divisor from a sum that does not overflow
			x, y := a.Args[0], a.Args[1]
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				m := p[0]
				if m.Op == OMul && m.Args[1].IsConst() && m.Args[1].Val%b.Val == 0 && ubound(m) < mask(m.Sort.W) {
					return c.Urem(p[1], b)
				}
			}
		}
		if a.Op == OMul && a.Args[1].IsConst() && a.Args[1].Val%b.Val == 0 && ubound(a) < mask(a.Sort.W) {
			return c.Const(0, a.Sort.W)
		}
	}
	return c.bin(OUrem, a, b)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := SignExt(a.Val, w), SignExt(b.Val, w)
		if y == -1 {
			return c.Const(0, w)
		}
		return c.Const(uint64(x%y), w)
	}
	return c.bin(OSrem, a, b)
}
func (c *Ctx) BvAnd(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.Val&b.Val, w)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == mask(w) {
			return a
		}
		// contiguous low mask
		if b.Val&(b.Val+1) == 0 {
			k := bits.Len64(b.Val)
			return c.Zext(c.Extract(a, k-1, 0), w)
		}
		if a.Op == OBvAnd && a.Args[1].IsConst() {
			return c.BvAnd(a.Args[0], c.Const(a.Args[1].Val&b.Val, w))
		}
		// contiguous high mask or middle mask
		lo := bits.TrailingZeros64(b.Val)
		sh := b.Val >> uint(lo)
		if sh&(sh+1) == 0 {
			k := bits.Len64(sh)
			m := c.Extract(a, lo+k-1, lo)
			r := c.Concat(m, c.Const(0, lo))
			return c.Zext(r, w)
		}
	}
	return c.bin(OBvAnd, a, b)
}

func (c *Ctx) BvOr(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.Val|b.Val, w)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val == mask(w) {
			return b
		}
		if a.Op == OBvOr && a.Args[1].IsConst() {
			return c.BvOr(a.Args[0], c.Const(a.Args[1].Val|b.Val, w))
		}
	}
	// disjoint concatenations: split at a boundary where one side is zero
	if r := c.orDisjoint(a, b); r != nil {
		return r
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return c.bin(OBvOr, a, b)
}

// parts lists the known concatenation of a term, most significant first.
func parts(t *Term, out []*Term, c *Ctx) []*Term {
	switch t.Op {
	case OConcat:
		return parts(t.Args[1], parts(t.Args[0], out, c), c)
	case OZext:
		return parts(t.Args[0], append(out, c.Const(0, t.Sort.W-t.Args[0].Sort.W)), c)
	}
	return append(out, t)
}

// orDisjoint merges a|b if they decompose into pieces where at each bit one
// side is a constant zero; gives a concat.
func (c *Ctx) orDisjoint(a, b *Term) *Term {
	if a.Op != OConcat && a.Op != OZext && b.Op != OConcat && b.Op != OZext && !a.IsConst() && !b.IsConst() {
		return nil
	}
	pa, pb := parts(a, nil, c), parts(b, nil, c)
	var res []*Term
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		x, y := pa[i], pb[j]
		if x.Sort.W > y.Sort.W {
			hi := c.Extract(x, x.Sort.W-1, x.Sort.W-y.Sort.W)
			pa[i] = c.Extract(x, x.Sort.W-y.Sort.W-1, 0)
			x = hi
			j++
		} else if y.Sort.W > x.Sort.W {
			hi := c.Extract(y, y.Sort.W-1, y.Sort.W-x.Sort.W)
			pb[j] = c.Extract(y, y.Sort.W-x.Sort.W-1, 0)
			y = hi
			i++
		} else {
			i++
			j++
		}
		switch {
		case x.IsConst() && y.IsConst():
			res = append(res, c.Const(x.Val|y.Val, x.Sort.W))
		case x.IsConst() && x.Val == 0:
			res = append(res, y)
		case y.IsConst() && y.Val == 0:
			res = append(res, x)
		default:
			return nil
		}
	}
	r := res[0]
	for _, p := range res[1:] {
		r = c.Concat(r, p)
	}
	return r
}

func (c *Ctx) BvXor(a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.Val^b.Val, w)
	}
	if a == b {
		return c.Const(0, w)
	}
	if b.IsConst() && b.Val == 0 {
		return a
	}
	if b.IsConst() && b.Val == mask(w) {
		return c.BvNot(a)
	}
	return c.bin(OBvXor, a, b)
}
func (c *Ctx) BvNot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(^a.Val, a.Sort.W)
	}
	if a.Op == OBvNot {
		return a.Args[0]
	}
	return c.mk(OBvNot, a.Sort, 0, "", a)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.Sort.W), a) }

// Shl and friends: shift count same width; counts >= width give 0 (sign fill).
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.Sort.W
	if b.IsConst() {
		if b.Val >= uint64(w) {
			return c.Const(0, w)
		}
		k := int(b.Val)
		if k == 0 {
			return a
		}
		if a.IsConst() {
			return c.Const(a.Val<<uint(k), w)
		}
		return c.Concat(c.Extract(a, w-k-1, 0), c.Const(0, k))
	}
	return c.bin(OShl, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.Sort.W
	if b.IsConst() {
		if b.Val >= uint64(w) {
			return c.Const(0, w)
		}
		k := int(b.Val)
		if k == 0 {
			return a
		}
		return c.Zext(c.Extract(a, w-1, k), w)
	}
	return c.bin(OLshr, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.Sort.W
	if b.IsConst() {
		k := w - 1
		if b.Val < uint64(w) {
			k = int(b.Val)
		}
		if k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, w-1, k), w)
	}
	return c.bin(OAshr, a, b)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	if hi.Sort.W == 0 {
		panic("concat bool")
	}
	if lo.Sort.W == 0 && lo.Op == OConst { // width-0 constant placeholder
		return hi
	}
	w := hi.Sort.W + lo.Sort.W
	if hi.IsConst() && lo.IsConst() && w <= 64 {
		return c.Const(hi.Val<<uint(lo.Sort.W)|lo.Val, w)
	}
	if hi.IsConst() && hi.Val == 0 {
		return c.Zext(lo, w)
	}
	// right-assoc normal form: ((a b) c) -> (a (b c))
	if hi.Op == OConcat {
		return c.Concat(hi.Args[0], c.Concat(hi.Args[1], lo))
	}
	if hi.Op == OZext {
		z := hi.Sort.W - hi.Args[0].Sort.W
		return c.Zext(c.Concat(hi.Args[0], lo), hi.Args[0].Sort.W+lo.Sort.W+z)
	}
	// adjacent extracts of the same term
	if hi.Op == OExtract {
		if lo.Op == OExtract && hi.Args[0] == lo.Args[0] && hi.lo() == lo.hi()+1 {
			return c.Extract(hi.Args[0], hi.hi(), lo.lo())
		}
		if lo.Op == OConcat && lo.Args[0].Op == OExtract && lo.Args[0].Args[0] == hi.Args[0] && hi.lo() == lo.Args[0].hi()+1 {
			return c.Concat(c.Extract(hi.Args[0], hi.hi(), lo.Args[0].lo()), lo.Args[1])
		}
	}
	if hi.IsConst() && lo.Op == OConcat && lo.Args[0].IsConst() && hi.Sort.W+lo.Args[0].Sort.W <= 64 {
		return c.Concat(c.Const(hi.Val<<uint(lo.Args[0].Sort.W)|lo.Args[0].Val, hi.Sort.W+lo.Args[0].Sort.W), lo.Args[1])
	}
	if hi.IsConst() && lo.Op == OZext {
		z := lo.Sort.W - lo.Args[0].Sort.W
		if hi.Sort.W+z <= 64 {
			return c.Concat(c.Const(hi.Val<<uint(z), hi.Sort.W+z), lo.Args[0])
		}
	}
	return c.mk(OConcat, BV(w), 0, "", hi, lo)
}
func (t *Term) hi() int { return int(t.Val >> 8) }
func (t *Term) lo() int { return int(t.Val & 0xff) }

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := a.Sort.W
	if lo == 0 && hi == w-1 {
		return a
	}
	if hi < lo || hi >= w {
		panic(fmt.Sprintf("extract %d %d of width %d", hi, lo, w))
	}
	n := hi - lo + 1
	switch a.Op {
	case OConst:
		return c.Const(a.Val>>uint(lo), n)
	case OExtract:
		return c.Extract(a.Args[0], hi+a.lo(), lo+a.lo())
	case OConcat:
		l := a.Args[1]
		if hi < l.Sort.W {
			return c.Extract(l, hi, lo)
		}
		if lo >= l.Sort.W {
			return c.Extract(a.Args[0], hi-l.Sort.W, lo-l.Sort.W)
		}
		return c.Concat(c.Extract(a.Args[0], hi-l.Sort.W, 0), c.Extract(l, l.Sort.W-1, lo))
	case OZext:
		x := a.Args[0]
		if lo >= x.Sort.W {
			return c.Const(0, n)
		}
		if hi < x.Sort.W {
			return c.Extract(x, hi, lo)
		}
		return c.Zext(c.Extract(x, x.Sort.W-1, lo), n)
	case OSext:
		x := a.Args[0]
		if hi < x.Sort.W {
			return c.Extract(x, hi, lo)
		}
		if lo < x.Sort.W {
			return c.Sext(c.Extract(x, x.Sort.W-1, lo), n)
		}
	case OBvAnd, OBvOr, OBvXor:
		x, y := c.Extract(a.Args[0], hi, lo), c.Extract(a.Args[1], hi, lo)
		switch a.Op {
		case OBvAnd:
			return c.BvAnd(x, y)
		case OBvOr:
			return c.BvOr(x, y)
		default:
			return c.BvXor(x, y)
		}
	case OBvNot:
		return c.BvNot(c.Extract(a.Args[0], hi, lo))
	case OIte:
		return c.Ite(a.Args[0], c.Extract(a.Args[1], hi, lo), c.Extract(a.Args[2], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && hi < w-1 {
			x, y := c.Extract(a.Args[0], hi, 0), c.Extract(a.Args[1], hi, 0)
			switch a.Op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	return c.mk(OExtract, BV(n), uint64(hi)<<8|uint64(lo), "", a)
}
func (c *Ctx) Zext(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Sort.W > w {
		panic("zext narrows")
	}
	if a.IsConst() {
		return c.Const(a.Val, w)
	}
	if a.Op == OZext {
		return c.Zext(a.Args[0], w)
	}
	if a.Op == OIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return c.Ite(a.Args[0], c.Zext(a.Args[1], w), c.Zext(a.Args[2], w))
	}
	return c.mk(OZext, BV(w), 0, "", a)
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Sort.W > w {
		panic("sext narrows")
	}
	if a.IsConst() {
		return c.Const(uint64(SignExt(a.Val, a.Sort.W)), w)
	}
	if a.Op == OSext {
		return c.Sext(a.Args[0], w)
	}
	if a.Op == OZext {
		return c.Zext(a.Args[0], w)
	}
	return c.mk(OSext, BV(w), 0, "", a)
}

// Resize converts between widths with the given signedness.
func (c *Ctx) Resize(a *Term, w int, signed bool) *Term {
	switch {
	case a.Sort.W == w:
		return a
	case a.Sort.W > w:
		return c.Extract(a, w-1, 0)
	case signed:
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

// ubound gives an upper bound of the unsigned value.
// ubound is an upper bound of the unsigned value, from the structure.
func ubound(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.Val
	case OZext, OIte, OAdd, OMul, OUrem, OUdiv, OBvAnd:
	default:
		return mask(t.Sort.W)
	}
	if t.ub == 0 {
		t.ub = ubound1(t) + 1 // 0: not computed (or unbounded)
	}
	return t.ub - 1
}

func ubound1(t *Term) uint64 {
	m := mask(t.Sort.W)
	switch t.Op {
	case OAdd:
		a, b := ubound(t.Args[0]), ubound(t.Args[1])
		if s := a + b; s >= a && s <= m {
			return s
		}
		return m
	case OMul:
		hi, lo := bits.Mul64(ubound(t.Args[0]), ubound(t.Args[1]))
		if hi == 0 && lo <= m {
			return lo
		}
		return m
	case OUrem:
		if b := t.Args[1]; b.IsConst() && b.Val != 0 {
			return b.Val - 1
		}
		return m
	case OUdiv:
		if b := t.Args[1]; b.IsConst() && b.Val != 0 {
			return ubound(t.Args[0]) / b.Val
		}
		return m
	case OBvAnd:
		a, b := ubound(t.Args[0]), ubound(t.Args[1])
		if b < a {
			a = b
		}
		return a

	case OZext:
		return ubound(t.Args[0])
	case OIte:
		a, b := ubound(t.Args[1]), ubound(t.Args[2])
		if a > b {
			return a
		}
		return b
	}
	return mask(t.Sort.W)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val < b.Val)
	}
	if b.IsConst() && b.Val == 0 {
		return c.F
	}
	if b.IsConst() && ubound(a) < b.Val {
		return c.T
	}
	if a.IsConst() && ubound(b) <= a.Val {
		return c.F
	}
	return c.mk(OUlt, Bool, 0, "", a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	w := a.Sort.W
	if a == b {
		return c.F
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(SignExt(a.Val, w) < SignExt(b.Val, w))
	}
	half := mask(w) >> 1
	if ua, ub := ubound(a), ubound(b); ua <= half && ub <= half {
		return c.Ult(a, b)
	}
	if b.IsConst() && SignExt(b.Val, w) <= 0 && ubound(a) <= half {
		return c.F
	}
	if a.IsConst() && SignExt(a.Val, w) < 0 && ubound(b) <= half {
		return c.T
	}
	return c.mk(OSlt, Bool, 0, "", a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// CopyArr is dst with dst[dOff+j] = src[sOff+j] for all j < n.
func (c *Ctx) CopyArr(dst, dOff, src, sOff, n *Term) *Term {
	if n.IsConst() && n.Val == 0 {
		return dst
	}
	return c.mk(OCopy, dst.Sort, 0, "", dst, dOff, src, sOff, n)
}

func hasCopy(arr *Term) bool {
	for arr.Op == OStore {
		arr = arr.Args[0]
	}
	return arr.Op == OCopy
}

func (c *Ctx) Select(arr, i *Term) *Term {
	if arr.Op == OCopy {
		j := c.Sub(i, arr.Args[1])
		return c.Ite(c.Ult(j, arr.Args[4]), c.Select(arr.Args[2], c.Add(arr.Args[3], j)), c.Select(arr.Args[0], i))
	}
	if arr.Op == OVar && arr.Name == "zeroarr" {
		return c.Const(0, arr.Sort.Elem)
	}
	if arr.Op == OStore && hasCopy(arr) {
		return c.Ite(c.Eq(arr.Args[1], i), arr.Args[2], c.Select(arr.Args[0], i))
	}
	for arr.Op == OStore {
		e := c.Eq(arr.Args[1], i)
		if e.IsTrue() {
			return arr.Args[2]
		}
		if !e.IsFalse() {
			break
		}
		arr = arr.Args[0]
	}
	return c.mk(OSelect, BV(arr.Sort.Elem), 0, "", arr, i)
}
func (c *Ctx) Store(arr, i, v *Term) *Term {
	return c.mk(OStore, arr.Sort, 0, "", arr, i, v)
}

// String renders a term as an s-expression without sharing (debugging only).
func (t *Term) String() string {
	return render(t, func(a *Term) string { return a.String() })
}

func render(t *Term, sub func(*Term) string) string {
	switch t.Op {
	case OConst:
		if t.Sort.W == 0 {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		if t.Sort.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.Sort.W/4, t.Val)
		}
		return fmt.Sprintf("#b%0*b", t.Sort.W, t.Val)
	case OVar:
		return "|" + t.Name + "|"
	}
	var b strings.Builder
	b.WriteByte('(')
	switch t.Op {
	case OExtract:
		fmt.Fprintf(&b, "(_ extract %d %d)", t.hi(), t.lo())
	case OZext:
		fmt.Fprintf(&b, "(_ zero_extend %d)", t.Sort.W-t.Args[0].Sort.W)
	case OSext:
		fmt.Fprintf(&b, "(_ sign_extend %d)", t.Sort.W-t.Args[0].Sort.W)
	case OUF:
		b.WriteString("|" + t.Name + "|")
	default:
		b.WriteString(opName[t.Op])
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(sub(a))
	}
	b.WriteByte(')')
	return b.String()
}
