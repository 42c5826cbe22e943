package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"gocv/smt"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) binop(s *State, op token.Token, a, b *smt.Term, tx, ty, tr types.Type) Value {
	c := r.c
	if w, ok := isFloat(tx); ok && op != token.SHL && op != token.SHR {
		return r.fbinop(op, a, b, w)
	}
	if isBool(tx) {
		switch op {
		case token.EQL:
			return c.Eq(a, b)
		case token.NEQ:
			return c.Not(c.Eq(a, b))
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
		limit("bool op %v", op)
	}
	w, signed, ok := bvWidth(tx)
	if !ok {
		limit("binop on %v", tx)
	}
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if r.decide(s, c.Eq(b, c.Const(0, w))) {
			r.goPanic(s, "integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.Sdiv(a, b)
		case op == token.QUO:
			return c.Udiv(a, b)
		case signed:
			// a % 2^k for provably non-negative a
			return r.srem(s, a, b)
		}
		return c.Urem(a, b)
	case token.AND:
		return c.BvAnd(a, b)
	case token.OR:
		return c.BvOr(a, b)
	case token.XOR:
		return c.BvXor(a, b)
	case token.AND_NOT:
		return c.BvAnd(a, c.BvNot(b))
	case token.SHL, token.SHR:
		wy, sy, _ := bvWidth(ty)
		if sy {
			if r.decide(s, c.Slt(b, c.Const(0, wy))) {
				r.goPanic(s, "negative shift amount")
			}
		}
		var cnt *smt.Term
		var big *smt.Term = c.F
		if wy > w {
			big = c.Not(c.Ult(b, c.Const(uint64(w), wy)))
			cnt = c.Extract(b, w-1, 0)
		} else {
			cnt = c.Zext(b, w)
		}
		if op == token.SHL {
			return c.Ite(big, c.Const(0, w), c.Shl(a, cnt))
		}
		if signed {
			fill := c.Ashr(a, c.Const(uint64(w-1), w))
			return c.Ite(big, fill, c.Ashr(a, cnt))
		}
		return c.Ite(big, c.Const(0, w), c.Lshr(a, cnt))
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Not(c.Eq(a, b))
	case token.LSS:
		return r.lt(a, b, signed)
	case token.GTR:
		return r.lt(b, a, signed)
	case token.LEQ:
		return c.Not(r.lt(b, a, signed))
	case token.GEQ:
		return c.Not(r.lt(a, b, signed))
	}
	limit("binop %v", op)
	return nil
}

func (r *Run) srem(s *State, a, b *smt.Term) *smt.Term {
	if b.IsConst() && !a.IsConst() && b.Val != 0 && b.Val < 1<<uint(b.Sort.W-1) {
		nonneg := r.c.Sle(r.c.Const(0, a.Sort.W), a)
		if nonneg.IsTrue() || r.sol.Check(s.pc, r.c.Not(nonneg)) == smt.Unsat {
			return r.c.Urem(a, b)
		}
	}
	return r.c.Srem(a, b)
}

func (r *Run) lt(a, b *smt.Term, signed bool) *smt.Term {
	if signed {
		return r.c.Slt(a, b)
	}
	return r.c.Ult(a, b)
}

func f64(t *smt.Term, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(t.Val)))
	}
	return math.Float64frombits(t.Val)
}

func (r *Run) fconst(f float64, w int) *smt.Term {
	if w == 32 {
		return r.c.Const(uint64(math.Float32bits(float32(f))), 32)
	}
	return r.c.Const(math.Float64bits(f), 64)
}

func (r *Run) fbinop(op token.Token, a, b *smt.Term, w int) Value {
	c := r.c
	if a.IsConst() && b.IsConst() {
		x, y := f64(a, w), f64(b, w)
		switch op {
		case token.ADD:
			return r.fconst(x+y, w)
		case token.SUB:
			return r.fconst(x-y, w)
		case token.MUL:
			return r.fconst(x*y, w)
		case token.QUO:
			return r.fconst(x/y, w)
		case token.EQL:
			return c.Bool(x == y)
		case token.NEQ:
			return c.Bool(x != y)
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	}
	mant, exp := 52, 11
	if w == 32 {
		mant, exp = 23, 8
	}
	isNaN := func(x *smt.Term) *smt.Term {
		e := c.Extract(x, mant+exp-1, mant)
		m := c.Extract(x, mant-1, 0)
		return c.And(c.Eq(e, c.Const(1<<uint(exp)-1, exp)), c.Not(c.Eq(m, c.Const(0, mant))))
	}
	isZero := func(x *smt.Term) *smt.Term { return c.Eq(c.Extract(x, w-2, 0), c.Const(0, w-1)) }
	eq := func() *smt.Term {
		return c.And(c.Not(isNaN(a)), c.Not(isNaN(b)), c.Or(c.Eq(a, b), c.And(isZero(a), isZero(b))))
	}
	key := func(x *smt.Term) *smt.Term { // order-preserving map to unsigned
		neg := c.Eq(c.Extract(x, w-1, w-1), c.Const(1, 1))
		return c.Ite(neg, c.BvNot(x), c.BvOr(x, c.Const(1<<uint(w-1), w)))
	}
	lt := func(a, b *smt.Term) *smt.Term {
		return c.And(c.Not(isNaN(a)), c.Not(isNaN(b)), c.Not(c.And(isZero(a), isZero(b))), c.Ult(key(a), key(b)))
	}
	switch op {
	case token.EQL:
		return eq()
	case token.NEQ:
		return c.Not(eq())
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return c.Or(lt(a, b), eq())
	case token.GEQ:
		return c.Or(lt(b, a), eq())
	case token.ADD, token.SUB, token.MUL, token.QUO:
		if (op == token.ADD || op == token.MUL) && a.ID > b.ID {
			a, b = b, a // commutative (up to the payload of a NaN)
		}
		if w == 32 {
			return c.UF("f32"+op.String(), smt.BV(32), a, b)
		}
		return c.UF("f64"+op.String(), smt.BV(64), a, b)
	}
	limit("float op %v", op)
	return nil
}

// equal compares two values of the same static type.
func (r *Run) equal(s *State, x, y Value) *smt.Term {
	c := r.c
	switch a := x.(type) {
	case *smt.Term:
		return c.Eq(a, y.(*smt.Term))
	case StrV:
		return r.strEq(s, a, y.(StrV))
	case PtrV:
		b := y.(PtrV)
		if a.Obj != b.Obj {
			return c.F
		}
		if len(a.Path) != len(b.Path) {
			return c.F
		}
		res := c.T
		for i := range a.Path {
			if a.Path[i].Field != b.Path[i].Field {
				return c.F
			}
			if a.Path[i].Idx != nil && b.Path[i].Idx != nil {
				res = c.And(res, c.Eq(a.Path[i].Idx, b.Path[i].Idx))
			}
		}
		return res
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			limit("compare interface with %T", y)
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return c.F
		}
		return r.equal(s, a.V, b.V)
	case ErrV:
		b, ok := y.(ErrV)
		return c.Bool(ok && a.ID == b.ID)
	case StructV:
		b := y.(StructV)
		res := c.T
		for i := range a.F {
			res = c.And(res, r.equal(s, a.F[i], b.F[i]))
		}
		return res
	case ArrayV:
		b := y.(ArrayV)
		if a.Sym != nil || b.Sym != nil || len(a.E) != len(b.E) {
			limit("array equality")
		}
		res := c.T
		for i := range a.E {
			res = c.And(res, r.equal(s, a.E[i], b.E[i]))
		}
		return res
	case SliceV:
		b := y.(SliceV)
		if a.Obj == 0 || b.Obj == 0 { // comparison with nil
			return c.Bool(a.Obj == 0 && b.Obj == 0)
		}
		limit("slice comparison")
	case MapV:
		b := y.(MapV)
		return c.Bool(a.Obj == b.Obj)
	case FuncV:
		b := y.(FuncV)
		an, bn := a.Fn == nil && a.Blt == nil, b.Fn == nil && b.Blt == nil
		if an || bn {
			return c.Bool(an && bn)
		}
	}
	limit("equality of %T", x)
	return nil
}

func (r *Run) strEq(s *State, a, b StrV) *smt.Term {
	c := r.c
	if a == b {
		return c.T
	}
	if a.Con && b.Con {
		return c.Bool(a.S == b.S)
	}
	if a.Opq != "" || b.Opq != "" {
		limit("comparison of opaque strings")
	}
	if a.Con {
		a, b = b, a
	}
	if b.Con {
		res := c.Eq(a.Seq.Len, c.Const(uint64(len(b.S)), 64))
		for i := 0; i < len(b.S); i++ {
			res = c.And(res, c.Eq(r.strAt(a, c.Const(uint64(i), 64)), c.Const(uint64(b.S[i]), 8)))
		}
		return res
	}
	return r.seqEq(s, a.Seq, b.Seq)
}

// seqEq: exact if structurally equal or short; otherwise not expressible.
func (r *Run) seqEq(s *State, a, b Seq) *smt.Term {
	c := r.c
	if a.Arr == b.Arr && a.Off == b.Off {
		return c.Eq(a.Len, b.Len)
	}
	le := c.Eq(a.Len, b.Len)
	if a.Len.IsConst() || b.Len.IsConst() {
		n := a.Len
		if !n.IsConst() {
			n = b.Len
		}
		if n.Val <= 256 {
			res := le
			for i := uint64(0); i < n.Val; i++ {
				k := c.Const(i, 64)
				res = c.And(res, c.Eq(c.Select(a.Arr, c.Add(a.Off, k)), c.Select(b.Arr, c.Add(b.Off, k))))
			}
			return res
		}
	}
	if a.Arr.Op == smt.OVar && b.Arr.Op == smt.OVar && a.Off.IsConst() && b.Off.IsConst() {
		// abstract, but the same for the same pair, and at least consistent
		// with the lengths
		x, y := fmt.Sprintf("%s+%d", a.Arr.Name, a.Off.Val), fmt.Sprintf("%s+%d", b.Arr.Name, b.Off.Val)
		if x > y {
			x, y = y, x
		}
		eq := c.Var("seqeq("+x+","+y+")", smt.Bool)
		return c.And(le, c.Or(c.Eq(a.Len, c.Const(0, 64)), eq))
	}
	limit("equality of unbounded sequences")
	return nil
}

// seqSame is equality of sequences for use in proof obligations only (a fresh
// index stands for "every index").
func (r *Run) seqSame(s *State, a, b Seq) *smt.Term {
	c := r.c
	if a.Arr == b.Arr && a.Off == b.Off {
		return c.Eq(a.Len, b.Len)
	}
	i := r.fresh(s, "sk", smt.BV(64))
	return c.And(c.Eq(a.Len, b.Len), c.Or(c.Not(c.Ult(i, a.Len)),
		c.Eq(c.Select(a.Arr, c.Add(a.Off, i)), c.Select(b.Arr, c.Add(b.Off, i)))))
}

func (r *Run) nilCheck(s *State, p PtrV) {
	if p.Obj == 0 {
		r.goPanic(s, "nil pointer dereference")
	}
}

func (r *Run) inBounds(s *State, i, n *smt.Term, what string) {
	if !r.decide(s, r.c.Ult(i, n)) {
		r.goPanic(s, "index out of range (%s)", what)
	}
}

func (r *Run) idx64(t *smt.Term, ty types.Type) *smt.Term {
	_, sg, _ := bvWidth(ty)
	return r.c.Resize(t, 64, sg)
}

func (r *Run) arrLen(a ArrayV) *smt.Term {
	if a.LenT != nil {
		return a.LenT
	}
	return r.c.Const(uint64(len(a.E)), 64)
}

func (r *Run) eval(s *State, v ssa.Value) Value {
	c := r.c
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		return PtrV{Obj: s.alloc(t, r.zero(t))}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := r.get(s, x.X).(PtrV)
			if !ok {
				limit("load through %T", r.get(s, x.X))
			}
			r.nilCheck(s, p)
			return r.load(s, p)
		case token.NOT:
			return c.Not(r.term(s, x.X))
		case token.SUB:
			t := r.term(s, x.X)
			if w, ok := isFloat(x.X.Type()); ok {
				return c.BvXor(t, c.Const(1<<uint(w-1), w))
			}
			return c.Neg(t)
		case token.XOR:
			return c.BvNot(r.term(s, x.X))
		}
		limit("unop %v", x.Op)
	case *ssa.BinOp:
		a, b := r.get(s, x.X), r.get(s, x.Y)
		ta, ok1 := a.(*smt.Term)
		tb, ok2 := b.(*smt.Term)
		if ok1 && ok2 {
			return r.binop(s, x.Op, ta, tb, x.X.Type(), x.Y.Type(), x.Type())
		}
		if sa, ok := a.(StrV); ok {
			sb, ok := b.(StrV)
			if !ok {
				limit("string op")
			}
			switch x.Op {
			case token.ADD:
				if sa.Con && sb.Con {
					return r.str(sa.S + sb.S)
				}
				return StrV{Opq: "concat"}
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if sa.Con && sb.Con {
					k := strings.Compare(sa.S, sb.S)
					return c.Bool(x.Op == token.LSS && k < 0 || x.Op == token.GTR && k > 0 || x.Op == token.LEQ && k <= 0 || x.Op == token.GEQ && k >= 0)
				}
				limit("ordering of symbolic strings")
			}
		}
		// mixed interface/concrete comparison
		if ia, ok := a.(IfaceV); ok {
			if _, ok := b.(IfaceV); !ok {
				b = IfaceV{T: x.Y.Type(), V: b}
			}
			_ = ia
		} else if _, ok := b.(IfaceV); ok {
			a = IfaceV{T: x.X.Type(), V: a}
		}
		switch x.Op {
		case token.EQL:
			return r.equal(s, a, b)
		case token.NEQ:
			return c.Not(r.equal(s, a, b))
		}
		limit("binop %v on %T", x.Op, a)
	case *ssa.ChangeType:
		return r.get(s, x.X)
	case *ssa.ChangeInterface:
		return r.get(s, x.X)
	case *ssa.Convert:
		return r.convert(s, r.get(s, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return r.convert(s, r.get(s, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return IfaceV{T: x.X.Type(), V: r.get(s, x.X)}
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, r.get(s, b))
		}
		return f
	case *ssa.MakeMap:
		return MapV{Obj: s.alloc(x.Type(), MapObj{})}
	case *ssa.MakeSlice:
		return r.makeSlice(s, x)
	case *ssa.Extract:
		t := r.get(s, x.Tuple)
		tv, ok := t.(TupleV)
		if !ok {
			limit("extract from %T", t)
		}
		return tv[x.Index]
	case *ssa.Field:
		sv, ok := r.get(s, x.X).(StructV)
		if !ok {
			limit("field of %T", r.get(s, x.X))
		}
		return sv.F[x.Field]
	case *ssa.FieldAddr:
		p, ok := r.get(s, x.X).(PtrV)
		if !ok {
			limit("fieldaddr of %T", r.get(s, x.X))
		}
		r.nilCheck(s, p)
		return PtrV{Obj: p.Obj, Path: extend(p.Path, PathElem{Field: x.Field})}
	case *ssa.Index:
		i := r.idx64(r.term(s, x.Index), x.Index.Type())
		switch a := r.get(s, x.X).(type) {
		case ArrayV:
			r.inBounds(s, i, r.arrLen(a), "array")
			return r.arrayGet(a, i)
		case StrV:
			r.inBounds(s, i, r.strLen(a), "string")
			return r.strAt(a, i)
		}
		limit("index of %T", r.get(s, x.X))
	case *ssa.IndexAddr:
		i := r.idx64(r.term(s, x.Index), x.Index.Type())
		switch a := r.get(s, x.X).(type) {
		case SliceV:
			r.inBounds(s, i, a.Len, "slice")
			return PtrV{Obj: a.Obj, Path: extend(a.Path, PathElem{Field: -1, Idx: r.elemIdx(s, a, i)})}
		case PtrV:
			r.nilCheck(s, a)
			arr, ok := r.load(s, a).(ArrayV)
			if !ok {
				limit("indexaddr")
			}
			r.inBounds(s, i, r.arrLen(arr), "array")
			if arr.Sym == nil && !i.IsConst() {
				i = c.Const(r.concretise(s, i, 300, "array index"), 64)
			}
			return PtrV{Obj: a.Obj, Path: extend(a.Path, PathElem{Field: -1, Idx: i})}
		}
		limit("indexaddr of %T", r.get(s, x.X))
	case *ssa.Lookup:
		switch a := r.get(s, x.X).(type) {
		case StrV:
			i := r.idx64(r.term(s, x.Index), x.Index.Type())
			r.inBounds(s, i, r.strLen(a), "string")
			return r.strAt(a, i)
		case MapV:
			return r.mapLookup(s, a, r.get(s, x.Index), x.CommaOk, x.X.Type().Underlying().(*types.Map))
		}
		limit("lookup in %T", r.get(s, x.X))
	case *ssa.Slice:
		return r.slice(s, x)
	case *ssa.TypeAssert:
		return r.typeAssert(s, x)
	case *ssa.Range:
		switch a := r.get(s, x.X).(type) {
		case MapV:
			return PtrV{Obj: s.alloc(nil, IterV{M: a})}
		case StrV:
			if !a.Con {
				limit("range over symbolic string")
			}
			return PtrV{Obj: s.alloc(nil, IterV{S: a, Str: true})}
		}
		limit("range over %T", r.get(s, x.X))
	case *ssa.Next:
		return r.next(s, x)
	case *ssa.SliceToArrayPointer:
		sv := r.get(s, x.X).(SliceV)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if r.decide(s, c.Ult(sv.Len, c.Const(uint64(n), 64))) {
			r.goPanic(s, "slice to array conversion")
		}
		if !sv.Off.IsConst() || sv.Off.Val != 0 {
			limit("slice to array pointer at offset")
		}
		return PtrV{Obj: sv.Obj, Path: sv.Path}
	}
	limit("instruction %T", v)
	return nil
}

// elemIdx maps a slice index to the index in the backing object, concretising
// for object-valued arrays.
func (r *Run) elemIdx(s *State, a SliceV, i *smt.Term) *smt.Term {
	k := r.c.Add(a.Off, i)
	if k.IsConst() {
		return k
	}
	arr, ok := r.getPath(s.heap[a.Obj].V, a.Path).(ArrayV)
	if !ok {
		limit("slice over %T", s.heap[a.Obj].V)
	}
	if arr.Sym != nil {
		return k
	}
	return r.c.Const(r.concretise(s, k, 300, "slice index"), 64)
}

func (r *Run) convert(s *State, v Value, from, to types.Type) Value {
	c := r.c
	wf, sf, okf := bvWidth(from)
	wt, st, okt := bvWidth(to)
	if okf && okt {
		return c.Resize(v.(*smt.Term), wt, sf)
	}
	ff, isff := isFloat(from)
	ft, isft := isFloat(to)
	switch {
	case isff && isft:
		t := v.(*smt.Term)
		if ff == ft {
			return t
		}
		if t.IsConst() {
			return r.fconst(f64(t, ff), ft)
		}
		if ff == 32 {
			return c.UF("f32to64", smt.BV(64), t)
		}
		return c.UF("f64to32", smt.BV(32), t)
	case okf && isft:
		t := v.(*smt.Term)
		if t.IsConst() {
			if sf {
				return r.fconst(float64(smt.SignExt(t.Val, wf)), ft)
			}
			return r.fconst(float64(t.Val), ft)
		}
		sg := "u"
		if sf {
			sg = "s"
		}
		t = c.Resize(t, 64, sf)
		if ft == 32 {
			return c.UF(sg+"tof32", smt.BV(32), t)
		}
		return c.UF(sg+"tof64", smt.BV(64), t)
	case isff && okt:
		t := v.(*smt.Term)
		if t.IsConst() {
			f := f64(t, ff)
			if st {
				return c.Const(uint64(int64(f)), wt)
			}
			return c.Const(uint64(f), wt)
		}
		sg := "u"
		if st {
			sg = "s"
		}
		if ff == 32 {
			return c.Extract(c.UF("f32to"+sg, smt.BV(64), t), wt-1, 0)
		}
		return c.Extract(c.UF("f64to"+sg, smt.BV(64), t), wt-1, 0)
	}
	if isString(to) {
		switch x := v.(type) {
		case StrV:
			return x
		case SliceV:
			return r.sliceToStr(s, x)
		case *smt.Term:
			if x.IsConst() {
				return r.str(string(rune(smt.SignExt(x.Val, wf))))
			}
		}
		limit("conversion to string from %v", from)
	}
	if isString(from) {
		sv := v.(StrV)
		sl, ok := to.Underlying().(*types.Slice)
		if !ok {
			limit("string to %v", to)
		}
		w, _, _ := bvWidth(sl.Elem())
		if w != 8 {
			if sv.Con && w == 32 {
				rs := []rune(sv.S)
				a := ArrayV{}
				for _, q := range rs {
					a.E = append(a.E, c.Const(uint64(q), 32))
				}
				n := c.Const(uint64(len(rs)), 64)
				return SliceV{Obj: s.alloc(nil, a), Off: c.Const(0, 64), Len: n, Cap: n}
			}
			limit("string to runes")
		}
		if sv.Con {
			n := c.Const(uint64(len(sv.S)), 64)
			return SliceV{Obj: s.alloc(nil, r.concreteSeq([]byte(sv.S))), Off: c.Const(0, 64), Len: n, Cap: n}
		}
		if sv.Opq != "" {
			limit("bytes of opaque string")
		}
		return SliceV{Obj: s.alloc(nil, ArrayV{Sym: sv.Seq.Arr, LenT: c.Add(sv.Seq.Off, sv.Seq.Len)}), Off: sv.Seq.Off, Len: sv.Seq.Len, Cap: sv.Seq.Len}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if _, ok := from.Underlying().(*types.Pointer); ok {
			return v
		}
	}
	limit("conversion %v to %v", from, to)
	return nil
}

func (r *Run) sliceArr(s *State, x SliceV) ArrayV {
	if x.Obj == 0 {
		return ArrayV{}
	}
	a, ok := r.getPath(s.heap[x.Obj].V, x.Path).(ArrayV)
	if !ok {
		limit("slice backing is %T", s.heap[x.Obj].V)
	}
	return a
}

func (r *Run) sliceToStr(s *State, x SliceV) Value {
	c := r.c
	if x.Obj == 0 {
		return r.str("")
	}
	a := r.sliceArr(s, x)
	if a.Sym != nil {
		return StrV{Seq: Seq{Arr: a.Sym, Off: x.Off, Len: x.Len}}
	}
	if !x.Len.IsConst() || !x.Off.IsConst() {
		limit("string of symbolic-length slice")
	}
	bs := make([]byte, 0, x.Len.Val)
	all := true
	arr := c.Var("zeroarr", smt.Arr(8))
	for i := uint64(0); i < x.Len.Val; i++ {
		t := r.arrayGet(a, c.Const(x.Off.Val+i, 64)).(*smt.Term)
		if t.IsConst() {
			bs = append(bs, byte(t.Val))
		} else {
			all = false
		}
		arr = c.Store(arr, c.Const(i, 64), t)
	}
	if all {
		return r.str(string(bs))
	}
	return StrV{Seq: Seq{Arr: arr, Off: c.Const(0, 64), Len: x.Len}}
}

// maxMake is the limit of makeslice in bytes (linux/amd64).
const maxMake = 1 << 48

var sizes = types.SizesFor("gc", "amd64")

func (r *Run) makeSlice(s *State, x *ssa.MakeSlice) Value {
	c := r.c
	n := r.idx64(r.term(s, x.Len), x.Len.Type())
	k := r.idx64(r.term(s, x.Cap), x.Cap.Type())
	et := x.Type().Underlying().(*types.Slice).Elem()
	lim := c.Const(maxMake, 64)
	if sz := uint64(sizes.Sizeof(et)); sz > 1 {
		lim = c.Const(maxMake/sz, 64)
	}
	if !r.decide(s, c.And(c.Ule(n, lim), c.Ule(k, lim))) {
		r.goPanic(s, "makeslice: len or cap out of range")
	}
	if !r.decide(s, c.Ule(n, k)) {
		r.goPanic(s, "makeslice: len larger than cap")
	}
	zero := c.Const(0, 64)
	var a ArrayV
	if k.IsConst() && k.Val <= 4096 {
		a.E = make([]Value, k.Val)
		z := r.zero(et)
		for i := range a.E {
			a.E[i] = z
		}
	} else if w, _, ok := bvWidth(et); ok && w == 8 {
		// zero-initialised symbolic array
		a.Sym = r.zeroArr(w)
		a.LenT = k
	} else {
		a.LenT = k
		a.Zero = r.zero(et)
	}
	return SliceV{Obj: s.alloc(nil, a), Off: zero, Len: n, Cap: k}
}

func (r *Run) zeroArr(w int) *smt.Term {
	return r.c.Var("zeroarr", smt.Arr(w))
}

func (r *Run) slice(s *State, x *ssa.Slice) Value {
	c := r.c
	var lo, hi, max *smt.Term
	if x.Low != nil {
		lo = r.idx64(r.term(s, x.Low), x.Low.Type())
	} else {
		lo = c.Const(0, 64)
	}
	if x.High != nil {
		hi = r.idx64(r.term(s, x.High), x.High.Type())
	}
	if x.Max != nil {
		max = r.idx64(r.term(s, x.Max), x.Max.Type())
	}
	switch a := r.get(s, x.X).(type) {
	case SliceV:
		if hi == nil {
			hi = a.Len
		}
		cp := a.Cap
		if max != nil {
			if !r.decide(s, c.Ule(max, cp)) {
				r.goPanic(s, "slice bounds out of range")
			}
			cp = max
		}
		if !r.decide(s, c.Ule(hi, cp)) {
			r.goPanic(s, "slice bounds out of range [:x] with capacity")
		}
		if !r.decide(s, c.Ule(lo, hi)) {
			r.goPanic(s, "slice bounds out of range [x:y]")
		}
		if a.Obj == 0 {
			return a
		}
		return SliceV{Obj: a.Obj, Path: a.Path, Off: c.Add(a.Off, lo), Len: c.Sub(hi, lo), Cap: c.Sub(cp, lo)}
	case StrV:
		n := r.strLen(a)
		if hi == nil {
			hi = n
		}
		if !r.decide(s, c.Ule(hi, n)) || !r.decide(s, c.Ule(lo, hi)) {
			r.goPanic(s, "string slice bounds out of range")
		}
		if a.Con && lo.IsConst() && hi.IsConst() {
			return r.str(a.S[lo.Val:hi.Val])
		}
		if a.Con {
			limit("symbolic slice of concrete string")
		}
		return StrV{Seq: Seq{Arr: a.Seq.Arr, Off: c.Add(a.Seq.Off, lo), Len: c.Sub(hi, lo)}}
	case PtrV:
		r.nilCheck(s, a)
		arr, ok := r.load(s, a).(ArrayV)
		if !ok {
			limit("slice of %T", r.load(s, a))
		}
		n := r.arrLen(arr)
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			cp = max
		}
		if !r.decide(s, c.Ule(cp, n)) || !r.decide(s, c.Ule(hi, cp)) || !r.decide(s, c.Ule(lo, hi)) {
			r.goPanic(s, "slice bounds out of range")
		}
		return SliceV{Obj: a.Obj, Path: a.Path, Off: lo, Len: c.Sub(hi, lo), Cap: c.Sub(cp, lo)}
	}
	limit("slice of %T", r.get(s, x.X))
	return nil
}

func (r *Run) typeAssert(s *State, x *ssa.TypeAssert) Value {
	iv, ok := r.get(s, x.X).(IfaceV)
	if !ok {
		limit("typeassert on %T", r.get(s, x.X))
	}
	good := false
	var res Value
	if iv.T != nil {
		if ev, isErr := iv.V.(ErrV); isErr {
			_ = ev
			if types.IsInterface(x.AssertedType) {
				it := x.AssertedType.Underlying().(*types.Interface)
				good = it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
				res = iv
			}
		} else if types.IsInterface(x.AssertedType) {
			if types.Implements(iv.T, x.AssertedType.Underlying().(*types.Interface)) {
				good = true
				res = iv
			}
		} else if types.Identical(iv.T, x.AssertedType) {
			good = true
			res = iv.V
		}
	}
	if x.CommaOk {
		if !good {
			res = r.zero(x.AssertedType)
		}
		return TupleV{res, r.c.Bool(good)}
	}
	if !good {
		r.goPanic(s, "interface conversion: %v is not %v", iv.T, x.AssertedType)
	}
	return res
}

func (r *Run) mapLookup(s *State, m MapV, key Value, commaOk bool, mt *types.Map) Value {
	var val Value
	found := false
	if m.Obj != 0 {
		mo := s.heap[m.Obj].V.(MapObj)
		for i, k := range mo.Keys {
			if r.decide(s, r.equal(s, k, key)) {
				val, found = mo.Vals[i], true
				break
			}
		}
	}
	if !found {
		val = r.zero(mt.Elem())
	}
	if commaOk {
		return TupleV{val, r.c.Bool(found)}
	}
	return val
}

func (r *Run) mapUpdate(s *State, x *ssa.MapUpdate) {
	m, ok := r.get(s, x.Map).(MapV)
	if !ok {
		limit("map update on %T", r.get(s, x.Map))
	}
	if m.Obj == 0 {
		r.goPanic(s, "assignment to entry in nil map")
	}
	key, val := r.get(s, x.Key), r.get(s, x.Value)
	mo := s.heap[m.Obj].V.(MapObj)
	hit := -1
	for i, k := range mo.Keys {
		if r.decide(s, r.equal(s, k, key)) {
			hit = i
			break
		}
	}
	r.frameCheck(s, PtrV{Obj: m.Obj})
	n := MapObj{Keys: append([]Value(nil), mo.Keys...), Vals: append([]Value(nil), mo.Vals...)}
	if hit >= 0 {
		n.Vals[hit] = val
	} else {
		n.Keys = append(n.Keys, key)
		n.Vals = append(n.Vals, val)
	}
	s.setObj(m.Obj, n)
}

func (r *Run) next(s *State, x *ssa.Next) Value {
	p := r.get(s, x.Iter).(PtrV)
	it := s.heap[p.Obj].V.(IterV)
	tt := x.Type().(*types.Tuple)
	bad := func() Value {
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return r.c.F
			}
			return r.zero(t)
		}
		return TupleV{r.c.F, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	if it.Str {
		if it.Pos >= len(it.S.S) {
			return bad()
		}
		rest := it.S.S[it.Pos:]
		var ru rune
		n := len(rest)
		for i, q := range rest {
			if i == 0 {
				ru = q
			} else {
				n = i
				break
			}
		}
		res := TupleV{r.c.T, r.c.Const(uint64(it.Pos), 64), r.c.Const(uint64(ru), 32)}
		it.Pos += n
		s.setObj(p.Obj, it)
		return res
	}
	if it.M.Obj == 0 {
		return bad()
	}
	mo := s.heap[it.M.Obj].V.(MapObj)
	if it.Pos >= len(mo.Keys) {
		return bad()
	}
	res := TupleV{r.c.T, mo.Keys[it.Pos], mo.Vals[it.Pos]}
	it.Pos++
	s.setObj(p.Obj, it)
	return res
}
