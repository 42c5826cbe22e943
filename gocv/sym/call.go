package sym

import (
	"fmt"
	"go/types"
	"strings"

	"gocv/smt"

	"golang.org/x/tools/go/ssa"
)

// doCall executes a call; true if a new frame was pushed.
func (r *Run) doCall(s *State, c *ssa.Call) bool {
	com := c.Common()
	var args []Value
	var fn *ssa.Function
	var bind []Value
	if com.IsInvoke() {
		recv, ok := r.get(s, com.Value).(IfaceV)
		if !ok {
			limit("invoke on %T", r.get(s, com.Value))
		}
		if recv.T == nil {
			r.goPanic(s, "nil interface method call %s", com.Method.Name())
		}
		if ev, ok := recv.V.(ErrV); ok {
			if com.Method.Name() == "Error" {
				r.set(s, c, StrV{Opq: "error:" + ev.Name})
				return false
			}
			limit("method %s of opaque error", com.Method.Name())
		}
		fn = r.P.lookupMethod(recv.T, com.Method)
		if fn == nil {
			limit("no method %s on %v", com.Method, recv.T)
		}
		args = append(args, recv.V)
		for _, a := range com.Args {
			args = append(args, r.get(s, a))
		}
	} else {
		switch v := com.Value.(type) {
		case *ssa.Builtin:
			return r.builtin(s, c, v)
		case *ssa.Function:
			fn = v
		default:
			fv, ok := r.get(s, com.Value).(FuncV)
			if !ok {
				limit("call of %T", r.get(s, com.Value))
			}
			if fv.Fn == nil {
				if fv.Blt != nil {
					limit("call of builtin value")
				}
				r.goPanic(s, "call of nil function")
			}
			fn, bind = fv.Fn, fv.Bind
		}
		for _, a := range com.Args {
			args = append(args, r.get(s, a))
		}
	}
	return r.callFn(s, fn, args, bind, c)
}

func (r *Run) callFn(s *State, fn *ssa.Function, args, bind []Value, c *ssa.Call) bool {
	// contract substitution
	if rep := r.P.contractFor(fn, r.use); rep != nil && !r.inFrame(s, rep) {
		r.Contr[fn.String()] = true
		fn = rep
	}
	name := fnKey(fn)
	if c != nil {
		if res, ok := r.hostCall(s, fn, name, args, c); ok {
			r.Intr[name] = true
			r.set(s, c, res)
			return false
		}
	}
	if in, ok := intrinsics[name]; ok {
		if !strings.Contains(name, "/internal/cv.") && !strings.Contains(name, "internal/cv)") {
			r.Intr[name] = true
		}
		r.snap = s.clone()
		before := len(s.frames)
		res := in(&icall{r: r, s: s, fn: fn, args: args, call: c})
		if len(s.frames) != before {
			return true
		}
		r.set(s, c, res)
		return false
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#") && false {
		// package initialiser called from another initialiser
		if !r.P.inited(fn.Pkg) {
			r.set(s, c, TupleV{})
			return false
		}
	}
	if fn.Blocks == nil {
		r.P.ensureBuilt(fn)
	}
	f := r.pushFrame(s, fn, args, c)
	for i := range fn.FreeVars {
		f.env[len(fn.Params)+i] = bind[i]
	}
	return true
}

func (r *Run) inFrame(s *State, fn *ssa.Function) bool {
	// only the immediate caller: a contract falling back to the real function
	return len(s.frames) > 0 && (s.top().fn == fn || s.top().fn.Origin() == fn)
}

// fnKey names a function independent of instantiation.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (r *Run) builtin(s *State, call *ssa.Call, b *ssa.Builtin) bool {
	c := r.c
	var args []Value
	for _, a := range call.Call.Args {
		args = append(args, r.get(s, a))
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			r.set(s, call, x.Len)
		case StrV:
			r.set(s, call, r.strLen(x))
		case MapV:
			n := 0
			if x.Obj != 0 {
				n = len(s.heap[x.Obj].V.(MapObj).Keys)
			}
			r.set(s, call, c.Const(uint64(n), 64))
		case ArrayV:
			r.set(s, call, r.arrLen(x))
		default:
			limit("len of %T", x)
		}
	case "cap":
		x, ok := args[0].(SliceV)
		if !ok {
			limit("cap of %T", args[0])
		}
		r.set(s, call, x.Cap)
	case "append":
		et := call.Type().Underlying().(*types.Slice).Elem()
		r.set(s, call, r.doAppend(s, args[0].(SliceV), args[1], et))
	case "copy":
		r.set(s, call, r.doCopy(s, args[0].(SliceV), args[1]))
	case "min", "max":
		w, sg, ok := bvWidth(call.Type())
		_ = w
		if !ok {
			limit("min/max on %v", call.Type())
		}
		acc := args[0].(*smt.Term)
		for _, a := range args[1:] {
			t := a.(*smt.Term)
			l := r.lt(t, acc, sg)
			if b.Name() == "max" {
				l = r.lt(acc, t, sg)
			}
			acc = c.Ite(l, t, acc)
		}
		r.set(s, call, acc)
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		if p.Obj == 0 {
			r.goPanic(s, "value method called using nil pointer")
		}
		r.set(s, call, p)
	case "delete":
		m := args[0].(MapV)
		if m.Obj != 0 {
			mo := s.heap[m.Obj].V.(MapObj)
			hit := -1
			for i, k := range mo.Keys {
				if r.decide(s, r.equal(s, k, args[1])) {
					hit = i
					break
				}
			}
			if hit >= 0 {
				n := MapObj{}
				for i := range mo.Keys {
					if i != hit {
						n.Keys = append(n.Keys, mo.Keys[i])
						n.Vals = append(n.Vals, mo.Vals[i])
					}
				}
				s.setObj(m.Obj, n)
			}
		}
		r.set(s, call, TupleV{})
	case "recover":
		if s.pending != nil {
			limit("recover from a panic")
		}
		r.set(s, call, IfaceV{})
	case "print", "println":
		r.set(s, call, TupleV{})
	default:
		limit("builtin %s", b.Name())
	}
	return false
}

func (r *Run) doAppend(s *State, a SliceV, bv Value, et types.Type) Value {
	c := r.c
	var n *smt.Term
	var elem func(i uint64) Value
	switch b := bv.(type) {
	case SliceV:
		n = b.Len
		if b.Obj != 0 {
			src := r.sliceArr(s, b)
			elem = func(i uint64) Value { return r.arrayGet(src, c.Add(b.Off, c.Const(i, 64))) }
		}
	case StrV:
		n = r.strLen(b)
		elem = func(i uint64) Value { return r.strAt(b, c.Const(i, 64)) }
	default:
		limit("append of %T", bv)
	}
	if !n.IsConst() || n.Val > 64 {
		if v, ok := r.appendSeq(s, a, bv, n); ok {
			return v
		}
	}
	if !n.IsConst() {
		n = c.Const(r.concretise(s, n, 64, "append length"), 64)
	}
	k := n.Val
	if k == 0 {
		return a
	}
	newLen := c.Add(a.Len, n)
	fits := r.decide(s, c.Ule(newLen, a.Cap))
	if fits && a.Obj != 0 {
		arr := r.sliceArr(s, a)
		base := c.Add(a.Off, a.Len)
		if arr.Sym == nil && !base.IsConst() {
			base = c.Const(r.concretise(s, base, 64, "append position"), 64)
		}
		for i := uint64(0); i < k; i++ {
			p := PtrV{Obj: a.Obj, Path: extend(a.Path, PathElem{Field: -1, Idx: c.Add(base, c.Const(i, 64))})}
			r.store(s, p, elem(i))
		}
		return SliceV{Obj: a.Obj, Path: a.Path, Off: a.Off, Len: newLen, Cap: a.Cap}
	}
	var arr ArrayV
	if a.Obj != 0 {
		arr = r.sliceArr(s, a)
	}
	if arr.Sym != nil {
		ncap := c.Mul(newLen, c.Const(2, 64))
		na := ArrayV{Sym: arr.Sym, LenT: c.Add(a.Off, ncap)}
		for i := uint64(0); i < k; i++ {
			na.Sym = c.Store(na.Sym, c.Add(c.Add(a.Off, a.Len), c.Const(i, 64)), elem(i).(*smt.Term))
		}
		return SliceV{Obj: s.alloc(nil, na), Off: a.Off, Len: newLen, Cap: ncap}
	}
	ln := a.Len
	if !ln.IsConst() {
		ln = c.Const(r.concretise(s, ln, 64, "append length"), 64)
	}
	l := ln.Val
	nc := 2 * l
	if nc < l+k {
		nc = l + k
	}
	na := ArrayV{E: make([]Value, nc)}
	z := r.zero(et)
	for i := uint64(0); i < nc; i++ {
		switch {
		case i < l:
			na.E[i] = r.arrayGet(arr, c.Add(a.Off, c.Const(i, 64)))
		case i < l+k:
			na.E[i] = elem(i - l)
		default:
			na.E[i] = z
		}
	}
	return SliceV{Obj: s.alloc(nil, na), Off: c.Const(0, 64), Len: c.Const(l+k, 64), Cap: c.Const(nc, 64)}
}

// byteSeq is the content of a byte slice or string as a symbolic sequence.
func (r *Run) byteSeq(s *State, v Value) (Seq, bool) {
	c := r.c
	switch b := v.(type) {
	case SliceV:
		if b.Obj == 0 {
			return Seq{r.zeroArr(8), c.Const(0, 64), c.Const(0, 64)}, true
		}
		arr := r.sliceArr(s, b)
		if arr.Sym != nil {
			return Seq{arr.Sym, b.Off, b.Len}, true
		}
		if z, ok := arr.Zero.(*smt.Term); ok && z.Sort.W == 8 || len(arr.E) > 0 && len(arr.E) <= 8192 {
			sym := r.zeroArr(8)
			for i, e := range arr.E {
				t, ok := e.(*smt.Term)
				if !ok || t.Sort.W != 8 {
					return Seq{}, false
				}
				if !(t.IsConst() && t.Val == 0) {
					sym = c.Store(sym, c.Const(uint64(i), 64), t)
				}
			}
			return Seq{sym, b.Off, b.Len}, true
		}
	case StrV:
		if !b.Con && b.Opq == "" {
			return b.Seq, true
		}
	}
	return Seq{}, false
}

// appendSeq appends a byte sequence of symbolic (or large) length.
func (r *Run) appendSeq(s *State, a SliceV, bv Value, n *smt.Term) (Value, bool) {
	c := r.c
	q, ok := r.byteSeq(s, bv)
	if !ok {
		return nil, false
	}
	if r.decide(s, c.Eq(n, c.Const(0, 64))) {
		return a, true
	}
	newLen := c.Add(a.Len, n)
	d, ok := r.byteSeq(s, a)
	if !ok {
		return nil, false
	}
	sym := c.CopyArr(d.Arr, c.Add(a.Off, a.Len), q.Arr, q.Off, n)
	if a.Obj != 0 && r.decide(s, c.Ule(newLen, a.Cap)) {
		if len(a.Path) != 0 {
			return nil, false
		}
		r.frameCheck(s, PtrV{Obj: a.Obj})
		arr := r.sliceArr(s, a)
		s.setObj(a.Obj, ArrayV{Sym: sym, LenT: r.arrLen(arr)})
		return SliceV{Obj: a.Obj, Off: a.Off, Len: newLen, Cap: a.Cap}, true
	}
	return SliceV{Obj: s.alloc(nil, ArrayV{Sym: sym, LenT: c.Add(a.Off, newLen)}), Off: a.Off, Len: newLen, Cap: newLen}, true
}

func (r *Run) doCopy(s *State, d SliceV, sv Value) Value {
	c := r.c
	var n *smt.Term
	var elem func(i uint64) Value
	switch b := sv.(type) {
	case SliceV:
		n = b.Len
		if b.Obj != 0 {
			src := r.sliceArr(s, b)
			elem = func(i uint64) Value { return r.arrayGet(src, c.Add(b.Off, c.Const(i, 64))) }
		}
	case StrV:
		n = r.strLen(b)
		elem = func(i uint64) Value { return r.strAt(b, c.Const(i, 64)) }
	}
	if r.decide(s, c.Ule(d.Len, n)) {
		n = d.Len
	}
	if !n.IsConst() || n.Val > 64 {
		q, ok1 := r.byteSeq(s, sv)
		o, ok2 := r.byteSeq(s, d)
		if ok1 && ok2 && d.Obj != 0 && len(d.Path) == 0 {
			r.frameCheck(s, PtrV{Obj: d.Obj})
			arr := r.sliceArr(s, d)
			s.setObj(d.Obj, ArrayV{Sym: c.CopyArr(o.Arr, d.Off, q.Arr, q.Off, n), LenT: r.arrLen(arr)})
			return n
		}
	}
	if !n.IsConst() {
		n = c.Const(r.concretise(s, n, 64, "copy length"), 64)
	}
	for i := uint64(0); i < n.Val; i++ {
		r.frameCheck(s, PtrV{Obj: d.Obj})
		p := PtrV{Obj: d.Obj, Path: extend(d.Path, PathElem{Field: -1, Idx: c.Add(d.Off, c.Const(i, 64))})}
		r.store(s, p, elem(i))
	}
	return n
}

// icall is the context of an intrinsic call.
type icall struct {
	r    *Run
	s    *State
	fn   *ssa.Function
	args []Value
	call *ssa.Call
}

func (i *icall) term(k int) *smt.Term {
	t, ok := i.args[k].(*smt.Term)
	if !ok {
		limit("intrinsic arg %d of %s is %T", k, i.fn, i.args[k])
	}
	return t
}
func (i *icall) strArg(k int) string {
	v, ok := i.args[k].(StrV)
	if !ok || !v.Con {
		limit("intrinsic %s needs a constant string", i.fn)
	}
	return v.S
}
func (i *icall) ptr(k int) PtrV {
	v, ok := i.args[k].(PtrV)
	if !ok {
		limit("intrinsic %s arg %d is %T", i.fn, k, i.args[k])
	}
	return v
}
func (i *icall) typeArg() types.Type { return i.fn.TypeArgs()[0] }

var nilErr = IfaceV{}

func (r *Run) nondet(s *State, label string) bool {
	b := r.fresh(s, label, smt.Bool)
	s.choices = append(s.choices, Choice{Label: label, Terms: []*smt.Term{b}})
	return r.decide(s, b)
}

// anyValue builds an unconstrained value of a type.
func (r *Run) anyValue(s *State, t types.Type, label string) Value {
	c := r.c
	if w, _, ok := bvWidth(t); ok {
		v := r.fresh(s, label, smt.BV(w))
		s.choices = append(s.choices, Choice{Label: label, Terms: []*smt.Term{v}})
		return v
	}
	if w, ok := isFloat(t); ok {
		v := r.fresh(s, label, smt.BV(w))
		s.choices = append(s.choices, Choice{Label: label, Terms: []*smt.Term{v}})
		return v
	}
	if isBool(t) {
		v := r.fresh(s, label, smt.Bool)
		s.choices = append(s.choices, Choice{Label: label, Terms: []*smt.Term{v}})
		return v
	}
	if isString(t) {
		q := r.anySeq(s, label)
		return StrV{Seq: q}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := StructV{F: make([]Value, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = r.anyValue(s, u.Field(i).Type(), label+"."+u.Field(i).Name())
		}
		return sv
	case *types.Array:
		a := ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, r.anyValue(s, u.Elem(), fmt.Sprintf("%s[%d]", label, i)))
		}
		return a
	case *types.Pointer:
		v := r.anyValue(s, u.Elem(), label)
		return PtrV{Obj: s.alloc(u.Elem(), v)}
	case *types.Slice:
		if w, _, ok := bvWidth(u.Elem()); ok && w == 8 {
			q := r.anySeq(s, label)
			return SliceV{Obj: s.alloc(nil, ArrayV{Sym: q.Arr, LenT: q.Len}), Off: q.Off, Len: q.Len, Cap: q.Len}
		}
	}
	limit("Any of type %v", t)
	_ = c
	return nil
}

func (r *Run) anySeq(s *State, label string) Seq {
	c := r.c
	q := Seq{Arr: r.fresh(s, label, smt.Arr(8)), Off: c.Const(0, 64), Len: r.fresh(s, label+".len", smt.BV(64))}
	s.assume(c.Ult(q.Len, c.Const(1<<40, 64)))
	s.choices = append(s.choices, Choice{Label: label, Seq: &q})
	return q
}

// anySlice: n elements, each unconstrained.
func (r *Run) anySlice(s *State, et types.Type, n int, label string) Value {
	a := ArrayV{}
	for i := 0; i < n; i++ {
		a.E = append(a.E, r.anyValue(s, et, fmt.Sprintf("%s[%d]", label, i)))
	}
	k := r.c.Const(uint64(n), 64)
	return SliceV{Obj: s.alloc(nil, a), Off: r.c.Const(0, 64), Len: k, Cap: k}
}

// deepSame: structural equality for proof obligations.
func (r *Run) deepSame(s *State, x, y Value, depth int) *smt.Term {
	c := r.c
	if depth > 40 {
		limit("deep equality depth")
	}
	switch a := x.(type) {
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			limit("deepSame %T", y)
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return c.F
		}
		return r.deepSame(s, a.V, b.V, depth+1)
	case PtrV:
		b := y.(PtrV)
		if a.Obj == 0 || b.Obj == 0 {
			return c.Bool(a.Obj == b.Obj)
		}
		if samePtr(a, b) {
			return c.T
		}
		return r.deepSame(s, r.load(s, a), r.load(s, b), depth+1)
	case StructV:
		b := y.(StructV)
		res := c.T
		for i := range a.F {
			res = c.And(res, r.deepSame(s, a.F[i], b.F[i], depth+1))
		}
		return res
	case ArrayV:
		b := y.(ArrayV)
		if a.Sym != nil || b.Sym != nil || len(a.E) != len(b.E) {
			limit("deep array equality")
		}
		res := c.T
		for i := range a.E {
			res = c.And(res, r.deepSame(s, a.E[i], b.E[i], depth+1))
		}
		return res
	case SliceV:
		b := y.(SliceV)
		return r.sliceSame(s, a, b, depth)
	case StrV:
		b := y.(StrV)
		if !a.Con && !b.Con && a.Opq == "" && b.Opq == "" {
			return r.seqSame(s, a.Seq, b.Seq)
		}
		return r.strEq(s, a, b)
	case MapV:
		b := y.(MapV)
		if a.Obj == b.Obj {
			return c.T
		}
		limit("deep map equality")
	case FuncV:
		return r.equal(s, x, y)
	}
	return r.equal(s, x, y)
}

func (r *Run) sliceSame(s *State, a, b SliceV, depth int) *smt.Term {
	c := r.c
	if a.Obj == 0 || b.Obj == 0 {
		return c.Eq(a.Len, b.Len)
	}
	aa, ba := r.sliceArr(s, a), r.sliceArr(s, b)
	if aa.Sym != nil && ba.Sym != nil {
		return r.seqSame(s, Seq{aa.Sym, a.Off, a.Len}, Seq{ba.Sym, b.Off, b.Len})
	}
	le := c.Eq(a.Len, b.Len)
	n := a.Len
	if !n.IsConst() {
		n = b.Len
	}
	if !n.IsConst() {
		n = c.Const(r.concretise(s, a.Len, 64, "slice length"), 64)
		le = c.Eq(a.Len, b.Len)
	}
	if !r.decide(s, le) {
		return c.F
	}
	res := c.T
	for i := uint64(0); i < n.Val; i++ {
		k := c.Const(i, 64)
		res = c.And(res, r.deepSame(s, r.arrayGet(aa, c.Add(a.Off, k)), r.arrayGet(ba, c.Add(b.Off, k)), depth+1))
	}
	return res
}
