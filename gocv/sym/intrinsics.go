package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"gocv/smt"
)

var intrinsics map[string]func(*icall) Value

// TrustedDoc documents the trusted models of external functions.
var TrustedDoc = map[string]string{
	"errors.New": "returns a fresh non-nil error", "fmt.Errorf": "returns a fresh non-nil error wrapping its %w operands",
	"errors.Is": "walks the wrap tree", "io.ReadFull": "reads exactly len(buf) bytes or returns an error",
	"fmt.Sprintf": "text formatting (opaque unless all operands are concrete)",
}

func init() {
	cv := CvPath + "."
	S := "(*" + CvPath + ".S)."
	W := "(*" + CvPath + ".W)."
	R := "(*" + CvPath + ".R)."
	intrinsics = map[string]func(*icall) Value{
		"errors.New": func(i *icall) Value { return i.newErr("errors.New", nil) },
		"fmt.Errorf": func(i *icall) Value {
			var wrap []Value
			if f, ok := i.args[0].(StrV); ok && f.Con && strings.Contains(f.S, "%w") {
				for _, a := range i.variadic(1) {
					if iv, ok := a.(IfaceV); ok && iv.T != nil && types.Implements(iv.T, errIface()) {
						wrap = append(wrap, iv)
					}
				}
			}
			return i.newErr("fmt.Errorf", wrap)
		},
		"errors.Is": func(i *icall) Value { return i.r.c.Bool(i.r.errIs(i.s, i.args[0], i.args[1])) },
		"fmt.Sprintf": func(i *icall) Value {
			f := i.args[0].(StrV)
			if !f.Con {
				return StrV{Opq: "sprintf"}
			}
			var as []any
			for _, a := range i.variadic(1) {
				iv := a.(IfaceV)
				if iv.T == nil {
					as = append(as, nil)
					continue
				}
				switch x := iv.V.(type) {
				case StrV:
					if !x.Con {
						return StrV{Opq: "sprintf"}
					}
					as = append(as, x.S)
				case *smt.Term:
					if !x.IsConst() {
						return StrV{Opq: "sprintf"}
					}
					w, sg, ok := bvWidth(iv.T)
					switch {
					case ok && sg:
						as = append(as, smt.SignExt(x.Val, w))
					case ok:
						as = append(as, x.Val)
					case isBool(iv.T):
						as = append(as, x.Val == 1)
					default:
						if fw, ok := isFloat(iv.T); ok {
							as = append(as, f64(x, fw))
						} else {
							return StrV{Opq: "sprintf"}
						}
					}
				default:
					return StrV{Opq: "sprintf"}
				}
			}
			return i.r.str(fmt.Sprintf(f.S, as...))
		},
		"math/bits.Len64": func(i *icall) Value { return i.r.bitLen(i.term(0), 64) },
		"math/bits.Len32": func(i *icall) Value { return i.r.bitLen(i.term(0), 32) },
		"math/bits.Len16": func(i *icall) Value { return i.r.bitLen(i.term(0), 16) },
		"math/bits.Len8":  func(i *icall) Value { return i.r.bitLen(i.term(0), 8) },
		"math/bits.Len":   func(i *icall) Value { return i.r.bitLen(i.term(0), 64) },
		"math/bits.LeadingZeros64": func(i *icall) Value {
			return i.r.c.Sub(i.r.c.Const(64, 64), i.r.bitLen(i.term(0), 64))
		},
		"math/bits.LeadingZeros32": func(i *icall) Value {
			return i.r.c.Sub(i.r.c.Const(32, 64), i.r.bitLen(i.term(0), 32))
		},
		"math.Float32bits":     func(i *icall) Value { return i.term(0) },
		"math.Float32frombits": func(i *icall) Value { return i.term(0) },
		"math.Float64bits":     func(i *icall) Value { return i.term(0) },
		"math.Float64frombits": func(i *icall) Value { return i.term(0) },
		"math.Pow": func(i *icall) Value {
			a, b := i.term(0), i.term(1)
			if a.IsConst() && b.IsConst() {
				return i.r.fconst(math.Pow(math.Float64frombits(a.Val), math.Float64frombits(b.Val)), 64)
			}
			return i.r.c.UF("pow", smt.BV(64), a, b)
		},
		"math.Abs":   func(i *icall) Value { return i.r.c.BvAnd(i.term(0), i.r.c.Const(1<<63-1, 64)) },
		"math.IsNaN": func(i *icall) Value { return i.r.c.Not(i.r.fEq(i.term(0), i.term(0), 64)) },
		"math.Inf": func(i *icall) Value {
			t := i.term(0)
			c := i.r.c
			return c.Ite(c.Slt(t, c.Const(0, 64)), c.Const(0xfff0000000000000, 64), c.Const(0x7ff0000000000000, 64))
		},
		"math.IsInf": func(i *icall) Value {
			c := i.r.c
			x, sg := i.term(0), i.term(1)
			z := c.Const(0, 64)
			return c.Or(c.And(c.Sle(z, sg), c.Eq(x, c.Const(0x7ff0000000000000, 64))), c.And(c.Sle(sg, z), c.Eq(x, c.Const(0xfff0000000000000, 64))))
		},
		"math.NaN": func(i *icall) Value { return i.r.c.Const(math.Float64bits(math.NaN()), 64) },
		"io.ReadFull": func(i *icall) Value {
			iv, ok := i.args[0].(IfaceV)
			if ok && iv.T != nil {
				if p, ok := iv.V.(PtrV); ok {
					if st := i.s.streams[p.Obj]; st != nil && st.role == 'r' {
						n, err := i.r.readBytes(i.s, p.Obj, i.args[1].(SliceV), true)
						return TupleV{n, err}
					}
				}
			}
			i.r.pushFrame(i.s, i.fn, i.args, i.call)
			return nil
		},
		"sort.Strings": nil,

		cv + "Any": func(i *icall) Value { return i.r.anyValue(i.s, i.typeArg(), i.strArg(0)) },
		cv + "AnySlice": func(i *icall) Value {
			n := i.r.concretise(i.s, i.term(1), 64, "AnySlice length")
			return i.r.anySlice(i.s, i.typeArg(), int(n), i.strArg(0))
		},
		cv + "Choose": func(i *icall) Value {
			c := i.r.c
			v := i.r.fresh(i.s, i.strArg(0), smt.BV(64))
			i.s.choices = append(i.s.choices, Choice{Label: i.strArg(0), Terms: []*smt.Term{v}})
			lo, hi := i.term(1), i.term(2)
			i.s.assume(c.And(c.Sle(lo, v), c.Sle(v, hi)))
			return c.Const(i.r.concretise(i.s, v, 100000, "Choose"), 64)
		},
		cv + "Param": func(i *icall) Value {
			v, ok := i.r.Params[i.strArg(0)]
			if !ok {
				limit("unknown parameter %s", i.strArg(0))
			}
			return i.r.c.Const(uint64(v), 64)
		},
		cv + "AnyPos": func(i *icall) Value {
			v := i.r.fresh(i.s, i.strArg(0), smt.BV(64))
			i.s.choices = append(i.s.choices, Choice{Label: i.strArg(0), Terms: []*smt.Term{v}})
			i.s.assume(i.r.c.Ult(v, i.r.c.Const(1<<40, 64)))
			return v
		},
		cv + "Requires": func(i *icall) Value {
			c := i.term(0)
			if c.IsFalse() {
				panic(endPath{"requires"})
			}
			if !c.IsTrue() && i.r.sol.Check(i.s.pc, c) == smt.Unsat {
				panic(endPath{"requires"})
			}
			i.s.assume(c)
			return TupleV{}
		},
		cv + "Ensures": func(i *icall) Value {
			i.r.Ensured[i.call.Pos()] = i.strArg(1)
			i.r.check(i.s, i.strArg(1), i.term(0), "")
			return TupleV{}
		},
		cv + "Cover": func(i *icall) Value {
			i.r.CoverHit[i.strArg(0)]++
			return TupleV{}
		},
		cv + "NoPanic": func(i *icall) Value {
			f := i.args[0].(FuncV)
			nf := i.r.pushFrame(i.s, f.Fn, nil, i.call)
			for k := range f.Fn.FreeVars {
				nf.env[len(f.Fn.Params)+k] = f.Bind[k]
			}
			nf.catch = true
			return nil
		},
		cv + "IsErr":     func(i *icall) Value { return i.r.c.Bool(i.r.errIs(i.s, i.args[0], i.args[1])) },
		cv + "Same":      func(i *icall) Value { return i.r.deepSame(i.s, i.args[0], i.args[1], 0) },
		cv + "SameBytes": func(i *icall) Value { return i.r.sliceSame(i.s, i.args[0].(SliceV), i.args[1].(SliceV), 0) },
		cv + "Unchanged": func(i *icall) Value {
			if len(i.s.globalW) > 0 {
				i.s.trace = append(i.s.trace, "written: "+strings.Join(i.s.globalW, ", "))
			}
			return i.r.c.Bool(len(i.s.globalW) == 0)
		},
		cv + "Ite": func(i *icall) Value {
			c := i.term(0)
			if c.IsTrue() {
				return i.args[1]
			}
			if c.IsFalse() {
				return i.args[2]
			}
			a, ok1 := i.args[1].(*smt.Term)
			b, ok2 := i.args[2].(*smt.Term)
			if ok1 && ok2 {
				return i.r.c.Ite(c, a, b)
			}
			if i.r.decide(i.s, c) {
				return i.args[1]
			}
			return i.args[2]
		},
		cv + "And":     func(i *icall) Value { return i.r.c.And(i.term(0), i.term(1)) },
		cv + "Or":      func(i *icall) Value { return i.r.c.Or(i.term(0), i.term(1)) },
		cv + "Implies": func(i *icall) Value { return i.r.c.Implies(i.term(0), i.term(1)) },

		cv + "At": func(i *icall) Value { return i.newS(i.term(0)) },
		S + "Bits": func(i *icall) Value {
			st := i.stream(0)
			n := i.r.concretise(i.s, i.term(2), 130, "Bits width")
			i.r.emitBits(st, i.term(1), int(n))
			return TupleV{}
		},
		S + "Bytes": func(i *icall) Value { i.r.emitSlice(i.s, i.stream(0), i.args[1].(SliceV)); return TupleV{} },
		S + "Str":   func(i *icall) Value { i.r.emitStr(i.s, i.stream(0), i.args[1].(StrV)); return TupleV{} },
		S + "Tok": func(i *icall) Value {
			i.r.emit(i.stream(0), i.r.tokChunk(i.strArg(1), i.term(2)))
			return TupleV{}
		},
		S + "Align": func(i *icall) Value {
			st := i.stream(0)
			b := i.r.concretise(i.s, i.term(1), 260, "alignment boundary")
			i.r.emitBits(st, i.r.c.Const(0, 64), i.r.alignPad(i.s, st.pos, b))
			return TupleV{}
		},
		S + "Cat": func(i *icall) Value {
			o := i.s.stream(i.ptr(1).Obj)
			st := i.stream(0)
			for _, k := range o.chunks {
				i.r.emit(st, k)
			}
			return TupleV{}
		},
		S + "AnyTail": func(i *icall) Value {
			q := i.r.anySeq(i.s, i.strArg(1))
			i.r.emit(i.stream(0), Chunk{Kind: 'q', Seq: q})
			return TupleV{}
		},
		S + "Len": func(i *icall) Value {
			st := i.s.stream(i.ptr(0).Obj)
			n := i.r.c.Const(0, 64)
			for _, k := range st.chunks {
				n = i.r.c.Add(n, i.r.chunkLen(k))
			}
			return n
		},
		S + "Pos": func(i *icall) Value { return i.s.stream(i.ptr(0).Obj).pos },
		S + "Eq": func(i *icall) Value {
			return i.r.chunksEq(i.s, i.s.stream(i.ptr(0).Obj).chunks, i.s.stream(i.ptr(1).Obj).chunks)
		},
		S + "Writer":      func(i *icall) Value { return i.newStream(&Stream{role: 'w', target: i.ptr(0).Obj}, "W") },
		S + "FailWriter":  func(i *icall) Value { return i.newStream(&Stream{role: 'w', target: i.ptr(0).Obj, mode: 'f'}, "W") },
		S + "Reader":      func(i *icall) Value { return i.reader(0, false) },
		S + "FailReader":  func(i *icall) Value { return i.reader('f', false) },
		S + "ShortReader": func(i *icall) Value { return i.reader(0, true) },
		cv + "AnyReader": func(i *icall) Value {
			v := i.r.fresh(i.s, "pos", smt.BV(64))
			i.s.choices = append(i.s.choices, Choice{Label: "pos", Terms: []*smt.Term{v}})
			i.s.assume(i.r.c.Ult(v, i.r.c.Const(1<<40, 64)))
			return i.newStream(&Stream{role: 'r', mode: 'a', start: v, pos: v}, "R")
		},
		W + "Failed": func(i *icall) Value { return i.r.c.Bool(i.s.stream(i.ptr(0).Obj).failed) },
		W + "S":      func(i *icall) Value { return PtrV{Obj: i.s.stream(i.ptr(0).Obj).target} },
		W + "WriteBits": func(i *icall) Value {
			return i.wop(func(st *Stream) { i.r.emitBits(st, i.term(1), i.width(2)) })
		},
		W + "WriteBitsUnsafe": func(i *icall) Value {
			n := i.width(2)
			if n < 64 {
				i.r.check(i.s, "pre:WriteBitsUnsafe", i.r.c.Ult(i.term(1), i.r.c.Const(1<<uint(n), 64)), "bits above n must be zero")
			}
			return i.wop(func(st *Stream) { i.r.emitBits(st, i.term(1), n) })
		},
		W + "WriteBool": func(i *icall) Value {
			c := i.r.c
			return i.wop(func(st *Stream) {
				i.r.emitBits(st, c.Ite(i.term(1), c.Const(1, 64), c.Const(0, 64)), 1)
			})
		},
		W + "WriteByte": func(i *icall) Value {
			return i.wop(func(st *Stream) { i.r.emitBits(st, i.r.c.Zext(i.term(1), 64), 8) })
		},
		W + "Write": func(i *icall) Value {
			sl := i.args[1].(SliceV)
			err := i.wop(func(st *Stream) { i.r.emitSlice(i.s, st, sl) })
			n := sl.Len
			if err.(IfaceV).T != nil {
				n = i.r.c.Const(0, 64)
			}
			return TupleV{n, err}
		},
		W + "Align": func(i *icall) Value {
			c := i.r.c
			b := i.r.concretise(i.s, i.term(1), 260, "alignment boundary")
			w := i.s.stream(i.ptr(0).Obj)
			pad := i.r.alignPad(i.s, i.s.stream(w.target).pos, b)
			var err Value = nilErr
			if pad > 0 {
				err = i.wop(func(st *Stream) { i.r.emitBits(st, c.Const(0, 64), pad) })
			}
			if err.(IfaceV).T != nil {
				return TupleV{c.Const(0, 64), err}
			}
			return TupleV{i.s.stream(w.target).pos, err}
		},
		W + "EmitTok": func(i *icall) Value {
			return i.wop(func(st *Stream) { i.r.emit(st, i.r.tokChunk(i.strArg(1), i.term(2))) })
		},
		R + "Failed": func(i *icall) Value { return i.r.c.Bool(i.s.stream(i.ptr(0).Obj).failed) },
		R + "Pos":    func(i *icall) Value { return i.s.stream(i.ptr(0).Obj).pos },
		R + "Arb":    func(i *icall) Value { return i.r.c.Bool(i.s.stream(i.ptr(0).Obj).mode == 'a') },
		R + "Rest": func(i *icall) Value {
			st := i.s.stream(i.ptr(0).Obj)
			end := st.pos
			for _, k := range st.chunks {
				end = i.r.c.Add(end, i.r.chunkLen(k))
			}
			return i.newStream(&Stream{role: 's', start: st.pos, pos: end, chunks: append([]Chunk(nil), st.chunks...)}, "S")
		},
		R + "ReadBits": func(i *icall) Value {
			v, err := i.rop(i.width(1))
			return TupleV{v, err}
		},
		R + "ReadBool": func(i *icall) Value {
			v, err := i.rop(1)
			return TupleV{i.r.c.Eq(v, i.r.c.Const(1, 64)), err}
		},
		R + "ReadByte": func(i *icall) Value {
			v, err := i.rop(8)
			return TupleV{i.r.c.Extract(v, 7, 0), err}
		},
		R + "Read": func(i *icall) Value {
			n, err := i.r.readBytes(i.s, i.ptr(0).Obj, i.args[1].(SliceV), false)
			return TupleV{n, err}
		},
		R + "Align": func(i *icall) Value {
			c := i.r.c
			b := i.r.concretise(i.s, i.term(1), 260, "alignment boundary")
			st := i.s.stream(i.ptr(0).Obj)
			pad := i.r.alignPad(i.s, st.pos, b)
			for pad > 0 {
				k := pad
				if k > 64 {
					k = 64
				}
				_, err := i.rop(k)
				if err.(IfaceV).T != nil {
					return TupleV{c.Const(0, 64), err}
				}
				pad -= k
			}
			return TupleV{i.s.stream(i.ptr(0).Obj).pos, nilErr}
		},
		R + "HasTok": func(i *icall) Value {
			st := i.s.stream(i.ptr(0).Obj)
			return i.r.c.Bool(st.mode == 0 && len(st.chunks) > 0 && st.chunks[0].Kind == 't' && st.chunks[0].Tok == i.strArg(1))
		},
		R + "TakeTok": func(i *icall) Value {
			st := i.s.wstream(i.ptr(0).Obj)
			k := st.chunks[0]
			st.chunks = st.chunks[1:]
			st.pos = i.r.c.Add(st.pos, k.Len)
			return TupleV{k.Args[0], nilErr}
		},
		R + "AnyTok": func(i *icall) Value {
			// arbitrary content: some value of the kind, or an error
			c := i.r.c
			id := i.ptr(0).Obj
			st := i.s.wstream(id)
			if st.failed {
				return TupleV{c.Const(0, 64), i.r.ioErr(i.s)}
			}
			if i.r.nondet(i.s, "rfail") {
				i.s.wstream(id).failed = true
				return TupleV{c.Const(0, 64), i.r.ioErr(i.s)}
			}
			v := i.r.fresh(i.s, "rtok", smt.BV(64))
			n := i.r.fresh(i.s, "rtoklen", smt.BV(64))
			vk := varKinds[i.strArg(1)]
			i.s.assume(c.And(c.Ule(c.Const(1, 64), n), c.Ule(n, c.Const(uint64(vk.max), 64))))
			// the readers' contract (cv.VarReadable): no value beyond the payload
			p := 7*vk.max + 1
			if vk.signed {
				p--
			}
			switch {
			case p >= 63:
			case vk.signed:
				i.s.assume(c.And(c.Slt(c.Neg(c.Const(1<<uint(p), 64)), v), c.Slt(v, c.Const(1<<uint(p), 64))))
			default:
				i.s.assume(c.Ult(v, c.Const(1<<uint(p), 64)))
			}
			i.s.choices = append(i.s.choices, Choice{Label: "rtok", Terms: []*smt.Term{v, n}})
			st.pos = c.Add(st.pos, c.Mul(n, c.Const(8, 64)))
			return TupleV{v, nilErr}
		},
		cv + "GhostW": func(i *icall) Value { return i.ghost('w') },
		cv + "GhostR": func(i *icall) Value { return i.ghost('r') },
		cv + "Peek": func(i *icall) Value {
			p := i.walk()
			return i.r.load(i.s, p)
		},
		cv + "Poke": func(i *icall) Value {
			p := i.walk()
			i.r.store(i.s, p, i.args[2])
			return TupleV{}
		},
	}
	delete(intrinsics, "sort.Strings")
}

func errIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func (i *icall) newErr(kind string, wrap []Value) Value {
	i.s.next++
	name := kind
	if len(i.args) > 0 {
		if s, ok := i.args[0].(StrV); ok && s.Con {
			name += ":" + s.S
		}
	}
	return i.r.mkErr(fmt.Sprintf("%s#%d", name, i.s.next), wrap)
}

func (i *icall) variadic(k int) []Value {
	sl, ok := i.args[k].(SliceV)
	if !ok || sl.Obj == 0 {
		return nil
	}
	arr := i.r.sliceArr(i.s, sl)
	var out []Value
	for j := uint64(0); j < sl.Len.Val; j++ {
		out = append(out, i.r.arrayGet(arr, i.r.c.Const(sl.Off.Val+j, 64)))
	}
	return out
}

func (r *Run) errIs(s *State, e, t Value) bool {
	ev, ok1 := e.(IfaceV)
	tv, ok2 := t.(IfaceV)
	if !ok1 || !ok2 {
		limit("errors.Is on %T", e)
	}
	if ev.T == nil || tv.T == nil {
		return ev.T == nil && tv.T == nil
	}
	if r.decide(s, r.equal(s, ev, tv)) {
		return true
	}
	if x, ok := ev.V.(ErrV); ok {
		for _, w := range x.Wrap {
			if r.errIs(s, w, t) {
				return true
			}
		}
		return false
	}
	if m := r.P.methodByName(ev.T, "Unwrap"); m != nil {
		limit("errors.Is through %v", ev.T)
	}
	return false
}

// bitLen is the number of bits needed for x (width w), as a 64-bit term.
func (r *Run) bitLen(x *smt.Term, w int) *smt.Term {
	c := r.c
	if x.IsConst() {
		return c.Const(uint64(bits.Len64(x.Val)), 64)
	}
	acc := c.Const(0, 64)
	for k := 1; k <= w; k++ {
		acc = c.Ite(c.Not(c.Ult(x, c.Const(1<<uint(k-1), w))), c.Const(uint64(k), 64), acc)
	}
	return acc
}

func (r *Run) fEq(a, b *smt.Term, w int) *smt.Term {
	return r.fbinop(token.EQL, a, b, w).(*smt.Term)
}

func (r *Run) ioErr(s *State) Value {
	g := r.P.cvPkg.Var("ErrIO")
	return r.load(s, PtrV{Obj: r.globalObj(s, g)})
}

func (r *Run) eof(s *State) Value { return r.mkErr("io.EOF", nil) }

func (i *icall) newStream(st *Stream, typ string) Value {
	t := i.r.P.cvPkg.Type(typ).Type()
	id := i.s.alloc(t, StructV{})
	i.s.wstream(id)
	i.s.streams[id] = st
	return PtrV{Obj: id}
}

func (i *icall) newS(pos *smt.Term) Value {
	return i.newStream(&Stream{role: 's', start: pos, pos: pos}, "S")
}

func (i *icall) stream(k int) *Stream { return i.s.wstream(i.ptr(k).Obj) }

func (i *icall) reader(mode byte, short bool) Value {
	st := i.s.stream(i.ptr(0).Obj)
	return i.newStream(&Stream{role: 'r', mode: mode, short: short, start: st.start, pos: st.start, chunks: append([]Chunk(nil), st.chunks...)}, "R")
}

func (i *icall) width(k int) int {
	n := i.r.concretise(i.s, i.term(k), 260, "bit width")
	if n > 64 {
		i.r.check(i.s, "pre:bit width <= 64", i.r.c.F, fmt.Sprintf("%d bits", n))
	}
	return int(n)
}

// wop performs one writer operation.
func (i *icall) wop(f func(st *Stream)) Value {
	id := i.ptr(0).Obj
	w := i.s.stream(id)
	if w.mode == 'f' && !w.failed {
		if i.r.nondet(i.s, "wfail") {
			i.s.wstream(id).failed = true
			return i.r.ioErr(i.s)
		}
	}
	f(i.s.wstream(w.target))
	return nilErr
}

// rop reads n bits as a 64-bit term.
func (i *icall) rop(n int) (*smt.Term, Value) {
	c := i.r.c
	id := i.ptr(0).Obj
	zero := c.Const(0, 64)
	st := i.s.stream(id)
	if st.failed {
		return zero, i.r.ioErr(i.s)
	}
	if st.mode == 'f' || st.mode == 'a' {
		if i.r.nondet(i.s, "rfail") {
			i.s.wstream(id).failed = true
			return zero, i.r.ioErr(i.s)
		}
	}
	st = i.s.wstream(id)
	if st.mode == 'a' {
		st.pos = c.Add(st.pos, c.Const(uint64(n), 64))
		if n == 0 {
			return zero, nilErr
		}
		v := i.r.fresh(i.s, "rbits", smt.BV(n))
		i.s.choices = append(i.s.choices, Choice{Label: "rbits", Terms: []*smt.Term{v}})
		return c.Zext(v, 64), nilErr
	}
	if n == 0 {
		return zero, nilErr
	}
	v, ok := i.r.takeBits(i.s, st, n)
	if !ok {
		st.failed = true
		st.chunks = nil
		return zero, i.r.eof(i.s)
	}
	return c.Zext(v, 64), nilErr
}

func (r *Run) tokChunk(kind string, v *smt.Term) Chunk {
	c := r.c
	vk, ok := varKinds[kind]
	if !ok {
		limit("token %s", kind)
	}
	mag := v
	if vk.signed {
		mag = c.Ite(c.Slt(v, c.Const(0, 64)), c.Neg(v), v)
	}
	n := c.Const(uint64(8*vk.max), 64)
	for k := vk.max - 1; k >= 1; k-- {
		p := 7 * k
		if vk.signed {
			p--
		}
		n = c.Ite(c.Ult(mag, c.Const(1<<uint(p), 64)), c.Const(uint64(8*k), 64), n)
	}
	if kind == "varint" {
		n = c.Ite(c.Eq(v, c.Const(1<<63, 64)), c.Const(8, 64), n)
	}
	return Chunk{Kind: 't', Tok: kind, Args: []Value{v}, Len: n}
}

func (r *Run) emitSlice(s *State, st *Stream, sl SliceV) {
	c := r.c
	if sl.Obj == 0 {
		return
	}
	arr := r.sliceArr(s, sl)
	if arr.Sym != nil && !(sl.Len.IsConst() && sl.Len.Val <= 16) {
		if sl.Len.IsConst() && sl.Len.Val == 0 {
			return
		}
		r.emit(st, Chunk{Kind: 'q', Seq: Seq{arr.Sym, sl.Off, sl.Len}})
		return
	}
	n := r.concretise(s, sl.Len, 300, "slice length")
	for k := uint64(0); k < n; k++ {
		r.emit(st, r.bitsChunk(r.arrayGet(arr, c.Add(sl.Off, c.Const(k, 64))).(*smt.Term), 8))
	}
}

func (r *Run) emitStr(s *State, st *Stream, x StrV) {
	if x.Opq != "" {
		limit("opaque string written")
	}
	if x.Con {
		for k := 0; k < len(x.S); k++ {
			r.emit(st, r.bitsChunk(r.c.Const(uint64(x.S[k]), 8), 8))
		}
		return
	}
	r.emit(st, Chunk{Kind: 'q', Seq: x.Seq})
}

// readBytes fills a byte slice from a reader.
func (r *Run) readBytes(s *State, id ObjID, buf SliceV, full bool) (Value, Value) {
	c := r.c
	st := s.stream(id)
	zero := c.Const(0, 64)
	if st.failed {
		return zero, r.ioErr(s)
	}
	if r.decide(s, c.Eq(buf.Len, zero)) {
		return zero, nilErr
	}
	if st.short && !full {
		if r.decide(s, c.Ult(c.Const(1, 64), buf.Len)) && r.nondet(s, "rshort") {
			buf.Len = c.Const(1, 64)
		}
	}
	if st.mode == 'f' || st.mode == 'a' {
		if r.nondet(s, "rfail") {
			s.wstream(id).failed = true
			return zero, r.ioErr(s)
		}
	}
	st = s.wstream(id)
	whole := func(q Seq) bool {
		arr := r.sliceArr(s, buf)
		if arr.Sym == nil || len(buf.Path) != 0 || !(buf.Off.IsConst() && buf.Off.Val == 0) {
			return false
		}
		if arr.LenT != buf.Len && arr.LenT != c.Add(buf.Len, c.Const(1, 64)) {
			return false
		}
		spare := arr.LenT != buf.Len
		if !(q.Off.IsConst() && q.Off.Val == 0) {
			return false
		}
		arr.Sym = q.Arr
		if spare { // the spare capacity byte keeps its zero
			arr.Sym = c.Store(q.Arr, buf.Len, c.Const(0, 8))
		}
		s.setObj(buf.Obj, arr)
		return true
	}
	if st.mode == 'a' {
		q := Seq{Arr: r.fresh(s, "rbytes", smt.Arr(8)), Off: zero, Len: buf.Len}
		s.choices = append(s.choices, Choice{Label: "rbytes", Seq: &q})
		st.pos = c.Add(st.pos, c.Mul(buf.Len, c.Const(8, 64)))
		if whole(q) {
			return buf.Len, nilErr
		}
		n := r.concretise(s, buf.Len, 64, "read length")
		for k := uint64(0); k < n; k++ {
			r.storeElem(s, buf, k, c.Select(q.Arr, c.Const(k, 64)))
		}
		return buf.Len, nilErr
	}
	for {
		// drop empty sequences
		if len(st.chunks) > 0 && st.chunks[0].Kind == 'q' {
			q := st.chunks[0].Seq
			if q.Len == buf.Len || (!q.Len.IsConst() || !buf.Len.IsConst()) && r.sol.Check(s.pc, c.Not(c.Eq(q.Len, buf.Len))) == smt.Unsat {
				saved := *st
				st.chunks = st.chunks[1:]
				st.pos = c.Add(st.pos, c.Mul(q.Len, c.Const(8, 64)))
				if whole(q) {
					return buf.Len, nilErr
				}
				*st = saved
			}
			if len(buf.Path) == 0 && !(buf.Len.IsConst() && buf.Len.Val <= 64) {
				if r.decide(s, c.Eq(q.Len, zero)) {
					st.chunks = st.chunks[1:]
					continue
				}
				if d, ok := r.byteSeq(s, buf); ok && r.decide(s, c.Ule(buf.Len, q.Len)) {
					st = s.wstream(id)
					st.chunks[0] = Chunk{Kind: 'q', Seq: Seq{q.Arr, c.Add(q.Off, buf.Len), c.Sub(q.Len, buf.Len)}}
					st.pos = c.Add(st.pos, c.Mul(buf.Len, c.Const(8, 64)))
					arr := r.sliceArr(s, buf)
					s.setObj(buf.Obj, ArrayV{Sym: c.CopyArr(d.Arr, buf.Off, q.Arr, q.Off, buf.Len), LenT: r.arrLen(arr)})
					return buf.Len, nilErr
				}
			}
		}
		break
	}
	n := r.concretise(s, buf.Len, 64, "read length")
	for k := uint64(0); k < n; k++ {
		v, ok := r.takeBits(s, st, 8)
		if !ok {
			st.failed = true
			st.chunks = nil
			if full && k > 0 {
				return c.Const(k, 64), r.mkErr("io.ErrUnexpectedEOF", nil)
			}
			if k > 0 {
				return c.Const(k, 64), nilErr
			}
			return zero, r.eof(s)
		}
		r.storeElem(s, buf, k, v)
	}
	return c.Const(n, 64), nilErr
}

func (r *Run) storeElem(s *State, buf SliceV, k uint64, v *smt.Term) {
	p := PtrV{Obj: buf.Obj, Path: extend(buf.Path, PathElem{Field: -1, Idx: r.c.Add(buf.Off, r.c.Const(k, 64))})}
	r.frameCheck(s, p)
	r.store(s, p, v)
}

func (i *icall) ghost(role byte) Value {
	typ := "W"
	if role == 'r' {
		typ = "R"
	}
	_ = typ
	if iv, ok := i.args[0].(IfaceV); ok && iv.T != nil {
		if p, ok := iv.V.(PtrV); ok && p.Obj != 0 {
			if st := i.s.streams[p.Obj]; st != nil && st.role == role {
				return TupleV{p, i.r.c.T}
			}
		}
	}
	return TupleV{PtrV{}, i.r.c.F}
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// walk resolves the field path of Peek/Poke.
func (i *icall) walk() PtrV {
	iv, ok := i.args[0].(IfaceV)
	if !ok {
		limit("Peek needs a pointer")
	}
	p, ok := iv.V.(PtrV)
	if !ok {
		limit("Peek needs a pointer")
	}
	t := iv.T
	for _, step := range strings.Split(i.strArg(1), ".") {
		for {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				if t != iv.T || len(p.Path) > 0 {
					p = i.r.load(i.s, p).(PtrV)
				}
				t = u.Elem()
				continue
			case *types.Interface:
				v := i.r.load(i.s, p).(IfaceV)
				t = v.T
				q, ok := v.V.(PtrV)
				if !ok {
					limit("Peek through interface")
				}
				p = q
				t = v.T.Underlying().(*types.Pointer).Elem()
				continue
			}
			break
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			limit("Peek: %v is not a struct", t)
		}
		found := false
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == step || step[0] == '@' && typeName(st.Field(k).Type()) == step[1:] {
				p = PtrV{Obj: p.Obj, Path: extend(p.Path, PathElem{Field: k})}
				t = st.Field(k).Type()
				found = true
				break
			}
		}
		if !found {
			limit("Peek: no field %s in %v", step, t)
		}
	}
	return p
}
