package sym

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"

	"gocv/smt"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *smt.Term (bool, integers, floats as bit patterns), StrV,
// SliceV, PtrV, StructV, ArrayV, IfaceV, FuncV, MapV, TupleV, IterV, ErrV.
type Value interface{}

// StrV is a string: concrete, or a symbolic byte sequence.
type StrV struct {
	Con bool
	S   string
	Seq Seq
	Opq string // opaque (e.g. formatted error text): identity only
}

// Seq is a functional byte sequence arr[off..off+len).
type Seq struct {
	Arr, Off, Len *smt.Term
}

type ObjID int

type PathElem struct {
	Field int       // struct field index, or -1
	Idx   *smt.Term // array index
}

// PtrV points to a location inside a heap object.
type PtrV struct {
	Obj  ObjID // 0 = nil
	Path []PathElem
}

type SliceV struct {
	Obj           ObjID // 0 = nil slice
	Path          []PathElem
	Off, Len, Cap *smt.Term
}

type StructV struct{ F []Value }

// ArrayV is an array or slice backing store. If Sym is set, the elements are
// scalars of width Sym.Sort.Elem and E is unused. If Zero is set, elements
// beyond len(E) up to LenT are Zero (lazily materialised).
type ArrayV struct {
	E    []Value
	Sym  *smt.Term
	LenT *smt.Term
	Zero Value
}

type IfaceV struct {
	T types.Type // nil: nil interface
	V Value
}

type FuncV struct {
	Fn   *ssa.Function // nil: nil func
	Bind []Value
	Blt  *ssa.Builtin
}

type MapV struct{ Obj ObjID }

// MapObj is the content of a map object.
type MapObj struct {
	Keys, Vals []Value
}

type TupleV []Value

type IterV struct {
	M   MapV
	S   StrV
	Pos int
	Str bool
}

// ErrV is the payload of an opaque error value.
type ErrV struct {
	ID   int
	Name string
	Wrap []Value
}

type opaqueT struct{ types.Type }

// Toolimit aborts a path: the verifier cannot decide this code.
type Toolimit struct{ Msg string }

func limit(f string, a ...any) {
	panic(Toolimit{fmt.Sprintf(f, a...)})
}

func bvWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.UntypedRune:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Zero value of a type.
func (r *Run) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return r.c.F
		}
		if u.Info()&types.IsString != 0 {
			return StrV{Con: true}
		}
		if w, _, ok := bvWidth(t); ok {
			return r.c.Const(0, w)
		}
		if w, ok := isFloat(t); ok {
			return r.c.Const(0, w)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return PtrV{}
		}
		limit("zero of %v", t)
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		z := r.c.Const(0, 64)
		return SliceV{Off: z, Len: z, Cap: z}
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Chan:
		return PtrV{}
	case *types.Struct:
		s := StructV{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = r.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 4096 {
			return ArrayV{LenT: r.c.Const(uint64(n), 64), Zero: r.zero(u.Elem())}
		}
		a := ArrayV{E: make([]Value, n)}
		z := r.zero(u.Elem())
		for i := range a.E {
			a.E[i] = z
		}
		return a
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = r.zero(u.At(i).Type())
		}
		return tv
	}
	limit("zero of %v", t)
	return nil
}

func (r *Run) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return r.zero(t)
	}
	if w, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(k.Value))
			return r.c.Const(uint64(math.Float32bits(f32)), 32)
		}
		return r.c.Const(math.Float64bits(f), 64)
	}
	if w, _, ok := bvWidth(t); ok {
		v := constant.ToInt(k.Value)
		if i, exact := constant.Int64Val(v); exact {
			return r.c.Const(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return r.c.Const(u, w)
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return r.c.Bool(constant.BoolVal(k.Value))
	case constant.String:
		return StrV{Con: true, S: constant.StringVal(k.Value)}
	}
	limit("constant %v", k)
	return nil
}

func (r *Run) str(s string) StrV { return StrV{Con: true, S: s} }

func (r *Run) strLen(s StrV) *smt.Term {
	if s.Con {
		return r.c.Const(uint64(len(s.S)), 64)
	}
	if s.Opq != "" {
		limit("length of opaque string")
	}
	return s.Seq.Len
}

func (r *Run) strAt(s StrV, i *smt.Term) *smt.Term {
	if s.Con {
		if i.IsConst() {
			return r.c.Const(uint64(s.S[i.Val]), 8)
		}
		limit("symbolic index into concrete string")
	}
	if s.Opq != "" {
		limit("index of opaque string")
	}
	return r.c.Select(s.Seq.Arr, r.c.Add(s.Seq.Off, i))
}

// seqOf turns a string into a sequence.
func (r *Run) concreteSeq(b []byte) Value {
	a := ArrayV{E: make([]Value, len(b))}
	for i, x := range b {
		a.E[i] = r.c.Const(uint64(x), 8)
	}
	return a
}

func vkind(v Value) string { return fmt.Sprintf("%T", v) }
