package sym

import (
	"math"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"gocv/smt"

	"golang.org/x/tools/go/ssa"
)

// hostFns are pure functions of the standard library that are executed
// natively when all their arguments are concrete. With symbolic arguments
// their source is interpreted like any other code.
var hostFns = map[string]reflect.Value{}

func init() {
	for n, f := range map[string]any{
		"strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
		"strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseBool": strconv.ParseBool,
		"strconv.Unquote": strconv.Unquote, "strconv.Quote": strconv.Quote, "strconv.Atoi": strconv.Atoi,
		"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
		"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
		"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
		"strings.Title": strings.Title, "strings.TrimRight": strings.TrimRight, "strings.TrimLeft": strings.TrimLeft,
		"strings.Trim": strings.Trim, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
		"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
		"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte,
		"strings.LastIndexByte": strings.LastIndexByte,
		"strings.IndexAny": strings.IndexAny, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
		"strings.Split": strings.Split, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat, "strings.Fields": strings.Fields,
		"strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count,
		"path.Join": path.Join, "path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean,
		"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
		"path/filepath.Clean": filepath.Clean, "path/filepath.Ext": filepath.Ext,
	} {
		hostFns[n] = reflect.ValueOf(f)
		TrustedDoc[n] = "the standard library's function (executed natively on concrete arguments)"
	}
}

func (r *Run) hostCall(s *State, fn *ssa.Function, name string, args []Value, call *ssa.Call) (Value, bool) {
	f, ok := hostFns[name]
	if !ok {
		return nil, false
	}
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	for k, a := range args {
		v, ok := r.toHost(s, a, ft.In(k))
		if !ok {
			return nil, false
		}
		in[k] = v
	}
	var out []reflect.Value
	if ft.IsVariadic() {
		out = f.CallSlice(in)
	} else {
		out = f.Call(in)
	}
	var res TupleV
	for _, o := range out {
		v, ok := r.fromHost(s, o, name)
		if !ok {
			return nil, false
		}
		res = append(res, v)
	}
	if len(res) == 1 {
		return res[0], true
	}
	return res, true
}

func (r *Run) toHost(s *State, a Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		x, ok := a.(StrV)
		if !ok || !x.Con {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.S), true
	case reflect.Slice:
		if t.Elem().Kind() != reflect.String {
			return reflect.Value{}, false
		}
		sl, ok := a.(SliceV)
		if !ok {
			return reflect.Value{}, false
		}
		if sl.Obj == 0 {
			return reflect.Zero(t), true
		}
		vals, ok := r.concreteElems(s, sl)
		if !ok {
			return reflect.Value{}, false
		}
		var out []string
		for _, v := range vals {
			x, ok := v.(StrV)
			if !ok || !x.Con {
				return reflect.Value{}, false
			}
			out = append(out, x.S)
		}
		return reflect.ValueOf(out), true
	}
	x, ok := a.(*smt.Term)
	if !ok || !x.IsConst() {
		return reflect.Value{}, false
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(x.Val == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(smt.SignExt(x.Val, x.Sort.W))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(x.Val)
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(x.Val))
	default:
		return reflect.Value{}, false
	}
	return v, true
}

func (r *Run) fromHost(s *State, v reflect.Value, name string) (Value, bool) {
	switch v.Kind() {
	case reflect.String:
		return r.str(v.String()), true
	case reflect.Bool:
		return r.c.Bool(v.Bool()), true
	case reflect.Int, reflect.Int64:
		return r.c.Const(uint64(v.Int()), 64), true
	case reflect.Uint64:
		return r.c.Const(v.Uint(), 64), true
	case reflect.Float64:
		return r.fconst(v.Float(), 64), true
	case reflect.Interface: // error
		if v.IsNil() {
			return IfaceV{}, true
		}
		s.next++
		return r.mkErr(name+"#"+strconv.Itoa(int(s.next)), nil), true
	case reflect.Slice:
		var es []Value
		for k := 0; k < v.Len(); k++ {
			es = append(es, r.str(v.Index(k).String()))
		}
		return r.newSlice(s, es), true
	}
	return nil, false
}

func (r *Run) concreteElems(s *State, sl SliceV) ([]Value, bool) {
	if !sl.Len.IsConst() || !sl.Off.IsConst() || sl.Len.Val > 1000 {
		return nil, false
	}
	arr := r.sliceArr(s, sl)
	if arr.Sym != nil {
		return nil, false
	}
	var out []Value
	for j := uint64(0); j < sl.Len.Val; j++ {
		out = append(out, r.arrayGet(arr, r.c.Const(sl.Off.Val+j, 64)))
	}
	return out, true
}

func (r *Run) newSlice(s *State, es []Value) SliceV {
	n := r.c.Const(uint64(len(es)), 64)
	return SliceV{Obj: s.alloc(nil, ArrayV{E: es}), Off: r.c.Const(0, 64), Len: n, Cap: n}
}
