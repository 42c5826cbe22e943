package sym

import (
	"go/types"

	"gocv/smt"

	"golang.org/x/tools/go/ssa"
)

type Obj struct {
	T   types.Type
	V   Value
	Sym string // debugging label
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	call   ssa.CallInstruction // in the caller: where the result goes
	defers []deferred
	visits map[int]int // symbolic-branch visits per block (loop bound)
	// catch: this frame is the body of cv.NoPanic/cv.Try
	catch bool
	// after is run (once) when the frame returns normally; it may replace the
	// result.
	after func(st *State, res Value) Value
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.Defer
}

// Choice is one universally quantified input or nondeterministic event, in
// execution order; its terms are evaluated in the counterexample model.
type Choice struct {
	Label string
	Terms []*smt.Term
	Seq   *Seq
}

type State struct {
	heap    map[ObjID]*Obj
	shared  bool // heap map shared with another state
	next    ObjID
	frames  []*Frame
	pc      []*smt.Term
	streams map[ObjID]*Stream
	shStr   bool
	choices []Choice
	globals map[*ssa.Global]ObjID
	steps   int
	trace   []string
	opts    map[string]int
	covered []string
	globalW []string // writes to package-level state (frame condition)
	initing bool
	pending *pendingPanic
}

type pendingPanic struct{ msg string }

func (s *State) clone() *State {
	n := *s
	s.shared, n.shared = true, true
	s.shStr, n.shStr = true, true
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = append([]Value(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		if f.visits != nil {
			g.visits = make(map[int]int, len(f.visits))
			for k, v := range f.visits {
				g.visits[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.pc = append(make([]*smt.Term, 0, len(s.pc)+8), s.pc...)
	n.choices = append([]Choice(nil), s.choices...)
	n.trace = append([]string(nil), s.trace...)
	n.covered = append([]string(nil), s.covered...)
	n.globalW = append([]string(nil), s.globalW...)
	if s.opts != nil {
		n.opts = map[string]int{}
		for k, v := range s.opts {
			n.opts[k] = v
		}
	}
	return &n
}

func (s *State) own() {
	if s.shared {
		h := make(map[ObjID]*Obj, len(s.heap)+8)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap = h
		s.shared = false
	}
}

func (s *State) alloc(t types.Type, v Value) ObjID {
	s.own()
	s.next++
	s.heap[s.next] = &Obj{T: t, V: v}
	return s.next
}

func (s *State) setObj(id ObjID, v Value) {
	s.own()
	o := *s.heap[id]
	o.V = v
	s.heap[id] = &o
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *smt.Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == smt.OAnd {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

func (s *State) stream(id ObjID) *Stream {
	st := s.streams[id]
	if st == nil {
		limit("not a stream object")
	}
	return st
}

// wstream returns a private copy for modification.
func (s *State) wstream(id ObjID) *Stream {
	if s.shStr {
		m := make(map[ObjID]*Stream, len(s.streams)+1)
		for k, v := range s.streams {
			m[k] = v
		}
		s.streams = m
		s.shStr = false
	}
	st := s.streams[id]
	if st == nil {
		st = &Stream{}
	}
	n := *st
	n.chunks = append([]Chunk(nil), st.chunks...)
	s.streams[id] = &n
	return &n
}

// load reads the value at a location.
func (r *Run) load(s *State, p PtrV) Value {
	o := s.heap[p.Obj]
	if o == nil {
		limit("dangling pointer")
	}
	return r.getPath(o.V, p.Path)
}

func (r *Run) getPath(v Value, path []PathElem) Value {
	for _, e := range path {
		switch x := v.(type) {
		case StructV:
			v = x.F[e.Field]
		case ArrayV:
			v = r.arrayGet(x, e.Idx)
		default:
			limit("path through %T", v)
		}
	}
	return v
}

func (r *Run) arrayGet(a ArrayV, i *smt.Term) Value {
	if a.Sym != nil {
		return r.c.Select(a.Sym, i)
	}
	if i.IsConst() {
		if i.Val < uint64(len(a.E)) {
			return a.E[i.Val]
		}
		if a.LenT != nil {
			return a.Zero
		}
		limit("array index %d out of %d", i.Val, len(a.E))
	}
	// symbolic index: ite chain over scalars
	if a.LenT == nil && len(a.E) > 0 && len(a.E) <= 256 {
		if _, ok := a.E[0].(*smt.Term); ok {
			acc := a.E[len(a.E)-1].(*smt.Term)
			for k := len(a.E) - 2; k >= 0; k-- {
				acc = r.c.Ite(r.c.Eq(i, r.c.Const(uint64(k), 64)), a.E[k].(*smt.Term), acc)
			}
			return acc
		}
	}
	limit("symbolic index into aggregate array")
	return nil
}

func (r *Run) setPath(v Value, path []PathElem, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch x := v.(type) {
	case StructV:
		f := append([]Value(nil), x.F...)
		f[e.Field] = r.setPath(f[e.Field], path[1:], nv)
		return StructV{F: f}
	case ArrayV:
		if x.Sym != nil {
			if len(path) > 1 {
				limit("nested store in symbolic array")
			}
			x.Sym = r.c.Store(x.Sym, e.Idx, nv.(*smt.Term))
			return x
		}
		if !e.Idx.IsConst() {
			if x.LenT == nil && len(path) == 1 {
				if nt, ok := nv.(*smt.Term); ok && len(x.E) <= 256 {
					es := make([]Value, len(x.E))
					for k := range es {
						es[k] = r.c.Ite(r.c.Eq(e.Idx, r.c.Const(uint64(k), 64)), nt, x.E[k].(*smt.Term))
					}
					x.E = es
					return x
				}
			}
			limit("store at symbolic index")
		}
		i := int(e.Idx.Val)
		es := append([]Value(nil), x.E...)
		if x.LenT != nil {
			if i > 1<<16 {
				limit("large lazy array index %d", i)
			}
			for len(es) <= i {
				es = append(es, x.Zero)
			}
		}
		if i >= len(es) {
			limit("store index %d out of %d", i, len(es))
		}
		es[i] = r.setPath(es[i], path[1:], nv)
		x.E = es
		return x
	}
	limit("store path through %T", v)
	return nil
}

func (r *Run) store(s *State, p PtrV, v Value) {
	o := s.heap[p.Obj]
	if o == nil {
		limit("dangling pointer store")
	}
	s.setObj(p.Obj, r.setPath(o.V, p.Path, v))
}

func extend(p []PathElem, e PathElem) []PathElem {
	n := make([]PathElem, len(p)+1)
	copy(n, p)
	n[len(p)] = e
	return n
}
