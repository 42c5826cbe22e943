package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"gocv/smt"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

// Obligation is one verification condition, aggregated by name over paths.
type Obligation struct {
	Name       string
	Discharged int // VCs proved
	Refuted    int
	Undecided  int
	Syntactic  int // VCs closed by simplification alone
	Detail     string
	Cex        *Cex
}

// Cex is a counterexample: the ordered input choices.
type Cex struct {
	Harness    string      `json:"harness"`
	Obligation string      `json:"obligation"`
	Detail     string      `json:"detail"`
	Choices    []CexChoice `json:"choices"`
	Trace      []string    `json:"trace,omitempty"`
}
type CexChoice struct {
	Label string   `json:"label"`
	Vals  []uint64 `json:"vals,omitempty"`
	Bytes []byte   `json:"bytes,omitempty"`
	IsSeq bool     `json:"isseq,omitempty"`
}

// Run verifies one harness.
type Run struct {
	P         *Program
	Harness   *ssa.Function
	Name      string
	c         *smt.Ctx
	sol       *smt.Solver
	work      []*State
	infos     map[*ssa.Function]*fnInfo
	gids      map[*ssa.Global]ObjID
	gof       map[ObjID]*ssa.Global
	use       map[string]bool // enabled contract sets
	Obls      map[string]*Obligation
	Order     []string
	Paths     int // completed paths (normal return)
	Pruned    int
	Limits    map[string]int
	Bounded   map[string]int
	Entered   map[string]bool
	Contr     map[string]bool // contracts substituted at call sites
	Intr      map[string]bool // trusted intrinsics used
	MaxLoop   int
	CutLoops  bool // the contract is labelled bounded: cut at MaxLoop
	Cut       int
	MaxStep   int
	nsteps    int
	Deadline  time.Time
	timedOut  bool
	Stop      func() bool // asks the run to give up
	Stopped   bool
	errIDs    map[string]int
	initMax   ObjID
	alt       []*smt.Solver
	Params    map[string]int
	CoverHit  map[string]int
	snap      *State
	Verbose   bool
	lastModel map[int]uint64
	curInstr  ssa.Instruction
	Ensured   map[token.Pos]string
}

type forkSig struct{}
type panicSig struct{ msg string }
type endPath struct{ why string }

func NewRun(p *Program, h *ssa.Function, use map[string]bool, solver *smt.Solver) *Run {
	return &Run{P: p, Harness: h, Name: h.Name(), c: smt.NewCtx(), sol: solver,
		infos: map[*ssa.Function]*fnInfo{}, gids: map[*ssa.Global]ObjID{}, gof: map[ObjID]*ssa.Global{},
		use: use, Obls: map[string]*Obligation{}, Limits: map[string]int{}, Bounded: map[string]int{}, Entered: map[string]bool{},
		Contr: map[string]bool{}, Intr: map[string]bool{}, MaxLoop: 70, MaxStep: 4000000, errIDs: map[string]int{},
		Ensured: map[token.Pos]string{}, CoverHit: map[string]int{}, Params: map[string]int{}}
}

func (r *Run) info(fn *ssa.Function) *fnInfo {
	if i, ok := r.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	r.infos[fn] = i
	return i
}

func (r *Run) fresh(s *State, label string, sort smt.Sort) *smt.Term {
	s.next++ // shares the object counter: part of the state, restored on re-execution
	return r.c.Var(fmt.Sprintf("%s.%d.%d.%d", label, s.next, sort.W, sort.Elem), sort)
}

// sat asks the solver; unknown counts as satisfiable.
func (r *Run) sat(pc []*smt.Term, extra *smt.Term) smt.Result {
	if extra.IsFalse() {
		return smt.Unsat
	}
	for _, p := range pc {
		if p == extra {
			return smt.Sat
		}
		if r.c.Not(p) == extra {
			return smt.Unsat
		}
	}
	return r.sol.Check(pc, extra)
}

// decide returns the truth of cond on this path, forking if both are possible.
func (r *Run) decide(s *State, cond *smt.Term) bool {
	if cond.IsConst() {
		return cond.Val == 1
	}
	nc := r.c.Not(cond)
	for _, p := range s.pc {
		if p == cond {
			return true
		}
		if p == nc {
			return false
		}
	}
	a := r.sol.Check(s.pc, cond)
	if a == smt.Unsat {
		s.assume(nc)
		if r.snap != nil && r.snap != s {
			r.snap.assume(nc)
		}
		return false
	}
	b := r.sol.Check(s.pc, nc)
	if b == smt.Unsat {
		s.assume(cond)
		if r.snap != nil && r.snap != s {
			r.snap.assume(cond)
		}
		return true
	}
	base := s
	if r.snap != nil {
		base = r.snap
	}
	s2 := base.clone()
	s2.assume(nc)
	s1 := base.clone()
	s1.assume(cond)
	r.work = append(r.work, s2, s1)
	panic(forkSig{})
}

// concretise forks a term into its feasible constants (at most max).
func (r *Run) concretise(s *State, t *smt.Term, max int, what string) uint64 {
	for k := 0; ; k++ {
		if t.IsConst() {
			return t.Val
		}
		for _, p := range s.pc {
			if p.Op == smt.OEq && p.Args[0] == t && p.Args[1].IsConst() {
				return p.Args[1].Val
			}
			if p.Op == smt.OEq && p.Args[1] == t && p.Args[0].IsConst() {
				return p.Args[0].Val
			}
		}
		if k > max {
			limit("too many values for %s", what)
		}
		if res := r.sol.Check(s.pc); res != smt.Sat {
			if res == smt.Unsat {
				panic(endPath{"infeasible"})
			}
			limit("solver unknown while concretising %s", what)
		}
		v, ok := r.sol.Value(t)
		if !ok {
			limit("no model value for %s", what)
		}
		if r.decide(s, r.c.Eq(t, r.c.Const(v, t.Sort.W))) {
			return v
		}
	}
}

func (r *Run) goPanic(s *State, f string, a ...any) {
	panic(panicSig{fmt.Sprintf(f, a...)})
}

func (r *Run) obl(name string) *Obligation {
	o := r.Obls[name]
	if o == nil {
		o = &Obligation{Name: name}
		r.Obls[name] = o
		r.Order = append(r.Order, name)
	}
	return o
}

// check discharges one VC: pc => cond.
func (r *Run) check(s *State, name string, cond *smt.Term, detail string) {
	o := r.obl(name)
	if cond.IsTrue() {
		o.Discharged++
		o.Syntactic++
		return
	}
	for _, p := range s.pc {
		if p == cond {
			o.Discharged++
			o.Syntactic++
			return
		}
	}
	neg := r.c.Not(cond)
	res := r.sol.Check(s.pc, neg)
	if res == smt.Unknown {
		res = r.second(s.pc, neg)
	}
	switch res {
	case smt.Unsat:
		o.Discharged++
	case smt.Sat:
		if cx := r.model(s, neg, name, detail); cx != nil {
			o.Refuted++
			if o.Cex == nil {
				o.Cex = cx
				o.Detail = detail
			}
		} else {
			o.Undecided++
		}
	default:
		if os.Getenv("GOCV_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "UNKNOWN %s/%s: %s\n  pc: %v\n", r.Name, name, neg, s.pc)
		}
		o.Undecided++
		o.Detail = "solver: unknown/timeout"
	}
	if res != smt.Unsat {
		// continue under the assumption, if consistent
		if cond.IsFalse() || r.sol.Check(s.pc, cond) == smt.Unsat {
			panic(endPath{"after refutation"})
		}
		s.assume(cond)
	}
}

// model evaluates the choices of the path in a model of pc and extra,
// preferring small values for lengths.
func (r *Run) model(s *State, extra *smt.Term, name, detail string) *Cex {
	var all []*smt.Term
	var small []*smt.Term
	for _, ch := range s.choices {
		all = append(all, ch.Terms...)
		if ch.Seq != nil {
			small = append(small, r.c.Ule(ch.Seq.Len, r.c.Const(40, 64)))
			all = append(all, ch.Seq.Len)
			for i := 0; i < 40; i++ {
				all = append(all, r.c.Select(ch.Seq.Arr, r.c.Add(ch.Seq.Off, r.c.Const(uint64(i), 64))))
			}
		}
		if strings.HasPrefix(ch.Label, "pos") {
			for _, t := range ch.Terms {
				small = append(small, r.c.Ult(t, r.c.Const(4096, t.Sort.W)))
			}
		}
	}
	r.sol.Prepare(all)
	ok := false
	if len(small) > 0 {
		ok = r.sol.Check(s.pc, append([]*smt.Term{extra}, small...)...) == smt.Sat
	}
	if !ok && r.sol.Check(s.pc, extra) != smt.Sat {
		return nil
	}
	cx := &Cex{Harness: r.Name, Obligation: name, Detail: detail, Trace: append([]string(nil), s.trace...)}
	for _, ch := range s.choices {
		cc := CexChoice{Label: ch.Label}
		for _, t := range ch.Terms {
			v, ok := r.sol.Value(t)
			if !ok {
				v = 0
			}
			cc.Vals = append(cc.Vals, v)
		}
		if ch.Seq != nil {
			cc.IsSeq = true
			n, _ := r.sol.Value(ch.Seq.Len)
			if n > 1<<20 {
				n = 1 << 20
			}
			cc.Bytes = make([]byte, n)
			for i := range cc.Bytes {
				if i >= 40 {
					break
				}
				v, _ := r.sol.Value(r.c.Select(ch.Seq.Arr, r.c.Add(ch.Seq.Off, r.c.Const(uint64(i), 64))))
				cc.Bytes[i] = byte(v)
			}
		}
		cx.Choices = append(cx.Choices, cc)
	}
	return cx
}

// Do explores all paths of the harness.
func (r *Run) Do() {
	st := &State{heap: map[ObjID]*Obj{}, streams: map[ObjID]*Stream{}}
	if !r.initPackages(st) {
		return
	}
	st.initing = false
	st.steps = 0
	r.pushFrame(st, r.Harness, nil, nil)
	r.work = append(r.work[:0], st)
	r.loop(func(s *State) { r.Paths++ })
}

func (r *Run) stopNow() bool {
	if r.timedOut {
		return true
	}
	if r.Stop != nil && r.Stop() {
		r.Stopped = true
		return true
	}
	return !r.Deadline.IsZero() && time.Now().After(r.Deadline)
}

func (r *Run) loop(done func(*State)) {
	for len(r.work) > 0 {
		s := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		if r.stopNow() {
			r.timedOut = true
			r.Limits["time budget exceeded"]++
			r.work = nil
			return
		}
		if r.runPath(s) {
			done(s)
		}
	}
}

// runPath executes until the path ends (true: normal completion) or forks.
func (r *Run) runPath(s *State) (complete bool) {
	for {
		fin, again := r.guard(s)
		if !again {
			return fin
		}
	}
}

func (r *Run) guard(s *State) (complete, again bool) {
	defer func() {
		r.snap = nil
		x := recover()
		if x == nil {
			return
		}
		switch e := x.(type) {
		case forkSig:
		case endPath:
			r.Pruned++
		case Toolimit:
			w := e.Msg
			if len(s.frames) > 0 {
				w += " [in " + s.top().fn.String() + r.posOf() + "]"
			}
			r.Limits[w]++
			if os.Getenv("GOCV_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "LIMIT", w)
				for _, f := range s.frames {
					fmt.Fprintln(os.Stderr, "   ", f.fn)
				}
			}
		case panicSig:
			if r.unwind(s, e.msg) {
				again = true
				return
			}
		default:
			panic(x)
		}
	}()
	for {
		if len(s.frames) == 0 {
			return true, false
		}
		r.step(s)
	}
}

func (r *Run) posOf() string {
	if r.curInstr != nil {
		p := r.P.Prog.Fset.Position(r.curInstr.Pos())
		if p.IsValid() {
			return fmt.Sprintf(" %s:%d", p.Filename, p.Line)
		}
	}
	return ""
}

// unwind handles a Go panic: true if a catch frame resumes.
func (r *Run) unwind(s *State, msg string) (resumed bool) {
	loc := ""
	if len(s.frames) > 0 {
		loc = s.top().fn.String() + r.posOf()
	}
	for len(s.frames) > 0 {
		f := s.top()
		if len(f.defers) > 0 {
			r.Limits["panic with pending defers"]++
			return false
		}
		s.frames = s.frames[:len(s.frames)-1]
		if f.catch {
			s.trace = append(s.trace, "caught panic: "+msg+" in "+loc)
			caller := s.top()
			if v := f.call.Value(); v != nil {
				caller.env[caller.info.idx[v]] = r.c.F
			}
			caller.pc++
			return true
		}
	}
	// An escaping panic is a violated implicit obligation, if feasible.
	name := "no-panic"
	o := r.obl(name)
	det := msg + " in " + loc
	if cx := r.model(s, r.c.T, name, det); cx != nil {
		o.Refuted++
		if o.Cex == nil {
			o.Cex = cx
			o.Detail = det
		}
	} else if r.sol.Check(s.pc) != smt.Unsat {
		o.Undecided++
		o.Detail = det
	}
	return false
}

func (r *Run) pushFrame(s *State, fn *ssa.Function, args []Value, call ssa.CallInstruction) *Frame {
	if fn.Blocks == nil {
		limit("no body: %s", fn)
	}
	if len(s.frames) > 200 {
		limit("call depth")
	}
	inf := r.info(fn)
	f := &Frame{fn: fn, info: inf, env: make([]Value, inf.n), block: fn.Blocks[0], call: call}
	for i := range fn.Params {
		f.env[i] = args[i]
	}
	s.frames = append(s.frames, f)
	if !s.initing {
		r.Entered[fn.String()] = true
	}
	return f
}

func (r *Run) get(s *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constVal(x)
	case *ssa.Global:
		return PtrV{Obj: r.globalObj(s, x)}
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Blt: x}
	}
	f := s.top()
	i, ok := f.info.idx[v]
	if !ok {
		limit("value %v not in frame", v)
	}
	r2 := f.env[i]
	if r2 == nil {
		limit("undefined value %s in %s", v.Name(), f.fn)
	}
	return r2
}

func (r *Run) term(s *State, v ssa.Value) *smt.Term {
	x := r.get(s, v)
	t, ok := x.(*smt.Term)
	if !ok {
		limit("expected scalar, got %T for %v", x, v)
	}
	return t
}

func (r *Run) globalObj(s *State, g *ssa.Global) ObjID {
	id, ok := r.gids[g]
	if !ok {
		id = ObjID(-1 - len(r.gids))
		r.gids[g] = id
		r.gof[id] = g
	}
	if _, ok := s.heap[id]; !ok {
		s.own()
		t := g.Type().(*types.Pointer).Elem()
		var v Value
		if !r.P.inited(g.Pkg) && types.IsInterface(t) && t.String() == "error" {
			// a sentinel error of a package whose initialiser is not executed
			v = r.mkErr(g.String(), nil)
		} else if !r.P.inited(g.Pkg) && !s.initing && !strings.HasSuffix(g.Name(), "init$guard") && !zeroOK(g) {
			limit("global %s of uninitialised package", g)
		} else {
			v = r.zero(t)
		}
		s.heap[id] = &Obj{T: t, V: v}
	}
	return id
}

// zeroOK: the global still has its zero value after package initialisation.
func zeroOK(g *ssa.Global) bool {
	switch g.String() {
	case "encoding/binary.BigEndian", "encoding/binary.LittleEndian", "encoding/binary.NativeEndian":
		return true
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/woven-planet/go-zserio/") {
		return false
	}
	// nothing the initialiser of the package reaches within the package mentions it
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for n, m := range g.Pkg.Members {
		if f, ok := m.(*ssa.Function); ok && (n == "init" || strings.HasPrefix(n, "init#")) {
			work = append(work, f)
		}
	}
	var ops []*ssa.Value
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		work = append(work, f.AnonFuncs...)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch x := (*o).(type) {
					case *ssa.Global:
						if x == g {
							return false
						}
					case *ssa.Function:
						if x.Pkg == g.Pkg && x.Name() != "init" {
							work = append(work, x)
						}
					}
				}
			}
		}
	}
	return true
}

func (r *Run) mkErr(name string, wrap []Value) Value {
	id, ok := r.errIDs[name]
	if !ok {
		id = len(r.errIDs) + 1
		r.errIDs[name] = id
	}
	return IfaceV{T: r.P.errType, V: ErrV{ID: id, Name: name, Wrap: wrap}}
}

func (r *Run) set(s *State, in ssa.Value, v Value) {
	f := s.top()
	f.env[f.info.idx[in]] = v
}

func (r *Run) jump(s *State, to *ssa.BasicBlock) {
	f := s.top()
	f.prev = f.block
	f.block = to
	f.pc = 0
	// phis
	var vals []Value
	pi := -1
	for i, p := range to.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, r.get(s, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[f.info.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.pc = n
}

func (r *Run) step(s *State) {
	f := s.top()
	in := f.block.Instrs[f.pc]
	r.curInstr = in
	s.steps++
	r.nsteps++
	if s.steps > r.MaxStep {
		limit("step budget")
	}
	if r.nsteps&1023 == 0 && r.stopNow() {
		r.timedOut = true
		limit("time budget exceeded")
	}
	r.snap = s
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.If:
		cond := r.term(s, x.Cond)
		if !cond.IsConst() {
			if j := r.ifConvert(s, f, cond); j {
				return
			}
			if f.visits == nil {
				f.visits = map[int]int{}
			}
			if f.visits[f.block.Index] > r.MaxLoop {
				if r.CutLoops {
					// a bounded contract: longer executions are not followed
					r.Cut++
					panic(endPath{})
				}
				limit("unwinding bound %d", r.MaxLoop)
			}
		}
		b := r.decide(s, cond)
		if !cond.IsConst() {
			f.visits[f.block.Index]++
		}
		if b {
			r.jump(s, f.block.Succs[0])
		} else {
			r.jump(s, f.block.Succs[1])
		}
		return
	case *ssa.Jump:
		r.jump(s, f.block.Succs[0])
		return
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
			res = TupleV{}
		case 1:
			res = r.get(s, x.Results[0])
		default:
			tv := make(TupleV, len(x.Results))
			for i, v := range x.Results {
				tv[i] = r.get(s, v)
			}
			res = tv
		}
		r.doReturn(s, res)
		return
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			r.callDeferred(s, d)
			return
		}
	case *ssa.Panic:
		v := r.get(s, x.X)
		r.goPanic(s, "panic(%s)", r.show(v))
	case *ssa.Defer:
		d := deferred{call: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, r.get(s, a))
		}
		d.fn = r.get(s, x.Call.Value)
		f.defers = append(f.defers, d)
	case *ssa.Store:
		p, ok := r.get(s, x.Addr).(PtrV)
		if !ok {
			limit("store to %T", r.get(s, x.Addr))
		}
		if p.Obj == 0 {
			r.goPanic(s, "nil pointer dereference")
		}
		r.frameCheck(s, p)
		r.store(s, p, r.get(s, x.Val))
	case *ssa.MapUpdate:
		r.mapUpdate(s, x)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		limit("concurrency: %T", in)
	case ssa.Value:
		if c, ok := x.(*ssa.Call); ok {
			if r.doCall(s, c) {
				return // frame pushed or path handled
			}
			f.pc++
			return
		}
		r.set(s, x, r.eval(s, x))
	default:
		limit("instruction %T", in)
	}
	f.pc++
}

// frameCheck records writes to package-level objects (frame condition).
func (r *Run) frameCheck(s *State, p PtrV) {
	if s.initing {
		return
	}
	if g, ok := r.gof[p.Obj]; ok && r.P.owned(g.Pkg) {
		s.globalW = append(s.globalW, g.String()+r.posOf())
	} else if p.Obj > 0 && p.Obj <= r.initMax {
		// object allocated by a package initialiser: reachable from globals
		s.globalW = append(s.globalW, "object of package state"+r.posOf())
	}
}

func (r *Run) doReturn(s *State, res Value) {
	f := s.top()
	if len(f.defers) > 0 {
		limit("return with pending defers")
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.after != nil {
		res = f.after(s, res)
	}
	if f.catch {
		res = r.c.T
	}
	if len(s.frames) == 0 {
		return
	}
	c := s.top()
	if f.call != nil {
		if v := f.call.Value(); v != nil {
			c.env[c.info.idx[v]] = res
		}
		c.pc++
	}
}

func (r *Run) callDeferred(s *State, d deferred) {
	if d.call.Call.IsInvoke() {
		limit("deferred invoke")
	}
	fv, ok := d.fn.(FuncV)
	if !ok || fv.Fn == nil {
		if ok && fv.Blt != nil {
			limit("deferred builtin %s", fv.Blt.Name())
		}
		r.goPanic(s, "nil func deferred")
	}
	if fv.Fn.Name() == "recover" {
		limit("deferred recover")
	}
	nf := r.pushFrame(s, fv.Fn, d.args, nil)
	for i := range fv.Fn.FreeVars {
		nf.env[len(fv.Fn.Params)+i] = fv.Bind[i]
	}
}

// ifConvert merges a diamond or triangle of pure instructions into ite phis.
func (r *Run) ifConvert(s *State, f *Frame, cond *smt.Term) bool {
	b := f.block
	t, e := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	side := func(x *ssa.BasicBlock) bool { // pure side block
		return len(x.Preds) == 1 && len(x.Succs) == 1
	}
	switch {
	case side(t) && side(e) && t.Succs[0] == e.Succs[0]:
		join = t.Succs[0]
	case side(t) && t.Succs[0] == e:
		join = e
		e = nil
	case side(e) && e.Succs[0] == t:
		join = t
		t = nil
	default:
		return false
	}
	// the join must only have phis mixing scalars
	if join == b {
		return false
	}
	run := func(x *ssa.BasicBlock) (map[ssa.Value]Value, bool) {
		loc := map[ssa.Value]Value{}
		if x == nil {
			return loc, true
		}
		get := func(v ssa.Value) Value {
			if y, ok := loc[v]; ok {
				return y
			}
			return r.get(s, v)
		}
		for _, in := range x.Instrs[:len(x.Instrs)-1] {
			switch y := in.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				switch y.Op {
				case token.QUO, token.REM:
					return nil, false
				case token.SHL, token.SHR:
					if _, isc := y.Y.(*ssa.Const); !isc {
						return nil, false
					}
				}
				a, ok1 := get(y.X).(*smt.Term)
				c, ok2 := get(y.Y).(*smt.Term)
				if !ok1 || !ok2 {
					return nil, false
				}
				loc[y] = r.binop(s, y.Op, a, c, y.X.Type(), y.Y.Type(), y.Type())
			case *ssa.Convert:
				a, ok := get(y.X).(*smt.Term)
				if !ok {
					return nil, false
				}
				_, s1, ok1 := bvWidth(y.X.Type())
				w2, _, ok2 := bvWidth(y.Type())
				if !ok1 || !ok2 {
					return nil, false
				}
				loc[y] = r.c.Resize(a, w2, s1)
			case *ssa.UnOp:
				if y.Op != token.SUB && y.Op != token.XOR && y.Op != token.NOT {
					return nil, false
				}
				a, ok := get(y.X).(*smt.Term)
				if !ok {
					return nil, false
				}
				if _, isf := isFloat(y.X.Type()); isf {
					return nil, false
				}
				switch y.Op {
				case token.SUB:
					loc[y] = r.c.Neg(a)
				case token.XOR:
					loc[y] = r.c.BvNot(a)
				default:
					loc[y] = r.c.Not(a)
				}
			default:
				return nil, false
			}
		}
		return loc, true
	}
	lt, ok := run(t)
	if !ok {
		return false
	}
	le, ok := run(e)
	if !ok {
		return false
	}
	pt, pe := t, e
	if pt == nil {
		pt = b
	}
	if pe == nil {
		pe = b
	}
	it, ie := -1, -1
	for i, p := range join.Preds {
		if p == pt && it < 0 {
			it = i
		}
		if p == pe && (ie < 0) && (pe != pt || i != it) {
			ie = i
		}
	}
	if it < 0 || ie < 0 {
		return false
	}
	type asg struct {
		p *ssa.Phi
		v Value
	}
	var out []asg
	for _, in := range join.Instrs {
		ph, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		g := func(loc map[ssa.Value]Value, v ssa.Value) (x Value) {
			if y, ok := loc[v]; ok {
				return y
			}
			return r.get(s, v)
		}
		a, c := g(lt, ph.Edges[it]), g(le, ph.Edges[ie])
		ta, ok1 := a.(*smt.Term)
		tc, ok2 := c.(*smt.Term)
		if !ok1 || !ok2 {
			if sameValue(a, c) {
				out = append(out, asg{ph, a})
				continue
			}
			return false
		}
		out = append(out, asg{ph, r.c.Ite(cond, ta, tc)})
	}
	if len(out) == 0 {
		// nothing to merge: pure side blocks without effect; still fine
		if len(lt) > 0 || len(le) > 0 {
			return false
		}
	}
	f.prev = pt
	f.block = join
	f.pc = len(out)
	for _, o := range out {
		f.env[f.info.idx[o.p]] = o.v
	}
	return true
}

func sameValue(a, b Value) bool {
	defer func() { recover() }()
	switch x := a.(type) {
	case *smt.Term:
		y, ok := b.(*smt.Term)
		return ok && x == y
	case PtrV:
		y, ok := b.(PtrV)
		return ok && samePtr(x, y)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return sameValue(x.V, y.V)
	case ErrV:
		y, ok := b.(ErrV)
		return ok && x.ID == y.ID && len(x.Wrap) == len(y.Wrap)
	case StrV:
		y, ok := b.(StrV)
		return ok && x == y
	}
	return false
}

func samePtr(x, y PtrV) bool {
	if x.Obj != y.Obj || len(x.Path) != len(y.Path) {
		return false
	}
	for i := range x.Path {
		if x.Path[i] != y.Path[i] {
			return false
		}
	}
	return true
}

func (r *Run) show(v Value) string {
	switch x := v.(type) {
	case *smt.Term:
		if x.IsConst() {
			return fmt.Sprint(x.Val)
		}
		return "sym"
	case StrV:
		if x.Con {
			return fmt.Sprintf("%q", x.S)
		}
		return "str"
	case IfaceV:
		if x.T == nil {
			return "nil"
		}
		return r.show(x.V)
	case ErrV:
		return x.Name
	}
	return fmt.Sprintf("%T", v)
}

// Names returns the obligation names in first-seen order.
func (r *Run) Names() []string {
	n := append([]string(nil), r.Order...)
	sort.Strings(n)
	return n
}

// CloseSolvers ends helper solver processes.
func (r *Run) CloseSolvers() {
	for _, s := range r.alt {
		s.Close()
	}
}

// second tries the other back ends on a query the main one left open.
func (r *Run) second(pc []*smt.Term, extra ...*smt.Term) smt.Result {
	if r.alt == nil {
		for _, k := range []string{"cvc5", "z3-new", "z3"} {
			if k != r.sol.Name {
				r.alt = append(r.alt, smt.NewSolver(k, r.sol.Timeout))
			}
		}
	}
	for _, s := range r.alt {
		if r.stopNow() {
			break
		}
		if res := s.Check(pc, extra...); res != smt.Unknown {
			return res
		}
	}
	return smt.Unknown
}
