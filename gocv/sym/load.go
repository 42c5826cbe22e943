package sym

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	ModPath = "github.com/woven-planet/go-zserio"
	VPath   = ModPath + "/internal/zzv"
	CvPath  = VPath + "/cv"
)

// ParamDim is a parameter of a harness and the values it takes.
type ParamDim struct {
	Name string
	Vals []int
}

// HarnessSpec is a contract obligation function of the specification.
type HarnessSpec struct {
	Name     string
	Pkg      string // import path
	Props    []string
	Use      []string
	Bounded  string
	Thorough bool
	Loop     int
	Weight   int
	Provides string
	Time     int // seconds
	Whitebox string // black-box companion of a contract on private fields
	Params   []ParamDim
	Deep     []ParamDim
	Fn       *ssa.Function
	Doc      string
}

type contract struct {
	set  string
	fn   *ssa.Function
	name string
}

// Program is the loaded code under verification with its contracts.
type Program struct {
	Prog        *ssa.Program
	Pkgs        []*ssa.Package
	Harnesses   []*HarnessSpec
	contracts   map[string][]contract
	ContractDoc map[string]string
	errType     types.Type
	cvPkg       *ssa.Package
	initOrder   []*ssa.Package
	noInit      map[string]bool
}

// Env for the go command that lists and builds the code under verification.
func GoEnv(goroot string) []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOSUMDB":
			continue
		}
		out = append(out, e)
	}
	return append(out, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOROOT="+goroot, "GOTOOLCHAIN=local",
		"GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
}

// Overlay maps /repo paths to files elsewhere.
type Overlay struct {
	Replace map[string]string
}

func (o *Overlay) Add(repoPath, file string) { o.Replace[repoPath] = file }

func (o *Overlay) Remove(repoPath string) { delete(o.Replace, repoPath) }

func (o *Overlay) AddDir(repoDir, dir string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && fi.Name() == "_in" && p != dir {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		o.Replace[filepath.Join(repoDir, rel)] = p
		return nil
	})
}

func (o *Overlay) Write(file string) error {
	b, _ := json.MarshalIndent(o, "", " ")
	return os.WriteFile(file, b, 0o644)
}

// Load loads the contract packages and everything they depend on.
func Load(repo, goroot string, ov *Overlay, modfile string, patterns ...string) (*Program, error) {
	over := map[string][]byte{}
	for k, v := range ov.Replace {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		over[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: GoEnv(goroot), Overlay: over}
	if modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + modfile}
	}
	os.Setenv("PATH", goroot+"/bin:"+os.Getenv("PATH"))
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Prog: prog, contracts: map[string][]contract{}, ContractDoc: map[string]string{}, noInit: map[string]bool{}}
	seen := map[*packages.Package]bool{}
	var order func(p *packages.Package)
	order = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var imps []string
		for k := range p.Imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		for _, k := range imps {
			order(p.Imports[k])
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		if P.initedPath(p.PkgPath) {
			P.initOrder = append(P.initOrder, sp)
		}
		if strings.HasPrefix(p.PkgPath, VPath) {
			P.scan(p, sp)
		}
	}
	for _, p := range pkgs {
		order(p)
	}
	if ep := prog.ImportedPackage("errors"); ep != nil {
		P.errType = types.NewPointer(ep.Type("errorString").Type())
	}
	P.cvPkg = prog.ImportedPackage(CvPath)
	if P.errType == nil || P.cvPkg == nil {
		return nil, fmt.Errorf("load: errors or cv package missing")
	}
	return P, nil
}

func (p *Program) initedPath(path string) bool {
	if !strings.HasPrefix(path, ModPath) {
		switch path {
		case "github.com/icza/bitio", "github.com/x448/float16":
			return true
		}
		return false
	}
	switch strings.TrimPrefix(path, ModPath) {
	case "/internal/parser", "/internal/cli", "/internal/visitor", "/internal/generator", "/internal/model":
		return false
	}
	return true
}

func (p *Program) inited(pkg *ssa.Package) bool {
	return pkg != nil && pkg.Pkg != nil && p.initedPath(pkg.Pkg.Path())
}

// owned: package-level state that library operations must not modify.
func (p *Program) owned(pkg *ssa.Package) bool {
	if pkg == nil {
		return false
	}
	path := pkg.Pkg.Path()
	return strings.HasPrefix(path, ModPath) && (!strings.HasPrefix(path, VPath) || strings.HasPrefix(path, VPath+"/gen/"))
}

func (p *Program) scan(pk *packages.Package, sp *ssa.Package) {
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, cm := range fd.Doc.List {
				t, ok := strings.CutPrefix(cm.Text, "//gocv:")
				if !ok {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				fs := splitAttrs(t)
				switch fs[0] {
				case "harness":
					h := &HarnessSpec{Name: fd.Name.Name, Pkg: pk.PkgPath, Fn: fn}
					h.Doc = strings.TrimSpace(fd.Doc.Text())
					for _, a := range fs[1:] {
						k, v, _ := strings.Cut(a, "=")
						switch k {
						case "prop":
							h.Props = strings.Split(v, ",")
						case "use":
							h.Use = strings.Split(v, ",")
						case "provides":
							h.Provides = v
						case "weight":
							h.Weight, _ = strconv.Atoi(v)
						case "bounded":
							h.Bounded = v
						case "whitebox":
							h.Whitebox = v
						case "loop":
							h.Loop, _ = strconv.Atoi(v)
						case "time":
							h.Time, _ = strconv.Atoi(v)
						case "tier":
							h.Thorough = v == "thorough"
						case "param":
							h.Params = append(h.Params, parseParam(v))
						case "deep": // values of a parameter in the thorough tier
							h.Deep = append(h.Deep, parseParam(v))
						default:
							panic("bad harness attribute " + a)
						}
					}
					p.Harnesses = append(p.Harnesses, h)
				case "replaces":
					set := ""
					for _, a := range fs[2:] {
						if v, ok := strings.CutPrefix(a, "set="); ok {
							set = v
						}
					}
					target := strings.ReplaceAll(fs[1], "ztype.", ModPath+"/ztype.")
					target = strings.ReplaceAll(target, "zserio.", ModPath+".")
					target = strings.ReplaceAll(target, "zstream.", ModPath+"/zstream.")
					p.contracts[target] = append(p.contracts[target], contract{set, fn, fd.Name.Name})
				default:
					panic("bad directive " + t)
				}
			}
		}
	}
}

func parseParam(v string) ParamDim {
	n, rng, _ := strings.Cut(v, ":")
	d := ParamDim{Name: n}
	for _, part := range strings.Split(rng, ",") {
		lo, hi, isr := strings.Cut(part, "..")
		a, _ := strconv.Atoi(lo)
		b := a
		if isr {
			b, _ = strconv.Atoi(hi)
		}
		for i := a; i <= b; i++ {
			d.Vals = append(d.Vals, i)
		}
	}
	return d
}

func splitAttrs(s string) []string {
	var out []string
	cur := ""
	q := false
	for _, ch := range s {
		switch {
		case ch == '"':
			q = !q
		case ch == ' ' && !q:
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		default:
			cur += string(ch)
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

// contractFor returns the contract substituted for a function at call sites.
func (p *Program) contractFor(fn *ssa.Function, use map[string]bool) *ssa.Function {
	if len(use) == 0 {
		return nil
	}
	for _, c := range p.contracts[fnKey(fn)] {
		if use[c.set] {
			return c.fn
		}
	}
	return nil
}

// Targets lists the functions that have a substitutable contract.
func (p *Program) Targets() []string {
	var out []string
	for k := range p.contracts {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) ensureBuilt(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

// initPackages executes the package initialisers of the code under
// verification concretely.
func (r *Run) initPackages(st *State) bool {
	st.initing = true
	for _, pkg := range r.P.initOrder {
		f := pkg.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		r.pushFrame(st, f, nil, nil)
		r.work = nil
		if !r.runPath(st) {
			st.frames = nil
			if len(r.work) > 0 {
				r.Limits["package initialiser of "+pkg.Pkg.Path()+" forks"]++
				return false
			}
			r.Limits["package initialiser of "+pkg.Pkg.Path()+" not executable"]++
			return false
		}
		st.frames = nil
	}
	r.initMax = st.next
	return true
}
