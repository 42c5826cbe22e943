// gocv: contract-based deductive verification of the Go code in /repo.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gocv/smt"
	"gocv/sym"

	"golang.org/x/tools/go/ssa"
)

type instance struct {
	h      *sym.HarnessSpec
	params map[string]int
	name   string
	run    *sym.Run
	sol    *smt.Solver
	wall   time.Duration
	crash  string
	// left out because another contract is already refuted and time is short
	skipped bool
}

// verifyEnd bounds the whole verification; stopAt (unix seconds, 0: unset) is
// set soon after the first refutation, so that a broken tree is reported fast.
var (
	verifyEnd time.Time
	stopAt    atomic.Int64
)

type harnessReport struct {
	Name       string   `json:"harness"`
	Doc        string   `json:"contract,omitempty"`
	Instances  int      `json:"instances"`
	Paths      int      `json:"paths"`
	Discharged int      `json:"obligations_discharged"`
	Syntactic  int      `json:"discharged_by_simplifier"`
	Names      []string `json:"obligations"`
	Bounded    string   `json:"bounded,omitempty"`
	Contracts  []string `json:"contracts_assumed_at_calls,omitempty"`
	Functions  []string `json:"functions_of_repo_executed"`
	SolverS    float64  `json:"solver_s"`
	WallS      float64  `json:"wall_s"`
	Problems   []string `json:"problems,omitempty"`
}

type finding struct {
	h       *sym.HarnessSpec
	params  map[string]int
	inst    string
	obl     string
	detail  string
	cex     *sym.Cex
	refuted bool
}

var (
	repo     = flag.String("repo", "/repo", "repository")
	verif    = flag.String("verif", "/verif", "verification directory")
	tier     = flag.String("tier", "quick", "quick or thorough")
	solver   = flag.String("solver", "z3-new", "solver")
	verbose  = flag.Bool("v", false, "verbose")
	jobs     = flag.Int("j", 0, "workers")
	tmo      = flag.Int("t", 20000, "solver timeout per query (ms)")
	budget   = flag.Int("budget", 300, "seconds per harness instance")
	keep     = flag.Bool("keep", false, "keep the build directory")
	noSearch = flag.Bool("nosearch", false, "no concrete search")
)

func goroot() string {
	if g := os.Getenv("GOCV_GOROOT"); g != "" {
		return g
	}
	if _, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil {
		return "/opt/veriftools/go1.24.13"
	}
	out, _ := exec.Command("go", "env", "GOROOT").Output()
	return strings.TrimSpace(string(out))
}

type session struct {
	dir    string
	ov     *sym.Overlay
	pkgs   []string
	bin    string
	binErr error
	once   sync.Once

	// schema corpus
	broken  []corpusFailure
	dropped map[string]bool // contract files of gc left out
	noGC    bool
}

// stage prepares the overlay: contract packages, generated code, registry.
func stage(sel func(props []string, provides, name string) bool) (*session, error) {
	s := &session{ov: &sym.Overlay{Replace: map[string]string{}}}
	base := filepath.Join(*verif, "build")
	os.MkdirAll(base, 0o755)
	d, err := os.MkdirTemp(base, "run")
	if err != nil {
		return nil, err
	}
	s.dir = d
	type hinfo struct{ pkg, name string }
	var hs []hinfo
	cdir := filepath.Join(*verif, "contracts")
	ents, err := os.ReadDir(cdir)
	if err != nil {
		return nil, err
	}
	need := map[string]bool{}
	uses := map[string]bool{}
	type dir struct {
		pkg, name string
		file      string
		props     []string
		provides  string
		uses      []string
	}
	var dirs []dir
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		fset := token.NewFileSet()
		ps, err := parser.ParseDir(fset, filepath.Join(cdir, e.Name()), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, p := range ps {
			for fname, f := range p.Files {
				for _, cg := range f.Comments {
					for _, c := range cg.List {
						t, ok := strings.CutPrefix(c.Text, "//gocv:harness")
						if !ok {
							continue
						}
						di := dir{pkg: e.Name(), file: filepath.Base(fname)}
						for _, a := range strings.Fields(t) {
							k, v, _ := strings.Cut(a, "=")
							switch k {
							case "prop":
								di.props = strings.Split(v, ",")
							case "provides":
								di.provides = v
							case "use":
								di.uses = strings.Split(v, ",")
							}
						}
						for _, dcl := range f.Scope.Objects {
							_ = dcl
						}
						di.name = funcAfter(f, fset, c)
						dirs = append(dirs, di)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, di := range dirs {
			on := sel(di.props, di.provides, di.name) || di.provides != "" && uses[di.provides]
			if !on {
				continue
			}
			if !need[di.pkg] {
				need[di.pkg] = true
				changed = true
			}
			for _, u := range di.uses {
				if !uses[u] {
					uses[u] = true
					changed = true
				}
			}
		}
	}
	vroot := filepath.Join(*repo, "internal", "zzv")
	add := func(n string) error {
		// files under _in go into the named package of the repository (to
		// give contracts access to unexported functions)
		if in := filepath.Join(cdir, n, "_in"); exists(in) {
			if err := s.ov.AddDir(*repo, in); err != nil {
				return err
			}
		}
		return s.ov.AddDir(filepath.Join(vroot, n), filepath.Join(cdir, n))
	}
	if err := add("cv"); err != nil {
		return nil, err
	}
	need["cvl"] = need["cvl"] || false
	for n := range need {
		if !need[n] {
			continue
		}
		if err := add(n); err != nil {
			return nil, err
		}
		s.pkgs = append(s.pkgs, "./internal/zzv/"+n)
	}
	// helper packages used by several contract packages
	if _, err := os.Stat(filepath.Join(cdir, "spec")); err == nil && !need["spec"] {
		if err := add("spec"); err != nil {
			return nil, err
		}
	}
	if need["gc"] {
		if err := s.generate(vroot); err != nil {
			return nil, err
		}
		if s.noGC {
			need["gc"] = false
			s.pkgs = without(s.pkgs, "./internal/zzv/gc")
		}
	}
	for _, di := range dirs {
		if need[di.pkg] && !(di.pkg == "gc" && s.dropped[di.file]) {
			hs = append(hs, hinfo{di.pkg, di.name})
		}
	}
	sort.Strings(s.pkgs)
	// replay program with the harness registry
	var b bytes.Buffer
	fmt.Fprintln(&b, "package main\n\nimport (\n\t\""+sym.CvPath+"\"")
	for n := range need {
		if need[n] && n != "cv" {
			fmt.Fprintf(&b, "\t%q\n", sym.VPath+"/"+n)
		}
	}
	fmt.Fprintln(&b, ")\n\nfunc main() {")
	for _, h := range hs {
		fmt.Fprintf(&b, "\tcv.Register(%q, %s.%s)\n", h.name, h.pkg, h.name)
	}
	fmt.Fprintln(&b, "\tcv.ReplayMain()\n}")
	rf := filepath.Join(s.dir, "replay_main.go")
	if err := os.WriteFile(rf, b.Bytes(), 0o644); err != nil {
		return nil, err
	}
	s.ov.Add(filepath.Join(vroot, "replay", "main.go"), rf)
	return s, s.ov.Write(filepath.Join(s.dir, "overlay.json"))
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

func (s *session) close() {
	if !*keep && strings.HasPrefix(s.dir, filepath.Join(*verif, "build")) {
		os.RemoveAll(s.dir)
	}
}

// generate runs the code generator of /repo over the schema corpus.
func (s *session) generate(vroot string) error {
	env := sym.GoEnv(goroot())
	genBin := filepath.Join(s.dir, "go-zserio")
	c := exec.Command(filepath.Join(goroot(), "bin", "go"), "build", "-o", genBin, "./cmd/go-zserio")
	c.Dir, c.Env = *repo, env
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("building the generator: %s", out)
	}
	sd := filepath.Join(*verif, "schemas")
	files, err := filepath.Glob(filepath.Join(sd, "*.zs"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	var made [][2]string
	for _, f := range files {
		pkg := strings.TrimSuffix(filepath.Base(f), ".zs")
		args := []string{"generate", "--out", "-", "--rootpackage", sym.VPath + "/gen", "--only", pkg}
		if pkg == "def" {
			args = append(args, "--sql")
		}
		args = append(args, withImports(sd, pkg, nil)...)
		g := exec.Command(genBin, args...)
		g.Dir, g.Env = sd, env
		var ob, eb bytes.Buffer
		g.Stdout, g.Stderr = &ob, &eb
		cmd := "cd " + sd + " && go-zserio generate --out - --rootpackage R --only " + pkg + " " + strings.Join(withImports(sd, pkg, nil), " ")
		if err := g.Run(); err != nil || ob.Len() == 0 {
			s.broken = append(s.broken, corpusFailure{Schema: pkg, Stage: "generate", Command: cmd,
				Output: fmt.Sprintf("%v: %s", err, tail(eb.String()))})
			continue
		}
		of := filepath.Join(s.dir, "gen_"+pkg+".go")
		if err := os.WriteFile(of, ob.Bytes(), 0o644); err != nil {
			return err
		}
		s.ov.Add(filepath.Join(vroot, "gen", pkg, "schema.zs.go"), of)
		made = append(made, [2]string{pkg, cmd})
	}
	if err := s.ov.Write(filepath.Join(s.dir, "overlay.json")); err != nil {
		return err
	}
	for _, m := range made {
		pkg, cmd := m[0], m[1]
		if out, err := s.goBuild("./internal/zzv/gen/" + pkg); err != nil {
			s.broken = append(s.broken, corpusFailure{Schema: pkg, Stage: "compile", Command: cmd + " # and compile the output",
				Output: fmt.Sprintf("%v: %s", err, tail(out))})
		}
	}
	// contracts on schemas that could not be generated are left out
	s.dropped = map[string]bool{}
	gdir := filepath.Join(*verif, "contracts", "gc")
	cfs, _ := filepath.Glob(filepath.Join(gdir, "*.go"))
	for _, cf := range cfs {
		b, err := os.ReadFile(cf)
		if err != nil {
			return err
		}
		for _, c := range s.broken {
			if strings.Contains(string(b), sym.VPath+"/gen/"+c.Schema+"\"") {
				s.dropped[filepath.Base(cf)] = true
				s.ov.Remove(filepath.Join(vroot, "gc", filepath.Base(cf)))
			}
		}
	}
	if err := s.ov.Write(filepath.Join(s.dir, "overlay.json")); err != nil {
		return err
	}
	if out, err := s.goBuild("./internal/zzv/gc"); err != nil {
		s.noGC = true
		if len(s.broken) == 0 {
			s.broken = append(s.broken, corpusFailure{Schema: "all", Stage: "contract", Command: "compiling contracts/gc against the generated code",
				Output: fmt.Sprintf("%v: %s", err, tail(out))})
		}
	}
	return nil
}

var importRe = regexp.MustCompile(`(?m)^import (\w+)\.`)

// withImports lists the file of a schema and those it imports.
func withImports(dir, pkg string, files []string) []string {
	f := pkg + ".zs"
	for _, e := range files {
		if e == f {
			return files
		}
	}
	files = append(files, f)
	b, _ := os.ReadFile(filepath.Join(dir, f))
	for _, m := range importRe.FindAllStringSubmatch(string(b), -1) {
		files = withImports(dir, m[1], files)
	}
	return files
}

// corpusFailure is a schema of the corpus without usable generated code.
type corpusFailure struct{ Schema, Stage, Command, Output string }

func (c corpusFailure) String() string {
	switch c.Stage {
	case "generate":
		return "the generator rejects schema " + c.Schema
	case "compile":
		return "the code generated for schema " + c.Schema + " does not compile"
	}
	return "the contracts do not apply to the generated code"
}

func (s *session) goBuild(pkg string) (string, error) {
	c := exec.Command(filepath.Join(goroot(), "bin", "go"), "build", "-overlay", filepath.Join(s.dir, "overlay.json"), pkg)
	c.Dir, c.Env = *repo, sym.GoEnv(goroot())
	out, err := c.CombinedOutput()
	return string(out), err
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[:2000] + "..."
	}
	return s
}

func without(l []string, x string) []string {
	var out []string
	for _, e := range l {
		if e != x {
			out = append(out, e)
		}
	}
	return out
}

// replayBin compiles the contracts with the real code.
func (s *session) replayBin() (string, error) {
	s.once.Do(func() {
		bin := filepath.Join(s.dir, "replay")
		c := exec.Command(filepath.Join(goroot(), "bin", "go"), "build", "-overlay", filepath.Join(s.dir, "overlay.json"), "-o", bin, "./internal/zzv/replay")
		c.Dir, c.Env = *repo, sym.GoEnv(goroot())
		if out, err := c.CombinedOutput(); err != nil {
			s.binErr = fmt.Errorf("%v: %s", err, out)
			return
		}
		s.bin = bin
	})
	return s.bin, s.binErr
}

type replayCase struct {
	Corpus     *corpusFailure  `json:"corpus,omitempty"`
	Harness    string          `json:"harness"`
	Obligation string          `json:"obligation"`
	Detail     string          `json:"detail"`
	Params     map[string]int  `json:"params,omitempty"`
	Choices    []sym.CexChoice `json:"choices"`
	Reproduced string          `json:"reproduced,omitempty"`
	HowTo      string          `json:"how_to_replay,omitempty"`
	Verifier   string          `json:"verifier_output,omitempty"`
}

// concrete runs the replay program; secs > 0 also searches.
func (s *session) concrete(rc *replayCase, secs float64) (violated string, choices []sym.CexChoice, pan string, out string) {
	bin, err := s.replayBin()
	if err != nil {
		return "", nil, "", err.Error()
	}
	f, _ := os.CreateTemp(s.dir, "case*.json")
	b, _ := json.Marshal(rc)
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+25)*time.Second)
	defer cancel()
	args := []string{"-c", "ulimit -v 8000000; exec \"$@\"", "sh", bin, f.Name()}
	if secs > 0 {
		seed := os.Getenv("VERIF_SEED")
		if seed == "" {
			seed = "1"
		}
		args = append(args, fmt.Sprint(secs), seed)
	}
	c := exec.CommandContext(ctx, "sh", args...)
	c.Dir = s.dir
	ob, _ := c.CombinedOutput()
	out = string(ob)
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "{") {
			var r struct {
				Violated string
				Panic    string
				Choices  []sym.CexChoice
			}
			if json.Unmarshal([]byte(l), &r) == nil && r.Violated != "" {
				return r.Violated, r.Choices, r.Panic, out
			}
		}
	}
	if len(out) > 600 {
		out = out[:600] + "..."
	}
	return "", nil, "", out
}

func funcAfter(f interface{}, fset *token.FileSet, c interface{}) string {
	return funcAfterAST(f, fset, c)
}

func runInstances(p *sym.Program, insts []*instance) {
	n := *jobs
	if n == 0 {
		n = runtime.NumCPU()
	}
	ch := make(chan *instance)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range ch {
				runOne(p, in)
			}
		}()
	}
	for _, in := range insts {
		ch <- in
	}
	close(ch)
	wg.Wait()
}

func runOne(p *sym.Program, in *instance) {
	t0 := time.Now()
	in.sol = smt.NewSolver(*solver, *tmo)
	if s := stopAt.Load(); s != 0 && t0.Unix() >= s {
		in.skipped = true
		return
	}
	use := map[string]bool{}
	for _, u := range in.h.Use {
		use[u] = true
	}
	r := sym.NewRun(p, in.h.Fn, use, in.sol)
	r.Name = in.name
	r.Params = in.params
	if in.h.Loop > 0 {
		r.MaxLoop = in.h.Loop
		r.CutLoops = in.h.Bounded != ""
	}
	b := *budget
	if in.h.Time > 0 {
		b = in.h.Time
	}
	r.Deadline = t0.Add(time.Duration(b) * time.Second)
	if !verifyEnd.IsZero() && r.Deadline.After(verifyEnd) {
		r.Deadline = verifyEnd
	}
	r.Stop = func() bool {
		s := stopAt.Load()
		return s != 0 && time.Now().Unix() >= s
	}
	in.run = r
	defer func() {
		if refuted(in) {
			stopAt.CompareAndSwap(0, time.Now().Unix()+stopGrace)
		} else if r.Stop() && r.Stopped {
			in.skipped = true
		}
	}()
	defer func() {
		if x := recover(); x != nil {
			in.crash = fmt.Sprint(x)
			if *verbose {
				buf := make([]byte, 1<<14)
				fmt.Fprintf(os.Stderr, "CRASH %s: %v\n%s\n", in.name, x, buf[:runtime.Stack(buf, false)])
			}
		}
		in.sol.Close()
		r.CloseSolvers()
		in.wall = time.Since(t0)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-44s paths=%-5d queries=%-6d solver=%.1fs wall=%.1fs limits=%v\n", in.name, r.Paths, in.sol.Queries, in.sol.Time.Seconds(), in.wall.Seconds(), r.Limits)
			for _, n := range r.Names() {
				o := r.Obls[n]
				fmt.Fprintf(os.Stderr, "    %-40s ok=%d refuted=%d undecided=%d %s\n", n, o.Discharged, o.Refuted, o.Undecided, o.Detail)
				if o.Cex != nil {
					b, _ := json.Marshal(o.Cex)
					if len(b) > 3000 {
						b = b[:3000]
					}
					fmt.Fprintf(os.Stderr, "        cex %s\n", b)
				}
			}
		}
	}()
	r.Do()
}

// stopGrace is how long the others may go on after the first refutation.
const stopGrace = 45

// knownKeys are the recorded findings of the property under check.
var knownKeys = map[string]bool{}

func refuted(in *instance) bool {
	for n, o := range in.run.Obls {
		if o.Refuted > 0 && !knownKeys[in.h.Name+"/"+n] {
			return true
		}
	}
	return false
}

// staticSites lists the cv.Ensures and cv.Cover call sites of a harness.
func staticSites(fn *ssa.Function) (ens map[token.Pos]string, cov map[string]bool) {
	ens, cov = map[token.Pos]string{}, map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := c.Common().StaticCallee()
				if cal == nil {
					continue
				}
				nm := func(k int) string {
					if kc, ok := c.Common().Args[k].(*ssa.Const); ok && kc.Value != nil {
						return strings.Trim(kc.Value.String(), "\"")
					}
					return "?"
				}
				switch cal.String() {
				case sym.CvPath + ".Ensures":
					ens[c.Pos()] = nm(1)
				case sym.CvPath + ".Cover":
					cov[nm(0)] = true
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gocv [flags] check PROP | run REGEX | replay FILE | list")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(check(args[1]))
	case "run":
		os.Exit(debugRun(args[1:]))
	case "replay":
		os.Exit(replayFile(args[1]))
	}
	os.Exit(2)
}

func expand(p *sym.Program, pick func(*sym.HarnessSpec) bool) []*instance {
	var out []*instance
	hs := append([]*sym.HarnessSpec(nil), p.Harnesses...)
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	for _, h := range hs {
		if !pick(h) {
			continue
		}
		ins := []*instance{{h: h, name: h.Name}}
		for _, d := range h.Params {
			vals := d.Vals
			if *tier == "thorough" {
				for _, x := range h.Deep {
					if x.Name == d.Name {
						vals = x.Vals
					}
				}
			}
			var next []*instance
			for _, in := range ins {
				for _, v := range vals {
					ps := map[string]int{d.Name: v}
					for k, x := range in.params {
						ps[k] = x
					}
					next = append(next, &instance{h: h, name: fmt.Sprintf("%s[%s=%d]", in.name, d.Name, v), params: ps})
				}
			}
			ins = next
		}
		out = append(out, ins...)
	}
	return out
}

func debugRun(res []string) int {
	match := func(name string) bool {
		for _, x := range res {
			if ok, _ := regexp.MatchString(x, name); ok {
				return true
			}
		}
		return false
	}
	s, err := stage(func(_ []string, _, name string) bool { return match(name) })
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	for _, c := range s.broken {
		fmt.Println(c, c.Output)
	}
	defer s.close()
	t0 := time.Now()
	p, err := sym.Load(*repo, goroot(), s.ov, "", s.pkgs...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	*verbose = true
	stopAt.Store(1 << 60)
	pv := os.Getenv("P")
	insts := expand(p, func(h *sym.HarnessSpec) bool { return match(h.Name) })
	if pv != "" {
		var f []*instance
		for _, in := range insts {
			if regexp.MustCompile(pv).MatchString(in.name) {
				f = append(f, in)
			}
		}
		insts = f
	}
	runInstances(p, insts)
	fs, _ := collect(insts)
	for _, f := range fs {
		fmt.Printf("FINDING %s %s refuted=%v %s\n", f.inst, f.obl, f.refuted, f.detail)
		if *noSearch {
			continue
		}
		rc := &replayCase{Harness: f.h.Name, Params: f.params, Obligation: f.obl}
		if f.cex != nil {
			rc.Choices = f.cex.Choices
		}
		v, ch, pan, out := s.concrete(rc, 3)
		b, _ := json.Marshal(ch)
		fmt.Printf("   concrete: %q %s %s\n", v, pan, b)
		if v == "" {
			fmt.Println("   ", strings.TrimSpace(out))
		}
	}
	return 0
}
