package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"gocv/sym"
)

// collect gathers the undischarged obligations and per-harness reports.
func collect(insts []*instance) ([]finding, []*harnessReport) {
	var fs []finding
	reps := map[string]*harnessReport{}
	var order []string
	by := map[string][]*instance{}
	for _, in := range insts {
		if by[in.h.Name] == nil {
			order = append(order, in.h.Name)
		}
		by[in.h.Name] = append(by[in.h.Name], in)
	}
	for _, name := range order {
		rep := &harnessReport{Name: name, Bounded: by[name][0].h.Bounded, Doc: strings.Join(strings.Fields(by[name][0].h.Doc), " ")}
		reps[name] = rep
		names, fns, cons := map[string]bool{}, map[string]bool{}, map[string]bool{}
		ensured := map[string]bool{}
		covered := map[string]bool{}
		probs := 0
		for _, in := range by[name] {
			if in.skipped {
				fmt.Printf("note: %s not decided, another contract is refuted\n", in.name)
				probs++
				continue
			}
			r := in.run
			rep.Instances++
			rep.WallS += in.wall.Seconds()
			rep.SolverS += in.sol.Time.Seconds()
			if in.crash != "" {
				fs = append(fs, finding{h: in.h, params: in.params, inst: in.name, obl: "verifier", detail: "internal error: " + in.crash})
				probs++
				continue
			}
			rep.Paths += r.Paths
			for _, n := range r.Names() {
				o := r.Obls[n]
				names[n] = true
				rep.Discharged += o.Discharged
				rep.Syntactic += o.Syntactic
				if o.Refuted > 0 {
					fs = append(fs, finding{h: in.h, params: in.params, inst: in.name, obl: n, detail: o.Detail, cex: o.Cex, refuted: true})
					probs++
				} else if o.Undecided > 0 {
					fs = append(fs, finding{h: in.h, params: in.params, inst: in.name, obl: n, detail: "undecided: " + o.Detail})
					probs++
				}
			}
			var lim []string
			for l := range r.Limits {
				lim = append(lim, l)
			}
			sort.Strings(lim)
			for _, l := range lim {
				fs = append(fs, finding{h: in.h, params: in.params, inst: in.name, obl: "verifier", detail: "not decided: " + l})
				probs++
			}
			for f := range r.Entered {
				if strings.Contains(f, sym.ModPath) && !strings.Contains(f, sym.VPath+"/") || strings.Contains(f, "icza/bitio") || strings.Contains(f, "float16") || strings.Contains(f, sym.VPath+"/gen/") {
					fns[strings.ReplaceAll(f, sym.ModPath, "zserio")] = true
				}
			}
			for f := range r.Contr {
				cons[strings.ReplaceAll(f, sym.ModPath, "zserio")] = true
			}
			for _, v := range r.Ensured {
				ensured[v] = true
			}
			for c := range r.CoverHit {
				covered[c] = true
			}
			if r.Paths == 0 && probs == 0 {
				fs = append(fs, finding{h: in.h, params: in.params, inst: in.name, obl: "non-vacuity", detail: "no path completes"})
				probs++
			}
		}
		if probs == 0 {
			ens, cov := staticSites(by[name][0].h.Fn)
			var miss []string
			for _, e := range ens {
				if e != "?" && !ensured[e] {
					miss = append(miss, e)
				}
			}
			for c := range cov {
				if !covered[c] {
					miss = append(miss, "cover "+c)
				}
			}
			sort.Strings(miss)
			if len(miss) > 0 {
				fs = append(fs, finding{h: by[name][0].h, inst: name, params: by[name][0].params, obl: "non-vacuity", detail: "never reached: " + strings.Join(miss, ", ")})
			}
		}
		rep.Names, rep.Functions, rep.Contracts = keys(names), keys(fns), keys(cons)
	}
	var out []*harnessReport
	for _, n := range order {
		out = append(out, reps[n])
	}
	return fs, out
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type known struct{ prop, key, text string }

// knownFindings: lines "KNOWN-FINDING: property=<id> <harness>/<obligation> text".
func knownFindings() []known {
	var out []known
	b, _ := os.ReadFile(filepath.Join(*verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		t, ok := strings.CutPrefix(l, "KNOWN-FINDING: property=")
		if !ok {
			continue
		}
		f := strings.SplitN(t, " ", 3)
		if len(f) == 3 {
			out = append(out, known{f[0], f[1], f[2]})
		}
	}
	return out
}

func check(prop string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rdir := filepath.Join(*verif, "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	violations := 0
	report := func(rc *replayCase, n int, found bool) {
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, n))
		rc.HowTo = "bash /verif/replay.sh " + f
		b, _ := json.MarshalIndent(rc, "", " ")
		os.WriteFile(f, b, 0o644)
		suffix := ""
		if !found {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, f, suffix)
		violations++
	}
	// selection
	prov := map[string]bool{}
	sel := func(props []string, provides, name string) bool {
		for _, p := range props {
			if p == prop {
				return true
			}
		}
		return false
	}
	s, err := stage(sel)
	var p *sym.Program
	if err == nil {
		defer s.close()
		p, err = sym.Load(*repo, goroot(), s.ov, "", s.pkgs...)
	}
	if err != nil {
		fmt.Println("gocv:", err)
		report(&replayCase{Obligation: "verifier", Detail: "the contracts no longer load against /repo", Verifier: err.Error()}, 0, false)
		writeEvidence(prop, seed, nil, nil, nil, time.Since(t0), violations, err.Error())
		return 1
	}
	for changed := true; changed; {
		changed = false
		for _, h := range p.Harnesses {
			if sel(h.Props, h.Provides, h.Name) || h.Provides != "" && prov[h.Provides] {
				for _, u := range h.Use {
					if !prov[u] {
						prov[u] = true
						changed = true
					}
				}
			}
		}
	}
	// the schema corpus must generate and compile
	for i, c := range s.broken {
		c := c
		if prop != corpusProp {
			fmt.Printf("note: %s (%s decides); its contracts are left out\n", c, corpusProp)
			continue
		}
		fmt.Printf("undischarged: corpus / %s: %s\n", c, strings.SplitN(c.Output, "\n", 2)[0])
		report(&replayCase{Corpus: &c, Obligation: "generated", Detail: c.String(), Verifier: c.Command + "\n" + c.Output}, 900+i, c.Stage != "contract")
	}
	insts := expand(p, func(h *sym.HarnessSpec) bool {
		if h.Thorough && *tier != "thorough" {
			return false
		}
		return sel(h.Props, h.Provides, h.Name) || h.Provides != "" && prov[h.Provides]
	})
	if len(insts) == 0 && violations == 0 {
		fmt.Println("gocv: no obligations for", prop)
		report(&replayCase{Obligation: "verifier", Detail: "no obligations"}, 0, false)
		return 1
	}
	// slow ones first
	sort.SliceStable(insts, func(i, j int) bool { return insts[i].h.Weight > insts[j].h.Weight })
	for _, k := range knownFindings() {
		if k.prop == prop {
			knownKeys[k.key] = true
		}
	}
	verifyEnd = t0.Add(450 * time.Second)
	if *tier == "thorough" {
		verifyEnd = t0.Add(650 * time.Second)
	}
	runInstances(p, insts)
	fs, reps := collect(insts)
	if *tier == "thorough" {
		// discharge everything again with independent back ends
		for _, alt := range []string{"cvc5", "z3"} {
			saved := *solver
			*solver = alt
			again := expand(p, func(h *sym.HarnessSpec) bool {
				return sel(h.Props, h.Provides, h.Name) || h.Provides != "" && prov[h.Provides]
			})
			runInstances(p, again)
			*solver = saved
			fs2, reps2 := collect(again)
			for _, f := range fs2 {
				if f.refuted {
					fs = append(fs, f)
				} else {
					fmt.Printf("note: %s leaves %s/%s undecided\n", alt, f.inst, f.obl)
				}
			}
			for _, r := range reps2 {
				r.Name += " (again with " + alt + ")"
				reps = append(reps, r)
			}
		}
	}
	kf := knownFindings()
	hitKnown := map[string]bool{}
	// group findings per harness: report each harness once per obligation
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].refuted && !fs[j].refuted })
	seen := map[string]bool{}
	nrep := 0
	searchEnd := time.Now().Add(150 * time.Second)
	if rest := t0.Add(780 * time.Second); rest.Before(searchEnd) {
		searchEnd = rest
	}
	done := map[string]bool{}
	for _, f := range fs {
		key := f.h.Name + "/" + f.obl
		isKnown := false
		for _, k := range kf {
			if k.prop == prop && k.key == key {
				isKnown = true
				if !hitKnown[key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k.key, k.text)
				}
				hitKnown[key] = true
			}
		}
		if isKnown || seen[key] || done[f.h.Name] {
			continue
		}
		seen[key] = true
		fmt.Printf("undischarged: %s / %s: %s\n", f.inst, f.obl, f.detail)
		rc := &replayCase{Harness: f.h.Name, Params: f.params, Obligation: f.obl, Detail: f.detail}
		if f.cex != nil {
			rc.Choices = f.cex.Choices
			rc.Verifier = "refuted by " + *solver + " with the recorded choices; " + strings.Join(f.cex.Trace, "; ")
		} else {
			rc.Verifier = f.detail
		}
		if f.h.Whitebox != "" {
			// a contract on private fields: only its black-box companion can
			// exhibit a failing input; if the private representation changed
			// so that the contract does not apply, the companion decides
			if rc2, out := s.companion(p, f.h.Whitebox, searchEnd); rc2 != nil {
				done[f.h.Name] = true
				nrep++
				report(rc2, nrep, true)
			} else if f.refuted {
				rc.Verifier += "\nconcrete execution of " + f.h.Whitebox + ": " + out
				nrep++
				report(rc, nrep, false)
			} else {
				fmt.Printf("note: %s does not apply to the changed representation, %s decides\n", f.h.Name, f.h.Whitebox)
				done[f.h.Name] = true
			}
			continue
		}
		found := false
		secs := 0.0
		if left := time.Until(searchEnd).Seconds(); left > 1 && nrep < 12 {
			secs = left / 3
			if secs > 20 {
				secs = 20
			}
		}
		var out string
		if secs > 0 {
			var v, pan string
			var ch []sym.CexChoice
			v, ch, pan, out = s.concrete(rc, secs)
			if v != "" {
				found = true
				rc.Obligation, rc.Choices = v, ch
				rc.Reproduced = "the real code violates obligation " + v + " on these inputs " + pan
			} else {
				rc.Verifier += "\nconcrete execution: " + out
			}
		}
		if found {
			done[f.h.Name] = true
		}
		nrep++
		report(rc, nrep, found)
	}
	writeEvidence(prop, seed, p, insts, reps, time.Since(t0), violations, "")
	obl := 0
	for _, r := range reps {
		obl += r.Discharged
	}
	fmt.Printf("%s: %d contracts in %d instances, %d obligations discharged, %d violations, %.1fs\n", prop, len(reps), len(insts), obl, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func writeEvidence(prop string, seed int, p *sym.Program, insts []*instance, reps []*harnessReport, wall time.Duration, violations int, problem string) {
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	proved, bounded := 0, 0
	total, boundedTotal := 0, 0
	solverS := 0.0
	fns, cons, intr := map[string]bool{}, map[string]bool{}, map[string]bool{}
	syn := 0
	for _, r := range reps {
		if r.Bounded == "" {
			proved += r.Discharged
		} else {
			bounded += r.Discharged
		}
		syn += r.Syntactic
		solverS += r.SolverS
		for _, f := range r.Functions {
			fns[f] = true
		}
		for _, c := range r.Contracts {
			cons[c] = true
		}
	}
	queries := 0
	for _, in := range insts {
		if in.run == nil {
			continue
		}
		queries += in.sol.Queries
		for f := range in.run.Intr {
			intr[f] = true
		}
		for _, o := range in.run.Obls {
			n := o.Discharged + o.Refuted + o.Undecided
			if in.h.Bounded == "" {
				total += n
			} else {
				boundedTotal += n
			}
		}
	}
	var trusted []string
	for _, f := range keys(intr) {
		d := sym.TrustedDoc[f]
		if d == "" {
			d = "modelled exactly as bit-vector function"
		}
		trusted = append(trusted, f+": "+d)
	}
	trusted = append(trusted, "golang.org/x/tools/go/ssa (translation of /repo's source to SSA)",
		"gocv (this verifier: symbolic execution of SSA to verification conditions)", "SMT solver "+*solver+" (quick); cvc5 and z3 4.8.12 in addition (thorough)",
		"go1.24.13 compiler and runtime (int is 64 bits)")
	cov := map[string]any{
		"obligations":                       total,
		"discharged":                        min(proved, total),
		"bounded_obligations":               boundedTotal,
		"bounded_discharged":                bounded,
		"discharged_by_simplifier":          syn,
		"solver_queries":                    queries,
		"solver_s":                          round(solverS),
		"backend":                           *solver,
		"checker_cmd":                       fmt.Sprintf("bash /verif/check.sh %s %s", prop, *tier),
		"trusted_base":                      trusted,
		"functions_executed_under_contract": keys(fns),
		"contracts_assumed_at_call_sites":   keys(cons),
		"harnesses":                         reps,
	}
	if *tier == "thorough" {
		cov["discharged"] = proved
	}
	if problem != "" {
		cov["problem"] = problem
	}
	ev := map[string]any{
		"property": prop, "tier": *tier, "seed": seed, "level": levelOf(prop), "coverage": cov,
		"assumptions": assumptions, "wall_s": round(wall.Seconds()), "violations": violations,
	}
	if levelOf(prop) == "other" {
		cov["explanation"] = "contracts discharged by SMT; the harnesses marked bounded enumerate the stated bound completely and are not counted as proved"
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

var assumptions = []string{
	"machine integers are bit-vectors of their exact Go width; no mathematical-integer abstraction",
	"streams handed to the library are correct io implementations (no data race, counts honest); writers may fail at any operation",
	"bit positions are below 2^40 and slice lengths below 2^40",
	"goroutines are not modelled; C12 is decided as a frame condition (no write to package state)",
	"termination is not proved",
	"floating-point arithmetic other than bit-pattern moves, comparison and float16 conversion is uninterpreted",
	"text of error values is not specified, only whether they are nil and what they wrap",
}

func levelOf(prop string) string {
	b, err := os.ReadFile(filepath.Join(*verif, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return c.Level
				}
			}
		}
	}
	return "proof"
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// corpusProp is the property that the schema corpus generates and compiles.
const corpusProp = "C15"

func contains(l []string, x string) bool {
	for _, e := range l {
		if e == x {
			return true
		}
	}
	return false
}

// replayFile re-executes a recorded case against the current /repo.
func replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rc replayCase
	err = json.Unmarshal(b, &rc)
	if err == nil && rc.Corpus != nil {
		s, err := stage(func(props []string, _, _ string) bool { return contains(props, corpusProp) })
		if err != nil {
			fmt.Println(err)
			return 2
		}
		defer s.close()
		for _, c := range s.broken {
			fmt.Println("reproduced:", c, c.Command, c.Output)
		}
		if len(s.broken) > 0 {
			return 1
		}
		return 0
	}
	if err != nil || rc.Harness == "" {
		fmt.Println("nothing to replay:", rc.Detail, rc.Verifier)
		return 1
	}
	s, err := stage(func(_ []string, _, name string) bool { return name == rc.Harness })
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer s.close()
	v, _, pan, out := s.concrete(&rc, 0)
	fmt.Println(strings.TrimSpace(out))
	if v != "" {
		fmt.Println("reproduced:", v, pan)
		return 1
	}
	return 0
}

// companion searches for an input that violates a black-box contract.
func (s *session) companion(p *sym.Program, name string, end time.Time) (*replayCase, string) {
	ins := expand(p, func(h *sym.HarnessSpec) bool { return h.Name == name })
	last := ""
	limit := time.Now().Add(60 * time.Second)
	if end.Before(limit) {
		limit = end
	}
	for i, in := range ins {
		secs := time.Until(limit).Seconds() / float64(len(ins)-i)
		if secs < 0.2 {
			break
		}
		if secs > 8 {
			secs = 8
		}
		rc := &replayCase{Harness: name, Params: in.params, Detail: "black-box companion of a refuted contract"}
		v, ch, pan, out := s.concrete(rc, secs)
		if v != "" {
			rc.Obligation, rc.Choices = v, ch
			rc.Reproduced = "the real code violates obligation " + v + " on these inputs " + pan
			return rc, out
		}
		last = out
	}
	return nil, last
}
