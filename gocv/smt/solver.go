package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Solver drives one solver process incrementally.
type Solver struct {
	Name     string
	argv     []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	defined  map[int]string // term id -> symbol
	declared map[string]bool
	stack    []*Term
	Timeout  int // ms per query
	Queries  int
	Time     time.Duration
	Dump     io.Writer
	dead     bool
}

// NewSolver: kind is z3, z3-new or cvc5.
func NewSolver(kind string, timeoutMS int) *Solver {
	s := &Solver{Name: kind, Timeout: timeoutMS}
	switch kind {
	case "cvc5":
		s.argv = []string{"cvc5", "--lang=smt2", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}
	default:
		s.argv = []string{kind, "-in", "-smt2"}
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.defined = map[int]string{}
	s.declared = map[string]bool{}
	s.stack = nil
	s.dead = false
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if s.Name == "cvc5" {
		s.send("(set-logic ALL)")
	} else if s.Timeout > 0 {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.Timeout))
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	if s.Dump != nil {
		fmt.Fprintln(s.Dump, l)
	}
	io.WriteString(s.in, l)
	io.WriteString(s.in, "\n")
}

func (s *Solver) name(t *Term) string {
	switch t.Op {
	case OConst:
		return render(t, nil)
	case OVar:
		if !s.declared[t.Name] {
			s.declared[t.Name] = true
			s.send(fmt.Sprintf("(declare-const |%s| %s)", t.Name, t.Sort))
		}
		return "|" + t.Name + "|"
	}
	if n, ok := s.defined[t.ID]; ok {
		return n
	}
	if t.Op == OUF && !s.declared["uf:"+t.Name] {
		s.declared["uf:"+t.Name] = true
		var as []string
		for _, a := range t.Args {
			as = append(as, a.Sort.String())
		}
		s.send(fmt.Sprintf("(declare-fun |%s| (%s) %s)", t.Name, strings.Join(as, " "), t.Sort))
	}
	// iterative post-order to avoid deep recursion on long chains
	body := render(t, func(a *Term) string { return s.name(a) })
	n := fmt.Sprintf("t%d", t.ID)
	s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort, body))
	s.defined[t.ID] = n
	return n
}

// Prepare names terms before a Check, so that they can be evaluated afterwards.
func (s *Solver) Prepare(ts []*Term) {
	if s.cmd == nil || s.dead {
		return
	}
	for _, t := range ts {
		s.name(t)
	}
}

// Check decides the conjunction of pc and extra.
func (s *Solver) Check(pc []*Term, extra ...*Term) Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++ }()
	if s.cmd == nil || s.dead {
		s.Close()
		if err := s.start(); err != nil {
			return Unknown
		}
	}
	// sync the assertion stack with pc
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		n := s.name(pc[k])
		s.send("(push 1)")
		s.send("(assert " + n + ")")
		s.stack = append(s.stack, pc[k])
	}
	for _, e := range extra {
		n := s.name(e)
		s.send("(push 1)")
		s.send("(assert " + n + ")")
		s.stack = append(s.stack, e)
	}
	s.send("(check-sat)")
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(s.Timeout)*time.Millisecond*2+5*time.Second, func() { proc.Kill() })
	defer wd.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return Unknown
		}
		switch l = strings.TrimSpace(l); {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown" || l == "timeout":
			return Unknown
		case strings.HasPrefix(l, "(error"):
			fmt.Fprintln(os.Stderr, "solver:", s.Name, l)
			s.dead = true
			return Unknown
		}
	}
}

// Value evaluates a scalar term in the model of the last Sat answer.
func (s *Solver) Value(t *Term) (uint64, bool) {
	if t.IsConst() {
		return t.Val, true
	}
	if s.dead || s.cmd == nil {
		return 0, false
	}
	n := s.name(t)
	s.send("(get-value (" + n + "))")
	depth, line := 0, ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return 0, false
		}
		line += l
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", line)
		s.dead = true
		return 0, false
	}
	line = strings.TrimRight(line, ")")
	i := strings.LastIndexAny(line, " \n\t")
	v := line[i+1:]
	switch {
	case v == "true":
		return 1, true
	case v == "false":
		return 0, true
	case strings.HasPrefix(v, "#x"):
		u, err := strconv.ParseUint(v[2:], 16, 64)
		return u, err == nil
	case strings.HasPrefix(v, "#b"):
		u, err := strconv.ParseUint(v[2:], 2, 64)
		return u, err == nil
	}
	// cvc5: (_ bv12 64)
	if j := strings.Index(line, "(_ bv"); j >= 0 {
		f := strings.Fields(line[j+5:])
		u, err := strconv.ParseUint(f[0], 10, 64)
		return u, err == nil
	}
	return 0, false
}
