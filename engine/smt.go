package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one long-lived SMT solver process. The assertion stack of the
// process mirrors the path condition of the running path, so that paths that
// share a prefix share the solver work.
type Solver struct {
	tb       *TermTable
	argv     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	stack    []*Term
	defined  map[int32]bool
	vars     []*Term // declared variables
	timeout  time.Duration
	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Fallback int
	Restarts int
	Time     time.Duration
	fatal    error
	fresh    *freshSolver
	hard     int // incremental queries in a row that hit their limit
	skip     int // queries to decide without the incremental core
}

// incrementalLimit is the time the incremental core gets before a query is decided
// from scratch, which is slower for easy queries and much faster for hard ones.
const incrementalLimit = 60 * time.Millisecond

// freshSolver is a solver process that starts every query from an empty state.
type freshSolver struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	raw io.WriteCloser
	out *bufio.Reader
}

func startFresh(argv []string) (*freshSolver, error) {
	f := &freshSolver{cmd: exec.Command(argv[0], argv[1:]...)}
	in, err := f.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := f.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := f.cmd.Start(); err != nil {
		return nil, err
	}
	f.raw, f.in, f.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	return f, nil
}

func (f *freshSolver) close() {
	f.raw.Close()
	f.cmd.Process.Kill()
	f.cmd.Wait()
}

// checkFresh decides a conjunction from scratch in the persistent process.
func (s *Solver) checkFresh(conj []*Term) (SatResult, Model) {
	if s.fresh == nil {
		f, err := startFresh(s.argv)
		if err != nil {
			return Unknown, nil
		}
		s.fresh = f
	}
	f := s.fresh
	script, vars := Script(conj, "")
	fmt.Fprintf(f.in, "(reset)\n(set-option :timeout %d)\n%s", s.timeout.Milliseconds(), script)
	fail := func() (SatResult, Model) {
		f.close()
		s.fresh = nil
		return Unknown, nil
	}
	if f.in.Flush() != nil {
		return fail()
	}
	line, err := f.out.ReadString('\n')
	if err != nil {
		return fail()
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vars) == 0 {
			return Sat, Model{}
		}
		t := &Solver{vars: vars, in: f.in, out: f.out}
		m, err := t.model()
		if err != nil {
			return fail()
		}
		return Sat, m
	case "unknown", "timeout":
		return Unknown, nil
	}
	return fail()
}

func NewSolver(tb *TermTable, argv []string, timeout time.Duration) *Solver {
	return &Solver{tb: tb, argv: argv, timeout: timeout}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defined = map[int32]bool{}
	s.vars = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", incrementalLimit.Milliseconds())
	return nil
}

func (s *Solver) Close() {
	if s.fresh != nil {
		s.fresh.close()
		s.fresh = nil
	}
	if s.cmd != nil {
		s.in.Flush()
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// define declares everything t refers to.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order, terms can be deep
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.defined[f.t.id] = true
		if f.t.op == OVar {
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", f.t.name, sortName(f.t.w))
			s.vars = append(s.vars, f.t)
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", f.t.id, sortName(f.t.w), f.t.body())
		}
		st = st[:len(st)-1]
	}
}

// sync makes the solver's stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", pc[n].ref())
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) readLine() (string, error) {
	line, err := s.out.ReadString('\n')
	return strings.TrimSpace(line), err
}

// readSexp reads a balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(line)
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String(), nil
		}
	}
}

// checkIncremental decides pc ∧ extra on the process that mirrors the path condition.
func (s *Solver) checkIncremental(pc []*Term, extra *Term) (SatResult, Model) {
	s.sync(pc)
	fmt.Fprintf(s.in, "(push 1)\n")
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(assert %s)\n", extra.ref())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Close()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	var res SatResult
	var m Model
	switch line {
	case "sat":
		res = Sat
		m, err = s.model()
		if err != nil {
			s.Close()
			return Unknown, nil
		}
	case "unsat":
		res = Unsat
	default:
		if line != "unknown" && line != "timeout" {
			// A time limit that fires late cancels another command. The process is
			// restarted, and the query is decided from scratch.
			s.Close()
			s.Restarts++
			return Unknown, nil
		}
		res = Unknown
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

// Check decides pc ∧ extra. On Sat the model of all declared variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd != nil && s.tb.next > 0 && len(s.defined) > 400000 {
		s.Close() // keep the solver's memory bounded
	}
	if s.cmd == nil {
		err := s.start()
		for i := 0; err != nil && i < 5; i++ {
			time.Sleep(200 * time.Millisecond << i)
			err = s.start()
		}
		if err != nil {
			s.fatal = err
			return Unknown, nil
		}
	}
	s.Queries++
	res, m := Unknown, Model(nil)
	if s.skip > 0 {
		s.skip--
	} else {
		res, m = s.checkIncremental(pc, extra)
		if s.fatal != nil {
			return Unknown, nil
		}
		if res != Unknown {
			s.hard = 0
		} else if s.hard++; s.hard >= 2 {
			s.skip, s.hard = 30, 1
		}
	}
	if res == Unknown {
		s.Fallback++
		all := append([]*Term{}, pc...)
		if extra != nil {
			all = append(all, extra)
		}
		if res, m = s.checkFresh(all); res == Unknown && s.fresh == nil {
			res, m = s.checkFresh(all) // the process failed: once more with a new one
		}
		if res == Unknown {
			res, m = OneShot([]string{"z3", "-in"}, all, s.timeout*4)
		}
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return res, m
}

func (s *Solver) model() (Model, error) {
	m := Model{}
	if len(s.vars) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(v.name)
		sb.WriteString(" ")
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	txt, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	return parseModel(txt)
}

func parseModel(txt string) (Model, error) {
	m := Model{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("model value %q in %q", v, txt)
		}
		if err != nil {
			return nil, err
		}
		m[f[i]] = u
	}
	return m, nil
}

// Script renders the conjunction as a self-contained SMT-LIB2 script.
func Script(conj []*Term, logic string) (string, []*Term) {
	var bb bytes.Buffer
	if logic != "" {
		fmt.Fprintf(&bb, "(set-logic %s)\n", logic)
	}
	s := &Solver{in: bufio.NewWriter(&bb), defined: map[int32]bool{}}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n")
	for _, t := range conj {
		s.define(t)
	}
	for _, t := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	return bb.String(), s.vars
}

// OneShot decides a conjunction with a fresh solver process.
func OneShot(argv []string, conj []*Term, timeout time.Duration) (SatResult, Model) {
	logic := ""
	if argv[0] == "cvc5" {
		logic = "ALL"
	}
	script, vars := Script(conj, logic)
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.name + " ")
		}
		sb.WriteString("))\n")
		script += sb.String()
	}
	a := append([]string{}, argv[1:]...)
	if strings.HasPrefix(argv[0], "z3") {
		a = append(a, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1))
	}
	cmd := exec.Command(argv[0], a...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return Unknown, nil
	}
	t := time.AfterFunc(timeout+2*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	txt := out.String()
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		m, err := parseModel(strings.TrimPrefix(txt, "sat"))
		if err != nil {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}
