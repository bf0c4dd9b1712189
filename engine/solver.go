package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

var maxDefs = envInt("VF_MAXDEFS", 600)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	stack   []*Term
	ndef    int
	declV   []*Term
	tmoMS   int
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	Errors  int
	log     *os.File
}

func NewSolver(bin string, tmoMS int) *Solver {
	s := &Solver{bin: bin, tmoMS: tmoMS}
	if p := os.Getenv("VF_SMTLOG"); p != "" {
		s.log, _ = os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	}
	return s
}

var solverGen uint32

func (s *Solver) start() error {
	s.Close()
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--global-declarations", fmt.Sprintf("--tlimit-per=%d", s.tmoMS)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = s.stack[:0]
	s.declV = s.declV[:0]
	s.ndef = 0
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if !strings.Contains(s.bin, "cvc5") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.tmoMS))
	}
	s.send("(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(x *Term) {
	if x.op == OpConst || x.defined == s.gen {
		return
	}
	for _, y := range x.a {
		s.define(y)
	}
	x.defined = s.gen
	s.ndef++
	if x.op == OpVar {
		s.send(fmt.Sprintf("(declare-const %s %s)\n", x.name, x.sort()))
		s.declV = append(s.declV, x)
		return
	}
	var sb strings.Builder
	x.body(&sb)
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, x.sort(), sb.String()))
}

// lit names a condition by a constant, so that a query is a set of literals
// and the solver keeps what it learned.
func (s *Solver) lit(t *Term) {
	for t.op == OpNot {
		t = t.a[0]
	}
	if t.op == OpConst || t.litgen == s.gen {
		return
	}
	s.define(t)
	t.litgen = s.gen
	s.ndef++
	s.send(fmt.Sprintf("(declare-const l%d Bool)\n(assert (= l%d %s))\n", t.id, t.id, t.ref()))
}

func (s *Solver) ref(t *Term) string {
	neg := false
	for t.op == OpNot {
		neg = !neg
		t = t.a[0]
	}
	if t.op == OpConst {
		if (t.n == 1) != neg {
			return "true"
		}
		return "false"
	}
	if neg {
		return fmt.Sprintf("(not l%d)", t.id)
	}
	return fmt.Sprintf("l%d", t.id)
}

func varsOf(xs []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OpVar {
			out = append(out, x)
		}
		for _, y := range x.a {
			rec(y)
		}
	}
	for _, x := range xs {
		rec(x)
	}
	return out
}

// Check decides satisfiability of pc ∧ extra and returns a model when sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Res, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.cmd == nil || s.ndef > maxDefs {
		if err := s.start(); err != nil {
			s.Errors++
			s.NUnk++
			return Unknown, nil
		}
	}
	var as strings.Builder
	for _, t := range pc {
		s.lit(t)
		as.WriteString(s.ref(t))
		as.WriteByte(' ')
	}
	if extra != nil {
		s.lit(extra)
		as.WriteString(s.ref(extra))
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat-assuming (" + as.String() + "))\n")
	s.in.Flush()
	line := s.readLine()
	var res Res
	var model map[*Term]uint64
	switch line {
	case "sat":
		res = Sat
		s.NSat++
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.name)
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			model = s.readModel(vars)
			if model == nil {
				res = Unknown
				s.Errors++
			}
		} else {
			model = map[*Term]uint64{}
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		res = Unknown
		s.NUnk++
		if line != "unknown" {
			s.Errors++
			if os.Getenv("VF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver said:", line)
			}
			s.Close()
			return Unknown, nil
		}
	}
	return res, model
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "eof: " + err.Error()
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readModel(vars []*Term) map[*Term]uint64 {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.readLine()
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil
	}
	m := map[*Term]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i++ {
		v, ok := byName[f[i]]
		if !ok {
			continue
		}
		val := f[i+1]
		switch {
		case strings.HasPrefix(val, "#x"):
			n, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				return nil
			}
			m[v] = n
		case strings.HasPrefix(val, "#b"):
			n, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				return nil
			}
			m[v] = n
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case val == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			n, _ := strconv.ParseUint(f[i+2][2:], 10, 64)
			m[v] = n
		default:
			return nil
		}
	}
	if len(m) < len(vars) {
		return nil
	}
	return m
}
