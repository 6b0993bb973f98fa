package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver: one persistent SMT-LIB2 process (z3 by default).
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	session int
	log     io.Writer

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	bin      []string
	timeout  int
	errs     []string
	declared map[string]bool
	dump     []string // current session's commands, for cross-checking
	keepDump bool
}

func NewSolver(bin []string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if strings.Contains(s.bin[0], "z3") {
		s.raw(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	} else {
		s.raw("(set-logic ALL)")
	}
	s.raw("(set-option :produce-models true)")
	return nil
}

func (s *Solver) raw(line string) {
	if s.log != nil {
		fmt.Fprintln(s.log, line)
	}
	if s.keepDump {
		s.dump = append(s.dump, line)
	}
	s.in.WriteString(line)
	s.in.WriteByte('\n')
}

// Begin starts a fresh assertion scope (one per path).
func (s *Solver) Begin() {
	if s.session > 0 {
		s.raw("(pop 1)")
	}
	s.session++
	if s.keepDump {
		s.dump = s.dump[:0]
	}
	s.declared = map[string]bool{}
	s.raw("(push 1)")
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.emitted == s.session {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if top.t.op == OConst || top.t.emitted == s.session {
			st = st[:len(st)-1]
			continue
		}
		if top.i < len(top.t.args) {
			a := top.t.args[top.i]
			top.i++
			if a.op != OConst && a.emitted != s.session {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := top.t
		x.emitted = s.session
		if x.op == OVar {
			s.raw(fmt.Sprintf("(declare-const %s %s)", x.ref(), x.sortStr()))
		} else {
			s.raw(fmt.Sprintf("(define-fun t%d () %s %s)", x.id, x.sortStr(), x.body()))
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.define(t)
	s.raw("(assert " + t.ref() + ")")
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) checkSat() Res {
	t0 := time.Now()
	s.raw("(check-sat)")
	l, err := s.readLine()
	s.Time += time.Since(t0)
	s.Queries++
	if err != nil {
		s.errs = append(s.errs, "solver died: "+err.Error())
		panic(engineErr("solver died: " + err.Error()))
	}
	switch l {
	case "sat":
		s.Sat++
		return Sat
	case "unsat":
		s.Unsat++
		return Unsat
	case "unknown", "timeout":
		s.Unknown++
		return Unknown
	}
	s.errs = append(s.errs, l)
	panic(engineErr("solver: " + l))
}

// Check asks whether the asserted constraints plus extra are satisfiable; with
// vars != nil and a sat answer it also returns a model.
func (s *Solver) Check(extra *Term, vars []*Term) (Res, Model) {
	if extra != nil {
		if extra.isFalse() {
			return Unsat, nil
		}
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.raw("(push 1)")
	if extra != nil {
		s.raw("(assert " + extra.ref() + ")")
	}
	r := s.checkSat()
	var m Model
	if r == Sat && vars != nil {
		m = s.model(vars)
	}
	s.raw("(pop 1)")
	return r, m
}

func (s *Solver) model(vars []*Term) Model { return s.modelOf(vars, (*Term).ref) }

func (s *Solver) modelOf(vars []*Term, ref func(*Term) string) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	for lo := 0; lo < len(vars); lo += 200 {
		hi := lo + 200
		if hi > len(vars) {
			hi = len(vars)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars[lo:hi] {
			sb.WriteString(ref(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))")
		s.raw(sb.String())
		s.in.Flush()
		// read one balanced s-expression
		depth, started := 0, false
		var buf strings.Builder
		inq := false
		for !started || depth > 0 {
			c, err := s.out.ReadByte()
			if err != nil {
				panic(engineErr("solver died in get-value"))
			}
			if c == '|' {
				inq = !inq
			}
			if !inq {
				if c == '(' {
					depth++
					started = true
				} else if c == ')' {
					depth--
				}
			}
			buf.WriteByte(c)
		}
		txt := buf.String()
		if strings.HasPrefix(txt, "(error") {
			panic(engineErr("solver: " + txt))
		}
		for _, v := range vars[lo:hi] {
			key := ref(v)
			i := strings.Index(txt, "("+key+" ")
			if i < 0 {
				panic(engineErr("model: no value for " + key))
			}
			rest := strings.TrimSpace(txt[i+len(key)+2:])
			m[v.name] = parseVal(rest)
		}
	}
	return m
}

func parseVal(s string) uint64 {
	switch {
	case strings.HasPrefix(s, "true"):
		return 1
	case strings.HasPrefix(s, "false"):
		return 0
	case strings.HasPrefix(s, "#x"):
		e := 2
		for e < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[e]) >= 0 {
			e++
		}
		v, _ := strconv.ParseUint(s[2:e], 16, 64)
		return v
	case strings.HasPrefix(s, "#b"):
		e := 2
		for e < len(s) && (s[e] == '0' || s[e] == '1') {
			e++
		}
		v, _ := strconv.ParseUint(s[2:e], 2, 64)
		return v
	case strings.HasPrefix(s, "(_ bv"):
		e := 5
		for e < len(s) && s[e] >= '0' && s[e] <= '9' {
			e++
		}
		v, _ := strconv.ParseUint(s[5:e], 10, 64)
		return v
	}
	if s != "" && s[0] >= '0' && s[0] <= '9' {
		e := 0
		for e < len(s) && s[e] >= '0' && s[e] <= '9' {
			e++
		}
		v, _ := strconv.ParseUint(s[:e], 10, 64)
		return v
	}
	panic(engineErr("cannot parse model value " + s[:min(len(s), 40)]))
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}
