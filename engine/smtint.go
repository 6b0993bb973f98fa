package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Integer encoding of queries about sizes. Sums of message sizes are long and
// never wrap (their ranges are known), which linear integer arithmetic decides
// far faster than bit-blasting. A term is translated only if no operation in
// it can wrap, so the translation is exact.

const intLimit = uint64(1) << 62

func (t *Term) intable() bool {
	if t.ik != 0 {
		return t.ik == 1
	}
	ok := t.intable0()
	t.ik = 2
	if ok {
		t.ik = 1
	}
	return ok
}

func (t *Term) intable0() bool {
	if t.fp {
		return false
	}
	for _, a := range t.args {
		if !a.intable() {
			return false
		}
	}
	if t.w > 0 {
		if _, hi := t.rng(); hi > intLimit {
			return false
		}
	}
	switch t.op {
	case OConst, OVar, OZExt, OIte, ONot, OAnd, OOr, OEq, OULt, OULe, OSLt, OSLe:
		return true
	case OExtract:
		_, a := t.args[0].rng()
		return a <= mask(t.w)
	case OUDiv, OURem:
		return t.args[1].isConst() && t.args[1].val > 0
	case OAdd:
		_, a := t.args[0].rng()
		_, b := t.args[1].rng()
		return a+b <= intLimit && a+b <= mask(t.w)
	case OMul:
		_, a := t.args[0].rng()
		_, b := t.args[1].rng()
		if !t.args[0].isConst() && !t.args[1].isConst() {
			return false
		}
		return a == 0 || b == 0 || (a*b)/a == b && a*b <= intLimit && a*b <= mask(t.w)
	}
	return false
}

// signed comparisons agree with unsigned ones below half the range
func signedOK(t *Term) bool {
	for _, a := range t.args {
		if _, hi := a.rng(); hi > mask(a.w)>>1 {
			return false
		}
	}
	return true
}

type intPrinter struct {
	sb   strings.Builder
	done map[*Term]bool
	ok   bool
	vars []*Term
}

func (p *intPrinter) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprint(t.val)
	case OVar:
		return "|" + t.name + "!i|"
	}
	return fmt.Sprintf("i%d", t.id)
}

func (p *intPrinter) def(t *Term) {
	if t.op == OConst || p.done[t] {
		return
	}
	p.done[t] = true
	for _, a := range t.args {
		p.def(a)
	}
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	r := p.ref(t)
	if t.op == OVar {
		p.vars = append(p.vars, t)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", r, sort)
		if t.w > 0 {
			_, hi := t.rng()
			fmt.Fprintf(&p.sb, "(assert (and (<= 0 %s) (<= %s %d)))\n", r, r, hi)
		}
		return
	}
	op := ""
	switch t.op {
	case OZExt, OExtract:
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", r, sort, p.ref(t.args[0]))
		return
	case OSLt, OSLe:
		if !signedOK(t) {
			p.ok = false
		}
		op = "<="
		if t.op == OSLt {
			op = "<"
		}
	case OULt:
		op = "<"
	case OULe:
		op = "<="
	case OAdd:
		op = "+"
	case OMul:
		op = "*"
	case OUDiv:
		op = "div"
	case OURem:
		op = "mod"
	default:
		op = opNames[t.op]
	}
	fmt.Fprintf(&p.sb, "(define-fun %s () %s (%s", r, sort, op)
	for _, a := range t.args {
		p.sb.WriteByte(' ')
		p.sb.WriteString(p.ref(a))
	}
	p.sb.WriteString("))\n")
}

// CheckInt decides the conjunction with the integer encoding; done is false if
// that is not possible.
func (s *Solver) CheckInt(ts []*Term, vars []*Term) (r Res, m Model, done bool) {
	for _, t := range ts {
		if !t.intable() {
			if os.Getenv("VERIF_SLOW") != "" {
				fmt.Fprintln(os.Stderr, "not intable:", why(t))
			}
			return Unknown, nil, false
		}
	}
	p := &intPrinter{done: map[*Term]bool{}, ok: true}
	for _, t := range ts {
		p.def(t)
	}
	if !p.ok {
		return Unknown, nil, false
	}
	s.raw("(push 1)")
	defer s.raw("(pop 1)")
	s.raw(strings.TrimRight(p.sb.String(), "\n"))
	for _, t := range ts {
		s.raw("(assert " + p.ref(t) + ")")
	}
	t0 := time.Now()
	r = s.checkSat()
	if d := os.Getenv("VERIF_SLOW"); d != "" && time.Since(t0) > time.Second {
		f, _ := os.CreateTemp(d, "slow*.smt2")
		fmt.Fprintln(f, p.sb.String())
		for _, t := range ts {
			fmt.Fprintln(f, "(assert "+p.ref(t)+")")
		}
		fmt.Fprintln(f, "(check-sat)")
		f.Close()
	}
	if r == Unknown {
		return r, nil, false
	}
	if r == Sat {
		m = s.modelOf(p.vars, p.ref)
		for _, v := range vars {
			if _, ok := m[v.name]; !ok {
				m[v.name] = 0
			}
		}
	}
	return r, m, true
}

func why(t *Term) string {
	for _, a := range t.args {
		if !a.intable() {
			return why(a)
		}
	}
	lo, hi := t.rng()
	return fmt.Sprint(opNames[t.op], " op", t.op, " w", t.w, " ", t.name, " ", len(t.args), " range ", lo, "..", hi)
}

func defaultSolver() []string {
	for _, z := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(z); err == nil {
			return []string{p, "-in"}
		}
	}
	return []string{"z3", "-in"}
}
