package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
)

// Regular expressions: the compiled program of regexp/syntax is simulated as an
// NFA over (possibly symbolic) bytes, so a match is one boolean term.
type reState struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
}

func regRegexp() {
	compile := func(m *Machine, c *callCtx) (*Value, error) {
		src := c.lit(0)
		re, err := regexp.Compile(src)
		if err != nil {
			return nil, err
		}
		s, err := syntax.Parse(src, syntax.Perl)
		if err != nil {
			return nil, err
		}
		prog, err := syntax.Compile(s.Simplify())
		if err != nil {
			return nil, err
		}
		p := newVal(m.zero(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))
		m.side[p] = &reState{src, re, prog}
		return p, nil
	}
	reg("regexp.MustCompile", func(m *Machine, c *callCtx) Value {
		p, err := compile(m, c)
		if err != nil {
			m.goPanicStr("regexp: Compile: " + err.Error())
		}
		return p
	})
	reg("regexp.Compile", func(m *Machine, c *callCtx) Value {
		p, err := compile(m, c)
		if err != nil {
			return Tuple{(*Value)(nil), m.mkErr(lit(err.Error()))}
		}
		return Tuple{p, Iface{}}
	})
	reg("regexp.QuoteMeta", func(m *Machine, c *callCtx) Value { return lit(regexp.QuoteMeta(c.lit(0))) })
	st := func(m *Machine, v Value) *reState {
		s, ok := m.side[m.sideKey(v)].(*reState)
		if !ok {
			unsup("unknown regexp object")
		}
		return s
	}
	meth := func(n string, f intrinsic) { reg("(*regexp.Regexp)."+n, f) }
	meth("String", func(m *Machine, c *callCtx) Value { return lit(st(m, c.args[0]).src) })
	meth("MatchString", func(m *Machine, c *callCtx) Value { return m.reMatch(st(m, c.args[0]), c.str(1)) })
	meth("Match", func(m *Machine, c *callCtx) Value {
		s, _ := c.args[1].(*Slice)
		return m.reMatch(st(m, c.args[0]), m.sliceToStr(s))
	})
	reg("regexp.MatchString", func(m *Machine, c *callCtx) Value {
		p, err := compile(m, c)
		if err != nil {
			return Tuple{m.tt.F, m.mkErr(lit(err.Error()))}
		}
		return Tuple{m.reMatch(st(m, p), c.str(1)), Iface{}}
	})
	// full-match comparison idiom: re.FindString(s) == s
	meth("FindString", func(m *Machine, c *callCtx) Value {
		s := st(m, c.args[0])
		l, ok := c.str(1).lit()
		if !ok {
			// an anchored pattern matches all of the text or nothing
			if p := s.re.String(); !anchored(p) {
				unsup("FindString on symbolic text")
			}
			if m.branch(m.reMatch(s, c.str(1)).(*Term)) {
				return c.args[1]
			}
			return emptyStr
		}
		return lit(s.re.FindString(l))
	})
	meth("FindStringSubmatch", func(m *Machine, c *callCtx) Value {
		s := st(m, c.args[0])
		l, ok := c.str(1).lit()
		if !ok {
			unsup("FindStringSubmatch on symbolic text")
		}
		r := s.re.FindStringSubmatch(l)
		if r == nil {
			return (*Slice)(nil)
		}
		var vs []Value
		for _, x := range r {
			vs = append(vs, lit(x))
		}
		return m.mkSlice(types.Typ[types.String], vs)
	})
}

// anchored: ^...$ around an expression without alternatives at the top.
func anchored(p string) bool {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 2 {
		return false
	}
	return re.Sub[0].Op == syntax.OpBeginText && re.Sub[len(re.Sub)-1].Op == syntax.OpEndText
}

func (m *Machine) reMatch(s *reState, str *Str) Value {
	tt := m.tt
	if l, ok := str.lit(); ok {
		return tt.Bool(s.re.MatchString(l))
	}
	bs := m.bytesOf(m.fixed(str, true))
	// can a rune >= 0x80 be matched by some instruction?
	wide := false
	for _, in := range s.prog.Inst {
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			wide = true
		case syntax.InstRune, syntax.InstRune1:
			for _, r := range in.Rune {
				if r >= 0x80 {
					wide = true
				}
			}
		}
	}
	if wide {
		for _, b := range bs {
			if m.branch(tt.Bin(OULe, tt.BV(0x80, 8), b)) {
				unsup("regular expression over non-ASCII text")
			}
		}
	}
	n := len(s.prog.Inst)
	cur := make([]*Term, n)
	for i := range cur {
		cur[i] = tt.F
	}
	word := func(b *Term) *Term {
		in := func(lo, hi byte) *Term {
			return tt.And(tt.Bin(OULe, tt.BV(uint64(lo), 8), b), tt.Bin(OULe, b, tt.BV(uint64(hi), 8)))
		}
		return tt.Or(tt.Or(in('0', '9'), in('a', 'z')), tt.Or(in('A', 'Z'), tt.Eq(b, tt.BV('_', 8))))
	}
	empty := func(op syntax.EmptyOp, i int) *Term {
		r := tt.T
		nl := func(j int) *Term { return tt.Eq(bs[j], tt.BV('\n', 8)) }
		if op&syntax.EmptyBeginText != 0 {
			r = tt.And(r, tt.Bool(i == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			r = tt.And(r, tt.Bool(i == len(bs)))
		}
		if op&syntax.EmptyBeginLine != 0 && i > 0 {
			r = tt.And(r, nl(i-1))
		}
		if op&syntax.EmptyEndLine != 0 && i < len(bs) {
			r = tt.And(r, nl(i))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			a, b := tt.F, tt.F
			if i > 0 {
				a = word(bs[i-1])
			}
			if i < len(bs) {
				b = word(bs[i])
			}
			x := tt.Not(tt.Eq(a, b))
			if op&syntax.EmptyWordBoundary != 0 {
				r = tt.And(r, x)
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				r = tt.And(r, tt.Not(x))
			}
		}
		return r
	}
	accept := tt.F
	// closure of the epsilon transitions at position i
	closure := func(set []*Term, i int) {
		var add func(pc uint32, c *Term, depth int)
		base := append([]*Term{}, set...)
		for k := range set {
			set[k] = tt.F
		}
		add = func(pc uint32, c *Term, depth int) {
			if c.isFalse() || depth > 4*n {
				return
			}
			old := set[pc]
			nw := tt.Or(old, c)
			if nw == old {
				return
			}
			set[pc] = nw
			in := s.prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, c, depth+1)
				add(in.Arg, c, depth+1)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, c, depth+1)
			case syntax.InstEmptyWidth:
				add(in.Out, tt.And(c, empty(syntax.EmptyOp(in.Arg), i)), depth+1)
			case syntax.InstMatch:
				accept = tt.Or(accept, c)
			}
		}
		for k, c := range base {
			add(uint32(k), c, 0)
		}
	}
	for i := 0; i <= len(bs); i++ {
		cur[s.prog.Start] = tt.T // unanchored search: a match may start anywhere
		closure(cur, i)
		if i == len(bs) {
			break
		}
		next := make([]*Term, n)
		for k := range next {
			next[k] = tt.F
		}
		for k, in := range s.prog.Inst {
			if cur[k].isFalse() {
				continue
			}
			var ok *Term
			b := bs[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(in.Rune) == 1 {
					ok = tt.F
					r := in.Rune[0]
					if r < 0x80 {
						ok = tt.Eq(b, tt.BV(uint64(r), 8))
					}
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 && r < 0x80 {
						if o := r ^ 0x20; (r|0x20) >= 'a' && (r|0x20) <= 'z' {
							ok = tt.Or(ok, tt.Eq(b, tt.BV(uint64(o), 8)))
						}
					}
					break
				}
				ok = tt.F
				for j := 0; j+1 < len(in.Rune); j += 2 {
					lo, hi := in.Rune[j], in.Rune[j+1]
					if lo >= 0x80 {
						continue
					}
					if hi >= 0x80 {
						hi = 0x7f
					}
					ok = tt.Or(ok, tt.And(tt.Bin(OULe, tt.BV(uint64(lo), 8), b), tt.Bin(OULe, b, tt.BV(uint64(hi), 8))))
				}
			case syntax.InstRuneAny:
				ok = tt.T
			case syntax.InstRuneAnyNotNL:
				ok = tt.Not(tt.Eq(b, tt.BV('\n', 8)))
			default:
				continue
			}
			next[in.Out] = tt.Or(next[in.Out], tt.And(cur[k], ok))
		}
		cur = next
	}
	return accept
}

// mkErr builds an error value carrying text.
func (m *Machine) mkErr(s *Str) Value {
	fn := m.eng.vm["VM_Errorf"]
	if fn == nil {
		unsup("no error model")
	}
	return m.callAtomic(&Closure{Fn: fn}, []Value{s})
}
