package main

import (
	"go/types"
)

// String functions over symbolic strings.
var symStrings map[string]func(m *Machine, c *callCtx) Value

func (m *Machine) sepTerms(s *Str) ([]*Term, bool) {
	l, ok := s.lit()
	if ok {
		return m.litBytes(l), !hasDigit(l) && l != ""
	}
	return m.bytesOf(s), false
}

func (m *Machine) splitStr(s, sep *Str, n int) Value {
	st, keep := m.sepTerms(sep)
	if n == 0 {
		return (*Slice)(nil)
	}
	if len(st) == 0 {
		unsup("split with an empty separator on a symbolic string")
	}
	as := m.atoms(s, keep)
	var out []Value
	start := 0
	for n < 0 || len(out) < n-1 {
		i := m.indexAtoms(as, start, st)
		if i < 0 {
			break
		}
		out = append(out, m.fromAtoms(as[start:i]))
		start = i + len(st)
	}
	out = append(out, m.fromAtoms(as[start:]))
	return m.mkSlice(types.Typ[types.String], out)
}

func (m *Machine) hasPrefix(s, p *Str) *Term {
	// cheap: literal prefix against a literal first segment
	if pl, ok := p.lit(); ok {
		if pl == "" {
			return m.tt.T
		}
		if len(s.segs) > 0 && s.segs[0].k == sLit && len(s.segs[0].l) >= len(pl) {
			return m.tt.Bool(s.segs[0].l[:len(pl)] == pl)
		}
	}
	x, y := m.bytesOf(s), m.bytesOf(p)
	if len(y) > len(x) {
		return m.tt.F
	}
	r := m.tt.T
	for i := range y {
		r = m.tt.And(r, m.tt.Eq(x[i], y[i]))
	}
	return r
}
func (m *Machine) hasSuffix(s, p *Str) *Term {
	x, y := m.bytesOf(s), m.bytesOf(p)
	if len(y) > len(x) {
		return m.tt.F
	}
	r := m.tt.T
	for i := range y {
		r = m.tt.And(r, m.tt.Eq(x[len(x)-len(y)+i], y[i]))
	}
	return r
}

func (m *Machine) mapASCII(s *Str, lo, hi byte, delta int) (*Str, bool) {
	tt := m.tt
	var segs []Seg
	conv := func(bs []*Term) ([]*Term, bool) {
		out := make([]*Term, len(bs))
		for i, b := range bs {
			if m.branch(tt.Bin(OULe, tt.BV(0x80, 8), b)) {
				return nil, false
			}
			in := tt.And(tt.Bin(OULe, tt.BV(uint64(lo), 8), b), tt.Bin(OULe, b, tt.BV(uint64(hi), 8)))
			out[i] = tt.Ite(in, tt.Bin(OAdd, b, tt.BV(uint64(delta), 8)), b)
		}
		return out, true
	}
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			bs, ok := conv(m.litBytes(g.l))
			if !ok {
				return nil, false
			}
			segs = append(segs, Seg{k: sBytes, bs: bs})
		case sBytes, sSym:
			bs, ok := conv(g.bs)
			if !ok {
				return nil, false
			}
			segs = append(segs, Seg{k: g.k, bs: bs, t: g.t})
		case sItoa:
			segs = append(segs, g)
		default:
			unsup("case conversion of an opaque payload")
		}
	}
	return m.mkStr(segs), true
}

func init() {
	symStrings = map[string]func(m *Machine, c *callCtx) Value{
		"strings.Index": func(m *Machine, c *callCtx) Value {
			st, keep := m.sepTerms(c.str(1))
			as := m.atoms(c.str(0), keep)
			i := m.indexAtoms(as, 0, st)
			if i < 0 {
				return m.tt.Int(-1)
			}
			return m.strLen(m.fromAtoms(as[:i]))
		},
		"strings.IndexByte": func(m *Machine, c *callCtx) Value {
			b := c.term(1)
			as := m.atoms(c.str(0), b.isConst() && !isDigit(byte(b.val)))
			i := m.indexAtoms(as, 0, []*Term{b})
			if i < 0 {
				return m.tt.Int(-1)
			}
			return m.strLen(m.fromAtoms(as[:i]))
		},
		"strings.Contains": func(m *Machine, c *callCtx) Value {
			st, keep := m.sepTerms(c.str(1))
			as := m.atoms(c.str(0), keep)
			r := m.tt.F
			for i := 0; i+len(st) <= len(as); i++ {
				r = m.tt.Or(r, m.matchAt(as, i, st))
			}
			return r
		},
		"strings.HasPrefix": func(m *Machine, c *callCtx) Value { return m.hasPrefix(c.str(0), c.str(1)) },
		"strings.HasSuffix": func(m *Machine, c *callCtx) Value { return m.hasSuffix(c.str(0), c.str(1)) },
		"strings.TrimPrefix": func(m *Machine, c *callCtx) Value {
			if m.branch(m.hasPrefix(c.str(0), c.str(1))) {
				n := len(m.bytesOf(c.str(1)))
				s := c.str(0)
				if len(s.segs) > 0 && s.segs[0].k == sLit && len(s.segs[0].l) >= n {
					return m.mkStr(append([]Seg{{k: sLit, l: s.segs[0].l[n:]}}, s.segs[1:]...))
				}
				return m.sliceStr(s, n, -1)
			}
			return c.args[0]
		},
		"strings.TrimSuffix": func(m *Machine, c *callCtx) Value {
			s := c.str(0)
			if s.hasBlob() {
				if l, ok := c.str(1).lit(); ok && len(s.segs) > 0 {
					g := s.segs[len(s.segs)-1]
					if g.k == sLit && len(g.l) >= len(l) {
						if g.l[len(g.l)-len(l):] != l {
							return s
						}
						return m.mkStr(append(append([]Seg{}, s.segs[:len(s.segs)-1]...), Seg{k: sLit, l: g.l[:len(g.l)-len(l)]}))
					}
				}
			}
			if m.branch(m.hasSuffix(s, c.str(1))) {
				n := len(m.bytesOf(c.str(1)))
				bs := m.bytesOf(s)
				return m.sliceStr(s, 0, len(bs)-n)
			}
			return c.args[0]
		},
		"strings.Split":  func(m *Machine, c *callCtx) Value { return m.splitStr(c.str(0), c.str(1), -1) },
		"strings.SplitN": func(m *Machine, c *callCtx) Value { return m.splitStr(c.str(0), c.str(1), m.concInt(c.args[2])) },
		"strings.Cut": func(m *Machine, c *callCtx) Value {
			st, keep := m.sepTerms(c.str(1))
			as := m.atoms(c.str(0), keep)
			i := m.indexAtoms(as, 0, st)
			if i < 0 {
				return Tuple{c.args[0], emptyStr, m.tt.F}
			}
			return Tuple{m.fromAtoms(as[:i]), m.fromAtoms(as[i+len(st):]), m.tt.T}
		},
		"strings.ToLower": func(m *Machine, c *callCtx) Value {
			if r, ok := m.mapASCII(c.str(0), 'A', 'Z', 32); ok {
				return r
			}
			unsup("ToLower of non-ASCII symbolic text")
			return nil
		},
		"strings.ToUpper": func(m *Machine, c *callCtx) Value {
			if r, ok := m.mapASCII(c.str(0), 'a', 'z', -32); ok {
				return r
			}
			unsup("ToUpper of non-ASCII symbolic text")
			return nil
		},
		"strings.EqualFold": func(m *Machine, c *callCtx) Value {
			a, ok1 := m.mapASCII(c.str(0), 'A', 'Z', 32)
			b, ok2 := m.mapASCII(c.str(1), 'A', 'Z', 32)
			if ok1 && ok2 {
				return m.eqStr(a, b)
			}
			unsup("EqualFold of non-ASCII symbolic text")
			return nil
		},
		"strings.LastIndex": func(m *Machine, c *callCtx) Value {
			st, keep := m.sepTerms(c.str(1))
			as := m.atoms(c.str(0), keep)
			for i := len(as) - len(st); i >= 0; i-- {
				if m.branch(m.matchAt(as, i, st)) {
					return m.strLen(m.fromAtoms(as[:i]))
				}
			}
			return m.tt.Int(-1)
		},
		"strings.Count": func(m *Machine, c *callCtx) Value {
			st, keep := m.sepTerms(c.str(1))
			if len(st) != 1 {
				return c.real(m)
			}
			as := m.atoms(c.str(0), keep)
			n := m.tt.Int(0)
			for i := range as {
				n = m.tt.Bin(OAdd, n, m.tt.Ite(m.matchAt(as, i, st), m.tt.Int(1), m.tt.Int(0)))
			}
			return n
		},
		"strings.Repeat": func(m *Machine, c *callCtx) Value {
			n := m.concInt(c.args[1])
			var parts []*Str
			for i := 0; i < n; i++ {
				parts = append(parts, c.str(0))
			}
			return m.concat(parts...)
		},
	}
}

// strings.Builder and bytes.Buffer (write side)
type builderState struct{ s *Str }

func regBuilder() {
	st := func(m *Machine, v Value) *builderState {
		k := m.sideKey(v)
		if b, ok := m.side[k].(*builderState); ok {
			return b
		}
		b := &builderState{emptyStr}
		m.side[k] = b
		return b
	}
	for _, T := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		reg(T+".WriteString", func(m *Machine, c *callCtx) Value {
			b := st(m, c.args[0])
			b.s = m.concat(b.s, c.str(1))
			return Tuple{m.strLen(c.str(1)), Iface{}}
		})
		reg(T+".WriteByte", func(m *Machine, c *callCtx) Value {
			b := st(m, c.args[0])
			b.s = m.concat(b.s, m.mkStr([]Seg{{k: sBytes, bs: []*Term{c.term(1)}}}))
			return Iface{}
		})
		reg(T+".WriteRune", func(m *Machine, c *callCtx) Value {
			b := st(m, c.args[0])
			t := c.term(1)
			if !t.isConst() && m.branch(m.tt.Bin(OULt, t, m.tt.BV(0x80, 32))) {
				b.s = m.concat(b.s, m.mkStr([]Seg{{k: sBytes, bs: []*Term{m.tt.Extract(t, 8)}}}))
				return Tuple{m.tt.Int(1), Iface{}}
			}
			r := string(rune(int32(m.concretize(t))))
			b.s = m.concat(b.s, lit(r))
			return Tuple{m.tt.Int(int64(len(r))), Iface{}}
		})
		reg(T+".Write", func(m *Machine, c *callCtx) Value {
			b := st(m, c.args[0])
			s, _ := c.args[1].(*Slice)
			x := m.sliceToStr(s)
			b.s = m.concat(b.s, x)
			return Tuple{m.strLen(x), Iface{}}
		})
		reg(T+".String", func(m *Machine, c *callCtx) Value {
			if p, ok := c.args[0].(*Value); ok && p == nil {
				return lit("<nil>")
			}
			return st(m, c.args[0]).s
		})
		reg(T+".Len", func(m *Machine, c *callCtx) Value { return m.strLen(st(m, c.args[0]).s) })
		reg(T+".Reset", func(m *Machine, c *callCtx) Value { st(m, c.args[0]).s = emptyStr; return Tuple{} })
		reg(T+".Grow", func(m *Machine, c *callCtx) Value { return Tuple{} })
	}
	reg("(*bytes.Buffer).Bytes", func(m *Machine, c *callCtx) Value { return m.byteSlice(st(m, c.args[0]).s) })
}
