package main

import (
	"strconv"
	"strings"
)

// Strings are sequences of segments.
const (
	sLit   = iota // literal bytes
	sBytes        // fixed number of symbolic bytes
	sItoa         // decimal rendering of a signed 64-bit term
	sSym          // symbolic bytes, symbolic length t <= len(bs); bytes beyond the length are 0
	sBlob         // opaque payload (marshalled message or big payload)
)

type Blob struct {
	id   int
	size *Term
	msg  Value // marshalled message (Struct), or nil
	typ  string
	name string
}

type Seg struct {
	k    uint8
	l    string
	bs   []*Term
	t    *Term
	blob *Blob
}

type Str struct{ segs []Seg }

var emptyStr = &Str{}

func lit(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{[]Seg{{k: sLit, l: s}}}
}

func (s *Str) lit() (string, bool) {
	switch len(s.segs) {
	case 0:
		return "", true
	case 1:
		if s.segs[0].k == sLit {
			return s.segs[0].l, true
		}
	}
	return "", false
}

func (m *Machine) mkStr(segs []Seg) *Str {
	out := make([]Seg, 0, len(segs))
	for _, g := range segs {
		switch g.k {
		case sLit:
			if g.l == "" {
				continue
			}
		case sItoa:
			if g.t.isConst() {
				g = Seg{k: sLit, l: strconv.FormatInt(int64(g.t.val), 10)}
			}
		case sBytes:
			if len(g.bs) == 0 {
				continue
			}
			all := true
			for _, b := range g.bs {
				if !b.isConst() {
					all = false
					break
				}
			}
			if all {
				g = Seg{k: sLit, l: constBytes(g.bs)}
			}
		case sSym:
			if g.t.isConst() {
				n := int(g.t.val)
				out2 := m.mkStr([]Seg{{k: sBytes, bs: g.bs[:n]}})
				if len(out2.segs) == 0 {
					continue
				}
				g = out2.segs[0]
			}
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.k == sLit && g.k == sLit {
				p.l += g.l
				continue
			}
			if p.k == sBytes && g.k == sBytes {
				p.bs = append(append([]*Term{}, p.bs...), g.bs...)
				continue
			}
		}
		out = append(out, g)
	}
	return &Str{out}
}

func constBytes(bs []*Term) string {
	b := make([]byte, len(bs))
	for i, t := range bs {
		b[i] = byte(t.val)
	}
	return string(b)
}

func (m *Machine) concat(ss ...*Str) *Str {
	var segs []Seg
	for _, s := range ss {
		segs = append(segs, s.segs...)
	}
	return m.mkStr(segs)
}

func (m *Machine) litBytes(s string) []*Term {
	r := make([]*Term, len(s))
	for i := range r {
		r[i] = m.tt.BV(uint64(s[i]), 8)
	}
	return r
}

// digits of a signed 64-bit term, as a length term.
func (m *Machine) itoaLen(t *Term) *Term {
	tt := m.tt
	neg := tt.Bin(OSLt, t, tt.Int(0))
	abs := tt.Ite(neg, tt.Bin(OSub, tt.Int(0), t), t)
	n := tt.Int(19)
	p := uint64(1000000000000000000)
	for d := int64(18); d >= 1; d-- {
		n = tt.Ite(tt.Bin(OULt, abs, tt.BV(p, 64)), tt.Int(d), n)
		p /= 10
	}
	return tt.Bin(OAdd, n, tt.Ite(neg, tt.Int(1), tt.Int(0)))
}

func (m *Machine) strLen(s *Str) *Term {
	tt := m.tt
	r := tt.Int(0)
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			r = tt.Bin(OAdd, r, tt.Int(int64(len(g.l))))
		case sBytes:
			r = tt.Bin(OAdd, r, tt.Int(int64(len(g.bs))))
		case sItoa:
			r = tt.Bin(OAdd, r, m.itoaLen(g.t))
		case sSym:
			r = tt.Bin(OAdd, r, g.t)
		case sBlob:
			r = tt.Bin(OAdd, r, g.blob.size)
		}
	}
	return r
}

// expandItoa turns an itoa segment into symbolic digits, forking on sign and
// number of digits.
func (m *Machine) expandItoa(t *Term) *Str {
	if t.isConst() {
		return lit(strconv.FormatInt(int64(t.val), 10))
	}
	if r, ok := m.itoaMemo[t]; ok {
		return r
	}
	tt := m.tt
	var segs []Seg
	abs := t
	if m.branch(tt.Bin(OSLt, t, tt.Int(0))) {
		segs = append(segs, Seg{k: sLit, l: "-"})
		abs = tt.Bin(OSub, tt.Int(0), t)
	}
	p := uint64(10)
	d := 1
	for ; d < 19; d++ {
		if m.branch(tt.Bin(OULt, abs, tt.BV(p, 64))) {
			break
		}
		p *= 10
	}
	// digits as fresh variables: definitional
	sum := tt.Int(0)
	bs := make([]*Term, d)
	for i := 0; i < d; i++ {
		v := m.fresh("digit", 8)
		m.assumeDef(tt.And(tt.Bin(OULe, tt.BV('0', 8), v), tt.Bin(OULe, v, tt.BV('9', 8))))
		bs[i] = v
		dv := tt.ZExt(tt.Bin(OSub, v, tt.BV('0', 8)), 64)
		sum = tt.Bin(OAdd, tt.Bin(OMul, sum, tt.Int(10)), dv)
	}
	m.assumeDef(tt.Eq(sum, abs))
	segs = append(segs, Seg{k: sBytes, bs: bs})
	r := m.mkStr(segs)
	m.itoaMemo[t] = r
	return r
}

// fixSym forks on the length of a symbolic-length segment.
func (m *Machine) fixLen(g Seg) Seg {
	if g.t.isConst() {
		return Seg{k: sBytes, bs: g.bs[:g.t.val]}
	}
	for n := 0; n <= len(g.bs); n++ {
		if n == len(g.bs) || m.branch(m.tt.Eq(g.t, m.tt.Int(int64(n)))) {
			return Seg{k: sBytes, bs: g.bs[:n]}
		}
	}
	panic("unreachable")
}

// fixed returns an equivalent string without symbolic-length segments
// (blobs excepted). With itoa=true decimal renderings are expanded too.
func (m *Machine) fixed(s *Str, itoa bool) *Str {
	need := false
	for _, g := range s.segs {
		if g.k == sSym || (itoa && g.k == sItoa) {
			need = true
		}
	}
	if !need {
		return s
	}
	var segs []Seg
	for _, g := range s.segs {
		switch {
		case g.k == sSym:
			segs = append(segs, m.fixLen(g))
		case g.k == sItoa && itoa:
			segs = append(segs, m.expandItoa(g.t).segs...)
		default:
			segs = append(segs, g)
		}
	}
	return m.mkStr(segs)
}

// bytesOf returns the byte terms of a string (forks on lengths).
func (m *Machine) bytesOf(s *Str) []*Term {
	s = m.fixed(s, true)
	var out []*Term
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			out = append(out, m.litBytes(g.l)...)
		case sBytes:
			out = append(out, g.bs...)
		default:
			unsup("byte access to an opaque payload")
		}
	}
	return out
}

func isDigit(b byte) bool { return b >= '0' && b <= '9' }

// leadInt splits a canonical decimal integer off the front of s.
func leadInt(s string) (n int64, rest string, ok bool) {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	j := i
	for j < len(s) && isDigit(s[j]) {
		j++
	}
	if j == i || (s[i] == '0' && (j > i+1 || i == 1)) {
		return 0, "", false
	}
	v, err := strconv.ParseInt(s[:j], 10, 64)
	if err != nil {
		return 0, "", false
	}
	return v, s[j:], true
}

func (m *Machine) eqStr(a, b *Str) *Term {
	tt := m.tt
	if la, ok := a.lit(); ok {
		if lb, ok2 := b.lit(); ok2 {
			return tt.Bool(la == lb)
		}
	}
	if a == b {
		return tt.T
	}
	return m.eqSegs(append([]Seg{}, a.segs...), append([]Seg{}, b.segs...))
}

func (m *Machine) padded(g Seg) (bs []*Term, n *Term, ok bool) {
	switch g.k {
	case sLit:
		return m.litBytes(g.l), m.tt.Int(int64(len(g.l))), true
	case sBytes:
		return g.bs, m.tt.Int(int64(len(g.bs))), true
	case sSym:
		return g.bs, g.t, true
	}
	return nil, nil, false
}

func segStart(x []Seg) (byte, bool) { // first concrete byte of a segment list
	if len(x) == 0 {
		return 0, false
	}
	if x[0].k == sLit {
		return x[0].l[0], true
	}
	return 0, false
}

func (m *Machine) eqSegs(x, y []Seg) *Term {
	tt := m.tt
	acc := tt.T
	for {
		if acc.isFalse() {
			return acc
		}
		if len(x) == 0 && len(y) == 0 {
			return acc
		}
		if len(x) == 0 || len(y) == 0 {
			r := x
			if len(x) == 0 {
				r = y
			}
			return tt.And(acc, tt.Eq(m.strLen(&Str{r}), tt.Int(0)))
		}
		a, b := x[0], y[0]
		// single symbolic-length against fixed data: one formula
		if len(x) == 1 && len(y) == 1 && (a.k == sSym || b.k == sSym) {
			ba, na, ok1 := m.padded(a)
			bb, nb, ok2 := m.padded(b)
			if ok1 && ok2 {
				r := tt.Eq(na, nb)
				z := tt.BV(0, 8)
				for i := 0; i < len(ba) || i < len(bb); i++ {
					p, q := z, z
					if i < len(ba) {
						p = ba[i]
					}
					if i < len(bb) {
						q = bb[i]
					}
					r = tt.And(r, tt.Eq(p, q))
				}
				return tt.And(acc, r)
			}
		}
		switch {
		case a.k == sBlob || b.k == sBlob:
			if a.k == sBlob && b.k == sBlob {
				if a.blob == b.blob {
					x, y = x[1:], y[1:]
					continue
				}
				if a.blob.msg != nil && b.blob.msg != nil {
					if a.blob.typ != b.blob.typ {
						unsup("comparison of payloads of different types")
					}
					acc = tt.And(acc, m.protoEqual(a.blob.msg, b.blob.msg, a.blob.typ))
					x, y = x[1:], y[1:]
					continue
				}
			}
			// decide by length where possible
			ne := tt.Not(tt.Eq(m.strLen(&Str{x}), m.strLen(&Str{y})))
			if m.branch(ne) {
				return tt.F
			}
			// equal lengths: both empty?
			if m.branch(tt.Eq(m.strLen(&Str{x}), tt.Int(0))) {
				return acc
			}
			unsup("comparison with an opaque payload")
		case a.k == sItoa && b.k == sItoa:
			d1, ok1 := segStart(x[1:])
			d2, ok2 := segStart(y[1:])
			end1, end2 := len(x) == 1, len(y) == 1
			if (end1 || (ok1 && !isDigit(d1))) && (end2 || (ok2 && !isDigit(d2))) {
				acc = tt.And(acc, tt.Eq(a.t, b.t))
				x, y = x[1:], y[1:]
				continue
			}
			if a.t == b.t {
				x, y = x[1:], y[1:]
				continue
			}
			x = append(append([]Seg{}, m.expandItoa(a.t).segs...), x[1:]...)
			y = append(append([]Seg{}, m.expandItoa(b.t).segs...), y[1:]...)
		case (a.k == sItoa && b.k == sLit) || (a.k == sLit && b.k == sItoa):
			if a.k == sLit {
				x, y = y, x
				a, b = b, a
			}
			d1, ok1 := segStart(x[1:])
			clean := len(x) == 1 || (ok1 && !isDigit(d1))
			n, rest, ok := leadInt(b.l)
			if clean && (rest != "" || len(y) == 1 || !ok) {
				if !ok {
					// literal does not start with a canonical integer
					if b.l[0] != '-' && !isDigit(b.l[0]) || (len(y) == 1 || len(b.l) > 1) {
						return tt.F
					}
				} else {
					acc = tt.And(acc, tt.Eq(a.t, tt.Int(n)))
					x = x[1:]
					ny := append([]Seg{}, y[1:]...)
					if rest != "" {
						ny = append([]Seg{{k: sLit, l: rest}}, ny...)
					}
					y = ny
					continue
				}
			}
			x = append(append([]Seg{}, m.expandItoa(a.t).segs...), x[1:]...)
		case a.k == sItoa:
			x = append(append([]Seg{}, m.expandItoa(a.t).segs...), x[1:]...)
		case b.k == sItoa:
			y = append(append([]Seg{}, m.expandItoa(b.t).segs...), y[1:]...)
		case a.k == sSym:
			x = append([]Seg{m.fixLen(a)}, x[1:]...)
			if len(x[0].bs) == 0 {
				x = x[1:]
			}
		case b.k == sSym:
			y = append([]Seg{m.fixLen(b)}, y[1:]...)
			if len(y[0].bs) == 0 {
				y = y[1:]
			}
		default:
			if a.k == sLit && b.k == sLit {
				n := min(len(a.l), len(b.l))
				if a.l[:n] != b.l[:n] {
					return tt.F
				}
				x, y = advLit(x, n), advLit(y, n)
				continue
			}
			ba, _, _ := m.padded(a)
			bb, _, _ := m.padded(b)
			n := min(len(ba), len(bb))
			for i := 0; i < n; i++ {
				acc = tt.And(acc, tt.Eq(ba[i], bb[i]))
			}
			x, y = advLit(x, n), advLit(y, n)
		}
	}
}

func advLit(x []Seg, n int) []Seg {
	g := x[0]
	if g.k == sLit {
		if n == len(g.l) {
			return x[1:]
		}
		return append([]Seg{{k: sLit, l: g.l[n:]}}, x[1:]...)
	}
	if n == len(g.bs) {
		return x[1:]
	}
	return append([]Seg{{k: sBytes, bs: g.bs[n:]}}, x[1:]...)
}

// cmpStr: a < b
func (m *Machine) ltStr(a, b *Str) *Term {
	if la, ok := a.lit(); ok {
		if lb, ok2 := b.lit(); ok2 {
			return m.tt.Bool(la < lb)
		}
	}
	x, y := m.bytesOf(a), m.bytesOf(b)
	tt := m.tt
	r := tt.Bool(len(x) < len(y))
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		r = tt.Or(tt.Bin(OULt, x[i], y[i]), tt.And(tt.Eq(x[i], y[i]), r))
	}
	return r
}

// slice a string at concrete byte offsets (hi < 0: to the end).
func (m *Machine) sliceStr(s *Str, lo, hi int) *Str {
	if lo == 0 && hi < 0 {
		return s
	}
	if l, ok := s.lit(); ok {
		if hi < 0 {
			hi = len(l)
		}
		if lo > hi || hi > len(l) || lo < 0 {
			m.goPanicStr("runtime error: slice bounds out of range")
		}
		return lit(l[lo:hi])
	}
	bs := m.bytesOf(s)
	if hi < 0 {
		hi = len(bs)
	}
	if lo > hi || hi > len(bs) || lo < 0 {
		m.goPanicStr("runtime error: slice bounds out of range")
	}
	return m.mkStr([]Seg{{k: sBytes, bs: bs[lo:hi]}})
}

func (s *Str) hasBlob() bool {
	for _, g := range s.segs {
		if g.k == sBlob {
			return true
		}
	}
	return false
}

func (m *Machine) showStr(s *Str) string {
	var sb strings.Builder
	memo := map[*Term]uint64{}
	ev := func(t *Term) uint64 {
		if t.isConst() {
			return t.val
		}
		if m.model == nil {
			return '?'
		}
		return t.eval(m.model, memo)
	}
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			sb.WriteString(g.l)
		case sBytes:
			for _, b := range g.bs {
				sb.WriteByte(byte(ev(b)))
			}
		case sItoa:
			sb.WriteString(strconv.FormatInt(int64(ev(g.t)), 10))
		case sSym:
			n := int(ev(g.t))
			for i := 0; i < n && i < len(g.bs); i++ {
				sb.WriteByte(byte(ev(g.bs[i])))
			}
		case sBlob:
			sb.WriteString("<payload " + strconv.Itoa(g.blob.id) + " " + g.blob.typ + " " + strconv.FormatInt(int64(ev(g.blob.size)), 10) + "B>")
		}
	}
	return sb.String()
}

// ---- atoms: for searching and splitting

type atom struct {
	b   *Term // single byte
	seg *Seg  // itoa (non-negative digits) or blob
}

// atoms renders s as a list of bytes; itoa segments stay opaque when keepItoa
// (their sign having been decided), blobs stay opaque.
func (m *Machine) atoms(s *Str, keepItoa bool) []atom {
	s = m.fixed(s, !keepItoa)
	var out []atom
	for i := range s.segs {
		g := s.segs[i]
		switch g.k {
		case sLit:
			for j := 0; j < len(g.l); j++ {
				out = append(out, atom{b: m.tt.BV(uint64(g.l[j]), 8)})
			}
		case sBytes:
			for _, b := range g.bs {
				out = append(out, atom{b: b})
			}
		case sItoa:
			if m.branch(m.tt.Bin(OSLt, g.t, m.tt.Int(0))) {
				out = append(out, atom{b: m.tt.BV('-', 8)})
				for _, b := range m.bytesOf(m.expandItoa(g.t))[1:] {
					out = append(out, atom{b: b})
				}
			} else {
				gg := g
				out = append(out, atom{seg: &gg})
			}
		case sBlob:
			gg := g
			out = append(out, atom{seg: &gg})
		}
	}
	return out
}
func (m *Machine) fromAtoms(as []atom) *Str {
	var segs []Seg
	for _, a := range as {
		if a.b != nil {
			segs = append(segs, Seg{k: sBytes, bs: []*Term{a.b}})
		} else {
			segs = append(segs, *a.seg)
		}
	}
	// merge consecutive bytes first so that constant runs fold into literals
	var out []Seg
	for _, g := range segs {
		if n := len(out); n > 0 && g.k == sBytes && out[n-1].k == sBytes {
			pc := out[n-1].bs[0].isConst()
			if pc == g.bs[0].isConst() {
				out[n-1].bs = append(append([]*Term{}, out[n-1].bs...), g.bs...)
				continue
			}
		}
		out = append(out, g)
	}
	return m.mkStr(out)
}

func hasDigit(s string) bool { return strings.ContainsAny(s, "0123456789") }

// matchAt returns the condition that sep occurs at atom position i.
func (m *Machine) matchAt(as []atom, i int, sep []*Term) *Term {
	if i+len(sep) > len(as) {
		return m.tt.F
	}
	r := m.tt.T
	for j, c := range sep {
		a := as[i+j]
		if a.b == nil {
			if a.seg.k == sBlob {
				unsup("search in an opaque payload")
			}
			return m.tt.F // digits never match (sep has no digits)
		}
		r = m.tt.And(r, m.tt.Eq(a.b, c))
	}
	return r
}

// indexAtoms finds the first occurrence at or after from (forking), or -1.
func (m *Machine) indexAtoms(as []atom, from int, sep []*Term) int {
	for i := from; i+len(sep) <= len(as); i++ {
		if m.branch(m.matchAt(as, i, sep)) {
			return i
		}
	}
	return -1
}
