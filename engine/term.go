package main

import (
	"fmt"
	"math"
	"strings"
)

// Terms: hash-consed SMT terms with constant folding. Sorts: Bool (w==0),
// bit-vectors (w in 1..64), floats (kind F, w 32/64).

type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OZExt
	OSExt
	OExtract // low bits only: args[0], to width w starting at bit val
	OFEq
	OFLt
	OFLe
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFIsNaN
	OBVToF // reinterpret bits
	OSToF  // signed int to float
	OUToF
	OFToS // float to signed bv (RTZ)
	OFToF // float precision change
)

type Term struct {
	hi       uint64 // input variables: known upper bound (0: none)
	op       Op
	w        uint8 // 0 = Bool
	fp       bool
	args     []*Term
	val      uint64
	name     string
	id       int
	emitted  int    // solver session in which it has been defined
	rlo, rhi uint64 // unsigned range, once computed
	rok      bool
	ik       uint8 // translatable to integers: 1 yes, 2 no
}

type termKey struct {
	op      Op
	w       uint8
	fp      bool
	a, b, c int
	val     uint64
	name    string
}

type TermTable struct {
	m    map[termKey]*Term
	n    int
	vars []*Term
	T, F *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{m: map[termKey]*Term{}}
	tt.T = tt.mk(OConst, 0, false, 1, "")
	tt.F = tt.mk(OConst, 0, false, 0, "")
	return tt
}

func (tt *TermTable) mk(op Op, w uint8, fp bool, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, fp: fp, val: val, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, fp: fp, args: args, val: val, name: name, id: tt.n}
	tt.n++
	tt.m[k] = t
	if op == OVar {
		tt.vars = append(tt.vars, t)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	v &= mask(w)
	if v>>(w-1)&1 == 1 {
		v |= ^mask(w)
	}
	return int64(v)
}

func (tt *TermTable) BV(v uint64, w uint8) *Term { return tt.mk(OConst, w, false, v&mask(w), "") }
func (tt *TermTable) Int(v int64) *Term          { return tt.BV(uint64(v), 64) }
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTable) FConst(f float64, w uint8) *Term {
	if w == 32 {
		return tt.mk(OConst, 32, true, uint64(math.Float32bits(float32(f))), "")
	}
	return tt.mk(OConst, 64, true, math.Float64bits(f), "")
}
func (tt *TermTable) Var(name string, w uint8) *Term { return tt.mk(OVar, w, false, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) f64() float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tt.mk(ONot, 0, false, 0, "", a)
}
func (tt *TermTable) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tt.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tt.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, false, 0, "", a, b)
}
func (tt *TermTable) Or(a, b *Term) *Term {
	return tt.Not(tt.And(tt.Not(a), tt.Not(b)))
}
func (tt *TermTable) Implies(a, b *Term) *Term { return tt.Or(tt.Not(a), b) }
func (tt *TermTable) AndN(ts ...*Term) *Term {
	r := tt.T
	for _, t := range ts {
		r = tt.And(r, t)
	}
	return r
}
func (tt *TermTable) OrN(ts ...*Term) *Term {
	r := tt.F
	for _, t := range ts {
		r = tt.Or(r, t)
	}
	return r
}
func (tt *TermTable) Eq(a, b *Term) *Term {
	if a.w > 1 && !a.fp && !b.fp && a.w == b.w {
		al, ah := a.rng()
		bl, bh := b.rng()
		if ah < bl || bh < al {
			return tt.F
		}
	}
	if a == b && !a.fp {
		return tt.T
	}
	if a.w != b.w || a.fp != b.fp {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return tt.Ite(a.args[0], tt.Eq(x, b), tt.Eq(y, b))
			}
		case OZExt:
			s := a.args[0]
			if b.val&^mask(s.w) != 0 {
				return tt.F
			}
			return tt.Eq(s, tt.BV(b.val, s.w))
		case OSExt:
			s := a.args[0]
			if uint64(sext(b.val, s.w))&mask(b.w) != b.val {
				return tt.F
			}
			return tt.Eq(s, tt.BV(b.val, s.w))
		case OAdd:
			if a.args[1].isConst() {
				return tt.Eq(a.args[0], tt.BV(b.val-a.args[1].val, b.w))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, false, 0, "", a, b)
}
func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 && !a.fp {
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	return tt.mk(OIte, a.w, a.fp, 0, "", c, a, b)
}

func foldBin(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	sa, sb := sext(a, w), sext(b, w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			if sa >= 0 {
				return m, true
			}
			return 1, true
		}
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OSRem:
		if b == 0 {
			return a, true
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m, true
	case OULt:
		return b2u(a < b), true
	case OULe:
		return b2u(a <= b), true
	case OSLt:
		return b2u(sa < sb), true
	case OSLe:
		return b2u(sa <= sb), true
	}
	return 0, false
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w || a.fp || b.fp {
		panic(fmt.Sprintf("Bin sort mismatch op %d %d %d", op, a.w, b.w))
	}
	cmp := op == OULt || op == OULe || op == OSLt || op == OSLe
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, a.val, b.val, a.w); ok {
			if cmp {
				return tt.Bool(v == 1)
			}
			return tt.BV(v, a.w)
		}
	}
	w := a.w
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return tt.Bin(OAdd, a.args[0], tt.BV(a.args[1].val+b.val, w))
			}
		}
	case OSub:
		if b.isConst() {
			return tt.Bin(OAdd, a, tt.BV(-b.val, w))
		}
		if a == b {
			return tt.BV(0, w)
		}
		// (x + c) - x  and  x - (x + c)
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if b.op == OAdd && b.args[0] == a {
			return tt.Bin(OSub, tt.BV(0, w), b.args[1])
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv, OSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val > 1 && sext(b.val, w) > 0 {
			// (x*k*d + c) / d, where nothing overflows
			if _, ah := a.rng(); ah <= mask(w)>>1 {
				x, c := a, uint64(0)
				if x.op == OAdd && x.args[1].isConst() {
					x, c = x.args[0], x.args[1].val
				}
				if x.op == OMul && x.args[1].isConst() && x.args[1].val%b.val == 0 {
					if _, xh := x.rng(); xh <= mask(w)>>1 && c <= mask(w)>>1 {
						return tt.Bin(OAdd, tt.Bin(OMul, x.args[0], tt.BV(x.args[1].val/b.val, w)), tt.BV(c/b.val, w))
					}
				}
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if b.val&(b.val+1) == 0 {
				if _, ah := a.rng(); ah <= b.val {
					return a
				}
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OULt:
		if a == b {
			return tt.F
		}
		if b.isConst() && b.val == 0 {
			return tt.F
		}
	case OULe:
		if a == b {
			return tt.T
		}
		if a.isConst() && a.val == 0 {
			return tt.T
		}
	case OSLt:
		if a == b {
			return tt.F
		}
	case OSLe:
		if a == b {
			return tt.T
		}
	}
	if cmp && w > 1 {
		al, ah := a.rng()
		bl, bh := b.rng()
		half := mask(w) >> 1
		if op == OULt || op == OULe || (ah <= half && bh <= half) {
			if op == OULt || op == OSLt {
				if ah < bl {
					return tt.T
				}
				if al >= bh {
					return tt.F
				}
			} else {
				if ah <= bl {
					return tt.T
				}
				if al > bh {
					return tt.F
				}
			}
		}
	}
	if cmp {
		// push constants through zero/sign extension for common length compares
		if a.op == OZExt && b.isConst() && (op == OULt || op == OULe || ((op == OSLt || op == OSLe) && sext(b.val, w) >= 0)) && b.val <= mask(a.args[0].w) {
			uop := OULt
			if op == OULe || op == OSLe {
				uop = OULe
			}
			return tt.Bin(uop, a.args[0], tt.BV(b.val, a.args[0].w))
		}
		return tt.mk(op, 0, false, 0, "", a, b)
	}
	return tt.mk(op, w, false, 0, "", a, b)
}

// bounded records an upper bound of an input variable. The assumption itself
// must have been added before, or it would be folded away.
func (t *Term) bounded(hi uint64) { t.hi, t.rok, t.ik = hi, false, 0 }

// rng is an unsigned interval that contains every value t can take under the
// assumptions made when its input variables were created.
func (t *Term) rng() (uint64, uint64) {
	if t.op == OConst {
		return t.val, t.val
	}
	if t.rok {
		return t.rlo, t.rhi
	}
	lo, hi := t.rng0()
	t.rlo, t.rhi, t.rok = lo, hi, true
	return lo, hi
}

func (t *Term) rng0() (uint64, uint64) {
	full := mask(t.w)
	if t.w == 0 {
		full = 1
	}
	if t.fp {
		return 0, full
	}
	switch t.op {
	case OVar:
		if t.hi > 0 {
			return 0, t.hi
		}
	case OZExt:
		if t.args[0].w > 0 {
			return t.args[0].rng()
		}
	case OIte:
		al, ah := t.args[1].rng()
		bl, bh := t.args[2].rng()
		return min(al, bl), max(ah, bh)
	case OAdd:
		al, ah := t.args[0].rng()
		bl, bh := t.args[1].rng()
		if ah+bh >= ah && ah+bh <= full {
			return al + bl, ah + bh
		}
	case OMul:
		al, ah := t.args[0].rng()
		bl, bh := t.args[1].rng()
		if ah == 0 || bh == 0 {
			return 0, 0
		}
		if (ah*bh)/ah == bh && ah*bh <= full {
			return al * bl, ah * bh
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			_, ah := t.args[0].rng()
			return 0, min(ah, t.args[1].val-1)
		}
	case OUDiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			al, ah := t.args[0].rng()
			return al / t.args[1].val, ah / t.args[1].val
		}
	case OBAnd:
		_, ah := t.args[0].rng()
		_, bh := t.args[1].rng()
		return 0, min(ah, bh)
	}
	return 0, full
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.BV(^a.val, a.w)
	}
	return tt.mk(OBNot, a.w, false, 0, "", a)
}
func (tt *TermTable) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(a, w)
	}
	if a.isConst() {
		return tt.BV(a.val, w)
	}
	if a.op == OExtract && a.args[0].w == w {
		if _, h := a.args[0].rng(); h <= mask(a.w) {
			return a.args[0]
		}
	}
	return tt.mk(OZExt, w, false, 0, "", a)
}
func (tt *TermTable) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(a, w)
	}
	if a.isConst() {
		return tt.BV(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OExtract && a.args[0].w == w {
		if _, h := a.args[0].rng(); h <= mask(a.w)>>1 {
			return a.args[0]
		}
	}
	return tt.mk(OSExt, w, false, 0, "", a)
}

// Extract the low w bits.
func (tt *TermTable) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.BV(a.val, w)
	}
	if a.op == OZExt || a.op == OSExt {
		s := a.args[0]
		if s.w == w {
			return s
		}
		if s.w > w {
			return tt.Extract(s, w)
		}
		if a.op == OZExt {
			return tt.ZExt(s, w)
		}
		return tt.SExt(s, w)
	}
	return tt.mk(OExtract, w, false, 0, "", a)
}

func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	cmp := op == OFEq || op == OFLt || op == OFLe
	if a.isConst() && b.isConst() {
		x, y := a.f64(), b.f64()
		switch op {
		case OFEq:
			return tt.Bool(x == y)
		case OFLt:
			return tt.Bool(x < y)
		case OFLe:
			return tt.Bool(x <= y)
		}
		return tt.FConst(foldF(op, x, y), a.w)
	}
	if cmp {
		return tt.mk(op, 0, false, 0, "", a, b)
	}
	return tt.mk(op, a.w, true, 0, "", a, b)
}
func foldF(op Op, x, y float64) float64 {
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("foldF")
}
func (tt *TermTable) FUn(op Op, a *Term) *Term {
	if a.isConst() {
		switch op {
		case OFNeg:
			return tt.FConst(-a.f64(), a.w)
		case OFIsNaN:
			return tt.Bool(math.IsNaN(a.f64()))
		}
	}
	if op == OFIsNaN {
		return tt.mk(op, 0, false, 0, "", a)
	}
	return tt.mk(op, a.w, true, 0, "", a)
}
func (tt *TermTable) BVToF(a *Term) *Term {
	if a.isConst() {
		return tt.mk(OConst, a.w, true, a.val, "")
	}
	return tt.mk(OBVToF, a.w, true, 0, "", a)
}
func (tt *TermTable) IToF(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		if signed {
			return tt.FConst(float64(sext(a.val, a.w)), w)
		}
		return tt.FConst(float64(a.val), w)
	}
	op := OUToF
	if signed {
		op = OSToF
	}
	return tt.mk(op, w, true, 0, "", a)
}
func (tt *TermTable) FToS(a *Term, w uint8) *Term {
	if a.isConst() {
		return tt.BV(uint64(int64(a.f64())), w)
	}
	return tt.mk(OFToS, w, false, 0, "", a)
}
func (tt *TermTable) FToF(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.FConst(a.f64(), w)
	}
	return tt.mk(OFToF, w, true, 0, "", a)
}

// ---- evaluation under a model

type Model map[string]uint64

func (t *Term) eval(m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.name] & func() uint64 {
			if t.w == 0 {
				return 1
			}
			return mask(t.w)
		}()
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	e := func(i int) uint64 { return t.args[i].eval(m, memo) }
	f := func(i int) float64 {
		v := e(i)
		if t.args[i].w == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	fbits := func(x float64) uint64 {
		if t.w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(x)
	}
	switch t.op {
	case ONot:
		r = e(0) ^ 1
	case OAnd:
		r = e(0) & e(1)
	case OOr:
		r = e(0) | e(1)
	case OEq:
		if t.args[0].fp {
			x, y := f(0), f(1)
			r = b2u(e(0) == e(1) || (math.IsNaN(x) && math.IsNaN(y)))
		} else {
			r = b2u(e(0) == e(1))
		}
	case OIte:
		if e(0) == 1 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OBNot:
		r = ^e(0) & mask(t.w)
	case OZExt:
		r = e(0)
	case OSExt:
		r = uint64(sext(e(0), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = e(0) & mask(t.w)
	case OFEq:
		r = b2u(f(0) == f(1))
	case OFLt:
		r = b2u(f(0) < f(1))
	case OFLe:
		r = b2u(f(0) <= f(1))
	case OFAdd, OFSub, OFMul, OFDiv:
		r = fbits(foldF(t.op, f(0), f(1)))
	case OFNeg:
		r = fbits(-f(0))
	case OFIsNaN:
		r = b2u(math.IsNaN(f(0)))
	case OBVToF:
		r = e(0)
	case OSToF:
		r = fbits(float64(sext(e(0), t.args[0].w)))
	case OUToF:
		r = fbits(float64(e(0)))
	case OFToS:
		r = uint64(int64(f(0))) & mask(t.w)
	case OFToF:
		r = fbits(f(0))
	default:
		v, ok := foldBin(t.op, e(0), e(1), t.args[0].w)
		if !ok {
			panic("eval op")
		}
		r = v
	}
	memo[t] = r
	return r
}

// ---- SMT-LIB printing

func (t *Term) sortStr() string {
	if t.fp {
		if t.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.fp {
			if t.w == 32 {
				return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		}
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFIsNaN: "fp.isNaN"}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OZExt:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.args[0].w)
	case OSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.args[0].w)
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.w-1)
	case OBVToF:
		if t.w == 32 {
			sb.WriteString("(_ to_fp 8 24)")
		} else {
			sb.WriteString("(_ to_fp 11 53)")
		}
	case OSToF, OFToF:
		if t.w == 32 {
			sb.WriteString("(_ to_fp 8 24) RNE")
		} else {
			sb.WriteString("(_ to_fp 11 53) RNE")
		}
	case OUToF:
		if t.w == 32 {
			sb.WriteString("(_ to_fp_unsigned 8 24) RNE")
		} else {
			sb.WriteString("(_ to_fp_unsigned 11 53) RNE")
		}
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}
