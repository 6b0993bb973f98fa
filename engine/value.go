package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool, integers, floats
//	*Str             strings
//	*Value           pointers (nil pointer = (*Value)(nil))
//	*SymElem         pointer to a symbolically indexed element
//	Struct, Array    aggregates (by value; copied on load/store)
//	*Slice           slices (nil slice = (*Slice)(nil))
//	*Map             maps
//	*Chan            channels
//	Iface            interface values (T == nil: nil interface)
//	*Closure         functions
//	Tuple            multiple results
//	*MapIter         range iterators
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type Slice struct {
	arr      []Value // backing array
	off, n   int
	capn     int
	opaque   *Str // byte slice whose content is an opaque/symbolic string
	elemType types.Type
}

type SymElem struct {
	slots []*Value
	idx   *Term
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn      *ssa.Function
	Env     []Value
	Native  func(m *Machine, th *Thread, args []Value) Value
	Name    string
	Builtin *ssa.Builtin
}

type mapEntry struct {
	k, v Value
	dead bool
}
type Map struct {
	id      int
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	nsym    int                  // live entries with symbolic keys
	live    int
}

type MapIter struct {
	m      *Map
	snap   []*mapEntry
	str    []*Term
	pos    int
	isStr  bool
	nondet bool
}

type Chan struct {
	id     int
	capn   int
	buf    []Value
	closed bool
	timer  *Timer
}

type engineErr string

func (e engineErr) Error() string { return string(e) }

// unsupported aborts the current path: nothing is concluded from it.
type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

// scalar sort of a basic type: width, isFloat, isSigned; w==0 for bool.
func basicSort(b *types.Basic) (w uint8, fp, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, false, true
	case types.Int16:
		return 16, false, true
	case types.Int8:
		return 8, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false
	case types.Uint32:
		return 32, false, false
	case types.Uint16:
		return 16, false, false
	case types.Uint8:
		return 8, false, false
	case types.Float64, types.UntypedFloat:
		return 64, true, true
	case types.Float32:
		return 32, true, true
	}
	unsup("basic type %v", b)
	return
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		if u.Info()&types.IsComplex != 0 {
			return Tuple{m.tt.FConst(0, 64), m.tt.FConst(0, 64)}
		}
		w, fp, _ := basicSort(u)
		if fp {
			return m.tt.FConst(0, w)
		}
		return m.tt.BV(0, w)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return (*Slice)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<20 {
			unsup("huge array")
		}
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero of %v", t)
	return nil
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

// storeInto assigns in place so that interior pointers stay valid.
func storeInto(dst *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*dst = copyVal(v)
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

func newVal(v Value) *Value { p := new(Value); *p = v; return p }

// ---- equality

func (m *Machine) eq(a, b Value) *Term {
	tt := m.tt
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.fp {
			return tt.FBin(OFEq, x, y)
		}
		return tt.Eq(x, y)
	case *Str:
		return m.eqStr(x, b.(*Str))
	case *Value:
		switch y := b.(type) {
		case *Value:
			return tt.Bool(x == y)
		}
		return tt.F
	case *Chan:
		y, _ := b.(*Chan)
		return tt.Bool(x == y)
	case *Map:
		y, _ := b.(*Map)
		return tt.Bool(x == y)
	case *Slice:
		// only comparison with nil is legal
		y, _ := b.(*Slice)
		return tt.Bool((x == nil) == (y == nil) && (x == nil || x == y))
	case *Closure:
		y, _ := b.(*Closure)
		return tt.Bool(x == y)
	case Struct:
		y := b.(Struct)
		r := tt.T
		for i := range x {
			r = tt.And(r, m.eq(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := tt.T
		for i := range x {
			r = tt.And(r, m.eq(x[i], y[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("interface compared with %T", b)
		}
		if x.T == nil || y.T == nil {
			return tt.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return tt.F
		}
		if !types.Comparable(x.T) {
			m.goPanicStr("runtime error: comparing uncomparable type " + x.T.String())
		}
		return m.eq(x.V, y.V)
	case nil:
		return tt.Bool(b == nil)
	}
	unsup("eq of %T", a)
	return nil
}

// keyString returns a canonical string for a concrete map key, or ok=false if
// the key is symbolic.
func (m *Machine) keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("t%d:%d", x.w, x.val), true
		}
		return "", false
	case *Str:
		if l, ok := x.lit(); ok {
			return "s" + l, true
		}
		return "", false
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := m.keyString(x.V)
		return "i" + m.eng.typeID(x.T) + "/" + k, ok
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := m.keyString(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), true
	case Array:
		return m.keyString(Struct(x))
	}
	unsup("map key %T", v)
	return "", false
}

func (m *Machine) newMap() *Map {
	m.nextID++
	return &Map{id: m.nextID, idx: map[string]*mapEntry{}}
}

// find locates the entry for key k, forking on symbolic key equality.
func (m *Machine) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	ks, conc := m.keyString(k)
	if conc {
		if e, ok := mp.idx[ks]; ok && !e.dead {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c := m.keyString(e.k); c {
				continue // concrete and different
			}
		}
		if m.branch(m.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if mp == nil {
		m.goPanicStr("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	mp.entries = append(mp.entries, e)
	mp.live++
	if ks, ok := m.keyString(k); ok {
		mp.idx[ks] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapKill(mp, e)
}
func (m *Machine) mapKill(mp *Map, e *mapEntry) {
	e.dead = true
	mp.live--
	if ks, ok := m.keyString(e.k); ok {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
	if len(mp.entries) > 32 && mp.live*2 < len(mp.entries) {
		n := make([]*mapEntry, 0, mp.live)
		for _, x := range mp.entries {
			if !x.dead {
				n = append(n, x)
			}
		}
		mp.entries = n
	}
}

// ---- describing values (traces, messages)

func (m *Machine) show(v Value, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch x := v.(type) {
	case *Term:
		if m.model != nil {
			val := x.eval(m.model, map[*Term]uint64{})
			if x.fp {
				c := &Term{op: OConst, w: x.w, fp: true, val: val}
				return fmt.Sprint(c.f64())
			}
			if x.w == 0 {
				return fmt.Sprint(val == 1)
			}
			return fmt.Sprint(sext(val, x.w))
		}
		return "term"
	case *Str:
		return fmt.Sprintf("%q", m.showStr(x))
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + m.show(*x, depth+1)
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, m.show(e, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return m.show(Struct(x), depth)
	case *Slice:
		if x == nil {
			return "[]"
		}
		if x.opaque != nil {
			return m.show(x.opaque, depth)
		}
		var p []string
		for i := 0; i < x.n && i < 20; i++ {
			p = append(p, m.show(x.arr[x.off+i], depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Map:
		if x == nil {
			return "map[]"
		}
		var p []string
		for _, e := range x.entries {
			if !e.dead {
				p = append(p, m.show(e.k, depth+1)+":"+m.show(e.v, depth+1))
			}
		}
		return "map[" + strings.Join(p, " ") + "]"
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return m.show(x.V, depth)
	}
	return fmt.Sprintf("%T", v)
}

func comparableT(t types.Type) bool { return types.Comparable(t) }
