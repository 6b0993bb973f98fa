package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fmt on symbolic values: the verbs the code uses, structurally; anything with
// no symbolic part is left to the real fmt.

func (m *Machine) fmtCall(T types.Type, V Value, name string) *Str {
	fn := m.eng.method(T, nil, name)
	if fn == nil {
		unsup("fmt: no %s", name)
	}
	if p, ok := V.(*Value); ok && p == nil {
		return lit("<nil>")
	}
	r, ok := m.callAtomic(&Closure{Fn: fn}, []Value{V}).(*Str)
	if !ok {
		unsup("fmt: %s result", name)
	}
	return r
}

var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String",
	types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func (m *Machine) fmtValue(a Iface, verb byte, depth int) *Str {
	if a.T == nil {
		if verb == 'v' || verb == 's' || verb == 'd' || verb == 'q' || verb == 'w' {
			if verb == 'v' || verb == 'w' {
				if verb == 'w' {
					return lit("%!w(<nil>)")
				}
				return lit("<nil>")
			}
			return lit("%!" + string(verb) + "(<nil>)")
		}
		return lit("<nil>")
	}
	if verb != 'd' && verb != 'T' && verb != 'p' {
		if types.Implements(a.T, errorIface) {
			s := m.fmtCall(a.T, a.V, "Error")
			if verb == 'q' {
				return m.quote(s)
			}
			return s
		}
		if types.Implements(a.T, stringerIface) {
			s := m.fmtCall(a.T, a.V, "String")
			if verb == 'q' {
				return m.quote(s)
			}
			return s
		}
	}
	if verb == 'T' {
		return lit(types.TypeString(a.T, func(p *types.Package) string { return p.Name() }))
	}
	switch x := a.V.(type) {
	case *Str:
		if verb == 'q' {
			return m.quote(x)
		}
		if verb == 'd' {
			return m.concat(lit("%!d(string="), x, lit(")"))
		}
		return x
	case *Term:
		b, ok := under(a.T).(*types.Basic)
		if !ok {
			unsup("fmt of %v", a.T)
		}
		if b.Info()&types.IsBoolean != 0 {
			if m.branch(x) {
				return lit("true")
			}
			return lit("false")
		}
		_, fp, signed := basicSort(b)
		if fp {
			if !x.isConst() {
				unsup("fmt of a symbolic float")
			}
			return lit(fmt.Sprint(x.f64()))
		}
		if verb == 's' {
			s := m.itoaStr(x)
			return m.concat(lit("%!s("+a.T.String()+"="), s, lit(")"))
		}
		if signed {
			return m.itoaStr(x)
		}
		return m.utoaStr(x)
	case *Slice:
		parts := []*Str{lit("[")}
		if x != nil {
			if x.opaque != nil {
				if verb == 's' {
					return x.opaque
				}
				return lit("<bytes>")
			}
			st := under(a.T).(*types.Slice)
			for i := 0; i < x.n; i++ {
				if i > 0 {
					parts = append(parts, lit(" "))
				}
				parts = append(parts, m.fmtElem(st.Elem(), x.arr[x.off+i], verb, depth+1))
			}
		}
		return m.concat(append(parts, lit("]"))...)
	case *Map:
		parts := []*Str{lit("map[")}
		mt := under(a.T).(*types.Map)
		if x != nil {
			first := true
			for _, e := range x.entries {
				if e.dead {
					continue
				}
				if !first {
					parts = append(parts, lit(" "))
				}
				first = false
				parts = append(parts, m.fmtElem(mt.Key(), e.k, verb, depth+1), lit(":"), m.fmtElem(mt.Elem(), e.v, verb, depth+1))
			}
		}
		return m.concat(append(parts, lit("]"))...)
	case *Value:
		if x == nil {
			return lit("<nil>")
		}
		if depth == 0 {
			if st, ok := (*x).(Struct); ok {
				pt := under(a.T).(*types.Pointer)
				return m.concat(lit("&"), m.fmtStruct(pt.Elem(), st, verb, depth+1))
			}
		}
		return lit("0xc000010000")
	case Struct:
		return m.fmtStruct(a.T, x, verb, depth+1)
	case Array:
		at := under(a.T).(*types.Array)
		parts := []*Str{lit("[")}
		for i, e := range x {
			if i > 0 {
				parts = append(parts, lit(" "))
			}
			parts = append(parts, m.fmtElem(at.Elem(), e, verb, depth+1))
		}
		return m.concat(append(parts, lit("]"))...)
	case *Chan, *Closure:
		return lit("0xc000020000")
	}
	unsup("fmt of %T", a.V)
	return nil
}

func (m *Machine) fmtElem(t types.Type, v Value, verb byte, depth int) *Str {
	if _, ok := under(t).(*types.Interface); ok {
		return m.fmtValue(v.(Iface), verb, depth)
	}
	return m.fmtValue(Iface{t, v}, verb, depth)
}

func (m *Machine) fmtStruct(t types.Type, s Struct, verb byte, depth int) *Str {
	if depth > 4 {
		return lit("{...}")
	}
	st := under(t).(*types.Struct)
	parts := []*Str{lit("{")}
	for i, v := range s {
		if i > 0 {
			parts = append(parts, lit(" "))
		}
		parts = append(parts, m.fmtElem(st.Field(i).Type(), v, verb, depth))
	}
	return m.concat(append(parts, lit("}"))...)
}

func (m *Machine) quote(s *Str) *Str {
	if l, ok := s.lit(); ok {
		return lit(strconv.Quote(l))
	}
	return m.concat(lit(`"`), s, lit(`"`))
}

func ifaces(v Value) []Iface {
	s, _ := v.(*Slice)
	if s == nil {
		return nil
	}
	var out []Iface
	for i := 0; i < s.n; i++ {
		out = append(out, s.arr[s.off+i].(Iface))
	}
	return out
}

func (m *Machine) sprintf(format string, args []Iface) (*Str, []Iface) {
	var parts []*Str
	var wrapped []Iface
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			parts = append(parts, lit(format[i:]))
			break
		}
		parts = append(parts, lit(format[i:i+j]))
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			parts = append(parts, lit("%!(NOVERB)"))
			break
		}
		flags, verb := format[i:k], format[k]
		i = k + 1
		if verb == '%' {
			parts = append(parts, lit("%"))
			continue
		}
		if n >= len(args) {
			parts = append(parts, lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		if flags == "" || flags == "+" || flags == "#" {
			switch verb {
			case 'v', 's', 'd', 'q', 'w', 'T', 't':
				if verb == 't' {
					verb = 'v'
				}
				parts = append(parts, m.fmtValue(a, verb, 0))
				continue
			}
		}
		// other verbs and widths: concrete scalars go to the real fmt
		switch x := a.V.(type) {
		case *Term:
			b, ok := under(a.T).(*types.Basic)
			if ok && !x.isConst() && verb == 'd' {
				// zero-padded width: the value fixes the digits
				x = m.tt.BV(m.concretize(x), x.w)
			}
			if ok && x.isConst() {
				f := "%" + flags + string(verb)
				w, fp, signed := basicSort(b)
				switch {
				case b.Info()&types.IsBoolean != 0:
					parts = append(parts, lit(fmt.Sprintf(f, x.val == 1)))
				case fp:
					parts = append(parts, lit(fmt.Sprintf(f, x.f64())))
				case signed:
					parts = append(parts, lit(fmt.Sprintf(f, sext(x.val, w))))
				default:
					parts = append(parts, lit(fmt.Sprintf(f, x.val)))
				}
				continue
			}
		case *Str:
			if l, ok := x.lit(); ok {
				parts = append(parts, lit(fmt.Sprintf("%"+flags+string(verb), l)))
				continue
			}
		}
		if verb == 'p' {
			parts = append(parts, lit("0xc000030000"))
			continue
		}
		unsup("fmt verb %%%s%c of %v", flags, verb, a.T)
	}
	if n < len(args) {
		parts = append(parts, lit("%!(EXTRA "))
		for k, a := range args[n:] {
			if k > 0 {
				parts = append(parts, lit(", "))
			}
			if a.T == nil {
				parts = append(parts, lit("<nil>"))
				continue
			}
			parts = append(parts, lit(a.T.String()+"="), m.fmtValue(a, 'v', 0))
		}
		parts = append(parts, lit(")"))
	}
	return m.concat(parts...), wrapped
}

func regFmt() {
	reg("fmt.Sprintf", func(m *Machine, c *callCtx) Value {
		s, _ := m.sprintf(c.lit(0), ifaces(c.args[1]))
		return s
	})
	sprint := func(m *Machine, args []Iface, ln bool) *Str {
		var parts []*Str
		prevStr := true
		for i, a := range args {
			_, isStr := a.V.(*Str)
			if a.T != nil && types.Implements(a.T, errorIface) {
				isStr = false
			}
			if i > 0 && (ln || (!isStr && !prevStr)) {
				parts = append(parts, lit(" "))
			}
			parts = append(parts, m.fmtValue(a, 'v', 0))
			prevStr = isStr
		}
		if ln {
			parts = append(parts, lit("\n"))
		}
		return m.concat(parts...)
	}
	reg("fmt.Sprint", func(m *Machine, c *callCtx) Value { return sprint(m, ifaces(c.args[0]), false) })
	reg("fmt.Sprintln", func(m *Machine, c *callCtx) Value { return sprint(m, ifaces(c.args[0]), true) })
	reg("fmt.Errorf", func(m *Machine, c *callCtx) Value {
		s, wrapped := m.sprintf(c.lit(0), ifaces(c.args[1]))
		switch len(wrapped) {
		case 0:
			return m.mkErr(s)
		case 1:
			w := wrapped[0]
			if w.T == nil || !types.Implements(w.T, errorIface) {
				w = Iface{}
			}
			t := m.lookupType("fmt", "wrapError")
			return Iface{types.NewPointer(t), newVal(Struct{s, w})}
		}
		t := m.lookupType("fmt", "wrapErrors")
		var vs []Value
		for _, w := range wrapped {
			vs = append(vs, w)
		}
		return Iface{types.NewPointer(t), newVal(Struct{s, m.mkSlice(types.Universe.Lookup("error").Type(), vs)})}
	})
	// what is printed to a file is of no interest; any other writer gets the text
	fp := func(m *Machine, c *callCtx, s *Str) Value {
		w := c.args[0].(Iface)
		if w.T == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		if fn := m.eng.method(w.T, nil, "WriteString"); fn != nil {
			m.callAtomic(&Closure{Fn: fn}, []Value{w.V, s})
		} else if fn := m.eng.method(w.T, nil, "Write"); fn != nil {
			m.callAtomic(&Closure{Fn: fn}, []Value{w.V, &Slice{opaque: s, elemType: types.Typ[types.Byte]}})
		} else {
			return m.stubSig(c.fn.Signature)
		}
		return Tuple{m.strLen(s), Iface{}}
	}
	file := func(c *callCtx) bool {
		i := c.args[0].(Iface)
		return i.T != nil && types.TypeString(i.T, nil) == "*os.File"
	}
	reg("fmt.Fprintf", func(m *Machine, c *callCtx) Value {
		if file(c) {
			return m.stubSig(c.fn.Signature)
		}
		s, _ := m.sprintf(c.lit(1), ifaces(c.args[2]))
		return fp(m, c, s)
	})
	for _, n := range []string{"Fprint", "Fprintln"} {
		in := intrinsics["fmt.S"+n[1:]]
		reg("fmt."+n, func(m *Machine, c *callCtx) Value {
			if file(c) {
				return m.stubSig(c.fn.Signature)
			}
			d := *c
			d.args = c.args[1:]
			return fp(m, c, in(m, &d).(*Str))
		})
	}
}
