package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Structural model of protobuf messages: sizes, (un)marshalling, cloning and
// equality are computed from the generated Go struct and its field tags.

type pfield struct {
	idx    int
	num    int
	wire   string // varint, zigzag32, fixed64, fixed32, bytes, group
	rep    bool
	packed bool
	opt    bool // explicit presence (pointer scalar)
	t      types.Type
	isMap  bool
	key    *pfield
	val    *pfield
	oneof  bool
}

type pmsg struct {
	named  *types.Named
	st     *types.Struct
	fields []pfield
}

var pmsgCache = map[*types.Named]*pmsg{}

func parseTag(tag string) (wire string, num int, rep, packed bool) {
	p := strings.Split(tag, ",")
	wire = p[0]
	if len(p) > 1 {
		num, _ = strconv.Atoi(p[1])
	}
	for _, x := range p[2:] {
		switch x {
		case "rep":
			rep = true
		case "packed":
			packed = true
		}
	}
	return
}

func (e *Engine) pmsg(t types.Type) *pmsg {
	n, ok := t.(*types.Named)
	if !ok || !isProtoMsg(n) {
		return nil
	}
	e.tidMu.Lock()
	defer e.tidMu.Unlock()
	if p, ok := pmsgCache[n]; ok {
		return p
	}
	st := n.Underlying().(*types.Struct)
	p := &pmsg{named: n, st: st}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		ft := st.Field(i).Type()
		if tag.Get("protobuf_oneof") != "" {
			p.fields = append(p.fields, pfield{idx: i, oneof: true, t: ft})
			continue
		}
		pt := tag.Get("protobuf")
		if pt == "" {
			continue
		}
		f := pfield{idx: i, t: ft}
		f.wire, f.num, f.rep, f.packed = parseTag(pt)
		if mt, ok := ft.Underlying().(*types.Map); ok {
			f.isMap = true
			k := pfield{t: mt.Key()}
			k.wire, k.num, _, _ = parseTag(tag.Get("protobuf_key"))
			v := pfield{t: mt.Elem()}
			v.wire, v.num, _, _ = parseTag(tag.Get("protobuf_val"))
			f.key, f.val = &k, &v
		} else if ptr, ok := ft.(*types.Pointer); ok {
			if _, isB := ptr.Elem().Underlying().(*types.Basic); isB {
				f.opt = true
			}
		}
		p.fields = append(p.fields, f)
	}
	pmsgCache[n] = p
	return p
}

func (m *Machine) varintLen(v *Term) *Term {
	tt := m.tt
	r := tt.Int(10)
	for k := int64(9); k >= 1; k-- {
		r = tt.Ite(tt.Bin(OULt, v, tt.BV(uint64(1)<<(7*uint(k)), 64)), tt.Int(k), r)
	}
	return r
}

func (m *Machine) tagLen(num int) *Term { return m.varintLen(m.tt.Int(int64(num) << 3)) }

func (m *Machine) add(ts ...*Term) *Term {
	r := m.tt.Int(0)
	for _, t := range ts {
		r = m.tt.Bin(OAdd, r, t)
	}
	return r
}

// scalarSize: encoded size of the value without the tag, and whether it is the
// proto3 default.
func (m *Machine) scalarSize(f *pfield, t types.Type, v Value) (size, zero *Term) {
	tt := m.tt
	switch x := v.(type) {
	case *Term:
		switch f.wire {
		case "fixed64":
			return tt.Int(8), m.zeroBits(x)
		case "fixed32":
			return tt.Int(4), m.zeroBits(x)
		case "zigzag32", "zigzag64":
			unsup("zigzag field")
		}
		if x.w == 0 {
			return tt.Int(1), tt.Not(x)
		}
		var w *Term
		b := t.Underlying().(*types.Basic)
		_, _, signed := basicSort(b)
		if signed {
			w = tt.SExt(x, 64)
		} else {
			w = tt.ZExt(x, 64)
		}
		return m.varintLen(w), tt.Eq(x, tt.BV(0, x.w))
	case *Str:
		n := m.strLen(x)
		return m.add(m.varintLen(n), n), tt.Eq(n, tt.Int(0))
	case *Slice: // bytes
		n := tt.Int(0)
		if x != nil {
			if x.opaque != nil {
				n = m.strLen(x.opaque)
			} else {
				n = tt.Int(int64(x.n))
			}
		}
		return m.add(m.varintLen(n), n), tt.Eq(n, tt.Int(0))
	case *Value: // message
		n := tt.Int(0)
		if x != nil {
			n = m.msgSize(*x, t.(*types.Pointer).Elem())
		}
		return m.add(m.varintLen(n), n), tt.Bool(x == nil)
	}
	unsup("proto scalar %T", v)
	return nil, nil
}

func (m *Machine) zeroBits(x *Term) *Term {
	if x.fp {
		return m.tt.Eq(m.fbits(x, x.w).(*Term), m.tt.BV(0, x.w))
	}
	return m.tt.Eq(x, m.tt.BV(0, x.w))
}

func (m *Machine) msgSize(v Value, t types.Type) *Term {
	p := m.eng.pmsg(t)
	if p == nil {
		unsup("size of %v", t)
	}
	s := v.(Struct)
	tt := m.tt
	total := tt.Int(0)
	for i := range p.fields {
		f := &p.fields[i]
		fv := s[f.idx]
		switch {
		case f.oneof:
			ifc := fv.(Iface)
			if ifc.T == nil {
				continue
			}
			w := ifc.T.(*types.Pointer).Elem().Underlying().(*types.Struct)
			var g pfield
			g.wire, g.num, _, _ = parseTag(reflect.StructTag(w.Tag(0)).Get("protobuf"))
			sz, _ := m.scalarSize(&g, w.Field(0).Type(), (*ifc.V.(*Value)).(Struct)[0])
			total = m.add(total, m.tagLen(g.num), sz)
		case f.isMap:
			mp := fv.(*Map)
			if mp == nil {
				continue
			}
			for _, e := range mp.entries {
				if e.dead {
					continue
				}
				ks, _ := m.scalarSize(f.key, f.key.t, e.k)
				vs, _ := m.scalarSize(f.val, f.val.t, e.v)
				es := m.add(tt.Int(2), ks, vs)
				total = m.add(total, m.tagLen(f.num), m.varintLen(es), es)
			}
		case f.rep:
			sl := fv.(*Slice)
			if sl == nil {
				continue
			}
			et := f.t.Underlying().(*types.Slice).Elem()
			if f.packed {
				body := tt.Int(0)
				for k := 0; k < sl.n; k++ {
					x, _ := m.scalarSize(f, et, sl.arr[sl.off+k])
					body = m.add(body, x)
				}
				if sl.n > 0 {
					total = m.add(total, m.tagLen(f.num), m.varintLen(body), body)
				}
				continue
			}
			for k := 0; k < sl.n; k++ {
				x, _ := m.scalarSize(f, et, sl.arr[sl.off+k])
				total = m.add(total, m.tagLen(f.num), x)
			}
		case f.opt:
			pv := fv.(*Value)
			if pv == nil {
				continue
			}
			sz, _ := m.scalarSize(f, f.t.(*types.Pointer).Elem(), *pv)
			total = m.add(total, m.tagLen(f.num), sz)
		default:
			sz, zero := m.scalarSize(f, f.t, fv)
			total = m.add(total, tt.Ite(zero, tt.Int(0), m.add(m.tagLen(f.num), sz)))
		}
	}
	return total
}

// utf8Bad reports whether a literal string field is not valid UTF-8 (symbolic
// strings are assumed valid: gRPC rejects requests with invalid ones).
func (m *Machine) utf8Bad(v Value, t types.Type) bool {
	p := m.eng.pmsg(t)
	s := v.(Struct)
	badStr := func(x Value) bool {
		if st, ok := x.(*Str); ok {
			if l, ok := st.lit(); ok {
				return !utf8.ValidString(l)
			}
		}
		return false
	}
	for i := range p.fields {
		f := &p.fields[i]
		fv := s[f.idx]
		switch {
		case f.oneof:
		case f.isMap:
			if mp := fv.(*Map); mp != nil {
				for _, e := range mp.entries {
					if e.dead {
						continue
					}
					if badStr(e.k) || badStr(e.v) {
						return true
					}
					if pv, ok := e.v.(*Value); ok && pv != nil && m.utf8Bad(*pv, f.val.t.(*types.Pointer).Elem()) {
						return true
					}
				}
			}
		case f.rep:
			if sl := fv.(*Slice); sl != nil {
				et := f.t.Underlying().(*types.Slice).Elem()
				for k := 0; k < sl.n; k++ {
					x := sl.arr[sl.off+k]
					if badStr(x) {
						return true
					}
					if pv, ok := x.(*Value); ok && pv != nil && m.utf8Bad(*pv, et.(*types.Pointer).Elem()) {
						return true
					}
				}
			}
		default:
			if badStr(fv) {
				return true
			}
			if pv, ok := fv.(*Value); ok && pv != nil && !f.opt && m.utf8Bad(*pv, f.t.(*types.Pointer).Elem()) {
				return true
			}
		}
	}
	return false
}

// cloneMsg deep-copies a message (only its protobuf fields).
func (m *Machine) cloneMsg(v Value, t types.Type, normalise bool) Value {
	p := m.eng.pmsg(t)
	if p == nil {
		unsup("clone of %v", t)
	}
	s := v.(Struct)
	out := m.zero(t).(Struct)
	one := func(x Value, et types.Type) Value {
		switch y := x.(type) {
		case *Value:
			if y == nil {
				if normalise {
					if pt, ok := et.(*types.Pointer); ok && isProtoMsg(pt.Elem()) {
						return newVal(m.zero(pt.Elem())) // nil element becomes an empty message
					}
				}
				return y
			}
			pt := et.(*types.Pointer)
			if isProtoMsg(pt.Elem()) {
				return newVal(m.cloneMsg(*y, pt.Elem(), normalise))
			}
			return newVal(*y)
		case *Slice: // bytes
			if y == nil {
				return y
			}
			if y.opaque != nil {
				return &Slice{opaque: y.opaque, elemType: y.elemType}
			}
			return m.mkSlice(y.elemType, append([]Value{}, y.arr[y.off:y.off+y.n]...))
		}
		return x
	}
	for i := range p.fields {
		f := &p.fields[i]
		fv := s[f.idx]
		switch {
		case f.oneof:
			ifc := fv.(Iface)
			if ifc.T != nil {
				w := ifc.T.(*types.Pointer).Elem()
				in := (*ifc.V.(*Value)).(Struct)
				nw := m.zero(w).(Struct)
				nw[0] = one(in[0], w.Underlying().(*types.Struct).Field(0).Type())
				out[f.idx] = Iface{ifc.T, newVal(nw)}
			}
		case f.isMap:
			mp := fv.(*Map)
			if mp == nil || (normalise && mp.live == 0) {
				continue
			}
			n := m.newMap()
			for _, e := range mp.entries {
				if e.dead {
					continue
				}
				ne := &mapEntry{k: e.k, v: one(e.v, f.val.t)}
				n.entries = append(n.entries, ne)
				n.live++
				if ks, ok := m.keyString(e.k); ok {
					n.idx[ks] = ne
				} else {
					n.nsym++
				}
			}
			out[f.idx] = n
		case f.rep:
			sl := fv.(*Slice)
			if sl == nil || (normalise && sl.n == 0) {
				continue
			}
			et := f.t.Underlying().(*types.Slice).Elem()
			vs := make([]Value, sl.n)
			for k := range vs {
				vs[k] = one(sl.arr[sl.off+k], et)
			}
			out[f.idx] = m.mkSlice(et, vs)
		default:
			if pv, ok := fv.(*Value); ok && pv == nil {
				continue
			}
			out[f.idx] = one(fv, f.t)
		}
	}
	return out
}

// mergeMsg merges src into *dst.
func (m *Machine) mergeMsg(dst *Value, src Value, t types.Type) {
	p := m.eng.pmsg(t)
	if p == nil {
		unsup("merge of %v", t)
	}
	c := m.cloneMsg(src, t, false).(Struct)
	d := (*dst).(Struct)
	for i := range p.fields {
		f := &p.fields[i]
		x := c[f.idx]
		switch {
		case f.oneof:
			if x.(Iface).T != nil {
				d[f.idx] = x
			}
		case f.isMap:
			n := x.(*Map)
			if n == nil || n.live == 0 {
				continue
			}
			old := d[f.idx].(*Map)
			if old == nil || old.live == 0 {
				d[f.idx] = n
				continue
			}
			for _, e := range n.entries {
				if !e.dead {
					m.mapSet(old, e.k, e.v)
				}
			}
		case f.rep:
			n := x.(*Slice)
			if n == nil || n.n == 0 {
				continue
			}
			old := d[f.idx].(*Slice)
			if old == nil {
				d[f.idx] = n
				continue
			}
			vs := append([]Value{}, old.arr[old.off:old.off+old.n]...)
			d[f.idx] = m.mkSlice(f.t.Underlying().(*types.Slice).Elem(), append(vs, n.arr[n.off:n.off+n.n]...))
		default:
			switch y := x.(type) {
			case *Value:
				if y == nil {
					continue
				}
				pt := f.t.(*types.Pointer)
				if old := d[f.idx].(*Value); old != nil && isProtoMsg(pt.Elem()) {
					m.mergeMsg(old, *y, pt.Elem())
					continue
				}
				d[f.idx] = y
			case *Slice:
				if y != nil {
					d[f.idx] = y
				}
			case *Str:
				if m.branch(m.tt.Not(m.eqStr(y, emptyStr))) {
					d[f.idx] = y
				}
			case *Term:
				var z *Term
				if y.w == 0 && !y.fp {
					z = m.tt.Not(y)
				} else {
					z = m.zeroBits(y)
				}
				if m.branch(m.tt.Not(z)) {
					d[f.idx] = y
				}
			default:
				unsup("merge of %T", x)
			}
		}
	}
}

func (m *Machine) protoEqual(a, b Value, typ string) *Term {
	t := m.typeByName(typ)
	return m.msgEq(a, b, t)
}

func (m *Machine) typeByName(s string) types.Type {
	if t, ok := m.side["type:"+s]; ok {
		return t.(types.Type)
	}
	unsup("unknown message type %s", s)
	return nil
}

func (m *Machine) msgEq(av, bv Value, t types.Type) *Term {
	p := m.eng.pmsg(t)
	if p == nil {
		unsup("equality of %v", t)
	}
	a, b := av.(Struct), bv.(Struct)
	tt := m.tt
	r := tt.T
	var one func(x, y Value, et types.Type) *Term
	one = func(x, y Value, et types.Type) *Term {
		switch p := x.(type) {
		case *Value:
			q := y.(*Value)
			if p == nil || q == nil {
				return tt.Bool(p == nil && q == nil)
			}
			pt := et.(*types.Pointer)
			if isProtoMsg(pt.Elem()) {
				return m.msgEq(*p, *q, pt.Elem())
			}
			return m.eq(*p, *q)
		case *Slice:
			q, _ := y.(*Slice)
			return m.eqStr(m.sliceToStr(p), m.sliceToStr(q))
		case *Term:
			q := y.(*Term)
			if p.fp {
				return tt.Or(tt.FBin(OFEq, p, q), tt.And(tt.FUn(OFIsNaN, p), tt.FUn(OFIsNaN, q)))
			}
			return tt.Eq(p, q)
		}
		return m.eq(x, y)
	}
	for i := range p.fields {
		f := &p.fields[i]
		x, y := a[f.idx], b[f.idx]
		switch {
		case f.oneof:
			p, q := x.(Iface), y.(Iface)
			if p.T == nil || q.T == nil {
				r = tt.And(r, tt.Bool(p.T == nil && q.T == nil))
				continue
			}
			if !types.Identical(p.T, q.T) {
				return tt.F
			}
			w := p.T.(*types.Pointer).Elem()
			r = tt.And(r, one((*p.V.(*Value)).(Struct)[0], (*q.V.(*Value)).(Struct)[0], w.Underlying().(*types.Struct).Field(0).Type()))
		case f.isMap:
			p, q := x.(*Map), y.(*Map)
			pl, ql := 0, 0
			if p != nil {
				pl = p.live
			}
			if q != nil {
				ql = q.live
			}
			if pl != ql {
				return tt.F
			}
			if pl == 0 {
				continue
			}
			for _, e := range p.entries {
				if e.dead {
					continue
				}
				o := m.mapFind(q, e.k)
				if o == nil {
					return tt.F
				}
				r = tt.And(r, one(e.v, o.v, f.val.t))
			}
		case f.rep:
			p, _ := x.(*Slice)
			q, _ := y.(*Slice)
			pl, ql := 0, 0
			if p != nil {
				pl = p.n
			}
			if q != nil {
				ql = q.n
			}
			if pl != ql {
				return tt.F
			}
			et := f.t.Underlying().(*types.Slice).Elem()
			for k := 0; k < pl; k++ {
				r = tt.And(r, one(p.arr[p.off+k], q.arr[q.off+k], et))
			}
		default:
			r = tt.And(r, one(x, y, f.t))
		}
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *Machine) protoArg(v Value) (p *Value, t types.Type, ok bool) {
	i, isI := v.(Iface)
	if !isI || i.T == nil {
		return nil, nil, false
	}
	pt, isP := i.T.(*types.Pointer)
	if !isP || !isProtoMsg(pt.Elem()) {
		unsup("protobuf operation on %v", i.T)
	}
	return i.V.(*Value), pt.Elem(), true
}

func (m *Machine) errValue(s string) Value {
	fn := m.eng.vm["VM_Errorf"]
	if fn == nil {
		unsup("no error model")
	}
	return m.callAtomic(&Closure{Fn: fn}, []Value{lit(s)})
}

func (m *Machine) marshal(v Value) Value {
	p, t, ok := m.protoArg(v)
	if !ok || p == nil {
		return Tuple{(*Slice)(nil), Iface{}}
	}
	if m.utf8Bad(*p, t) {
		return Tuple{(*Slice)(nil), m.errValue("string field contains invalid UTF-8")}
	}
	return Tuple{&Slice{opaque: m.blobOf(*p, t), elemType: types.Typ[types.Byte]}, Iface{}}
}

func (m *Machine) blobOf(v Value, t types.Type) *Str {
	size := m.msgSize(v, t)
	m.nextID++
	m.side["type:"+t.String()] = t
	b := &Blob{id: m.nextID, size: size, msg: m.cloneMsg(v, t, true), typ: t.String()}
	if size.isConst() && size.val == 0 {
		return emptyStr
	}
	return &Str{[]Seg{{k: sBlob, blob: b}}}
}

func (m *Machine) unmarshal(s *Str, dst *Value, t types.Type) Value {
	if dst == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if l, ok := s.lit(); ok {
		if l == "" {
			storeInto(dst, m.zero(t))
			return Iface{}
		}
		if len(s.segs) == 1 {
			storeInto(dst, m.zero(t))
			return m.errValue("proto: cannot parse invalid wire-format data")
		}
	}
	if len(s.segs) == 1 && s.segs[0].k == sBlob && s.segs[0].blob.msg != nil {
		b := s.segs[0].blob
		if b.typ != t.String() {
			unsup("unmarshal of a %s payload as %s", b.typ, t)
		}
		storeInto(dst, m.cloneMsg(b.msg, t, false))
		return Iface{}
	}
	unsup("unmarshal of symbolic bytes")
	return nil
}

func typeURL(t types.Type) string {
	n := t.(*types.Named)
	p := n.Obj().Pkg().Path()
	if strings.Contains(p, "protobuf/types/known") {
		return "type.googleapis.com/google.protobuf." + n.Obj().Name()
	}
	return "type.googleapis.com/" + n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

func regProto() {
	mar := func(m *Machine, c *callCtx) Value { return m.marshal(c.args[len(c.args)-1]) }
	for _, p := range []string{"google.golang.org/protobuf/proto", "github.com/golang/protobuf/proto"} {
		reg(p+".Marshal", mar)
		reg(p+".Unmarshal", func(m *Machine, c *callCtx) Value {
			dst, t, ok := m.protoArg(c.args[1])
			if !ok {
				m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			s, _ := c.args[0].(*Slice)
			return m.unmarshal(m.sliceToStr(s), dst, t)
		})
		reg(p+".Size", func(m *Machine, c *callCtx) Value {
			v, t, ok := m.protoArg(c.args[0])
			if !ok || v == nil {
				return m.tt.Int(0)
			}
			return m.msgSize(*v, t)
		})
		reg(p+".Clone", func(m *Machine, c *callCtx) Value {
			v, t, ok := m.protoArg(c.args[0])
			if !ok {
				return c.args[0]
			}
			if v == nil {
				return c.args[0]
			}
			return Iface{c.args[0].(Iface).T, newVal(m.cloneMsg(*v, t, false))}
		})
		reg(p+".Equal", func(m *Machine, c *callCtx) Value {
			a, at, ok1 := m.protoArg(c.args[0])
			b, bt, ok2 := m.protoArg(c.args[1])
			if !ok1 || !ok2 {
				return m.tt.Bool(!ok1 && !ok2)
			}
			if !types.Identical(at, bt) {
				return m.tt.F
			}
			if a == nil || b == nil {
				return m.tt.Bool(a == nil && b == nil)
			}
			return m.msgEq(*a, *b, at)
		})
		reg(p+".Reset", func(m *Machine, c *callCtx) Value {
			v, t, ok := m.protoArg(c.args[0])
			if ok && v != nil {
				storeInto(v, m.zero(t))
			}
			return Tuple{}
		})
	}
	const pp = "google.golang.org/protobuf/proto."
	appendTo := func(m *Machine, b Value, res Value) Value {
		pre, _ := b.(*Slice)
		t := res.(Tuple)
		if pre == nil || pre.opaque == nil && pre.n == 0 {
			return res
		}
		out, _ := t[0].(*Slice)
		if out == nil {
			return Tuple{b, t[1]}
		}
		return Tuple{&Slice{opaque: m.concat(m.sliceToStr(pre), m.sliceToStr(out)), elemType: types.Typ[types.Byte]}, t[1]}
	}
	reg("("+pp+"MarshalOptions).Marshal", mar)
	reg("("+pp+"MarshalOptions).MarshalAppend", func(m *Machine, c *callCtx) Value { return appendTo(m, c.args[1], m.marshal(c.args[2])) })
	reg("("+pp+"MarshalOptions).Size", func(m *Machine, c *callCtx) Value {
		v, t, ok := m.protoArg(c.args[1])
		if !ok || v == nil {
			return m.tt.Int(0)
		}
		return m.msgSize(*v, t)
	})
	reg("("+pp+"UnmarshalOptions).Unmarshal", func(m *Machine, c *callCtx) Value {
		dst, t, ok := m.protoArg(c.args[2])
		if !ok {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		merge := false
		if st, ok := c.args[0].(Struct); ok {
			ut := c.fn.Signature.Recv().Type().Underlying().(*types.Struct)
			for i := range st {
				if ut.Field(i).Name() == "Merge" {
					mt, ok := st[i].(*Term)
					if !ok {
						unsup("merging unmarshal")
					}
					merge = m.branch(mt)
				}
			}
		}
		s, _ := c.args[1].(*Slice)
		if merge && dst != nil {
			fresh := newVal(m.zero(t))
			err := m.unmarshal(m.sliceToStr(s), fresh, t)
			if i, ok := err.(Iface); ok && i.T == nil {
				m.mergeMsg(dst, *fresh, t)
			}
			return err
		}
		return m.unmarshal(m.sliceToStr(s), dst, t)
	})
	reg(pp+"Merge", func(m *Machine, c *callCtx) Value {
		dst, dt, ok := m.protoArg(c.args[0])
		src, st, ok2 := m.protoArg(c.args[1])
		if !ok2 || src == nil {
			return Tuple{}
		}
		if !ok || dst == nil {
			m.goPanicStr("proto: merge into an invalid message")
		}
		if !types.Identical(dt, st) {
			m.goPanicStr("proto: descriptor mismatch")
		}
		m.mergeMsg(dst, *src, dt)
		return Tuple{}
	})
	ident := func(m *Machine, c *callCtx) Value { return c.args[0] }
	reg("google.golang.org/protobuf/protoadapt.MessageV2Of", ident)
	reg("google.golang.org/protobuf/protoadapt.MessageV1Of", ident)
	reg("google.golang.org/protobuf/types/known/anypb.New", func(m *Machine, c *callCtx) Value {
		v, t, ok := m.protoArg(c.args[0])
		if !ok || v == nil {
			unsup("anypb.New(nil)")
		}
		at := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := newVal(m.zero(at))
		m.setAny(p, at, v, t)
		return Tuple{p, Iface{}}
	})
	reg("(*google.golang.org/protobuf/types/known/anypb.Any).UnmarshalTo", func(m *Machine, c *callCtx) Value {
		dst, t, ok := m.protoArg(c.args[1])
		if !ok {
			unsup("UnmarshalTo(nil)")
		}
		at := c.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		src := c.args[0].(*Value)
		if src == nil {
			return m.errValue("nil Any")
		}
		url, val := m.anyFields(src, at)
		if m.branch(m.tt.Not(m.eqStr(url, lit(typeURL(t))))) {
			return m.errValue("mismatched message type")
		}
		return m.unmarshal(m.sliceToStr(val), dst, t)
	})
	reg("(*google.golang.org/protobuf/types/known/anypb.Any).MessageIs", func(m *Machine, c *callCtx) Value {
		_, t, ok := m.protoArg(c.args[1])
		src := c.args[0].(*Value)
		if !ok || src == nil {
			return m.tt.F
		}
		url, _ := m.anyFields(src, c.fn.Signature.Recv().Type().(*types.Pointer).Elem())
		return m.eqStr(url, lit(typeURL(t)))
	})
	reg("(*google.golang.org/protobuf/types/known/anypb.Any).UnmarshalNew", func(m *Machine, c *callCtx) Value {
		src := c.args[0].(*Value)
		if src == nil {
			return Tuple{Iface{}, m.errValue("nil Any")}
		}
		_, val := m.anyFields(src, c.fn.Signature.Recv().Type().(*types.Pointer).Elem())
		s := m.sliceToStr(val)
		if len(s.segs) == 1 && s.segs[0].k == sBlob && s.segs[0].blob.msg != nil {
			t := m.typeByName(s.segs[0].blob.typ)
			d := newVal(m.zero(t))
			m.unmarshal(s, d, t)
			return Tuple{Iface{types.NewPointer(t), d}, Iface{}}
		}
		unsup("UnmarshalNew")
		return nil
	})
}

func (m *Machine) anyFields(p *Value, at types.Type) (url *Str, val *Slice) {
	st := at.Underlying().(*types.Struct)
	s := (*p).(Struct)
	url = emptyStr
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "TypeUrl":
			url = s[i].(*Str)
		case "Value":
			val, _ = s[i].(*Slice)
		}
	}
	return
}

func (m *Machine) setAny(p *Value, at types.Type, v *Value, t types.Type) {
	st := at.Underlying().(*types.Struct)
	s := (*p).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "TypeUrl":
			s[i] = lit(typeURL(t))
		case "Value":
			s[i] = &Slice{opaque: m.blobOf(*v, t), elemType: types.Typ[types.Byte]}
		}
	}
}
