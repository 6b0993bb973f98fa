package main

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"
)

type ReplayInput struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Int   int64  `json:"int,omitempty"`
	Bytes string `json:"bytes,omitempty"` // base64
	Text  string `json:"text,omitempty"`  // for the reader
}

func (m *Machine) replayInputs(md Model) []ReplayInput {
	memo := map[*Term]uint64{}
	var out []ReplayInput
	for _, in := range m.inputs {
		r := ReplayInput{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "int":
			r.Int = sext(in.ts[0].eval(md, memo), in.ts[0].w)
		case "uint", "bool", "float", "big", "choose":
			r.Int = int64(in.ts[0].eval(md, memo))
			if in.Kind == "float" {
				c := &Term{op: OConst, w: 64, fp: true, val: uint64(r.Int)}
				r.Text = fmt.Sprint(c.f64())
			}
		case "string":
			n := int(in.n.eval(md, memo))
			b := make([]byte, n)
			for i := 0; i < n; i++ {
				b[i] = byte(in.ts[i].eval(md, memo))
			}
			r.Bytes = base64.StdEncoding.EncodeToString(b)
			r.Text = fmt.Sprintf("%q", b)
		}
		out = append(out, r)
	}
	return out
}

func (m *Machine) inName(c *callCtx) string {
	n := m.showStr(c.str(0))
	k := m.chooseN[n]
	m.chooseN[n]++
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (m *Machine) callPos(c *callCtx) string {
	if len(c.th.frames) > 0 {
		return m.framePos(c.th.frames[len(c.th.frames)-1])
	}
	return ""
}

func regVsym() {
	v := func(n string, f intrinsic) { reg("verif/vsym."+n, f) }
	intIn := func(w uint8) intrinsic {
		return func(m *Machine, c *callCtx) Value {
			n := m.inName(c)
			t := m.tt.Var(n, w)
			m.inputs = append(m.inputs, Input{Name: n, Kind: "int", ts: []*Term{t}})
			lo, hi := c.term(1), c.term(2)
			m.assume(m.tt.And(m.tt.Bin(OSLe, lo, t), m.tt.Bin(OSLe, t, hi)))
			if lo.isConst() && hi.isConst() && sext(lo.val, w) >= 0 && sext(hi.val, w) > 0 {
				t.bounded(hi.val)
			}
			return t
		}
	}
	v("Int", intIn(64))
	v("Int64", intIn(64))
	v("Int32", intIn(32))
	v("Bool", func(m *Machine, c *callCtx) Value {
		n := m.inName(c)
		t := m.tt.Var(n, 0)
		m.inputs = append(m.inputs, Input{Name: n, Kind: "bool", ts: []*Term{t}})
		return t
	})
	v("Float64", func(m *Machine, c *callCtx) Value {
		n := m.inName(c)
		t := m.tt.Var(n, 64)
		m.inputs = append(m.inputs, Input{Name: n, Kind: "float", ts: []*Term{t}})
		return m.tt.BVToF(t)
	})
	mkString := func(m *Machine, c *callCtx, alpha string, hasAlpha bool) Value {
		n := m.inName(c)
		max := m.concInt(c.args[1])
		tt := m.tt
		lv := tt.Var(n+".len", 8)
		ln := tt.ZExt(lv, 64)
		in := Input{Name: n, Kind: "string", n: ln}
		cons := tt.Bin(OULe, ln, tt.Int(int64(max)))
		for i := 0; i < max; i++ {
			b := tt.Var(fmt.Sprintf("%s[%d]", n, i), 8)
			in.ts = append(in.ts, b)
			used := tt.Bin(OULt, tt.Int(int64(i)), ln)
			ok := tt.T
			if hasAlpha {
				ok = tt.F
				for j := 0; j < len(alpha); j++ {
					ok = tt.Or(ok, tt.Eq(b, tt.BV(uint64(alpha[j]), 8)))
				}
			}
			cons = tt.And(cons, tt.And(tt.Implies(used, ok), tt.Implies(tt.Not(used), tt.Eq(b, tt.BV(0, 8)))))
		}
		m.inputs = append(m.inputs, in)
		m.assume(cons)
		if max > 0 && max < 256 {
			lv.bounded(uint64(max))
			ln.rok = false
		}
		return m.mkStr([]Seg{{k: sSym, bs: in.ts, t: ln}})
	}
	v("String", func(m *Machine, c *callCtx) Value { return mkString(m, c, "", false) })
	v("StringOf", func(m *Machine, c *callCtx) Value { return mkString(m, c, c.lit(2), true) })
	v("BigString", func(m *Machine, c *callCtx) Value {
		n := m.inName(c)
		m.useInt = false
		t := m.tt.Var(n+".size", 64)
		m.inputs = append(m.inputs, Input{Name: n, Kind: "big", ts: []*Term{t}})
		m.assume(m.tt.And(m.tt.Bin(OSLe, c.term(1), t), m.tt.Bin(OSLe, t, c.term(2))))
		if lo, hi := c.term(1), c.term(2); lo.isConst() && hi.isConst() && sext(lo.val, 64) >= 0 && hi.val > 0 {
			t.bounded(hi.val)
		}
		m.useInt = true
		m.nextID++
		return &Str{[]Seg{{k: sBlob, blob: &Blob{id: m.nextID, size: t, typ: "bytes:" + n, name: n}}}}
	})
	v("Choose", func(m *Machine, c *callCtx) Value {
		n := m.inName(c)
		k := m.choose(m.concInt(c.args[1]))
		t := m.tt.Int(int64(k))
		m.inputs = append(m.inputs, Input{Name: n, Kind: "choose", ts: []*Term{t}})
		return t
	})
	v("Concrete", func(m *Machine, c *callCtx) Value { return m.tt.Int(int64(m.concretize(c.term(0)))) })
	v("ConcreteStr", func(m *Machine, c *callCtx) Value {
		var b []byte
		for _, t := range m.bytesOf(c.str(0)) {
			b = append(b, byte(m.concretize(t)))
		}
		return lit(string(b))
	})
	v("Assume", func(m *Machine, c *callCtx) Value { m.assume(c.term(0)); return Tuple{} })
	v("Assert", func(m *Machine, c *callCtx) Value {
		m.assertT(c.term(0), m.showStr(c.str(1)), m.callPos(c))
		return Tuple{}
	})
	v("Known", func(m *Machine, c *callCtx) Value {
		// Known(holds, deviates bool, id, msg): the property holds, or the
		// deviation is exactly the listed one.
		holds, dev := c.term(0), c.term(1)
		id := m.showStr(c.str(2))
		m.assertT(m.tt.Or(holds, dev), m.showStr(c.str(3)), m.callPos(c))
		if m.pos2() {
			m.eng.mu.Lock()
			kh := m.eng.known[id]
			m.eng.mu.Unlock()
			if kh == nil {
				r, md := m.query(m.tt.Not(holds))
				if r == Sat {
					m.eng.mu.Lock()
					if m.eng.known[id] == nil {
						ins := map[string]any{}
						for _, in := range m.replayInputs(md) {
							if in.Text != "" {
								ins[in.Name] = in.Text
							} else {
								ins[in.Name] = in.Int
							}
						}
						m.eng.known[id] = &KnownHit{Msg: m.showStr(c.str(3)), Count: 1, Model: ins}
					}
					m.eng.mu.Unlock()
				}
			}
		}
		return Tuple{}
	})
	v("Reach", func(m *Machine, c *callCtx) Value { m.reach[m.showStr(c.str(0))] = true; return Tuple{} })
	v("Note", func(m *Machine, c *callCtx) Value {
		m.event("note: %s", m.showStr(c.str(0)))
		return Tuple{}
	})
	v("Show", func(m *Machine, c *callCtx) Value {
		m.event("note: %s = %s", m.showStr(c.str(0)), m.show(c.args[1], 0))
		return Tuple{}
	})
	v("And", func(m *Machine, c *callCtx) Value {
		r := m.tt.T
		s, _ := c.args[0].(*Slice)
		for i := 0; s != nil && i < s.n; i++ {
			r = m.tt.And(r, s.arr[s.off+i].(*Term))
		}
		return r
	})
	v("Or", func(m *Machine, c *callCtx) Value {
		r := m.tt.F
		s, _ := c.args[0].(*Slice)
		for i := 0; s != nil && i < s.n; i++ {
			r = m.tt.Or(r, s.arr[s.off+i].(*Term))
		}
		return r
	})
	v("Implies", func(m *Machine, c *callCtx) Value { return m.tt.Implies(c.term(0), c.term(1)) })
	v("Iff", func(m *Machine, c *callCtx) Value { return m.tt.Eq(c.term(0), c.term(1)) })
	v("IteInt", func(m *Machine, c *callCtx) Value { return m.tt.Ite(c.term(0), c.term(1), c.term(2)) })
	v("B2I", func(m *Machine, c *callCtx) Value { return m.tt.Ite(c.term(0), m.tt.Int(1), m.tt.Int(0)) })
	v("Native", func(m *Machine, c *callCtx) Value { return m.tt.F })
	v("Sched", func(m *Machine, c *callCtx) Value {
		m.schedMode = c.lit(0)
		m.schedBudget = m.concInt(c.args[1])
		return Tuple{}
	})
	v("EarlyTimers", func(m *Machine, c *callCtx) Value { m.earlyTimers = c.term(0).isTrue(); return Tuple{} })
	v("MapOrder", func(m *Machine, c *callCtx) Value { m.mapNondet = c.term(0).isTrue(); return Tuple{} })
	v("TimeLimit", func(m *Machine, c *callCtx) Value {
		m.timeLimit = m.now + int64(c.term(0).val)
		return Tuple{}
	})
	v("StartTime", func(m *Machine, c *callCtx) Value {
		m.baseSec = c.term(0)
		m.baseNsec = c.term(1)
		return Tuple{}
	})
	v("Ticking", func(m *Machine, c *callCtx) Value { m.tickMax = int64(c.term(0).val) / 1e6; return Tuple{} })
	v("Param", func(m *Machine, c *callCtx) Value {
		if p, ok := m.eng.params[c.lit(0)]; ok {
			return m.tt.Int(int64(p))
		}
		return c.args[1]
	})
	v("Elapsed", func(m *Machine, c *callCtx) Value { return m.tt.Int(m.now) })
	v("LiveGoroutines", func(m *Machine, c *callCtx) Value {
		n := 0
		for _, t := range m.threads {
			if !t.done {
				n++
			}
		}
		return m.tt.Int(int64(n))
	})
	v("Stop", func(m *Machine, c *callCtx) Value { panic(pathEnd{"completed"}) })
	v("ShowErr", func(m *Machine, c *callCtx) Value { return lit(m.panicText(c.args[0])) })
	v("Comparable", func(m *Machine, c *callCtx) Value {
		i := c.args[0].(Iface)
		return m.tt.Bool(i.T == nil || comparableT(i.T))
	})
	v("SliceLen", func(m *Machine, c *callCtx) Value {
		s, _ := c.args[0].(Iface).V.(*Slice)
		if s == nil {
			return m.tt.Int(0)
		}
		return m.tt.Int(int64(s.n))
	})
	v("SliceSwap", func(m *Machine, c *callCtx) Value {
		s := c.args[0].(Iface).V.(*Slice)
		i, j := m.concInt(c.args[1]), m.concInt(c.args[2])
		s.arr[s.off+i], s.arr[s.off+j] = copyVal(s.arr[s.off+j]), copyVal(s.arr[s.off+i])
		return Tuple{}
	})
	v("After", func(m *Machine, c *callCtx) Value { // run f as a new goroutine after d
		f := c.args[1]
		m.addTimer(m.durConc(c.args[0]), func() { m.spawn(f, nil, "timer") }, "vsym.After")
		return Tuple{}
	})
	v("Yield", func(m *Machine, c *callCtx) Value {
		return c.visible(m, "yield", always, func() Value { return Tuple{} })
	})
	// Settle: sleep for d of virtual time so that everything else can run.
	v("Settle", func(m *Machine, c *callCtx) Value {
		op := &VOp{desc: "settle", isSleep: true, sleepUntil: m.now + int64(c.term(0).val), exec: func() { c.deliver(Tuple{}) }}
		m.visible(c.th, op)
		c.deferred = true
		return nil
	})
}

func (m *Machine) pos2() bool { return m.pos >= len(m.prefix) }

var _ = strings.Contains
var _ = time.Now
