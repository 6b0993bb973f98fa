package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	dirSend = iota
	dirRecv
)

type chanCase struct {
	dir int
	ch  *Chan
	val Value
}

// Op is a visible operation a thread is about to perform.
type VOp struct {
	desc       string
	cases      []chanCase
	hasDefault bool
	done       func(idx int, v Value, ok bool)
	enabled    func() bool
	exec       func()
	sleepUntil int64
	isSleep    bool
	pos        string
}

type transition struct {
	th      *Thread
	ci      int // case index; -1 default; -2 non-channel op
	partner *Thread
	pi      int
	advance bool
}

func (m *Machine) spawn(fnv Value, args []Value, pos string) *Thread {
	th := &Thread{id: len(m.threads)}
	th.name = fmt.Sprintf("g%d(%s)", th.id, pos)
	m.threads = append(m.threads, th)
	// starting is a visible operation: nothing runs until it is scheduled
	th.op = &VOp{desc: "start", enabled: func() bool { return true }, exec: func() {
		m.invokeTop(th, fnv, args)
	}}
	return th
}

func (m *Machine) visible(th *Thread, op *VOp) {
	if len(th.frames) > 0 {
		op.pos = m.framePos(th.frames[len(th.frames)-1])
	}
	th.op = op
}

func (m *Machine) chanOp(th *Thread, op *VOp) { m.visible(th, op) }

func (m *Machine) selectOp(th *Thread, f *Frame, i *ssa.Select) {
	reg := f.info.regs[i]
	op := &VOp{desc: "select", hasDefault: !i.Blocking}
	var recvTypes []types.Type
	var recvIdx []int
	for k, s := range i.States {
		c := chanCase{ch: m.get(f, s.Chan).(*Chan)}
		if s.Dir == types.SendOnly {
			c.dir = dirSend
			c.val = m.get(f, s.Send)
		} else {
			c.dir = dirRecv
			recvTypes = append(recvTypes, under(s.Chan.Type()).(*types.Chan).Elem())
			recvIdx = append(recvIdx, k)
		}
		op.cases = append(op.cases, c)
	}
	op.done = func(idx int, v Value, ok bool) {
		tp := Tuple{m.tt.Int(int64(idx)), m.tt.Bool(ok)}
		for k, t := range recvTypes {
			if recvIdx[k] == idx && v != nil {
				tp = append(tp, v)
			} else {
				tp = append(tp, m.zero(t))
			}
		}
		f.regs[reg] = tp
	}
	m.visible(th, op)
}

// transitions lists what th can do now. others: the threads that may serve as
// rendezvous partners.
func (m *Machine) transitions(th *Thread, others []*Thread) []transition {
	op := th.op
	if op == nil {
		return nil
	}
	if op.isSleep {
		if m.now >= op.sleepUntil || th.atomic {
			return []transition{{th: th, ci: -2}}
		}
		return nil
	}
	if op.cases == nil && !op.hasDefault {
		if op.enabled == nil {
			return nil // select {}: blocks forever
		}
		if op.enabled() {
			return []transition{{th: th, ci: -2}}
		}
		return nil
	}
	var out []transition
	definite := false // some case is ready no matter how threads are timed
	for ci, c := range op.cases {
		if c.ch == nil {
			continue
		}
		if c.dir == dirRecv {
			if len(c.ch.buf) > 0 || c.ch.closed {
				out = append(out, transition{th: th, ci: ci})
				definite = true
				continue
			}
		} else {
			if c.ch.closed || len(c.ch.buf) < c.ch.capn {
				out = append(out, transition{th: th, ci: ci})
				definite = true
				continue
			}
		}
		if c.ch.capn == 0 {
			for _, u := range others {
				if u == th || u.op == nil || u.op.cases == nil || u.op.hasDefault {
					continue
				}
				for pi, d := range u.op.cases {
					if d.ch == c.ch && d.dir != c.dir {
						out = append(out, transition{th: th, ci: ci, partner: u, pi: pi})
					}
				}
			}
		}
	}
	if op.hasDefault && !definite {
		// A waiting peer may not have arrived yet: both outcomes are possible.
		out = append(out, transition{th: th, ci: -1})
	}
	return out
}

func (m *Machine) fire(t transition) {
	th := t.th
	op := th.op
	th.op = nil
	saved := m.cur
	m.cur = th
	defer func() { m.cur = saved }()
	m.guard(th, func() {
		switch {
		case t.ci == -2:
			if op.exec != nil {
				op.exec()
			}
		case t.ci == -1:
			op.done(-1, nil, false)
		default:
			c := op.cases[t.ci]
			if t.partner != nil {
				u := t.partner
				uop := u.op
				u.op = nil
				if c.dir == dirSend {
					op.done(t.ci, nil, false)
					uop.done(t.pi, copyVal(c.val), true)
				} else {
					uop.done(t.pi, nil, false)
					op.done(t.ci, copyVal(uop.cases[t.pi].val), true)
				}
				return
			}
			if c.dir == dirSend {
				if c.ch.closed {
					panic(goPanicSig{m.mkRuntimeErr("send on closed channel")})
				}
				c.ch.buf = append(c.ch.buf, copyVal(c.val))
				op.done(t.ci, nil, false)
				return
			}
			if len(c.ch.buf) > 0 {
				v := c.ch.buf[0]
				c.ch.buf = append([]Value{}, c.ch.buf[1:]...)
				op.done(t.ci, v, true)
				return
			}
			op.done(t.ci, nil, false) // closed
		}
	})
	if th.op == nil {
		m.afterOp(th)
	}
	if t.partner != nil && t.partner.op == nil {
		m.afterOp(t.partner)
	}
}

// guard turns Go panics raised while performing an operation into panics of
// the thread.
func (m *Machine) guard(th *Thread, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(goPanicSig); ok {
				m.startPanic(th, g.val)
				return
			}
			panic(r)
		}
	}()
	f()
}

func (m *Machine) afterOp(th *Thread) {
	if n := len(th.frames); n > 0 && th.panicV == nil {
		f := th.frames[n-1]
		m.guard(th, func() { m.afterCall(th, f) })
	}
}

func (m *Machine) addTimer(d int64, fire func(), desc string) *Timer {
	m.tseq++
	if d < 0 {
		d = 0
	}
	dl := m.now + d
	if dl < m.now {
		dl = 1 << 62
	}
	t := &Timer{deadline: dl, seq: m.tseq, fire: fire, active: true, desc: desc}
	m.timers = append(m.timers, t)
	return t
}

// nextDeadline: earliest pending timer or sleeper.
func (m *Machine) nextDeadline() (int64, bool) {
	best, ok := int64(0), false
	for _, t := range m.timers {
		if t.active && (!ok || t.deadline < best) {
			best, ok = t.deadline, true
		}
	}
	for _, th := range m.threads {
		if th.op != nil && th.op.isSleep && th.op.sleepUntil > m.now && (!ok || th.op.sleepUntil < best) {
			best, ok = th.op.sleepUntil, true
		}
	}
	return best, ok
}

func (m *Machine) advanceTo(d int64) {
	if d > m.now {
		m.now = d
	}
	var due []*Timer
	rest := m.timers[:0:0]
	for _, t := range m.timers {
		if t.active && t.deadline <= m.now {
			due = append(due, t)
		} else if t.active {
			rest = append(rest, t)
		}
	}
	m.timers = rest
	sort.Slice(due, func(i, j int) bool {
		if due[i].deadline != due[j].deadline {
			return due[i].deadline < due[j].deadline
		}
		return due[i].seq < due[j].seq
	})
	for _, t := range due {
		t.active = false
		t.fire()
	}
}

func (m *Machine) drain(th *Thread) {
	m.cur = th
	m.runLocal(th)
	if th.panicV != nil {
		m.crash(th)
	}
	if th.op == nil && len(th.frames) == 0 {
		th.done = true
	}
}

func (m *Machine) crash(th *Thread) {
	rec := th.panicV
	msg := "uncaught panic: " + m.panicText(rec.val)
	m.event("thread %s crashes: %s", th.name, msg)
	for _, s := range rec.stack {
		m.event("    at %s", s)
	}
	m.needModel()
	m.reportCrash(msg, rec)
	panic(pathEnd{"violated"})
}

func (m *Machine) reportCrash(msg string, rec *panicRec) {
	m.report("panic", msg, rec.pos, m.model)
}

func (m *Machine) panicText(v Value) string {
	if i, ok := v.(Iface); ok && i.T != nil {
		if s, ok := i.V.(*Str); ok {
			return m.showStr(s)
		}
		if types.Implements(i.T, errorIface) {
			var out string
			func() {
				defer func() {
					if recover() != nil {
						out = m.show(i.V, 0)
					}
				}()
				fn := m.eng.method(i.T, nil, "Error")
				r := m.callAtomic(&Closure{Fn: fn}, []Value{i.V})
				out = m.showStr(r.(*Str))
			}()
			return out
		}
		return m.show(i.V, 0)
	}
	return m.show(v, 0)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (m *Machine) runMain() {
	m.initPkg(m.eng.entry.Pkg)
	main := m.spawn(m.funcVal(m.eng.entry), nil, "main")
	main.name = "main"
	last := main
	for {
		if main.done {
			return
		}
		m.steps++
		if m.steps > m.eng.maxSteps {
			panic(pathEnd{"truncated"})
		}
		// threads in round-robin order starting with the last one that ran
		n := len(m.threads)
		var ts []transition
		seen := map[[4]int]bool{}
		curEnabled := false
		nfirst := 0
		for k := 0; k < n; k++ {
			th := m.threads[(last.id+k)%n]
			if th.done {
				continue
			}
			for _, t := range m.transitions(th, m.threads) {
				if t.partner != nil && !th.op.hasDefault {
					key := [4]int{th.id, t.ci, t.partner.id, t.pi}
					rev := [4]int{t.partner.id, t.pi, th.id, t.ci}
					if seen[rev] {
						continue
					}
					seen[key] = true
				}
				ts = append(ts, t)
				if k == 0 {
					curEnabled = true
				}
			}
			if nfirst == 0 {
				nfirst = len(ts)
			}
		}
		dl, haveDl := m.nextDeadline()
		if len(ts) == 0 {
			if !haveDl {
				m.deadlock(main)
			}
			if dl > m.timeLimit {
				m.hang(main)
			}
			m.advanceTo(dl)
			continue
		}
		if m.earlyTimers && haveDl && dl <= m.timeLimit {
			ts = append(ts, transition{advance: true})
		}
		pick := 0
		if len(ts) > 1 {
			opts := m.options(ts, curEnabled, nfirst)
			if len(opts) > 1 {
				m.schedUsed = true
				c := m.choose(len(opts))
				pick = opts[c].idx
				m.schedBudget -= opts[c].cost
			} else {
				pick = opts[0].idx
			}
		}
		t := ts[pick]
		if t.advance {
			m.event("t=%v clock advances early to %v", time.Duration(m.now), time.Duration(dl))
			m.advanceTo(dl)
			continue
		}
		if n > 1 {
			m.logTransition(t)
		}
		last = t.th
		m.fire(t)
		m.drain(t.th)
		if t.partner != nil {
			m.drain(t.partner)
		}
	}
}

func (m *Machine) logTransition(t transition) {
	op := t.th.op
	d := op.desc
	if op.cases != nil && len(op.cases) > 0 && t.ci >= 0 {
		k := "recv"
		if op.cases[t.ci].dir == dirSend {
			k = "send"
		}
		d = fmt.Sprintf("%s[%s ch%d]", op.desc, k, op.cases[t.ci].ch.id)
	} else if t.ci == -1 {
		d += "[default]"
	}
	if t.partner != nil {
		d += " <-> " + t.partner.name + " " + t.partner.op.pos
	}
	m.event("t=%v %s: %s %s", time.Duration(m.now), t.th.name, d, op.pos)
}

type schedOpt struct{ idx, cost int }

// options applies the exploration bound to the list of transitions.
func (m *Machine) options(ts []transition, curEnabled bool, nfirst int) []schedOpt {
	var opts []schedOpt
	if m.initing > 0 {
		return []schedOpt{{0, 0}}
	}
	first := ts[0].th
	rank := map[*Thread]int{}
	for i, t := range ts {
		cost := 0
		switch m.schedMode {
		case "full":
		case "fixed": // any departure from the default choice is a delay
			if i > 0 {
				cost = 1
			}
		case "preempt":
			if t.advance || (curEnabled && t.th != first) {
				cost = 1
			}
		default: // "delay"
			if t.advance {
				cost = 1
			} else {
				r, ok := rank[t.th]
				if !ok {
					r = len(rank)
					rank[t.th] = r
				}
				cost = r
			}
		}
		if cost <= m.schedBudget || cost == 0 {
			opts = append(opts, schedOpt{i, cost})
		}
	}
	return opts
}

func (m *Machine) blockedInfo() {
	for _, th := range m.threads {
		if th.done || th.op == nil {
			continue
		}
		m.event("  %s blocked in %s at %s", th.name, th.op.desc, th.op.pos)
	}
}

func (m *Machine) deadlock(main *Thread) {
	m.event("deadlock at t=%v", time.Duration(m.now))
	m.blockedInfo()
	m.needModel()
	m.cur = main
	pos := ""
	if main.op != nil {
		pos = main.op.pos
	}
	m.report("deadlock", "deadlock: the call never returns (blocked in "+main.op.desc+")", pos, m.model)
	panic(pathEnd{"violated"})
}

func (m *Machine) hang(main *Thread) {
	m.event("no progress by t=%v", time.Duration(m.timeLimit))
	m.blockedInfo()
	m.needModel()
	m.cur = main
	pos := ""
	if main.op != nil {
		pos = main.op.pos
	}
	m.report("hang", fmt.Sprintf("hang: the call has not returned after %v of virtual time", time.Duration(m.timeLimit)), pos, m.model)
	panic(pathEnd{"violated"})
}
