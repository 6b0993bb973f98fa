package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	regs  map[ssa.Value]int
	n     int
	intr  intrinsic
	model *ssa.Function
	stub  bool
	repo  bool
	name  string
}

type deferRec struct {
	fn   Value
	args []Value
}

type panicRec struct {
	val       Value
	recovered bool
	pos       string
	stack     []string
}

type Frame struct {
	fn         *ssa.Function
	info       *fnInfo
	regs       []Value
	block      *ssa.BasicBlock
	prev       *ssa.BasicBlock
	pc         int
	defers     []deferRec
	panicking  *panicRec
	recovering bool
	deferredBy *Frame
	retReg     int
	onRet      func(Value)
	isInit     bool
}

type Thread struct {
	id     int
	name   string
	frames []*Frame
	op     *VOp
	done   bool
	atomic bool
	result Value
	panicV *panicRec
}

type goPanicSig struct{ val Value }

func (m *Machine) goPanicStr(s string) {
	// runtime errors are runtime.Error values; modelled as an error value
	panic(goPanicSig{m.mkRuntimeErr(s)})
}

func (m *Machine) mkRuntimeErr(s string) Value {
	fn := m.eng.vm["VM_RuntimeError"]
	if fn == nil {
		return Iface{types.Typ[types.String], lit(s)}
	}
	return m.callAtomic(&Closure{Fn: fn}, []Value{lit(s)})
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{regs: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.regs[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	fi.name = o.String()
	e.classify(fn, o, fi)
	v, _ := e.infos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (m *Machine) get(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return m.funcVal(x)
	case *ssa.Builtin:
		return &Closure{Builtin: x}
	}
	r := f.regs[f.info.regs[v]]
	if r == nil {
		unsup("use of an unavailable value %s in %s", v.Name(), f.fn)
	}
	return r
}

func (m *Machine) funcVal(fn *ssa.Function) *Closure {
	if c, ok := m.side[fn]; ok {
		return c.(*Closure)
	}
	c := &Closure{Fn: fn}
	m.side[fn] = c
	return c
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := under(c.Type())
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("const of type param %v", tp)
	}
	b, ok := t.(*types.Basic)
	if !ok {
		if _, isI := t.(*types.Interface); isI {
			unsup("const interface")
		}
		unsup("const of type %v", t)
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return lit(constant.StringVal(c.Value))
		}
		unsup("string const kind")
	}
	if b.Info()&types.IsBoolean != 0 {
		return m.tt.Bool(constant.BoolVal(c.Value))
	}
	w, fp, signed := basicSort(b)
	if fp {
		fv, _ := constant.Float64Val(c.Value)
		return m.tt.FConst(fv, w)
	}
	v := constant.ToInt(c.Value)
	if signed {
		i, _ := constant.Int64Val(v)
		return m.tt.BV(uint64(i), w)
	}
	u, exact := constant.Uint64Val(v)
	if !exact {
		i, _ := constant.Int64Val(v)
		u = uint64(i)
	}
	return m.tt.BV(u, w)
}

func (m *Machine) global(g *ssa.Global) Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	pkg := g.Pkg
	if g.Name() != "init$guard" {
		m.initPkg(pkg)
	}
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := newVal(m.zero(g.Type().(*types.Pointer).Elem()))
	m.globals[g] = p
	return p
}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	pkg.Build()
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	m.initing++
	saved := m.cur
	m.callAtomicInit(fn)
	m.cur = saved
	m.initing--
}

// ---- calls

func (m *Machine) pushFrame(th *Thread, fn *ssa.Function, args, env []Value, retReg int) *Frame {
	if fn.Blocks == nil && fn.Package() != nil {
		fn.Package().Build()
	}
	fi := m.eng.info(fn)
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if len(th.frames) > 300 {
		unsup("call depth in %s", fn)
	}
	if fi.repo && !m.funcsHit[fn] {
		m.funcsHit[fn] = true
	}
	f := &Frame{fn: fn, info: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], retReg: retReg}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	copy(f.regs, args)
	copy(f.regs[len(args):], env)
	th.frames = append(th.frames, f)
	return f
}

// invoke starts calling fn; results go to register retReg of the frame that is
// on top now (or to onRet).
func (m *Machine) invoke(th *Thread, fnv Value, args []Value, retReg int) {
	c, ok := fnv.(*Closure)
	if !ok {
		unsup("call of %T", fnv)
	}
	if c == nil {
		m.goPanicStr("invalid memory address or nil pointer dereference (nil function)")
	}
	var top *Frame
	if len(th.frames) > 0 {
		top = th.frames[len(th.frames)-1]
	}
	deliver := func(v Value) {
		if top != nil && retReg >= 0 {
			top.regs[retReg] = v
		}
	}
	if c.Builtin != nil {
		m.builtin(th, c.Builtin, args, nil, deliver)
		return
	}
	if c.Native != nil {
		deliver(c.Native(m, th, args))
		return
	}
	fi := m.eng.info(c.Fn)
	if fi.stub {
		m.stubsHit[fi.name] = true
		deliver(m.stubResult(c.Fn, args))
		return
	}
	if fi.model != nil {
		m.stubsHit[fi.name+" (model)"] = true
		m.pushFrame(th, fi.model, args, nil, retReg)
		return
	}
	if fi.intr != nil {
		cc := &callCtx{th: th, fn: c.Fn, args: args, deliver: deliver}
		v := fi.intr(m, cc)
		if cc.deferred {
			return
		}
		deliver(v)
		return
	}
	m.pushFrame(th, c.Fn, args, c.Env, retReg)
}

// callAtomic runs fn to completion without scheduling other threads.
func (m *Machine) callAtomic(fnv Value, args []Value) Value {
	return m.runAtomic(func(th *Thread) { m.invokeTop(th, fnv, args) })
}

func (m *Machine) invokeTop(th *Thread, fnv Value, args []Value) {
	c, ok := fnv.(*Closure)
	if !ok || c == nil {
		m.goPanicStr("invalid memory address or nil pointer dereference (nil function)")
	}
	if c.Fn != nil {
		fi := m.eng.info(c.Fn)
		if fi.stub {
			th.result = m.stubResult(c.Fn, args)
			return
		}
		if fi.model != nil {
			m.pushFrame(th, fi.model, args, nil, -1).onRet = func(v Value) { th.result = v }
			return
		}
		if fi.intr != nil {
			cc := &callCtx{th: th, fn: c.Fn, args: args, deliver: func(v Value) { th.result = v }}
			v := fi.intr(m, cc)
			if !cc.deferred {
				th.result = v
			}
			return
		}
		m.pushFrame(th, c.Fn, args, c.Env, -1).onRet = func(v Value) { th.result = v }
		return
	}
	if c.Native != nil {
		th.result = c.Native(m, th, args)
		return
	}
	m.builtin(th, c.Builtin, args, nil, func(v Value) { th.result = v })
}

func (m *Machine) runAtomic(start func(th *Thread)) Value {
	th := &Thread{id: -1, name: "atomic", atomic: true}
	saved := m.cur
	m.cur = th
	m.atomic++
	start(th)
	for {
		m.runLocal(th)
		if th.panicV != nil {
			m.atomic--
			m.cur = saved
			panic(goPanicSig{th.panicV.val})
		}
		if th.op == nil {
			break
		}
		ts := m.transitions(th, nil)
		if len(ts) == 0 || ts[0].partner != nil {
			unsup("blocking operation inside an atomic section: %s", th.op.desc)
		}
		m.fire(ts[0])
	}
	m.atomic--
	m.cur = saved
	return th.result
}

func (m *Machine) callAtomicInit(fn *ssa.Function) {
	m.runAtomic(func(th *Thread) {
		f := m.pushFrame(th, fn, nil, nil, -1)
		f.isInit = true
	})
}

// runLocal executes th until it reaches a visible operation or ends.
func (m *Machine) runLocal(th *Thread) {
	for th.op == nil && len(th.frames) > 0 && th.panicV == nil {
		if !m.runSome(th) {
			return
		}
	}
}

func (m *Machine) runSome(th *Thread) (again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanicSig:
				m.startPanic(th, x.val)
				again = true
				return
			case unsupported:
				if m.recoverInit(th, x.msg) {
					again = true
					return
				}
			case error:
				// host runtime error while executing package initialisation
				if _, isEng := r.(engineErr); !isEng && m.recoverInit(th, x.Error()) {
					again = true
					return
				}
			}
			panic(r)
		}
	}()
	for th.op == nil && len(th.frames) > 0 && th.panicV == nil {
		m.steps++
		if m.steps > m.eng.maxSteps {
			panic(pathEnd{"truncated"})
		}
		f := th.frames[len(th.frames)-1]
		m.exec(th, f)
	}
	return false
}

// recoverInit: an unsupported operation during package initialisation only
// makes the affected variable unavailable.
func (m *Machine) recoverInit(th *Thread, msg string) bool {
	if initDebug {
		println("init:", msg)
		for _, f := range th.frames {
			println("   ", f.fn.String(), m.framePos(f))
		}
	}
	for i, f := range th.frames {
		if f.isInit {
			th.frames = th.frames[:i+1]
			f.pc++
			if f.pc >= len(f.block.Instrs) {
				return false
			}
			return true
		}
	}
	return false
}

func (m *Machine) startPanic(th *Thread, val Value) {
	rec := &panicRec{val: val}
	for i := len(th.frames) - 1; i >= 0 && len(rec.stack) < 14; i-- {
		f := th.frames[i]
		if rec.pos == "" {
			rec.pos = m.framePos(f)
		}
		rec.stack = append(rec.stack, f.fn.String()+" "+m.framePos(f))
	}
	if len(th.frames) == 0 {
		th.panicV = rec
		return
	}
	th.frames[len(th.frames)-1].panicking = rec
	m.unwind(th)
}

// unwind continues panicking in the top frame.
func (m *Machine) unwind(th *Thread) {
	for len(th.frames) > 0 {
		f := th.frames[len(th.frames)-1]
		rec := f.panicking
		if rec.recovered {
			f.panicking = nil
			f.recovering = true
			m.resumeRecovered(th, f)
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			before := len(th.frames)
			m.invoke(th, d.fn, d.args, -1)
			if len(th.frames) > before {
				nf := th.frames[len(th.frames)-1]
				nf.deferredBy = f
				return
			}
			if th.op != nil {
				return // resumes via afterOp
			}
			continue
		}
		if f.isInit {
			m.recoverInit(th, "panic")
			f.panicking = nil
			return
		}
		th.frames = th.frames[:len(th.frames)-1]
		if len(th.frames) == 0 {
			th.panicV = rec
			return
		}
		if th.frames[len(th.frames)-1].panicking != nil && false {
			return
		}
		th.frames[len(th.frames)-1].panicking = rec
	}
}

// resumeRecovered runs the remaining defers and returns from f normally.
func (m *Machine) resumeRecovered(th *Thread, f *Frame) {
	for len(f.defers) > 0 {
		n := len(f.defers)
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		before := len(th.frames)
		m.invoke(th, d.fn, d.args, -1)
		if len(th.frames) > before {
			th.frames[len(th.frames)-1].deferredBy = f
			return
		}
		if th.op != nil {
			return
		}
	}
	f.recovering = false
	if f.fn.Recover != nil {
		f.block = f.fn.Recover
		f.prev = nil
		f.pc = 0
		return
	}
	m.ret(th, m.zero(f.fn.Signature.Results()))
}

func (m *Machine) ret(th *Thread, v Value) {
	f := th.frames[len(th.frames)-1]
	th.frames = th.frames[:len(th.frames)-1]
	if f.onRet != nil {
		f.onRet(v)
	}
	if len(th.frames) == 0 {
		th.result = v
		return
	}
	c := th.frames[len(th.frames)-1]
	if f.deferredBy == nil && f.retReg >= 0 {
		c.regs[f.retReg] = v
	}
	m.afterCall(th, c)
}

func (m *Machine) afterCall(th *Thread, c *Frame) {
	if c.panicking != nil {
		m.unwind(th)
	} else if c.recovering {
		m.resumeRecovered(th, c)
	}
}

func (m *Machine) deref(p Value) *Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return x
	}
	unsup("dereference of %T", p)
	return nil
}

func (m *Machine) load(p Value) Value {
	if se, ok := p.(*SymElem); ok {
		r, ok := (*se.slots[len(se.slots)-1]).(*Term)
		if !ok {
			unsup("symbolic index of a non-scalar")
		}
		for i := len(se.slots) - 2; i >= 0; i-- {
			t := (*se.slots[i]).(*Term)
			r = m.tt.Ite(m.tt.Eq(se.idx, m.tt.BV(uint64(i), se.idx.w)), t, r)
		}
		return r
	}
	v := *m.deref(p)
	if v == nil {
		unsup("load of an unavailable value")
	}
	return copyVal(v)
}

func (m *Machine) store(p, v Value) {
	if se, ok := p.(*SymElem); ok {
		nv, ok := v.(*Term)
		if !ok {
			unsup("symbolic store of a non-scalar")
		}
		for i, s := range se.slots {
			old := (*s).(*Term)
			*s = m.tt.Ite(m.tt.Eq(se.idx, m.tt.BV(uint64(i), se.idx.w)), nv, old)
		}
		return
	}
	storeInto(m.deref(p), v)
}

func (m *Machine) concInt(v Value) int {
	t := v.(*Term)
	return int(sext(m.concretize(t), t.w))
}

// concretize forks over the possible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if n > 512 {
			panic(pathEnd{"truncated"})
		}
		var v uint64
		if m.pos < len(m.prefix) {
			// the value was chosen from a model which is not available now:
			// it is recorded in the trace as four 16-bit words
			w := m.prefix[m.pos : m.pos+4]
			for i := 0; i < 4; i++ {
				v |= uint64(w[i]) << (16 * i)
				m.record(w[i])
			}
		} else {
			m.needModel()
			v = m.eval(t)
			for i := 0; i < 4; i++ {
				m.record(uint16(v >> (16 * i)))
			}
		}
		if m.branch(m.tt.Eq(t, m.tt.BV(v, t.w))) {
			return v
		}
	}
}

func (m *Machine) exec(th *Thread, f *Frame) {
	in := f.block.Instrs[f.pc]
	set := func(v ssa.Value, x Value) { f.regs[f.info.regs[v]] = x }
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(i, newVal(m.zero(i.Type().(*types.Pointer).Elem())))
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			f.pc++
			ch := m.get(f, i.X).(*Chan)
			reg := f.info.regs[i]
			et := under(i.X.Type()).(*types.Chan).Elem()
			m.chanOp(th, &VOp{desc: "recv", cases: []chanCase{{dir: dirRecv, ch: ch}}, done: func(_ int, v Value, ok bool) {
				if v == nil {
					v = m.zero(et)
				}
				if i.CommaOk {
					f.regs[reg] = Tuple{v, m.tt.Bool(ok)}
				} else {
					f.regs[reg] = v
				}
			}})
			return
		}
		set(i, m.unop(i, m.get(f, i.X)))
	case *ssa.BinOp:
		set(i, m.binop(i.Op, i.X.Type(), m.get(f, i.X), m.get(f, i.Y), i.Y.Type()))
	case *ssa.Call:
		f.pc++
		fnv, args := m.callee(f, &i.Call)
		if fnv == nil { // stubbed interface call
			f.regs[f.info.regs[i]] = m.stubSig(i.Call.Signature())
			return
		}
		if c, ok := fnv.(*Closure); ok && c != nil && c.Builtin != nil {
			m.builtin(th, c.Builtin, args, &i.Call, func(v Value) { f.regs[f.info.regs[i]] = v })
			return
		}
		if f.isInit && f.fn.Synthetic != "" {
			if c, ok := fnv.(*Closure); ok && c.Fn != nil {
				if c.Fn.Name() == "init" && c.Fn.Synthetic != "" {
					return // other packages are initialised on demand
				}
				if strings.HasPrefix(c.Fn.Name(), "init#") && !m.eng.info(c.Fn).repo && c.Fn.Pkg.Pkg.Path() != "flag" {
					return
				}
			}
		}
		m.invoke(th, fnv, args, f.info.regs[i])
		return
	case *ssa.Go:
		f.pc++
		fnv, args := m.callee(f, &i.Call)
		if fnv == nil {
			return
		}
		m.spawn(fnv, args, m.framePos(f))
		return
	case *ssa.Defer:
		fnv, args := m.callee(f, &i.Call)
		if fnv != nil {
			if i.DeferStack != nil {
				unsup("defer in range-over-func")
			}
			f.defers = append(f.defers, deferRec{fnv, args})
		}
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// stay on this instruction until all are run
			before := len(th.frames)
			m.invoke(th, d.fn, d.args, -1)
			if len(th.frames) > before {
				th.frames[len(th.frames)-1].deferredBy = f
			}
			return
		}
	case *ssa.Panic:
		panic(goPanicSig{m.get(f, i.X)})
	case *ssa.Return:
		var v Value
		switch len(i.Results) {
		case 0:
			v = Tuple{}
		case 1:
			v = m.get(f, i.Results[0])
		default:
			tp := make(Tuple, len(i.Results))
			for k, r := range i.Results {
				tp[k] = m.get(f, r)
			}
			v = tp
		}
		m.ret(th, v)
		return
	case *ssa.Jump:
		m.jump(f, 0)
		return
	case *ssa.If:
		c := m.get(f, i.Cond).(*Term)
		if m.branch(c) {
			m.jump(f, 0)
		} else {
			m.jump(f, 1)
		}
		return
	case *ssa.Phi:
		// evaluated in jump
	case *ssa.Store:
		m.store(m.get(f, i.Addr), m.get(f, i.Val))
	case *ssa.FieldAddr:
		p := m.deref(m.get(f, i.X))
		s, ok := (*p).(Struct)
		if !ok {
			unsup("field of %T", *p)
		}
		set(i, &s[i.Field])
	case *ssa.Field:
		set(i, m.get(f, i.X).(Struct)[i.Field])
	case *ssa.IndexAddr:
		set(i, m.indexAddr(m.get(f, i.X), m.idx64(f, i.Index)))
	case *ssa.Index:
		set(i, m.index(m.get(f, i.X), m.idx64(f, i.Index)))
	case *ssa.Lookup:
		if isString(i.X.Type()) {
			set(i, m.strIndex(m.get(f, i.X).(*Str), m.idx64(f, i.Index)))
		} else {
			set(i, m.lookup(i, m.get(f, i.X), m.get(f, i.Index)))
		}
	case *ssa.MapUpdate:
		m.mapSet(m.get(f, i.Map).(*Map), m.get(f, i.Key), m.get(f, i.Value))
	case *ssa.MakeMap:
		set(i, m.newMap())
	case *ssa.MakeSlice:
		n := m.concInt(m.get(f, i.Len))
		cp := m.concInt(m.get(f, i.Cap))
		if n < 0 {
			m.goPanicStr("runtime error: makeslice: len out of range")
		}
		if cp < n {
			m.goPanicStr("runtime error: makeslice: cap out of range")
		}
		if cp > 1<<22 {
			unsup("huge slice")
		}
		et := under(i.Type()).(*types.Slice).Elem()
		arr := make([]Value, cp)
		for k := range arr {
			arr[k] = m.zero(et)
		}
		set(i, &Slice{arr: arr, n: n, capn: cp, elemType: et})
	case *ssa.MakeChan:
		n := m.concInt(m.get(f, i.Size))
		if n < 0 {
			m.goPanicStr("makechan: size out of range")
		}
		m.nextID++
		set(i, &Chan{id: m.nextID, capn: n})
	case *ssa.MakeInterface:
		v := m.get(f, i.X)
		set(i, Iface{i.X.Type(), v})
	case *ssa.MakeClosure:
		env := make([]Value, len(i.Bindings))
		for k, b := range i.Bindings {
			env[k] = m.get(f, b)
		}
		set(i, &Closure{Fn: i.Fn.(*ssa.Function), Env: env})
	case *ssa.ChangeType:
		set(i, m.get(f, i.X))
	case *ssa.ChangeInterface:
		set(i, m.get(f, i.X))
	case *ssa.Convert:
		set(i, m.convert(i.X.Type(), i.Type(), m.get(f, i.X)))
	case *ssa.MultiConvert:
		set(i, m.convert(i.X.Type(), i.Type(), m.get(f, i.X)))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.Slice:
		set(i, m.slice(f, i))
	case *ssa.TypeAssert:
		set(i, m.typeAssert(i, m.get(f, i.X).(Iface)))
	case *ssa.Extract:
		set(i, m.get(f, i.Tuple).(Tuple)[i.Index])
	case *ssa.Range:
		set(i, m.mkRange(m.get(f, i.X)))
	case *ssa.Next:
		set(i, m.next(i, m.get(f, i.Iter).(*MapIter)))
	case *ssa.Send:
		f.pc++
		m.chanOp(th, &VOp{desc: "send", cases: []chanCase{{dir: dirSend, ch: m.get(f, i.Chan).(*Chan), val: m.get(f, i.X)}}, done: func(int, Value, bool) {}})
		return
	case *ssa.Select:
		f.pc++
		m.selectOp(th, f, i)
		return
	default:
		unsup("instruction %T", in)
	}
	f.pc++
}

func (m *Machine) jump(f *Frame, succ int) {
	f.prev = f.block
	f.block = f.block.Succs[succ]
	f.pc = 0
	// phis in parallel
	var vals []Value
	var regs []int
	for _, in := range f.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range f.block.Preds {
			if pr == f.prev {
				var v Value
				if f.isInit {
					if r, ok := f.info.regs[p.Edges[k]]; ok {
						v = f.regs[r]
					} else {
						v = m.get(f, p.Edges[k])
					}
				} else {
					v = m.get(f, p.Edges[k])
				}
				vals = append(vals, v)
				regs = append(regs, f.info.regs[p])
				break
			}
		}
	}
	for k := range vals {
		f.regs[regs[k]] = vals[k]
	}
}

func (m *Machine) unop(i *ssa.UnOp, x Value) Value {
	switch i.Op {
	case token.MUL:
		return m.load(x)
	case token.NOT:
		return m.tt.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.fp {
			return m.tt.FUn(OFNeg, t)
		}
		return m.tt.Bin(OSub, m.tt.BV(0, t.w), t)
	case token.XOR:
		return m.tt.BNot(x.(*Term))
	}
	unsup("unop %v", i.Op)
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	tt := m.tt
	switch op {
	case token.EQL:
		return m.eq2(x, y)
	case token.NEQ:
		return tt.Not(m.eq2(x, y))
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		switch op {
		case token.ADD:
			return m.concat(sx, sy)
		case token.LSS:
			return m.ltStr(sx, sy)
		case token.GTR:
			return m.ltStr(sy, sx)
		case token.LEQ:
			return tt.Not(m.ltStr(sy, sx))
		case token.GEQ:
			return tt.Not(m.ltStr(sx, sy))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %v on %T,%T", op, x, y)
	}
	bt, ok := under(t).(*types.Basic)
	if !ok {
		unsup("binop on %v", t)
	}
	_, fp, signed := basicSort(bt)
	if fp {
		switch op {
		case token.ADD:
			return tt.FBin(OFAdd, a, b)
		case token.SUB:
			return tt.FBin(OFSub, a, b)
		case token.MUL:
			return tt.FBin(OFMul, a, b)
		case token.QUO:
			return tt.FBin(OFDiv, a, b)
		case token.LSS:
			return tt.FBin(OFLt, a, b)
		case token.LEQ:
			return tt.FBin(OFLe, a, b)
		case token.GTR:
			return tt.FBin(OFLt, b, a)
		case token.GEQ:
			return tt.FBin(OFLe, b, a)
		}
	}
	if a.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return tt.And(a, b)
		case token.OR, token.LOR:
			return tt.Or(a, b)
		}
	}
	switch op {
	case token.ADD:
		return tt.Bin(OAdd, a, b)
	case token.SUB:
		return tt.Bin(OSub, a, b)
	case token.MUL:
		return tt.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(tt.Eq(b, tt.BV(0, b.w))) {
			m.goPanicStr("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return m.sdiv(a, b)
		case op == token.QUO:
			return m.udivShrink(OUDiv, a, b)
		case signed:
			return m.srem(a, b)
		}
		return m.udivShrink(OURem, a, b)
	case token.AND:
		return tt.Bin(OBAnd, a, b)
	case token.OR:
		return tt.Bin(OBOr, a, b)
	case token.XOR:
		return tt.Bin(OBXor, a, b)
	case token.AND_NOT:
		return tt.Bin(OBAnd, a, tt.BNot(b))
	case token.SHL, token.SHR:
		ybt := under(yt).(*types.Basic)
		_, _, ysigned := basicSort(ybt)
		if ysigned && m.branch(tt.Bin(OSLt, b, tt.BV(0, b.w))) {
			m.goPanicStr("runtime error: negative shift amount")
		}
		// bring the shift amount to the operand width, saturating
		if b.w > a.w {
			big := tt.Bin(OULe, tt.BV(uint64(a.w), b.w), b)
			b = tt.Ite(big, tt.BV(uint64(a.w), a.w), tt.Extract(b, a.w))
		} else if b.w < a.w {
			b = tt.ZExt(b, a.w)
		}
		if op == token.SHL {
			return tt.Bin(OShl, a, b)
		}
		if signed {
			return tt.Bin(OAShr, a, b)
		}
		return tt.Bin(OLShr, a, b)
	case token.LSS:
		return tt.Bin(pick(signed, OSLt, OULt), a, b)
	case token.LEQ:
		return tt.Bin(pick(signed, OSLe, OULe), a, b)
	case token.GTR:
		return tt.Bin(pick(signed, OSLt, OULt), b, a)
	case token.GEQ:
		return tt.Bin(pick(signed, OSLe, OULe), b, a)
	}
	unsup("binop %v", op)
	return nil
}

// upper bound on the unsigned value of t, for strength reduction
func ubound(t *Term) uint64 {
	_, hi := t.rng()
	return hi
}

func (m *Machine) udivShrink(op Op, a, b *Term) *Term {
	tt := m.tt
	// a = x*c (+ y, y < c) with no overflow, divided by c
	if b.isConst() {
		c := b.val
		ub := ubound(a)
		if ub < c {
			if op == OUDiv {
				return tt.BV(0, a.w)
			}
			return a
		}
		split := func(t *Term) (x *Term, k uint64, ok bool) {
			if t.op == OMul && t.args[1].isConst() && t.args[1].val != 0 {
				k := t.args[1].val
				u := ubound(t.args[0])
				if u == 0 || (u*k)/u == k && u*k <= mask(t.w) {
					return t.args[0], k, true
				}
			}
			return nil, 0, false
		}
		if x, k, ok := split(a); ok && k%c == 0 {
			if op == OURem {
				return tt.BV(0, a.w)
			}
			return tt.Bin(OMul, x, tt.BV(k/c, a.w))
		}
		if a.op == OAdd && ubound(a) < mask(a.w) {
			for q := 0; q < 2; q++ {
				if x, k, ok := split(a.args[q]); ok && k%c == 0 {
					r := a.args[1-q]
					if op == OURem {
						return m.udivShrink(OURem, r, b)
					}
					return tt.Bin(OAdd, tt.Bin(OMul, x, tt.BV(k/c, a.w)), m.udivShrink(OUDiv, r, b))
				}
			}
		}
		// narrow the division when the operand is small
		for _, w := range []uint8{16, 32, 48} {
			if w < a.w && ub <= mask(w) && c <= mask(w) {
				return tt.ZExt(tt.Bin(op, tt.Extract(a, w), tt.BV(c, w)), a.w)
			}
		}
	}
	return tt.Bin(op, a, b)
}

func (m *Machine) sdiv(a, b *Term) *Term {
	half := mask(a.w) >> 1
	if ubound(a) <= half && ubound(b) <= half {
		return m.udivShrink(OUDiv, a, b)
	}
	return m.tt.Bin(OSDiv, a, b)
}
func (m *Machine) srem(a, b *Term) *Term {
	half := mask(a.w) >> 1
	if ubound(a) <= half && ubound(b) <= half {
		return m.udivShrink(OURem, a, b)
	}
	return m.tt.Bin(OSRem, a, b)
}

func pick(b bool, x, y Op) Op {
	if b {
		return x
	}
	return y
}

// eq2 handles nil comparisons across static types.
func (m *Machine) eq2(x, y Value) *Term {
	if sx, ok := x.(*Slice); ok {
		sy, _ := y.(*Slice)
		return m.tt.Bool(sx == sy || (sx == nil) == (sy == nil) && sx == nil)
	}
	_, xi := x.(Iface)
	_, yi := y.(Iface)
	if xi != yi {
		unsup("mixed interface comparison")
	}
	return m.eq(x, y)
}

func (m *Machine) bounds(idx *Term, n int) {
	tt := m.tt
	ok := tt.Bin(OULt, idx, tt.Int(int64(n)))
	if !m.branch(ok) {
		m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%s] with length %d", m.show(idx, 0), n))
	}
}

// idx64 evaluates an index operand as a 64-bit term.
func (m *Machine) idx64(f *Frame, v ssa.Value) *Term {
	t := m.get(f, v).(*Term)
	if t.w == 64 {
		return t
	}
	_, _, signed := basicSort(under(v.Type()).(*types.Basic))
	if signed {
		return m.tt.SExt(t, 64)
	}
	return m.tt.ZExt(t, 64)
}

func (m *Machine) indexAddr(x Value, idx *Term) Value {
	switch s := x.(type) {
	case *Slice:
		if s == nil {
			m.goPanicStr("runtime error: index out of range with length 0")
		}
		if s.opaque != nil {
			m.materialise(s)
		}
		m.bounds(idx, s.n)
		if idx.isConst() {
			return &s.arr[s.off+int(idx.val)]
		}
		return m.symElem(s.arr[s.off:s.off+s.n], idx)
	case *Value: // pointer to array
		a, ok := (*m.deref(s)).(Array)
		if !ok {
			unsup("index of %T", *s)
		}
		m.bounds(idx, len(a))
		if idx.isConst() {
			return &a[idx.val]
		}
		return m.symElem(a, idx)
	}
	unsup("indexaddr %T", x)
	return nil
}

func (m *Machine) symElem(a []Value, idx *Term) Value {
	scalar := true
	for _, v := range a {
		if _, ok := v.(*Term); !ok {
			scalar = false
			break
		}
	}
	if !scalar {
		return &a[m.concretize(idx)]
	}
	se := &SymElem{idx: idx}
	for i := range a {
		se.slots = append(se.slots, &a[i])
	}
	return se
}

func (m *Machine) index(x Value, idx *Term) Value {
	switch s := x.(type) {
	case Array:
		m.bounds(idx, len(s))
		if idx.isConst() {
			return s[idx.val]
		}
		return m.load(m.symElem(s, idx))
	case *Str:
		return m.strIndex(s, idx)
	}
	unsup("index %T", x)
	return nil
}

func (m *Machine) strIndex(s *Str, idx *Term) Value {
	if len(s.segs) > 0 && s.segs[0].k == sBytes && idx.isConst() && int(idx.val) < len(s.segs[0].bs) {
		return s.segs[0].bs[idx.val]
	}
	if len(s.segs) > 0 && s.segs[0].k == sLit && idx.isConst() && int(idx.val) < len(s.segs[0].l) {
		return m.tt.BV(uint64(s.segs[0].l[idx.val]), 8)
	}
	bs := m.bytesOf(s)
	m.bounds(idx, len(bs))
	if idx.isConst() {
		return bs[idx.val]
	}
	r := bs[len(bs)-1]
	for i := len(bs) - 2; i >= 0; i-- {
		r = m.tt.Ite(m.tt.Eq(idx, m.tt.BV(uint64(i), idx.w)), bs[i], r)
	}
	return r
}

func (m *Machine) lookup(i *ssa.Lookup, x, k Value) Value {
	mp := x.(*Map)
	mt := under(i.X.Type()).(*types.Map)
	if ki, ok := k.(Iface); ok && ki.T != nil && !types.Comparable(ki.T) {
		m.goPanicStr("runtime error: hash of unhashable type " + ki.T.String())
	}
	e := m.mapFind(mp, k)
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = m.zero(mt.Elem())
	}
	if i.CommaOk {
		return Tuple{v, m.tt.Bool(e != nil)}
	}
	return v
}

func (m *Machine) materialise(s *Slice) {
	bs := m.bytesOf(s.opaque)
	s.opaque = nil
	s.arr = make([]Value, len(bs))
	for i, b := range bs {
		s.arr[i] = b
	}
	s.off, s.n, s.capn = 0, len(bs), len(bs)
}

func (m *Machine) byteSlice(s *Str) *Slice {
	if _, ok := s.lit(); !ok && s.hasBlob() {
		return &Slice{opaque: s, elemType: types.Typ[types.Byte]}
	}
	bs := m.bytesOf(s)
	arr := make([]Value, len(bs))
	for i, b := range bs {
		arr[i] = b
	}
	return &Slice{arr: arr, n: len(bs), capn: len(bs), elemType: types.Typ[types.Byte]}
}

func (m *Machine) sliceToStr(s *Slice) *Str {
	if s == nil {
		return emptyStr
	}
	if s.opaque != nil {
		return s.opaque
	}
	var as []atom
	for i := 0; i < s.n; i++ {
		as = append(as, atom{b: s.arr[s.off+i].(*Term)})
	}
	return m.fromAtoms(as)
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	tt := m.tt
	fu, tu := under(from), under(to)
	if fs, ok := fu.(*types.Slice); ok {
		if isString(to) {
			eb := under(fs.Elem()).(*types.Basic)
			s := x.(*Slice)
			if eb.Kind() == types.Byte {
				return m.sliceToStr(s)
			}
			// []rune
			var sb strings.Builder
			if s != nil {
				for i := 0; i < s.n; i++ {
					sb.WriteRune(rune(int32(m.concretize(s.arr[s.off+i].(*Term)))))
				}
			}
			return lit(sb.String())
		}
	}
	if isString(from) {
		if ts, ok := tu.(*types.Slice); ok {
			eb := under(ts.Elem()).(*types.Basic)
			if eb.Kind() == types.Byte {
				return m.byteSlice(x.(*Str))
			}
			l, ok := x.(*Str).lit()
			if !ok {
				bs := m.bytesOf(x.(*Str))
				arr := []Value{}
				for pos := 0; pos < len(bs); {
					r, n := m.decodeRune(bs, pos)
					arr = append(arr, r)
					pos += n
				}
				return &Slice{arr: arr, n: len(arr), capn: len(arr), elemType: ts.Elem()}
			}
			rs := []rune(l)
			arr := make([]Value, len(rs))
			for i, r := range rs {
				arr[i] = tt.BV(uint64(uint32(r)), 32)
			}
			return &Slice{arr: arr, n: len(rs), capn: len(rs), elemType: ts.Elem()}
		}
		if isString(to) {
			return x
		}
	}
	if isString(to) {
		if t, ok := x.(*Term); ok {
			v := m.concretize(t)
			return lit(string(rune(sext(v, t.w))))
		}
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 && fb.Kind() != types.UnsafePointer && tb.Kind() != types.UnsafePointer {
		t, ok := x.(*Term)
		if !ok {
			unsup("convert %v to %v", from, to)
		}
		_, ffp, fsig := basicSort(fb)
		tw, tfp, tsig := basicSort(tb)
		switch {
		case ffp && tfp:
			return tt.FToF(t, tw)
		case tfp:
			return tt.IToF(t, fsig, tw)
		case ffp:
			if !tsig && tw == 64 {
				if t.isConst() {
					return tt.BV(uint64(t.f64()), 64)
				}
				unsup("float to uint64")
			}
			return tt.Extract(tt.FToS(t, 64), tw)
		}
		if tw == t.w {
			return t
		}
		if tw < t.w {
			return tt.Extract(t, tw)
		}
		if fsig {
			return tt.SExt(t, tw)
		}
		return tt.ZExt(t, tw)
	}
	// pointers, unsafe
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok2 := tu.(*types.Pointer); ok2 {
			return x
		}
		return x // to unsafe.Pointer: opaque
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		unsup("unsafe conversion to %v", to)
	}
	if types.Identical(fu, tu) {
		return x
	}
	unsup("convert %v to %v", from, to)
	return nil
}

func (m *Machine) slice(f *Frame, i *ssa.Slice) Value {
	x := m.get(f, i.X)
	lo, hi, mx := 0, -1, -1
	if i.Low != nil {
		lo = m.concInt(m.get(f, i.Low))
	}
	if i.High != nil {
		hi = m.concInt(m.get(f, i.High))
		if hi < 0 {
			m.goPanicStr("runtime error: slice bounds out of range")
		}
	}
	if i.Max != nil {
		mx = m.concInt(m.get(f, i.Max))
		if mx < 0 {
			m.goPanicStr("runtime error: slice bounds out of range")
		}
	}
	if lo < 0 {
		m.goPanicStr("runtime error: slice bounds out of range")
	}
	switch s := x.(type) {
	case *Str:
		return m.sliceStr(s, lo, hi)
	case *Slice:
		if s == nil {
			if lo > 0 || hi > 0 || mx > 0 {
				m.goPanicStr("runtime error: slice bounds out of range")
			}
			return (*Slice)(nil)
		}
		if s.opaque != nil {
			if lo == 0 && hi < 0 {
				return s
			}
			if lo == 0 && hi == 0 {
				return &Slice{arr: []Value{}, elemType: s.elemType}
			}
			m.materialise(s)
		}
		if hi < 0 {
			hi = s.n
		}
		if mx < 0 {
			mx = s.capn
		}
		if lo > hi || hi > mx || mx > s.capn {
			m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.capn))
		}
		return &Slice{arr: s.arr, off: s.off + lo, n: hi - lo, capn: mx - lo, elemType: s.elemType}
	case *Value:
		a := (*m.deref(s)).(Array)
		if hi < 0 {
			hi = len(a)
		}
		if mx < 0 {
			mx = len(a)
		}
		if lo > hi || hi > mx || mx > len(a) {
			m.goPanicStr("runtime error: slice bounds out of range")
		}
		return &Slice{arr: a, off: lo, n: hi - lo, capn: mx - lo, elemType: under(i.X.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Elem()}
	}
	unsup("slice of %T", x)
	return nil
}

func (m *Machine) typeAssert(i *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.T != nil {
		if it, isI := under(i.AssertedType).(*types.Interface); isI {
			ok = types.Implements(x.T, it)
			if ok {
				v = x
			}
		} else {
			ok = types.Identical(x.T, i.AssertedType)
			if ok {
				v = copyVal(x.V)
			}
		}
	}
	if i.CommaOk {
		if !ok {
			v = m.zero(i.AssertedType)
		}
		return Tuple{v, m.tt.Bool(ok)}
	}
	if !ok {
		if x.T == nil {
			m.goPanicStr("interface conversion: interface is nil, not " + i.AssertedType.String())
		}
		m.goPanicStr("interface conversion: interface is " + x.T.String() + ", not " + i.AssertedType.String())
	}
	return v
}

func (m *Machine) mkRange(x Value) Value {
	switch s := x.(type) {
	case *Str:
		return &MapIter{isStr: true, str: m.bytesOf(s)}
	case *Map:
		it := &MapIter{m: s, nondet: m.mapNondet && m.initing == 0}
		if s != nil {
			for _, e := range s.entries {
				if !e.dead {
					it.snap = append(it.snap, e)
				}
			}
		}
		return it
	}
	unsup("range over %T", x)
	return nil
}

func (m *Machine) next(i *ssa.Next, it *MapIter) Value {
	tt := m.tt
	if it.isStr {
		if it.pos >= len(it.str) {
			return Tuple{tt.F, tt.Int(0), tt.BV(0, 32)}
		}
		p := it.pos
		r, n := m.decodeRune(it.str, p)
		it.pos += n
		return Tuple{tt.T, tt.Int(int64(p)), r}
	}
	tup := i.Type().(*types.Tuple)
	for len(it.snap) > 0 {
		k := 0
		if it.nondet {
			live := it.snap[:0]
			for _, e := range it.snap {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.snap = live
			if len(it.snap) == 0 {
				break
			}
			k = m.choose(len(it.snap))
		}
		e := it.snap[k]
		it.snap = append(append([]*mapEntry{}, it.snap[:k]...), it.snap[k+1:]...)
		if e.dead {
			continue
		}
		return Tuple{tt.T, copyVal(e.k), copyVal(e.v)}
	}
	z := func(j int) Value {
		t := tup.At(j).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return tt.F
		}
		return m.zero(t)
	}
	return Tuple{tt.F, z(1), z(2)}
}

// decodeRune decodes one UTF-8 sequence from symbolic bytes.
func (m *Machine) decodeRune(bs []*Term, p int) (*Term, int) {
	tt := m.tt
	b := bs[p]
	if m.branch(tt.Bin(OULt, b, tt.BV(0x80, 8))) {
		return tt.ZExt(b, 32), 1
	}
	rest := bs[p:min(len(bs), p+4)]
	conc := true
	for _, x := range rest {
		if !x.isConst() {
			conc = false
		}
	}
	if conc {
		r, n := utf8.DecodeRune([]byte(constBytes(rest)))
		return tt.BV(uint64(uint32(r)), 32), n
	}
	in := func(x *Term, lo, hi uint64) *Term {
		return tt.And(tt.Bin(OULe, tt.BV(lo, 8), x), tt.Bin(OULe, x, tt.BV(hi, 8)))
	}
	sh := func(x *Term, mk uint64, s uint64) *Term {
		return tt.Bin(OShl, tt.ZExt(tt.Bin(OBAnd, x, tt.BV(mk, 8)), 32), tt.BV(s, 32))
	}
	or := func(a, b *Term) *Term { return tt.Bin(OBOr, a, b) }
	bad := tt.BV(0xFFFD, 32)
	if len(rest) >= 2 {
		if m.branch(tt.And(in(b, 0xC2, 0xDF), in(rest[1], 0x80, 0xBF))) {
			return or(sh(b, 0x1F, 6), sh(rest[1], 0x3F, 0)), 2
		}
	}
	if len(rest) >= 3 {
		c := tt.And(in(rest[2], 0x80, 0xBF), tt.OrN(
			tt.And(tt.Eq(b, tt.BV(0xE0, 8)), in(rest[1], 0xA0, 0xBF)),
			tt.And(in(b, 0xE1, 0xEC), in(rest[1], 0x80, 0xBF)),
			tt.And(tt.Eq(b, tt.BV(0xED, 8)), in(rest[1], 0x80, 0x9F)),
			tt.And(in(b, 0xEE, 0xEF), in(rest[1], 0x80, 0xBF))))
		if m.branch(c) {
			return or(or(sh(b, 0x0F, 12), sh(rest[1], 0x3F, 6)), sh(rest[2], 0x3F, 0)), 3
		}
	}
	if len(rest) >= 4 {
		c := tt.And(tt.And(in(rest[2], 0x80, 0xBF), in(rest[3], 0x80, 0xBF)), tt.OrN(
			tt.And(tt.Eq(b, tt.BV(0xF0, 8)), in(rest[1], 0x90, 0xBF)),
			tt.And(in(b, 0xF1, 0xF3), in(rest[1], 0x80, 0xBF)),
			tt.And(tt.Eq(b, tt.BV(0xF4, 8)), in(rest[1], 0x80, 0x8F))))
		if m.branch(c) {
			return or(or(sh(b, 0x07, 18), sh(rest[1], 0x3F, 12)), or(sh(rest[2], 0x3F, 6), sh(rest[3], 0x3F, 0))), 4
		}
	}
	return bad, 1
}

// callee evaluates the function and arguments of a call. A nil function means
// the call is stubbed out.
func (m *Machine) callee(f *Frame, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	if !c.IsInvoke() {
		fnv := m.get(f, c.Value)
		for _, a := range c.Args {
			args = append(args, m.get(f, a))
		}
		return fnv, args
	}
	recv, ok := m.get(f, c.Value).(Iface)
	if !ok {
		unsup("invoke on %T", m.get(f, c.Value))
	}
	if !(recv.T != nil && strings.HasPrefix(typePkg(recv.T), "open-match.dev/")) && m.eng.stubIface(c.Value.Type(), c.Method) {
		m.stubsHit["interface "+c.Value.Type().String()] = true
		return nil, nil
	}
	if recv.T == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference (method " + c.Method.Name() + " on nil interface)")
	}
	fn := m.eng.method(recv.T, c.Method.Pkg(), c.Method.Name())
	if fn == nil {
		unsup("no method %s on %v", c.Method.Name(), recv.T)
	}
	args = append(args, recv.V)
	for _, a := range c.Args {
		args = append(args, m.get(f, a))
	}
	return m.funcVal(fn), args
}

func (m *Machine) mkSlice(et types.Type, vs []Value) *Slice {
	return &Slice{arr: vs, n: len(vs), capn: len(vs), elemType: et}
}

func (m *Machine) builtin(th *Thread, b *ssa.Builtin, args []Value, c *ssa.CallCommon, deliver func(Value)) {
	tt := m.tt
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			deliver(m.strLen(x))
		case *Slice:
			if x == nil {
				deliver(tt.Int(0))
			} else if x.opaque != nil {
				deliver(m.strLen(x.opaque))
			} else {
				deliver(tt.Int(int64(x.n)))
			}
		case *Map:
			if x == nil {
				deliver(tt.Int(0))
			} else {
				deliver(tt.Int(int64(x.live)))
			}
		case *Chan:
			if x == nil {
				deliver(tt.Int(0))
			} else {
				deliver(tt.Int(int64(len(x.buf))))
			}
		case Array:
			deliver(tt.Int(int64(len(x))))
		case *Value:
			deliver(tt.Int(int64(len((*x).(Array)))))
		default:
			unsup("len %T", x)
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			if x == nil {
				deliver(tt.Int(0))
			} else {
				if x.opaque != nil {
					m.materialise(x)
				}
				deliver(tt.Int(int64(x.capn)))
			}
		case *Chan:
			deliver(tt.Int(int64(x.capn)))
		case Array:
			deliver(tt.Int(int64(len(x))))
		case *Value:
			deliver(tt.Int(int64(len((*x).(Array)))))
		default:
			unsup("cap %T", x)
		}
	case "append":
		s, _ := args[0].(*Slice)
		var add []Value
		switch y := args[1].(type) {
		case *Slice:
			if y != nil {
				if y.opaque != nil {
					if s == nil || s.n == 0 {
						deliver(&Slice{opaque: y.opaque, elemType: types.Typ[types.Byte]})
						return
					}
					m.materialise(y)
				}
				add = y.arr[y.off : y.off+y.n]
			}
		case *Str:
			if y.hasBlob() {
				pre := emptyStr
				if s != nil {
					pre = m.sliceToStr(s)
				}
				deliver(&Slice{opaque: m.concat(pre, y), elemType: types.Typ[types.Byte]})
				return
			}
			for _, t := range m.bytesOf(y) {
				add = append(add, t)
			}
		default:
			unsup("append %T", y)
		}
		if s != nil && s.opaque != nil {
			if len(add) == 0 {
				deliver(s)
				return
			}
			m.materialise(s)
		}
		if s == nil {
			if len(add) == 0 {
				deliver((*Slice)(nil))
				return
			}
			s = &Slice{}
			if y, ok := args[1].(*Slice); ok && y != nil {
				s.elemType = y.elemType
			}
		}
		n := s.n + len(add)
		if n <= s.capn {
			for i, v := range add {
				s.arr[s.off+s.n+i] = copyVal(v)
			}
			deliver(&Slice{arr: s.arr, off: s.off, n: n, capn: s.capn, elemType: s.elemType})
			return
		}
		nc := growCap(s.capn, n)
		arr := make([]Value, nc)
		for i := 0; i < s.n; i++ {
			arr[i] = copyVal(s.arr[s.off+i])
		}
		for i, v := range add {
			arr[s.n+i] = copyVal(v)
		}
		var z Value
		if s.elemType != nil && nc > n {
			z = m.zero(s.elemType)
		}
		for i := n; i < nc; i++ {
			arr[i] = copyVal(z)
		}
		deliver(&Slice{arr: arr, n: n, capn: nc, elemType: s.elemType})
	case "copy":
		d, _ := args[0].(*Slice)
		var src []Value
		switch y := args[1].(type) {
		case *Slice:
			if y != nil {
				if y.opaque != nil {
					m.materialise(y)
				}
				src = y.arr[y.off : y.off+y.n]
			}
		case *Str:
			for _, t := range m.bytesOf(y) {
				src = append(src, t)
			}
		}
		n := 0
		if d != nil {
			if d.opaque != nil {
				m.materialise(d)
			}
			n = min(d.n, len(src))
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				d.arr[d.off+i] = tmp[i]
			}
		}
		deliver(tt.Int(int64(n)))
	case "delete":
		mp, _ := args[0].(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		deliver(Tuple{})
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.entries, x.idx, x.live, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
		case *Slice:
			if x != nil {
				for i := 0; i < x.n; i++ {
					storeInto(&x.arr[x.off+i], m.zero(x.elemType))
				}
			}
		}
		deliver(Tuple{})
	case "close":
		ch := args[0].(*Chan)
		m.visible(th, &VOp{desc: "close", enabled: func() bool { return true }, exec: func() {
			if ch == nil {
				panic(goPanicSig{m.mkRuntimeErr("close of nil channel")})
			}
			if ch.closed {
				panic(goPanicSig{m.mkRuntimeErr("close of closed channel")})
			}
			ch.closed = true
			deliver(Tuple{})
		}})
	case "panic":
		panic(goPanicSig{args[0]})
	case "recover":
		top := th.frames[len(th.frames)-1]
		if d := top.deferredBy; d != nil && d.panicking != nil && !d.panicking.recovered {
			d.panicking.recovered = true
			v := d.panicking.val
			deliver(v)
			return
		}
		deliver(Iface{})
	case "print", "println":
		deliver(Tuple{})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			bt := types.Type(types.Typ[types.Int])
			if c != nil {
				bt = c.Args[0].Type()
			}
			if b.Name() == "min" {
				lt = m.binop(token.LSS, bt, a, r, bt).(*Term)
			} else {
				lt = m.binop(token.LSS, bt, r, a, bt).(*Term)
			}
			if x, ok := r.(*Term); ok {
				r = tt.Ite(lt, a.(*Term), x)
			} else if m.branch(lt) {
				r = a
			}
		}
		deliver(r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.goPanicStr("value method called using nil pointer")
		}
		deliver(args[0])
	default:
		unsup("builtin %s", b.Name())
	}
}

func growCap(old, n int) int {
	nc := old
	if nc == 0 {
		return n
	}
	if n > old*2 {
		return n
	}
	if old < 256 {
		return old * 2
	}
	for nc < n {
		nc += (nc + 3*256) / 4
	}
	return nc
}

var initDebug = os.Getenv("VERIF_INIT") != ""

// typePkg is the path of the package that declares t or what t points to.
func typePkg(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}
