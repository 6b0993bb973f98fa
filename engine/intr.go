package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	th       *Thread
	fn       *ssa.Function
	args     []Value
	deliver  func(Value)
	deferred bool // result is delivered later (visible operation or pushed frame)
}

type intrinsic func(m *Machine, c *callCtx) Value

// real runs the function's own code instead of the intrinsic.
func (c *callCtx) real(m *Machine) Value {
	d := c.deliver
	m.pushFrame(c.th, c.fn, c.args, nil, -1).onRet = d
	c.deferred = true
	return nil
}

func (c *callCtx) visible(m *Machine, desc string, enabled func() bool, exec func() Value) Value {
	d := c.deliver
	op := &VOp{desc: desc, enabled: enabled, exec: func() { d(exec()) }}
	m.visible(c.th, op)
	c.deferred = true
	return nil
}

func always() bool { return true }

func (c *callCtx) str(i int) *Str   { return c.args[i].(*Str) }
func (c *callCtx) term(i int) *Term { return c.args[i].(*Term) }
func (c *callCtx) lit(i int) string {
	l, ok := c.str(i).lit()
	if !ok {
		unsup("%s needs a concrete string", c.fn)
	}
	return l
}

// packages whose functions have no effect on the properties
var stubPkgs = map[string]bool{
	"log": true, "net/http": true, "net": true, "google.golang.org/grpc": true, "google.golang.org/grpc/credentials/insecure": true,
	"google.golang.org/grpc/credentials": true, "os/signal": true, "google.golang.org/grpc/grpclog": true, "google.golang.org/grpc/internal/grpclog": true, "expvar": true, "net/http/pprof": true,
}
var stubPrefixes = []string{"github.com/sirupsen/logrus", "go.opentelemetry.io/", "github.com/davecgh/go-spew", "github.com/prometheus/client_golang/", "github.com/TV4/logrus-stackdriver-formatter"}

func stubPath(p string) bool {
	if stubPkgs[p] {
		return true
	}
	for _, x := range stubPrefixes {
		if strings.HasPrefix(p, x) {
			return true
		}
	}
	return false
}

func skipInit(p string) bool {
	return stubPath(p) || strings.HasPrefix(p, "google.golang.org/protobuf/internal") || strings.HasPrefix(p, "crypto") || p == "reflect" || p == "runtime" || p == "syscall" || p == "os" || strings.HasPrefix(p, "internal/") && p != "internal/strconv"
}

func (e *Engine) stubIface(t types.Type, meth *types.Func) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		for _, x := range stubPrefixes {
			if strings.HasPrefix(p, x) {
				return true
			}
		}
	}
	return false
}

func vmName(o *ssa.Function) string {
	if o.Pkg == nil {
		return ""
	}
	base := pkgBase(o.Pkg.Pkg.Path())
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return "VM_" + base + "_" + n.Obj().Name() + "_" + o.Name()
		}
		return ""
	}
	return "VM_" + base + "_" + o.Name()
}

func pkgBase(p string) string {
	parts := strings.Split(p, "/")
	b := parts[len(parts)-1]
	if len(parts) > 1 && len(b) > 1 && b[0] == 'v' && isDigit(b[1]) {
		b = parts[len(parts)-2]
	}
	return strings.NewReplacer("-", "_", ".", "_").Replace(b)
}

func (e *Engine) classify(fn, o *ssa.Function, fi *fnInfo) {
	path := ""
	if o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		path = o.Object().Pkg().Path()
	}
	if strings.HasPrefix(path, "open-match.dev/") {
		f := filepath.Base(e.prog.Fset.Position(fn.Pos()).Filename)
		fi.repo = !strings.HasPrefix(f, "zz_verif") && f != "." && !strings.HasSuffix(f, ".pb.go")
	}
	if o.Synthetic != "" && o.Synthetic != "package initializer" && !strings.HasPrefix(o.Synthetic, "from type information") && fn.Origin() == nil {
		return // wrappers, thunks, bound methods
	}
	if n := vmName(o); n != "" {
		if vm := e.vm[n]; vm != nil && vm != fn {
			fi.model = vm
			return
		}
	}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		return
	}
	if strings.HasPrefix(path, "open-match.dev/pkg/") && strings.HasPrefix(o.Name(), "file_") && strings.HasSuffix(o.Name(), "_init") {
		fi.stub = true
		return
	}
	if strings.HasPrefix(o.Name(), "file_") && strings.HasSuffix(o.Name(), "_init") {
		fi.stub = true
		return
	}
	if o.Name() == "String" && isProtoMethod(o) {
		fi.intr = func(m *Machine, c *callCtx) Value { return lit("<message>") }
		return
	}
	if path == "net" && (o.Name() == "JoinHostPort" || o.Name() == "SplitHostPort" || o.Name() == "splitHostZone" || strings.HasPrefix(o.Name(), "SplitHostPort$") || fi.name == "(*net.AddrError).Error") {
		return // pure
	}
	if o.Name() == "Reset" && isProtoMethod(o) {
		fi.intr = func(m *Machine, c *callCtx) Value {
			p := m.sideKey(c.args[0])
			storeInto(p, m.zero(c.fn.Signature.Recv().Type().(*types.Pointer).Elem()))
			return Tuple{}
		}
		return
	}
	if stubPath(path) {
		nm := o.Name()
		if strings.HasPrefix(path, "github.com/sirupsen/logrus") || path == "log" {
			if strings.HasPrefix(nm, "Fatal") || nm == "Exit" {
				fi.intr = func(m *Machine, c *callCtx) Value {
					panic(goPanicSig{Iface{types.Typ[types.String], lit("process exit (" + nm + ")")}})
				}
				return
			}
			if strings.HasPrefix(nm, "Panic") {
				fi.intr = func(m *Machine, c *callCtx) Value {
					panic(goPanicSig{Iface{types.Typ[types.String], lit("logger panic")}})
				}
				return
			}
		}
		fi.stub = true
		return
	}
}

func isProtoMethod(o *ssa.Function) bool {
	r := o.Signature.Recv()
	if r == nil {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return false
	}
	return isProtoMsg(p.Elem())
}

func isProtoMsg(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return false
	}
	return strings.HasSuffix(s.Field(0).Type().String(), "protoimpl.MessageState") || strings.HasSuffix(s.Field(0).Type().String(), "impl.MessageState")
}

func (m *Machine) stubResult(fn *ssa.Function, args []Value) Value { return m.stubSig(fn.Signature) }

func (m *Machine) stubSig(sig *types.Signature) Value {
	res := sig.Results()
	one := func(t types.Type) Value {
		if p, ok := t.(*types.Pointer); ok {
			if _, ok := under(p.Elem()).(*types.Struct); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && stubPath(n.Obj().Pkg().Path()) {
					return newVal(m.zero(p.Elem()))
				}
			}
		}
		return m.zero(t)
	}
	switch res.Len() {
	case 0:
		return Tuple{}
	case 1:
		return one(res.At(0).Type())
	}
	tp := make(Tuple, res.Len())
	for i := range tp {
		tp[i] = one(res.At(i).Type())
	}
	return tp
}

func (m *Machine) sideKey(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		unsup("model object addressed by %T", v)
	}
	if p == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

type mutexState struct {
	locked  bool
	readers int
}
type wgState struct{ n int }
type iterKey int
type visitKey struct {
	it *MapIter
	e  *mapEntry
}
type syncMapState struct{ mp *Map }
type condState struct{ waiters []*bool }

func (m *Machine) mutex(p *Value) *mutexState {
	if s, ok := m.side[p].(*mutexState); ok {
		return s
	}
	s := &mutexState{}
	m.side[p] = s
	return s
}
func (m *Machine) wg(p *Value) *wgState {
	if s, ok := m.side[p].(*wgState); ok {
		return s
	}
	s := &wgState{}
	m.side[p] = s
	return s
}
func (m *Machine) smap(p *Value) *syncMapState {
	if s, ok := m.side[p].(*syncMapState); ok {
		return s
	}
	s := &syncMapState{mp: m.newMap()}
	m.side[p] = s
	return s
}

func (m *Machine) lookupType(pkg, name string) types.Type {
	for _, p := range m.eng.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	unsup("type %s.%s not found", pkg, name)
	return nil
}

// timeVal builds a time.Time for seconds since the Unix epoch.
func (m *Machine) timeVal(sec, nsec *Term) Value {
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return Struct{nsec, m.tt.Bin(OAdd, sec, m.tt.Int(unixToInternal)), (*Value)(nil)}
}

func (m *Machine) nowTerms() (sec, nsec *Term) {
	tt := m.tt
	s := m.now / 1e9
	ns := m.now % 1e9
	n := tt.Bin(OAdd, m.baseNsec, tt.Int(ns))
	if m.tickOff != nil {
		n = tt.Bin(OAdd, n, tt.Bin(OMul, m.tickOff, tt.Int(1e6)))
	}
	sec = tt.Bin(OAdd, m.baseSec, tt.Int(s))
	if n.isConst() {
		if n.val >= 1e9 {
			return tt.Bin(OAdd, sec, tt.Int(1)), tt.BV(n.val-1e9, 64)
		}
		return sec, n
	}
	if ns == 0 && m.tickOff == nil {
		return sec, n
	}
	c := tt.Bin(OULe, tt.Int(1e9), n)
	return tt.Ite(c, tt.Bin(OAdd, sec, tt.Int(1)), sec), tt.Ite(c, tt.Bin(OSub, n, tt.Int(1e9)), n)
}

// tick lets the clock go on by an arbitrary number of milliseconds (vsym.Ticking).
func (m *Machine) tick() {
	if m.tickMax == 0 {
		return
	}
	tt := m.tt
	n := fmt.Sprintf("clock.%d", m.ticks)
	m.ticks++
	t := tt.Var(n, 64)
	m.inputs = append(m.inputs, Input{Name: n, Kind: "int", ts: []*Term{t}})
	m.assume(tt.Bin(OULe, t, tt.Int(m.tickMax)))
	t.bounded(uint64(m.tickMax))
	if m.tickOff == nil {
		m.tickOff = t
	} else {
		m.tickOff = tt.Bin(OAdd, m.tickOff, t)
	}
	if int64(m.ticks)*m.tickMax >= 800 {
		unsup("the clock ticked too often")
	}
}

func (m *Machine) newTimerChan() *Chan {
	m.nextID++
	return &Chan{id: m.nextID, capn: 1}
}

func (m *Machine) fireInto(ch *Chan) func() {
	return func() {
		if len(ch.buf) < ch.capn {
			s, n := m.nowTerms()
			ch.buf = append(ch.buf, m.timeVal(s, n))
		}
	}
}

func (m *Machine) durConc(v Value) int64 {
	t := v.(*Term)
	if t.isConst() {
		return int64(t.val)
	}
	return int64(m.concretize(t))
}

var hostFuncs = map[string]any{
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.EqualFold": strings.EqualFold, "strings.Repeat": strings.Repeat, "strings.Count": strings.Count,
	"strings.LastIndex": strings.LastIndex, "strings.IndexAny": strings.IndexAny, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.IndexRune": strings.IndexRune, "strings.LastIndexByte": strings.LastIndexByte, "strings.Title": strings.Title,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.Cut": strings.Cut,
	"strconv.Quote": strconv.Quote, "strconv.FormatFloat": strconv.FormatFloat, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"math.Floor":                     math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Pow": math.Pow, "math.Log": math.Log, "math.Exp": math.Exp,
	"math.Trunc": math.Trunc, "math.Round": math.Round, "math.Mod": math.Mod,
}

// hostCall runs a pure library function on concrete arguments.
func (m *Machine) hostCall(f any, c *callCtx) (Value, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(c.args))
	for i, a := range c.args {
		switch x := a.(type) {
		case *Str:
			l, ok := x.lit()
			if !ok {
				return nil, false
			}
			in[i] = reflect.ValueOf(l)
		case *Term:
			if !x.isConst() {
				return nil, false
			}
			v := reflect.New(ft.In(i)).Elem()
			switch v.Kind() {
			case reflect.Float64, reflect.Float32:
				v.SetFloat(x.f64())
			case reflect.Bool:
				v.SetBool(x.val == 1)
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
				v.SetUint(x.val)
			default:
				v.SetInt(sext(x.val, x.w))
			}
			in[i] = v
		default:
			return nil, false
		}
	}
	out := fv.Call(in)
	conv := func(v reflect.Value) Value {
		switch v.Kind() {
		case reflect.String:
			return lit(v.String())
		case reflect.Bool:
			return m.tt.Bool(v.Bool())
		case reflect.Int:
			return m.tt.Int(v.Int())
		case reflect.Float64:
			return m.tt.FConst(v.Float(), 64)
		case reflect.Slice:
			if v.IsNil() {
				return (*Slice)(nil)
			}
			var vs []Value
			for i := 0; i < v.Len(); i++ {
				vs = append(vs, lit(v.Index(i).String()))
			}
			return m.mkSlice(types.Typ[types.String], vs)
		}
		unsup("host result %v", v.Kind())
		return nil
	}
	if len(out) == 1 {
		return conv(out[0]), true
	}
	tp := make(Tuple, len(out))
	for i := range out {
		tp[i] = conv(out[i])
	}
	return tp, true
}

var intrinsics map[string]intrinsic

func reg(name string, f intrinsic) { intrinsics[name] = f }

func noop(names ...string) {
	for _, n := range names {
		reg(n, func(m *Machine, c *callCtx) Value { return m.stubSig(c.fn.Signature) })
	}
}

func init() {
	intrinsics = map[string]intrinsic{}
	for n, f := range hostFuncs {
		n, f := n, f
		reg(n, func(m *Machine, c *callCtx) Value {
			if v, ok := m.hostCall(f, c); ok {
				return v
			}
			if s, ok := symStrings[n]; ok {
				return s(m, c)
			}
			return c.real(m)
		})
	}
	regTime()
	regSync()
	regMisc()
	regVsym()
	regProto()
	regViper()
	regRegexp()
	regFmt()
	regBuilder()
}

func regTime() {
	reg("time.Now", func(m *Machine, c *callCtx) Value {
		m.tick()
		s, n := m.nowTerms()
		return m.timeVal(s, n)
	})
	reg("time.runtimeNano", func(m *Machine, c *callCtx) Value { return m.tt.Int(m.now) })
	reg("time.Sleep", func(m *Machine, c *callCtx) Value {
		d := m.durConc(c.args[0])
		op := &VOp{desc: "sleep", isSleep: true, exec: func() { c.deliver(Tuple{}) }}
		if d > 0 {
			op.sleepUntil = m.now + d
		}
		m.visible(c.th, op)
		c.deferred = true
		return nil
	})
	reg("time.After", func(m *Machine, c *callCtx) Value {
		ch := m.newTimerChan()
		m.addTimer(m.durConc(c.args[0]), m.fireInto(ch), "after")
		return ch
	})
	reg("time.Tick", func(m *Machine, c *callCtx) Value {
		ch := m.newTimerChan()
		m.ticker(ch, m.durConc(c.args[0]), nil)
		return ch
	})
	newT := func(m *Machine, c *callCtx, tick bool) Value {
		ts := under(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(*types.Struct)
		s := m.zero(ts).(Struct)
		ch := m.newTimerChan()
		for i := 0; i < ts.NumFields(); i++ {
			if ts.Field(i).Name() == "C" {
				s[i] = ch
			}
		}
		p := newVal(s)
		d := m.durConc(c.args[0])
		if tick {
			if d <= 0 {
				m.goPanicStr("non-positive interval for NewTicker")
			}
			st := &tickState{ch: ch}
			m.ticker(ch, d, st)
			m.side[p] = st
		} else {
			m.side[p] = &timerState{t: m.addTimer(d, m.fireInto(ch), "timer"), ch: ch}
		}
		return p
	}
	reg("time.NewTimer", func(m *Machine, c *callCtx) Value { return newT(m, c, false) })
	reg("time.NewTicker", func(m *Machine, c *callCtx) Value { return newT(m, c, true) })
	reg("time.AfterFunc", func(m *Machine, c *callCtx) Value {
		ts := under(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(*types.Struct)
		p := newVal(m.zero(ts))
		f := c.args[1]
		st := &timerState{f: f}
		st.t = m.addTimer(m.durConc(c.args[0]), func() { m.spawn(f, nil, "AfterFunc") }, "afterfunc")
		m.side[p] = st
		return p
	})
	reg("(*time.Timer).Stop", func(m *Machine, c *callCtx) Value {
		st, _ := m.side[m.sideKey(c.args[0])].(*timerState)
		if st == nil {
			unsup("Stop of an unknown timer")
		}
		was := st.t.active
		st.t.active = false
		if st.ch != nil {
			st.ch.buf = nil
		}
		return m.tt.Bool(was)
	})
	reg("(*time.Timer).Reset", func(m *Machine, c *callCtx) Value {
		st, _ := m.side[m.sideKey(c.args[0])].(*timerState)
		if st == nil {
			unsup("Reset of an unknown timer")
		}
		was := st.t.active
		st.t.active = false
		if st.ch != nil {
			st.ch.buf = nil
			st.t = m.addTimer(m.durConc(c.args[1]), m.fireInto(st.ch), "timer")
		} else {
			st.t = m.addTimer(m.durConc(c.args[1]), func() { m.spawn(st.f, nil, "AfterFunc") }, "afterfunc")
		}
		return m.tt.Bool(was)
	})
	reg("(*time.Ticker).Reset", func(m *Machine, c *callCtx) Value {
		k := m.sideKey(c.args[0])
		st, ok := m.side[k].(*tickState)
		if !ok {
			unsup("Reset of an unknown ticker")
		}
		d := m.durConc(c.args[1])
		if d <= 0 {
			m.goPanicStr("non-positive interval for Ticker.Reset")
		}
		st.stopped = true
		if st.t != nil {
			st.t.active = false
		}
		st.ch.buf = nil
		n := &tickState{ch: st.ch}
		m.ticker(st.ch, d, n)
		m.side[k] = n
		return Tuple{}
	})
	reg("(*time.Ticker).Stop", func(m *Machine, c *callCtx) Value {
		if st, ok := m.side[m.sideKey(c.args[0])].(*tickState); ok {
			st.stopped = true
			if st.t != nil {
				st.t.active = false
			}
		}
		return Tuple{}
	})
	reg("(time.Time).Format", func(m *Machine, c *callCtx) Value {
		s := c.args[0].(Struct)
		w, e := s[0].(*Term), s[1].(*Term)
		l, ok := c.str(1).lit()
		if w.isConst() && e.isConst() && ok {
			const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
			return lit(time.Unix(int64(e.val)-unixToInternal, int64(w.val)).UTC().Format(l))
		}
		return lit("<time>")
	})
	reg("(time.Time).String", func(m *Machine, c *callCtx) Value { return lit("<time>") })
	reg("(time.Duration).String", func(m *Machine, c *callCtx) Value {
		if t := c.term(0); t.isConst() {
			return lit(time.Duration(t.val).String())
		}
		return lit("<duration>")
	})
}

type poolKey struct{ p *Value }

type timerState struct {
	t  *Timer
	ch *Chan
	f  Value
}
type tickState struct {
	ch      *Chan
	t       *Timer
	stopped bool
}

func (m *Machine) ticker(ch *Chan, d int64, st *tickState) {
	var arm func()
	fire := m.fireInto(ch)
	arm = func() {
		t := m.addTimer(d, func() {
			fire()
			if st == nil || !st.stopped {
				arm()
			}
		}, "tick")
		if st != nil {
			st.t = t
		}
	}
	arm()
}

func regSync() {
	reg("(*sync.Mutex).Lock", func(m *Machine, c *callCtx) Value {
		s := m.mutex(m.sideKey(c.args[0]))
		return c.visible(m, "mutex.Lock", func() bool { return !s.locked && s.readers == 0 }, func() Value { s.locked = true; return Tuple{} })
	})
	reg("(*sync.Mutex).TryLock", func(m *Machine, c *callCtx) Value {
		s := m.mutex(m.sideKey(c.args[0]))
		return c.visible(m, "mutex.TryLock", always, func() Value {
			ok := !s.locked
			s.locked = true
			return m.tt.Bool(ok)
		})
	})
	unlock := func(m *Machine, c *callCtx) Value {
		s := m.mutex(m.sideKey(c.args[0]))
		if !s.locked {
			panic(goPanicSig{m.mkRuntimeErr("fatal error: sync: unlock of unlocked mutex")})
		}
		s.locked = false
		return Tuple{}
	}
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Unlock", unlock)
	intrinsics["(*sync.RWMutex).Lock"] = intrinsics["(*sync.Mutex).Lock"]
	reg("(*sync.RWMutex).RLock", func(m *Machine, c *callCtx) Value {
		s := m.mutex(m.sideKey(c.args[0]))
		return c.visible(m, "rwmutex.RLock", func() bool { return !s.locked }, func() Value { s.readers++; return Tuple{} })
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, c *callCtx) Value {
		s := m.mutex(m.sideKey(c.args[0]))
		if s.readers == 0 {
			panic(goPanicSig{m.mkRuntimeErr("fatal error: sync: RUnlock of unlocked RWMutex")})
		}
		s.readers--
		return Tuple{}
	})
	add := func(m *Machine, c *callCtx, n int) Value {
		s := m.wg(m.sideKey(c.args[0]))
		return c.visible(m, "waitgroup.Add", always, func() Value {
			s.n += n
			if s.n < 0 {
				panic(goPanicSig{m.mkRuntimeErr("sync: negative WaitGroup counter")})
			}
			return Tuple{}
		})
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, c *callCtx) Value { return add(m, c, m.concInt(c.args[1])) })
	reg("(*sync.WaitGroup).Done", func(m *Machine, c *callCtx) Value { return add(m, c, -1) })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, c *callCtx) Value {
		s := m.wg(m.sideKey(c.args[0]))
		return c.visible(m, "waitgroup.Wait", func() bool { return s.n == 0 }, func() Value { return Tuple{} })
	})
	// sync.Map: every operation is one atomic step
	anyNil := Iface{}
	op := func(name string, f func(m *Machine, mp *Map, a []Value) Value) {
		reg("(*sync.Map)."+name, func(m *Machine, c *callCtx) Value {
			s := m.smap(m.sideKey(c.args[0]))
			a := c.args[1:]
			if len(a) > 0 {
				if k, ok := a[0].(Iface); ok && k.T != nil && !types.Comparable(k.T) {
					m.goPanicStr("runtime error: hash of unhashable type " + k.T.String())
				}
			}
			return c.visible(m, "sync.Map."+name, always, func() Value { return f(m, s.mp, a) })
		})
	}
	op("Load", func(m *Machine, mp *Map, a []Value) Value {
		if e := m.mapFind(mp, a[0]); e != nil {
			return Tuple{e.v, m.tt.T}
		}
		return Tuple{anyNil, m.tt.F}
	})
	op("Store", func(m *Machine, mp *Map, a []Value) Value { m.mapSet(mp, a[0], a[1]); return Tuple{} })
	op("Delete", func(m *Machine, mp *Map, a []Value) Value { m.mapDelete(mp, a[0]); return Tuple{} })
	op("Clear", func(m *Machine, mp *Map, a []Value) Value {
		for _, e := range append([]*mapEntry{}, mp.entries...) {
			if !e.dead {
				m.mapKill(mp, e)
			}
		}
		return Tuple{}
	})
	op("LoadAndDelete", func(m *Machine, mp *Map, a []Value) Value {
		if e := m.mapFind(mp, a[0]); e != nil {
			m.mapKill(mp, e)
			return Tuple{e.v, m.tt.T}
		}
		return Tuple{anyNil, m.tt.F}
	})
	op("LoadOrStore", func(m *Machine, mp *Map, a []Value) Value {
		if e := m.mapFind(mp, a[0]); e != nil {
			return Tuple{e.v, m.tt.T}
		}
		m.mapSet(mp, a[0], a[1])
		return Tuple{a[1], m.tt.F}
	})
	op("Swap", func(m *Machine, mp *Map, a []Value) Value {
		if e := m.mapFind(mp, a[0]); e != nil {
			old := e.v
			e.v = a[1]
			return Tuple{old, m.tt.T}
		}
		m.mapSet(mp, a[0], a[1])
		return Tuple{anyNil, m.tt.F}
	})
	op("CompareAndSwap", func(m *Machine, mp *Map, a []Value) Value {
		if e := m.mapFind(mp, a[0]); e != nil && m.branch(m.eq(e.v, a[1])) {
			e.v = a[2]
			return m.tt.T
		}
		return m.tt.F
	})
	op("CompareAndDelete", func(m *Machine, mp *Map, a []Value) Value {
		if e := m.mapFind(mp, a[0]); e != nil && m.branch(m.eq(e.v, a[1])) {
			m.mapKill(mp, e)
			return m.tt.T
		}
		return m.tt.F
	})
	// primitives used by the Go model of Range: the k-th entry that was present
	// when the iteration started, and the entries added since.
	reg("verif/vsym.SyncMapSnap", func(m *Machine, c *callCtx) Value {
		s := m.smap(m.sideKey(c.args[0]))
		it := &MapIter{m: s.mp}
		for _, e := range s.mp.entries {
			if !e.dead {
				it.snap = append(it.snap, e)
			}
		}
		m.nextID++
		m.side[iterKey(m.nextID)] = it
		return m.tt.Int(int64(m.nextID))
	})
	// SyncMapNext(h) (k, v any, ok bool): one atomic step of the iteration
	reg("verif/vsym.SyncMapNext", func(m *Machine, c *callCtx) Value {
		it := m.side[iterKey(m.concInt(c.args[0]))].(*MapIter)
		return c.visible(m, "sync.Map.Range step", always, func() Value {
			for len(it.snap) > 0 {
				k := 0
				if m.mapNondet {
					k = m.choose(len(it.snap))
				}
				e := it.snap[k]
				it.snap = append(append([]*mapEntry{}, it.snap[:k]...), it.snap[k+1:]...)
				m.side[visitKey{it, e}] = true
				if e.dead {
					continue
				}
				return Tuple{e.k, e.v, m.tt.T}
			}
			// entries inserted concurrently may or may not be visited
			for _, e := range it.m.entries {
				if e.dead || m.side[visitKey{it, e}] != nil {
					continue
				}
				m.side[visitKey{it, e}] = true
				if m.choose(2) == 0 {
					return Tuple{e.k, e.v, m.tt.T}
				}
			}
			return Tuple{Iface{}, Iface{}, m.tt.F}
		})
	})
	reg("(*sync.Pool).Get", func(m *Machine, c *callCtx) Value {
		k := poolKey{m.sideKey(c.args[0])}
		if l, _ := m.side[k].([]Value); len(l) > 0 { // the last one put back
			m.side[k] = l[: len(l)-1 : len(l)-1]
			return l[len(l)-1]
		}
		st := under(c.fn.Signature.Recv().Type().(*types.Pointer).Elem()).(*types.Struct)
		s := (*m.deref(c.args[0])).(Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := s[i].(*Closure)
				if f == nil {
					return Iface{}
				}
				return m.callAtomic(f, nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(m *Machine, c *callCtx) Value {
		k := poolKey{m.sideKey(c.args[0])}
		l, _ := m.side[k].([]Value)
		if i, ok := c.args[1].(Iface); ok && i.T != nil {
			m.side[k] = append(l[:len(l):len(l)], c.args[1])
		}
		return Tuple{}
	})
	// atomics
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+w, func(m *Machine, c *callCtx) Value { return m.load(c.args[0]) })
		reg("sync/atomic.Store"+w, func(m *Machine, c *callCtx) Value { m.store(c.args[0], c.args[1]); return Tuple{} })
		reg("sync/atomic.Swap"+w, func(m *Machine, c *callCtx) Value {
			o := m.load(c.args[0])
			m.store(c.args[0], c.args[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+w, func(m *Machine, c *callCtx) Value {
			o := m.load(c.args[0])
			if m.branch(m.eq(o, c.args[1])) {
				m.store(c.args[0], c.args[2])
				return m.tt.T
			}
			return m.tt.F
		})
		if w != "Pointer" {
			reg("sync/atomic.Add"+w, func(m *Machine, c *callCtx) Value {
				n := m.tt.Bin(OAdd, m.load(c.args[0]).(*Term), c.term(1))
				m.store(c.args[0], n)
				return n
			})
		}
	}
	av := func(m *Machine, c *callCtx) *Value {
		s := (*m.deref(c.args[0])).(Struct)
		return &s[0]
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, c *callCtx) Value { return m.load(av(m, c)) })
	reg("(*sync/atomic.Value).Store", func(m *Machine, c *callCtx) Value { m.store(av(m, c), c.args[1]); return Tuple{} })
	ap := func(m *Machine, c *callCtx) *Value {
		k := m.sideKey(c.args[0])
		if p, ok := m.side[k].(*Value); ok {
			return p
		}
		p := newVal((*Value)(nil))
		m.side[k] = p
		return p
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(m *Machine, c *callCtx) Value { return *ap(m, c) })
	reg("(*sync/atomic.Pointer[T]).Store", func(m *Machine, c *callCtx) Value { *ap(m, c) = c.args[1]; return Tuple{} })
	reg("(*sync/atomic.Pointer[T]).Swap", func(m *Machine, c *callCtx) Value { p := ap(m, c); o := *p; *p = c.args[1]; return o })
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(m *Machine, c *callCtx) Value {
		p := ap(m, c)
		if m.branch(m.eq(*p, c.args[1])) {
			*p = c.args[2]
			return m.tt.T
		}
		return m.tt.F
	})
	reg("runtime.Gosched", func(m *Machine, c *callCtx) Value {
		return c.visible(m, "Gosched", always, func() Value { return Tuple{} })
	})
}

func regMisc() {
	noop("runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Caller", "runtime.Callers", "runtime.NumCPU", "runtime/debug.Stack",
		"fmt.Println", "fmt.Printf", "fmt.Print", "os.Hostname",
		"github.com/pkg/errors.callers", "(*google.golang.org/grpc.ClientConn).Close", "os.Getpid",
		"google.golang.org/grpc/grpclog.Component", "runtime.NumGoroutine", "internal/race.Enable", "internal/race.Disable",
		"google.golang.org/grpc.(*Server).GracefulStop")
	reg("os.Exit", func(m *Machine, c *callCtx) Value {
		panic(goPanicSig{Iface{types.Typ[types.String], lit("process exit")}})
	})
	reg("math.Float64bits", func(m *Machine, c *callCtx) Value { return m.fbits(c.term(0), 64) })
	reg("math.Float32bits", func(m *Machine, c *callCtx) Value { return m.fbits(c.term(0), 32) })
	reg("math.Float64frombits", func(m *Machine, c *callCtx) Value { return m.tt.BVToF(c.term(0)) })
	reg("math.Float32frombits", func(m *Machine, c *callCtx) Value { return m.tt.BVToF(c.term(0)) })
	reg("maps.clone", func(m *Machine, c *callCtx) Value {
		i := c.args[0].(Iface)
		mp, _ := i.V.(*Map)
		if mp == nil {
			return i
		}
		n := m.newMap()
		for _, e := range mp.entries {
			if !e.dead {
				ne := &mapEntry{k: e.k, v: copyVal(e.v)}
				n.entries = append(n.entries, ne)
				n.live++
				if ks, ok := m.keyString(e.k); ok {
					n.idx[ks] = ne
				} else {
					n.nsym++
				}
			}
		}
		return Iface{i.T, n}
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Round": math.Round, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2} {
		n, f := n, f
		reg("math."+n, func(m *Machine, c *callCtx) Value {
			t := c.term(0)
			if !t.isConst() {
				unsup("math.%s of a symbolic number", n)
			}
			return m.tt.FConst(f(math.Float64frombits(t.val)), 64)
		})
	}
	reg("reflect.DeepEqual", func(m *Machine, c *callCtx) Value { return m.deepEq(c.args[0], c.args[1], 0) })
	reg("math.Abs", func(m *Machine, c *callCtx) Value {
		t := c.term(0)
		return m.tt.Ite(m.tt.FBin(OFLt, t, m.tt.FConst(0, 64)), m.tt.FUn(OFNeg, t), t)
	})
	// decimal rendering and parsing stay symbolic
	itoa := func(m *Machine, c *callCtx) Value { return m.itoaStr(c.term(0)) }
	reg("strconv.Itoa", itoa)
	reg("strconv.FormatInt", func(m *Machine, c *callCtx) Value {
		if b := c.term(1); b.isConst() && b.val == 10 {
			return m.itoaStr(c.term(0))
		}
		if t := c.term(0); t.isConst() && c.term(1).isConst() {
			return lit(strconv.FormatInt(int64(t.val), int(c.term(1).val)))
		}
		return c.real(m)
	})
	reg("strconv.FormatUint", func(m *Machine, c *callCtx) Value {
		if b := c.term(1); b.isConst() && b.val == 10 {
			return m.utoaStr(c.term(0))
		}
		return c.real(m)
	})
	reg("strconv.FormatBool", func(m *Machine, c *callCtx) Value {
		if m.branch(c.term(0)) {
			return lit("true")
		}
		return lit("false")
	})
	parse := func(m *Machine, c *callCtx) Value {
		s := c.str(0)
		if len(s.segs) == 1 && s.segs[0].k == sItoa && (len(c.args) == 1 || (c.term(1).isConst() && (c.term(1).val == 10 || c.term(1).val == 0) && c.term(2).isConst() && c.term(2).val%64 == 0)) {
			return Tuple{s.segs[0].t, Iface{}}
		}
		c.args[0] = m.fixed(s, true)
		return c.real(m)
	}
	reg("strconv.ParseInt", parse)
	reg("strconv.Atoi", parse)
	reg("internal/bytealg.IndexByteString", func(m *Machine, c *callCtx) Value {
		as := m.atoms(c.str(0), false)
		return m.tt.Int(int64(m.indexAtoms(as, 0, []*Term{c.term(1)})))
	})
	reg("internal/bytealg.CountString", func(m *Machine, c *callCtx) Value {
		n := m.tt.Int(0)
		for _, b := range m.bytesOf(c.str(0)) {
			n = m.tt.Bin(OAdd, n, m.tt.Ite(m.tt.Eq(b, c.term(1)), m.tt.Int(1), m.tt.Int(0)))
		}
		return n
	})
	reg("internal/stringslite.Clone", func(m *Machine, c *callCtx) Value { return c.args[0] })
	reg("strings.Clone", func(m *Machine, c *callCtx) Value { return c.args[0] })
	reg("internal/stringslite.Index", func(m *Machine, c *callCtx) Value { return symStrings["strings.Index"](m, c) })
	reg("strings.Join", func(m *Machine, c *callCtx) Value {
		s, _ := c.args[0].(*Slice)
		if s == nil {
			return emptyStr
		}
		var parts []*Str
		for i := 0; i < s.n; i++ {
			if i > 0 {
				parts = append(parts, c.str(1))
			}
			parts = append(parts, s.arr[s.off+i].(*Str))
		}
		return m.concat(parts...)
	})
	reg("bytes.Equal", func(m *Machine, c *callCtx) Value {
		a, _ := c.args[0].(*Slice)
		b, _ := c.args[1].(*Slice)
		return m.eqStr(m.sliceToStr(a), m.sliceToStr(b))
	})
	reg("errors.As", func(m *Machine, c *callCtx) Value {
		err := c.args[0].(Iface)
		tgt := c.args[1].(Iface)
		pt, ok := tgt.T.(*types.Pointer)
		if !ok {
			m.goPanicStr("errors: target must be a non-nil pointer")
		}
		want := pt.Elem()
		for n := 0; err.T != nil && n < 50; n++ {
			if it, isI := under(want).(*types.Interface); isI {
				if types.Implements(err.T, it) {
					storeInto(tgt.V.(*Value), err)
					return m.tt.T
				}
			} else if types.Identical(err.T, want) {
				storeInto(tgt.V.(*Value), err.V)
				return m.tt.T
			}
			if fn := m.eng.method(err.T, nil, "As"); fn != nil {
				r := m.callAtomic(&Closure{Fn: fn}, []Value{err.V, tgt})
				if m.branch(r.(*Term)) {
					return m.tt.T
				}
			}
			fn := m.eng.method(err.T, nil, "Unwrap")
			if fn == nil {
				return m.tt.F
			}
			r, ok := m.callAtomic(&Closure{Fn: fn}, []Value{err.V}).(Iface)
			if !ok {
				unsup("errors.As over a joined error")
			}
			err = r
		}
		return m.tt.F
	})
	intrinsics["github.com/pkg/errors.As"] = intrinsics["errors.As"]
	reg("google.golang.org/protobuf/encoding/protowire.SizeVarint", func(m *Machine, c *callCtx) Value { return m.varintLen(c.term(0)) })
	bitsLen := func(m *Machine, c *callCtx) Value {
		v := m.tt.ZExt(c.term(0), 64)
		r := m.tt.Int(64)
		for k := int64(63); k >= 0; k-- {
			r = m.tt.Ite(m.tt.Bin(OULt, v, m.tt.BV(uint64(1)<<uint(k), 64)), m.tt.Int(k), r)
		}
		return r
	}
	reg("math/bits.Len64", bitsLen)
	reg("math/bits.Len32", bitsLen)
	reg("math/bits.Len", bitsLen)
	reg("google.golang.org/grpc.Dial", dial)
	reg("google.golang.org/grpc.NewClient", dial)
	reg("google.golang.org/grpc.DialContext", func(m *Machine, c *callCtx) Value { c.args = c.args[1:]; return dial(m, c) })
	reg("verif/vsym.ConnTarget", func(m *Machine, c *callCtx) Value {
		i := c.args[0].(Iface)
		if s, ok := m.side[i.V.(*Value)].(*Str); ok {
			return s
		}
		return emptyStr
	})
	// random numbers are inputs
	rnd := func(m *Machine, w uint8, n *Term) Value {
		v := m.fresh("rand", w)
		if n != nil {
			m.assume(m.tt.And(m.tt.Bin(OSLe, m.tt.BV(0, w), v), m.tt.Bin(OSLt, v, n)))
		}
		return v
	}
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, f := range []string{"Intn", "IntN", "Int63n", "Int64N"} {
			reg(p+"."+f, func(m *Machine, c *callCtx) Value { return rnd(m, 64, c.term(0)) })
		}
		for _, f := range []string{"Int31n", "Int32N"} {
			reg(p+"."+f, func(m *Machine, c *callCtx) Value { return rnd(m, 32, c.term(0)) })
		}
		for _, f := range []string{"Int", "Int63", "Int64"} {
			reg(p+"."+f, func(m *Machine, c *callCtx) Value {
				return rnd(m, 64, m.tt.BV(1<<63-1, 64))
			})
		}
		reg(p+".Float64", func(m *Machine, c *callCtx) Value {
			v := m.tt.BVToF(m.fresh("rand", 64))
			m.assume(m.tt.And(m.tt.FBin(OFLe, m.tt.FConst(0, 64), v), m.tt.FBin(OFLt, v, m.tt.FConst(1, 64))))
			return v
		})
		noop(p + ".Seed")
	}
}

// deepEq is reflect.DeepEqual.
func (m *Machine) deepEq(a, b Value, depth int) *Term {
	tt := m.tt
	if depth > 50 {
		unsup("DeepEqual of a cyclic value")
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.T == nil) != (y.T == nil) || x.T != nil && !types.Identical(x.T, y.T) {
			return tt.F
		}
		if x.T == nil {
			return tt.T
		}
		return m.deepEq(x.V, y.V, depth+1)
	case *Value:
		y := b.(*Value)
		if x == y {
			return tt.T
		}
		if x == nil || y == nil {
			return tt.F
		}
		return m.deepEq(*x, *y, depth+1)
	case Struct:
		r := tt.T
		for i, v := range b.(Struct) {
			if r = tt.And(r, m.deepEq(x[i], v, depth+1)); r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		r := tt.T
		for i, v := range b.(Array) {
			if r = tt.And(r, m.deepEq(x[i], v, depth+1)); r.isFalse() {
				return r
			}
		}
		return r
	case *Slice:
		y := b.(*Slice)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.opaque != nil || y.opaque != nil {
			return m.eqStr(m.sliceToStr(x), m.sliceToStr(y))
		}
		if x.n != y.n {
			return tt.F
		}
		r := tt.T
		for i := 0; i < x.n; i++ {
			if r = tt.And(r, m.deepEq(x.arr[x.off+i], y.arr[y.off+i], depth+1)); r.isFalse() {
				return r
			}
		}
		return r
	case *Map:
		y := b.(*Map)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.live != y.live {
			return tt.F
		}
		r := tt.T
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			o := m.mapFind(y, e.k)
			if o == nil {
				return tt.F
			}
			if r = tt.And(r, m.deepEq(e.v, o.v, depth+1)); r.isFalse() {
				return r
			}
		}
		return r
	case *Closure:
		y := b.(*Closure)
		return tt.Bool(x == nil && y == nil)
	}
	return m.eq(a, b)
}

func dial(m *Machine, c *callCtx) Value {
	pt := c.fn.Signature.Results().At(0).Type().(*types.Pointer)
	p := newVal(m.zero(pt.Elem()))
	m.side[p] = c.str(0)
	return Tuple{p, Iface{}}
}

func (m *Machine) fbits(t *Term, w uint8) Value {
	if t.isConst() {
		return m.tt.BV(t.val, w)
	}
	if t.op == OBVToF {
		return t.args[0]
	}
	v := m.fresh("fbits", w)
	m.assumeDef(m.tt.Eq(m.tt.BVToF(v), t))
	return v
}

func (m *Machine) itoaStr(t *Term) *Str {
	if t.w != 64 {
		t = m.tt.SExt(t, 64)
	}
	return m.mkStr([]Seg{{k: sItoa, t: t}})
}
func (m *Machine) utoaStr(t *Term) *Str {
	if t.w != 64 {
		return m.itoaStr(m.tt.ZExt(t, 64))
	}
	if t.isConst() {
		return lit(strconv.FormatUint(t.val, 10))
	}
	if m.branch(m.tt.Bin(OSLt, t, m.tt.Int(0))) {
		unsup("decimal rendering of a uint64 above 2^63")
	}
	return m.itoaStr(t)
}

var _ = fmt.Sprint
var _ = os.Getenv

func (e *Engine) method(T types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(T).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}
