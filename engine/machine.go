package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine: shared, read-only program data plus the exploration state of one
// harness run.
type Engine struct {
	prog     *ssa.Program
	root     *ssa.Package // package holding the harness
	entry    *ssa.Function
	vm       map[string]*ssa.Function // models: "VM_x" name -> function
	repoDir  string
	params   map[string]int
	baseSec  int64 // concrete clock at the start of every path
	baseNsec uint64

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*workItem
	active   int
	stop     bool
	deadline time.Time
	maxSteps int64
	maxPaths int

	infos sync.Map // *ssa.Function -> *fnInfo
	tids  sync.Map
	tidN  int
	tidMu sync.Mutex

	st         Stats
	violations []*Violation
	seenViol   map[string]int
	funcs      map[string]int // functions of the repository that were executed
	stubs      map[string]int
	stopFirst  bool
	violPer    int // counterexamples kept per message
	violMax    int // and in all
	solverBin  []string
	solverTO   int
	known      map[string]*KnownHit
}

type KnownHit struct {
	Msg   string
	Count int
	Model map[string]any
}

type Stats struct {
	Paths, Completed, Assumed, Truncated, Unsupported  int
	Branches, Forks, Asserts, Queries, Sat, Unsat, Unk int
	UnknownBranch, UnknownAssert                       int
	Steps                                              int64
	SolverTime                                         time.Duration
	Reach                                              map[string]int
	UnsupMsgs                                          map[string]int
	Remaining                                          int
	AssertProved                                       int
	AssertBy                                           map[string]int
	SchedChoices                                       int
	MaxThreads                                         int
	DeadlockFree                                       int
}

type workItem struct {
	prefix []uint16
	model  Model
}

type Input struct {
	Name string
	Kind string
	ts   []*Term
	n    *Term
	str  *Str
}

type Violation struct {
	Msg      string
	Kind     string // assert, panic, deadlock, hang
	Pos      string
	Inputs   []ReplayInput
	Trace    []string
	Sched    bool // depended on scheduling choices
	Prefix   []uint16
	Stack    []string
	Known    bool
	NativeOK bool
}

type Timer struct {
	deadline int64
	seq      int
	ch       *Chan
	fire     func()
	active   bool
	desc     string
	sleeper  *Thread
}

type Machine struct {
	eng    *Engine
	tt     *TermTable
	sol    *Solver
	model  Model
	hasMod bool
	prefix []uint16
	trace  []uint16
	pos    int
	pend   []*Term // constraints not yet sent to the solver
	useInt bool    // sizes: try the integer encoding first
	pc     []*Term
	nfresh int
	nextID int

	threads        []*Thread
	cur            *Thread
	nextTh         int
	now            int64 // virtual ns since start
	baseSec        *Term // unix seconds at start
	baseNsec       *Term
	timers         []*Timer
	tseq           int
	schedMode      string
	schedBudget    int
	earlyTimers    bool
	mapNondet      bool
	timeLimit      int64
	tickMax        int64
	tickOff        *Term
	ticks          int
	schedUsed      bool
	preciseDefault bool

	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	side     map[any]any
	inputs   []Input
	itoaMemo map[*Term]*Str
	events   []string
	steps    int64
	atomic   int
	initing  int
	evalMemo map[*Term]uint64
	funcsHit map[*ssa.Function]bool
	stubsHit map[string]bool
	notes    []string
	reach    map[string]bool
	ended    bool
	chooseN  map[string]int
	crashOK  bool
}

// path termination signals
type pathEnd struct{ kind string }

func (m *Machine) fresh(prefix string, w uint8) *Term {
	m.nfresh++
	return m.tt.Var(fmt.Sprintf("%s!%d", prefix, m.nfresh), w)
}

// ---- path condition

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.pc = append(m.pc, t)
	m.pend = append(m.pend, t)
}

func (m *Machine) flush() {
	for _, t := range m.pend {
		m.sol.Assert(t)
	}
	m.pend = m.pend[:0]
}

func (m *Machine) eval(t *Term) uint64 { return t.eval(m.model, m.evalMemo) }

func (m *Machine) setModel(md Model) {
	m.model = md
	m.evalMemo = map[*Term]uint64{}
}

func (m *Machine) query(extra *Term) (Res, Model) {
	if m.useInt {
		ts := m.pc
		if extra != nil {
			if extra.isFalse() {
				return Unsat, nil
			}
			ts = append(ts[:len(ts):len(ts)], extra)
		}
		if r, md, ok := m.sol.CheckInt(ts, m.tt.vars); ok {
			return r, md
		}
	}
	m.flush()
	return m.sol.Check(extra, m.tt.vars)
}

func (m *Machine) needModel() {
	if m.model != nil {
		return
	}
	r, md := m.query(nil)
	switch r {
	case Sat:
		m.setModel(md)
	case Unsat:
		panic(pathEnd{"infeasible"})
	default:
		unsup("solver gave no model for the path")
	}
}

func (m *Machine) record(d uint16) {
	m.trace = append(m.trace, d)
	m.pos++
}

func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.record(d)
		if d == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(m.tt.Not(c))
		return false
	}
	m.eng.st2(func(s *Stats) { s.Branches++ })
	m.needModel()
	take := m.eval(c) == 1
	other := c
	if take {
		other = m.tt.Not(c)
	}
	r, md := m.query(other)
	if r == Sat {
		if forkProf {
			m.eng.fork("branch" + m.where())
		}
		alt := append(append([]uint16{}, m.trace...), uint16(b2u(!take)))
		m.eng.enqueue(&workItem{alt, md})
	} else if r == Unknown {
		m.eng.st2(func(s *Stats) { s.UnknownBranch++ })
	}
	m.record(uint16(b2u(take)))
	if take {
		m.addPC(c)
	} else {
		m.addPC(m.tt.Not(c))
	}
	return take
}

// choose forks over n alternatives without constraints.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.record(d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		if forkProf {
			m.eng.fork("choose" + m.where())
		}
		alt := append(append([]uint16{}, m.trace...), uint16(i))
		m.eng.enqueue(&workItem{alt, m.model})
	}
	m.record(0)
	return 0
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	m.addPC(c)
	if m.pos < len(m.prefix) {
		return // the prefix is known to be feasible
	}
	if m.model != nil && m.eval(c) == 1 {
		return
	}
	r, md := m.query(nil)
	switch r {
	case Sat:
		m.setModel(md)
	case Unsat:
		panic(pathEnd{"assume"})
	default:
		unsup("solver unknown on an assumption")
	}
}

// assumeDef adds a definitional constraint over fresh variables: always
// satisfiable, but the model must be extended.
func (m *Machine) assumeDef(c *Term) { m.assume(c) }

// assertT: the deciding step. Proves pc => c or reports a counterexample.
func (m *Machine) assertT(c *Term, msg, pos string) {
	first := m.pos >= len(m.prefix)
	if first {
		m.eng.st2(func(s *Stats) { s.Asserts++; s.AssertBy[msg]++ })
	}
	if c.isTrue() {
		if first {
			m.eng.st2(func(s *Stats) { s.AssertProved++ })
		}
		return
	}
	if !first {
		// already decided on the path that spawned this one
		m.addPC(c)
		return
	}
	nc := m.tt.Not(c)
	var r Res
	var md Model
	if c.isFalse() {
		m.needModel()
		r, md = Sat, m.model
	} else if m.model != nil && m.eval(c) == 0 {
		r, md = Sat, m.model
	} else {
		r, md = m.query(nc)
	}
	switch r {
	case Sat:
		m.report("assert", msg, pos, md)
		// continue on the part of the path where the assertion holds
		if c.isFalse() {
			panic(pathEnd{"violated"})
		}
		m.addPC(c)
		m.model = nil
		r2, md2 := m.query(nil)
		if r2 != Sat {
			panic(pathEnd{"violated"})
		}
		m.setModel(md2)
		return
	case Unknown:
		m.eng.st2(func(s *Stats) { s.UnknownAssert++ })
	case Unsat:
		m.eng.st2(func(s *Stats) { s.AssertProved++ })
	}
	m.addPC(c)
}

func (m *Machine) report(kind, msg, pos string, md Model) {
	m.setModel(md)
	v := &Violation{Msg: msg, Kind: kind, Pos: pos, Inputs: m.replayInputs(md), Trace: append([]string{}, m.events...), Sched: m.schedUsed,
		Prefix: append([]uint16{}, m.trace...)}
	if m.tickOff != nil && m.eval(m.tickOff) != 0 {
		v.Sched = true // needs the clock to go on at a certain point
	}
	if m.cur != nil {
		for i := len(m.cur.frames) - 1; i >= 0 && len(v.Stack) < 12; i-- {
			f := m.cur.frames[i]
			v.Stack = append(v.Stack, f.fn.String()+" "+m.framePos(f))
		}
	}
	m.eng.addViolation(v)
}

func (e *Engine) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := v.Kind + "|" + v.Msg
	e.seenViol[key]++
	if e.seenViol[key] <= e.violPer {
		e.violations = append(e.violations, v)
	}
	if e.stopFirst && !v.Known {
		// keep going a little to collect alternatives, but stop soon
		n := 0
		for _, c := range e.seenViol {
			n += c
		}
		if n >= e.violMax {
			e.stop = true
			e.cond.Broadcast()
		}
	}
}

func (e *Engine) st2(f func(*Stats)) {
	e.mu.Lock()
	f(&e.st)
	e.mu.Unlock()
}

func (e *Engine) enqueue(w *workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.st.Forks++
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) typeID(t types.Type) string {
	// types that are identical print identically here; good enough for keys
	return types.TypeString(t, nil)
}

// ---- running

func (e *Engine) Run(workers int) {
	e.cond = sync.NewCond(&e.mu)
	e.st.Reach = map[string]int{}
	e.st.UnsupMsgs = map[string]int{}
	e.st.AssertBy = map[string]int{}
	e.seenViol = map[string]int{}
	e.funcs = map[string]int{}
	e.stubs = map[string]int{}
	e.known = map[string]*KnownHit{}
	e.queue = []*workItem{{}}
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if time.Now().After(e.deadline) {
					e.mu.Lock()
					e.stop = true
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
			}
		}
	}()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol, err := NewSolver(e.solverBin, e.solverTO)
			if err != nil {
				e.st2(func(s *Stats) { s.UnsupMsgs["solver: "+err.Error()]++; s.Unsupported++ })
				return
			}
			defer func() { sol.Close() }()
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.queue) == 0 {
					e.cond.Broadcast()
					e.mu.Unlock()
					break
				}
				w := e.queue[len(e.queue)-1]
				e.queue = e.queue[:len(e.queue)-1]
				e.active++
				e.mu.Unlock()
				ok := e.runPath(sol, w)
				if !ok { // solver broke: restart it
					e.accountSolver(sol)
					sol.Close()
					sol, err = NewSolver(e.solverBin, e.solverTO)
				}
				e.mu.Lock()
				e.active--
				e.st.Paths++
				if e.maxPaths > 0 && e.st.Paths >= e.maxPaths {
					e.stop = true
				}
				if e.active == 0 && len(e.queue) == 0 || e.stop {
					e.cond.Broadcast()
				}
				e.mu.Unlock()
				if err != nil {
					break
				}
			}
			e.accountSolver(sol)
		}()
	}
	wg.Wait()
	close(done)
	e.st.Remaining = len(e.queue)
}

func (e *Engine) accountSolver(s *Solver) {
	e.mu.Lock()
	e.st.Queries += s.Queries
	e.st.Sat += s.Sat
	e.st.Unsat += s.Unsat
	e.st.Unk += s.Unknown
	e.st.SolverTime += s.Time
	s.Queries, s.Sat, s.Unsat, s.Unknown, s.Time = 0, 0, 0, 0, 0
	e.mu.Unlock()
}

func (e *Engine) newMachine(sol *Solver, w *workItem) *Machine {
	tt := NewTermTable()
	m := &Machine{eng: e, tt: tt, sol: sol, prefix: w.prefix, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		side: map[any]any{}, itoaMemo: map[*Term]*Str{}, evalMemo: map[*Term]uint64{}, funcsHit: map[*ssa.Function]bool{}, stubsHit: map[string]bool{},
		reach: map[string]bool{}, timeLimit: int64(3600 * time.Second), chooseN: map[string]int{}}
	if w.model != nil {
		m.setModel(w.model)
	} else if len(w.prefix) == 0 {
		m.setModel(Model{})
	}
	m.baseSec = tt.Int(m.eng.baseSec)
	m.baseNsec = tt.BV(m.eng.baseNsec, 64)
	return m
}

func (e *Engine) runPath(sol *Solver, w *workItem) (ok bool) {
	ok = true
	sol.Begin()
	m := e.newMachine(sol, w)
	kind := "completed"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					kind = x.kind
				case unsupported:
					kind = "unsupported"
					e.st2(func(s *Stats) { s.UnsupMsgs[x.msg+m.where()]++ })
				case engineErr:
					kind = "unsupported"
					ok = false
					e.st2(func(s *Stats) { s.UnsupMsgs[string(x)]++ })
				default:
					if debugPanics {
						panic(r)
					}
					kind = "unsupported"
					e.st2(func(s *Stats) { s.UnsupMsgs[fmt.Sprintf("engine: %v%s", r, m.where())]++ })
				}
			}
		}()
		m.runMain()
	}()
	e.mu.Lock()
	switch kind {
	case "completed", "violated":
		e.st.Completed++
	case "assume", "infeasible":
		e.st.Assumed++
	case "truncated":
		e.st.Truncated++
	default:
		e.st.Unsupported++
	}
	e.st.Steps += m.steps
	if n := len(m.threads); n > e.st.MaxThreads {
		e.st.MaxThreads = n
	}
	if kind == "completed" {
		for r := range m.reach {
			e.st.Reach[r]++
		}
	}
	for f := range m.funcsHit {
		e.funcs[f.String()]++
	}
	for s := range m.stubsHit {
		e.stubs[s]++
	}
	e.mu.Unlock()
	return ok
}

var debugPanics = false

// fork statistics, for tuning harnesses (VERIF_FORKS=1)
var forkProf = os.Getenv("VERIF_FORKS") != ""
var forkMu sync.Mutex
var forkCount = map[string]int{}

func (e *Engine) fork(where string) {
	forkMu.Lock()
	forkCount[where]++
	forkMu.Unlock()
}

func printForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkCount {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 25 {
			fmt.Fprintf(os.Stderr, "%7d %s\n", x.n, x.k)
		}
	}
	forkCount = map[string]int{}
}

func (m *Machine) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return ""
	}
	var p []string
	for i := len(m.cur.frames) - 1; i >= 0 && len(p) < 4; i-- {
		f := m.cur.frames[i]
		p = append(p, f.fn.String()+"@"+m.framePos(f))
	}
	return " in " + strings.Join(p, " < ")
}

func (m *Machine) framePos(f *Frame) string {
	for i := f.pc; i >= 0; i-- {
		if f.block != nil && i < len(f.block.Instrs) {
			if p := f.block.Instrs[i].Pos(); p.IsValid() {
				ps := m.eng.prog.Fset.Position(p)
				return strings.TrimPrefix(ps.String(), m.eng.repoDir+"/")
			}
		}
	}
	return ""
}

func (m *Machine) event(f string, a ...any) {
	if len(m.events) < 400 {
		m.events = append(m.events, fmt.Sprintf(f, a...))
	}
}

func sortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
