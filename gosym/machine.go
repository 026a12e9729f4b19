package main

// Path exploration: each path is executed from the start following a decision
// prefix; new decisions are made by asking the solver which sides are feasible.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	taken  bool
	forced bool // the other side is infeasible: nothing was added to the path condition
	conc   bool
	val    uint64
}

type workItem struct {
	prefix []decision
	model  Model
}

type Config struct {
	Loop         int    // max visits of one block per frame activation
	Depth        int    // max call depth
	Steps        int    // max instructions per path
	MaxPaths     int    // give up beyond this
	MapOrder     string // insertion | reverse | any | sorted
	MapPermLimit int
	SQLOrder     string // order of rows that a query leaves open: insertion | reverse | any
	SQLPermLimit int
	Preempt      int  // max preemptive context switches
	FixedSched   bool // goroutines run in a fixed order: background work first, the harness last
	PanicOK      bool
	SolverPath   string
	TimeoutMs    int
	Workers      int
	Budget       time.Duration
	Trace        bool
	NoMerge      bool
	Tier         int
	Exhaust      bool // keep exploring after a violation
}

type pathEnd struct{ why string }
type unsupportedErr struct{ msg string }
type targetPanic struct {
	v     value
	where string
}
type killed struct{}

type Violation struct {
	Label  string
	Model  Model
	Inputs []InputVal
	Where  string
}

// InputVal is one nondeterministic input as chosen by the solver, replayable natively.
type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  int64  `json:"int"`
	Str  string `json:"str"`
}

type inputRec struct {
	name string
	kind string
	e    *Expr
	s    *Str
}

// machine executes one path.
type machine struct {
	w        *worker
	x        *ExprCtx
	cfg      *Config
	prog     *Program
	pc       []*Expr
	model    Model
	prefix   []decision
	pos      int
	decs     []decision
	occ      map[string]int
	inputs   []inputRec
	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]bool
	steps    int
	depth    int
	mapPerms int
	sqlPerms int
	emptyStr *Str
	side     map[any]any // engine-side state of stubbed objects (mutexes, sync.Map, ...)
	covered  []string
	// scheduler
	gs       []*gor
	cur      *gor
	preempts int
	fatal    any
	lastPos  *frame
	oserial  int
	inMerge  bool
	asserts  int
}

type worker struct {
	id     int
	eng    *Engine
	x      *ExprCtx
	solver *Solver
	local  []workItem
	memo   map[*Expr]uint64
}

// Engine explores one harness entry.
type Engine struct {
	prog  *Program
	cfg   *Config
	entry *ssa.Function

	mu                    sync.Mutex
	cond                  *sync.Cond
	shared                []workItem
	idle                  int
	stop                  bool
	viols                 []Violation
	fails                 []string // unsupported / inconclusive
	Paths                 int
	Ended                 map[string]int
	Steps                 int
	Asserts               int
	Forks                 int
	Cover                 map[string]int
	Funcs                 map[string]int
	Samples               []Sample
	Queries, NSat, NUnsat int
	SolverT               time.Duration
	start                 time.Time
	maxPC                 int
	maxLoop               int
}

type Sample struct {
	Inputs []InputVal
	Covers []string
}

func (m *machine) unsupported(msg string) any {
	w := ""
	if m.lastPos != nil {
		w = m.lastPos.where()
	}
	return unsupportedErr{msg + " at " + w}
}

func (m *machine) evalModel(e *Expr) uint64 {
	if e.op == OConst {
		return e.c
	}
	m.w.memo = map[*Expr]uint64{}
	return e.Eval(m.model, m.w.memo)
}

func (m *machine) inPrefix() bool { return m.pos < len(m.prefix) }

func (m *machine) addPC(e *Expr) {
	if e.isTrue() {
		return
	}
	m.pc = append(m.pc, e)
}

// branch decides a symbolic condition, forking the exploration when both sides are feasible.
func (m *machine) branch(cond *Expr) bool {
	if cond.isConst() {
		return cond.c == 1
	}
	if m.inMerge {
		panic(mergeAbort{})
	}
	if m.inPrefix() {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		if !d.forced {
			if d.taken {
				m.addPC(cond)
			} else {
				m.addPC(m.x.Not(cond))
			}
		}
		return d.taken
	}
	v := m.evalModel(cond) == 1
	other := cond
	if v {
		other = m.x.Not(cond)
	}
	sat, mod := m.w.solver.check(m.pc, other)
	if sat {
		np := make([]decision, len(m.decs)+1)
		copy(np, m.decs)
		np[len(m.decs)] = decision{taken: !v}
		m.w.push(workItem{np, mod})
		m.decs = append(m.decs, decision{taken: v})
		if v {
			m.addPC(cond)
		} else {
			m.addPC(m.x.Not(cond))
		}
	} else {
		m.decs = append(m.decs, decision{taken: v, forced: true})
	}
	return v
}

// concretize picks a value for e, forking over every feasible value.
func (m *machine) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.c
	}
	if m.inMerge {
		panic(mergeAbort{})
	}
	for {
		if m.inPrefix() {
			d := m.prefix[m.pos]
			m.pos++
			m.decs = append(m.decs, d)
			c := m.x.Eq(e, m.x.Const(e.w, d.val))
			if d.taken {
				if !d.forced {
					m.addPC(c)
				}
				return d.val
			}
			m.addPC(m.x.Not(c))
			continue
		}
		v := m.evalModel(e)
		c := m.x.Eq(e, m.x.Const(e.w, v))
		sat, mod := m.w.solver.check(m.pc, m.x.Not(c))
		if sat {
			np := make([]decision, len(m.decs)+1)
			copy(np, m.decs)
			np[len(m.decs)] = decision{taken: false, conc: true, val: v}
			m.w.push(workItem{np, mod})
			m.addPC(c)
		}
		m.decs = append(m.decs, decision{taken: true, conc: true, val: v, forced: !sat})
		return v
	}
}

func (m *machine) concretizeStr(s *Str) string {
	if s.concrete() {
		return s.c
	}
	cs := m.strCases(s)
	for i, c := range cs {
		if i == len(cs)-1 || m.branch(c.g) {
			return c.s
		}
	}
	panic("unreachable")
}

func (m *machine) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if m.inPrefix() {
		m.addPC(c)
		return
	}
	if m.evalModel(c) != 1 {
		sat, mod := m.w.solver.check(m.pc, c)
		if !sat {
			panic(pathEnd{"assume"})
		}
		m.model = mod
	}
	m.addPC(c)
}

func (m *machine) assert(c *Expr, label string) {
	m.asserts++
	if c.isTrue() {
		return
	}
	if m.inPrefix() {
		return // decided when this prefix was first explored
	}
	mod := m.model
	if m.evalModel(c) == 1 {
		sat, mm := m.w.solver.check(m.pc, m.x.Not(c))
		if !sat {
			return
		}
		mod = mm
	}
	m.violation(label, mod)
	// the rest of the path is explored under the assumption that the assertion held
	m.assume(c)
}

func (m *machine) violation(label string, mod Model) {
	where := ""
	if m.lastPos != nil {
		where = m.lastPos.where()
	}
	v := Violation{Label: label, Model: mod, Inputs: m.inputVals(mod), Where: where}
	e := m.w.eng
	e.mu.Lock()
	dup := 0
	for _, o := range e.viols {
		if o.Label == label {
			dup++
		}
	}
	if dup < 8 {
		e.viols = append(e.viols, v)
	}
	if !m.cfg.Exhaust && len(e.viols) >= 12 {
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (m *machine) inputVals(mod Model) []InputVal {
	var out []InputVal
	for _, in := range m.inputs {
		iv := InputVal{Name: in.name, Kind: in.kind}
		memo := map[*Expr]uint64{}
		if in.e != nil {
			iv.Int = sext(in.e.Eval(mod, memo), in.e.w)
			if in.e.w == 0 {
				iv.Int = int64(in.e.Eval(mod, memo))
			}
		}
		if in.s != nil {
			iv.Str = in.s.c
			for _, c := range in.s.cases {
				if c.g.Eval(mod, memo) == 1 {
					iv.Str = c.s
					break
				}
			}
		}
		out = append(out, iv)
	}
	return out
}

// freshVar introduces a symbolic value in [0,n].
func (m *machine) freshVar(name string, n uint64) *Expr {
	if n == 0 {
		return m.x.Const(1, 0)
	}
	k := m.occ[name]
	m.occ[name] = k + 1
	w := bitsFor(n)
	v := m.x.Var(fmt.Sprintf("%s!%d.%d", name, k, w), w)
	if n != mask(w) {
		m.addPC(m.x.Bin(OUle, v, m.x.Const(w, n)))
	}
	return v
}

func (m *machine) freshInt(name string, lo, hi int64) *Expr {
	n := uint64(hi) - uint64(lo)
	v := m.freshVar(name, n)
	return m.x.Bin(OAdd, m.x.Resize(v, 64, false), m.x.Int(lo))
}

// chooseSym makes a symbolic choice in [0,n) and forks over it.
func (m *machine) chooseSym(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.freshVar(name, uint64(n-1))
	return int(m.concretize(v))
}

// ---- workers ----

func (w *worker) push(it workItem) {
	e := w.eng
	e.mu.Lock()
	e.Forks++
	if e.idle > 0 {
		e.shared = append(e.shared, it)
		e.cond.Signal()
		e.mu.Unlock()
		return
	}
	e.mu.Unlock()
	w.local = append(w.local, it)
}

func (w *worker) next() (workItem, bool) {
	e := w.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.stop {
		return workItem{}, false
	}
	// share the oldest local work with idle workers
	for e.idle > 0 && len(w.local) > 1 && len(e.shared) < e.idle {
		e.shared = append(e.shared, w.local[0])
		w.local = w.local[1:]
		e.cond.Signal()
	}
	if n := len(w.local); n > 0 {
		it := w.local[n-1]
		w.local = w.local[:n-1]
		return it, true
	}
	e.idle++
	for {
		if e.stop {
			e.idle--
			e.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(e.shared); n > 0 {
			it := e.shared[n-1]
			e.shared = e.shared[:n-1]
			e.idle--
			return it, true
		}
		if e.idle == e.cfg.Workers {
			e.stop = true
			e.cond.Broadcast()
			e.idle--
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (w *worker) loop() {
	defer w.solver.close()
	for {
		it, ok := w.next()
		if !ok {
			break
		}
		if len(w.x.tab) > 3_000_000 {
			w.x = newExprCtx()
			w.solver.close()
			w.addStats()
			w.solver = newSolver(w.eng.cfg.SolverPath, w.eng.cfg.TimeoutMs)
		}
		w.runPath(it)
	}
	w.addStats()
}

func (w *worker) addStats() {
	e := w.eng
	e.mu.Lock()
	e.Queries += w.solver.Queries
	e.NSat += w.solver.Sat
	e.NUnsat += w.solver.Unsat
	e.SolverT += w.solver.Time
	w.solver.Queries, w.solver.Sat, w.solver.Unsat, w.solver.Time = 0, 0, 0, 0
	e.mu.Unlock()
}

func (w *worker) runPath(it workItem) {
	m := &machine{w: w, x: w.x, cfg: w.eng.cfg, prog: w.eng.prog, prefix: it.prefix, model: it.model,
		occ: map[string]int{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		emptyStr: mkStr(""), side: map[any]any{}}
	if m.model == nil {
		m.model = Model{}
	}
	why := "return"
	var fail string
	func() {
		defer func() {
			m.killAll()
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				why = r.why
			case targetPanic:
				why = "panic"
				m.violation("panic: "+m.describe(r.v)+" at "+r.where, m.model)
			case unsupportedErr:
				why = "unsupported"
				if strings.HasPrefix(r.msg, "UNWIND") {
					// candidate non-termination: only believed if the real code hangs on it
					why = "unwind"
					m.violation("non-termination: "+r.msg, m.model)
				} else {
					fail = r.msg
				}
			case inconclusive:
				why = "inconclusive"
				fail = r.msg
				w.solver.close()
				w.solver = newSolver(w.eng.cfg.SolverPath, w.eng.cfg.TimeoutMs)
			case deadlockSig:
				why = "deadlock"
				m.violation("deadlock: "+r.what, m.model)
			case mergeAbort:
				why = "unsupported"
				fail = "merge abort escaped"
			default:
				why = "engine-error"
				where := ""
				if m.lastPos != nil {
					where = m.lastPos.where()
				}
				fail = fmt.Sprintf("engine error: %v at %s", r, where)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fail += "\n" + string(debug.Stack())
				}
			}
		}()
		g := &gor{id: 0, resume: make(chan struct{}, 1)}
		m.gs = []*gor{g}
		m.cur = g
		m.callFunc(nil, w.eng.entry, nil)
	}()
	e := w.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Paths++
	e.Ended[why]++
	e.Steps += m.steps
	e.Asserts += m.asserts
	if len(m.pc) > e.maxPC {
		e.maxPC = len(m.pc)
	}
	if why == "return" {
		for _, c := range m.covered {
			e.Cover[c]++
		}
		if len(e.Samples) < 64 || (e.Paths%97 == 0 && len(e.Samples) < 200) {
			e.Samples = append(e.Samples, Sample{m.inputVals(m.model), m.covered})
		}
	}
	if fail != "" {
		if len(e.fails) < 20 {
			e.fails = append(e.fails, fail)
		}
		if len(e.fails) >= 20 && !e.cfg.Exhaust {
			e.stop = true
			e.cond.Broadcast()
		}
	}
	if e.cfg.Trace {
		fmt.Fprintf(os.Stderr, "path %d %s decs=%d steps=%d %v\n", e.Paths, why, len(m.decs), m.steps, m.inputVals(m.model))
	}
	if e.Paths >= e.cfg.MaxPaths {
		e.fails = append(e.fails, fmt.Sprintf("path limit %d reached", e.cfg.MaxPaths))
		e.stop = true
		e.cond.Broadcast()
	}
	if e.cfg.Budget > 0 && time.Since(e.start) > e.cfg.Budget {
		if !e.stop {
			e.fails = append(e.fails, fmt.Sprintf("time budget %v exhausted after %d paths", e.cfg.Budget, e.Paths))
		}
		e.stop = true
		e.cond.Broadcast()
	}
}

func (e *Engine) Run() {
	e.start = time.Now()
	e.cond = sync.NewCond(&e.mu)
	e.Ended = map[string]int{}
	e.Cover = map[string]int{}
	e.Funcs = map[string]int{}
	e.shared = []workItem{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.cfg.Workers; i++ {
		w := &worker{id: i, eng: e, x: newExprCtx(), solver: newSolver(e.cfg.SolverPath, e.cfg.TimeoutMs)}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	if os.Getenv("GOSYM_PROGRESS") != "" {
		go func() {
			for {
				time.Sleep(5 * time.Second)
				e.mu.Lock()
				fmt.Fprintf(os.Stderr, "[progress] paths=%d forks=%d viols=%d fails=%d stop=%v\n", e.Paths, e.Forks, len(e.viols), len(e.fails), e.stop)
				st := e.stop
				e.mu.Unlock()
				if st {
					return
				}
			}
		}()
	}
	wg.Wait()
}

func (e *Engine) note(fn *ssa.Function) {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
		return
	}
	if !e.prog.funcSeen(fn) {
		return
	}
	e.mu.Lock()
	e.Funcs[fn.String()]++
	e.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (m *machine) describe(v value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "nil"
		}
		return types.TypeString(v.t, nil) + "(" + m.describe(v.v) + ")"
	case *Expr:
		if v.isConst() {
			return fmt.Sprint(v.sval())
		}
		return fmt.Sprintf("sym=%d", sext(m.evalModel(v), v.w))
	case *Str:
		if v.cases != nil {
			for _, c := range v.cases {
				if m.evalModel(c.g) == 1 {
					return fmt.Sprintf("%q", c.s)
				}
			}
		}
		return fmt.Sprintf("%q", v.String())
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + m.describe(*v)
	case structure:
		var l []string
		for _, f := range v {
			l = append(l, m.describe(f))
		}
		return "{" + strings.Join(l, ",") + "}"
	case sliceV:
		var l []string
		for _, f := range v {
			l = append(l, m.describe(f))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	return fmt.Sprintf("%T", v)
}
