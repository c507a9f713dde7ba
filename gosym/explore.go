package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Limits struct {
	Steps      int64
	Depth      int
	Goroutines int
	IdleRounds int
	MaxAlloc   int64
	Conc       int // values tried when concretising one term
}

// decision is one recorded choice of a path.
type decision struct {
	val    uint64
	taken  bool // concretisation: == val or != val
	forced bool // the other side is infeasible: no constraint added
}

type workItem struct {
	prefix []decision
	model  map[string]uint64
}

type inputRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
	v    []Value
	wd   int32
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, deadlock
	Inputs  []inputRec
	Sched   []schedEvent
	Trace   []string
	Path    string
}

type sampleRec struct {
	Inputs  []inputRec
	Sched   []schedEvent
	Observe []string
	Asserts int
}

var debugMode = os.Getenv("GOSYM_DEBUG") != ""

type Worker struct {
	top     *frame // of the call that runs
	eng     *Engine
	run     *Run
	id      int
	tc      *TermCtx
	sol     *Solver
	cfg     *HarnessCfg
	lim     Limits
	fns     map[*ssa.Function]*cfn
	fvals   map[*ssa.Function]*Closure
	globals map[*ssa.Global]*Value
	osErrs  map[string]Value
	meths   map[methKey]*Closure
	impl    map[implKey]bool
	canonM  typeutil.Map
	canonC  map[types.Type]types.Type
	inited  map[*types.Package]bool
	initPkg *ssa.Package

	undo []undoRec
	base int

	// per path
	pc          []*Term
	eqs         map[*Term]*Term // terms equal to a constant on this path
	substMemo   map[*Term]*Term
	known       map[*Term]bool
	model       *Model
	prefix      []decision
	dpos        int
	decs        []decision
	steps       int64
	lastTick    int64
	gs          []*G
	cur         *G
	killed      bool
	running     sync.WaitGroup
	endCh       chan struct{}
	endAbort    *pathAbort
	epoch       int64
	idle        int
	preempts    int
	noPreempt   int
	mutexes     map[*Value]*mutexState
	conds       map[*Value]*condState
	wgs         map[*Value]*wgState
	syncMaps    map[*Value]*syncMap
	onces       map[*Value]int
	schedTrace  []schedEvent
	inputs      []inputRec
	inputN      map[string]int
	observes    []obsRec
	nAssert     int
	reached     map[string]bool
	notes       []string
	typeCells   map[types.Type]*Value
	cellTypes   map[*Value]types.Type
	chooseN     int
	symN        int
	pathUnknown bool
	noBranch    int
	side        map[string]any

	funcsSeen map[*cfn]bool
	local     []workItem
}

type obsRec struct {
	label string
	kind  string
	v     Value
}

// Run is the exploration of one harness.
type Run struct {
	eng      *Engine
	cfg      *HarnessCfg
	lim      Limits
	harness  *ssa.Function
	deadline time.Time

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []workItem
	active int
	idleN  int32
	stop   bool
	stats  SolverStats

	Paths, Infeasible, Limited, Unsupp, Steps, Asserts, SymAsserts, Forks, Unknown int64
	Reached                                                                        map[string]int
	Incomplete                                                                     map[string]int
	Violations                                                                     []Violation
	violKeys                                                                       map[string]int
	Samples                                                                        []sampleRec
	Funcs                                                                          map[string]int
	LeftOver                                                                       int
	SolverNote                                                                     map[string]int
	samplesMax                                                                     int
	pathN                                                                          int64
}

func (w *Worker) canon(t types.Type) types.Type {
	if c, ok := w.canonC[t]; ok {
		return c
	}
	if c := w.canonM.At(t); c != nil {
		w.canonC[t] = c.(types.Type)
		return c.(types.Type)
	}
	w.canonM.Set(t, t)
	w.canonC[t] = t
	return t
}

func stackTrace() string {
	s := string(debug.Stack())
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func (w *Worker) expired() bool {
	return time.Now().After(w.run.deadline) || w.run.stopped()
}

func (r *Run) stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stop
}

func newWorker(eng *Engine, run *Run, id int) *Worker {
	w := &Worker{eng: eng, run: run, id: id, cfg: run.cfg, lim: run.lim}
	w.tc = NewTermCtx()
	w.sol = NewSolver(w.tc, &run.stats)
	if run.cfg.SoftMs > 0 {
		w.sol.softMs = run.cfg.SoftMs
	}
	if run.cfg.HardS > 0 {
		w.sol.hardS = run.cfg.HardS
	}
	w.sol.deadline = run.deadline
	w.fns = map[*ssa.Function]*cfn{}
	w.fvals = map[*ssa.Function]*Closure{}
	w.globals = map[*ssa.Global]*Value{}
	w.meths = map[methKey]*Closure{}
	w.impl = map[implKey]bool{}
	w.canonC = map[types.Type]types.Type{}
	w.inited = map[*types.Package]bool{}
	w.funcsSeen = map[*cfn]bool{}
	return w
}

// initPackages runs the package initialisers that are in scope, concretely.
func (w *Worker) initPackages() *pathAbort {
	w.resetPath(workItem{})
	var ab *pathAbort
	done := make(chan struct{})
	g := w.newG()
	w.cur = g
	go func() {
		defer close(done)
		for _, p := range w.eng.initOrder {
			p := p
			x := w.protect(func() {
				w.inited[p.Pkg] = true
				fn := p.Func("init")
				if fn == nil {
					return
				}
				w.steps = 0
				t0 := time.Now()
				w.initPkg = p
				g.depth = 0
				w.callFunc(g, nil, w.compile(fn), nil, nil, nil)
				if d := time.Since(t0); d > 200*time.Millisecond && w.id == 0 && os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "init %s took %v\n", p.Pkg.Path(), d)
				}
			})
			if x != nil {
				if x.kind == "internal" {
					ab = x
					return
				}
				if strings.HasPrefix(p.Pkg.Path(), modPath) {
					w.inited[p.Pkg] = false // its variables are out of bounds
				}
				w.run.note("initialisation of package " + p.Pkg.Path() + " stopped: " + x.msg)
			}
		}
	}()
	<-done
	if ab != nil {
		ab.msg = "package initialisation of " + w.initPkg.Pkg.Path() + ": " + ab.msg
	}
	w.initPkg = nil
	w.undo = nil
	w.base = 0
	return ab
}

func (w *Worker) resetPath(it workItem) {
	w.pc = nil
	w.known = map[*Term]bool{}
	w.eqs, w.substMemo = map[*Term]*Term{}, nil
	w.prefix = it.prefix
	w.dpos = 0
	w.decs = append([]decision(nil), it.prefix...)
	m := it.model
	if m == nil {
		m = map[string]uint64{}
	}
	w.model = w.tc.NewModel(m)
	w.steps, w.lastTick = 0, 0
	w.gs = nil
	w.killed = false
	w.endCh = make(chan struct{}, 64)
	w.endAbort = nil
	w.epoch, w.idle, w.preempts, w.noPreempt = 0, 0, 0, 0
	w.mutexes = map[*Value]*mutexState{}
	w.conds = map[*Value]*condState{}
	w.wgs = map[*Value]*wgState{}
	w.syncMaps = map[*Value]*syncMap{}
	w.onces = map[*Value]int{}
	w.schedTrace = nil
	w.inputs = nil
	w.inputN = map[string]int{}
	w.observes = nil
	w.nAssert = 0
	w.reached = map[string]bool{}
	w.notes = nil
	w.chooseN = 0
	w.symN = 0
	w.pathUnknown = false
	w.side = map[string]any{}
}

// ---- decisions ----

func (w *Worker) assume(t *Term) {
	if t.isTrue() {
		return
	}
	w.pc = append(w.pc, t)
	w.markKnown(t)
}

func (w *Worker) markKnown(t *Term) {
	w.known[t] = true
	if t.op == OpEq && t.a.w > 0 && t.a.w <= 64 {
		switch {
		case t.b.isConst() && !t.a.isConst():
			w.eqs[t.a] = t.b
		case t.a.isConst() && !t.b.isConst():
			w.eqs[t.b] = t.a
		}
	}
	w.substMemo = nil
	if t.op == OpAnd {
		w.markKnown(t.a)
		w.markKnown(t.b)
	}
}

// subst rewrites t with what is known on this path: terms equal to a constant, and
// conditions that hold or do not.
func (w *Worker) subst(t *Term) *Term {
	if w.substMemo == nil {
		w.substMemo = map[*Term]*Term{}
	}
	budget := 3000
	if r := w.substRec(t, &budget); r != nil {
		return r
	}
	return t
}

func (w *Worker) substRec(t *Term, budget *int) *Term {
	if t == nil || t.op == OpConst {
		return t
	}
	if k, ok := w.eqs[t]; ok {
		return k
	}
	if t.w == 0 {
		if w.known[t] {
			return w.tc.tTrue
		}
		if t.op != OpNot && w.known[w.tc.Not(t)] {
			return w.tc.tFalse
		}
	}
	if t.op == OpVar {
		return t
	}
	if r, ok := w.substMemo[t]; ok {
		return r
	}
	*budget--
	if *budget < 0 {
		return t // not memoised: depends on the budget
	}
	a, b, c := w.substRec(t.a, budget), w.substRec(t.b, budget), w.substRec(t.c, budget)
	r := t
	if a != t.a || b != t.b || c != t.c {
		r = w.tc.rebuild(t, a, b, c)
	}
	if *budget >= 0 {
		w.substMemo[t] = r
	}
	return r
}

func (w *Worker) replaying() bool { return w.dpos < len(w.prefix) }

func (w *Worker) pushAlt(d decision, m *Model) {
	p := make([]decision, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d
	atomic.AddInt64(&w.run.Forks, 1)
	w.local = append(w.local, workItem{prefix: p, model: m.vals})
	if len(w.local) > 1 && atomic.LoadInt32(&w.run.idleN) > 0 {
		w.donate()
	}
}

func (w *Worker) donate() {
	r := w.run
	r.mu.Lock()
	n := (len(w.local) + 1) / 2
	r.queue = append(r.queue, w.local[:n]...)
	w.local = append([]workItem(nil), w.local[n:]...)
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (w *Worker) check(extra *Term, want bool) (SatResult, *Model) {
	if time.Now().After(w.run.deadline) {
		panic(&pathAbort{"limit", "time limit"})
	}
	w.sol.base = w.model
	r, m := w.sol.Check(w.pc, extra, want)
	if m != nil {
		// keep values of variables the query did not mention
		for k, v := range w.model.vals {
			if _, ok := m.vals[k]; !ok {
				m.vals[k] = v
			}
		}
	}
	if w.sol.mismatch != "" {
		w.run.note(w.sol.mismatch)
		w.sol.mismatch = ""
	}
	if r == Unknown {
		atomic.AddInt64(&w.run.Unknown, 1)
		w.pathUnknown = true
	}
	return r, m
}

func (r *Run) note(s string) {
	r.mu.Lock()
	r.SolverNote[s]++
	r.mu.Unlock()
}

func (r *Run) incomplete(s string) {
	r.mu.Lock()
	r.Incomplete[s]++
	r.mu.Unlock()
}

// branch decides a boolean value, forking when both outcomes are feasible.
func (w *Worker) branch(c Value) bool {
	if c.P == nil {
		return c.N != 0
	}
	t := c.P.(*Term)
	if t.isConst() {
		return t.val != 0
	}
	if w.known[t] {
		return true
	}
	nt := w.tc.Not(t)
	if w.known[nt] {
		return false
	}
	if t = w.subst(t); t.isConst() {
		return t.val != 0
	}
	nt = w.tc.Not(t)
	if w.noBranch > 0 {
		panic(unsupported("symbolic branch in a region that must be concrete"))
	}
	if w.replaying() {
		d := w.prefix[w.dpos]
		w.dpos++
		side := d.val != 0
		s := t
		if !side {
			s = nt
		}
		if !d.forced {
			w.assume(s)
		} else {
			w.markKnown(s)
		}
		return side
	}
	side := w.model.EvalBool(t)
	mine, other := t, nt
	if !side {
		mine, other = nt, t
	}
	r, m := w.check(other, true)
	switch r {
	case Sat:
		w.pushAlt(decision{val: b2u(!side)}, m)
		w.decs = append(w.decs, decision{val: b2u(side)})
		w.assume(mine)
	case Unsat:
		w.decs = append(w.decs, decision{val: b2u(side), forced: true})
		w.markKnown(mine)
	default:
		w.run.incomplete("branch not decided by the solver (" + w.where() + ")")
		w.decs = append(w.decs, decision{val: b2u(side)})
		w.assume(mine)
	}
	w.dpos = len(w.decs)
	w.prefix = w.decs
	return side
}

func (w *Worker) where() string { return w.run.cfg.Name }

// concretize forks over the feasible values of v.
func (w *Worker) concretize(v Value, wd int32) uint64 {
	if v.P == nil {
		return v.N
	}
	t := v.P.(*Term)
	if t.isConst() {
		return t.val
	}
	if t = w.subst(t); t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if w.replaying() {
			d := w.prefix[w.dpos]
			w.dpos++
			eq := w.tc.Eq(t, w.tc.Const(t.w, d.val))
			if d.taken {
				if !d.forced {
					w.assume(eq)
				} else {
					w.markKnown(eq)
				}
				return d.val
			}
			w.assume(w.tc.Not(eq))
			continue
		}
		if n > w.lim.Conc {
			panic(&pathAbort{"limit", "too many values when concretising"})
		}
		val := w.model.Eval(t)
		eq := w.tc.Eq(t, w.tc.Const(t.w, val))
		r, m := w.check(w.tc.Not(eq), true)
		d := decision{val: val, taken: true}
		switch r {
		case Sat:
			w.pushAlt(decision{val: val, taken: false}, m)
			w.assume(eq)
		case Unsat:
			d.forced = true
			w.markKnown(eq)
		default:
			w.run.incomplete("value set not decided by the solver")
			w.assume(eq)
		}
		w.decs = append(w.decs, d)
		w.dpos = len(w.decs)
		w.prefix = w.decs
		return val
	}
}

// choose makes an n-way choice through a fresh symbolic variable.
func (w *Worker) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	w.chooseN++
	x := w.tc.Var(fmt.Sprintf("%s!%d", label, w.chooseN), 8)
	return w.chooseVar(x, n)
}

func (w *Worker) chooseVar(x *Term, n int) int {
	if w.replaying() {
		d := w.prefix[w.dpos]
		w.dpos++
		w.assume(w.tc.Eq(x, w.tc.Const(x.w, d.val)))
		return int(d.val)
	}
	// every value of the fresh variable below n is feasible
	for i := n - 1; i >= 1; i-- {
		vals := make(map[string]uint64, len(w.model.vals)+1)
		for k, v := range w.model.vals {
			vals[k] = v
		}
		vals[x.name] = uint64(i)
		w.pushAlt(decision{val: uint64(i)}, &Model{vals: vals})
	}
	vals := w.model.vals
	if vals[x.name] != 0 {
		nv := make(map[string]uint64, len(vals)+1)
		for k, v := range vals {
			nv[k] = v
		}
		nv[x.name] = 0
		w.model = w.tc.NewModel(nv)
	}
	w.decs = append(w.decs, decision{val: 0})
	w.dpos = len(w.decs)
	w.prefix = w.decs
	w.assume(w.tc.Eq(x, w.tc.Const(x.w, 0)))
	return 0
}

// assumeV adds a constraint of the harness; the path ends if it is infeasible.
func (w *Worker) assumeV(c Value) {
	if c.P == nil {
		if c.N == 0 {
			panic(&pathAbort{"infeasible", ""})
		}
		return
	}
	t := c.term()
	if w.known[t] {
		return
	}
	if w.known[w.tc.Not(t)] {
		panic(&pathAbort{"infeasible", ""})
	}
	if w.replaying() {
		w.assume(t)
		return
	}
	if w.model.EvalBool(t) {
		w.assume(t)
		return
	}
	r, m := w.check(t, true)
	switch r {
	case Sat:
		w.model = m
		w.assume(t)
	case Unsat:
		panic(&pathAbort{"infeasible", ""})
	default:
		w.run.incomplete("assumption not decided by the solver")
		panic(&pathAbort{"limit", "assumption not decided"})
	}
}

// assertV checks a property.
func (w *Worker) assertV(c Value, msg string) {
	w.nAssert++
	atomic.AddInt64(&w.run.Asserts, 1)
	if c.P == nil {
		if c.N == 0 {
			w.violation("assert", msg, w.model)
			panic(&pathAbort{"violation", msg})
		}
		return
	}
	t := c.term()
	if t = w.subst(t); t.isTrue() {
		return
	}
	if w.replaying() {
		// decided when the parent path passed here
		w.assume(t)
		return
	}
	atomic.AddInt64(&w.run.SymAsserts, 1)
	nt := w.tc.Not(t)
	if !w.model.EvalBool(t) {
		w.violation("assert", msg, w.model)
	} else {
		r, m := w.check(nt, true)
		switch r {
		case Unsat:
			w.markKnown(t)
			return
		case Sat:
			w.violation("assert", msg, m)
		default:
			w.run.incomplete("assertion not decided by the solver: " + msg)
		}
	}
	// continue where it holds
	if !w.model.EvalBool(t) {
		r, m := w.check(t, true)
		if r != Sat {
			panic(&pathAbort{"violation", msg})
		}
		w.model = m
	}
	w.assume(t)
}

func (w *Worker) renderInputs(m *Model) []inputRec {
	out := make([]inputRec, len(w.inputs))
	for i, in := range w.inputs {
		out[i] = inputRec{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "string":
			b := make([]byte, len(in.v))
			for k := range in.v {
				b[k] = byte(w.evalV(m, in.v[k], 8))
			}
			out[i].Val = fmt.Sprintf("%x", b)
		default:
			out[i].Val = fmt.Sprintf("%d", w.evalV(m, in.v[0], in.wd))
		}
	}
	return out
}

func (w *Worker) evalV(m *Model, v Value, wd int32) uint64 {
	if t := v.term(); t != nil {
		return m.Eval(t)
	}
	return v.N
}

func (w *Worker) violation(kind, msg string, m *Model) {
	r := w.run
	v := Violation{Harness: w.cfg.Name, Msg: msg, Kind: kind, Inputs: w.renderInputs(m), Sched: append([]schedEvent(nil), w.schedTrace...)}
	if w.pathUnknown {
		v.Trace = append(v.Trace, "path contains undecided branches")
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	k := kind + ":" + msg
	r.violKeys[k]++
	if r.violKeys[k] <= 6 {
		r.Violations = append(r.Violations, v)
	}
	total := 0
	for _, n := range r.violKeys {
		total += n
	}
	if total >= 400 && !r.cfg.KeepGoing {
		r.stop = true
		r.cond.Broadcast()
	}
}

func (w *Worker) panicText(p *targetPanic) string {
	if p.rt != "" {
		return p.rt
	}
	if i, ok := p.v.P.(*Iface); ok && i != nil {
		if isString(i.t) {
			if s, ok := concString(i.v); ok {
				return "panic: " + s
			}
			return "panic: <string>"
		}
		if w.canon(i.t) == w.canon(w.eng.errorStringPtr) {
			c := i.v.P.(*Value)
			if s, ok := concString(c.P.([]Value)[0]); ok {
				return "panic: " + s
			}
		}
		return "panic: value of type " + i.t.String()
	}
	return "panic"
}

// runPath executes the harness along one work item.
func (w *Worker) runPath(it workItem) {
	w.resetPath(it)
	r := w.run
	g := w.newG()
	w.cur = g
	fn := w.compile(r.harness)
	w.running.Add(1)
	go func() {
		defer w.running.Done()
		w.runG(g, func() { w.callFunc(g, nil, fn, nil, nil, nil) })
	}()
	<-w.endCh
	ab := w.endAbort
	// kill the remaining goroutines one by one
	w.killed = true
	for _, x := range w.gs {
		select {
		case x.wake <- struct{}{}:
		default:
		}
	}
	w.running.Wait()
	atomic.AddInt64(&r.Steps, w.steps)
	n := atomic.AddInt64(&r.pathN, 1)
	_ = n
	kind := ""
	if ab != nil {
		kind = ab.kind
	}
	switch kind {
	case "", "exit":
		atomic.AddInt64(&r.Paths, 1)
		w.sample()
	case "infeasible":
		atomic.AddInt64(&r.Infeasible, 1)
	case "violation":
		atomic.AddInt64(&r.Paths, 1)
	case "panic":
		atomic.AddInt64(&r.Paths, 1)
		w.violation("panic", ab.msg, w.model)
	case "deadlock":
		atomic.AddInt64(&r.Paths, 1)
		w.violation("deadlock", "goroutines wait forever", w.model)
	case "bigalloc":
		atomic.AddInt64(&r.Paths, 1)
		w.violation("panic", ab.msg, w.model)
	default:
		atomic.AddInt64(&r.Limited, 1)
		r.incomplete(kind + ": " + ab.msg)
	}
	r.mu.Lock()
	for k := range w.reached {
		if kind != "infeasible" {
			r.Reached[k]++
		}
	}
	r.mu.Unlock()
	w.rollback(w.base)
}

// sample keeps some path models for translation validation.
func (w *Worker) sample() {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) >= r.samplesMax {
		// reservoir keyed on path count, deterministic enough: replace with decreasing probability
		n := int(r.Paths)
		if n&(n-1) != 0 {
			return
		}
		r.Samples = r.Samples[1:]
	}
	s := sampleRec{Inputs: w.renderInputs(w.model), Sched: append([]schedEvent(nil), w.schedTrace...), Asserts: w.nAssert}
	for _, o := range w.observes {
		s.Observe = append(s.Observe, o.label+"="+w.renderObs(o))
	}
	r.Samples = append(r.Samples, s)
}

func (w *Worker) renderObs(o obsRec) string {
	switch o.kind {
	case "string":
		if _, ok := o.v.P.(*OpaqueStr); ok {
			return "?"
		}
		b := strBytes(o.v)
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(w.evalV(w.model, b[i], 8))
		}
		return fmt.Sprintf("%x", bs)
	default:
		return fmt.Sprintf("%d", w.evalV(w.model, o.v, 64))
	}
}

// loop is the worker's main loop.
func (w *Worker) loop() {
	r := w.run
	defer w.sol.Close()
	for {
		if len(w.local) == 0 {
			r.mu.Lock()
			atomic.AddInt32(&r.idleN, 1)
			r.active--
			for len(r.queue) == 0 && r.active > 0 && !r.stop {
				r.cond.Wait()
			}
			if r.stop || len(r.queue) == 0 {
				r.cond.Broadcast()
				r.mu.Unlock()
				return
			}
			it := r.queue[len(r.queue)-1]
			r.queue = r.queue[:len(r.queue)-1]
			r.active++
			atomic.AddInt32(&r.idleN, -1)
			r.mu.Unlock()
			w.local = append(w.local, it)
		}
		if time.Now().After(r.deadline) {
			r.mu.Lock()
			r.stop = true
			r.LeftOver += len(w.local)
			r.cond.Broadcast()
			r.mu.Unlock()
			return
		}
		if r.stopped() {
			r.mu.Lock()
			r.LeftOver += len(w.local)
			r.mu.Unlock()
			return
		}
		it := w.local[len(w.local)-1]
		w.local = w.local[:len(w.local)-1]
		w.runPath(it)
		if len(w.tc.tab) > 3000000 {
			w.resetTerms()
		}
	}
}

// resetTerms drops the term table (the constants reachable from globals are concrete).
func (w *Worker) resetTerms() {
	w.sol.Close()
	w.tc = NewTermCtx()
	w.sol = NewSolver(w.tc, &w.run.stats)
	w.sol.deadline = w.run.deadline
}

// explore runs the harness with n workers.
func (eng *Engine) explore(cfg *HarnessCfg, fn *ssa.Function, n int, deadline time.Time) (*Run, error) {
	r := &Run{eng: eng, cfg: cfg, harness: fn, deadline: deadline,
		Reached: map[string]int{}, Incomplete: map[string]int{}, violKeys: map[string]int{}, Funcs: map[string]int{}, SolverNote: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	r.lim = Limits{Steps: 30000000, Depth: 4000, Goroutines: 40, IdleRounds: 4, MaxAlloc: 1 << 20, Conc: 600}
	if cfg.MaxSteps > 0 {
		r.lim.Steps = cfg.MaxSteps
	}
	if cfg.IdleRounds > 0 {
		r.lim.IdleRounds = cfg.IdleRounds
	}
	r.samplesMax = 6
	r.queue = []workItem{{}}
	r.active = n
	var wg sync.WaitGroup
	var initErr atomic.Value
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(eng, r, i)
			if ab := w.initPackages(); ab != nil {
				initErr.Store(ab.kind + ": " + ab.msg)
				r.mu.Lock()
				r.active--
				r.stop = true
				r.cond.Broadcast()
				r.mu.Unlock()
				return
			}
			w.loop()
			r.mu.Lock()
			for f := range w.funcsSeen {
				r.Funcs[f.name] = len(f.fn.Blocks)
			}
			r.mu.Unlock()
		}(i)
	}
	wg.Wait()
	r.LeftOver += len(r.queue)
	if e := initErr.Load(); e != nil {
		return r, fmt.Errorf("%s", e.(string))
	}
	if r.LeftOver > 0 {
		r.Incomplete["time or violation limit reached with unexplored prefixes"] += r.LeftOver
	}
	return r, nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = token.NoPos
var _ = strings.Join
