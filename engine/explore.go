package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	Sched    bool  // symbolic scheduling
	Preempt  int   // bound on preemptions
	MapOrder bool  // symbolic iteration order of maps in repository code
	MaxSteps int64 // per path
	Params   map[string]int
}

type Item struct {
	model  []uint64
	bound  int
	excl   []uint64
	exclAt int
}

type Obs struct {
	label string
	v     Value
	T     types.Type
}

type Violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Stack  string            `json:"stack,omitempty"`
	Entry  string            `json:"entry"`
	Values map[string]uint64 `json:"values"`
	Params map[string]int    `json:"params"`
	Sched  bool              `json:"sched,omitempty"`
	model  []uint64
	Replay string `json:"replay,omitempty"`
	Native string `json:"native,omitempty"`
	Status string `json:"status,omitempty"`
}

// Exec is the state of one path.
type Exec struct {
	w   *Worker
	opt *Options
	tt  *TermTab
	pc  []*Term
	kn  map[*Term]bool
	// spec > 0: instructions run speculatively and must not fork
	spec int

	bound, nbranch int
	excl           []uint64
	exclAt         int
	newItems       []Item

	steps, maxSteps, lastTick int64
	logging                   bool
	undo                      []undoRec

	gs      []*G
	cur     *G
	over    bool
	overCh  chan struct{}
	acks    chan struct{}
	end     pathEnd
	preempt int
	schedOn bool
	clocks  map[any]*vclock
	shadows map[any]*shadow
	raced   bool

	now         uint64
	timers      []*timer
	timersFired int
	recovered   int

	mutexes  map[*Value]*mutexState
	side     map[any]any
	calls    map[string]int
	obs      []Obs
	covers   map[string]bool
	viols    []*Violation
	asserts  int
	maxItems int
	depthSym int
	hashes   []hashEnt
	randCtr  int
	reached  bool
}

type Worker struct {
	p       *Program
	s       *Session
	solver  *Solver
	globals []*Value
	inited  map[*ssa.Package]bool
	meth    map[methKey]*ssa.Function
	impl    map[[2]types.Type]bool
	hits    map[*Code]map[int]bool
	initing int
	baseMu  map[*Value]*mutexState
	base    map[any]any
}

type methKey struct {
	T types.Type
	m *types.Func
}

func (w *Worker) hit(c *Code, b int) {
	m := w.hits[c]
	if m == nil {
		m = map[int]bool{}
		w.hits[c] = m
	}
	if !m[b] {
		m[b] = true
	}
}

func (w *Worker) method(T types.Type, m *types.Func) *ssa.Function {
	k := methKey{T, m}
	if f, ok := w.meth[k]; ok {
		return f
	}
	w.p.mu.Lock()
	f := w.p.prog.LookupMethod(T, m.Pkg(), m.Name())
	w.p.mu.Unlock()
	w.meth[k] = f
	return f
}

func (w *Worker) implements(T types.Type, I types.Type) bool {
	k := [2]types.Type{T, I}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(T, I.Underlying().(*types.Interface))
	w.impl[k] = r
	return r
}

func (w *Worker) global(g *G, o *opnd) *Value {
	for o.gi >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	if c := w.globals[o.gi]; c != nil {
		return c
	}
	c := new(Value)
	*c = zero(deref(o.g.Type()))
	w.globals[o.gi] = c
	w.ensureInit(g, o.g.Pkg)
	return c
}

// ensureInit runs the package initialiser once per worker.
func (w *Worker) ensureInit(g *G, pkg *ssa.Package) {
	if pkg == nil || w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	if w.p.opaque[pkg.Pkg.Path()] || noInit[pkg.Pkg.Path()] {
		return
	}
	ex := g.ex
	log, sched, steps, max := ex.logging, ex.schedOn, ex.steps, ex.maxSteps
	ex.logging, ex.schedOn = false, false
	ex.maxSteps = steps + 50_000_000
	w.initing++
	top, depth := g.top, g.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case killed:
					panic(r)
				case pathEnd:
					w.s.note("init of " + pkg.Pkg.Path() + " incomplete: " + x.reason)
				case *goPanic:
					w.s.note("init of " + pkg.Pkg.Path() + " panicked: " + x.msg + "\n" + x.stack)
				default:
					w.s.note(fmt.Sprintf("init of %s failed: %v\n%s", pkg.Pkg.Path(), r, debug.Stack()))
				}
			}
		}()
		pkg.Build()
		g.callCode(w.p.initCode(pkg), nil, nil)
	}()
	g.top, g.depth = top, depth
	w.initing--
	ex.logging, ex.schedOn, ex.steps, ex.maxSteps = log, sched, steps, max
}

var initCodes sync.Map

func (p *Program) initCode(pkg *ssa.Package) *Code {
	if c, ok := initCodes.Load(pkg); ok {
		return c.(*Code)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	c := p.compileRaw(pkg.Func("init"))
	initCodes.Store(pkg, c)
	return c
}

// Session explores one harness entry.
type Session struct {
	p      *Program
	entry  *ssa.Function
	name   string
	opt    *Options
	cache  *QueryCache
	st     *SolverStats
	budget time.Duration

	mu      sync.Mutex
	cond    *sync.Cond
	items   []Item
	active  int
	stop    bool
	expired bool

	paths, donePaths, infeasible, abandoned int64
	steps                                   int64
	maxPC                                   int
	asserts                                 int64
	abReasons                               map[string]int
	covers                                  map[string]int
	viols                                   []*Violation
	notes                                   map[string]bool
	hits                                    map[*Code]map[int]bool
	samples                                 []*Sample
	nsamples                                int
	onViol                                  func(v *Violation) bool // true: stop
	onAbandon                               func(vals map[string]uint64) *Violation
	verbose                                 bool
	start                                   time.Time
	sites                                   map[string]int // where paths fork, for diagnosis
	deadlineAt                              time.Time
	sampleEvery                             int64
	solverLimit                             time.Duration
	cross                                   bool
	leftItems                               int
	preludePaths                            int64
}

type Sample struct {
	Values map[string]uint64
	Obs    []string
}

func (s *Session) note(n string) {
	s.mu.Lock()
	if !s.notes[n] {
		s.notes[n] = true
		if s.verbose {
			fmt.Fprintln(os.Stderr, "note:", n)
		}
	}
	s.mu.Unlock()
}

func (s *Session) run(nworkers int) {
	s.start = time.Now()
	s.deadlineAt = s.start.Add(s.budget)
	s.cond = sync.NewCond(&s.mu)
	s.abReasons = map[string]int{}
	s.covers = map[string]int{}
	s.notes = map[string]bool{}
	s.hits = map[*Code]map[int]bool{}
	s.items = []Item{{exclAt: -1}}
	var wg sync.WaitGroup
	stopTick := make(chan struct{})
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		n := 0
		for {
			select {
			case <-stopTick:
				return
			case <-t.C:
				if time.Now().After(s.deadlineAt) {
					s.mu.Lock()
					s.expired = true
					s.stop = true
					s.cond.Broadcast()
					s.mu.Unlock()
				}
				n++
				if s.verbose && n%10 == 0 {
					s.mu.Lock()
					fmt.Fprintf(os.Stderr, "[%s %.0fs] paths %d done %d infeas %d abandoned %d queue %d active %d queries %d cached %d viol %d steps %dM\n", s.name, time.Since(s.start).Seconds(), s.paths, s.donePaths, s.infeasible, s.abandoned, len(s.items), s.active, atomic.LoadInt64(&s.st.queries), atomic.LoadInt64(&s.st.cached), len(s.viols), s.steps/1000000)
					s.mu.Unlock()
				}
			}
		}
	}()
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(s)
			defer w.solver.close()
			for {
				s.mu.Lock()
				for len(s.items) == 0 && s.active > 0 && !s.stop {
					s.cond.Wait()
				}
				if s.stop || len(s.items) == 0 {
					s.cond.Broadcast()
					s.mu.Unlock()
					break
				}
				it := s.items[len(s.items)-1]
				s.items = s.items[:len(s.items)-1]
				s.active++
				s.paths++
				s.mu.Unlock()
				w.path(it)
				s.mu.Lock()
				s.active--
				s.cond.Broadcast()
				s.mu.Unlock()
			}
			s.mu.Lock()
			for c, m := range w.hits {
				h := s.hits[c]
				if h == nil {
					h = map[int]bool{}
					s.hits[c] = h
				}
				for b := range m {
					h[b] = true
				}
			}
			s.mu.Unlock()
		}()
	}
	wg.Wait()
	close(stopTick)
	s.leftItems = len(s.items)
}

func newWorker(s *Session) *Worker {
	w := &Worker{p: s.p, s: s, inited: map[*ssa.Package]bool{}, meth: map[methKey]*ssa.Function{}, impl: map[[2]types.Type]bool{}, hits: map[*Code]map[int]bool{}, baseMu: map[*Value]*mutexState{}, base: map[any]any{}}
	w.solver = newSolver(s.cache, s.st, s.solverLimit)
	w.solver.cross = s.cross
	return w
}

// replay executes one path under a fixed model without exploring.
func (w *Worker) replay(model []uint64) []*Violation {
	ex := w.exec(Item{model: model, bound: 1 << 30, exclAt: -1})
	return ex.viols
}

func (w *Worker) exec(it Item) *Exec {
	s := w.s
	ex := &Exec{w: w, opt: s.opt, bound: it.bound, excl: it.excl, exclAt: it.exclAt, maxSteps: s.opt.MaxSteps,
		kn: map[*Term]bool{}, overCh: make(chan struct{}), acks: make(chan struct{}, 1024), logging: true,
		mutexes: map[*Value]*mutexState{}, side: map[any]any{}, calls: map[string]int{}, covers: map[string]bool{}, schedOn: true}
	m := make([]uint64, len(it.model), len(it.model)+32)
	copy(m, it.model)
	ex.tt = newTermTab(m)
	g := &G{ex: ex, id: 0, wake: make(chan struct{}, 1), fn: Value{P: s.entry}}
	ex.gs = []*G{g}
	ex.cur = g
	go g.run()
	g.wake <- struct{}{}
	<-ex.overCh
	// kill everybody that is still parked
	acked := 0
	// the finisher acks by itself; parked goroutines need a wake-up
	for _, x := range ex.gs {
		select {
		case x.wake <- struct{}{}:
		default:
		}
	}
	for acked < len(ex.gs) {
		<-ex.acks
		acked++
	}
	// restore shared state
	for i := len(ex.undo) - 1; i >= 0; i-- {
		u := &ex.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
	}
	return ex
}

func (w *Worker) path(it Item) {
	s := w.s
	ex := w.exec(it)
	atomic.AddInt64(&s.steps, ex.steps)
	var ab *Violation
	if ex.end.kind == "abandon" && s.onAbandon != nil {
		s.mu.Lock()
		try := s.abReasons[ex.end.reason] < 3
		s.mu.Unlock()
		if try {
			ab = s.onAbandon(ex.values(ex.tt.model))
		}
	}
	s.mu.Lock()
	switch ex.end.kind {
	case "done":
		s.donePaths++
	case "infeasible":
		s.infeasible++
	case "abandon":
		s.abandoned++
		s.abReasons[ex.end.reason]++
		if s.verbose && s.abReasons[ex.end.reason] == 1 {
			fmt.Fprintln(os.Stderr, "abandon:", ex.end.reason)
		}
	}
	if len(ex.pc) > s.maxPC {
		s.maxPC = len(ex.pc)
	}
	s.asserts += int64(ex.asserts)
	for c := range ex.covers {
		s.covers[c]++
	}
	if ex.end.kind != "infeasible" || true {
		s.items = append(s.items, ex.newItems...)
	}
	if ex.end.kind == "done" && len(ex.viols) == 0 && len(ex.obs) > 0 {
		if s.nsamples > 0 {
			// keep an evenly spread reservoir
			n := s.donePaths
			if len(s.samples) < s.nsamples {
				s.samples = append(s.samples, nil)
				s.samples[len(s.samples)-1] = ex.sample()
			} else if n%(1+n/int64(s.nsamples)) == 0 {
				s.samples[int(n*2654435761%int64(s.nsamples))] = ex.sample()
			}
		}
	}
	s.mu.Unlock()
	if ab != nil {
		ex.viols = append(ex.viols, ab)
	}
	for _, v := range ex.viols {
		s.mu.Lock()
		skip := s.stop
		dup := 0
		for _, o := range s.viols {
			if o.Kind == v.Kind && o.Msg == v.Msg {
				dup++
			}
		}
		if !skip && dup < 4 {
			s.viols = append(s.viols, v)
		}
		s.mu.Unlock()
		if skip || dup >= 4 {
			continue
		}
		if s.onViol != nil && s.onViol(v) {
			s.mu.Lock()
			s.stop = true
			s.cond.Broadcast()
			s.mu.Unlock()
		}
	}
}

func (ex *Exec) sample() *Sample {
	sm := &Sample{Values: ex.values(ex.tt.model)}
	for _, o := range ex.obs {
		sm.Obs = append(sm.Obs, o.label+"="+ex.render(o.T, o.v))
	}
	return sm
}

func (ex *Exec) values(m []uint64) map[string]uint64 {
	r := map[string]uint64{}
	for i, v := range ex.tt.vars {
		if i < len(m) {
			r[v.name] = m[i]
		}
	}
	return r
}

func (ex *Exec) tick() {
	ex.lastTick = ex.steps &^ 0xfff
	if ex.w.s.stop {
		panic(pathEnd{"abandon", "session stopped"})
	}
}

// ---- symbolic control

func (ex *Exec) assumeTerm(t *Term) {
	ex.kn[t] = true
	if t.op == opAnd {
		ex.assumeTerm(t.a)
		ex.assumeTerm(t.b)
		return
	}
	if t.op == opNot && t.a.op == opOr {
		ex.assumeTerm(ex.tt.Not(t.a.a))
		ex.assumeTerm(ex.tt.Not(t.a.b))
		return
	}
	ex.pc = append(ex.pc, t)
}

func (ex *Exec) branch(c *Term) bool {
	if c.op == opConst {
		return c.val != 0
	}
	if ex.kn[c] {
		return true
	}
	nc := ex.tt.Not(c)
	if ex.kn[nc] {
		return false
	}
	if len(c.vars) == 0 {
		panic("branch without variables")
	}
	if ex.spec > 0 {
		panic(specFail{})
	}
	i := ex.nbranch
	ex.nbranch++
	v := ex.tt.Eval(c) != 0
	taken, other := c, nc
	if !v {
		taken, other = nc, c
	}
	if i >= ex.bound {
		res, m := ex.w.solver.check(ex.tt, ex.pc, other, false)
		switch res {
		case resSat:
			ex.newItems = append(ex.newItems, Item{model: m, bound: i + 1, exclAt: -1})
			ex.forkSite()
		case resUnknown:
			ex.w.s.note("unknown branch verdict")
		}
	}
	ex.assumeTerm(taken)
	return v
}

// forkSite counts the place of a fork if somebody wants to know.
func (ex *Exec) forkSite() {
	s := ex.w.s
	if s.sites == nil || ex.cur == nil {
		return
	}
	st := strings.SplitN(ex.cur.stackStr(), "\n", 4)
	if len(st) > 3 {
		st = st[:3]
	}
	s.mu.Lock()
	s.sites[strings.Join(st, " < ")]++
	s.mu.Unlock()
}

// conc forks over all feasible values of t.
func (ex *Exec) conc(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if ex.spec > 0 {
		panic(specFail{})
	}
	i := ex.nbranch
	ex.nbranch++
	v := ex.tt.Eval(t)
	eq := ex.tt.Bin(opEq, t, ex.tt.Const(v, t.w))
	if t.w == 0 {
		eq = t
		if v == 0 {
			eq = ex.tt.Not(t)
		}
	}
	if eq.isConst() {
		return v
	}
	if ex.kn[eq] {
		return v
	}
	if i >= ex.bound {
		var excl []uint64
		if ex.exclAt == i {
			excl = ex.excl
		}
		if len(excl) > 300 {
			ex.abandon("more than 300 values to concretise")
		}
		q := ex.tt.Not(eq)
		for _, e := range excl {
			q = ex.tt.And(q, ex.tt.Not(ex.tt.Bin(opEq, t, ex.tt.Const(e, t.w))))
		}
		res, m := ex.w.solver.check(ex.tt, ex.pc, q, false)
		switch res {
		case resSat:
			ex.newItems = append(ex.newItems, Item{model: m, bound: i, excl: append(append([]uint64(nil), excl...), v), exclAt: i})
			ex.forkSite()
		case resUnknown:
			ex.w.s.note("unknown concretisation verdict")
		}
	}
	ex.assumeTerm(eq)
	return v
}

func (ex *Exec) concV(v Value) uint64 {
	if t := termOf(v); t != nil {
		return ex.conc(t)
	}
	return v.N
}
func (ex *Exec) concInt(v Value) int { return int(ex.concV(v)) }

// choose is a nondeterministic choice in [0,n).
func (ex *Exec) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	key := ex.key(name)
	v := ex.tt.NewVar(key, 16)
	vi := int(v.val)
	if ex.tt.model[vi] >= uint64(n) {
		ex.tt.model[vi] = 0
		ex.tt.gen++
	}
	val := ex.tt.model[vi]
	i := ex.nbranch
	ex.nbranch++
	if i >= ex.bound {
		for k := n - 1; k >= 0; k-- {
			if uint64(k) == val {
				continue
			}
			m := make([]uint64, len(ex.tt.model))
			copy(m, ex.tt.model)
			m[vi] = uint64(k)
			ex.newItems = append(ex.newItems, Item{model: m, bound: i + 1, exclAt: -1})
		}
	}
	ex.assumeTerm(ex.tt.Bin(opEq, v, ex.tt.Const(val, 16)))
	return int(val)
}

func (ex *Exec) key(name string) string {
	k := ex.calls[name]
	ex.calls[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (ex *Exec) permute(e []*mapEnt) []*mapEnt {
	r := append([]*mapEnt(nil), e...)
	for i := 0; i < len(r)-1; i++ {
		k := ex.choose("maporder", len(r)-i)
		r[i], r[i+k] = r[i+k], r[i]
	}
	return r
}

func (ex *Exec) assume(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if ex.tt.Eval(t) == 0 {
		res, m := ex.w.solver.check(ex.tt, ex.pc, t, false)
		switch res {
		case resSat:
			ex.tt.setModel(m)
		case resUnsat:
			panic(pathEnd{"infeasible", ""})
		default:
			ex.abandon("unknown verdict on assumption")
		}
	}
	ex.assumeTerm(t)
}

func (ex *Exec) assert(t *Term, msg string) {
	ex.asserts++
	if t.isConst() {
		if t.val == 0 {
			ex.violation("assert", msg, ex.cur.stackStr(), nil)
			panic(pathEnd{"done", ""})
		}
		return
	}
	if ex.tt.Eval(t) == 0 {
		ex.violation("assert", msg, ex.cur.stackStr(), nil)
		// continue with the other side if there is one
		res, m := ex.w.solver.check(ex.tt, ex.pc, t, true)
		if res != resSat {
			panic(pathEnd{"done", ""})
		}
		ex.tt.setModel(m)
		ex.assumeTerm(t)
		return
	}
	res, m := ex.w.solver.check(ex.tt, ex.pc, ex.tt.Not(t), true)
	switch res {
	case resSat:
		ex.violation("assert", msg, ex.cur.stackStr(), m)
	case resUnknown:
		ex.w.s.note("unknown verdict on assertion: " + msg)
	}
	ex.assumeTerm(t)
}

func (ex *Exec) violation(kind, msg, stack string, m []uint64) {
	if m == nil {
		m = append([]uint64(nil), ex.tt.model...)
	}
	ex.viols = append(ex.viols, &Violation{Kind: kind, Msg: msg, Stack: stack, Entry: ex.w.s.name, Values: ex.values(m), Params: ex.opt.Params, Sched: ex.opt.Sched, model: m})
}

func (ex *Exec) crash(g *G, p *goPanic) {
	ex.violation("panic", p.msg, p.stack, nil)
	ex.finish(pathEnd{"done", ""})
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
