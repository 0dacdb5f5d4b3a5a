package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"io"
	"math/bits"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	resUnsat Res = iota
	resSat
	resUnknown
)

// SolverProc is one external solver process spoken to over SMT-LIB.
type SolverProc struct {
	argv  []string
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.Closer
	out   *bufio.Reader
	alive bool
}

func (s *SolverProc) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inC = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.alive = true
	s.in.WriteString("(set-logic QF_BV)\n")
	return nil
}

func (s *SolverProc) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.alive = false
}

// query: text declares and asserts; n variables named v0..v(n-1).
func (s *SolverProc) query(text string, n int, limit time.Duration) (Res, []uint64) {
	if !s.alive {
		if err := s.start(); err != nil {
			return resUnknown, nil
		}
	}
	timer := time.AfterFunc(limit, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	s.in.WriteString("(push 1)\n")
	s.in.WriteString(text)
	s.in.WriteString("(check-sat)\n")
	if s.in.Flush() != nil {
		s.kill()
		return resUnknown, nil
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.kill()
		return resUnknown, nil
	}
	line = strings.TrimSpace(line)
	var res Res
	var vals []uint64
	switch line {
	case "unsat":
		res = resUnsat
	case "sat":
		res = resSat
		if n > 0 {
			s.in.WriteString("(get-value (")
			for i := 0; i < n; i++ {
				fmt.Fprintf(s.in, "v%d ", i)
			}
			s.in.WriteString("))\n")
			if s.in.Flush() != nil {
				s.kill()
				return resUnknown, nil
			}
			vals, err = s.readValues(n)
			if err != nil {
				s.kill()
				return resUnknown, nil
			}
		}
	default:
		// "unknown", "(error ..." and everything else are inconclusive
		s.kill()
		return resUnknown, nil
	}
	s.in.WriteString("(pop 1)\n")
	return res, vals
}

func (s *SolverProc) readValues(n int) ([]uint64, error) {
	depth := 0
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if strings.HasPrefix(line, "(error") {
			return nil, fmt.Errorf("%s", line)
		}
		sb.WriteString(line)
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 {
			break
		}
	}
	vals := make([]uint64, n)
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String()))
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t[0] == 'v' && i+1 < len(toks) {
			k, err := strconv.Atoi(t[1:])
			if err != nil || k >= n {
				continue
			}
			v := toks[i+1]
			switch {
			case v == "true":
				vals[k] = 1
			case v == "false":
				vals[k] = 0
			case strings.HasPrefix(v, "#x"):
				u, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return nil, err
				}
				vals[k] = u
			case strings.HasPrefix(v, "#b"):
				u, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return nil, err
				}
				vals[k] = u
			case v == "(" && toks[i+2] == "_":
				u, err := strconv.ParseUint(toks[i+3][2:], 10, 64)
				if err != nil {
					return nil, err
				}
				vals[k] = u
			default:
				return nil, fmt.Errorf("value %q", v)
			}
		}
	}
	return vals, nil
}

type cacheEnt struct {
	res  Res
	vals []uint64
}

// QueryCache maps canonical query text to verdicts across workers.
type QueryCache struct {
	shards [64]struct {
		sync.RWMutex
		m map[string]cacheEnt
	}
}

func newQueryCache() *QueryCache {
	c := &QueryCache{}
	for i := range c.shards {
		c.shards[i].m = map[string]cacheEnt{}
	}
	return c
}

func (c *QueryCache) shard(k string) int {
	h := fnv.New32a()
	io.WriteString(h, k)
	return int(h.Sum32() & 63)
}
func (c *QueryCache) get(k string) (cacheEnt, bool) {
	s := &c.shards[c.shard(k)]
	s.RLock()
	defer s.RUnlock()
	e, ok := s.m[k]
	return e, ok
}
func (c *QueryCache) put(k string, e cacheEnt) {
	s := &c.shards[c.shard(k)]
	s.Lock()
	s.m[k] = e
	s.Unlock()
}

type SolverStats struct {
	queries, cached, sat, unsat, unknown, fallback int64
	nanos                                          int64
	assertQueries, assertUnsat                     int64
	crossChecked, presolved                        int64
}

// Solver is a worker's front-end: slicing, caching, fallback.
type Solver struct {
	main, alt *SolverProc
	cache     *QueryCache
	st        *SolverStats
	limit     time.Duration
	cross     bool
}

func newSolver(cache *QueryCache, st *SolverStats, limit time.Duration) *Solver {
	return &Solver{
		main:  &SolverProc{argv: []string{"z3-new", "-in", "-smt2"}},
		alt:   &SolverProc{argv: []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2"}},
		cache: cache, st: st, limit: limit,
	}
}

func (s *Solver) close() {
	if s.main.alive {
		s.main.kill()
	}
	if s.alt.alive {
		s.alt.kill()
	}
}

// check decides pc ∧ extra. On sat it returns a full model: the current one
// updated with the values of the variables in the relevant slice.
func (s *Solver) check(tt *TermTab, pc []*Term, extra *Term, isAssert bool) (Res, []uint64) {
	if extra == tt.ff {
		return resUnsat, nil
	}
	// slice: constraints (transitively) sharing variables with extra
	vs := extra.vars
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if !used[i] && c.vars.intersects(vs) {
				used[i] = true
				vs = vs.union(c.vars)
				changed = true
			}
		}
	}
	if !isAssert {
		if res, m, ok := presolve(tt, pc, used, vs, extra); ok && res == resSat {
			atomic.AddInt64(&s.st.presolved, 1)
			return res, m
		}
	}
	p := newPrinter()
	p.assert(extra)
	for i, c := range pc {
		if used[i] {
			p.assert(c)
		}
	}
	key := p.sb.String()
	n := len(p.order)
	if isAssert {
		atomic.AddInt64(&s.st.assertQueries, 1)
	}
	e, ok := s.cache.get(key)
	if ok {
		atomic.AddInt64(&s.st.cached, 1)
	} else {
		t0 := time.Now()
		e.res, e.vals = s.main.query(key, n, s.limit)
		if e.res == resUnknown {
			atomic.AddInt64(&s.st.fallback, 1)
			e.res, e.vals = s.alt.query(key, n, s.limit)
		} else if s.cross && isAssert && e.res == resUnsat {
			r2, _ := s.alt.query(key, n, s.limit)
			if r2 == resSat {
				e.res = resUnknown // solvers disagree: inconclusive
			} else if r2 == resUnsat {
				atomic.AddInt64(&s.st.crossChecked, 1)
			}
		}
		atomic.AddInt64(&s.st.nanos, int64(time.Since(t0)))
		atomic.AddInt64(&s.st.queries, 1)
		switch e.res {
		case resSat:
			atomic.AddInt64(&s.st.sat, 1)
		case resUnsat:
			atomic.AddInt64(&s.st.unsat, 1)
		default:
			atomic.AddInt64(&s.st.unknown, 1)
		}
		s.cache.put(key, e)
	}
	if isAssert && e.res == resUnsat {
		atomic.AddInt64(&s.st.assertUnsat, 1)
	}
	if e.res != resSat {
		return e.res, nil
	}
	m := make([]uint64, len(tt.model))
	copy(m, tt.model)
	for i, vi := range p.order {
		m[vi] = e.vals[i]
	}
	return resSat, m
}

// presolve guesses models for path-feasibility queries by changing a single
// variable of the current model, or trying a few combinations. Only its models
// are used: unsatisfiability always comes from the solver.
func presolve(tt *TermTab, pc []*Term, used []bool, vs varset, extra *Term) (Res, []uint64, bool) {
	all := vs.list()
	evs := extra.vars.list()
	if len(evs) > 6 {
		return resUnknown, nil, false
	}
	defer func() { tt.gen++ }()
	for _, v := range evs {
		w := tt.vars[v].w
		if w > 8 {
			continue
		}
		old := tt.model[v]
		var cs []*Term
		for i, c := range pc {
			if used[i] && c.vars.has(v) {
				cs = append(cs, c)
			}
		}
		n := uint64(2)
		if w > 0 {
			n = 1 << w
		}
		for k := uint64(0); k < n; k++ {
			if k == old && len(all) > 1 {
				continue
			}
			tt.model[v] = k
			tt.gen++
			if tt.Eval(extra) == 0 {
				continue
			}
			ok := true
			for j := len(cs) - 1; j >= 0; j-- {
				if tt.Eval(cs[j]) == 0 {
					ok = false
					break
				}
			}
			if ok {
				m := make([]uint64, len(tt.model))
				copy(m, tt.model)
				tt.model[v] = old
				return resSat, m, true
			}
		}
		tt.model[v] = old
		if len(all) == 1 {
			return resUnsat, nil, true
		}
	}
	// complete search when the product of the variables' domains is small
	if len(all) > 4 {
		return resUnknown, nil, false
	}
	prod := 1
	doms := make([][]uint64, len(all))
	var rest []*Term
	for i, c := range pc {
		if used[i] && len(c.vars.list()) > 1 {
			rest = append(rest, c)
		}
	}
	for i, v := range all {
		w := tt.vars[v].w
		if w > 8 {
			return resUnknown, nil, false
		}
		n := uint64(2)
		if w > 0 {
			n = 1 << w
		}
		var cs []*Term
		if extra.vars.single() == v {
			cs = append(cs, extra)
		}
		for j, c := range pc {
			if used[j] && c.vars.single() == v {
				cs = append(cs, c)
			}
		}
		old := tt.model[v]
		for k := uint64(0); k < n; k++ {
			tt.model[v] = k
			tt.gen++
			ok := true
			for _, c := range cs {
				if tt.Eval(c) == 0 {
					ok = false
					break
				}
			}
			if ok {
				doms[i] = append(doms[i], k)
			}
		}
		tt.model[v] = old
		if len(doms[i]) == 0 {
			return resUnsat, nil, true
		}
		prod *= len(doms[i])
		if prod > 1500 {
			return resUnknown, nil, false
		}
	}
	save := make([]uint64, len(all))
	for i, v := range all {
		save[i] = tt.model[v]
	}
	defer func() {
		for i, v := range all {
			tt.model[v] = save[i]
		}
	}()
	for x := 0; x < prod; x++ {
		y := x
		for i, v := range all {
			tt.model[v] = doms[i][y%len(doms[i])]
			y /= len(doms[i])
		}
		tt.gen++
		if tt.Eval(extra) == 0 {
			continue
		}
		ok := true
		for _, c := range rest {
			if tt.Eval(c) == 0 {
				ok = false
				break
			}
		}
		if ok {
			m := make([]uint64, len(tt.model))
			copy(m, tt.model)
			return resSat, m, true
		}
	}
	return resUnsat, nil, true
}

// single returns the only element of s, or -1.
func (s varset) single() int {
	r := -1
	for i, x := range s {
		if x == 0 {
			continue
		}
		if r >= 0 || x&(x-1) != 0 {
			return -1
		}
		r = i*64 + bits.TrailingZeros64(x)
	}
	return r
}
