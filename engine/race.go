package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking: with scheduling enabled every goroutine carries a
// vector clock, and conflicting accesses of the code under test that no
// synchronisation orders are reported as data races. Channel operations
// synchronise in both directions, which can only hide races.

type vclock []uint32

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type shadow struct {
	wg    int // last writer
	wc    uint32
	wpos  string
	reads []readMark
}

type readMark struct {
	g   int
	c   uint32
	pos string
}

func (g *G) own() uint32 {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.vc[g.id]
}

func (g *G) acq(k any) {
	if !g.ex.opt.Sched {
		return
	}
	if c := g.ex.clocks[k]; c != nil {
		g.vc.join(*c)
	}
}

func (g *G) rel(k any) {
	ex := g.ex
	if !ex.opt.Sched {
		return
	}
	g.own()
	if ex.clocks == nil {
		ex.clocks = map[any]*vclock{}
	}
	c := ex.clocks[k]
	if c == nil {
		c = &vclock{}
		ex.clocks[k] = c
	}
	c.join(g.vc)
	g.vc[g.id]++
}

func (g *G) acqrel(k any) { g.acq(k); g.rel(k) }

// readers of an RWMutex are ordered with writers only
type rkey struct{ m *mutexState }

// syncCell is a scheduling point that orders all operations on one cell.
func (g *G) syncCell(p Value, why string) {
	g.yield(why)
	if c, ok := p.P.(*Value); ok {
		g.acqrel(c)
	}
}

// access records a read or write of k at pos.
func (g *G) access(k any, write bool, where func() string) {
	ex := g.ex
	me := g.own()
	if ex.shadows == nil {
		ex.shadows = map[any]*shadow{}
	}
	s := ex.shadows[k]
	if s == nil {
		s = &shadow{wg: -1}
		ex.shadows[k] = s
	}
	race := ""
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		race = s.wpos
	}
	if write {
		for _, r := range s.reads {
			if r.g != g.id && r.c > g.vc.at(r.g) {
				race = r.pos
			}
		}
		s.wg, s.wc, s.wpos, s.reads = g.id, me, where(), s.reads[:0]
	} else {
		found := false
		for i := range s.reads {
			if s.reads[i].g == g.id {
				s.reads[i].c = me
				found = true
			}
		}
		if !found {
			s.reads = append(s.reads, readMark{g.id, me, where()})
		}
	}
	if race != "" && !ex.raced {
		ex.raced = true
		a, b := where(), race
		if b < a {
			a, b = b, a
		}
		ex.violation("race", fmt.Sprintf("data race between %s and %s", a, b), g.stackStr(), nil)
	}
}

func (g *G) accessCell(T types.Type, c *Value, write bool, where func() string) {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		if fs, ok := c.P.([]Value); ok {
			for i := range fs {
				if i < t.NumFields() {
					g.accessCell(t.Field(i).Type(), &fs[i], write, where)
				}
			}
			return
		}
	case *types.Array:
		if fs, ok := c.P.([]Value); ok {
			for i := range fs {
				g.accessCell(t.Elem(), &fs[i], write, where)
			}
			return
		}
	}
	g.access(c, write, where)
}

// raced wraps the memory accesses of an instruction.
func (c *compiler) raced(in ssa.Instruction, f opfn) opfn {
	where := func(pos token.Pos) func() string {
		return func() string {
			fn := c.fn.String()
			if p := c.p.prog.Fset.Position(pos); p.IsValid() {
				return fmt.Sprintf("%s (%s)", fn, relPos(p.Filename, p.Line))
			}
			return fn
		}
	}
	mem := func(addr ssa.Value, T types.Type, write bool) opfn {
		if a, ok := addr.(*ssa.Alloc); ok && !a.Heap {
			return f
		}
		p := c.op(addr)
		w := where(in.Pos())
		return func(fr *frame) {
			if fr.g.ex.opt.Sched && len(fr.g.ex.gs) > 1 {
				if cell, ok := fr.get(&p).P.(*Value); ok {
					fr.g.accessCell(T, cell, write, w)
				}
			}
			f(fr)
		}
	}
	mp := func(m ssa.Value, write bool) opfn {
		p := c.op(m)
		w := where(in.Pos())
		return func(fr *frame) {
			if fr.g.ex.opt.Sched && len(fr.g.ex.gs) > 1 {
				if mv, ok := fr.get(&p).P.(*Map); ok && mv != nil {
					fr.g.access(mv, write, w)
				}
			}
			f(fr)
		}
	}
	isMap := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Map)
		return ok
	}
	switch x := in.(type) {
	case *ssa.Store:
		return mem(x.Addr, x.Val.Type(), true)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return mem(x.X, x.Type(), false)
		}
	case *ssa.MapUpdate:
		return mp(x.Map, true)
	case *ssa.Lookup:
		if isMap(x.X) {
			return mp(x.X, false)
		}
	case *ssa.Range:
		if isMap(x.X) {
			return mp(x.X, false)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 && isMap(x.Call.Args[0]) {
			switch b.Name() {
			case "delete", "clear":
				return mp(x.Call.Args[0], true)
			case "len":
				return mp(x.Call.Args[0], false)
			}
		}
	}
	return f
}

func relPos(f string, line int) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			return fmt.Sprintf("%s:%d", f[i+1:], line)
		}
	}
	return fmt.Sprintf("%s:%d", f, line)
}
