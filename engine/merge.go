package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Merging of branches: a symbolic condition followed by blocks without
// effects is turned into one condition (short-circuit chains, switch cases
// with one target) or into conditional values (small diamonds), so that it
// forks once or not at all.

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.ChangeType:
		case *ssa.Lookup:
			if !isString(x.X.Type()) {
				return false
			}
		case *ssa.Convert:
			if _, _, ok := intInfo(x.Type()); !ok {
				return false
			}
			if _, _, ok := intInfo(x.X.Type()); !ok {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM:
				return false
			case token.ADD:
				if isString(x.Type()) {
					return false
				}
			case token.EQL, token.NEQ:
				if _, ok := x.X.Type().Underlying().(*types.Interface); ok {
					return false
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump, *ssa.If:
		return true
	}
	return false
}

func sameSSA(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok || !ok2 || !types.Identical(x.Type(), y.Type()) {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == nil && y.Value == nil
	}
	return constant.Compare(x.Value, token.EQL, y.Value)
}

func (b *cblock) predIdx(p int) int {
	for i, x := range b.preds {
		if x == p {
			return i
		}
	}
	return 0
}

func (b *cblock) phiSame(p, q int) bool {
	if p == q {
		return true
	}
	i, j := b.predIdx(p), b.predIdx(q)
	for k := range b.phis {
		if !sameSSA(b.phis[k].edges[i], b.phis[k].edges[j]) {
			return false
		}
	}
	return true
}

type specFail struct{}

// tryOps runs a block's instructions speculatively.
func (g *G) tryOps(fr *frame, b *cblock) (ok bool) {
	if !b.pure {
		return false
	}
	ex := g.ex
	pos, depth, top, sp, stk := fr.curPos, g.depth, g.top, g.sp, g.stack
	ex.spec++
	defer func() {
		ex.spec--
		if ok {
			return
		}
		switch r := recover().(type) {
		case specFail, *goPanic:
			// deterministic: paths are re-executed
			fr.curPos, g.depth, g.top, g.sp, g.stack = pos, depth, top, sp, stk
		default:
			panic(r)
		}
	}()
	for i, op := range b.ops {
		fr.curPos = b.poss[i]
		op(fr)
	}
	if fr.code.isRepo {
		ex.w.hit(fr.code, b.idx)
	}
	return true
}

// symIf continues after a symbolic condition c at the end of b.
func (g *G) symIf(fr *frame, b *cblock, c *Term) {
	ex := g.ex
	tt := ex.tt
	T, F := b.succ[0], b.succ[1]
	pT, pF := b.idx, b.idx
	for n := 0; n < 40 && T != F; n++ {
		if c == tt.tt || c == tt.ff {
			break
		}
		if F.pure && F.term == 1 && (F.succ[0] == T || F.succ[1] == T) && F.succ[0] != F.succ[1] && T.phiSame(pT, F.idx) && g.tryOps(fr, F) {
			c2 := ex.boolTerm(fr.get(&F.cond))
			if F.succ[0] == T {
				c = tt.Or(c, c2)
				F, pF = F.succ[1], F.idx
			} else {
				c = tt.Or(c, tt.Not(c2))
				F, pF = F.succ[0], F.idx
			}
			continue
		}
		if T.pure && T.term == 1 && (T.succ[0] == F || T.succ[1] == F) && T.succ[0] != T.succ[1] && F.phiSame(pF, T.idx) && g.tryOps(fr, T) {
			c2 := ex.boolTerm(fr.get(&T.cond))
			if T.succ[1] == F {
				c = tt.And(c, c2)
				T, pT = T.succ[0], T.idx
			} else {
				c = tt.And(c, tt.Not(c2))
				T, pT = T.succ[1], T.idx
			}
			continue
		}
		// triangles and diamonds
		mT, mF, qT, qF := T, F, pT, pF
		if F.pure && F.term == 0 && F.succ[0] == T {
			mF, qF = T, F.idx
		} else if T.pure && T.term == 0 && T.succ[0] == F {
			mT, qT = F, T.idx
		} else if T.pure && F.pure && T.term == 0 && F.term == 0 && T.succ[0] == F.succ[0] {
			mT, mF, qT, qF = T.succ[0], F.succ[0], T.idx, F.idx
		}
		if mT == mF && g.joinPhis(fr, mT, c, T, F, qT, qF) {
			return
		}
		break
	}
	if T == F || ex.branch(c) {
		fr.block, fr.prev = T, pT
	} else {
		fr.block, fr.prev = F, pF
	}
}

func (g *G) joinPhis(fr *frame, m *cblock, c *Term, T, F *cblock, qT, qF int) bool {
	i, j := m.predIdx(qT), m.predIdx(qF)
	for k := range m.phis {
		ph := &m.phis[k]
		if ph.w == 255 && !sameSSA(ph.edges[i], ph.edges[j]) {
			return false
		}
	}
	if T != m && !g.tryOps(fr, T) {
		return false
	}
	if F != m && !g.tryOps(fr, F) {
		return false
	}
	ex := g.ex
	vals := make([]Value, len(m.phis))
	for k := range m.phis {
		ph := &m.phis[k]
		a, b := fr.get(&ph.src[i]), fr.get(&ph.src[j])
		if sameSSA(ph.edges[i], ph.edges[j]) {
			vals[k] = a
			continue
		}
		if ph.w == 0 {
			vals[k] = ex.tv(ex.tt.Ite(c, ex.boolTerm(a), ex.boolTerm(b)))
			continue
		}
		vals[k] = ex.tv(ex.tt.Ite(c, ex.term(a, ph.w), ex.term(b, ph.w)))
	}
	for k := range m.phis {
		fr.regs[m.phis[k].dst] = vals[k]
	}
	fr.block, fr.prev, fr.phisDone = m, qT, true
	ex.steps++
	return true
}
