package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	kind uint8 // 0 slot, 1 const, 2 global
	slot int
	v    Value
	g    *ssa.Global
	gi   int
}

type frame struct {
	g         *G
	caller    *frame
	code      *Code
	regs      []Value
	env       []Value
	args      []Value
	defers    []deferred
	panicking bool
	pv        *goPanic
	done      bool
	block     *cblock
	prev      int
	curPos    token.Pos
	phisDone  bool
}

type deferred struct {
	fn   Value
	args []Value
}

type opfn func(fr *frame)

type phi struct {
	dst   int
	src   []opnd
	edges []ssa.Value
	w     uint8 // width of mergeable values, 255: not mergeable
}

type cblock struct {
	idx   int
	phis  []phi
	ops   []opfn
	poss  []token.Pos
	term  uint8 // 0 jump 1 if 2 return 3 panic 4 none
	cond  opnd
	succ  [2]*cblock
	rets  []opnd
	tpos  token.Pos
	hits  int64
	preds []int
	pure  bool // no phis, no effects: may run speculatively
}

// Code is the compiled form of one SSA function.
type Code struct {
	fn       *ssa.Function
	name     string
	native   nativeFn
	model    *ssa.Function
	opaque   bool
	blocks   []*cblock
	recover  *cblock
	nslots   int
	hasDefer bool
	isRepo   bool
	isHarn   bool // test code: its synchronisation is no scheduling point
	nparams  int
}

type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	codes   sync.Map // *ssa.Function -> *Code
	globals map[*ssa.Global]int
	gmu     sync.Mutex
	glist   []*ssa.Global
	models  map[string]*ssa.Function
	opaque  map[string]bool
	repoPfx string
	symPkg  *ssa.Package
	rtErrT  types.Type
	types   map[string]types.Type
	raw     sync.Map
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.glist)
	p.globals[g] = i
	p.glist = append(p.glist, g)
	return i
}

func (p *Program) code(fn *ssa.Function) *Code {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*Code)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if c, ok := p.codes.Load(fn); ok {
		return c.(*Code)
	}
	c := p.compile(fn)
	p.codes.Store(fn, c)
	return c
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

type compiler struct {
	p     *Program
	fn    *ssa.Function
	slots map[ssa.Value]int
	n     int
}

func (c *compiler) slot(v ssa.Value) int {
	if i, ok := c.slots[v]; ok {
		return i
	}
	i := c.n
	c.n++
	c.slots[v] = i
	return i
}

func constValue(k *ssa.Const) Value {
	T := k.Type()
	if k.Value == nil {
		return zero(T)
	}
	if tp, ok := T.(*types.TypeParam); ok {
		_ = tp
		panic("const of type param")
	}
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		panic("const type " + T.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolVal(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return strV(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return strV(string(rune(i)))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intInfo(T)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(w)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		w, _ := isFloat(T)
		return fromF(f, w)
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return Value{P: complex(re, im)}
	}
	panic("const " + T.String())
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: constValue(x)}
	case *ssa.Global:
		return opnd{kind: 2, g: x, gi: c.p.globalIdx(x)}
	case *ssa.Function:
		return opnd{kind: 1, v: Value{P: &Closure{fn: x}}}
	case *ssa.Builtin:
		return opnd{kind: 1, v: Value{P: &Closure{bi: x}}}
	case *ssa.FreeVar:
		for i, fv := range c.fn.FreeVars {
			if fv == x {
				return opnd{kind: 3, slot: i}
			}
		}
	}
	return opnd{kind: 0, slot: c.slot(v)}
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.slot]
	case 1:
		return o.v
	case 2:
		return Value{P: fr.g.ex.w.global(fr.g, o)}
	case 3:
		return fr.env[o.slot]
	}
	panic("get")
}

func (p *Program) compile(fn *ssa.Function) *Code {
	if fn.Synthetic == "package initializer" {
		// packages are initialised lazily, see ensureInit
		return &Code{fn: fn, name: fn.String(), native: func(g *G, fn *ssa.Function, args []Value) Value { return Value{} }}
	}
	return p.compile0(fn, false)
}

func (p *Program) compileRaw(fn *ssa.Function) *Code { return p.compile0(fn, true) }

func (p *Program) compile0(fn *ssa.Function, raw bool) *Code {
	code := &Code{fn: fn, name: fn.String()}
	pkg := fnPkg(fn)
	base := fn
	if o := fn.Origin(); o != nil {
		base = o
	}
	name := base.String()
	if pkg != nil {
		code.isRepo = len(pkg.Path()) >= len(p.repoPfx) && pkg.Path()[:len(p.repoPfx)] == p.repoPfx && !isVerifPkg(pkg.Path())
		code.isHarn = isVerifPkg(pkg.Path()) && pkg.Path() != modelPath
	}
	if nf, ok := natives[name]; ok && !raw {
		code.native = nf
		return code
	}
	if m, ok := p.models[name]; ok && m != fn && !raw {
		code.model = m
		return code
	}
	if pkg != nil && p.opaque[pkg.Path()] && fn.Synthetic == "" && !raw {
		code.opaque = true
		return code
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if pkg != nil {
		if sp := p.prog.Package(pkg); sp != nil {
			sp.Build()
		}
	}
	if len(fn.Blocks) == 0 {
		return code
	}
	c := &compiler{p: p, fn: fn, slots: map[ssa.Value]int{}}
	for _, par := range fn.Params {
		c.slot(par)
	}
	code.nparams = len(fn.Params)
	code.blocks = make([]*cblock, len(fn.Blocks))
	for i := range fn.Blocks {
		code.blocks[i] = &cblock{idx: i}
	}
	for i, b := range fn.Blocks {
		cb := code.blocks[i]
		for _, pr := range b.Preds {
			cb.preds = append(cb.preds, pr.Index)
		}
		cb.pure = pureBlock(b)
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := phi{dst: c.slot(x)}
				for _, e := range x.Edges {
					ph.src = append(ph.src, c.op(e))
				}
				ph.edges = x.Edges
				ph.w = 255
				if w, _, ok := intInfo(x.Type()); ok {
					if w <= 32 {
						ph.w = w
					}
				} else if isBool(x.Type()) {
					ph.w = 0
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.Jump:
				cb.term = 0
				cb.succ[0] = code.blocks[b.Succs[0].Index]
			case *ssa.If:
				cb.term = 1
				cb.cond = c.op(x.Cond)
				cb.succ[0] = code.blocks[b.Succs[0].Index]
				cb.succ[1] = code.blocks[b.Succs[1].Index]
			case *ssa.Return:
				cb.term = 2
				for _, r := range x.Results {
					cb.rets = append(cb.rets, c.op(r))
				}
			case *ssa.Panic:
				cb.term = 3
				cb.cond = c.op(x.X)
				cb.tpos = x.Pos()
			case *ssa.DebugRef:
			default:
				if _, ok := in.(*ssa.Defer); ok {
					code.hasDefer = true
				}
				op := c.instr(in)
				if code.isRepo {
					op = c.raced(in, op)
				}
				cb.ops = append(cb.ops, op)
				cb.poss = append(cb.poss, in.Pos())
			}
		}
	}
	if fn.Recover != nil {
		code.recover = code.blocks[fn.Recover.Index]
	}
	code.nslots = c.n
	return code
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref " + T.String())
}

func (c *compiler) instr(in ssa.Instruction) opfn {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.slot(x)
		T := deref(x.Type())
		if isAgg(T) {
			return func(fr *frame) {
				cell := new(Value)
				*cell = zero(T)
				fr.regs[d] = Value{P: cell}
			}
		}
		return func(fr *frame) { fr.regs[d] = Value{P: new(Value)} }
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		d := c.slot(x)
		call := c.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.Defer:
		prep := c.callPrep(&x.Call)
		return func(fr *frame) {
			f, a := prep(fr)
			fr.defers = append(fr.defers, deferred{f, a})
		}
	case *ssa.Go:
		prep := c.callPrep(&x.Call)
		return func(fr *frame) {
			f, a := prep(fr)
			fr.g.ex.spawn(f, a)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.g.runDefers(fr) }
	case *ssa.ChangeInterface:
		d, a := c.slot(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.get(&a) }
	case *ssa.ChangeType:
		d, a := c.slot(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.get(&a) }
	case *ssa.Convert:
		d, a := c.slot(x), c.op(x.X)
		conv := convFn(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[d] = conv(fr.g, fr.get(&a)) }
	case *ssa.MultiConvert:
		d, a := c.slot(x), c.op(x.X)
		conv := convFn(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[d] = conv(fr.g, fr.get(&a)) }
	case *ssa.Extract:
		d, a, i := c.slot(x), c.op(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = fr.get(&a).P.([]Value)[i] }
	case *ssa.Field:
		d, a, i := c.slot(x), c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = fr.get(&a).P.([]Value)[i] }
	case *ssa.FieldAddr:
		d, a, i := c.slot(x), c.op(x.X), x.Field
		return func(fr *frame) {
			p, ok := fr.get(&a).P.(*Value)
			if !ok {
				fr.g.nilPanic(fr.get(&a))
			}
			fs, ok := p.P.([]Value)
			if !ok {
				fr.g.ex.abandon(fmt.Sprintf("field of %T in %s", p.P, fr.code.name))
			}
			fr.regs[d] = Value{P: &fs[i]}
		}
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Lookup:
		d, m, k := c.slot(x), c.op(x.X), c.op(x.Index)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok { // string index
			iw, isg, _ := intInfo(x.Index.Type())
			return func(fr *frame) {
				s, i := fr.get(&m), fr.get(&k)
				fr.regs[d] = fr.g.strIndex(s, i, iw, isg)
			}
		}
		kT, vT, commaOk := mt.Key(), mt.Elem(), x.CommaOk
		return func(fr *frame) {
			mv, _ := fr.get(&m).P.(*Map)
			e := fr.g.ex.mapFind(mv, kT, fr.get(&k))
			var v Value
			if e != nil {
				v = e.v
			} else {
				v = zero(vT)
			}
			if commaOk {
				v = Value{P: []Value{v, boolVal(e != nil)}}
			}
			fr.regs[d] = v
		}
	case *ssa.MakeChan:
		d, s := c.slot(x), c.op(x.Size)
		eT := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			n := fr.g.ex.concInt(fr.get(&s))
			fr.regs[d] = Value{P: &Chan{cap: n, elem: eT}}
		}
	case *ssa.MakeClosure:
		d := c.slot(x)
		fn := x.Fn.(*ssa.Function)
		ops := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			ops[i] = c.op(b)
		}
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = fr.get(&ops[i])
			}
			fr.regs[d] = Value{P: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		d, a, T := c.slot(x), c.op(x.X), x.X.Type()
		return func(fr *frame) { fr.regs[d] = Value{P: &Iface{T, fr.get(&a)}} }
	case *ssa.MakeMap:
		d := c.slot(x)
		return func(fr *frame) { fr.regs[d] = Value{P: newMap()} }
	case *ssa.MakeSlice:
		d, l, cp := c.slot(x), c.op(x.Len), c.op(x.Cap)
		eT := x.Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(eT)
		return func(fr *frame) {
			ex := fr.g.ex
			lv, cv := fr.get(&l), fr.get(&cp)
			for _, v := range []Value{lv, cv} {
				if t := termOf(v); t != nil {
					// negative or absurd lengths panic in Go
					if !ex.branch(ex.tt.Bin(opUle, t, ex.tt.Const(1<<46, t.w))) {
						fr.g.rtPanic("makeslice: len out of range")
					}
				} else if int64(v.N) < 0 || v.N > 1<<46 {
					fr.g.rtPanic("makeslice: len out of range")
				}
			}
			n, m := ex.concInt(lv), ex.concInt(cv)
			if n > m {
				fr.g.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<22 {
				ex.abandon(fmt.Sprintf("make of %d elements", m))
			}
			s := make([]Value, m)
			if agg {
				for i := range s {
					s[i] = zero(eT)
				}
			}
			fr.regs[d] = Value{P: s[:n]}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kT := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mv, _ := fr.get(&m).P.(*Map)
			if mv == nil {
				fr.g.rtPanic("assignment to entry in nil map")
			}
			fr.g.ex.mapSet(mv, kT, fr.get(&k), fr.get(&v))
		}
	case *ssa.Range:
		d, a := c.slot(x), c.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) {
				m, _ := fr.get(&a).P.(*Map)
				it := &Iter{m: m}
				if m != nil {
					for _, e := range m.ents {
						if !e.dead {
							it.ents = append(it.ents, e)
						}
					}
					if fr.g.ex.opt.MapOrder && len(it.ents) > 1 && fr.code.isRepo {
						it.ents = fr.g.ex.permute(it.ents)
					}
				}
				fr.regs[d] = Value{P: it}
			}
		}
		return func(fr *frame) { fr.regs[d] = Value{P: &Iter{str: fr.get(&a), isS: true}} }
	case *ssa.Next:
		d, a := c.slot(x), c.op(x.Iter)
		tup := x.Type().(*types.Tuple)
		return func(fr *frame) {
			it := fr.get(&a).P.(*Iter)
			if it.isS {
				fr.regs[d] = fr.g.nextRune(it)
				return
			}
			for it.i < len(it.ents) && it.ents[it.i].dead {
				it.i++
			}
			if it.i >= len(it.ents) {
				fr.regs[d] = Value{P: []Value{{}, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type())}}
				return
			}
			e := it.ents[it.i]
			it.i++
			fr.regs[d] = Value{P: []Value{boolVal(true), e.k, e.v}}
		}
	case *ssa.Select:
		return c.sel(x)
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.g.chanSend(fr.get(&ch), fr.get(&v)) }
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, a := c.slot(x), c.op(x.X)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := fr.get(&a).P.([]Value)
			if len(s) < n {
				fr.g.rtPanic("cannot convert slice to array pointer: length too short")
			}
			cell := &Value{P: s[:n:n]}
			fr.regs[d] = Value{P: cell}
		}
	case *ssa.Store:
		p, v := c.op(x.Addr), c.op(x.Val)
		T := x.Val.Type()
		if isAgg(T) {
			return func(fr *frame) {
				pv := fr.get(&p)
				cell, ok := pv.P.(*Value)
				if !ok {
					fr.g.nilPanic(pv)
				}
				fr.g.ex.store(T, cell, fr.get(&v))
			}
		}
		return func(fr *frame) {
			pv := fr.get(&p)
			cell, ok := pv.P.(*Value)
			if !ok {
				if sp, ok := pv.P.(*SymPtr); ok {
					i := fr.g.ex.conc(sp.idx)
					cell = &sp.cells[i]
				} else {
					fr.g.nilPanic(pv)
				}
			}
			fr.g.ex.set(cell, fr.get(&v))
		}
	case *ssa.TypeAssert:
		d, a := c.slot(x), c.op(x.X)
		T, commaOk := x.AssertedType, x.CommaOk
		_, isI := T.Underlying().(*types.Interface)
		srcT := x.X.Type()
		return func(fr *frame) {
			i, _ := fr.get(&a).P.(*Iface)
			ok := false
			var r Value
			if i != nil {
				if isI {
					ok = fr.g.ex.w.implements(i.T, T)
					r = Value{P: i}
				} else {
					ok = types.Identical(i.T, T)
					r = i.V
				}
			}
			if commaOk {
				if !ok {
					r = zero(T)
				}
				fr.regs[d] = Value{P: []Value{r, boolVal(ok)}}
				return
			}
			if !ok {
				dyn := "nil"
				if i != nil {
					dyn = i.T.String()
				}
				fr.g.rtPanic(fmt.Sprintf("interface conversion: %s is %s, not %s", srcT, dyn, T))
			}
			fr.regs[d] = r
		}
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(fr *frame) { fr.g.ex.abandon(s) }
}

func zeroOrNil(T types.Type) Value {
	if T == nil || T == types.Typ[types.Invalid] {
		return Value{}
	}
	return zero(T)
}

func (c *compiler) index(x *ssa.Index) opfn {
	d, a, i := c.slot(x), c.op(x.X), c.op(x.Index)
	iw, isg, _ := intInfo(x.Index.Type())
	if isString(x.X.Type()) {
		return func(fr *frame) { fr.regs[d] = fr.g.strIndex(fr.get(&a), fr.get(&i), iw, isg) }
	}
	eT := x.Type()
	return func(fr *frame) {
		s := fr.get(&a).P.([]Value)
		iv := fr.get(&i)
		if t := termOf(iv); t != nil {
			fr.regs[d] = fr.g.symIndexLoad(s, t, eT, isg)
			return
		}
		if iv.N >= uint64(len(s)) {
			fr.g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.N), len(s)))
		}
		fr.regs[d] = s[iv.N]
	}
}

func signIdx(v Value, w uint8, signed bool) Value {
	if v.P == nil && signed && w < 64 {
		v.N = uint64(sext(v.N, w))
	}
	return v
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) opfn {
	d, a, i := c.slot(x), c.op(x.X), c.op(x.Index)
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	eT := deref(x.Type())
	ew, _, eInt := intInfo(eT)
	iw, isg, _ := intInfo(x.Index.Type())
	return func(fr *frame) {
		av := fr.get(&a)
		var s []Value
		if isPtr {
			p, ok := av.P.(*Value)
			if !ok {
				fr.g.nilPanic(av)
			}
			s = p.P.([]Value)
		} else if av.P != nil {
			s = av.P.([]Value)
		}
		iv := signIdx(fr.get(&i), iw, isg)
		if t := termOf(iv); t != nil {
			fr.g.boundsSym(t, isg, len(s))
			if eInt {
				fr.regs[d] = Value{P: &SymPtr{s, t, ew}}
				return
			}
			iv = Value{N: fr.g.ex.conc(t)}
		}
		if iv.N >= uint64(len(s)) {
			fr.g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.N), len(s)))
		}
		fr.regs[d] = Value{P: &s[iv.N]}
	}
}

// boundsSym branches on 0 <= t < n and panics like Go on the other side.
func (g *G) boundsSym(t *Term, signed bool, n int) {
	ex := g.ex
	tt := t
	if t.w < 64 {
		if signed {
			tt = ex.tt.Un(opSExt, t, 64)
		} else {
			tt = ex.tt.Un(opZExt, t, 64)
		}
	}
	if !ex.branch(ex.tt.Bin(opUlt, tt, ex.tt.Const(uint64(n), 64))) {
		g.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

func (g *G) strIndex(s, i Value, iw uint8, signed bool) Value {
	n := strLen(s)
	if t := termOf(i); t != nil {
		g.boundsSym(t, signed, n)
		cells := g.ex.cellsFromStr(s)
		return g.loadSym(cells, t, 8)
	}
	if i.N >= uint64(n) {
		g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.N), n))
	}
	return g.ex.byteAt(s, int(i.N))
}

func (g *G) symIndexLoad(s []Value, t *Term, eT types.Type, signed bool) Value {
	g.boundsSym(t, signed, len(s))
	if w, _, ok := intInfo(eT); ok {
		return g.loadSym(s, t, w)
	}
	return s[g.ex.conc(t)]
}

// loadSym builds the if-then-else for an in-bounds symbolic index.
func (g *G) loadSym(s []Value, t *Term, w uint8) Value {
	ex := g.ex
	n := len(s)
	if n == 0 {
		panic("loadSym")
	}
	m := mask(t.w)
	if uint64(n-1) > m {
		n = int(m) + 1
	}
	if n > 4096 {
		return s[ex.conc(t)]
	}
	r := ex.term(s[n-1], w)
	for i := n - 2; i >= 0; i-- {
		v := ex.term(s[i], w)
		if v == r && r.isConst() {
			continue
		}
		if v == r {
			continue
		}
		r = ex.tt.Ite(ex.tt.Bin(opUle, t, ex.tt.Const(uint64(i), t.w)), v, r)
	}
	return ex.tv(r)
}

func (c *compiler) slice(x *ssa.Slice) opfn {
	d, a := c.slot(x), c.op(x.X)
	var lo, hi, mx opnd
	has := [3]bool{}
	if x.Low != nil {
		lo, has[0] = c.op(x.Low), true
	}
	if x.High != nil {
		hi, has[1] = c.op(x.High), true
	}
	if x.Max != nil {
		mx, has[2] = c.op(x.Max), true
	}
	isS := isString(x.X.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		ex := fr.g.ex
		av := fr.get(&a)
		var s []Value
		var ln, cp int
		isNil := false
		if isS {
			ln = strLen(av)
			cp = ln
		} else {
			if isPtr {
				p, ok := av.P.(*Value)
				if !ok {
					fr.g.nilPanic(av)
				}
				s = p.P.([]Value)
			} else if av.P != nil {
				s = av.P.([]Value)
			} else {
				isNil = true
			}
			ln, cp = len(s), cap(s)
		}
		l, h, m := 0, ln, cp
		bound := func(o *opnd, limit int) int {
			v := fr.get(o)
			if t := termOf(v); t != nil {
				t64 := t
				if t.w < 64 {
					t64 = ex.tt.Un(opZExt, t, 64)
				}
				if !ex.branch(ex.tt.Bin(opUle, t64, ex.tt.Const(uint64(limit), 64))) {
					fr.g.rtPanic("slice bounds out of range [sym]")
				}
				return int(ex.conc(t))
			}
			if v.N > uint64(limit) {
				fr.g.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with limit %d", int64(v.N), limit))
			}
			return int(v.N)
		}
		if has[2] {
			m = bound(&mx, cp)
		}
		if has[1] {
			h = bound(&hi, m)
		}
		if has[0] {
			l = bound(&lo, h)
		}
		if l > h {
			fr.g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if isS {
			fr.regs[d] = ex.substr(av, l, h)
			return
		}
		if isNil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{P: s[l:h:m]}
	}
}

func (c *compiler) unop(x *ssa.UnOp) opfn {
	d, a := c.slot(x), c.op(x.X)
	switch x.Op {
	case token.MUL:
		T := x.Type()
		agg := isAgg(T)
		return func(fr *frame) {
			pv := fr.get(&a)
			p, ok := pv.P.(*Value)
			if !ok {
				if sp, ok := pv.P.(*SymPtr); ok {
					fr.regs[d] = fr.g.loadSym(sp.cells, sp.idx, sp.w)
					return
				}
				if dp, ok := pv.P.(*DataPtr); ok && !dp.isS && len(dp.sl) > 0 {
					fr.regs[d] = dp.sl[0]
					return
				}
				fr.g.nilPanic(pv)
			}
			if agg {
				fr.regs[d] = copyAgg(T, *p)
			} else {
				fr.regs[d] = *p
			}
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(&a)
			if t := termOf(v); t != nil {
				fr.regs[d] = fr.g.ex.tv(fr.g.ex.tt.Not(t))
				return
			}
			fr.regs[d] = Value{N: v.N ^ 1}
		}
	case token.SUB:
		if fw, ok := isFloat(x.Type()); ok {
			return func(fr *frame) { fr.regs[d] = fromF(-toF(fr.get(&a), fw), fw) }
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
			return func(fr *frame) { fr.regs[d] = Value{P: -(fr.get(&a).P.(complex128))} }
		}
		w, _, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := fr.get(&a)
			if t := termOf(v); t != nil {
				fr.regs[d] = fr.g.ex.tv(fr.g.ex.tt.Un(opNeg, t, w))
				return
			}
			fr.regs[d] = Value{N: -v.N & mask(w)}
		}
	case token.XOR:
		w, _, _ := intInfo(x.Type())
		return func(fr *frame) {
			v := fr.get(&a)
			if t := termOf(v); t != nil {
				fr.regs[d] = fr.g.ex.tv(fr.g.ex.tt.Un(opBNot, t, w))
				return
			}
			fr.regs[d] = Value{N: ^v.N & mask(w)}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		eT := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.g.chanRecv(fr.get(&a), eT)
			if commaOk {
				fr.regs[d] = Value{P: []Value{v, boolVal(ok)}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) binop(x *ssa.BinOp) opfn {
	d, a, b := c.slot(x), c.op(x.X), c.op(x.Y)
	T := x.X.Type()
	neg := false
	switch x.Op {
	case token.NEQ:
		neg = true
		fallthrough
	case token.EQL:
		if _, _, ok := intInfo(T); ok {
			w, _, _ := intInfo(T)
			return func(fr *frame) {
				p, q := fr.get(&a), fr.get(&b)
				if p.P == nil && q.P == nil {
					fr.regs[d] = boolVal((p.N == q.N) != neg)
					return
				}
				ex := fr.g.ex
				t := ex.tt.Bin(opEq, ex.term(p, w), ex.term(q, w))
				if neg {
					t = ex.tt.Not(t)
				}
				fr.regs[d] = ex.tv(t)
			}
		}
		eT := T
		// comparing an interface with a concrete value does not occur in SSA
		if _, ok := T.Underlying().(*types.Basic); ok && T.Underlying().(*types.Basic).Kind() == types.UntypedNil {
			eT = x.Y.Type()
		}
		return func(fr *frame) {
			ex := fr.g.ex
			t := ex.eq(eT, fr.get(&a), fr.get(&b))
			if neg {
				t = ex.tt.Not(t)
			}
			fr.regs[d] = ex.tv(t)
		}
	}
	if isString(T) {
		switch x.Op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = fr.g.ex.concat(fr.get(&a), fr.get(&b)) }
		case token.LSS:
			return func(fr *frame) { ex := fr.g.ex; fr.regs[d] = ex.tv(ex.strLess(fr.get(&a), fr.get(&b), false)) }
		case token.LEQ:
			return func(fr *frame) { ex := fr.g.ex; fr.regs[d] = ex.tv(ex.strLess(fr.get(&a), fr.get(&b), true)) }
		case token.GTR:
			return func(fr *frame) { ex := fr.g.ex; fr.regs[d] = ex.tv(ex.strLess(fr.get(&b), fr.get(&a), false)) }
		case token.GEQ:
			return func(fr *frame) { ex := fr.g.ex; fr.regs[d] = ex.tv(ex.strLess(fr.get(&b), fr.get(&a), true)) }
		}
	}
	if fw, ok := isFloat(T); ok {
		op := x.Op
		return func(fr *frame) {
			p, q := toF(fr.get(&a), fw), toF(fr.get(&b), fw)
			switch op {
			case token.ADD:
				fr.regs[d] = fromF(p+q, fw)
			case token.SUB:
				fr.regs[d] = fromF(p-q, fw)
			case token.MUL:
				fr.regs[d] = fromF(p*q, fw)
			case token.QUO:
				fr.regs[d] = fromF(p/q, fw)
			case token.LSS:
				fr.regs[d] = boolVal(p < q)
			case token.LEQ:
				fr.regs[d] = boolVal(p <= q)
			case token.GTR:
				fr.regs[d] = boolVal(p > q)
			case token.GEQ:
				fr.regs[d] = boolVal(p >= q)
			default:
				panic("float op")
			}
		}
	}
	if isBool(T) {
		op := x.Op
		return func(fr *frame) {
			ex := fr.g.ex
			p, q := ex.boolTerm(fr.get(&a)), ex.boolTerm(fr.get(&b))
			switch op {
			case token.AND:
				fr.regs[d] = ex.tv(ex.tt.And(p, q))
			case token.OR:
				fr.regs[d] = ex.tv(ex.tt.Or(p, q))
			default:
				panic("bool op")
			}
		}
	}
	w, signed, ok := intInfo(T)
	if !ok {
		s := "binop " + x.Op.String() + " on " + T.String()
		return func(fr *frame) { fr.g.ex.abandon(s) }
	}
	m := mask(w)
	// shifts
	if x.Op == token.SHL || x.Op == token.SHR {
		yw, ysigned, _ := intInfo(x.Y.Type())
		var op Op
		switch {
		case x.Op == token.SHL:
			op = opShl
		case signed:
			op = opAShr
		default:
			op = opLShr
		}
		return func(fr *frame) {
			p, q := fr.get(&a), fr.get(&b)
			ex := fr.g.ex
			if q.P == nil {
				if ysigned && sext(q.N, yw) < 0 {
					fr.g.rtPanic("negative shift amount")
				}
				if p.P == nil {
					fr.regs[d] = Value{N: fold2(op, p.N, q.N, w)}
					return
				}
				sh := q.N
				if sh > 255 {
					sh = 255
				}
				if sh >= uint64(w) {
					if op == opAShr {
						sh = uint64(w) - 1
					} else {
						fr.regs[d] = Value{}
						return
					}
				}
				fr.regs[d] = ex.tv(ex.tt.Bin(op, ex.term(p, w), ex.tt.Const(sh, w)))
				return
			}
			qt := ex.term(q, yw)
			if ysigned {
				if ex.branch(ex.tt.Bin(opSlt, qt, ex.tt.Const(0, yw))) {
					fr.g.rtPanic("negative shift amount")
				}
			}
			pt := ex.term(p, w)
			W := w
			if yw > W {
				W = yw
			}
			ext := opZExt
			if op == opAShr {
				ext = opSExt
			}
			r := ex.tt.Bin(op, ex.tt.Un(ext, pt, W), ex.tt.Un(opZExt, qt, W))
			fr.regs[d] = ex.tv(ex.tt.Un(opTrunc, r, w))
		}
	}
	var op Op
	swap, isCmp := false, false
	conc := func(p, q uint64) uint64 { return 0 }
	switch x.Op {
	case token.ADD:
		op, conc = opAdd, func(p, q uint64) uint64 { return (p + q) & m }
	case token.SUB:
		op, conc = opSub, func(p, q uint64) uint64 { return (p - q) & m }
	case token.MUL:
		op, conc = opMul, func(p, q uint64) uint64 { return (p * q) & m }
	case token.AND:
		op, conc = opBAnd, func(p, q uint64) uint64 { return p & q }
	case token.OR:
		op, conc = opBOr, func(p, q uint64) uint64 { return p | q }
	case token.XOR:
		op, conc = opBXor, func(p, q uint64) uint64 { return p ^ q }
	case token.AND_NOT:
		op, conc = opBAnd, func(p, q uint64) uint64 { return p &^ q }
		return func(fr *frame) {
			p, q := fr.get(&a), fr.get(&b)
			if p.P == nil && q.P == nil {
				fr.regs[d] = Value{N: p.N &^ q.N}
				return
			}
			ex := fr.g.ex
			fr.regs[d] = ex.tv(ex.tt.Bin(opBAnd, ex.term(p, w), ex.tt.Un(opBNot, ex.term(q, w), w)))
		}
	case token.QUO, token.REM:
		switch {
		case x.Op == token.QUO && signed:
			op = opSDiv
		case x.Op == token.QUO:
			op = opUDiv
		case signed:
			op = opSRem
		default:
			op = opURem
		}
		return func(fr *frame) {
			p, q := fr.get(&a), fr.get(&b)
			ex := fr.g.ex
			if q.P == nil {
				if q.N == 0 {
					fr.g.rtPanic("integer divide by zero")
				}
			} else if ex.branch(ex.tt.Bin(opEq, ex.term(q, w), ex.tt.Const(0, w))) {
				fr.g.rtPanic("integer divide by zero")
			}
			if p.P == nil && q.P == nil {
				fr.regs[d] = Value{N: fold2(op, p.N, q.N, w)}
				return
			}
			fr.regs[d] = ex.tv(ex.tt.Bin(op, ex.term(p, w), ex.term(q, w)))
		}
	case token.LSS, token.GTR:
		isCmp = true
		swap = x.Op == token.GTR
		op = opUlt
		if signed {
			op = opSlt
		}
	case token.LEQ, token.GEQ:
		isCmp = true
		swap = x.Op == token.GEQ
		op = opUle
		if signed {
			op = opSle
		}
	default:
		panic("binop " + x.Op.String())
	}
	if isCmp {
		return func(fr *frame) {
			p, q := fr.get(&a), fr.get(&b)
			if swap {
				p, q = q, p
			}
			if p.P == nil && q.P == nil {
				fr.regs[d] = Value{N: fold2(op, p.N, q.N, w)}
				return
			}
			ex := fr.g.ex
			fr.regs[d] = ex.tv(ex.tt.Bin(op, ex.term(p, w), ex.term(q, w)))
		}
	}
	return func(fr *frame) {
		p, q := fr.get(&a), fr.get(&b)
		if p.P == nil && q.P == nil {
			fr.regs[d] = Value{N: conc(p.N, q.N)}
			return
		}
		ex := fr.g.ex
		fr.regs[d] = ex.tv(ex.tt.Bin(op, ex.term(p, w), ex.term(q, w)))
	}
}

func convFn(from, to types.Type) func(g *G, v Value) Value {
	fw, fs, fInt := intInfo(from)
	tw, _, tInt := intInfo(to)
	ffw, fF := isFloat(from)
	tfw, tF := isFloat(to)
	switch {
	case fInt && tInt:
		if tw == fw {
			return func(g *G, v Value) Value { return v }
		}
		return func(g *G, v Value) Value {
			if t := termOf(v); t != nil {
				ex := g.ex
				if tw < fw {
					return ex.tv(ex.tt.Un(opTrunc, t, tw))
				}
				if fs {
					return ex.tv(ex.tt.Un(opSExt, t, tw))
				}
				return ex.tv(ex.tt.Un(opZExt, t, tw))
			}
			if tw > fw && fs {
				return Value{N: uint64(sext(v.N, fw)) & mask(tw)}
			}
			return Value{N: v.N & mask(tw)}
		}
	case fInt && tF:
		return func(g *G, v Value) Value {
			n := g.ex.concV(v)
			if fs {
				return fromF(float64(sext(n, fw)), tfw)
			}
			return fromF(float64(n), tfw)
		}
	case fF && tInt:
		_, ts, _ := intInfo(to)
		return func(g *G, v Value) Value {
			f := toF(v, ffw)
			if ts {
				return Value{N: uint64(int64(f)) & mask(tw)}
			}
			if f < 0 {
				return Value{N: uint64(int64(f)) & mask(tw)}
			}
			return Value{N: uint64(f) & mask(tw)}
		}
	case fF && tF:
		return func(g *G, v Value) Value { return fromF(toF(v, ffw), tfw) }
	}
	if isString(to) {
		if fInt {
			return func(g *G, v Value) Value {
				n := g.ex.concV(v)
				r := sext(n, fw)
				if r < 0 || r > math.MaxInt32 {
					r = 0xfffd
				}
				return strV(string(rune(r)))
			}
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			if ew == 8 {
				return func(g *G, v Value) Value {
					if v.P == nil {
						return Value{}
					}
					return g.ex.strFromCells(v.P.([]Value))
				}
			}
			return func(g *G, v Value) Value {
				if v.P == nil {
					return Value{}
				}
				r := Value{}
				for _, c := range v.P.([]Value) {
					r = g.ex.concat(r, g.runeToStr(c))
				}
				return r
			}
		}
		return func(g *G, v Value) Value { return v }
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ew, _, _ := intInfo(sl.Elem())
			if ew == 8 {
				return func(g *G, v Value) Value { return Value{P: g.ex.cellsFromStr(v)} }
			}
			return func(g *G, v Value) Value {
				it := &Iter{str: v, isS: true}
				r := []Value{}
				for {
					t := g.nextRune(it).P.([]Value)
					if t[0].N == 0 {
						break
					}
					r = append(r, t[2])
				}
				return Value{P: r}
			}
		}
	}
	// pointers, unsafe, named types
	return func(g *G, v Value) Value { return v }
}
