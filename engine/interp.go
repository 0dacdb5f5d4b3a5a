package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct {
	v     Value // interface value
	msg   string
	stack string
}

// control signals (Go panics that must not run interpreted defers)
type killed struct{}
type pathEnd struct {
	kind   string // abandon, infeasible, done, exit
	reason string
}

func (ex *Exec) abandon(reason string) {
	panic(pathEnd{"abandon", reason})
}

func (ex *Exec) g() *G { return ex.cur }

// ---- panics

func (g *G) rtPanic(msg string) {
	v := Value{P: &Iface{T: g.ex.w.p.rtErrT, V: Value{P: []Value{strV("runtime error: " + msg)}}}}
	panic(&goPanic{v: v, msg: "runtime error: " + msg, stack: g.stackStr()})
}

func (g *G) nilPanic(v Value) {
	if v.P != nil {
		g.ex.abandon(fmt.Sprintf("dereference of %T", v.P))
	}
	g.rtPanic("invalid memory address or nil pointer dereference")
}

func (g *G) stackStr() string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 40; fr = fr.caller {
		pos := g.ex.w.p.prog.Fset.Position(fr.curPos)
		fmt.Fprintf(&sb, "%s (%s:%d)\n", fr.code.name, pos.Filename, pos.Line)
		n++
	}
	return sb.String()
}

func (g *G) panicMsg(v Value) string {
	i, _ := v.P.(*Iface)
	if i == nil {
		return "nil"
	}
	if types.Identical(i.T, g.ex.w.p.rtErrT) {
		return g.ex.evalStr(i.V.P.([]Value)[0])
	}
	if isString(i.T) {
		return g.ex.evalStr(i.V)
	}
	return "value of type " + i.T.String()
}

// ---- calls

func (c *compiler) callPrep(call *ssa.CallCommon) func(fr *frame) (Value, []Value) {
	ops := make([]opnd, len(call.Args))
	for i, a := range call.Args {
		ops[i] = c.op(a)
	}
	if call.IsInvoke() {
		recv := c.op(call.Value)
		m := call.Method
		return func(fr *frame) (Value, []Value) {
			rv := fr.get(&recv)
			i, _ := rv.P.(*Iface)
			if i == nil {
				fr.g.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := fr.g.ex.w.method(i.T, m)
			if fn == nil {
				fr.g.ex.abandon("no method " + m.Name() + " on " + i.T.String())
			}
			args := make([]Value, len(ops)+1)
			args[0] = i.V
			for k := range ops {
				args[k+1] = fr.get(&ops[k])
			}
			return Value{P: fn}, args
		}
	}
	fv := c.op(call.Value)
	if bi, ok := call.Value.(*ssa.Builtin); ok {
		// bind the builtin with its call for typed behaviour
		sig := call
		return func(fr *frame) (Value, []Value) {
			args := make([]Value, len(ops))
			for k := range ops {
				args[k] = fr.get(&ops[k])
			}
			cl := &Closure{native: func(g *G, a []Value) Value { return g.builtin(fr, bi, sig, a) }}
			return Value{P: cl}, args
		}
	}
	return func(fr *frame) (Value, []Value) {
		args := make([]Value, len(ops))
		for k := range ops {
			args[k] = fr.get(&ops[k])
		}
		return fr.get(&fv), args
	}
}

func (c *compiler) call(call *ssa.CallCommon) func(fr *frame) Value {
	if bi, ok := call.Value.(*ssa.Builtin); ok && !call.IsInvoke() {
		ops := make([]opnd, len(call.Args))
		for i, a := range call.Args {
			ops[i] = c.op(a)
		}
		return func(fr *frame) Value {
			var buf [4]Value
			args := buf[:0]
			for k := range ops {
				args = append(args, fr.get(&ops[k]))
			}
			return fr.g.builtin(fr, bi, call, args)
		}
	}
	if fn := call.StaticCallee(); fn != nil {
		if _, isClosure := call.Value.(*ssa.MakeClosure); !isClosure {
			ops := make([]opnd, len(call.Args))
			for i, a := range call.Args {
				ops[i] = c.op(a)
			}
			var code *Code
			p := c.p
			return func(fr *frame) Value {
				args := make([]Value, len(ops))
				for k := range ops {
					args[k] = fr.get(&ops[k])
				}
				cd := code
				if cd == nil {
					cd = p.code(fn)
					code = cd
				}
				return fr.g.callCode(cd, args, nil)
			}
		}
	}
	prep := c.callPrep(call)
	return func(fr *frame) Value {
		f, a := prep(fr)
		return fr.g.callValue(f, a)
	}
}

func (g *G) callValue(f Value, args []Value) Value {
	switch x := f.P.(type) {
	case *ssa.Function:
		return g.callCode(g.ex.w.p.code(x), args, nil)
	case *Closure:
		if x.native != nil {
			return x.native(g, args)
		}
		if x.bi != nil {
			g.ex.abandon("builtin value " + x.bi.Name())
		}
		return g.callCode(g.ex.w.p.code(x.fn), args, x.env)
	case nil:
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	g.ex.abandon(fmt.Sprintf("call of %T", f.P))
	return Value{}
}

func (g *G) callFn(fn *ssa.Function, args ...Value) Value {
	return g.callCode(g.ex.w.p.code(fn), args, nil)
}

func (g *G) callCode(code *Code, args []Value, env []Value) Value {
	ex := g.ex
	if code.native != nil {
		return code.native(g, code.fn, args)
	}
	if code.model != nil {
		return g.callCode(ex.w.p.code(code.model), args, nil)
	}
	if code.opaque {
		return ex.opaqueResult(code.fn, args)
	}
	if code.blocks == nil {
		ex.abandon("external function " + code.name)
	}
	g.depth++
	if g.depth > 2000 {
		ex.abandon("call depth in " + code.name)
	}
	fr := &frame{g: g, caller: g.top, code: code, env: env}
	sp, stk, depth := g.sp, g.stack, g.depth
	fr.regs = g.alloc(code.nslots)
	copy(fr.regs, args)
	fr.block = code.blocks[0]
	g.top = fr
	var ret Value
	if code.hasDefer {
		ret = g.execDefer(fr)
	} else {
		ret = g.loop(fr)
	}
	g.top = fr.caller
	g.depth = depth - 1
	g.sp, g.stack = sp, stk
	return ret
}

// register arena
func (g *G) alloc(n int) []Value {
	if g.sp+n > len(g.stack) {
		if n > 1024 {
			return make([]Value, n)
		}
		g.stack = make([]Value, 4096)
		g.sp = 0
	}
	r := g.stack[g.sp : g.sp+n : g.sp+n]
	g.sp += n
	clear(r)
	return r
}

func (g *G) execDefer(fr *frame) (ret Value) {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		g.top = fr
		fr.panicking = true
		fr.pv = gp
		g.runDefers(fr)
		// recovered
		if fr.code.recover != nil {
			fr.block = fr.code.recover
			ret = g.loop(fr)
		} else {
			ret = zero(fr.code.fn.Signature.Results())
		}
	}()
	ret = g.loop(fr)
	fr.done = true
	return
}

func (g *G) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		g.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (g *G) runDefer(fr *frame, d deferred) {
	depth, sp := g.depth, g.sp
	ok := false
	defer func() {
		if !ok {
			r := recover()
			gp, isGp := r.(*goPanic)
			if !isGp {
				panic(r)
			}
			g.depth = depth
			_ = sp
			g.top = fr
			fr.panicking = true
			fr.pv = gp
		}
	}()
	g.callValue(d.fn, d.args)
	ok = true
}

func (g *G) loop(fr *frame) Value {
	ex := g.ex
	for {
		b := fr.block
		ex.steps += int64(len(b.ops)) + 1
		if ex.steps > ex.maxSteps {
			ex.abandon("step limit")
		}
		if ex.steps&^0xfff != ex.lastTick {
			ex.tick()
		}
		if fr.code.isRepo {
			ex.w.hit(fr.code, b.idx)
		}
		if fr.phisDone {
			fr.phisDone = false
		} else if len(b.phis) > 0 {
			k := 0
			for i, p := range b.preds {
				if p == fr.prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].src[k])
			} else {
				var buf [16]Value
				tmp := buf[:0]
				for i := range b.phis {
					tmp = append(tmp, fr.get(&b.phis[i].src[k]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for i, op := range b.ops {
			fr.curPos = b.poss[i]
			op(fr)
		}
		switch b.term {
		case 0:
			fr.prev = b.idx
			fr.block = b.succ[0]
		case 1:
			v := fr.get(&b.cond)
			var t bool
			if v.P == nil {
				t = v.N != 0
			} else {
				g.symIf(fr, b, v.P.(*Term))
				continue
			}
			fr.prev = b.idx
			if t {
				fr.block = b.succ[0]
			} else {
				fr.block = b.succ[1]
			}
		case 2:
			switch len(b.rets) {
			case 0:
				return Value{}
			case 1:
				return fr.get(&b.rets[0])
			}
			r := make([]Value, len(b.rets))
			for i := range r {
				r[i] = fr.get(&b.rets[i])
			}
			return Value{P: r}
		case 3:
			v := fr.get(&b.cond)
			fr.curPos = b.tpos
			panic(&goPanic{v: v, msg: g.panicMsg(v), stack: g.stackStr()})
		}
	}
}

// ---- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return newLen
	}
	mem := nc * esz
	if mem <= 32768 {
		for _, s := range sizeClasses {
			if s >= mem {
				mem = s
				break
			}
		}
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	return mem / esz
}

var stdSizes = types.SizesFor("gc", "amd64")

func (g *G) appendSlice(eT types.Type, s, t []Value) Value {
	ex := g.ex
	n := len(s) + len(t)
	var r []Value
	if n <= cap(s) {
		r = s[:n]
		for i := range t {
			v := t[i]
			if isAgg(eT) {
				v = copyAgg(eT, v)
			}
			ex.set(&r[len(s)+i], v)
		}
		return Value{P: r}
	}
	nc := growCap(cap(s), n, int(stdSizes.Sizeof(eT)))
	if nc > 1<<23 {
		ex.abandon("append too large")
	}
	r = make([]Value, n, nc)
	copy(r, s)
	agg := isAgg(eT)
	for i := range t {
		v := t[i]
		if agg {
			v = copyAgg(eT, v)
		}
		r[len(s)+i] = v
	}
	// the spare cells must be valid zero values
	if agg {
		for i := n; i < nc; i++ {
			r[:nc][i] = zero(eT)
		}
	}
	return Value{P: r}
}

func asSlice(v Value) []Value {
	if v.P == nil {
		return nil
	}
	return v.P.([]Value)
}

func (g *G) builtin(fr *frame, bi *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	ex := g.ex
	switch bi.Name() {
	case "len":
		switch T := call.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return intVal(strLen(args[0]))
		case *types.Slice:
			return intVal(len(asSlice(args[0])))
		case *types.Array:
			return intVal(int(T.Len()))
		case *types.Pointer:
			return intVal(int(T.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			m, _ := args[0].P.(*Map)
			if m == nil {
				return intVal(0)
			}
			return intVal(m.n)
		case *types.Chan:
			c, _ := args[0].P.(*Chan)
			if c == nil {
				return intVal(0)
			}
			return intVal(len(c.buf))
		}
	case "cap":
		switch T := call.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return intVal(cap(asSlice(args[0])))
		case *types.Array:
			return intVal(int(T.Len()))
		case *types.Pointer:
			return intVal(int(T.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			c, _ := args[0].P.(*Chan)
			if c == nil {
				return intVal(0)
			}
			return intVal(c.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		eT := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		var t []Value
		if isString(call.Args[1].Type()) {
			t = ex.cellsFromStr(args[1])
		} else {
			t = asSlice(args[1])
		}
		if len(t) == 0 {
			return args[0]
		}
		return g.appendSlice(eT, asSlice(args[0]), t)
	case "copy":
		dst := asSlice(args[0])
		var src []Value
		if isString(call.Args[1].Type()) {
			src = ex.cellsFromStr(args[1])
		} else {
			src = asSlice(args[1])
		}
		n := min(len(dst), len(src))
		eT := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if n > 0 {
			tmp := make([]Value, n)
			copy(tmp, src[:n])
			if isAgg(eT) {
				for i := range tmp {
					tmp[i] = copyAgg(eT, tmp[i])
				}
				for i := range tmp {
					ex.store(eT, &dst[i], tmp[i])
				}
			} else {
				for i := range tmp {
					ex.set(&dst[i], tmp[i])
				}
			}
		}
		return intVal(n)
	case "delete":
		m, _ := args[0].P.(*Map)
		if m != nil {
			ex.mapDelete(m, call.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
		}
		return Value{}
	case "clear":
		switch T := call.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m, _ := args[0].P.(*Map)
			if m != nil {
				for _, e := range append([]*mapEnt(nil), m.ents...) {
					if !e.dead {
						ex.mapDelEnt(m, T.Key(), e)
					}
				}
			}
		case *types.Slice:
			s := asSlice(args[0])
			for i := range s {
				ex.store(T.Elem(), &s[i], zero(T.Elem()))
			}
		}
		return Value{}
	case "close":
		g.chanClose(args[0])
		return Value{}
	case "panic":
		panic(&goPanic{v: args[0], msg: g.panicMsg(args[0]), stack: g.stackStr()})
	case "recover":
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			gp := c.pv
			ex.recovered++
			if gp.v.P == nil {
				return Value{}
			}
			return gp.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		T := call.Args[0].Type()
		for _, a := range args[1:] {
			w, signed, ok := intInfo(T)
			if !ok {
				if isString(T) {
					lt := ex.branch(ex.strLess(a, r, false))
					if lt == (bi.Name() == "min") {
						r = a
					}
					continue
				}
				fw, _ := isFloat(T)
				x, y := toF(r, fw), toF(a, fw)
				if (y < x) == (bi.Name() == "min") {
					r = a
				}
				continue
			}
			op := opUlt
			if signed {
				op = opSlt
			}
			x, y := ex.term(r, w), ex.term(a, w)
			lt := ex.tt.Bin(op, y, x)
			if bi.Name() == "max" {
				lt = ex.tt.Bin(op, x, y)
			}
			r = ex.tv(ex.tt.Ite(lt, y, x))
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			g.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		return Value{P: &DataPtr{sl: asSlice(args[0])}}
	case "StringData":
		return Value{P: &DataPtr{str: args[0], isS: true}}
	case "String":
		n := ex.concInt(args[1])
		if n == 0 {
			return Value{}
		}
		switch p := args[0].P.(type) {
		case *DataPtr:
			if p.isS {
				return ex.substr(p.str, 0, n)
			}
			return ex.strFromCells(p.sl[:n])
		}
	case "Slice":
		n := ex.concInt(args[1])
		switch p := args[0].P.(type) {
		case *DataPtr:
			if p.isS {
				return Value{P: ex.cellsFromStr(ex.substr(p.str, 0, n))}
			}
			return Value{P: p.sl[:n:n]}
		case nil:
			return Value{}
		}
	case "real":
		return fromF(real(args[0].P.(complex128)), 64)
	case "imag":
		return fromF(imag(args[0].P.(complex128)), 64)
	}
	ex.abandon(fmt.Sprintf("builtin %s %v", bi.Name(), call.Args))
	return Value{}
}

// ---- runes

func (g *G) nextRune(it *Iter) Value {
	ex := g.ex
	n := strLen(it.str)
	if it.i >= n {
		return Value{P: []Value{{}, {}, {}}}
	}
	pos := it.i
	r, sz := g.decodeRune(it.str, it.i)
	it.i += sz
	return Value{P: []Value{boolVal(true), intVal(pos), ex.norm32(r)}}
}

func (ex *Exec) norm32(v Value) Value { return v }

// decodeRune decodes the rune at i; symbolic ASCII bytes stay symbolic.
func (g *G) decodeRune(s Value, i int) (Value, int) {
	ex := g.ex
	n := strLen(s)
	b := ex.byteAt(s, i)
	if b.P == nil {
		if b.N < 0x80 {
			return b, 1
		}
	} else {
		t := b.P.(*Term)
		if ex.branch(ex.tt.Bin(opUlt, t, ex.tt.Const(0x80, 8))) {
			return ex.tv(ex.tt.Un(opZExt, t, 32)), 1
		}
	}
	// the bytes as far as they are there
	tt := ex.tt
	in := func(k int, lo, hi uint64) *Term {
		t := ex.byteTerm(s, i+k)
		return tt.And(tt.Bin(opUle, tt.Const(lo, 8), t), tt.Bin(opUle, t, tt.Const(hi, 8)))
	}
	bits := func(k int, mask uint64, shift uint64) *Term {
		t := tt.Un(opZExt, tt.Bin(opBAnd, ex.byteTerm(s, i+k), tt.Const(mask, 8)), 32)
		return tt.Bin(opShl, t, tt.Const(shift, 32))
	}
	or := func(a ...*Term) *Term {
		r := a[0]
		for _, t := range a[1:] {
			r = tt.Bin(opBOr, r, t)
		}
		return r
	}
	if i+2 <= n && ex.branch(tt.And(in(0, 0xc2, 0xdf), in(1, 0x80, 0xbf))) {
		return ex.tv(or(bits(0, 0x1f, 6), bits(1, 0x3f, 0))), 2
	}
	if i+3 <= n && ex.branch(tt.And(utf8Second3(tt, in), in(2, 0x80, 0xbf))) {
		return ex.tv(or(bits(0, 0xf, 12), bits(1, 0x3f, 6), bits(2, 0x3f, 0))), 3
	}
	if i+4 <= n && ex.branch(tt.And(utf8Second4(tt, in), tt.And(in(2, 0x80, 0xbf), in(3, 0x80, 0xbf)))) {
		return ex.tv(or(bits(0, 7, 18), bits(1, 0x3f, 12), bits(2, 0x3f, 6), bits(3, 0x3f, 0))), 4
	}
	return Value{N: 0xfffd}, 1
}

// utf8Second3 is the condition that bytes 0 and 1 begin a three byte sequence.
func utf8Second3(tt *TermTab, in func(k int, lo, hi uint64) *Term) *Term {
	return tt.Or(tt.And(in(0, 0xe0, 0xe0), in(1, 0xa0, 0xbf)),
		tt.Or(tt.And(in(0, 0xed, 0xed), in(1, 0x80, 0x9f)),
			tt.And(tt.Or(in(0, 0xe1, 0xec), in(0, 0xee, 0xef)), in(1, 0x80, 0xbf))))
}

// utf8Second4 is the condition that bytes 0 and 1 begin a four byte sequence.
func utf8Second4(tt *TermTab, in func(k int, lo, hi uint64) *Term) *Term {
	return tt.Or(tt.And(in(0, 0xf0, 0xf0), in(1, 0x90, 0xbf)),
		tt.Or(tt.And(in(0, 0xf4, 0xf4), in(1, 0x80, 0x8f)),
			tt.And(in(0, 0xf1, 0xf3), in(1, 0x80, 0xbf))))
}

func (g *G) runeToStr(v Value) Value {
	ex := g.ex
	t := termOf(v)
	if t == nil {
		return strV(string(rune(int32(v.N))))
	}
	tt := ex.tt
	part := func(shift, mask, lead uint64) *Term {
		x := tt.Un(opTrunc, tt.Bin(opLShr, t, tt.Const(shift, t.w)), 8)
		return tt.Bin(opBOr, tt.Bin(opBAnd, x, tt.Const(mask, 8)), tt.Const(lead, 8))
	}
	below := func(n uint64) bool { return ex.branch(tt.Bin(opUlt, t, tt.Const(n, t.w))) }
	if t.w <= 8 {
		return strV(string(rune(int32(ex.concV(v)))))
	}
	switch {
	case below(0x80):
		return mkStr([]*Term{tt.Un(opTrunc, t, 8)})
	case below(0x800):
		return mkStr([]*Term{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)})
	case !below(0x110000):
		return strV("\uFFFD")
	case below(0x10000):
		if !below(0xd800) && below(0xe000) {
			return strV("\uFFFD")
		}
		return mkStr([]*Term{part(12, 0xf, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
	}
	return mkStr([]*Term{part(18, 7, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
}

var _ = token.NoPos
