package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector and boolean expressions, one table per path.

type Op uint8

const (
	opConst Op = iota
	opVar
	// bit-vector
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opShl
	opLShr
	opAShr
	opBNot
	opNeg
	opZExt
	opSExt
	opTrunc // low bits
	opIte
	// boolean
	opEq
	opUlt
	opUle
	opSlt
	opSle
	opNot
	opAnd
	opOr
	opXorB // boolean xor / iff is not(xor)
)

// Term: w==0 is boolean.
type Term struct {
	op      Op
	w       uint8
	val     uint64 // const value, or var index
	a, b, c *Term
	id      int32
	evGen   int32
	ev      uint64
	vars    varset
}

type varset []uint64

func (s varset) has(i int) bool { return i>>6 < len(s) && s[i>>6]&(1<<(uint(i)&63)) != 0 }
func (s varset) intersects(t varset) bool {
	n := len(s)
	if len(t) < n {
		n = len(t)
	}
	for i := 0; i < n; i++ {
		if s[i]&t[i] != 0 {
			return true
		}
	}
	return false
}
func (s varset) union(t varset) varset {
	if len(t) == 0 {
		return s
	}
	if len(s) == 0 {
		return t
	}
	if len(s) < len(t) {
		s, t = t, s
	}
	same := true
	for i := range t {
		if t[i]&^s[i] != 0 {
			same = false
			break
		}
	}
	if same {
		return s
	}
	r := make(varset, len(s))
	copy(r, s)
	for i := range t {
		r[i] |= t[i]
	}
	return r
}
func (s varset) list() []int {
	var r []int
	for i, w := range s {
		for w != 0 {
			b := bits.TrailingZeros64(w)
			r = append(r, i*64+b)
			w &= w - 1
		}
	}
	return r
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

type VarInfo struct {
	name string
	w    uint8
}

type TermTab struct {
	tab   map[termKey]*Term
	vars  []VarInfo
	model []uint64 // current assignment by var index
	gen   int32
	n     int32
	tt    *Term
	ff    *Term
}

func newTermTab(model []uint64) *TermTab {
	t := &TermTab{tab: map[termKey]*Term{}, model: model, gen: 1}
	t.tt = t.mk(opConst, 0, 1, nil, nil, nil)
	t.ff = t.mk(opConst, 0, 0, nil, nil, nil)
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := termKey{op, w, val, tid(a), tid(b), tid(c)}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tt.n}
	if op == opVar {
		vs := make(varset, val>>6+1)
		vs[val>>6] = 1 << (val & 63)
		t.vars = vs
	} else {
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = t.vars.union(b.vars)
		}
		if c != nil {
			t.vars = t.vars.union(c.vars)
		}
	}
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tt *TermTab) Const(v uint64, w uint8) *Term {
	return tt.mk(opConst, w, v&mask(w), nil, nil, nil)
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.tt
	}
	return tt.ff
}

func (tt *TermTab) NewVar(name string, w uint8) *Term {
	i := len(tt.vars)
	tt.vars = append(tt.vars, VarInfo{name, w})
	for len(tt.model) <= i {
		tt.model = append(tt.model, 0)
	}
	m := mask(w)
	if w == 0 {
		m = 1
	}
	tt.model[i] &= m
	return tt.mk(opVar, w, uint64(i), nil, nil, nil)
}

func (t *Term) isConst() bool { return t.op == opConst }

func (tt *TermTab) setModel(m []uint64) {
	tt.model = m
	tt.gen++
}

func (tt *TermTab) Eval(t *Term) uint64 {
	if t.op == opConst {
		return t.val
	}
	if t.evGen == tt.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case opVar:
		r = tt.model[t.val]
	case opIte:
		if tt.Eval(t.a) != 0 {
			r = tt.Eval(t.b)
		} else {
			r = tt.Eval(t.c)
		}
	case opAnd:
		r = 0
		if tt.Eval(t.a) != 0 && tt.Eval(t.b) != 0 {
			r = 1
		}
	case opOr:
		r = 0
		if tt.Eval(t.a) != 0 || tt.Eval(t.b) != 0 {
			r = 1
		}
	case opNot:
		r = tt.Eval(t.a) ^ 1
	case opBNot, opNeg, opZExt, opSExt, opTrunc:
		r = fold1(t.op, t.w, tt.Eval(t.a), t.a.w)
	default:
		r = fold2(t.op, tt.Eval(t.a), tt.Eval(t.b), t.a.w)
	}
	t.ev = r
	t.evGen = tt.gen
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fold1(op Op, w uint8, a uint64, aw uint8) uint64 {
	switch op {
	case opBNot:
		return ^a & mask(w)
	case opNeg:
		return -a & mask(w)
	case opZExt, opTrunc:
		return a & mask(w)
	case opSExt:
		return uint64(sext(a, aw)) & mask(w)
	}
	panic("fold1")
}

func fold2(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case opAdd:
		return (a + b) & m
	case opSub:
		return (a - b) & m
	case opMul:
		return (a * b) & m
	case opUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case opURem:
		if b == 0 {
			return a
		}
		return a % b
	case opSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case opSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case opBAnd:
		return a & b
	case opBOr:
		return a | b
	case opBXor:
		return a ^ b
	case opShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case opLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case opAShr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case opEq:
		return b2u(a == b)
	case opUlt:
		return b2u(a < b)
	case opUle:
		return b2u(a <= b)
	case opSlt:
		return b2u(sext(a, w) < sext(b, w))
	case opSle:
		return b2u(sext(a, w) <= sext(b, w))
	case opXorB:
		return a ^ b
	}
	panic(fmt.Sprint("fold2 ", op))
}

func (tt *TermTab) Not(a *Term) *Term {
	switch {
	case a == tt.tt:
		return tt.ff
	case a == tt.ff:
		return tt.tt
	case a.op == opNot:
		return a.a
	}
	return tt.mk(opNot, 0, 0, a, nil, nil)
}

func (tt *TermTab) And(a, b *Term) *Term {
	switch {
	case a == tt.ff || b == tt.ff:
		return tt.ff
	case a == tt.tt:
		return b
	case b == tt.tt:
		return a
	case a == b:
		return a
	case a.op == opNot && a.a == b, b.op == opNot && b.a == a:
		return tt.ff
	}
	return tt.mk(opAnd, 0, 0, a, b, nil)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	switch {
	case a == tt.tt || b == tt.tt:
		return tt.tt
	case a == tt.ff:
		return b
	case b == tt.ff:
		return a
	case a == b:
		return a
	case a.op == opNot && a.a == b, b.op == opNot && b.a == a:
		return tt.tt
	}
	return tt.mk(opOr, 0, 0, a, b, nil)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	switch {
	case c == tt.tt:
		return a
	case c == tt.ff:
		return b
	case a == b:
		return a
	}
	if a.w == 0 {
		if a == tt.tt && b == tt.ff {
			return c
		}
		if a == tt.ff && b == tt.tt {
			return tt.Not(c)
		}
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	if c.op == opNot {
		c, a, b = c.a, b, a
	}
	return tt.mk(opIte, a.w, 0, c, a, b)
}

func (tt *TermTab) Un(op Op, a *Term, w uint8) *Term {
	if a.isConst() {
		return tt.Const(fold1(op, w, a.val, a.w), w)
	}
	switch op {
	case opZExt, opSExt, opTrunc:
		if a.w == w {
			return a
		}
	}
	switch op {
	case opZExt:
		if a.op == opZExt {
			return tt.Un(opZExt, a.a, w)
		}
		if a.op == opIte && a.b.isConst() && a.c.isConst() {
			return tt.Ite(a.a, tt.Un(op, a.b, w), tt.Un(op, a.c, w))
		}
	case opSExt:
		if a.op == opZExt && a.a.w < a.w {
			return tt.Un(opZExt, a.a, w)
		}
		if a.op == opIte && a.b.isConst() && a.c.isConst() {
			return tt.Ite(a.a, tt.Un(op, a.b, w), tt.Un(op, a.c, w))
		}
	case opTrunc:
		switch a.op {
		case opZExt, opSExt:
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tt.Un(opTrunc, a.a, w)
			}
			return tt.Un(a.op, a.a, w)
		case opTrunc:
			return tt.Un(opTrunc, a.a, w)
		case opIte:
			return tt.Ite(a.a, tt.Un(op, a.b, w), tt.Un(op, a.c, w))
		case opBAnd, opBOr, opBXor, opAdd, opSub:
			return tt.Bin(a.op, tt.Un(op, a.a, w), tt.Un(op, a.b, w))
		}
	case opBNot:
		if a.op == opBNot {
			return a.a
		}
	case opNeg:
		if a.op == opNeg {
			return a.a
		}
	}
	return tt.mk(op, w, 0, a, nil, nil)
}

func (tt *TermTab) iteConstLeaves(t *Term, n int) bool {
	if t.isConst() {
		return true
	}
	if t.op != opIte || n == 0 {
		return false
	}
	return tt.iteConstLeaves(t.b, n-1) && tt.iteConstLeaves(t.c, n-1)
}

// Bin builds binary bit-vector operations and comparisons.
func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	w := a.w
	cmp := op >= opEq
	rw := w
	if cmp {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		r := fold2(op, a.val, b.val, w)
		if cmp {
			return tt.Bool(r != 0)
		}
		return tt.Const(r, w)
	}
	switch op {
	case opAdd, opMul, opBAnd, opBOr, opBXor, opEq, opXorB:
		if a.isConst() {
			a, b = b, a
		}
	}
	if w == 0 { // boolean eq / xor
		switch op {
		case opEq:
			if a == b {
				return tt.tt
			}
			if b == tt.tt {
				return a
			}
			if b == tt.ff {
				return tt.Not(a)
			}
			return tt.Or(tt.And(a, b), tt.And(tt.Not(a), tt.Not(b)))
		case opXorB:
			return tt.Not(tt.Bin(opEq, a, b))
		}
	}
	m := mask(w)
	if b.isConst() {
		v := b.val
		switch op {
		case opAdd, opSub, opBOr, opBXor, opShl, opLShr, opAShr:
			if v == 0 {
				return a
			}
		}
		switch op {
		case opSub:
			return tt.Bin(opAdd, a, tt.Const(-v, w))
		case opAdd:
			if a.op == opAdd && a.b.isConst() {
				return tt.Bin(opAdd, a.a, tt.Const(a.b.val+v, w))
			}
		case opMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
			if v&(v-1) == 0 {
				return tt.Bin(opShl, a, tt.Const(uint64(bits.TrailingZeros64(v)), w))
			}
		case opBAnd:
			if v == 0 {
				return b
			}
			if v == m {
				return a
			}
			if a.op == opZExt && v&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == opZExt {
				return tt.Un(opZExt, tt.Bin(opBAnd, a.a, tt.Const(v, a.a.w)), w)
			}
		case opBOr:
			if v == m {
				return b
			}
			if a.op == opZExt && v <= mask(a.a.w) {
				return tt.Un(opZExt, tt.Bin(opBOr, a.a, tt.Const(v, a.a.w)), w)
			}
		case opShl, opLShr:
			if v >= uint64(w) {
				return tt.Const(0, w)
			}
			if op == opLShr && a.op == opZExt {
				if v >= uint64(a.a.w) {
					return tt.Const(0, w)
				}
				return tt.Un(opZExt, tt.Bin(opLShr, a.a, tt.Const(v, a.a.w)), w)
			}
		case opUDiv:
			if v == 1 {
				return a
			}
		case opEq:
			switch a.op {
			case opZExt:
				if v > mask(a.a.w) {
					return tt.ff
				}
				return tt.Bin(opEq, a.a, tt.Const(v, a.a.w))
			case opSExt:
				if uint64(sext(v&mask(a.a.w), a.a.w))&m != v {
					return tt.ff
				}
				return tt.Bin(opEq, a.a, tt.Const(v, a.a.w))
			case opIte:
				if a.b.isConst() || a.c.isConst() || tt.iteConstLeaves(a, 8) {
					return tt.Ite(a.a, tt.Bin(opEq, a.b, b), tt.Bin(opEq, a.c, b))
				}
			case opAdd:
				if a.b.isConst() {
					return tt.Bin(opEq, a.a, tt.Const(v-a.b.val, w))
				}
			case opBXor:
				if a.b.isConst() {
					return tt.Bin(opEq, a.a, tt.Const(v^a.b.val, w))
				}
			case opBOr:
				if a.b.isConst() && a.b.val&^v != 0 {
					return tt.ff
				}
			case opBAnd:
				if a.b.isConst() && v&^a.b.val != 0 {
					return tt.ff
				}
			}
		case opUlt:
			if v == 0 {
				return tt.ff
			}
			if v == 1 {
				return tt.Bin(opEq, a, tt.Const(0, w))
			}
			if a.op == opZExt {
				if v > mask(a.a.w) {
					return tt.tt
				}
				return tt.Bin(opUlt, a.a, tt.Const(v, a.a.w))
			}
		case opUle:
			if v == m {
				return tt.tt
			}
			if a.op == opZExt {
				if v >= mask(a.a.w) {
					return tt.tt
				}
				return tt.Bin(opUle, a.a, tt.Const(v, a.a.w))
			}
		case opSlt, opSle:
			if a.op == opZExt { // a is non-negative
				if sext(v, w) < 0 {
					return tt.ff
				}
				if op == opSlt {
					return tt.Bin(opUlt, a, b)
				}
				return tt.Bin(opUle, a, b)
			}
		}
		if cmp && a.op == opIte && tt.iteConstLeaves(a, 8) {
			return tt.Ite(a.a, tt.Bin(op, a.b, b), tt.Bin(op, a.c, b))
		}
	} else if a.isConst() {
		v := a.val
		switch op {
		case opUlt, opUle:
			if b.op == opZExt {
				if v > mask(b.a.w) {
					return tt.ff
				}
				return tt.Bin(op, tt.Const(v, b.a.w), b.a)
			}
			if op == opUle && v == 0 {
				return tt.tt
			}
			if op == opUlt && v == m {
				return tt.ff
			}
		case opSlt, opSle:
			if b.op == opZExt {
				if sext(v, w) < 0 {
					return tt.tt
				}
				if op == opSlt {
					return tt.Bin(opUlt, a, b)
				}
				return tt.Bin(opUle, a, b)
			}
		}
		if cmp && b.op == opIte && tt.iteConstLeaves(b, 8) {
			return tt.Ite(b.a, tt.Bin(op, a, b.b), tt.Bin(op, a, b.c))
		}
	}
	if a == b {
		switch op {
		case opEq, opUle, opSle:
			return tt.tt
		case opUlt, opSlt:
			return tt.ff
		case opSub, opBXor:
			return tt.Const(0, w)
		case opBAnd, opBOr:
			return a
		}
	}
	if op == opEq {
		if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w {
			return tt.Bin(opEq, a.a, b.a)
		}
		if a.op == opSExt && b.op == opSExt && a.a.w == b.a.w {
			return tt.Bin(opEq, a.a, b.a)
		}
	}
	switch op {
	case opEq, opAdd, opMul, opBAnd, opBOr, opBXor:
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(op, rw, 0, a, b, nil)
}

// ---- SMT-LIB printing

var opNames = map[Op]string{
	opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul", opUDiv: "bvudiv", opSDiv: "bvsdiv", opURem: "bvurem", opSRem: "bvsrem",
	opBAnd: "bvand", opBOr: "bvor", opBXor: "bvxor", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr", opBNot: "bvnot", opNeg: "bvneg",
	opIte: "ite", opEq: "=", opUlt: "bvult", opUle: "bvule", opSlt: "bvslt", opSle: "bvsle", opNot: "not", opAnd: "and", opOr: "or", opXorB: "xor",
}

type smtPrinter struct {
	sb    strings.Builder
	names map[*Term]string
	vmap  map[uint64]int
	order []int // canonical position -> var index
	nd    int
}

func newPrinter() *smtPrinter {
	return &smtPrinter{names: map[*Term]string{}, vmap: map[uint64]int{}}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *smtPrinter) ref(t *Term) string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	if t.op == opVar {
		i := len(p.order)
		p.order = append(p.order, int(t.val))
		n := fmt.Sprintf("v%d", i)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, sortName(t.w))
		p.names[t] = n
		return n
	}
	var e string
	switch t.op {
	case opZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case opSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case opTrunc:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.ref(t.a))
	default:
		e = "(" + opNames[t.op] + " " + p.ref(t.a)
		if t.b != nil {
			e += " " + p.ref(t.b)
		}
		if t.c != nil {
			e += " " + p.ref(t.c)
		}
		e += ")"
	}
	if len(e) < 40 {
		p.names[t] = e
		return e
	}
	n := fmt.Sprintf("d%d", p.nd)
	p.nd++
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sortName(t.w), e)
	p.names[t] = n
	return n
}

func (p *smtPrinter) assert(t *Term) {
	n := p.ref(t)
	p.sb.WriteString("(assert ")
	p.sb.WriteString(n)
	p.sb.WriteString(")\n")
}

func (t *Term) String() string {
	switch t.op {
	case opConst:
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case opVar:
		return fmt.Sprintf("x%d", t.val)
	}
	s := "(" + opNames[t.op]
	if t.op == opZExt || t.op == opSExt || t.op == opTrunc {
		s = fmt.Sprintf("(ext%d.%d", t.op, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
