package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value. Its meaning depends on the static type:
// integers, booleans and floats use N (or P=*Term when symbolic); strings use
// P=string or *SymStr (nil is ""); pointers P=*Value; slices, arrays, structs
// and tuples P=[]Value; maps *Map; interfaces *Iface; functions *Closure;
// channels *Chan.
type Value struct {
	N uint64
	P any
}

type SymStr struct{ b []*Term }

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(g *G, args []Value) Value
	bi     *ssa.Builtin
}

// SymPtr is the address of an element at a symbolic index (integers only).
type SymPtr struct {
	cells []Value
	idx   *Term
	w     uint8
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	sl  []Value
	str Value
	isS bool
}

func termOf(v Value) *Term {
	t, _ := v.P.(*Term)
	return t
}

func boolVal(b bool) Value { return Value{N: b2u(b)} }
func intVal(i int) Value   { return Value{N: uint64(i)} }

func (ex *Exec) tv(t *Term) Value {
	if t.op == opConst {
		return Value{N: t.val}
	}
	return Value{P: t}
}

func (ex *Exec) term(v Value, w uint8) *Term {
	if v.P != nil {
		if t, ok := v.P.(*Term); ok {
			return t
		}
		ex.abandon(fmt.Sprintf("term of %T", v.P))
	}
	return ex.tt.Const(v.N, w)
}

func (ex *Exec) boolTerm(v Value) *Term {
	if v.P != nil {
		return v.P.(*Term)
	}
	return ex.tt.Bool(v.N != 0)
}

// intInfo: width and signedness of an integer type.
func intInfo(T types.Type) (w uint8, signed bool, ok bool) {
	b, isb := T.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(T types.Type) (uint8, bool) {
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsFloat == 0 {
		return 0, false
	}
	if b.Kind() == types.Float32 {
		return 32, true
	}
	return 64, true
}
func isAgg(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return true
	}
	return false
}

func zero(T types.Type) Value {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		n := t.NumFields()
		f := make([]Value, n)
		for i := 0; i < n; i++ {
			ft := t.Field(i).Type()
			if isAgg(ft) {
				f[i] = zero(ft)
			}
		}
		return Value{P: f}
	case *types.Array:
		n := int(t.Len())
		f := make([]Value, n)
		if isAgg(t.Elem()) {
			for i := range f {
				f[i] = zero(t.Elem())
			}
		}
		return Value{P: f}
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		f := make([]Value, t.Len())
		for i := range f {
			f[i] = zero(t.At(i).Type())
		}
		return Value{P: f}
	}
	return Value{}
}

// copyAgg deep-copies struct and array values (not through pointers).
func copyAgg(T types.Type, v Value) Value {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		src, ok := v.P.([]Value)
		if !ok {
			return v
		}
		dst := make([]Value, len(src))
		copy(dst, src)
		for i := range dst {
			if _, ok := dst[i].P.([]Value); ok {
				ft := t.Field(i).Type()
				if isAgg(ft) {
					dst[i] = copyAgg(ft, dst[i])
				}
			}
		}
		return Value{P: dst}
	case *types.Array:
		src := v.P.([]Value)
		dst := make([]Value, len(src))
		copy(dst, src)
		if isAgg(t.Elem()) {
			for i := range dst {
				dst[i] = copyAgg(t.Elem(), dst[i])
			}
		}
		return Value{P: dst}
	}
	return v
}

type undoRec struct {
	p   *Value
	old Value
	fn  func()
}

func (ex *Exec) set(p *Value, v Value) {
	if ex.logging {
		ex.undo = append(ex.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (ex *Exec) undoFn(f func()) {
	if ex.logging {
		ex.undo = append(ex.undo, undoRec{fn: f})
	}
}

// store writes v into the cell p, preserving the identity of nested cells.
func (ex *Exec) store(T types.Type, p *Value, v Value) {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		dst, ok := p.P.([]Value)
		src, ok2 := v.P.([]Value)
		if !ok || !ok2 {
			ex.set(p, v)
			return
		}
		for i := range dst {
			ft := t.Field(i).Type()
			if isAgg(ft) {
				ex.store(ft, &dst[i], src[i])
			} else {
				ex.set(&dst[i], src[i])
			}
		}
	case *types.Array:
		dst := p.P.([]Value)
		src := v.P.([]Value)
		if isAgg(t.Elem()) {
			for i := range dst {
				ex.store(t.Elem(), &dst[i], src[i])
			}
		} else {
			for i := range dst {
				ex.set(&dst[i], src[i])
			}
		}
	default:
		ex.set(p, v)
	}
}

// ---- strings

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

func concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

// byteAt returns byte i as a Value.
func (ex *Exec) byteAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return ex.tv(s.b[i])
	}
	panic("byteAt")
}

func (ex *Exec) byteTerm(v Value, i int) *Term {
	switch s := v.P.(type) {
	case string:
		return ex.tt.Const(uint64(s[i]), 8)
	case *SymStr:
		return s.b[i]
	}
	panic("byteTerm")
}

func (ex *Exec) strTerms(v Value) []*Term {
	if s, ok := v.P.(*SymStr); ok {
		return s.b
	}
	n := strLen(v)
	r := make([]*Term, n)
	for i := range r {
		r[i] = ex.byteTerm(v, i)
	}
	return r
}

// mkStr builds a string value, concrete if all bytes are.
func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != opConst {
			return Value{P: &SymStr{b}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return Value{P: string(bs)}
}

func (ex *Exec) strFromCells(cells []Value) Value {
	sym := false
	for i := range cells {
		if cells[i].P != nil {
			sym = true
			break
		}
	}
	if !sym {
		if len(cells) == 0 {
			return Value{}
		}
		bs := make([]byte, len(cells))
		for i := range cells {
			bs[i] = byte(cells[i].N)
		}
		return Value{P: string(bs)}
	}
	b := make([]*Term, len(cells))
	for i := range cells {
		b[i] = ex.term(cells[i], 8)
	}
	return Value{P: &SymStr{b}}
}

func (ex *Exec) cellsFromStr(v Value) []Value {
	n := strLen(v)
	r := make([]Value, n)
	for i := range r {
		r[i] = ex.byteAt(v, i)
	}
	return r
}

func (ex *Exec) concat(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			return Value{P: x + y}
		}
	}
	x, y := ex.strTerms(a), ex.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return Value{P: &SymStr{r}}
}

func (ex *Exec) substr(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.P.(type) {
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("substr")
}

func (ex *Exec) strEq(a, b Value) *Term {
	n := strLen(a)
	if n != strLen(b) {
		return ex.tt.ff
	}
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return ex.tt.Bool(x == y)
		}
	}
	r := ex.tt.tt
	for i := 0; i < n; i++ {
		r = ex.tt.And(r, ex.tt.Bin(opEq, ex.byteTerm(a, i), ex.byteTerm(b, i)))
		if r == ex.tt.ff {
			return r
		}
	}
	return r
}

// strLess: a < b lexicographically.
func (ex *Exec) strLess(a, b Value, orEq bool) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return ex.tt.Bool(x < y || orEq && x == y)
		}
	}
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	var r *Term
	if na < nb || (orEq && na == nb) {
		r = ex.tt.tt
	} else {
		r = ex.tt.ff
	}
	for i := n - 1; i >= 0; i-- {
		x, y := ex.byteTerm(a, i), ex.byteTerm(b, i)
		r = ex.tt.Ite(ex.tt.Bin(opUlt, x, y), ex.tt.tt, ex.tt.Ite(ex.tt.Bin(opEq, x, y), r, ex.tt.ff))
	}
	return r
}

// evalStr evaluates a string under the current model.
func (ex *Exec) evalStr(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	s := v.P.(*SymStr)
	bs := make([]byte, len(s.b))
	for i, t := range s.b {
		bs[i] = byte(ex.tt.Eval(t))
	}
	return string(bs)
}

// ---- equality

func (ex *Exec) eq(T types.Type, a, b Value) *Term {
	switch t := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return ex.strEq(a, b)
		case t.Info()&types.IsBoolean != 0:
			return ex.tt.Bin(opEq, ex.boolTerm(a), ex.boolTerm(b))
		case t.Info()&types.IsInteger != 0:
			if a.P == nil && b.P == nil {
				return ex.tt.Bool(a.N == b.N)
			}
			w, _, _ := intInfo(T)
			return ex.tt.Bin(opEq, ex.term(a, w), ex.term(b, w))
		case t.Info()&types.IsFloat != 0:
			w, _ := isFloat(T)
			return ex.tt.Bool(toF(a, w) == toF(b, w))
		case t.Info()&types.IsComplex != 0:
			return ex.tt.Bool(a.P == b.P)
		}
		// unsafe.Pointer, untyped nil
		return ex.tt.Bool(samePtr(a, b))
	case *types.Struct:
		x, y := a.P.([]Value), b.P.([]Value)
		r := ex.tt.tt
		for i := range x {
			if t.Field(i).Name() == "_" {
				continue
			}
			r = ex.tt.And(r, ex.eq(t.Field(i).Type(), x[i], y[i]))
		}
		return r
	case *types.Array:
		x, y := a.P.([]Value), b.P.([]Value)
		r := ex.tt.tt
		for i := range x {
			r = ex.tt.And(r, ex.eq(t.Elem(), x[i], y[i]))
		}
		return r
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return ex.tt.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.T, y.T) {
			return ex.tt.ff
		}
		if !types.Comparable(x.T) {
			ex.g().rtPanic("comparing uncomparable type " + x.T.String())
		}
		return ex.eq(x.T, x.V, y.V)
	case *types.Slice:
		// only against nil
		return ex.tt.Bool(isNilV(a) && isNilV(b))
	}
	return ex.tt.Bool(samePtr(a, b))
}

func isNilV(v Value) bool { return v.P == nil }

func samePtr(a, b Value) bool {
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil && a.N == b.N
	}
	switch x := a.P.(type) {
	case *Value:
		y, ok := b.P.(*Value)
		return ok && x == y
	case *Map:
		y, ok := b.P.(*Map)
		return ok && x == y
	case *Chan:
		y, ok := b.P.(*Chan)
		return ok && x == y
	case *Closure:
		y, ok := b.P.(*Closure)
		return ok && x == y
	case *DataPtr:
		y, ok := b.P.(*DataPtr)
		return ok && x == y
	}
	return false
}

func toF(v Value, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}
func fromF(f float64, w uint8) Value {
	if w == 32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

// ---- maps

type mapEnt struct {
	k, v Value
	dead bool
	ck   any // canonical key when concrete
}

type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int
	n    int
}

func newMap() *Map { return &Map{idx: map[any]*mapEnt{}} }

// canonKey returns a comparable key if v is fully concrete.
func (ex *Exec) canonKey(T types.Type, v Value) (any, bool) {
	switch t := T.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.P == nil {
			return v.N, true
		}
		if _, ok := v.P.(*Term); ok {
			return nil, false
		}
		return v.P, true
	case *types.Pointer, *types.Chan:
		return v.P, true
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return nil, true
		}
		if !types.Comparable(i.T) {
			ex.g().rtPanic("hash of unhashable type " + i.T.String())
		}
		k, ok := ex.canonKey(i.T, i.V)
		if !ok {
			return nil, false
		}
		return [2]any{types.TypeString(i.T, nil), k}, true
	case *types.Struct:
		fs := v.P.([]Value)
		var sb strings.Builder
		for i, f := range fs {
			k, ok := ex.canonKey(t.Field(i).Type(), f)
			if !ok {
				return nil, false
			}
			writeKey(&sb, k)
		}
		return sb.String(), true
	case *types.Array:
		fs := v.P.([]Value)
		var sb strings.Builder
		for _, f := range fs {
			k, ok := ex.canonKey(t.Elem(), f)
			if !ok {
				return nil, false
			}
			writeKey(&sb, k)
		}
		return sb.String(), true
	}
	return nil, false
}

func (ex *Exec) mapFind(m *Map, kT types.Type, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	ck, ok := ex.canonKey(kT, k)
	if ok && m.nsym == 0 {
		return m.idx[ck]
	}
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok && e.ck != nil {
			continue // both concrete and different
		}
		if ex.branch(ex.eq(kT, e.k, k)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapSet(m *Map, kT types.Type, k, v Value) {
	if e := ex.mapFind(m, kT, k); e != nil {
		old := e.v
		ex.undoFn(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	ck, ok := ex.canonKey(kT, k)
	if ok {
		e.ck = ck
		if ck == nil {
			e.ck = nilKey{}
		}
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
	ex.undoFn(func() {
		e.dead = true
		m.n--
		if ok {
			delete(m.idx, ck)
		} else {
			m.nsym--
		}
		// entries are appended in order, so the last one is e
		m.ents = m.ents[:len(m.ents)-1]
	})
}

type nilKey struct{}

func writeKey(sb *strings.Builder, k any) {
	switch x := k.(type) {
	case string:
		fmt.Fprintf(sb, "%q|", x)
	case uint64:
		fmt.Fprintf(sb, "%d|", x)
	case nil:
		sb.WriteString("nil|")
	case [2]any:
		fmt.Fprintf(sb, "%s:", x[0])
		writeKey(sb, x[1])
	default:
		fmt.Fprintf(sb, "%p|", x)
	}
}

func (ex *Exec) mapDelete(m *Map, kT types.Type, k Value) {
	e := ex.mapFind(m, kT, k)
	if e == nil {
		return
	}
	ex.mapDelEnt(m, kT, e)
}

func (ex *Exec) mapDelEnt(m *Map, kT types.Type, e *mapEnt) {
	ck, ok := ex.canonKey(kT, e.k)
	e.dead = true
	m.n--
	if ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	ex.undoFn(func() {
		e.dead = false
		m.n++
		if ok {
			m.idx[ck] = e
		} else {
			m.nsym++
		}
	})
}

type Iter struct {
	m    *Map
	ents []*mapEnt
	i    int
	str  Value
	isS  bool
}
