package main

import (
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(g *G, fn *ssa.Function, args []Value) Value

var natives = map[string]nativeFn{}

const symPath = "github.com/libregraph/idm/zzverif/sym"
const modelPath = "github.com/libregraph/idm/zzverif/model"

func isVerifPkg(p string) bool { return strings.HasPrefix(p, "github.com/libregraph/idm/zzverif") }

var noInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "syscall": true, "internal/godebug": true, "internal/poll": true,
	"net/http": true, "crypto/tls": true, "crypto/x509": true, "log": true, "testing": true, "internal/testlog": true,
	"os/signal": true, "internal/bytealg": true,
}

// opaquePkgs: functions do nothing and return zero values (fresh objects for
// pointer results).
var opaquePkgs = []string{
	"github.com/sirupsen/logrus", "github.com/go-logr/logr", "github.com/go-logr/stdr", "log", "log/slog",
	"github.com/trustelem/zxcvbn", "crypto/tls", "crypto/x509", "net/http", "os/signal",
	"internal/godebug", "internal/race", "internal/msan", "internal/asan",
	"github.com/spf13/viper",
}

type mutexState struct {
	locked  bool
	readers int
}

type hashEnt struct {
	kind string
	in   Value // string
	aux  string
	out  string
}

func tuple(vs ...Value) Value { return Value{P: vs} }

// call a method of an interface value
func (g *G) callMethod(iv Value, name string, args ...Value) Value {
	i, _ := iv.P.(*Iface)
	if i == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	w := g.ex.w
	w.p.mu.Lock()
	ms := w.p.prog.MethodSets.MethodSet(i.T)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == name {
				sel = ms.At(k)
			}
		}
	}
	var f *ssa.Function
	if sel != nil {
		f = w.p.prog.MethodValue(sel)
	}
	w.p.mu.Unlock()
	if f == nil {
		g.ex.abandon("no method " + name + " on " + i.T.String())
	}
	return g.callFn(f, append([]Value{i.V}, args...)...)
}

func (w *Worker) hasMethod(T types.Type, name string) bool {
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	return w.p.prog.MethodSets.MethodSet(T).Lookup(nil, name) != nil
}

func (p *Program) namedType(pkg, name string) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := pkg + "." + name
	if t, ok := p.types[k]; ok {
		return t
	}
	t := p.findType(pkg, name)
	p.types[k] = t
	return t
}

func (p *Program) findType(pkg, name string) types.Type {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if m := sp.Type(name); m != nil {
				return m.Type()
			}
		}
	}
	return nil
}

// validUTF8 is the condition that v is a valid UTF-8 string.
func (ex *Exec) validUTF8(v Value) *Term {
	b := ex.strTerms(v)
	tt := ex.tt
	in := func(i int, lo, hi uint64) *Term {
		return tt.And(tt.Bin(opUle, tt.Const(lo, 8), b[i]), tt.Bin(opUle, b[i], tt.Const(hi, 8)))
	}
	// ok[i]: the rest from i on is valid
	ok := make([]*Term, len(b)+1)
	ok[len(b)] = tt.tt
	for i := len(b) - 1; i >= 0; i-- {
		r := tt.And(in(i, 0, 0x7f), ok[i+1])
		if i+2 <= len(b) {
			r = tt.Or(r, tt.And(tt.And(in(i, 0xc2, 0xdf), in(i+1, 0x80, 0xbf)), ok[i+2]))
		}
		if i+3 <= len(b) {
			second := utf8Second3(tt, func(k int, lo, hi uint64) *Term { return in(i+k, lo, hi) })
			r = tt.Or(r, tt.And(tt.And(second, in(i+2, 0x80, 0xbf)), ok[i+3]))
		}
		if i+4 <= len(b) {
			second := utf8Second4(tt, func(k int, lo, hi uint64) *Term { return in(i+k, lo, hi) })
			r = tt.Or(r, tt.And(tt.And(second, tt.And(in(i+2, 0x80, 0xbf), in(i+3, 0x80, 0xbf))), ok[i+4]))
		}
		ok[i] = r
	}
	return ok[0]
}

func (ex *Exec) allASCII(v Value) *Term {
	if s, ok := concStr(v); ok {
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return ex.tt.ff
			}
		}
		return ex.tt.tt
	}
	r := ex.tt.tt
	for _, t := range v.P.(*SymStr).b {
		r = ex.tt.And(r, ex.tt.Bin(opUlt, t, ex.tt.Const(0x80, 8)))
	}
	return r
}

func (ex *Exec) lowerT(t *Term) *Term {
	c := ex.tt.And(ex.tt.Bin(opUle, ex.tt.Const('A', 8), t), ex.tt.Bin(opUle, t, ex.tt.Const('Z', 8)))
	return ex.tt.Ite(c, ex.tt.Bin(opAdd, t, ex.tt.Const(32, 8)), t)
}
func (ex *Exec) upperT(t *Term) *Term {
	c := ex.tt.And(ex.tt.Bin(opUle, ex.tt.Const('a', 8), t), ex.tt.Bin(opUle, t, ex.tt.Const('z', 8)))
	return ex.tt.Ite(c, ex.tt.Bin(opSub, t, ex.tt.Const(32, 8)), t)
}

func (ex *Exec) mapStr(v Value, f func(*Term) *Term) Value {
	ts := ex.strTerms(v)
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[i] = f(t)
	}
	return mkStr(r)
}

// concStrFork concretises a symbolic string (forking over its values).
func (ex *Exec) concStrFork(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	b := v.P.(*SymStr).b
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(ex.conc(t))
	}
	return string(bs)
}

func caseFn(low bool, native func(string) string) nativeFn {
	return func(g *G, fn *ssa.Function, a []Value) Value {
		ex := g.ex
		s := a[len(a)-1]
		if c, ok := concStr(s); ok {
			return strV(native(c))
		}
		if ex.branch(ex.allASCII(s)) {
			if low {
				return ex.mapStr(s, ex.lowerT)
			}
			return ex.mapStr(s, ex.upperT)
		}
		if low {
			return g.mapRunes(s, ex.lowerT, native)
		}
		return g.mapRunes(s, ex.upperT, native)
	}
}

// mapRunes maps a string rune by rune; only the other than ASCII ones are
// concretised.
func (g *G) mapRunes(s Value, ascii func(*Term) *Term, native func(string) string) Value {
	ex := g.ex
	r := strV("")
	for i := 0; i < strLen(s); {
		v, n := g.decodeRune(s, i)
		c := ex.substr(s, i, i+n)
		if n == 1 && (v.P != nil || v.N < 0x80) {
			r = ex.concat(r, ex.mapStr(c, ascii))
		} else {
			r = ex.concat(r, strV(native(ex.concStrFork(c))))
		}
		i += n
	}
	return r
}

// canonRune is the representative of all runes equal to the ones in s under
// simple case folding.
func canonRune(s string) string {
	var b strings.Builder
	for _, r := range s {
		m := r
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			if x < m {
				m = x
			}
		}
		if 'A' <= m && m <= 'Z' {
			m += 'a' - 'A'
		}
		b.WriteRune(m)
	}
	return b.String()
}

func cells(s string) Value {
	r := make([]Value, len(s))
	for i := range r {
		r[i] = Value{N: uint64(s[i])}
	}
	return Value{P: r}
}

func (g *G) mu(p Value) *mutexState {
	c, ok := p.P.(*Value)
	if !ok {
		g.nilPanic(p)
	}
	m := g.ex.mutexes[c]
	if m == nil {
		w := g.ex.w
		b := w.baseMu[c]
		if w.initing > 0 {
			if b == nil {
				b = &mutexState{}
				w.baseMu[c] = b
			}
			return b
		}
		m = &mutexState{}
		if b != nil {
			*m = *b
		}
		g.ex.mutexes[c] = m
	}
	return m
}

func (g *G) fatal(msg string) {
	panic(&goPanic{v: g.errVal("fatal error: " + msg), msg: "fatal error: " + msg, stack: g.stackStr()})
}

func (ex *Exec) opaqueResult(fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	mk := func(T types.Type) Value {
		if p, ok := T.Underlying().(*types.Pointer); ok {
			c := new(Value)
			*c = zero(p.Elem())
			return Value{P: c}
		}
		return zero(T)
	}
	switch fn.Name() {
	case "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln":
		ex.cur.fatal("log " + fn.Name())
	}
	if res.Len() == 0 {
		return Value{}
	}
	if res.Len() == 1 {
		return mk(res.At(0).Type())
	}
	r := make([]Value, res.Len())
	for i := range r {
		r[i] = mk(res.At(i).Type())
	}
	return Value{P: r}
}

// deepCopy copies a value graph; gob flattens empty slices and maps to nil.
func (ex *Exec) deepCopy(T types.Type, v Value, gob bool) Value {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		src := v.P.([]Value)
		dst := make([]Value, len(src))
		for i := range src {
			if gob && !t.Field(i).Exported() {
				dst[i] = zero(t.Field(i).Type())
				continue
			}
			dst[i] = ex.deepCopy(t.Field(i).Type(), src[i], gob)
		}
		return Value{P: dst}
	case *types.Array:
		src := v.P.([]Value)
		dst := make([]Value, len(src))
		for i := range src {
			dst[i] = ex.deepCopy(t.Elem(), src[i], gob)
		}
		return Value{P: dst}
	case *types.Slice:
		if v.P == nil {
			return v
		}
		src := v.P.([]Value)
		if gob && len(src) == 0 {
			return Value{}
		}
		dst := make([]Value, len(src))
		for i := range src {
			dst[i] = ex.deepCopy(t.Elem(), src[i], gob)
		}
		return Value{P: dst}
	case *types.Pointer:
		p, ok := v.P.(*Value)
		if !ok {
			return v
		}
		c := new(Value)
		*c = ex.deepCopy(t.Elem(), *p, gob)
		return Value{P: c}
	case *types.Map:
		m, ok := v.P.(*Map)
		if !ok || m == nil || gob && m.n == 0 {
			return Value{}
		}
		n := newMap()
		for _, e := range m.ents {
			if !e.dead {
				ex.mapSet(n, t.Key(), ex.deepCopy(t.Key(), e.k, gob), ex.deepCopy(t.Elem(), e.v, gob))
			}
		}
		return Value{P: n}
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return v
		}
		return Value{P: &Iface{i.T, ex.deepCopy(i.T, i.V, gob)}}
	}
	return v
}

// deepEq is reflect.DeepEqual as a term.
func (ex *Exec) deepEq(T types.Type, a, b Value, depth int) *Term {
	if depth > 60 {
		ex.abandon("DeepEqual too deep")
	}
	switch t := T.Underlying().(type) {
	case *types.Struct:
		x, y := a.P.([]Value), b.P.([]Value)
		r := ex.tt.tt
		for i := range x {
			r = ex.tt.And(r, ex.deepEq(t.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array, *types.Slice:
		var eT types.Type
		if s, ok := t.(*types.Slice); ok {
			eT = s.Elem()
			if (a.P == nil) != (b.P == nil) {
				return ex.tt.ff
			}
		} else {
			eT = t.(*types.Array).Elem()
		}
		x, y := asSlice(a), asSlice(b)
		if len(x) != len(y) {
			return ex.tt.ff
		}
		r := ex.tt.tt
		for i := range x {
			r = ex.tt.And(r, ex.deepEq(eT, x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		x, ok1 := a.P.(*Value)
		y, ok2 := b.P.(*Value)
		if !ok1 || !ok2 {
			return ex.tt.Bool(ok1 == ok2)
		}
		if x == y {
			return ex.tt.tt
		}
		return ex.deepEq(t.Elem(), *x, *y, depth+1)
	case *types.Map:
		x, _ := a.P.(*Map)
		y, _ := b.P.(*Map)
		if x == nil || y == nil {
			return ex.tt.Bool(x == nil && y == nil)
		}
		if x.n != y.n {
			return ex.tt.ff
		}
		r := ex.tt.tt
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := ex.mapFind(y, t.Key(), e.k)
			if f == nil {
				return ex.tt.ff
			}
			r = ex.tt.And(r, ex.deepEq(t.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return ex.tt.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.T, y.T) {
			return ex.tt.ff
		}
		return ex.deepEq(x.T, x.V, y.V, depth+1)
	case *types.Signature:
		return ex.tt.Bool(a.P == nil && b.P == nil)
	}
	return ex.eq(T, a, b)
}

// render evaluates a value under the current model for observations.
func (ex *Exec) render(T types.Type, v Value) string {
	switch t := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return strconv.Quote(ex.evalStr(v))
		case t.Info()&types.IsBoolean != 0:
			n := v.N
			if tm := termOf(v); tm != nil {
				n = ex.tt.Eval(tm)
			}
			return strconv.FormatBool(n != 0)
		case t.Info()&types.IsInteger != 0:
			n := v.N
			if tm := termOf(v); tm != nil {
				n = ex.tt.Eval(tm)
			}
			w, s, _ := intInfo(T)
			if s {
				return strconv.FormatInt(sext(n, w), 10)
			}
			return strconv.FormatUint(n, 10)
		}
	case *types.Slice:
		s := "["
		for i, e := range asSlice(v) {
			if i > 0 {
				s += " "
			}
			s += ex.render(t.Elem(), e)
		}
		return s + "]"
	case *types.Interface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return "<nil>"
		}
		return ex.render(i.T, i.V)
	}
	return "?" + T.String()
}

// ---- fmt

// fmtArg renders one argument; symbolic text stays symbolic where possible.
// lenient: symbolic integers become a placeholder instead of forking.
func (g *G) fmtArg(verb byte, flags string, av Value, lenient bool) Value {
	ex := g.ex
	i, _ := av.P.(*Iface)
	if i == nil {
		if verb == 'v' || verb == 's' {
			if verb == 'v' {
				return strV("<nil>")
			}
			return strV("%!" + string(verb) + "(<nil>)")
		}
		return strV("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return strV(types.TypeString(i.T, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'p' {
		return strV("0xc000000000")
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		// a panic in Error/String is caught by fmt; not modelled
		if ex.w.hasMethod(i.T, "Error") && !(verb == 'v' && strings.Contains(flags, "#")) {
			if isNilPtr(i) {
				return strV("<nil>")
			}
			s := g.callMethod(av, "Error")
			return g.quoteIf(verb, s, lenient)
		}
		if ex.w.hasMethod(i.T, "String") && !(verb == 'v' && strings.Contains(flags, "#")) {
			if isNilPtr(i) {
				return strV("<nil>")
			}
			s := g.callMethod(av, "String")
			return g.quoteIf(verb, s, lenient)
		}
	}
	return g.fmtVal(verb, flags, i.T, i.V, lenient, 0)
}

func isNilPtr(i *Iface) bool {
	_, ok := i.T.Underlying().(*types.Pointer)
	return ok && i.V.P == nil
}

// decimal is the text of a number; a symbolic one forks on the number of digits only.
func (g *G) decimal(v Value, signed bool, base int) Value {
	ex, tt := g.ex, g.ex.tt
	t := termOf(v)
	if t == nil || base != 10 || signed && ex.branch(tt.Bin(opSlt, t, tt.Const(0, t.w))) {
		n := ex.concV(v)
		if signed {
			return strV(strconv.FormatInt(int64(n), base))
		}
		return strV(strconv.FormatUint(n, base))
	}
	if t.w < 64 {
		t = tt.Un(opZExt, t, 64)
	}
	k, p := 1, uint64(10)
	for k < 20 && !ex.branch(tt.Bin(opUlt, t, tt.Const(p, 64))) {
		k, p = k+1, p*10
	}
	b := make([]*Term, k)
	for i := k - 1; i >= 0; i-- {
		d := tt.Bin(opURem, t, tt.Const(10, 64))
		b[i] = tt.Un(opTrunc, tt.Bin(opAdd, d, tt.Const('0', 64)), 8)
		t = tt.Bin(opUDiv, t, tt.Const(10, 64))
	}
	return mkStr(b)
}

// hex is the text of bytes as two digits each.
func (g *G) hex(s Value, upper bool) Value {
	ex, tt := g.ex, g.ex.tt
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	var b []*Term
	digit := func(t *Term) {
		b = append(b, tt.Ite(tt.Bin(opUlt, t, tt.Const(10, 8)), tt.Bin(opAdd, t, tt.Const('0', 8)), tt.Bin(opAdd, t, tt.Const(a, 8))))
	}
	for i := 0; i < strLen(s); i++ {
		t := ex.byteTerm(s, i)
		digit(tt.Bin(opLShr, t, tt.Const(4, 8)))
		digit(tt.Bin(opBAnd, t, tt.Const(15, 8)))
	}
	return mkStr(b)
}

func (g *G) quoteIf(verb byte, s Value, lenient bool) Value {
	if verb != 'q' {
		return s
	}
	if c, ok := concStr(s); ok {
		return strV(strconv.Quote(c))
	}
	if lenient {
		return g.ex.concat(strV("\""), g.ex.concat(s, strV("\"")))
	}
	return strV(strconv.Quote(g.ex.concStrFork(s)))
}

func (g *G) fmtVal(verb byte, flags string, T types.Type, v Value, lenient bool, depth int) Value {
	ex := g.ex
	if depth > 6 {
		return strV("...")
	}
	switch t := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			if verb == 'x' || verb == 'X' {
				if c, ok := concStr(v); ok {
					return strV(fmt.Sprintf("%"+flags+string(verb), c))
				}
				if lenient {
					return v
				}
				if flags == "" {
					return g.hex(v, verb == 'X')
				}
				return strV(fmt.Sprintf("%"+flags+string(verb), ex.concStrFork(v)))
			}
			if verb == 'd' {
				return strV("%!d(string=)")
			}
			s := g.quoteIf(verb, v, lenient)
			if flags != "" {
				if c, ok := concStr(s); ok {
					return strV(fmt.Sprintf("%"+flags+"s", c))
				}
			}
			return s
		case t.Info()&types.IsBoolean != 0:
			n := v.N
			if tm := termOf(v); tm != nil {
				n = b2u(ex.branch(tm))
			}
			return strV(strconv.FormatBool(n != 0))
		case t.Info()&types.IsInteger != 0:
			if termOf(v) != nil && lenient {
				return strV("<int>")
			}
			w, s, _ := intInfo(T)
			if tm := termOf(v); tm != nil {
				switch {
				case w == 8 && !s && (flags == "02" || flags == ".2") && (verb == 'x' || verb == 'X'):
					return g.hex(mkStr([]*Term{tm}), verb == 'X')
				case flags == "" && (verb == 'd' || verb == 'v') && (w == 64 || !s):
					return g.decimal(v, s, 10)
				}
			}
			n := ex.concV(v)
			f := "%" + flags + string(verb)
			if verb == 's' || verb == 'w' {
				f = "%" + flags + "d"
			}
			if s {
				switch w {
				case 32:
					return strV(fmt.Sprintf(f, int32(n)))
				}
				return strV(fmt.Sprintf(f, sext(n, w)))
			}
			return strV(fmt.Sprintf(f, n))
		case t.Info()&types.IsFloat != 0:
			w, _ := isFloat(T)
			return strV(fmt.Sprintf("%"+flags+string(verb), toF(v, w)))
		}
	case *types.Slice, *types.Array:
		var eT types.Type
		if s, ok := t.(*types.Slice); ok {
			eT = s.Elem()
		} else {
			eT = t.(*types.Array).Elem()
		}
		if w, _, ok := intInfo(eT); ok && w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return g.fmtVal(verb, flags, types.Typ[types.String], ex.strFromCells(asSlice(v)), lenient, depth+1)
		}
		r := strV("[")
		for k, e := range asSlice(v) {
			if k > 0 {
				r = ex.concat(r, strV(" "))
			}
			r = ex.concat(r, g.fmtArg(verb, flags, g.toIface(eT, e), lenient))
		}
		return ex.concat(r, strV("]"))
	case *types.Struct:
		r := strV("{")
		for k, e := range v.P.([]Value) {
			if k > 0 {
				r = ex.concat(r, strV(" "))
			}
			r = ex.concat(r, g.fmtVal(verb, flags, t.Field(k).Type(), e, lenient, depth+1))
		}
		return ex.concat(r, strV("}"))
	case *types.Pointer:
		if p, ok := v.P.(*Value); ok && depth == 0 {
			if _, ok := t.Elem().Underlying().(*types.Struct); ok {
				return ex.concat(strV("&"), g.fmtVal(verb, flags, t.Elem(), *p, lenient, depth+1))
			}
		}
		if v.P == nil {
			return strV("<nil>")
		}
		return strV("0xc000000000")
	case *types.Interface:
		return g.fmtArg(verb, flags, v, lenient)
	case *types.Map:
		return strV("map[...]")
	}
	return strV("?")
}

func (g *G) toIface(T types.Type, v Value) Value {
	if _, ok := T.Underlying().(*types.Interface); ok {
		return v
	}
	return Value{P: &Iface{T, v}}
}

func (g *G) sprintf(format Value, args []Value, lenient bool) (Value, Value) {
	ex := g.ex
	f, ok := concStr(format)
	if !ok {
		// a symbolic format string: fork on its bytes
		f = ex.concStrFork(format)
	}
	r := Value{}
	wrapped := Value{}
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = ex.concat(r, strV(f[i:]))
			break
		}
		r = ex.concat(r, strV(f[i:i+j]))
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			r = ex.concat(r, strV("%!(NOVERB)"))
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			r = ex.concat(r, strV("%"))
			continue
		}
		if ai >= len(args) {
			r = ex.concat(r, strV("%!"+string(verb)+"(MISSING)"))
			continue
		}
		if verb == 'w' {
			wrapped = args[ai]
		}
		r = ex.concat(r, g.fmtArg(verb, flags, args[ai], lenient))
		ai++
	}
	if ai < len(args) {
		r = ex.concat(r, strV("%!(EXTRA "))
		for k, a := range args[ai:] {
			if k > 0 {
				r = ex.concat(r, strV(", "))
			}
			r = ex.concat(r, g.fmtArg('T', "", a, lenient))
			r = ex.concat(r, strV("="))
			r = ex.concat(r, g.fmtArg('v', "", a, lenient))
		}
		r = ex.concat(r, strV(")"))
	}
	return r, wrapped
}

func (g *G) sprint(args []Value, ln bool) Value {
	ex := g.ex
	r := Value{}
	prevStr := true
	for i, a := range args {
		isS := false
		if x, _ := a.P.(*Iface); x != nil && isString(x.T) {
			isS = true
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			r = ex.concat(r, strV(" "))
		}
		r = ex.concat(r, g.fmtArg('v', "", a, false))
		prevStr = isS
	}
	if ln {
		r = ex.concat(r, strV("\n"))
	}
	return r
}

func (g *G) writeTo(w Value, s Value) Value {
	return g.callMethod(w, "Write", Value{P: g.ex.cellsFromStr(s)})
}

func (g *G) newError(msg Value) Value {
	T := g.ex.w.p.namedType("errors", "errorString")
	c := &Value{P: []Value{msg}}
	return Value{P: &Iface{T: types.NewPointer(T), V: Value{P: c}}}
}

func atomicName(n string) string { return "sync/atomic." + n }

func init() {
	reg := func(name string, f func(g *G, a []Value) Value) {
		natives[name] = func(g *G, fn *ssa.Function, a []Value) Value { return f(g, a) }
	}
	nop := func(g *G, a []Value) Value { return Value{} }

	// ---- sym
	sy := func(n string, f func(g *G, a []Value) Value) { reg(symPath+"."+n, f) }
	name := func(g *G, v Value) string {
		s, ok := concStr(v)
		if !ok {
			g.ex.abandon("symbolic name")
		}
		return s
	}
	sy("TempDir", func(g *G, a []Value) Value { return strV("/tmp/verif") })
	sy("Symbolic", func(g *G, a []Value) Value { return boolVal(true) })
	sy("Byte", func(g *G, a []Value) Value {
		return Value{P: g.ex.tt.NewVar(g.ex.key(name(g, a[0])), 8)}
	})
	sy("Bool", func(g *G, a []Value) Value {
		return Value{P: g.ex.tt.NewVar(g.ex.key(name(g, a[0])), 0)}
	})
	sy("Uint64", func(g *G, a []Value) Value {
		return Value{P: g.ex.tt.NewVar(g.ex.key(name(g, a[0])), 64)}
	})
	sy("Int64", func(g *G, a []Value) Value {
		return Value{P: g.ex.tt.NewVar(g.ex.key(name(g, a[0])), 64)}
	})
	sy("Int", func(g *G, a []Value) Value {
		ex := g.ex
		lo, hi := int64(a[1].N), int64(a[2].N)
		v := ex.tt.NewVar(ex.key(name(g, a[0])), 64)
		if x := int64(ex.tt.model[v.val]); x < lo || x > hi {
			ex.tt.model[v.val] = uint64(lo)
			ex.tt.gen++
		}
		ex.assumeTerm(ex.tt.And(ex.tt.Bin(opSle, ex.tt.Const(uint64(lo), 64), v), ex.tt.Bin(opSle, v, ex.tt.Const(uint64(hi), 64))))
		return Value{P: v}
	})
	sy("Choice", func(g *G, a []Value) Value {
		return intVal(g.ex.choose(name(g, a[0]), int(a[1].N)))
	})
	sy("String", func(g *G, a []Value) Value {
		ex := g.ex
		n := int(a[1].N)
		k := ex.key(name(g, a[0]))
		b := make([]*Term, n)
		for i := range b {
			b[i] = ex.tt.NewVar(fmt.Sprintf("%s[%d]", k, i), 8)
		}
		return mkStr(b)
	})
	sy("StringIn", func(g *G, a []Value) Value {
		ex := g.ex
		n := int(a[1].N)
		k := ex.key(name(g, a[0]))
		alpha := name(g, a[2])
		var in [256]bool
		for i := 0; i < len(alpha); i++ {
			in[alpha[i]] = true
		}
		b := make([]*Term, n)
		for i := range b {
			v := ex.tt.NewVar(fmt.Sprintf("%s[%d]", k, i), 8)
			b[i] = v
			if !in[ex.tt.model[v.val]&255] {
				ex.tt.model[v.val] = uint64(alpha[0])
				ex.tt.gen++
			}
			c := ex.tt.ff
			for lo := 0; lo < 256; lo++ {
				if !in[lo] {
					continue
				}
				hi := lo
				for hi+1 < 256 && in[hi+1] {
					hi++
				}
				if lo == hi {
					c = ex.tt.Or(c, ex.tt.Bin(opEq, v, ex.tt.Const(uint64(lo), 8)))
				} else {
					c = ex.tt.Or(c, ex.tt.And(ex.tt.Bin(opUle, ex.tt.Const(uint64(lo), 8), v), ex.tt.Bin(opUle, v, ex.tt.Const(uint64(hi), 8))))
				}
				lo = hi
			}
			ex.assumeTerm(c)
		}
		return mkStr(b)
	})
	sy("Assume", func(g *G, a []Value) Value { g.ex.assume(g.ex.boolTerm(a[0])); return Value{} })
	sy("Assert", func(g *G, a []Value) Value {
		g.ex.assert(g.ex.boolTerm(a[0]), name(g, a[1]))
		return Value{}
	})
	sy("Cover", func(g *G, a []Value) Value { g.ex.covers[name(g, a[0])] = true; return Value{} })
	sy("Observe", func(g *G, a []Value) Value {
		i, _ := a[1].P.(*Iface)
		if i == nil {
			i = &Iface{T: types.Typ[types.String], V: strV("<nil>")}
		}
		g.ex.obs = append(g.ex.obs, Obs{name(g, a[0]), g.ex.deepCopy(i.T, i.V, false), i.T})
		return Value{}
	})
	sy("Param", func(g *G, a []Value) Value {
		if v, ok := g.ex.opt.Params[name(g, a[0])]; ok {
			return intVal(v)
		}
		return a[1]
	})
	sy("And", func(g *G, a []Value) Value {
		r := g.ex.tt.tt
		for _, x := range asSlice(a[0]) {
			r = g.ex.tt.And(r, g.ex.boolTerm(x))
		}
		return g.ex.tv(r)
	})
	sy("Or", func(g *G, a []Value) Value {
		r := g.ex.tt.ff
		for _, x := range asSlice(a[0]) {
			r = g.ex.tt.Or(r, g.ex.boolTerm(x))
		}
		return g.ex.tv(r)
	})
	sy("Not", func(g *G, a []Value) Value { return g.ex.tv(g.ex.tt.Not(g.ex.boolTerm(a[0]))) })
	sy("Implies", func(g *G, a []Value) Value {
		return g.ex.tv(g.ex.tt.Or(g.ex.tt.Not(g.ex.boolTerm(a[0])), g.ex.boolTerm(a[1])))
	})
	sy("Iff", func(g *G, a []Value) Value {
		return g.ex.tv(g.ex.tt.Bin(opEq, g.ex.boolTerm(a[0]), g.ex.boolTerm(a[1])))
	})
	sy("Ite", func(g *G, a []Value) Value {
		return g.ex.tv(g.ex.tt.Ite(g.ex.boolTerm(a[0]), g.ex.term(a[1], 64), g.ex.term(a[2], 64)))
	})
	sy("Known", func(g *G, a []Value) Value {
		t, ok := a[0].P.(*Term)
		return boolVal(!ok || t.isConst())
	})
	sy("Field", func(g *G, a []Value) Value {
		no := Value{P: []Value{{}, boolVal(false)}}
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return no
		}
		T, v := i.T, i.V
		for {
			p, ok := T.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			x, ok := v.P.(*Value)
			if !ok {
				return no
			}
			T, v = p.Elem(), *x
		}
		st, ok := T.Underlying().(*types.Struct)
		if !ok {
			return no
		}
		name := g.ex.concStrFork(a[1])
		for k := 0; k < st.NumFields(); k++ {
			if f := st.Field(k); f.Name() == name && f.Exported() {
				x := v.P.([]Value)[k]
				if _, ok := f.Type().Underlying().(*types.Interface); ok {
					return Value{P: []Value{x, boolVal(true)}}
				}
				return Value{P: []Value{{P: &Iface{f.Type(), copyAgg(f.Type(), x)}}, boolVal(true)}}
			}
		}
		return no
	})
	sy("DeepEqual", func(g *G, a []Value) Value {
		x, _ := a[0].P.(*Iface)
		y, _ := a[1].P.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if !types.Identical(x.T, y.T) {
			return boolVal(false)
		}
		return g.ex.tv(g.ex.deepEq(x.T, x.V, y.V, 0))
	})
	sy("FoldEq", func(g *G, a []Value) Value {
		// ASCII case-insensitive equality without branching
		ex := g.ex
		return ex.tv(ex.strEq(ex.mapStr(a[0], ex.lowerT), ex.mapStr(a[1], ex.lowerT)))
	})
	sy("Yield", func(g *G, a []Value) Value { g.yield("yield"); return Value{} })
	sy("Sched", func(g *G, a []Value) Value { g.ex.schedOn = a[0].N != 0; return Value{} })
	sy("SchedOn", func(g *G, a []Value) Value { return boolVal(g.ex.schedOn) })
	sy("Goid", func(g *G, a []Value) Value { return intVal(g.id) })
	sy("Stop", func(g *G, a []Value) Value { panic(pathEnd{"done", ""}) })
	sy("Abandon", func(g *G, a []Value) Value { g.ex.abandon("harness: " + name(g, a[0])); return Value{} })
	sy("Drain", func(g *G, a []Value) Value {
		// let every other goroutine run until it blocks or ends (no timers)
		g.block("drain", func() bool {
			for _, x := range g.ex.gs {
				if x != g && !x.done && (x.ready == nil || x.ready()) {
					return false
				}
			}
			return true
		})
		return Value{}
	})
	sy("Stdout", func(g *G, a []Value) Value {
		var r Value
		for k, v := range g.ex.side {
			if s, ok := k.(string); ok && strings.HasPrefix(s, "file:") {
				r = g.ex.concat(r, v.(Value))
			}
		}
		return r
	})
	// UF is an injective uninterpreted function on strings with concrete values.
	sy("IdealHash", func(g *G, a []Value) Value {
		return strV(g.idealHash(name(g, a[0]), a[1], ""))
	})

	// ---- strings
	natives["strings.ToLower"] = caseFn(true, strings.ToLower)
	natives["strings.ToUpper"] = caseFn(false, strings.ToUpper)
	natives["bytes.ToLower"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s := caseFn(true, strings.ToLower)(g, fn, []Value{g.ex.strFromCells(asSlice(a[0]))})
		return Value{P: g.ex.cellsFromStr(s)}
	}
	natives["(golang.org/x/text/cases.Caser).String"] = caseFn(true, foldNative)
	reg("golang.org/x/text/cases.Fold", func(g *G, a []Value) Value {
		return zero(g.ex.w.p.namedType("golang.org/x/text/cases", "Caser"))
	})
	natives["(golang.org/x/text/cases.Caser).Bytes"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s := caseFn(true, foldNative)(g, fn, []Value{g.ex.strFromCells(asSlice(a[1]))})
		return Value{P: g.ex.cellsFromStr(s)}
	}
	reg("strings.EqualFold", func(g *G, a []Value) Value {
		ex := g.ex
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		if ok1 && ok2 {
			return boolVal(strings.EqualFold(x, y))
		}
		if ex.branch(ex.tt.And(ex.allASCII(a[0]), ex.allASCII(a[1]))) {
			return ex.tv(ex.strEq(ex.mapStr(a[0], ex.lowerT), ex.mapStr(a[1], ex.lowerT)))
		}
		return ex.tv(ex.strEq(g.mapRunes(a[0], ex.lowerT, canonRune), g.mapRunes(a[1], ex.lowerT, canonRune)))
	})
	reg("strings.Compare", func(g *G, a []Value) Value { return g.compare(a[0], a[1]) })
	indexAny := func(get func(*G, Value) Value) nativeFn {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			ex := g.ex
			chars, ok := concStr(a[1])
			s := get(g, a[0])
			for i := 0; i < len(chars); i++ {
				ok = ok && chars[i] < 0x80
			}
			if _, conc := concStr(s); conc || !ok {
				return g.interp(fn, a)
			}
			for i := 0; i < strLen(s); i++ {
				t := ex.tt.ff
				for j := 0; j < len(chars); j++ {
					t = ex.tt.Or(t, ex.tt.Bin(opEq, ex.byteTerm(s, i), ex.tt.Const(uint64(chars[j]), 8)))
				}
				if ex.branch(t) {
					return intVal(i)
				}
			}
			return intVal(-1)
		}
	}
	natives["strings.IndexAny"] = indexAny(func(g *G, v Value) Value { return v })
	natives["bytes.IndexAny"] = indexAny(func(g *G, v Value) Value { return g.ex.strFromCells(asSlice(v)) })
	idx := func(g *G, s Value, c Value) Value {
		ex := g.ex
		if x, ok := concStr(s); ok && c.P == nil {
			return intVal(strings.IndexByte(x, byte(c.N)))
		}
		n := strLen(s)
		ct := ex.term(c, 8)
		if x, ok := concStr(s); ok && n <= 64 {
			// a set of characters: the result mostly is compared only
			r := ex.tt.Const(^uint64(0), 64)
			for i := n - 1; i >= 0; i-- {
				r = ex.tt.Ite(ex.tt.Bin(opEq, ct, ex.tt.Const(uint64(x[i]), 8)), ex.tt.Const(uint64(i), 64), r)
			}
			return ex.tv(r)
		}
		for i := 0; i < n; i++ {
			if ex.branch(ex.tt.Bin(opEq, ex.byteTerm(s, i), ct)) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}
	bstr := func(g *G, v Value) Value { return g.ex.strFromCells(asSlice(v)) }
	for _, n := range []string{"strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		reg(n, func(g *G, a []Value) Value { return idx(g, a[0], a[1]) })
	}
	for _, n := range []string{"bytes.IndexByte", "internal/bytealg.IndexByte"} {
		reg(n, func(g *G, a []Value) Value { return idx(g, bstr(g, a[0]), a[1]) })
	}
	lastIdx := func(g *G, s Value, c Value) Value {
		ex := g.ex
		ct := ex.term(c, 8)
		for i := strLen(s) - 1; i >= 0; i-- {
			if ex.branch(ex.tt.Bin(opEq, ex.byteTerm(s, i), ct)) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}
	for _, n := range []string{"strings.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, func(g *G, a []Value) Value { return lastIdx(g, a[0], a[1]) })
	}
	for _, n := range []string{"bytes.LastIndexByte", "internal/bytealg.LastIndexByte"} {
		reg(n, func(g *G, a []Value) Value { return lastIdx(g, bstr(g, a[0]), a[1]) })
	}
	strIdx := func(g *G, s, sep Value) Value {
		ex := g.ex
		x, ok1 := concStr(s)
		y, ok2 := concStr(sep)
		if ok1 && ok2 {
			return intVal(strings.Index(x, y))
		}
		n, m := strLen(s), strLen(sep)
		for i := 0; i+m <= n; i++ {
			if ex.branch(ex.strEq(ex.substr(s, i, i+m), sep)) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}
	for _, n := range []string{"strings.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, func(g *G, a []Value) Value { return strIdx(g, a[0], a[1]) })
	}
	for _, n := range []string{"bytes.Index", "internal/bytealg.Index"} {
		reg(n, func(g *G, a []Value) Value { return strIdx(g, bstr(g, a[0]), bstr(g, a[1])) })
	}
	count := func(g *G, s, c Value) Value {
		ex := g.ex
		k := 0
		ct := ex.term(c, 8)
		for i := 0; i < strLen(s); i++ {
			if ex.branch(ex.tt.Bin(opEq, ex.byteTerm(s, i), ct)) {
				k++
			}
		}
		return intVal(k)
	}
	reg("internal/bytealg.CountString", func(g *G, a []Value) Value { return count(g, a[0], a[1]) })
	reg("internal/bytealg.Count", func(g *G, a []Value) Value { return count(g, bstr(g, a[0]), a[1]) })
	reg("internal/bytealg.MakeNoZero", func(g *G, a []Value) Value {
		n := g.ex.concInt(a[0])
		if n > 1<<22 {
			g.ex.abandon("MakeNoZero too large")
		}
		return Value{P: make([]Value, n)}
	})
	beq := func(g *G, a []Value) Value { return g.ex.tv(g.ex.strEq(bstr(g, a[0]), bstr(g, a[1]))) }
	reg("bytes.Equal", beq)
	reg("internal/bytealg.Equal", beq)
	reg("bytes.Compare", func(g *G, a []Value) Value { return g.compare(bstr(g, a[0]), bstr(g, a[1])) })
	reg("internal/bytealg.Compare", func(g *G, a []Value) Value { return g.compare(bstr(g, a[0]), bstr(g, a[1])) })
	reg("internal/bytealg.CompareString", func(g *G, a []Value) Value { return g.compare(a[0], a[1]) })
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/abi.NoEscape", func(g *G, a []Value) Value { return a[0] })
	reg("strings.Clone", func(g *G, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(g *G, a []Value) Value { return a[0] })
	reg("strings.Repeat", func(g *G, a []Value) Value {
		n := g.ex.concInt(a[1])
		if n < 0 {
			g.fatal("strings: negative Repeat count")
		}
		if s, ok := a[0].P.(string); ok && n > 0 {
			return Value{P: strings.Repeat(s, n)}
		}
		r := Value{}
		for i := 0; i < n; i++ {
			r = g.ex.concat(r, a[0])
		}
		return r
	})
	for _, n := range []string{"(*strings.asciiSet).contains", "(*bytes.asciiSet).contains"} {
		natives[n] = func(g *G, fn *ssa.Function, a []Value) Value {
			t := termOf(a[1])
			set, ok := a[0].P.(*Value).P.([]Value)
			if t == nil || !ok {
				return g.interp(fn, a)
			}
			ex := g.ex
			r := ex.tt.Bool(false)
			for i, w := range set {
				if termOf(w) != nil {
					return g.interp(fn, a)
				}
				// either a bit or a byte per character
				k := 256 / len(set)
				for b := 0; b < k; b++ {
					if w.N&(1<<b) != 0 {
						r = ex.tt.Or(r, ex.tt.Bin(opEq, t, ex.tt.Const(uint64(i*k+b), 8)))
					}
				}
			}
			return ex.tv(r)
		}
	}
	concrete1 := func(n string, f func(string) string) {
		natives[n] = func(g *G, fn *ssa.Function, a []Value) Value {
			s, ok := concStr(a[0])
			if ok {
				return strV(f(s))
			}
			return g.interp(fn, a)
		}
	}
	concrete1("strings.TrimSpace", strings.TrimSpace)
	natives["strings.Split"] = func(g *G, fn *ssa.Function, a []Value) Value {
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		if ok1 && ok2 {
			var r []Value
			for _, s := range strings.Split(x, y) {
				r = append(r, strV(s))
			}
			return Value{P: r}
		}
		return g.interp(fn, a)
	}
	reg("unicode/utf8.ValidString", func(g *G, a []Value) Value {
		if g.ex.branch(g.ex.allASCII(a[0])) {
			return boolVal(true)
		}
		return boolVal(g.ex.branch(g.ex.validUTF8(a[0])))
	})
	reg("unicode/utf8.Valid", func(g *G, a []Value) Value {
		s := bstr(g, a[0])
		if g.ex.branch(g.ex.allASCII(s)) {
			return boolVal(true)
		}
		return boolVal(g.ex.branch(g.ex.validUTF8(s)))
	})
	reg("unicode/utf8.DecodeRuneInString", func(g *G, a []Value) Value {
		if strLen(a[0]) == 0 {
			return tuple(Value{N: 0xfffd}, intVal(0))
		}
		r, n := g.decodeRune(a[0], 0)
		return tuple(r, intVal(n))
	})
	reg("unicode/utf8.DecodeRune", func(g *G, a []Value) Value {
		s := bstr(g, a[0])
		if strLen(s) == 0 {
			return tuple(Value{N: 0xfffd}, intVal(0))
		}
		r, n := g.decodeRune(s, 0)
		return tuple(r, intVal(n))
	})
	reg("crypto/subtle.ConstantTimeCompare", func(g *G, a []Value) Value {
		ex := g.ex
		t := ex.strEq(bstr(g, a[0]), bstr(g, a[1]))
		return ex.tv(ex.tt.Ite(t, ex.tt.Const(1, 64), ex.tt.Const(0, 64)))
	})
	reg("strconv.Itoa", func(g *G, a []Value) Value { return g.decimal(a[0], true, 10) })
	reg("strconv.FormatInt", func(g *G, a []Value) Value { return g.decimal(a[0], true, g.ex.concInt(a[1])) })
	reg("strconv.FormatUint", func(g *G, a []Value) Value { return g.decimal(a[0], false, g.ex.concInt(a[1])) })
	appendNum := func(signed bool) func(g *G, a []Value) Value {
		return func(g *G, a []Value) Value {
			d := g.decimal(a[1], signed, g.ex.concInt(a[2]))
			return g.appendSlice(types.Typ[types.Byte], asSlice(a[0]), g.ex.cellsFromStr(d))
		}
	}
	reg("strconv.AppendInt", appendNum(true))
	reg("strconv.AppendUint", appendNum(false))
	for name, f := range map[string]func(float64) float64{
		"archTrunc": math.Trunc, "archFloor": math.Floor, "archCeil": math.Ceil, "archSqrt": math.Sqrt, "archExp": math.Exp, "archLog": math.Log,
		"Trunc": math.Trunc, "Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt,
	} {
		f := f
		reg("math."+name, func(g *G, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(g.ex.concV(a[0]))))}
		})
	}
	reg("strconv.Quote", func(g *G, a []Value) Value { return g.quoteIf('q', a[0], false) })

	// ---- fmt, errors
	reg("fmt.Sprintf", func(g *G, a []Value) Value {
		s, _ := g.sprintf(a[0], asSlice(a[1]), false)
		return s
	})
	reg("fmt.Sprint", func(g *G, a []Value) Value { return g.sprint(asSlice(a[0]), false) })
	reg("fmt.Sprintln", func(g *G, a []Value) Value { return g.sprint(asSlice(a[0]), true) })
	reg("fmt.Errorf", func(g *G, a []Value) Value {
		s, w := g.sprintf(a[0], asSlice(a[1]), true)
		if w.P != nil {
			T := g.ex.w.p.namedType("fmt", "wrapError")
			return Value{P: &Iface{T: types.NewPointer(T), V: Value{P: &Value{P: []Value{s, w}}}}}
		}
		return g.newError(s)
	})
	reg("fmt.Fprintf", func(g *G, a []Value) Value {
		s, _ := g.sprintf(a[1], asSlice(a[2]), false)
		return g.writeTo(a[0], s)
	})
	reg("fmt.Fprint", func(g *G, a []Value) Value { return g.writeTo(a[0], g.sprint(asSlice(a[1]), false)) })
	reg("fmt.Fprintln", func(g *G, a []Value) Value { return g.writeTo(a[0], g.sprint(asSlice(a[1]), true)) })
	reg("errors.Is", func(g *G, a []Value) Value {
		ex := g.ex
		err, target := a[0], a[1]
		errT := types.Universe.Lookup("error").Type()
		ti, _ := target.P.(*Iface)
		for k := 0; k < 50; k++ {
			i, _ := err.P.(*Iface)
			if i == nil || ti == nil {
				return boolVal(i == nil && ti == nil)
			}
			if types.Comparable(ti.T) && types.Comparable(i.T) && ex.branch(ex.eq(errT, err, target)) {
				return boolVal(true)
			}
			if ex.w.hasMethod(i.T, "Is") {
				r := g.callMethod(err, "Is", target)
				if r.P == nil && r.N != 0 || r.P != nil && ex.branch(r.P.(*Term)) {
					return boolVal(true)
				}
			}
			if !ex.w.hasMethod(i.T, "Unwrap") {
				return boolVal(false)
			}
			err = g.callMethod(err, "Unwrap")
			if _, ok := err.P.([]Value); ok {
				for _, e := range err.P.([]Value) {
					r := natives["errors.Is"](g, nil, []Value{e, target})
					if r.N != 0 {
						return r
					}
				}
				return boolVal(false)
			}
			if err.P == nil {
				return boolVal(false)
			}
		}
		return boolVal(false)
	})
	reg("errors.As", func(g *G, a []Value) Value {
		ex := g.ex
		err := a[0]
		ti, _ := a[1].P.(*Iface)
		if ti == nil {
			g.fatal("errors: target cannot be nil")
		}
		pt := ti.T.Underlying().(*types.Pointer)
		_, isI := pt.Elem().Underlying().(*types.Interface)
		for k := 0; k < 50; k++ {
			i, _ := err.P.(*Iface)
			if i == nil {
				return boolVal(false)
			}
			if isI && ex.w.implements(i.T, pt.Elem()) {
				ex.set(ti.V.P.(*Value), err)
				return boolVal(true)
			}
			if !isI && types.Identical(i.T, pt.Elem()) {
				ex.store(pt.Elem(), ti.V.P.(*Value), i.V)
				return boolVal(true)
			}
			if !ex.w.hasMethod(i.T, "Unwrap") {
				return boolVal(false)
			}
			err = g.callMethod(err, "Unwrap")
			if _, ok := err.P.([]Value); ok {
				for _, e := range err.P.([]Value) {
					r := natives["errors.As"](g, nil, []Value{e, a[1]})
					if r.N != 0 {
						return r
					}
				}
				return boolVal(false)
			}
		}
		return boolVal(false)
	})

	// ---- reflect (the little that is used)
	reg("reflect.ValueOf", func(g *G, a []Value) Value { return Value{P: []Value{{}, {P: a[0].P}, {}}} })
	reg("(reflect.Value).Interface", func(g *G, a []Value) Value { return Value{P: a[0].P.([]Value)[1].P} })
	natives["(reflect.Value).IsNil"] = func(g *G, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].P.([]Value)[1].P.(*Iface)
		return boolVal(i == nil || i.V.P == nil)
	}
	reg("reflect.DeepEqual", func(g *G, a []Value) Value { return natives[symPath+".DeepEqual"](g, nil, a) })

	// ---- sync
	reg("(*sync.Mutex).Lock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		g.yield("lock")
		g.block("Mutex.Lock", func() bool { return !m.locked })
		m.locked = true
		g.acq(m)
		return Value{}
	})
	reg("(*sync.Mutex).TryLock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		g.yield("trylock")
		if m.locked {
			return boolVal(false)
		}
		m.locked = true
		g.acq(m)
		return boolVal(true)
	})
	reg("(*sync.Mutex).Unlock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		if !m.locked {
			g.fatal("sync: unlock of unlocked mutex")
		}
		m.locked = false
		g.rel(m)
		g.yield("unlock")
		return Value{}
	})
	reg("(*sync.RWMutex).Lock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		g.yield("lock")
		g.block("RWMutex.Lock", func() bool { return !m.locked && m.readers == 0 })
		m.locked = true
		g.acq(m)
		g.acq(rkey{m})
		return Value{}
	})
	reg("(*sync.RWMutex).Unlock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		if !m.locked {
			g.fatal("sync: Unlock of unlocked RWMutex")
		}
		m.locked = false
		g.rel(m)
		g.yield("unlock")
		return Value{}
	})
	reg("(*sync.RWMutex).RLock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		g.yield("rlock")
		g.block("RWMutex.RLock", func() bool { return !m.locked })
		m.readers++
		g.acq(m)
		return Value{}
	})
	reg("(*sync.RWMutex).RUnlock", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		if m.readers == 0 {
			g.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		g.rel(rkey{m})
		g.yield("runlock")
		return Value{}
	})
	reg("(*sync.Once).Do", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		g.yield("once")
		g.block("Once.Do", func() bool { return !m.locked })
		if m.readers > 0 {
			g.acq(m)
			return Value{}
		}
		m.locked = true
		defer func() { m.locked = false; m.readers = 1; g.rel(m) }()
		g.callValue(a[1], nil)
		return Value{}
	})
	reg("(*sync.WaitGroup).Add", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		m.readers += int(int64(g.ex.concV(a[1])))
		if m.readers < 0 {
			g.fatal("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		m.readers--
		if m.readers < 0 {
			g.fatal("sync: negative WaitGroup counter")
		}
		g.rel(m)
		g.yield("wgdone")
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(g *G, a []Value) Value {
		m := g.mu(a[0])
		g.yield("wgwait")
		g.block("WaitGroup.Wait", func() bool { return m.readers == 0 })
		g.acq(m)
		return Value{}
	})
	reg("(*sync.Pool).Get", func(g *G, a []Value) Value {
		c := a[0].P.(*Value)
		fs := c.P.([]Value)
		nf := fs[len(fs)-1]
		if nf.P == nil {
			return Value{}
		}
		return g.callValue(nf, nil)
	})
	reg("(*sync.Pool).Put", nop)
	// sync.Map as a plain map in side storage
	anyT := types.NewInterfaceType(nil, nil)
	sm := func(g *G, p Value) *Map {
		k := p.P.(*Value)
		m, _ := g.ex.side[k].(*Map)
		if m == nil {
			w := g.ex.w
			b, _ := w.base[k].(*Map)
			if w.initing > 0 {
				if b == nil {
					b = newMap()
					w.base[k] = b
				}
				return b
			}
			m = newMap()
			if b != nil {
				for _, e := range b.ents {
					if !e.dead {
						g.ex.mapSet(m, anyT, e.k, e.v)
					}
				}
			}
			g.ex.side[k] = m
		}
		return m
	}
	reg("(*sync.Map).Load", func(g *G, a []Value) Value {
		g.syncCell(a[0], "syncmap")
		e := g.ex.mapFind(sm(g, a[0]), anyT, a[1])
		if e == nil {
			return tuple(Value{}, boolVal(false))
		}
		return tuple(e.v, boolVal(true))
	})
	reg("(*sync.Map).Store", func(g *G, a []Value) Value {
		g.syncCell(a[0], "syncmap")
		g.ex.mapSet(sm(g, a[0]), anyT, a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).LoadOrStore", func(g *G, a []Value) Value {
		g.syncCell(a[0], "syncmap")
		e := g.ex.mapFind(sm(g, a[0]), anyT, a[1])
		if e != nil {
			return tuple(e.v, boolVal(true))
		}
		g.ex.mapSet(sm(g, a[0]), anyT, a[1], a[2])
		return tuple(a[2], boolVal(false))
	})
	reg("(*sync.Map).Delete", func(g *G, a []Value) Value {
		g.syncCell(a[0], "syncmap")
		g.ex.mapDelete(sm(g, a[0]), anyT, a[1])
		return Value{}
	})
	reg("(*sync.Map).LoadAndDelete", func(g *G, a []Value) Value {
		g.syncCell(a[0], "syncmap")
		e := g.ex.mapFind(sm(g, a[0]), anyT, a[1])
		if e == nil {
			return tuple(Value{}, boolVal(false))
		}
		v := e.v
		g.ex.mapDelEnt(sm(g, a[0]), anyT, e)
		return tuple(v, boolVal(true))
	})
	reg("(*sync.Map).Range", func(g *G, a []Value) Value {
		g.syncCell(a[0], "syncmap")
		for _, e := range append([]*mapEnt(nil), sm(g, a[0]).ents...) {
			if e.dead {
				continue
			}
			r := g.callValue(a[1], []Value{e.k, e.v})
			if r.N == 0 && r.P == nil {
				break
			}
		}
		return Value{}
	})

	// ---- sync/atomic
	cell := func(g *G, v Value) *Value {
		c, ok := v.P.(*Value)
		if !ok {
			g.nilPanic(v)
		}
		return c
	}
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 64}} {
		ty := ty
		reg(atomicName("Load"+ty.n), func(g *G, a []Value) Value { g.syncCell(a[0], "atomic"); return *cell(g, a[0]) })
		reg(atomicName("Store"+ty.n), func(g *G, a []Value) Value {
			g.syncCell(a[0], "atomic")
			g.ex.set(cell(g, a[0]), a[1])
			return Value{}
		})
		reg(atomicName("Swap"+ty.n), func(g *G, a []Value) Value {
			g.syncCell(a[0], "atomic")
			o := *cell(g, a[0])
			g.ex.set(cell(g, a[0]), a[1])
			return o
		})
		reg(atomicName("Add"+ty.n), func(g *G, a []Value) Value {
			g.syncCell(a[0], "atomic")
			c := cell(g, a[0])
			var n Value
			if c.P == nil && a[1].P == nil {
				n = Value{N: (c.N + a[1].N) & mask(ty.w)}
			} else {
				n = g.ex.tv(g.ex.tt.Bin(opAdd, g.ex.term(*c, ty.w), g.ex.term(a[1], ty.w)))
			}
			g.ex.set(c, n)
			return n
		})
		reg(atomicName("CompareAndSwap"+ty.n), func(g *G, a []Value) Value {
			g.syncCell(a[0], "atomic")
			c := cell(g, a[0])
			var same bool
			if ty.n == "Pointer" {
				same = samePtr(*c, a[1])
			} else if c.P == nil && a[1].P == nil {
				same = c.N == a[1].N
			} else {
				same = g.ex.branch(g.ex.tt.Bin(opEq, g.ex.term(*c, ty.w), g.ex.term(a[1], ty.w)))
			}
			if same {
				g.ex.set(c, a[2])
			}
			return boolVal(same)
		})
	}
	reg("(*sync/atomic.Value).Load", func(g *G, a []Value) Value {
		g.syncCell(a[0], "atomic")
		return cell(g, a[0]).P.([]Value)[0]
	})
	reg("(*sync/atomic.Value).Store", func(g *G, a []Value) Value {
		g.syncCell(a[0], "atomic")
		if a[1].P == nil {
			g.fatal("sync/atomic: store of nil value into Value")
		}
		g.ex.set(&cell(g, a[0]).P.([]Value)[0], a[1])
		return Value{}
	})
	reg("(*sync/atomic.Value).Swap", func(g *G, a []Value) Value {
		g.syncCell(a[0], "atomic")
		o := cell(g, a[0]).P.([]Value)[0]
		g.ex.set(&cell(g, a[0]).P.([]Value)[0], a[1])
		return o
	})

	// ---- time
	timeT := func(g *G) Value {
		// seconds since year 1 in ext, wall 0: a fixed date plus the virtual clock
		ns := g.ex.now
		return Value{P: []Value{{N: ns % 1000000000}, {N: uint64(63800000000) + ns/1000000000}, {}}}
	}
	reg("time.Now", func(g *G, a []Value) Value { return timeT(g) })
	reg("time.Since", func(g *G, a []Value) Value { return Value{N: 1000} })
	reg("time.runtimeNano", func(g *G, a []Value) Value { return Value{N: g.ex.now + 1} })
	newTimeChan := func(g *G) *Chan {
		return &Chan{cap: 1, elem: g.ex.w.p.namedType("time", "Time")}
	}
	reg("time.After", func(g *G, a []Value) Value {
		c := newTimeChan(g)
		g.ex.addTimer(g.ex.concV(a[0]), func() { g.doSend(c, timeT(g)) })
		return Value{P: c}
	})
	reg("time.Sleep", func(g *G, a []Value) Value {
		f := false
		g.ex.addTimer(g.ex.concV(a[0]), func() { f = true })
		g.block("sleep", func() bool { return f })
		return Value{}
	})
	reg("time.NewTimer", func(g *G, a []Value) Value {
		c := newTimeChan(g)
		T := g.ex.w.p.namedType("time", "Timer")
		t := &Value{}
		*t = zero(T)
		t.P.([]Value)[0] = Value{P: c}
		g.ex.side[t] = g.ex.addTimer(g.ex.concV(a[0]), func() {
			if len(c.buf) == 0 {
				g.doSend(c, timeT(g))
			}
		})
		return Value{P: t}
	})
	reg("time.AfterFunc", func(g *G, a []Value) Value {
		T := g.ex.w.p.namedType("time", "Timer")
		t := &Value{}
		*t = zero(T)
		f := a[1]
		g.ex.side[t] = g.ex.addTimer(g.ex.concV(a[0]), func() { g.ex.spawn(f, nil) })
		return Value{P: t}
	})
	reg("(*time.Timer).Stop", func(g *G, a []Value) Value {
		t, _ := g.ex.side[cell(g, a[0])].(*timer)
		if t == nil || t.dead {
			return boolVal(false)
		}
		t.dead = true
		return boolVal(true)
	})
	reg("(*time.Timer).Reset", func(g *G, a []Value) Value {
		t, _ := g.ex.side[cell(g, a[0])].(*timer)
		if t == nil {
			return boolVal(false)
		}
		was := !t.dead
		t.dead = true
		g.ex.side[cell(g, a[0])] = g.ex.addTimer(g.ex.concV(a[1]), t.fire)
		return boolVal(was)
	})

	// ---- runtime, os
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.PrintStack", "runtime/debug.FreeOSMemory", "internal/runtime/sys.Prefetch"} {
		reg(n, nop)
	}
	reg("runtime.Gosched", func(g *G, a []Value) Value { g.yield("gosched"); return Value{} })
	reg("runtime/debug.Stack", func(g *G, a []Value) Value { return cells("stack") })
	reg("runtime.Stack", func(g *G, a []Value) Value { return intVal(0) })
	reg("runtime.NumCPU", func(g *G, a []Value) Value { return intVal(4) })
	reg("runtime.NumGoroutine", func(g *G, a []Value) Value { return intVal(1) })
	reg("runtime.Caller", func(g *G, a []Value) Value { return tuple(Value{}, Value{}, Value{}, Value{}) })
	reg("os.Getpid", func(g *G, a []Value) Value { return intVal(1) })
	reg("os.runtime_args", nop)
	reg("syscall.runtime_envs", nop)
	reg("os.runtime_beforeExit", nop)
	sy("Died", func(g *G, a []Value) Value {
		g.ex.violation("exit", fmt.Sprintf("process exit %d", int(a[0].N)), g.stackStr(), nil)
		panic(pathEnd{"done", ""})
	})
	reg("os.NewFile", func(g *G, a []Value) Value {
		c := &Value{}
		*c = zero(g.ex.w.p.namedType("os", "File"))
		return Value{P: c}
	})

	// ---- sort.Slice
	sortSlice := func(g *G, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return Value{}
		}
		s := asSlice(i.V)
		eT := i.T.Underlying().(*types.Slice).Elem()
		for k := 1; k < len(s); k++ {
			for j := k; j > 0; j-- {
				r := g.callValue(a[1], []Value{intVal(j), intVal(j - 1)})
				lt := r.N != 0
				if t := termOf(r); t != nil {
					lt = g.ex.branch(t)
				}
				if !lt {
					break
				}
				x, y := copyAgg(eT, s[j]), copyAgg(eT, s[j-1])
				g.ex.store(eT, &s[j], y)
				g.ex.store(eT, &s[j-1], x)
			}
		}
		return Value{}
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- gob
	reg("encoding/gob.NewEncoder", func(g *G, a []Value) Value {
		c := &Value{}
		*c = zero(g.ex.w.p.namedType("encoding/gob", "Encoder"))
		g.ex.side[c] = a[0]
		return Value{P: c}
	})
	reg("encoding/gob.NewDecoder", func(g *G, a []Value) Value {
		c := &Value{}
		*c = zero(g.ex.w.p.namedType("encoding/gob", "Decoder"))
		g.ex.side[c] = a[0]
		return Value{P: c}
	})
	reg("encoding/gob.Register", nop)
	type gobEnt struct {
		T types.Type
		V Value
	}
	reg("(*encoding/gob.Encoder).Encode", func(g *G, a []Value) Value {
		ex := g.ex
		i, _ := a[1].P.(*Iface)
		if i == nil {
			g.fatal("gob: cannot encode nil")
		}
		T, v := i.T, i.V
		for {
			p, ok := T.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			c, ok := v.P.(*Value)
			if !ok {
				g.fatal("gob: cannot encode nil pointer")
			}
			T, v = p.Elem(), *c
		}
		n, _ := ex.side["gob#n"].(int)
		ex.side["gob#n"] = n + 1
		tok := fmt.Sprintf("gob%05d", n)
		ex.side["gob:"+tok] = gobEnt{T, ex.deepCopy(T, v, true)}
		w := ex.side[a[0].P.(*Value)].(Value)
		r := g.callMethod(w, "Write", cells(tok))
		return r.P.([]Value)[1]
	})
	reg("(*encoding/gob.Decoder).Decode", func(g *G, a []Value) Value {
		ex := g.ex
		rd := ex.side[a[0].P.(*Value)].(Value)
		buf := make([]Value, 8)
		n := 0
		for n < 8 {
			r := g.callMethod(rd, "Read", Value{P: buf[n:]}).P.([]Value)
			n += ex.concInt(r[0])
			if r[1].P != nil {
				if n < 8 {
					if n == 0 {
						return r[1]
					}
					return g.newError(strV("gob: unexpected EOF"))
				}
				break
			}
			if ex.concInt(r[0]) == 0 {
				return g.newError(strV("gob: no progress"))
			}
		}
		tok, ok := concStr(ex.strFromCells(buf))
		if !ok {
			tok = ex.concStrFork(ex.strFromCells(buf))
		}
		e, ok := ex.side["gob:"+tok].(gobEnt)
		if !ok {
			return g.newError(strV("gob: bad data"))
		}
		i, _ := a[1].P.(*Iface)
		if i == nil {
			return Value{}
		}
		p, okp := i.T.Underlying().(*types.Pointer)
		if !okp {
			return g.newError(strV("gob: attempt to decode into a non-pointer"))
		}
		if !types.Identical(p.Elem(), e.T) {
			// pointer to pointer, or a different type
			if pp, ok := p.Elem().Underlying().(*types.Pointer); ok && types.Identical(pp.Elem(), e.T) {
				c := &Value{}
				*c = ex.deepCopy(e.T, e.V, true)
				ex.set(i.V.P.(*Value), Value{P: c})
				return Value{}
			}
			return g.newError(strV("gob: type mismatch"))
		}
		ex.store(e.T, i.V.P.(*Value), ex.deepCopy(e.T, e.V, true))
		return Value{}
	})

	// ---- ideal cryptography
	sha := func(g *G, in Value) string {
		if c, ok := concStr(in); ok && len(g.ex.hashes) == 0 {
			s := sha1.Sum([]byte(c))
			return string(s[:])
		}
		h := g.idealHash("sha1", in, "")
		s := sha1.Sum([]byte("ideal " + h))
		if c, ok := concStr(in); ok && h == "c:"+c {
			s = sha1.Sum([]byte(c))
		}
		return string(s[:])
	}
	reg("crypto/sha1.New", func(g *G, a []Value) Value {
		T := g.ex.w.p.namedType("crypto/sha1", "digest")
		c := &Value{}
		*c = zero(T)
		g.ex.side[c] = Value{}
		return Value{P: &Iface{T: types.NewPointer(T), V: Value{P: c}}}
	})
	reg("(*crypto/sha1.digest).Write", func(g *G, a []Value) Value {
		c := a[0].P.(*Value)
		old, _ := g.ex.side[c].(Value)
		g.ex.side[c] = g.ex.concat(old, bstr(g, a[1]))
		return tuple(intVal(len(asSlice(a[1]))), Value{})
	})
	reg("(*crypto/sha1.digest).Reset", func(g *G, a []Value) Value {
		g.ex.side[a[0].P.(*Value)] = Value{}
		return Value{}
	})
	reg("(*crypto/sha1.digest).Sum", func(g *G, a []Value) Value {
		in, _ := g.ex.side[a[0].P.(*Value)].(Value)
		out := sha(g, in)
		return g.appendSlice(types.Typ[types.Uint8], asSlice(a[1]), cells(out).P.([]Value))
	})
	reg("crypto/sha1.Sum", func(g *G, a []Value) Value { return cells(sha(g, bstr(g, a[0]))) })

	reg("crypto/internal/constanttime.boolToUint8", func(g *G, a []Value) Value {
		if t := termOf(a[0]); t != nil {
			return g.ex.tv(g.ex.tt.Ite(t, g.ex.tt.Const(1, 8), g.ex.tt.Const(0, 8)))
		}
		return a[0]
	})
	reg("golang.org/x/crypto/argon2.IDKey", func(g *G, a []Value) Value {
		ex := g.ex
		t, m, p, n := ex.concV(a[2]), ex.concV(a[3]), ex.concV(a[4]), int(ex.concV(a[5]))
		if t < 1 || p < 1 {
			panic(&goPanic{v: Value{P: &Iface{T: types.Typ[types.String], V: strV("argon2: parameter too small")}}, msg: "argon2: parameter too small", stack: g.stackStr()})
		}
		if n == 0 {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		in := ex.concat(ex.concat(bstr(g, a[1]), strV(fmt.Sprintf("\x00%d %d %d %d\x00", t, m, p, n))), bstr(g, a[0]))
		h := g.idealHash("argon2", in, "")
		out := ""
		for i := 0; len(out) < n; i++ {
			s := sha1.Sum([]byte(fmt.Sprintf("argon2 %d %s", i, h)))
			out += string(s[:])
		}
		return cells(out[:n])
	})
	reg("github.com/amoghe/go-crypt.Crypt", func(g *G, a []Value) Value {
		ex := g.ex
		// C strings end at the first zero byte
		cstr := func(s Value) Value {
			for i := 0; i < strLen(s); i++ {
				if ex.branch(ex.tt.Bin(opEq, ex.byteTerm(s, i), ex.tt.Const(0, 8))) {
					return ex.substr(s, 0, i)
				}
			}
			return s
		}
		salt := cstr(a[1])
		n := strLen(salt)
		if n < 2 {
			return tuple(Value{}, g.newError(strV("invalid argument")))
		}
		prefix := ex.substr(salt, 0, 2)
		if ex.branch(ex.tt.Bin(opEq, ex.byteTerm(salt, 0), ex.tt.Const('$', 8))) {
			// $id$salt[$...], $id$rounds=number$salt[$...]
			k, end, parts := 0, n, 3
			if n > 10 && ex.branch(ex.strEq(ex.substr(salt, 3, 10), strV("rounds="))) {
				parts = 4
			}
			for i := 0; i < n; i++ {
				if ex.branch(ex.tt.Bin(opEq, ex.byteTerm(salt, i), ex.tt.Const('$', 8))) {
					k++
					if k == parts {
						end = i
						break
					}
				}
			}
			if k < 2 {
				return tuple(Value{}, g.newError(strV("invalid argument")))
			}
			prefix = ex.concat(ex.substr(salt, 0, end), strV("$"))
		}
		in := ex.concat(ex.concat(prefix, strV("\x00")), cstr(a[0]))
		h := sha1.Sum([]byte("crypt " + g.idealHash("crypt", in, "")))
		return tuple(ex.concat(prefix, strV(base64.RawURLEncoding.EncodeToString(h[:])[:11])), Value{})
	})
	reg("crypto/rand.Int", func(g *G, a []Value) Value {
		ex := g.ex
		// fresh symbolic value in [0,max)
		mx := a[1].P.(*Value).P.([]Value)
		abs := asSlice(mx[1])
		if len(abs) != 1 {
			ex.abandon("rand.Int with large bound")
		}
		max := ex.concV(abs[0])
		v := ex.tt.NewVar(ex.key("rand"), 64)
		if ex.tt.model[v.val] >= max {
			ex.tt.model[v.val] = 0
			ex.tt.gen++
		}
		ex.assumeTerm(ex.tt.Bin(opUlt, v, ex.tt.Const(max, 64)))
		c := &Value{P: []Value{{}, {P: []Value{{P: v}}}}}
		return tuple(Value{P: c}, Value{})
	})
	rread := func(g *G, a []Value) Value {
		b := asSlice(a[len(a)-1])
		for i := range b {
			g.ex.randCtr++
			g.ex.set(&b[i], Value{N: uint64(byte(g.ex.randCtr * 37))})
		}
		return tuple(intVal(len(b)), Value{})
	}
	reg("crypto/rand.Read", rread)
	reg("(*crypto/rand.reader).Read", rread)
	_ = sort.Strings
}

// idealHash returns the identity of the equivalence class of in: equal inputs
// get equal results, different inputs different ones.
func (g *G) idealHash(kind string, in Value, aux string) string {
	ex := g.ex
	for _, h := range ex.hashes {
		if h.kind == kind && strLen(h.in) == strLen(in) {
			if ex.branch(ex.strEq(h.in, in)) {
				return h.out
			}
		}
	}
	out := fmt.Sprintf("s:%s:%d", kind, len(ex.hashes))
	if c, ok := concStr(in); ok {
		out = "c:" + c
	}
	ex.hashes = append(ex.hashes, hashEnt{kind: kind, in: in, out: out})
	return out
}

func (g *G) compare(a, b Value) Value {
	ex := g.ex
	lt := ex.strLess(a, b, false)
	eq := ex.strEq(a, b)
	return ex.tv(ex.tt.Ite(lt, ex.tt.Const(^uint64(0), 64), ex.tt.Ite(eq, ex.tt.Const(0, 64), ex.tt.Const(1, 64))))
}

// interp runs the real body of a function that has a native fast path.
func (g *G) interp(fn *ssa.Function, args []Value) Value {
	p := g.ex.w.p
	if c, ok := p.raw.Load(fn); ok {
		return g.callCode(c.(*Code), args, nil)
	}
	p.mu.Lock()
	c := p.compileRaw(fn)
	p.mu.Unlock()
	p.raw.Store(fn, c)
	return g.callCode(c, args, nil)
}

// foldNative is the Unicode full case folding used by x/text cases.Fold for
// concrete non-ASCII text (ASCII text never gets here symbolically).
func foldNative(s string) string {
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
		}
	}
	if ascii {
		return strings.ToLower(s)
	}
	return foldUnicode(s)
}
