// Package filt is an independent reading of search filters.
package filt

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const Letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// Truth is a three-valued result.
type Truth struct{ T, F bool }

// Filter is a filter: its encoding and its meaning for an entry.
type Filter struct {
	Enc     string
	Eval    func(e *ldap.Entry) Truth
	Unknown bool // contains unsupported parts
}

func two(b bool) Truth { return Truth{b, sym.Not(b)} }

func hasPrefixAt(v string, i int, p string) bool {
	if i < 0 || i+len(p) > len(v) {
		return false
	}
	return sym.FoldEq(v[i:i+len(p)], p)
}

type part struct {
	kind int // 0 initial, 1 any, 2 final
	s    string
}

// subMatch: v matches the parts from position i on.
func subMatch(v string, i int, ps []part) bool {
	if len(ps) == 0 {
		return true
	}
	p := ps[0]
	switch p.kind {
	case 0:
		return sym.And(hasPrefixAt(v, 0, p.s), subMatch(v, len(p.s), ps[1:]))
	case 2:
		at := len(v) - len(p.s)
		return at >= i && hasPrefixAt(v, at, p.s)
	}
	r := false
	for j := i; j+len(p.s) <= len(v); j++ {
		r = sym.Or(r, sym.And(hasPrefixAt(v, j, p.s), subMatch(v, j+len(p.s), ps[1:])))
	}
	return r
}

func anyValue(e *ldap.Entry, at string, m func(v string) bool) bool {
	r := false
	for _, a := range e.Attributes {
		for _, v := range a.Values {
			r = sym.Or(r, sym.And(sym.FoldEq(a.Name, at), m(v)))
		}
	}
	return r
}

// text is what values are compared with; of several letters if long.
func text(tag, letters string) string {
	if sym.Param("long", 0) == 0 {
		return sym.StringIn(tag, sym.Param("assertion", 1), letters)
	}
	x := sym.StringIn(tag, 1, letters)
	return []string{x + "onG", "oNg" + x, x + "ong" + sym.StringIn(tag, 1, letters)}[sym.Choice(tag+" form", 3)]
}

// Sym makes a filter of at most the given depth.
func Sym(depth int, name func(string) string) Filter {
	n := sym.Param("leaves", 4)
	if depth > 0 {
		n += 3
	}
	kind := sym.Choice("filter", n)
	if n = sym.Param("leaves", 4); kind >= n {
		kind += 4 - n
	}
	if kind >= 4 {
		var ks []Filter
		enc := ""
		k := 1
		if kind < 6 {
			k = 1 + sym.Choice("operands", 2)
		}
		unknown := false
		for i := 0; i < k; i++ {
			f := Sym(depth-1, name)
			ks = append(ks, f)
			enc += f.Enc
			unknown = unknown || f.Unknown
		}
		switch kind {
		case 4:
			return Filter{wire.And(enc), func(e *ldap.Entry) Truth {
				r := Truth{true, false}
				for _, k := range ks {
					x := k.Eval(e)
					r = Truth{sym.And(r.T, x.T), sym.Or(r.F, x.F)}
				}
				return r
			}, unknown}
		case 5:
			return Filter{wire.Or(enc), func(e *ldap.Entry) Truth {
				r := Truth{false, true}
				for _, k := range ks {
					x := k.Eval(e)
					r = Truth{sym.Or(r.T, x.T), sym.And(r.F, x.F)}
				}
				return r
			}, unknown}
		}
		return Filter{wire.Not(enc), func(e *ldap.Entry) Truth {
			x := ks[0].Eval(e)
			return Truth{x.F, x.T}
		}, unknown}
	}
	at := name("filter type")
	switch kind {
	case 0:
		v := text("assertion", Letters+" ")
		return Filter{wire.Eq(at, v), func(e *ldap.Entry) Truth {
			return two(anyValue(e, at, func(x string) bool { return sym.FoldEq(x, v) }))
		}, false}
	case 1:
		return Filter{wire.Present(at), func(e *ldap.Entry) Truth {
			r := false
			for _, a := range e.Attributes {
				r = sym.Or(r, sym.FoldEq(a.Name, at))
			}
			return two(r)
		}, false}
	case 2:
		var ps []part
		enc := ""
		shape := sym.Choice("parts", sym.Param("parts", 7))
		for _, k := range [][]int{{0}, {1}, {2}, {0, 2}, {0, 1}, {1, 2}, {1, 1}, {0, 1, 2}}[shape] {
			v := text("part", Letters)
			ps = append(ps, part{k, v})
			enc += wire.TLV(0x80+byte(k), v)
		}
		return Filter{wire.Sub(at, enc), func(e *ldap.Entry) Truth {
			return two(anyValue(e, at, func(x string) bool { return subMatch(x, 0, ps) }))
		}, false}
	}
	// comparisons nobody supports
	v := text("assertion", Letters)
	op := [](byte){0xa5, 0xa6, 0xa8}[sym.Choice("comparison", 3)]
	return Filter{wire.TLV(op, wire.Octet(at), wire.Octet(v)), func(e *ldap.Entry) Truth { return Truth{} }, true}
}
