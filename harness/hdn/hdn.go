// Package hdn: canonical form of distinguished names.
package hdn

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldapdn"
	"github.com/libregraph/idm/zzverif/sym"
)

// Idempotent: a normalised DN is accepted again and normalises to itself.
func Idempotent() {
	n := sym.Param("n", 4)
	s := sym.StringIn("dn", n, "aB=,+ \\\"#;<>c1")
	r, err := ldapdn.ParseNormalize(s)
	sym.Observe("ok", err == nil)
	sym.Observe("r", r)
	if err != nil {
		return
	}
	sym.Cover("parsed")
	r2, err := ldapdn.ParseNormalize(r)
	sym.Assert(err == nil, "normalised DN does not parse")
	sym.Assert(r2 == r, "normalisation is not idempotent")
}

type ava struct{ t, v string }

func build(shape [][]ava) *ldap.DN {
	d := &ldap.DN{}
	for _, r := range shape {
		rdn := &ldap.RelativeDN{}
		for _, a := range r {
			rdn.Attributes = append(rdn.Attributes, &ldap.AttributeTypeAndValue{Type: a.t, Value: a.v})
		}
		d.RDNs = append(d.RDNs, rdn)
	}
	return d
}

func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// symDN is a DN of up to rdns RDNs, the first of which has up to avas parts.
func symDN(rdns, avas, tl, vl int) [][]ava {
	var d [][]ava
	n := 1 + sym.Choice("rdns", rdns)
	for i := 0; i < n; i++ {
		k := 1
		if i == 0 {
			k += sym.Choice("avas", avas)
		}
		var r []ava
		for j := 0; j < k; j++ {
			r = append(r, ava{ascii("type", 1+sym.Choice("tl", tl)), ascii("value", sym.Choice("vl", vl+1))})
		}
		d = append(d, r)
	}
	return d
}

// RoundTrip: the canonical form of a name is a name, and parsing it gives back
// the same types and values up to letter case. Different names therefore have
// different canonical forms.
func RoundTrip() {
	same(symDN(sym.Param("rdns", 2), sym.Param("avas", 2), sym.Param("tl", 1), sym.Param("vl", 2)))
}

// Shapes: the same for more components and parts.
func Shapes() {
	var d [][]ava
	for i := sym.Choice("rdns", sym.Param("rdns", 3)); i >= 0; i-- {
		var r []ava
		for j := sym.Choice("avas", sym.Param("avas", 2)); j >= 0; j-- {
			r = append(r, ava{"cn", sym.StringIn("value", 1, "aB+")})
		}
		d = append(d, r)
	}
	same(d)
}

func same(d [][]ava) {
	s := ldapdn.Normalize(build(d))
	sym.Observe("canonical", s)
	p, err := ldap.ParseDN(s)
	sym.Assert(err == nil, "canonical form does not parse")
	sym.Assert(len(p.RDNs) == len(d), "canonical form has a different number of components")
	ok := true
	for i, r := range d {
		sym.Assert(len(p.RDNs[i].Attributes) == len(r), "canonical form has a different component structure")
		for j, a := range r {
			g := p.RDNs[i].Attributes[j]
			ok = sym.And(ok, g.Type == sym.Lower(a.t), g.Value == sym.Lower(a.v))
		}
	}
	sym.Assert(ok, "canonical form denotes a different name")
	sym.Cover("round trip")
}

const special = ` "#+,;<=>\`

func isSpecial(c byte) bool {
	r := false
	for i := 0; i < len(special); i++ {
		r = sym.Or(r, c == special[i])
	}
	return r
}

const hexd = "0123456789abcdef"
const hexD = "0123456789ABCDEF"

// spell writes one value with an arbitrary choice of case and escaping.
func spell(v string, isType bool) string {
	out := ""
	for i := 0; i < len(v); i++ {
		c := v[i]
		k := 0
		if !isType || sym.Param("types", 1) == 1 {
			k = sym.Choice("escape", 3)
		}
		switch k {
		case 0:
			// verbatim, where that is allowed
			must := sym.Or(c == '"', c == '+', c == ',', c == ';', c == '<', c == '>', c == '\\', c == '#', c == 0)
			if i == 0 || i == len(v)-1 {
				must = sym.Or(must, c == ' ')
			}
			if isType {
				must = sym.Or(must, c == '=')
			}
			sym.Assume(!must)
			x := sym.Byte("verbatim")
			sym.Assume(sym.FoldEq(string([]byte{x}), v[i:i+1]))
			out += string([]byte{x})
		case 1:
			sym.Assume(isSpecial(c))
			out += "\\" + v[i:i+1]
		case 2:
			if sym.Choice("hexcase", 2) == 1 {
				out += "\\" + string([]byte{hexD[c>>4], hexD[c&15]})
			} else {
				out += "\\" + string([]byte{hexd[c>>4], hexd[c&15]})
			}
		}
	}
	return out
}

func spaces(name string) string {
	return []string{"", " ", "  "}[sym.Choice(name, 1+sym.Param("spaces", 2))]
}

// Spellings: two spellings of one name have the same canonical form.
func Spellings() {
	d := symDN(sym.Param("rdns", 1), sym.Param("avas", 1), 1, sym.Param("vl", 2))
	s := ""
	for i, r := range d {
		if i > 0 {
			s += []string{",", ";"}[sym.Choice("sep", 2)]
		}
		for j, a := range r {
			if j > 0 {
				s += "+"
			}
			if l := len(a.v); l > 0 {
				// a dependency mistakes the blank after an escaped
				// backslash for an escaped blank
				sym.Assume(a.v[l-1] != '\\')
			}
			sym.Assume(a.t[len(a.t)-1] != '\\')
			s += spaces("s1") + spell(a.t, true) + spaces("s2") + "=" + spaces("s3") + spell(a.v, false) + spaces("s4")
		}
	}
	sym.Observe("spelling", s)
	got, err := ldapdn.ParseNormalize(s)
	sym.Assert(err == nil, "a valid spelling does not parse")
	sym.Assert(got == ldapdn.Normalize(build(d)), "spellings of one name have different canonical forms")
	sym.Cover("spelled")
}

// Letters: letter case is that of Unicode.
func Letters() {
	p := [][2]string{{"Ä", "ä"}, {"ΣΑΣ", "σας"}, {"\u212a", "k"}, {"Straße", "STRASSE"}, {"ПЁТР", "пётр"}, {"ǅ", "ǆ"}}[sym.Choice("pair", 6)]
	a, b := sym.String("before", sym.Choice("before", 2)), sym.String("after", sym.Choice("after", 2))
	for _, c := range []byte(a + b) {
		sym.Assume(sym.And(c < 0x80, c != '\\'))
	}
	n := ldapdn.Normalize(build([][]ava{{{"cn", a + p[0] + b}}}))
	m := ldapdn.Normalize(build([][]ava{{{"CN", a + p[1] + b}}}))
	sym.Assert(n == m, "letter case makes a difference")
	q, err := ldap.ParseDN(n)
	sym.Assert(err == nil && ldapdn.Normalize(q) == n, "normalisation is not idempotent")
	sym.Observe("canonical", n)
	sym.Cover("folded")
}

// Large: names with many and long components, one part of which is arbitrary.
func Large() {
	var d [][]ava
	for i := 0; i < 7; i++ {
		d = append(d, []ava{{"ou", "Long Value " + string(rune('a'+i))}})
	}
	d = append(d, []ava{{"o", "b"}})
	i := sym.Choice("component", len(d))
	k := 1 + sym.Choice("parts", 5)
	for len(d[i]) < k {
		d[i] = append(d[i], ava{"cn", "X+y"})
	}
	v := ascii("value", 1)
	switch sym.Choice("place", 3) {
	case 0:
		v = "A value" + v
	case 1:
		v += "A value"
	case 2:
		v = "A value" + v + "b value" + ascii("value", 1)
	}
	d[i][k-1].v = v
	same(d)
}
