package hdb

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/sym"
)

// ava is one "type=value" of a name component.
type ava struct{ typ, val string }

func rdnOf(as []ava) string {
	s := ""
	for i, a := range as {
		if i > 0 {
			s += "+"
		}
		s += a.typ + "=" + a.val
	}
	return s
}

// among says whether the component has the pair (without forking).
func among(as []ava, a ava) bool {
	in := false
	for _, x := range as {
		in = sym.Or(in, sym.And(sym.FoldEq(x.typ, a.typ), sym.FoldEq(x.val, a.val)))
	}
	return in
}

// Rename: name and naming attributes of a renamed entry.
func Rename() {
	db := newDB()
	sym.Assert(db.EntryPut(entry([]string{base}, attrsFor([]string{base}, "x"))) == nil, "adding the base fails")
	val := func(n string) string { return sym.StringIn(n, 1, "aAbBc") }
	old := []ava{{"c", val("old")}}
	if sym.Choice("two", 2) == 1 {
		old = append(old, ava{"d", val("old")})
	}
	have := append([]ava{}, old...)
	for _, t := range []string{"c", "e"} {
		if sym.Choice("more", 2) == 1 {
			a := ava{t, val("more")}
			sym.Assume(sym.Not(among(have, a)))
			have = append(have, a)
		}
	}
	var at []attr
	for _, t := range []string{"c", "d", "e"} {
		var vs []string
		for _, a := range have {
			if a.typ == t {
				vs = append(vs, a.val)
			}
		}
		if len(vs) > 0 {
			at = append(at, attr{t, vs})
		}
	}
	at = append(at, attr{"f", []string{"kept"}})
	sym.Assert(db.EntryPut(entry([]string{rdnOf(old), base}, at)) == nil, "adding a valid entry fails")

	var nw []ava
	for _, t := range [][]string{{"c"}, {"d"}, {"E"}, {"c", "d"}, {"d", "C"}, {"e", "c"}}[sym.Choice("types", sym.Param("types", 6))] {
		nw = append(nw, ava{t, val("new")})
	}
	del := sym.Choice("delete", 2) == 1
	equal := len(nw) == len(old)
	for _, a := range nw {
		equal = sym.And(equal, among(old, a))
	}
	sym.Assume(sym.Not(equal))
	err := db.EntryModifyDN(&ldap.ModifyDNRequest{DN: rdnOf(old) + "," + base, NewRDN: rdnOf(nw), DeleteOldRDN: del})
	sym.Observe("rename", err == nil)
	sym.Assert(err == nil, "rename is refused")

	gone, err := db.Search(rdnOf(old)+","+base, ldap.ScopeBaseObject)
	sym.Assert(len(gone) == 0, "old name still leads to the entry")
	for scope, name := range []string{rdnOf(nw) + "," + base, base, base} {
		got, err := db.Search(name, scope)
		sym.Assert(err == nil, "search fails")
		if scope == 2 {
			sym.Assert(len(got) == 2, "wrong number of entries")
			if got[0].DN == base {
				got = got[1:]
			}
		} else {
			sym.Assert(len(got) == 1, "wrong number of entries")
		}
		p, err := ldap.ParseDN(got[0].DN)
		sym.Assert(err == nil && len(p.RDNs) == 2 && len(p.RDNs[0].Attributes) == len(nw), "invalid name")
		var ns []ava // in any order
		for _, x := range p.RDNs[0].Attributes {
			ns = append(ns, ava{x.Type, x.Value})
		}
		for i := range nw {
			sym.Assert(sym.And(among(ns, nw[i]), among(nw, ns[i])), "wrong name")
		}
		// all that is there must be wanted, once, and all that is wanted there
		var is []ava
		for _, a := range got[0].Attributes {
			for _, v := range a.Values {
				if a.Name == "f" {
					sym.Assert(v == "kept", "other attribute changed")
					continue
				}
				is = append(is, ava{a.Name, v})
			}
		}
		for i, a := range is {
			keep := among(have, a)
			if del {
				keep = sym.And(keep, sym.Not(among(old, a)))
			}
			sym.Assert(sym.Or(keep, among(nw, a)), "value remains that was to go")
			sym.Assert(sym.Not(among(is[:i], a)), "value twice")
		}
		for _, a := range nw {
			sym.Assert(among(is, a), "new name is missing from the attributes")
		}
		for _, a := range have {
			sym.Assert(sym.Or(del, among(is, a)), "value is lost")
			sym.Assert(sym.Or(among(old, a), among(is, a)), "value is lost")
		}
	}
	if del {
		sym.Cover("old removed")
	} else {
		sym.Cover("old kept")
	}
	db.Close()
}
