package hldif

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/filt"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// attr is the name of an attribute that is indexed for everything, for equality only,
// and not at all; its first letter may be of either case.
func attr(n string) string {
	t := []string{"cn", "objectClass", "zz", "uid"}[sym.Choice(n+" attribute", sym.Param("types", 4))]
	if sym.Param("case", 1) == 0 {
		return t
	}
	c := string(t[0])
	return sym.StringIn(n, 1, c+string(t[0]-32)) + t[1:]
}

func lines(e *ldap.Entry) string {
	s := "dn: " + e.DN + "\n"
	for _, a := range e.Attributes {
		for _, v := range a.Values {
			s += a.Name + ": " + v + "\n"
		}
	}
	return s + "\n"
}

func values(n string) []string {
	var vs []string
	for i := sym.Param("values", 1); i > 0; i-- {
		if sym.Param("long", 0) == 1 {
			vs = append(vs, sym.StringIn(n, 1, app.Letters)+"Ong"+sym.StringIn(n, 1, app.Letters))
			continue
		}
		vs = append(vs, sym.StringIn(n, 1+sym.Choice(n+" length", sym.Param("vlen", 2)), app.Letters))
	}
	return vs
}

// check compares a search result with the entries that should be in it.
func check(res []wire.Resp, es []*ldap.Entry, want []bool) {
	n := 0
	for _, r := range res {
		hit := false
		for i, e := range es {
			hit = sym.Or(hit, sym.And(sym.FoldEq(r.DN, e.DN), want[i]))
		}
		sym.Assert(hit, "entry delivered does not match")
	}
	for i, e := range es {
		k := 0
		for _, r := range res {
			k = sym.Ite(sym.FoldEq(r.DN, e.DN), k+1, k)
		}
		sym.Assert(k == sym.Ite(want[i], 1, 0), "matching entry not delivered once")
		n += k
	}
	if len(res) > 0 {
		sym.Cover("match")
	} else {
		sym.Cover("no match")
	}
}

// Filter: exactly the matching entries are delivered, indexed or not.
func Filter() {
	es := []*ldap.Entry{
		{DN: "o=b", Attributes: []*ldap.EntryAttribute{{Name: "o", Values: []string{"b"}}}},
		{DN: "ou=p,o=b", Attributes: []*ldap.EntryAttribute{{Name: attr("type"), Values: values("value")}}},
		{DN: "ou=q,ou=p,o=b", Attributes: []*ldap.EntryAttribute{{Name: "objectClass", Values: []string{"x"}}, {Name: "cn", Values: []string{"Bb"}}, {Name: "zz", Values: []string{"bB"}}}},
	}
	main := ""
	for _, e := range es {
		main += lines(e)
	}
	s := app.LDIF(base, "", true, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	f := filt.Sym(sym.Param("depth", 0), attr)
	res, ok := c.Do(wire.Msg(2, wire.Search("O=b", 2, 0, false, f.Enc)))
	sym.Assert(ok, "search is not answered")
	last := res[len(res)-1]
	if f.Unknown {
		sym.Cover("unsupported")
		for _, r := range res[:len(res)-1] {
			for _, e := range es {
				sym.Assert(sym.Implies(r.DN == e.DN, f.Eval(e).T), "unsupported filter lets an entry through")
			}
		}
		s.Stop()
		return
	}
	sym.Assert(last.Code == 0, "search fails")
	var want []bool
	for _, e := range es {
		want = append(want, f.Eval(e).T)
	}
	check(res[:len(res)-1], es, want)
	s.Stop()
}

func letter(n string) string { return sym.StringIn(n, 1, app.Letters) }

// under reports whether dn lies in the scope of base; both are lists of
// components written as type and value.
func under(dn, base []string, scope int) bool {
	d := len(dn) - len(base)
	if d < 0 || scope == 0 && d != 0 || scope == 1 && d != 1 {
		return false
	}
	r := true
	for i, b := range base {
		r = sym.And(r, sym.FoldEq(dn[d+i], b))
	}
	return r
}

func join(cs []string) string {
	s := cs[0]
	for _, c := range cs[1:] {
		s += "," + c
	}
	return s
}

// Scope: exactly the entries in the scope are delivered, wherever the search
// starts, with and without an index.
func Scope() {
	root := []string{"o=b"}
	names := [][]string{root, {"ou=" + letter("name"), "o=b"}}
	for len(names) < sym.Param("n", 3) {
		p := names[sym.Choice("parent", len(names))]
		names = append(names, append([]string{"ou=" + letter("name")}, p...))
	}
	names = append(names, []string{"ou=p", "oo=b"})
	for i := range names {
		for j := 0; j < i; j++ {
			sym.Assume(len(names[i]) != len(names[j]) || !sym.FoldEq(join(names[i]), join(names[j])))
		}
	}
	main := ""
	var es []*ldap.Entry
	for _, n := range names {
		e := &ldap.Entry{DN: join(n), Attributes: []*ldap.EntryAttribute{{Name: "uid", Values: []string{"x"}}, {Name: "cn", Values: []string{"x"}}}}
		es = append(es, e)
		main += lines(e)
	}
	s := app.LDIF(base, "", true, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	at := []string{sym.StringIn("base", 1, "oO") + "=b"}
	for k := sym.Choice("base depth", 3); k > 0; k-- {
		t := "ou="
		if k == 1 {
			t = []string{"ou=", "u=", "oou="}[sym.Choice("base type", 3)]
		}
		at = append([]string{t + letter("base")}, at...)
	}
	scope := sym.Choice("scope", 3)
	f := []string{wire.Eq("uid", "X"), wire.Present("uid"), wire.Present("cn"), wire.Eq("cn", "x")}[sym.Choice("filter", 4)]
	res, ok := c.Do(wire.Msg(2, wire.Search(join(at), scope, 0, false, f)))
	sym.Assert(ok, "search is not answered")
	var want []bool
	any := false
	for _, n := range names {
		w := under(n, at, scope)
		any = sym.Or(any, w)
		want = append(want, w)
	}
	sym.Assert(sym.Implies(any, res[len(res)-1].Code == 0), "search fails")
	check(res[:len(res)-1], es, want)
	s.Stop()
}
