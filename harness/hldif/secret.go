package hldif

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/filt"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// cased is s with some letters in either case.
func cased(n, s string) string {
	r := ""
	for i := range s {
		c := s[i : i+1]
		if i == 0 || i == 4 || i == len(s)-1 {
			r += sym.StringIn(n, 1, c+string(c[0]^32))
		} else {
			r += c
		}
	}
	return r
}

func secret(n string) string {
	if sym.Choice(n+" attribute", 2) == 0 {
		return "cn"
	}
	return cased(n, "userPassword")
}

// Secrets: passwords are not delivered and do not count in filters, and users
// of the configuration are not delivered.
func Secrets() {
	v, pw := letter("value"), letter("password")
	es := []*ldap.Entry{
		{DN: "o=b", Attributes: []*ldap.EntryAttribute{{Name: "o", Values: []string{"b"}}}},
		{DN: "ou=p,o=b", Attributes: []*ldap.EntryAttribute{{Name: "cn", Values: []string{v}}}},
	}
	main := lines(es[0])
	if sym.Choice("passwords", 2) == 0 {
		main += rec("ou=p,o=b", cased("stored", "userPassword"), pw, "cn", v)
	} else {
		main += rec("ou=p,o=b", "userPassword", pw, "cn", v, cased("stored", "userPassword"), "x"+pw)
	}
	config := ""
	who := sym.Choice("who", 3)
	if who > 0 {
		config = rec("ou=c,o=b", "cn", v, "userPassword", "pc")
	}
	s := app.LDIF(base, "", true, main, config)
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	if who == 2 {
		sym.Assert(c.One(1, wire.Bind("ou=c,o=b", "pc")).Code == 0, "bind as a user of the configuration fails")
	}
	var req []string
	if f := sym.Choice("requested", 4); f > 0 {
		req = [][]string{{"*"}, {cased("wanted", "userPassword")}, {"cn", "userpassword", "*"}}[f-1]
	}
	f := filt.Sym(sym.Param("depth", 0), secret)
	at, scope := "o=b", 2
	if sym.Param("places", 0) == 1 {
		at = []string{"o=b", "ou=p,o=b", "ou=c,o=b"}[sym.Choice("place", 3)]
		scope = sym.Choice("scope", 3)
	}
	res, ok := c.Do(wire.Msg(2, wire.Search(at, scope, 0, false, f.Enc, req...)))
	sym.Assert(ok, "search is not answered")
	for _, r := range res[:len(res)-1] {
		sym.Assert(!sym.FoldEq(r.DN, "ou=c,o=b"), "user of the configuration delivered")
		for _, a := range r.Attrs {
			sym.Assert(!sym.FoldEq(a.Name, "userPassword"), "password delivered")
			sym.Assert(len(a.Vals) == 1 && (a.Vals[0] == "b" || a.Vals[0] == v), "password delivered in another attribute")
		}
	}
	if f.Unknown || at != "o=b" || scope != 2 {
		s.Stop()
		return
	}
	sym.Assert(res[len(res)-1].Code == 0, "search fails")
	check(res[:len(res)-1], es, []bool{f.Eval(es[0]).T, f.Eval(es[1]).T})
	s.Stop()
}

// Selection: entries carry exactly the requested attributes.
func Selection() {
	e := &ldap.Entry{DN: "ou=p,o=b"}
	n := sym.Choice("attributes", sym.Param("attributes", 2)+1)
	for i := 0; i < n; i++ {
		a := &ldap.EntryAttribute{Name: letter("type")}
		for _, o := range e.Attributes {
			sym.Assume(!sym.FoldEq(o.Name, a.Name))
		}
		for j := 1 + sym.Choice("values", 2); j > 0; j-- {
			a.Values = append(a.Values, letter("value"))
		}
		e.Attributes = append(e.Attributes, a)
	}
	s := app.LDIF(base, "", true, rec(base, "o", "b")+lines(e), "")
	if s == nil {
		sym.Assert(n == 0, "server does not start")
		sym.Stop()
	}
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	var req []string
	for k := sym.Choice("requested", sym.Param("requested", 2)+1); k > 0; k-- {
		switch sym.Choice("request", 3) {
		case 0:
			req = append(req, letter("wanted"))
		case 1:
			req = append(req, "*")
		case 2:
			req = append(req, "1.1")
		}
	}
	types := sym.Choice("types", 2) == 1
	// twice: the first answer must not change the directory
	for i := 0; i < 2; i++ {
		if i == 1 {
			req = nil
		}
		res, ok := c.Do(wire.Msg(2, wire.Search("ou=p,o=b", 0, 0, types, wire.Not(wire.Eq("none", "none")), req...)))
		sym.Assert(ok && len(res) == 2 && res[1].Code == 0, "search fails")
		sym.Assert(sym.FoldEq(res[0].DN, e.DN), "entry with wrong name")
		used := make([]int, n)
		for _, g := range res[0].Attrs {
			hit := false
			for i, a := range e.Attributes {
				same := g.Name == a.Name
				if types {
					same = sym.And(same, len(g.Vals) == 0)
				} else if len(g.Vals) != len(a.Values) {
					same = false
				} else {
					for j, v := range a.Values {
						same = sym.And(same, g.Vals[j] == v)
					}
				}
				hit = sym.Or(hit, same)
				used[i] = sym.Ite(same, used[i]+1, used[i])
			}
			sym.Assert(hit, "entry carries something it does not have")
		}
		for i, a := range e.Attributes {
			want := len(req) == 0
			for _, q := range req {
				want = sym.Or(want, q == "*", sym.FoldEq(q, a.Name))
			}
			sym.Assert(used[i] == sym.Ite(want, 1, 0), "attribute missing, unwanted or repeated")
			if used[i] == 1 {
				sym.Cover("attribute")
			} else {
				sym.Cover("left out")
			}
		}
	}
	s.Stop()
}

// Limit: a size limit caps the result.
func Limit() {
	n := sym.Choice("entries", sym.Param("entries", 3)+1)
	match := 0
	main := rec(base, "o", "b")
	for i := 0; i < n; i++ {
		v := sym.StringIn("value", 1, "mMx")
		match = sym.Ite(sym.FoldEq(v, "m"), match+1, match)
		main += rec("ou="+string(rune('a'+i))+",o=b", "cn", v, "zz", v)
	}
	s := app.LDIF(base, "", true, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	size := sym.Int("size", 0, sym.Param("size", 4))
	f := []string{wire.Eq("cn", "m"), wire.Eq("zz", "m")}[sym.Choice("filter", 2)]
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, size, false, f)))
	sym.Assert(ok, "search is not answered")
	over := sym.And(size > 0, match > size)
	sym.Assert(len(res)-1 == sym.Ite(over, size, match), "wrong number of entries")
	sym.Assert(res[len(res)-1].Code == sym.Ite(over, 4, 0), "wrong result code")
	for i, r := range res[:len(res)-1] {
		for _, o := range res[:i] {
			sym.Assert(r.DN != o.DN, "entry delivered twice")
		}
		for _, a := range r.Attrs {
			sym.Assert(sym.FoldEq(a.Vals[0], "m"), "wrong entry")
		}
	}
	if over {
		sym.Cover("exceeded")
	} else {
		sym.Cover("within")
	}
	s.Stop()
}
