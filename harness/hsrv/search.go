package hsrv

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/filt"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// Filter: exactly the matching entries are delivered.
func Filter() {
	r, srv, c := start()
	srv.S.EnforceLDAP = true
	e := &ldap.Entry{DN: "cn=x,o=b"}
	for i := sym.Choice("attributes", sym.Param("attributes", 2)+1); i > 0; i-- {
		a := &ldap.EntryAttribute{Name: name("type")}
		for j := 1 + sym.Choice("values", sym.Param("values", 1)); j > 0; j-- {
			a.Values = append(a.Values, sym.StringIn("value", sym.Choice("value length", sym.Param("vlen", 2)+1), letters+" "))
		}
		e.Attributes = append(e.Attributes, a)
	}
	cp := &ldap.Entry{DN: e.DN, Attributes: append([]*ldap.EntryAttribute(nil), e.Attributes...)}
	r.entries = []*ldap.Entry{cp}
	f := filt.Sym(sym.Param("depth", 0), name)
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, false, f.Enc)))
	sym.Assert(ok, "search is not answered")
	want := f.Eval(e)
	got := len(res) == 2
	sym.Assert(len(res) <= 2, "entry delivered twice")
	if f.Unknown {
		sym.Assert(sym.Implies(got, want.T), "unsupported filter lets an entry through")
		sym.Cover("unsupported")
	} else {
		sym.Assert(sym.Iff(got, want.T), "entry delivered does not match, or match not delivered")
		sym.Assert(res[len(res)-1].Code == 0, "search fails")
		if got {
			sym.Cover("match")
		} else {
			sym.Cover("no match")
		}
	}
	srv.Stop()
}

// Scope: exactly the entries in scope are delivered.
func Scope() {
	r, srv, c := start()
	srv.S.EnforceLDAP = true
	// names as lists of components; a component may contain an escaped comma
	comp := func(tag string) string {
		switch sym.Choice(tag+" kind", 3) {
		case 0:
			return "cn=" + name(tag)
		case 1:
			return "xcn=" + name(tag)
		}
		return "cn=" + name(tag) + "\\," + "cn\\=x"
	}
	dn := func(tag string, n int) []string {
		var r []string
		i := sym.Choice(tag+" depth", n+1)
		if i == n {
			return nil
		}
		for ; i > 0; i-- {
			r = append(r, comp(tag))
		}
		return append(r, "o="+name(tag+" root"))
	}
	base := dn("base", sym.Param("base", 2))
	d := dn("entry", sym.Param("entry", 3))
	r.entries = []*ldap.Entry{{DN: join(d), Attributes: []*ldap.EntryAttribute{{Name: "cn", Values: []string{"v"}}}}}
	scope := sym.Choice("scope", 3)
	in := below(d, base)
	switch scope {
	case 0:
		in = sym.And(in, len(d) == len(base))
	case 1:
		in = sym.And(in, len(d) == len(base)+1)
	}
	sep := base
	res, ok := c.Do(wire.Msg(2, wire.Search(join(sep), scope, 0, false, wire.Present("cn"))))
	sym.Assert(ok && len(res) <= 2, "search is not answered")
	sym.Assert(res[len(res)-1].Code == 0, "search fails")
	sym.Assert(sym.Iff(len(res) == 2, in), "entry delivered is out of scope, or entry in scope not delivered")
	if len(res) == 2 {
		sym.Cover([]string{"base", "one", "sub"}[scope])
	} else {
		sym.Cover("out of scope")
	}
	srv.Stop()
}

// Selection: entries carry exactly the requested attributes.
func Selection() {
	r, srv, c := start()
	srv.S.EnforceLDAP = true
	e := &ldap.Entry{DN: "cn=x,o=b"}
	var as []wire.Attr
	for i := sym.Choice("attributes", sym.Param("attributes", 2)+1); i > 0; i-- {
		a := wire.Attr{Name: name("type")}
		for _, o := range as {
			sym.Assume(sym.Not(sym.FoldEq(o.Name, a.Name)))
		}
		for j := 1 + sym.Choice("values", 2); j > 0; j-- {
			a.Vals = append(a.Vals, bytesUpTo("value", 1))
		}
		as = append(as, a)
		e.Attributes = append(e.Attributes, &ldap.EntryAttribute{Name: a.Name, Values: a.Vals})
	}
	r.entries = []*ldap.Entry{e}
	var req []string
	k := sym.Choice("requested", sym.Param("requested", 2)+1)
	for i := 0; i < k; i++ {
		switch sym.Choice("request", 3) {
		case 0:
			req = append(req, name("wanted"))
		case 1:
			req = append(req, "*")
		case 2:
			req = append(req, "1.1")
		}
	}
	types := sym.Choice("types", 2) == 1
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, types, wire.Not(wire.Eq("none", "none")), req...)))
	sym.Assert(ok && len(res) == 2 && res[1].Code == 0, "search fails")
	sym.Assert(res[0].DN == e.DN, "entry with wrong name")
	used := make([]int, len(as))
	for _, g := range res[0].Attrs {
		hit := false
		for i, a := range as {
			same := sym.And(g.Name == a.Name, sameVals(g.Vals, a.Vals))
			if types {
				same = g.Name == a.Name && len(g.Vals) == 0
			}
			hit = sym.Or(hit, same)
			used[i] = sym.Ite(same, used[i]+1, used[i])
		}
		sym.Assert(hit, "entry carries something it does not have")
	}
	for i, a := range as {
		want := len(req) == 0
		for _, q := range req {
			want = sym.Or(want, q == "*", sym.FoldEq(q, a.Name))
		}
		sym.Assert(used[i] == sym.Ite(want, 1, 0), "attribute missing, unwanted or repeated")
		if used[i] == 1 {
			sym.Cover("attribute")
		} else {
			sym.Cover("left out")
		}
	}
	srv.Stop()
}

// Limit: a size limit caps the result.
func Limit() {
	r, srv, c := start()
	srv.S.EnforceLDAP = true
	n := sym.Choice("entries", sym.Param("entries", 3)+1)
	match := 0
	var hits []bool
	for i := 0; i < n; i++ {
		v := name("value")
		m := sym.FoldEq(v, "m")
		match = sym.Ite(m, match+1, match)
		hits = append(hits, m)
		r.entries = append(r.entries, &ldap.Entry{DN: "cn=" + string(rune('a'+i)) + ",o=b", Attributes: []*ldap.EntryAttribute{{Name: "cn", Values: []string{v}}}})
	}
	size := sym.Int("size", 0, sym.Param("size", 4))
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, size, false, wire.Eq("cn", "m"))))
	sym.Assert(ok, "search is not answered")
	over := sym.And(size > 0, match > size)
	sym.Assert(len(res)-1 == sym.Ite(over, size, match), "wrong number of entries")
	sym.Assert(res[len(res)-1].Code == sym.Ite(over, 4, 0), "wrong result code")
	seen := 0
	for i, m := range hits {
		if m && seen < len(res)-1 {
			sym.Assert(res[seen].DN == r.entries[i].DN, "wrong entry")
			seen++
		}
	}
	if over {
		sym.Cover("exceeded")
	} else {
		sym.Cover("within")
	}
	srv.Stop()
}
