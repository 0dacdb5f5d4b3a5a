package hsrv

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// bytes is a string of arbitrary bytes of symbolic length up to n.
func bytesUpTo(name string, n int) string { return sym.String(name, sym.Choice(name+" length", n+1)) }

func name(n string) string { return sym.StringIn(n, 1, letters) }

func attrs(max, vals int) []wire.Attr {
	var r []wire.Attr
	n := sym.Choice("attributes", max+1)
	for i := 0; i < n; i++ {
		a := wire.Attr{Name: name("type")}
		k := sym.Choice("values", vals+1)
		for j := 0; j < k; j++ {
			a.Vals = append(a.Vals, bytesUpTo("value", 2))
		}
		r = append(r, a)
	}
	return r
}

func sameVals(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

func start() (*rec, *wire.Server, *wire.Conn) {
	r := &rec{}
	srv := wire.Start(serverFor("", r))
	c := srv.Dial(nil)
	sym.Assert(c.One(1, wire.Bind("cn=u,o=b", "pw")).Code == 0, "bind fails")
	return r, srv, c
}

// Write: write requests reach the back-end as encoded.
func Write() {
	r, srv, c := start()
	dn := "cn=" + name("name") + ",o= " + name("base")
	m, vals := sym.Param("attributes", 2), sym.Param("values", 1)
	var op string
	var check func(call) bool
	mayFail := false
	switch sym.Choice("kind", 5) {
	case 0:
		as := attrs(m, vals)
		op = wire.Add(dn, as...)
		check = func(q call) bool {
			if q.op != "add" || len(q.add.Attributes) != len(as) {
				return false
			}
			ok := q.add.DN == dn
			for i, a := range as {
				ok = sym.And(ok, q.add.Attributes[i].Type == a.Name, sameVals(q.add.Attributes[i].Vals, a.Vals))
			}
			return ok
		}
	case 1:
		var cs []wire.Change
		for _, a := range attrs(m, vals) {
			cs = append(cs, wire.Change{Op: sym.Choice("change", 3), Attr: a})
		}
		op = wire.Modify(dn, cs...)
		check = func(q call) bool {
			if q.op != "modify" || len(q.mod.Changes) != len(cs) {
				return false
			}
			ok := q.mod.DN == dn
			for i, a := range cs {
				x := q.mod.Changes[i]
				ok = sym.And(ok, x.Operation == uint(a.Op), x.Modification.Type == a.Name, sameVals(x.Modification.Vals, a.Vals))
			}
			return ok
		}
	case 2:
		op = wire.Del(dn)
		check = func(q call) bool { return q.op == "delete" && q.dn == dn }
	case 3:
		rdn := name("rdn type") + "=" + name("rdn value")
		del := sym.Bool("delete old")
		op = wire.ModifyDN(dn, rdn, del)
		check = func(q call) bool {
			return q.op == "rename" && sym.And(q.ren.DN == dn, q.ren.NewRDN == rdn, q.ren.DeleteOldRDN == del, q.ren.NewSuperior == "")
		}
	case 4: // to another parent: refused, unless the back-end learns of it
		sup := bytesUpTo("superior", 2)
		op = wire.ModifyDNTo(dn, "cn=n", true, sup)
		mayFail = true
		check = func(q call) bool {
			return q.op == "rename" && sym.And(q.ren.DN == dn, q.ren.NewRDN == "cn=n", q.ren.NewSuperior == sup, sup != "")
		}
	}
	n := r.count()
	res := c.One(2, op)
	if mayFail && res.Code != 0 {
		sym.Assert(r.count() == n, "refused request reaches the back-end")
		sym.Cover("refused")
		srv.Stop()
		return
	}
	sym.Assert(res.Code == 0, "request fails")
	sym.Assert(r.count() == n+1, "back-end not called once")
	sym.Assert(check(r.last()), "back-end sees a different request")
	sym.Cover("seen")
	srv.Stop()
}

// BindPassword: names and passwords of binds and password changes reach the
// back-end as encoded.
func BindPassword() {
	r, srv, c := start()
	n := r.count()
	dn := "cn=" + name("name") + ",o= " + name("base")
	old := bytesUpTo("password", 3)
	switch sym.Choice("kind", 2) {
	case 0:
		sym.Assert(c.One(2, wire.Bind(dn, old)).Code == 0, "bind fails")
		sym.Assert(r.count() == n+1, "back-end not called once")
		sym.Assert(sym.And(r.last().dn == dn, r.last().pw == old), "back-end sees a different bind")
		sym.Cover("bind")
	case 1:
		pw := "new"
		who := &dn
		want := dn
		if sym.Choice("own", 2) == 1 {
			who, want = nil, "cn=u,o=b"
		}
		sym.Assert(c.One(2, wire.PwModify(who, &old, &pw)).Code == 0, "password change fails")
		sym.Assert(r.count() == n+1, "back-end not called once")
		q := r.last()
		sym.Assert(sym.And(q.pwm.UserIdentity == want, q.pwm.OldPassword == old), "back-end sees a different request")
		sym.Cover("change")
	}
	srv.Stop()
}

func word(n int) string {
	return wire.TLV(0x02, string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}))
}

// Query: search requests reach the back-end as encoded.
func Query() {
	r, srv, c := start()
	base := name("base type") + "=" + name("base") + ", o=B"
	scope := sym.Choice("scope", 3)
	deref := sym.Choice("deref", 4)
	size := sym.Int("size", 0, 2147483647)
	limit := sym.Int("time", 0, 2147483647)
	types := sym.Bool("types only")
	at := name("attribute")
	var f string
	switch sym.Choice("filter", 9) {
	case 0:
		f = wire.Eq(at, bytesUpTo("assertion", 2))
	case 1:
		f = wire.Present(at)
	case 2:
		f = wire.Sub(at, wire.Initial(sym.String("initial", 1)), wire.Final(sym.String("final", 1)))
	case 3:
		f = wire.Sub(at, wire.Any(sym.String("any", 1)))
	case 4:
		f = wire.And(wire.Present(at), wire.Not(wire.Eq("o", sym.String("assertion", 1))))
	case 5:
		f = wire.Or(wire.Eq(at, "a"), wire.Eq("o", sym.String("assertion", 1)))
	case 6:
		f = wire.TLV(0xa5+byte(sym.Choice("order", 2)), wire.Octet(at), wire.Octet(sym.String("assertion", 1)))
	case 7:
		f = wire.Sub(at, wire.Any("x"), wire.Any(sym.String("any", 1)), wire.Final("y"))
	case 8:
		f = wire.Not(wire.Or(wire.Present(at)))
	}
	var as []string
	l := ""
	for i := sym.Choice("attributes", 3); i > 0; i-- {
		a := bytesUpTo("requested", 1)
		as = append(as, a)
		l += wire.Octet(a)
	}
	op := wire.TLV(0x63, wire.Octet(base), wire.Enum(scope), wire.Enum(deref), word(size), word(limit), wire.Bool(types), f, wire.Seq(l))
	n := r.count()
	sym.Assert(c.One(2, op).Code == 0, "search fails")
	sym.Assert(r.count() == n+1, "back-end not called once")
	q := r.last()
	sym.Assert(q.op == "search", "wrong operation")
	s := q.srch
	sym.Assert(sym.And(s.BaseDN == base, s.Scope == scope, s.DerefAliases == deref, s.SizeLimit == size, s.TimeLimit == limit, s.TypesOnly == types, sameVals(s.Attributes, as)), "back-end sees a different search")
	// the filter is handed over as text; it must denote the filter sent
	p, err := ldap.CompileFilter(s.Filter)
	sym.Assert(err == nil, "back-end gets an invalid filter")
	sym.Assert(string(p.Bytes()) == f, "back-end sees a different filter")
	sym.Cover("seen")
	srv.Stop()
}

// Results: what the back-end answers to a search reaches the client.
func Results() {
	r, srv, c := start()
	var want []wire.Resp
	for i := sym.Choice("entries", sym.Param("entries", 2)+1); i > 0; i-- {
		e := &ldap.Entry{DN: "cn=" + bytesUpTo("name", 2)}
		w := wire.Resp{DN: e.DN}
		for j := sym.Choice("attributes", sym.Param("attributes", 2)+1); j > 0; j-- {
			a := wire.Attr{Name: name("type")}
			for k := sym.Choice("values", sym.Param("values", 2)+1); k > 0; k-- {
				a.Vals = append(a.Vals, bytesUpTo("value", 1))
			}
			w.Attrs = append(w.Attrs, a)
			e.Attributes = append(e.Attributes, &ldap.EntryAttribute{Name: a.Name, Values: a.Vals})
		}
		r.entries = append(r.entries, e)
		want = append(want, w)
	}
	code := sym.Byte("code")
	r.code = func() ldapserver.LDAPResultCode { return ldapserver.LDAPResultCode(code) }
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, false, wire.Present("cn"))))
	sym.Assert(ok && len(res) == len(want)+1, "wrong number of entries")
	sym.Assert(res[len(want)].Code == int(code), "wrong result code")
	for i, w := range want {
		sym.Assert(sym.And(res[i].Tag == 0x64, res[i].DN == w.DN), "entry with wrong name")
		sym.Assert(len(res[i].Attrs) == len(w.Attrs), "entry with wrong attributes")
		for j, a := range w.Attrs {
			sym.Assert(sym.And(res[i].Attrs[j].Name == a.Name, sameVals(res[i].Attrs[j].Vals, a.Vals)), "entry with wrong values")
		}
		sym.Cover("entry")
	}
	srv.Stop()
}
