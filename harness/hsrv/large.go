package hsrv

import (
	"strings"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const row = "abcdefgh"

// slots are n different letters, one of which is arbitrary.
func slots(tag string, n int) []string {
	r := strings.Split(row[:n], "")
	r[sym.Choice(tag+" position", n)] = name(tag)
	return r
}

// in says whether v is one of vs, ignoring case.
func in(v string, vs []string) bool {
	r := false
	for _, x := range vs {
		r = sym.Or(r, sym.FoldEq(v, x))
	}
	return r
}

// LargeFilter: filters with many operands, levels and parts, and many values.
func LargeFilter() {
	r, srv, c := start()
	srv.S.EnforceLDAP = true
	n := sym.Param("n", 6)
	vals := strings.Split(row[:n], "")
	want := false
	var f string
	switch sym.Choice("kind", 5) {
	case 0: // all of them
		want = true
		for _, v := range slots("assertion", n) {
			f += wire.Eq("cn", v)
			want = sym.And(want, in(v, vals))
		}
		f = wire.And(f)
	case 1: // one of them
		vals = []string{"u", "v", "w", "x", name("value")}
		for _, v := range slots("assertion", n) {
			f += wire.Eq("cn", v)
			want = sym.Or(want, in(v, vals))
		}
		f = wire.Or(f)
	case 2: // levels
		v := name("assertion")
		want = in(v, vals)
		f = wire.Eq("cn", v)
		for i := sym.Choice("levels", n+1); i > 0; i-- {
			f = wire.Not(f)
			want = sym.Not(want)
		}
	case 3: // parts
		x := slots("assertion", n)
		var ps []string
		want = true
		for i, v := range x {
			ps = append(ps, wire.Any(v))
			want = sym.And(want, sym.FoldEq(v, vals[i]))
		}
		f = wire.Sub("cn", ps...)
		vals = []string{"1", strings.Join(vals, "")}
	case 4: // levels of both kinds
		x, y := name("assertion"), name("assertion")
		want = in(x, vals)
		f = wire.Eq("cn", x)
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				f = wire.And(f, wire.Eq("CN", y))
				want = sym.And(want, in(y, vals))
			} else {
				f = wire.Or(wire.Eq("cn", "none"), f)
			}
		}
	}
	r.entries = []*ldap.Entry{{DN: "cn=x,o=b", Attributes: []*ldap.EntryAttribute{{Name: "sn", Values: []string{"1", "2"}}, {Name: "Cn", Values: vals}}}}
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, false, f)))
	sym.Assert(ok && len(res) <= 2 && res[len(res)-1].Code == 0, "search fails")
	sym.Assert(sym.Iff(len(res) == 2, want), "entry delivered does not match, or match not delivered")
	if len(res) == 2 {
		sym.Cover("match")
	} else {
		sym.Cover("no match")
	}
	srv.Stop()
}

// LargeSelection: many attributes and requested ones, many entries and limits.
func LargeSelection() {
	r, srv, c := start()
	srv.S.EnforceLDAP = true
	k := 1 + sym.Choice("entries", 8)
	size := sym.Int("size", 0, 9)
	var req []string
	if sym.Choice("all", 2) == 0 {
		req = append(slots("wanted", 6), "none")
	}
	for i := 0; i < k; i++ {
		e := &ldap.Entry{DN: "cn=" + row[i:i+1] + ",o=b"}
		for j := range row {
			e.Attributes = append(e.Attributes, &ldap.EntryAttribute{Name: row[j : j+1], Values: strings.Split(row, "")})
		}
		r.entries = append(r.entries, e)
	}
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, size, false, wire.Present("a"), req...)))
	sym.Assert(ok, "search is not answered")
	over := sym.And(size > 0, k > size)
	sym.Assert(len(res)-1 == sym.Ite(over, size, k), "wrong number of entries")
	sym.Assert(res[len(res)-1].Code == sym.Ite(over, 4, 0), "wrong result code")
	for i, e := range res[:len(res)-1] {
		sym.Assert(e.DN == "cn="+row[i:i+1]+",o=b", "wrong entry")
		for j := range row {
			n := 0
			for _, a := range e.Attrs {
				if a.Name == row[j:j+1] {
					n++
					sym.Assert(strings.Join(a.Vals, "") == row, "wrong values")
				}
			}
			sym.Assert(n == sym.Ite(sym.Or(req == nil, in(row[j:j+1], req)), 1, 0), "attribute missing, unwanted or repeated")
		}
	}
	if over {
		sym.Cover("exceeded")
	} else {
		sym.Cover("within")
	}
	srv.Stop()
}

// long is a text of n letters with arbitrary bytes at its ends and its middle.
func long(tag string, n int) string {
	x := func() string { return sym.String(tag, 1) }
	return x() + strings.Repeat("l", n/2-1) + x() + strings.Repeat("m", n-n/2-2) + x()
}

// LargeWrite: requests with many and long parts reach the back-end unchanged.
func LargeWrite() {
	r, srv, c := start()
	dn := "cn=" + strings.Repeat("n", 90) + name("name") + ",ou=a,ou=b,ou=c,ou=d,ou=e,o=b"
	size := []int{120, 130, 260, 700}[sym.Choice("size", 4)]
	l := long("value", size)
	var as []wire.Attr
	for i := 0; i < 7; i++ {
		as = append(as, wire.Attr{Name: row[i : i+1], Vals: []string{name("value")}})
	}
	as[sym.Choice("attribute", 7)].Vals = []string{"1", "2", "3", "4", "5", l, "7"}
	n := r.count()
	switch sym.Choice("kind", 4) {
	case 0:
		sym.Assert(c.One(2, wire.Add(dn, as...)).Code == 0, "request fails")
		q := r.last()
		sym.Assert(r.count() == n+1 && q.op == "add" && q.add.DN == dn && len(q.add.Attributes) == len(as), "back-end sees a different request")
		for i, a := range as {
			sym.Assert(sym.And(q.add.Attributes[i].Type == a.Name, sameVals(q.add.Attributes[i].Vals, a.Vals)), "back-end sees a different request")
		}
	case 1:
		var cs []wire.Change
		for i, a := range as {
			cs = append(cs, wire.Change{Op: i % 3, Attr: a})
		}
		sym.Assert(c.One(2, wire.Modify(dn, cs...)).Code == 0, "request fails")
		q := r.last()
		sym.Assert(r.count() == n+1 && q.op == "modify" && q.mod.DN == dn && len(q.mod.Changes) == len(cs), "back-end sees a different request")
		for i, a := range cs {
			x := q.mod.Changes[i]
			sym.Assert(sym.And(x.Operation == uint(a.Op), x.Modification.Type == a.Name, sameVals(x.Modification.Vals, a.Vals)), "back-end sees a different request")
		}
	case 2:
		f := wire.And(wire.Eq("a", "1"), wire.Or(wire.Eq("b", l), wire.Not(wire.Present("c"))), wire.Sub("d", wire.Initial("1"), wire.Any("2"), wire.Any("3"), wire.Any("4"), wire.Final("5")), wire.Eq("e", "5"), wire.Eq("f", "6"))
		var want []string
		for _, a := range as {
			want = append(want, a.Name+a.Vals[0])
		}
		_, ok := c.Do(wire.Msg(2, wire.Search(dn, 2, 0, false, f, want...)))
		q := r.last()
		sym.Assert(ok && r.count() == n+1 && q.op == "search" && q.srch.BaseDN == dn, "back-end sees a different search")
		sym.Assert(sameVals(q.srch.Attributes, want), "back-end sees different attributes")
		p, err := ldap.CompileFilter(q.srch.Filter)
		sym.Assert(err == nil && string(p.Bytes()) == f, "back-end sees a different filter")
	case 3:
		e := &ldap.Entry{DN: dn}
		for _, a := range as {
			e.Attributes = append(e.Attributes, &ldap.EntryAttribute{Name: a.Name, Values: a.Vals})
		}
		r.entries = []*ldap.Entry{e}
		res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, false, wire.Present("cn"))))
		sym.Assert(ok && len(res) == 2 && res[0].DN == dn && len(res[0].Attrs) == len(as), "client sees a different entry")
		for i, a := range as {
			sym.Assert(sym.And(res[0].Attrs[i].Name == a.Name, sameVals(res[0].Attrs[i].Vals, a.Vals)), "client sees a different entry")
		}
	}
	sym.Cover("seen")
	srv.Stop()
}

// deep is a name of many and long components.
func deep(tag string) string {
	return "cn=" + strings.Repeat("n", 90) + name(tag) + ",ou=" + name(tag) + ",ou=b,ou=c,ou=d,ou=e,o=b"
}

// LargeIdentity: connections with long identities.
func LargeIdentity() {
	r := &rec{closed: make(chan string, 8)}
	s := serverFor("", r)
	s.SetStats(true)
	srv := wire.Start(s)
	t := &tally{}
	a, b := srv.Dial(nil), srv.Dial(nil)
	x, y := deep("first"), deep("second")
	sym.Assert(a.One(1, wire.Bind(x, "pw")).Code == 0, "bind fails")
	sym.Assert(b.One(1, wire.Bind(y, "pw")).Code == 0, "bind fails")
	for i := sym.Choice("requests", 7); i > 0; i-- {
		t.searches++
		_, ok := a.Do(wire.Msg(2, wire.Search("o=b", 0, 0, false, wire.Present("cn"))))
		sym.Assert(ok && sym.FoldEq(r.last().bound, x), "request evaluated under a wrong identity")
	}
	sym.Assert(b.One(3, wire.Del(y)).Code == 0, "request fails")
	sym.Assert(sym.FoldEq(r.last().bound, y), "request evaluated under a wrong identity")
	sym.Assert(r.last().dn == y, "wrong entry")
	if sym.Choice("end", 2) == 0 {
		a.Send(wire.Msg(99, wire.Unbind()))
		t.unbinds++
	} else {
		a.Hangup()
	}
	sym.Assert(sym.FoldEq(<-r.closed, x), "connection closed under a wrong identity")
	a.WaitClosed()
	sym.Drain()
	t.conns, t.cur, t.max, t.binds, t.dels = 2, 1, 2, 2, 1
	t.check(s)
	sym.Cover("evaluated with identity")
	srv.Stop()
}

// LargeRoute: many handlers with suffixes of many components.
func LargeRoute() {
	k := sym.Param("handlers", 5)
	s := ldapserver.NewServer()
	all := strings.Split("ou=e,ou=d,ou=c,ou=b,o=b", ",")
	var names [][]string
	var recs []*rec
	for i := 0; i < k; i++ {
		names = append(names, all[len(all)-1-i:])
		recs = append(recs, &rec{})
	}
	first, down := sym.Choice("first", k), sym.Choice("down", 2) == 1
	for i := 0; i < k; i++ {
		j := (first + i) % k
		if down {
			j = (first + k - i) % k
		}
		register(s, join(names[j]), recs[j])
	}
	dn := append([]string{"cn=y", "cn=x"}, all...)
	dn = append([]string{}, dn[sym.Choice("depth", len(dn)):]...)
	i := sym.Choice("component", len(dn))
	dn[i] = dn[i][:strings.IndexByte(dn[i], '=')+1] + name("component")
	best := -1
	for i, n := range names {
		best = sym.Ite(below(dn, n), i, best)
	}
	srv := wire.Start(s)
	c := srv.Dial(nil)
	res, ok := c.Do(wire.Msg(2, wire.Search(join(dn), 0, 0, false, wire.Present("cn"))))
	sym.Assert(ok && len(res) == 1, "request is not answered")
	for i, r := range recs {
		sym.Assert(sym.Iff(len(r.calls) == 1, best == i), "request is handled by the wrong handler")
	}
	if best >= 0 {
		sym.Cover("routed")
	} else {
		sym.Cover("no handler")
	}
	srv.Stop()
}
