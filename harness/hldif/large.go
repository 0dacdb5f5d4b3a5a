package hldif

import (
	"context"
	"strings"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const row = "abcdefgh"

// LargeDirectory: a directory of many entries with many attributes, values and
// passwords.
func LargeDirectory() {
	var es []*ldap.Entry
	main := rec(base, "o", "b")
	k := sym.Choice("entry", 2) * 6 // the one that differs
	x := letter("value")
	pws := []string{"p1", "p2", "p3", "p4", "p5", "p6"}
	pws[sym.Choice("password", 2)*5] = "p" + letter("password")
	for i := 0; i < 7; i++ {
		e := &ldap.Entry{DN: "ou=" + row[i:i+1] + ",o=b"}
		v := "Shared Value"
		if i == k {
			v += x
		}
		for _, n := range []string{"cn", "description", "mail", "sn", "telephoneNumber", "uid", "zz"} {
			vs := []string{v}
			switch n {
			case "cn", "uid", "zz":
				vs = append(strings.Split(row[:5], ""), v)
			case "sn":
				vs = []string{v, "b"}
			}
			e.Attributes = append(e.Attributes, &ldap.EntryAttribute{Name: n, Values: vs})
		}
		es = append(es, e)
		main += strings.TrimSuffix(lines(e), "\n")
		if i == 6 {
			main += "userPassword: " + strings.Join(pws, "\nuserPassword: ") + "\n"
		}
		main += "\n"
	}
	s := app.LDIF(base, "", true, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	if sym.Param("bind", 0) == 1 {
		given := "p" + sym.StringIn("given", 1, app.Letters+"123456789")
		hit := false
		for _, p := range pws {
			hit = sym.Or(hit, p == given)
		}
		sym.Assert(sym.Iff(c.One(3, wire.Bind("ou=g,o=b", given)).Code == 0, hit), "wrong verdict on a password")
		s.Stop()
		return
	}
	y := letter("assertion")
	one := sym.FoldEq(x, y)
	var f string
	var rest, this bool // whether the others match, and the one
	at := []string{"CN", "zz"}[sym.Choice("attribute", 2)]
	switch sym.Choice("filter", 7) {
	case 0:
		f, rest = wire.Eq(at, "shared value"), true
	case 1:
		f, this = wire.Eq(at, "shared value"+y), one
	case 2:
		f = wire.Or(wire.Eq(at, "1"), wire.Eq(at, "2"), wire.Eq("uid", "3"), wire.Eq(at, "4"), wire.Eq("mail", "shared VALUE"+y))
		this = one
	case 3:
		f, this = wire.Sub(at, wire.Initial("share"), wire.Final("value"+y)), one
		rest = sym.FoldEq("value"+y, "d value") // never
	case 4:
		f, this, rest = wire.And(wire.Eq(at, "a"), wire.Eq("sn", "b"), wire.Eq("cn", "c"), wire.Eq("uid", "d"), wire.Not(wire.Eq("zz", "shared value"+y))), !one, true
	case 5:
		f = wire.Eq(at, y)
		rest = sym.Or(sym.FoldEq(y, "a"), sym.FoldEq(y, "b"), sym.FoldEq(y, "c"), sym.FoldEq(y, "d"), sym.FoldEq(y, "e"))
		this = rest
	case 6:
		f, this = wire.Sub(at, wire.Final("d value"+y)), one
	}
	res, ok := c.Do(wire.Msg(2, wire.Search("O=b", 2, 0, false, f)))
	sym.Assert(ok && res[len(res)-1].Code == 0, "search fails")
	var want []bool
	for i := range es {
		want = append(want, sym.Or(sym.And(rest, i != k), sym.And(this, i == k)))
	}
	check(res[:len(res)-1], es, want)
	for _, r := range res[:len(res)-1] {
		for _, e := range es {
			if e.DN != r.DN {
				continue
			}
			sym.Assert(len(r.Attrs) == len(e.Attributes), "attributes are missing, or a password is delivered")
			for _, a := range e.Attributes {
				for _, b := range r.Attrs {
					if b.Name == a.Name {
						sym.Assert(len(a.Values) == len(b.Vals), "wrong values")
						for i, v := range a.Values {
							sym.Assert(b.Vals[i] == v, "wrong values")
						}
					}
				}
			}
		}
	}
	s.Stop()
}

// LargePaging: many entries in pages of any size.
func LargePaging() {
	wire.Quiet = true
	main := "dn: o=b\no: b\n\n"
	n := 8 - sym.Choice("fewer", 2)
	k := sym.Choice("missing", n)
	for i := 0; i < n; i++ {
		v := "m"
		if i == k {
			v = letter("value")
		}
		main += "dn: ou=" + row[i:i+1] + ",o=b\ncn: " + v + "\nzz: " + v + "\n\n"
	}
	s := app.LDIF(base, "", true, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	f := wire.Eq([]string{"cn", "zz"}[sym.Choice("filter", 2)], "m")
	all, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, false, f)))
	sym.Assert(ok && len(all) >= n, "search fails")
	size := 1 + sym.Choice("size", n+1)
	cookie := ""
	seen := map[string]int{}
	total, pages := 0, 0
	for {
		res, next := page(c, size, cookie, f)
		sym.Assert(res[len(res)-1].Code == 0 && len(res)-1 <= size, "page fails or is too large")
		for _, r := range res[:len(res)-1] {
			seen[r.DN]++
			total++
		}
		pages++
		if next == "" {
			break
		}
		cookie = next
		sym.Assert(pages <= n+1, "paging does not end")
	}
	sym.Assert(total == len(all)-1, "wrong number of entries")
	for _, r := range all[:len(all)-1] {
		sym.Assert(seen[r.DN] == 1, "entry not delivered exactly once")
	}
	sym.Cover("finished")
	s.Stop()
}

// LargeReload: files with many entries replace each other.
func LargeReload() {
	text := func(t string, n int) (string, []string) {
		s := rec(base, "o", "b")
		var vs []string
		for i := 0; i < n; i++ {
			vs = append(vs, row[i:i+1])
			if i == n-1 {
				vs[i] = letter(t)
			}
			s += rec("ou="+row[i:i+1]+",o=b", "cn", vs[i], "userPassword", "p"+vs[i])
		}
		return s, vs
	}
	a, _ := text("old", 1+2*sym.Choice("old", 4))
	b, vs := text("new", 1+2*sym.Choice("new", 4))
	c := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	c.LDIFMain = app.Write("main.ldif", a)
	s, h := app.Direct(c)
	sym.Assert(s != nil, "server does not start")
	app.Write("main.ldif", b)
	sym.Assert(h.Reload(context.Background()) == nil, "wrong outcome of the reload")
	con := s.Dial(app.Peer{S: "127.0.0.1:9"})
	res, ok := con.Do(wire.Msg(2, wire.Search(base, 2, 0, false, wire.Present("cn"))))
	sym.Assert(ok && len(res)-1 == len(vs), "wrong number of entries")
	for _, r := range res[:len(vs)] {
		i := strings.IndexByte(row, r.DN[3])
		sym.Assert(i < len(vs) && len(r.Attrs) == 1 && len(r.Attrs[0].Vals) == 1 && r.Attrs[0].Vals[0] == vs[i], "wrong contents")
		sym.Assert(con.One(3, wire.Bind(r.DN, "p"+vs[i])).Code == 0, "wrong password")
	}
	sym.Cover("reloaded")
	s.Stop()
}
