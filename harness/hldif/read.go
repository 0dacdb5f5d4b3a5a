package hldif

import (
	"net"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// Unauthenticated: nobody reads without an identity below the base.
func Unauthenticated() {
	main := rec(base, "o", "b") + rec("cn=a,o=b", "cn", "a", "userPassword", "pa") + rec("cn=c,o=x", "cn", "c", "userPassword", "pc") + rec("cn=d,xo=b", "cn", "d", "userPassword", "pd") +
		rec("cn=e\\,o=b", "cn", "e,o=b", "userPassword", "pe")
	config := []string{"", rec("cn=f,o=b", "userPassword", "pf")}[sym.Choice("configuration", 2)]
	anon := sym.Choice("anonymous", 2) == 1
	s := app.LDIF(base, "", anon, main, config)
	sym.Assert(s != nil, "server does not start")
	addr, local := net.Addr(app.Peer{S: "127.0.0.1:9"}), true
	if sym.Choice("local", 2) == 0 {
		addr, local = app.Peer{S: "10.0.0.1:9"}, false
	}
	c := s.Dial(addr)
	me := false
	k := sym.Param("binds", 2)
	for i := 0; i < k; i++ {
		switch n := sym.Choice("bind", 7); n {
		case 0:
		case 1:
			if c.One(1, wire.Bind("", "")).Code == 0 {
				me = false
			}
		default:
			name := []string{"cn=a,o=b", "cn=f,o=b", "cn=c,o=x", "cn=d,xo=b", "cn=e\\,o=b"}[n-2]
			if c.One(1, wire.Bind(name, []string{"pa", "pf", "pc", "pd", "pe"}[n-2])).Code == 0 {
				me = n <= 3
				sym.Assert(n != 3 || config != "", "bind as a user that does not exist")
			}
		}
	}
	dn := []string{"o=b", "", "cn=" + sym.StringIn("base", 1, "aAfFx") + ",o=b"}[sym.Choice("base", 3)]
	f := []string{wire.Not(wire.Eq("x", "y")), wire.Present("cn"), wire.Eq("cn", "a")}[sym.Choice("filter", 3)]
	r, ok := c.Do(wire.Msg(9, wire.Search(dn, sym.Choice("scope", 3), 0, false, f)))
	sym.Assert(ok, "no response")
	last := r[len(r)-1]
	sym.Observe("code", last.Code)
	if !me && !(anon && local) {
		sym.Assert(len(r) == 1, "entry returned to an unauthenticated client")
		sym.Assert(last.Code != 0, "search by an unauthenticated client succeeds")
		sym.Cover("refused")
	} else {
		if len(r) > 1 {
			sym.Cover("entries")
		}
		if dn == "o=b" {
			sym.Assert(last.Code == 0, "search fails")
		}
	}
	s.Stop()
}

// Above: an identity above the base is none below it.
func Above() {
	x := sym.StringIn("name", 1, "zZyo")
	name := []string{"o=b", "ou=" + x + ",o=b", "cn=a,ou=" + x + ",o=b"}[sym.Choice("who", 3)]
	below := name != "o=b" && sym.FoldEq(x, "z")
	main := rec("o=b", "o", "b", "userPassword", "p") + rec("ou=z,o=b", "ou", "z", "userPassword", "p") + rec("cn=a,ou=z,o=b", "cn", "a", "userPassword", "p") +
		rec("ou=y,o=b", "ou", "y", "userPassword", "p") + rec("cn=a,ou=y,o=b", "cn", "a", "userPassword", "p")
	s := app.LDIF("ou=z,o=b", "", false, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(nil)
	ok := c.One(1, wire.Bind(name, "p")).Code == 0
	sym.Assert(sym.Implies(below, ok), "bind fails")
	res, answered := c.Do(wire.Msg(2, wire.Search("ou=z,o=b", 2, 0, false, wire.Not(wire.Eq("x", "y")))))
	sym.Assert(answered, "no response")
	last := res[len(res)-1]
	sym.Observe("code", last.Code)
	if below {
		sym.Assert(last.Code == 0 && len(res) == 3, "search fails")
		sym.Cover("entries")
	} else {
		sym.Assert(last.Code != 0 && len(res) == 1, "search by somebody outside of the base succeeds")
		sym.Cover("refused")
	}
	s.Stop()
}
