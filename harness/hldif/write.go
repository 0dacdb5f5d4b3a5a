package hldif

import (
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

func target(n string) string {
	switch sym.Choice(n, 4) {
	case 0:
		return base
	case 1:
		return "cn=" + sym.StringIn(n, 1, "aAfFx") + ",o=b"
	case 2:
		return "cn=a,o=" + sym.StringIn(n, 1, "bx")
	}
	return ""
}

// ReadOnly: no write is accepted from anybody, and none has an effect.
func ReadOnly() {
	main := rec(base, "o", "b") + rec("cn=a,o=b", "cn", "a", "userPassword", "pa") + rec("cn=d,cn=a,o=b", "cn", "d")
	config := []string{"", rec("cn=f,o=b", "userPassword", "pf")}[sym.Choice("configuration", 2)]
	admin := []string{"", "cn=a,o=b", "cn=f,o=b"}[sym.Choice("admin", 3)]
	s := app.LDIF(base, admin, true, main, config)
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	look := func() []wire.Resp {
		res, ok := c.Do(wire.Msg(9, wire.Search("o=b", 2, 0, false, wire.Not(wire.Eq("x", "y")))))
		sym.Assert(ok && res[len(res)-1].Code == 0, "search fails")
		return res[:len(res)-1]
	}
	before := look()
	sym.Assert(len(before) == 3, "entries missing")
	switch sym.Choice("who", 3) {
	case 1:
		sym.Assert(c.One(1, wire.Bind("cn=a,o=b", "pa")).Code == 0, "bind fails")
	case 2:
		sym.Assert((c.One(1, wire.Bind("cn=f,o=b", "pf")).Code == 0) == (config != ""), "wrong result of a bind")
	}
	for i := 1 + sym.Choice("writes", sym.Param("writes", 1)); i > 0; i-- {
		dn, op := target("target"), ""
		v := sym.StringIn("value", 1, app.Letters)
		switch sym.Choice("write", 6) {
		case 0:
			op = wire.Add(dn, wire.Attr{Name: "cn", Vals: []string{v}})
			sym.Cover("add")
		case 1:
			op = wire.Del(dn)
			sym.Cover("delete")
		case 2:
			op = wire.Modify(dn, wire.Change{Op: sym.Choice("change", 3), Attr: wire.Attr{Name: []string{"cn", "userPassword"}[sym.Choice("attribute", 2)], Vals: []string{v}}})
			sym.Cover("modify")
		case 3:
			op = wire.ModifyDN(dn, "cn="+v, sym.Bool("delete old"))
			sym.Cover("rename")
		case 4:
			op = wire.PwModify(&dn, nil, &v)
			sym.Cover("password")
		case 5:
			old := "pa"
			op = wire.PwModify(nil, &old, &v)
			sym.Cover("own password")
		}
		sym.Assert(c.One(3, op).Code != 0, "write is accepted")
	}
	sym.Assert(app.Same(before, look()), "write changes the directory")
	sym.Assert(c.One(4, wire.Bind("cn=a,o=b", "pa")).Code == 0, "write changes a password")
	s.Stop()
}
