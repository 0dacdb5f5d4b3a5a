package hbolt

import (
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// Unauthenticated: nobody reads without identity.
func Unauthenticated() {
	fill(entry(base), entry("cn=a,o=b", "pa"), entry("cn=a,cn=a,o=b", "qa"))
	anon := sym.Choice("anonymous", 2) == 1
	s := app.Bolt(base, "cn=a,o=b", anon)
	addr, local := app.Somewhere()
	c := s.Dial(addr)
	me := false
	k := sym.Param("binds", 2)
	for i := 0; i < k; i++ {
		switch sym.Choice("bind", 4) {
		case 0:
		case 1:
			if c.One(1, wire.Bind("cn=a,o=b", sym.String("password", 2))).Code == 0 {
				me = true
			}
		case 2:
			if c.One(1, wire.Bind("", "")).Code == 0 {
				me = false
			}
		case 3:
			if c.One(1, wire.Bind("cn=x,o=b", "pa")).Code == 0 {
				me = true
			}
		}
	}
	dn := []string{"o=b", "", "cn=" + sym.StringIn("base", 1, letters) + ",o=b"}[sym.Choice("base", 3)]
	f := []string{wire.Not(wire.Eq("x", "y")), wire.Present("sn"), wire.Eq("sn", "v")}[sym.Choice("filter", 3)]
	r, ok := c.Do(wire.Msg(9, wire.Search(dn, sym.Choice("scope", 3), 0, false, f)))
	sym.Assert(ok, "no response")
	last := r[len(r)-1]
	sym.Observe("code", last.Code)
	if !me && !(anon && local) {
		sym.Assert(len(r) == 1, "entry returned to an unauthenticated client")
		sym.Assert(last.Code != 0, "search by an unauthenticated client succeeds")
		sym.Cover("refused")
	} else {
		if len(r) > 1 {
			sym.Cover("entries")
		}
		if dn == "o=b" {
			sym.Assert(last.Code == 0, "search fails")
		}
	}
	s.Stop()
}
