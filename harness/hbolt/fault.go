package hbolt

import (
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// Faults: a request during which the storage fails is answered with an error
// and has no effect.
func Faults() {
	wire.Quiet = true
	fill(entry(base), entry("cn=adm,o=b", "pr"), entry("cn=u,o=b", "pu"), entry("cn=v,cn=u,o=b"), entry("cn=w,o=b"))
	s := app.Bolt(base, "cn=adm,o=b", false)
	rd := reader(s, "cn=adm,o=b", "pr")
	c := reader(s, "cn=adm,o=b", "pr")
	before := state(s, rd)
	_, req := request("request", "p", 0)
	sym.ArmFaults(true)
	rs, ok := c.Do(wire.Msg(2, req))
	sym.Assert(ok, "request is not answered")
	r := rs[len(rs)-1]
	sym.ArmFaults(false)
	after := state(s, rd)
	if sym.Faulted() {
		sym.Assert(r.Code != 0, "request succeeds although the storage failed")
		sym.Assert(before == after, "failed request has an effect")
		sym.Cover("failed")
	} else if r.Code == 0 {
		sym.Cover("done")
	} else {
		sym.Assert(before == after, "refused request has an effect")
		sym.Cover("refused")
	}
	s.Stop()
	sym.Reopen(path())
	s = app.Bolt(base, "cn=adm,o=b", false)
	sym.Assert(state(s, reader(s, "cn=adm,o=b", "pr")) == after, "directory differs after a restart")
	s.Stop()
}
