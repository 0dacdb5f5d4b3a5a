package hbolt

import (
	"strconv"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// AdminOnly: only the administrator can write.
func AdminOnly() {
	fill(entry(base), entry("cn=a,o=b", "pa"), entry("cn=b,o=b", "pb"), entry("cn=r,o=b", "pr"), entry("cn=a,cn=a,o=b", "q"))
	// the administrator: somebody with or without entry, or nobody
	x := sym.StringIn("admin", 1, letters)
	form := sym.Choice("administrator", 4)
	admin := []string{"CN=" + x + ",o=b", "cn=" + x + ",cn=A, O=b", "", base}[form]
	anon := sym.Choice("anonymous", 2) == 1
	s := app.Bolt(base, admin, anon)
	rd := reader(s, "cn=r,o=b", "pr")
	before := dump(rd)
	c := s.Dial(app.Peer{"127.0.0.1:7"})
	isAdmin := false
	wrote := false
	k := sym.Param("steps", 3)
	for i := 0; i < k; i++ {
		n := strconv.Itoa(i)
		op := sym.Choice("step", 6)
		switch op {
		case 0, 1: // bind
			y := sym.StringIn("user"+n, 1, letters)
			name := []string{"cn=" + y + ",o=b", "cn=" + y + ",cn=a,o=b"}[op]
			r := c.One(byte(i+1), wire.Bind(name, []string{"p", "q"}[op]+sym.String("password"+n, 1-op)))
			if r.Code == 0 {
				isAdmin = sym.And(form == op, sym.FoldEq(x, y))
			}
			continue
		case 2:
			if !anon {
				continue
			}
			sym.Assert(c.One(byte(i+1), wire.Bind("", "")).Code == 0, "anonymous bind")
			isAdmin = false
			continue
		}
		req := ""
		target := "cn=" + sym.StringIn("target"+n, 1, letters) + ",o=b"
		switch op {
		case 3:
			req = wire.Add(target, wire.Attr{Name: "sn", Vals: []string{"w"}})
		case 4:
			if sym.Choice("delete", 2) == 1 {
				req = wire.Del(target)
			} else {
				req = wire.ModifyDN(target, "cn=o", true)
			}
		case 5:
			req = wire.Modify(target, wire.Change{Op: 2, Attr: wire.Attr{Name: "sn", Vals: []string{"w"}}})
		}
		r := c.One(byte(i+1), req)
		if r.Code == 0 {
			sym.Assert(isAdmin, "write by somebody else succeeds")
			sym.Cover("written by the administrator")
			wrote = true
		} else {
			sym.Cover("refused")
		}
	}
	if !wrote {
		sym.Assert(app.Same(before, dump(rd)), "refused write changes the directory")
	}
	s.Stop()
}
