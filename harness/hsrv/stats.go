package hsrv

import (
	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// tally is what the statistics should say.
type tally struct {
	conns, cur, max                                     int
	adds, binds, dels, mods, renames, searches, unbinds int
}

func (t *tally) check(s *ldapserver.Server) {
	g := s.GetStats()
	sym.Assert(sym.And(g.Conns == uint64(t.conns), g.ConnsCurrent == uint64(t.cur), g.ConnsMax == uint64(t.max)), "connections are miscounted")
	sym.Assert(sym.And(g.Adds == uint64(t.adds), g.Deletes == uint64(t.dels), g.Modifies == uint64(t.mods), g.ModifyDNs == uint64(t.renames)), "writes are miscounted")
	sym.Assert(sym.And(g.Binds == uint64(t.binds), g.Unbinds == uint64(t.unbinds), g.Searches == uint64(t.searches)), "binds, searches or unbinds are miscounted")
}

// countOp is a request of a symbolic kind and its effect on the statistics.
func countOp(t *tally) string {
	pw := "x"
	switch sym.Choice("kind", 7) {
	case 0:
		t.adds++
		return wire.Add("cn=x,o=b")
	case 1:
		t.mods++
		return wire.Modify("cn=x,o=b")
	case 2:
		t.dels++
		return wire.Del("cn=x,o=b")
	case 3:
		t.renames++
		return wire.ModifyDN("cn=x,o=b", "cn=y", true)
	case 4:
		t.searches++
		return wire.Search("o=b", 2, 0, false, wire.Present("cn"))
	case 5:
		t.binds++
		return wire.Bind("cn=v,o=b", "pw")
	}
	return wire.PwModify(nil, nil, &pw)
}

// Counts: after any sequence of requests on one or two connections the
// statistics are right.
func Counts() {
	r := &rec{code: func() ldapserver.LDAPResultCode { return ldapserver.LDAPResultCode(sym.Byte("code")) }}
	s := serverFor("", r)
	enabled := sym.Choice("enabled", 2) == 1
	s.SetStats(enabled)
	srv := wire.Start(s)
	t := &tally{}
	nc := 2
	conns := make([]*wire.Conn, nc)
	for i := 0; i < sym.Param("steps", 3); i++ {
		w := sym.Choice("connection", nc)
		if conns[w] == nil {
			conns[w] = srv.Dial(nil)
			t.conns++
			t.cur++
			t.max = max(t.max, t.cur)
			sym.Drain()
			continue
		}
		c := conns[w]
		switch sym.Choice("step", 3) {
		case 0:
			_, ok := c.Do(wire.Msg(1, countOp(t)))
			sym.Assert(ok, "request is not answered")
			sym.Cover("request")
		case 1:
			c.Send(wire.Msg(1, wire.Unbind()))
			c.WaitClosed()
			conns[w] = nil
			t.unbinds++
			t.cur--
			sym.Cover("unbind")
		case 2:
			c.Hangup()
			c.WaitClosed()
			conns[w] = nil
			t.cur--
			sym.Cover("hangup")
		}
		sym.Drain()
	}
	if enabled {
		t.check(s)
		sym.Cover("checked")
	}
	srv.Stop()
}

// ConcurrentCounts: counting is right under every interleaving.
func ConcurrentCounts() {
	wire.Quiet = true
	sym.Sched(false)
	s := ldapserver.NewServer()
	s.SetStats(true)
	srv := wire.Start(s)
	t := &tally{}
	nc := sym.Param("conns", 2)
	k := sym.Param("requests", 1)
	conns := make([]*wire.Conn, nc)
	for i := range conns {
		conns[i] = srv.Dial(nil)
	}
	t.conns, t.max, t.unbinds = nc, nc, nc
	sym.Drain()
	for i := range conns {
		for j := 0; j < k; j++ {
			conns[i].Send(wire.Msg(1, countOp(t)))
		}
		conns[i].Send(wire.Msg(1, wire.Unbind()))
	}
	sym.Sched(true)
	if sym.Choice("observer", 2) == 1 {
		late := 0
		if sym.Param("late", 1) == 1 && sym.Choice("late", 2) == 1 {
			conns = append(conns, srv.Dial(nil))
			late = 1
			t.conns++
			t.cur++
		}
		g := s.GetStats() // at any time
		sym.Assert(sym.And(g.Conns >= uint64(nc), g.Conns <= uint64(nc+late)), "connections are miscounted")
		sym.Cover("observed")
	}
	for i := range conns[:nc] {
		conns[i].WaitClosed()
	}
	sym.Sched(false)
	sym.Drain()
	if m := s.GetStats().ConnsMax; t.cur > 0 && m == uint64(nc+1) {
		t.max++ // it came before another one left
	}
	t.check(s)
	sym.Cover("checked")
}
