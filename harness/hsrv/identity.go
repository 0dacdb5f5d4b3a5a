package hsrv

import (
	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// Identity: the identity back-ends see is that of the last successful bind of
// the same connection.
func Identity() {
	r := &rec{closed: make(chan string, 8)}
	code := ldapserver.LDAPResultCode(0)
	fail := false
	r.code = func() ldapserver.LDAPResultCode { return code }
	srv := wire.Start(serverFor("", r))
	nc := sym.Param("conns", 2)
	conns := make([]*wire.Conn, nc)
	ident := make([]string, nc)
	for i := range conns {
		conns[i] = srv.Dial(nil)
	}
	k := sym.Param("steps", 3)
	for i := 0; i < k; i++ {
		w := sym.Choice("conn", nc)
		c := conns[w]
		if c == nil {
			sym.Stop()
		}
		id := byte(i + 1)
		n := r.count()
		kind := sym.Choice("kind", 9)
		switch {
		case kind < 5:
			// binds
			dn := "cn=" + sym.StringIn("name", 1, letters) + ",o=b"
			code = ldapserver.LDAPResultCode(sym.Byte("code"))
			r.fail = false
			var op string
			proved := false
			switch kind {
			case 0:
				if sym.Choice("anonymous", 2) == 1 {
					dn = ""
				}
				op = wire.Bind(dn, "pw")
				fail = dn != "" && sym.Choice("error", 2) == 1
				r.fail = fail
				proved = sym.And(code == 0, !fail)
			case 1: // other protocol version
				v := sym.Byte("version")
				sym.Assume(v != 3)
				op = wire.TLV(0x60, wire.TLV(0x02, string([]byte{v})), wire.Octet(dn), wire.TLV(0x80, "pw"))
			case 2: // SASL and unknown methods
				m := sym.Byte("method")
				sym.Assume(sym.And(m >= 0xa1, m < 0xbf))
				op = wire.TLV(0x60, wire.Int(3), wire.Octet(dn), wire.TLV(m, wire.Octet("EXTERNAL")))
			case 3: // name missing or of the wrong type
				op = wire.TLV(0x60, wire.Int(3), wire.Int(7), wire.TLV(0x80, "pw"))
			case 4: // name does not parse
				dn = "nonsense"
				op = wire.Bind(dn, "pw")
			}
			res, ok := c.Do(wire.Msg(id, op))
			r.fail = false
			if kind == 4 {
				if ok {
					sym.Assert(len(res) == 1, "bind not answered once")
					sym.Assert(res[0].Code != 0, "bind with an invalid name succeeds")
				} else {
					last := <-r.closed
					sym.Assert(sym.Or(last == "", sym.FoldEq(last, ident[w])), "connection closed under a wrong identity")
					conns[w] = nil
				}
				continue
			}
			sym.Assert(ok && len(res) == 1, "bind not answered once")
			sym.Assert(sym.Iff(res[0].Code == 0, proved), "bind result is not the back-end's decision")
			if proved {
				sym.Cover("bound")
				ident[w] = dn
			} else {
				sym.Cover("not bound")
			}
		default:
			code = 0
			var op string
			write := kind != 8
			switch kind {
			case 5:
				op = wire.Add("cn=x,o=b")
			case 6:
				op = []string{wire.Modify("cn=x,o=b"), wire.Del("cn=x,o=b"), wire.ModifyDN("cn=x,o=b", "cn=y", true)}[sym.Choice("write", 3)]
			case 7:
				pw := "new"
				op = wire.PwModify(nil, nil, &pw)
			case 8:
				op = wire.Search("o=b", 0, 0, false, wire.Present("cn"))
			}
			res, ok := c.Do(wire.Msg(id, op))
			sym.Assert(ok && len(res) == 1, "request not answered once")
			if r.count() > n {
				sym.Assert(sym.FoldEq(r.last().bound, ident[w]), "request evaluated under a wrong identity")
				sym.Cover("evaluated")
				if ident[w] != "" {
					sym.Cover("evaluated with identity")
				}
			} else {
				sym.Assert(write && ident[w] == "", "request did not reach the back-end")
				sym.Assert(res[0].Code != 0, "request without identity answered with success")
			}
		}
	}
	// identity seen when the connection ends
	for w, c := range conns {
		if c == nil {
			continue
		}
		c.Send(wire.Msg(99, wire.Unbind()))
		sym.Assert(sym.FoldEq(<-r.closed, ident[w]), "connection closed under a wrong identity")
		c.WaitClosed()
	}
	srv.Stop()
}

// Odd: no request but a bind changes the identity.
func Odd() {
	r := &rec{closed: make(chan string, 8)}
	r.code = func() ldapserver.LDAPResultCode { return 0 }
	srv := wire.Start(serverFor("", r))
	c := srv.Dial(nil)
	ident := ""
	if sym.Choice("bound", 2) == 1 {
		ident = "cn=u,o=b"
		sym.Assert(c.One(1, wire.Bind(ident, "pw")).Code == 0, "bind fails")
	}
	tag := sym.Byte("tag")
	sym.Assume(sym.And(tag >= 0x40, tag < 0x80, tag&0x1f != 0x1f, tag != 0x42))
	other := "cn=" + name("other") + ",o=b"
	body, shape := "", 0
	for i := sym.Choice("elements", sym.Param("elements", 3)+1); i > 0; i-- {
		k := sym.Choice("element", 5)
		shape = shape*5 + k
		body += []string{wire.Int(3), wire.Octet(other), wire.TLV(0x80, other), wire.Seq(wire.Octet(other)), wire.Bool(true)}[k]
	}
	sym.Assume(sym.Not(sym.And(tag&0x1f == 0, shape == 0*25+1*5+2)))
	n := r.count()
	_, ok := c.Do(wire.Msg(2, wire.TLV(tag, body)))
	if ok {
		_, ok = c.Do(wire.Msg(3, wire.Del("cn=x,o=b")))
		sym.Cover("answered")
	} else {
		sym.Cover("closed")
	}
	for i := n; i < r.count(); i++ {
		sym.Assert(sym.Or(r.calls[i].op == "bind", sym.FoldEq(r.calls[i].bound, ident)), "request evaluated under a wrong identity")
	}
	if ok {
		c.Send(wire.Msg(99, wire.Unbind()))
	}
	sym.Assert(sym.FoldEq(<-r.closed, ident), "connection closed under a wrong identity")
	srv.Stop()
}
