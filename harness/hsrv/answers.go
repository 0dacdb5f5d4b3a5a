package hsrv

import (
	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// msgID is a symbolic message id and its encoding, minimal or not.
func msgID(name string) (int, string) {
	n := 1 + sym.Choice(name+" length", sym.Param("idlen", 3))
	s := sym.String(name, n)
	v := 0
	for i := 0; i < n; i++ {
		v = v<<8 | int(s[i])
	}
	sym.Assume(s[0] < 0x80)
	return v, wire.TLV(0x02, s)
}

type question struct {
	id    int
	tag   byte // expected response
	code  int  // expected code, -1: any but success
	calls int
}

// ask makes one request of a symbolic kind.
func ask(bound bool, code byte) (question, string) {
	id, ids := msgID("id")
	q := question{id: id, code: int(code), calls: 1}
	var op string
	write := true
	switch sym.Choice("kind", 11) {
	case 0:
		q.tag, op = 0x69, wire.Add("cn=x,o=b", wire.Attr{Name: "cn", Vals: []string{"x"}})
	case 1:
		q.tag, op = 0x67, wire.Modify("cn=x,o=b", wire.Change{Op: 2, Attr: wire.Attr{Name: "sn", Vals: []string{"x"}}})
	case 2:
		q.tag, op = 0x6b, wire.Del("cn=x,o=b")
	case 3:
		q.tag, op = 0x6d, wire.ModifyDN("cn=x,o=b", "cn=y", true)
	case 4:
		q.tag, op, write = 0x65, wire.Search("o=b", 2, 0, false, wire.Present("cn")), false
	case 5:
		pw := "secret"
		q.tag, op = 0x78, wire.PwModify(nil, nil, &pw)
	case 6:
		q.tag, op, write = 0x61, wire.Bind("cn=v,o=b", "pw"), false
	case 7: // extended operation nobody knows
		q.tag, op, q.code, q.calls, write = 0x78, wire.Extended("1.2.3"), -1, 0, false
	case 8: // compare is not supported
		q.tag, q.code, q.calls, write = 0x6f, -1, 0, false
		op = wire.TLV(0x6e, wire.Octet("cn=x,o=b"), wire.Seq(wire.Octet("cn"), wire.Octet("x")))
	case 9: // moving to another parent is not supported
		sup := "o=b"
		if bound && sym.Choice("superior", 2) == 1 {
			sup = ""
		}
		q.tag, op, q.code, q.calls = 0x6d, wire.ModifyDNTo("cn=x,o=b", "cn=y", true, sup), -1, 0
	case 10: // SASL bind
		q.tag, q.code, q.calls, write = 0x61, -1, 0, false
		op = wire.TLV(0x60, wire.Int(3), wire.Octet("cn=v,o=b"), wire.TLV(0xa3, wire.Octet("PLAIN")))
	}
	if write && !bound {
		q.code, q.calls = -1, 0
	}
	return q, wire.TLV(0x30, ids, op)
}

// Answers: every request is answered once, in order, with its own id, type and
// the back-end's result.
func Answers() {
	r := &rec{}
	var codes []byte
	n := 0
	r.code = func() ldapserver.LDAPResultCode {
		n++
		return ldapserver.LDAPResultCode(codes[n-1])
	}
	srv := wire.Start(serverFor("", r))
	c := srv.Dial(nil)
	other := srv.Dial(nil)
	bound := sym.Choice("bound", 2) == 1
	if bound {
		codes = append(codes, 0)
		sym.Assert(c.One(1, wire.Bind("cn=u,o=b", "pw")).Code == 0, "bind fails")
	}
	k := sym.Param("requests", 2)
	stream := ""
	var qs []question
	for i := 0; i < k; i++ {
		code := sym.Byte("code")
		if i < k-1 {
			// later requests are evaluated with the identity of this one
			sym.Assume(sym.Implies(!bound, code != 0))
		}
		q, m := ask(bound, code)
		if q.calls == 1 {
			codes = append(codes, code)
		}
		stream += m
		qs = append(qs, q)
	}
	// however the bytes arrive
	cut := sym.Choice("cut", 3) * len(stream) / 3
	if cut > 0 {
		c.Send(stream[:cut])
	}
	c.Send(stream[cut:])
	for _, q := range qs {
		res, ok := c.Final()
		sym.Assert(ok && len(res) == 1, "request is not answered once")
		sym.Assert(res[0].Tag == q.tag, "response has the wrong type")
		sym.Assert(res[0].ID == q.id, "response has the wrong message id")
		if q.code < 0 {
			sym.Assert(res[0].Code != 0, "unsupported request answered with success")
			sym.Cover("unsupported")
		} else {
			sym.Assert(res[0].Code == q.code, "response does not carry the decided result")
			sym.Cover("answered")
		}
	}
	c.Send(wire.Msg(1, wire.Unbind()))
	sym.Assert(len(c.WaitClosed()) == 0, "more than one response")
	sym.Assert(len(other.Rest()) == 0, "response on another connection")
	srv.Stop()
}
