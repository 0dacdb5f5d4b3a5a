// Package hcrash: whatever a client sends, the server keeps serving.
package hcrash

import (
	"strings"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// text is any ASCII text, with some other bytes.
func text(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(s[i] < 0x80, s[i] == 0xff, s[i] == 0xc3, s[i] == 0xa9))
	}
	return s
}

// bolt starts a server; the connection it returns is bound as the administrator
// if asked for.
func bolt(admin bool) (*wire.Server, *wire.Conn) {
	if sym.Param("ldif", 0) == 1 {
		text := ""
		for _, dn := range []string{"o=b", "cn=a,o=b", "cn=r,o=b", "cn=probe,o=b"} {
			text += "dn: " + dn + "\nuserPassword: pw\nsn: v\nsn: w\nuid: v\nmail: w\n\n"
		}
		s := app.LDIF("o=b", "cn=a,o=b", false, text, "")
		sym.Assert(s != nil, "server does not start")
		c := s.Dial(nil)
		if admin {
			sym.Assert(c.One(1, wire.Bind("cn=a,o=b", "pw")).Code == 0, "bind fails")
		}
		return s, c
	}
	db := &ldbbolt.LdbBolt{}
	sym.Assert(db.Configure(app.Logger(), "o=b", sym.TempDir()+"/idm.db", nil) == nil, "database does not open")
	sym.Assert(db.Initialize() == nil, "database does not initialise")
	for _, dn := range []string{"o=b", "cn=a,o=b", "cn=r,o=b", "cn=probe,o=b"} {
		e := &ldap.Entry{DN: dn, Attributes: []*ldap.EntryAttribute{{Name: "userPassword", Values: []string{"pw"}}, {Name: "sn", Values: []string{"v", "w"}}}}
		sym.Assert(db.EntryPut(e) == nil, "entry is not stored")
	}
	db.Close()
	s := app.Bolt("o=b", "cn=a,o=b", false)
	c := s.Dial(nil)
	if admin {
		sym.Assert(c.One(1, wire.Bind("cn=a,o=b", "pw")).Code == 0, "bind fails")
	}
	return s, c
}

// alive checks that another client is served.
func alive(s *wire.Server) {
	d := s.Dial(nil)
	sym.Assert(d.One(1, wire.Bind("cn=probe,o=b", "pw")).Code == 0, "another client cannot bind")
	r, ok := d.Do(wire.Msg(2, wire.Search("cn=probe,o=b", 0, 0, false, wire.Present("sn"))))
	sym.Assert(ok && len(r) == 2 && r[1].Code == 0, "another client cannot search")
	sym.Assert(d.One(3, wire.Del("cn=r,o=b")).Code != 0, "another client is not answered")
	s.Stop()
}

// send delivers bytes, ends the connection and waits until the server has
// noticed.
func send(c *wire.Conn, s string) {
	c.Send(s)
	c.Hangup()
	c.WaitClosed()
}

// Bytes: any bytes instead of a request.
func Bytes() {
	s, c := bolt(false)
	n := sym.Choice("length", sym.Param("n", 4)) + 1
	send(c, sym.String("bytes", n))
	sym.Cover("survived")
	alive(s)
}

func templates() []string {
	two := []string{"x", "y"}
	return []string{
		wire.Msg(2, wire.Bind("cn=a,o=b", "pw")),
		wire.Msg(2, wire.Search("o=b", 2, 3, false, wire.And(wire.Eq("sn", "v"), wire.Not(wire.Sub("sn", wire.Initial("v"), wire.Final("w")))), "sn")),
		wire.Msg(2, wire.Add("cn=x,o=b", wire.Attr{Name: "sn", Vals: two})),
		wire.Msg(2, wire.Modify("cn=r,o=b", wire.Change{Op: 1, Attr: wire.Attr{Name: "sn", Vals: two}})),
		wire.Msg(2, wire.ModifyDN("cn=r,o=b", "cn=s", true)),
		wire.Msg(2, wire.Del("cn=r,o=b")),
		wire.Msg(2, wire.PwModify(&two[0], &two[1], &two[0])),
		wire.Msg(2, wire.TLV(0x6e, wire.Octet("cn=r,o=b"), wire.Seq(wire.Octet("sn"), wire.Octet("v")))),
		wire.Msg(2, wire.TLV(0x50, "\x01")),
		wire.Msg(2, wire.Unbind()),
		wire.Msg(2, wire.Search("o=b", 0, 0, true, wire.Present("sn")), paging(wire.Seq(wire.Int(1), wire.Octet("")))),
	}
}

func paging(val string) string {
	return wire.Seq(wire.Octet("1.2.840.113556.1.4.319"), wire.Bool(true), wire.Octet(val))
}

// Mutate: a request with one or several bytes replaced by any others.
func Mutate() {
	s, c := bolt(true)
	ts := templates()
	if sym.Param("ldif", 0) == 1 {
		// the requests that reach the directory
		ts = []string{ts[0], ts[1], ts[10]}
	}
	q := ts[sym.Choice("request", len(ts))]
	i := sym.Choice("position", len(q))
	n := sym.Param("bytes", 1)
	if i+n > len(q) {
		sym.Stop()
	}
	q = q[:i] + sym.String("bytes", n) + q[i+n:]
	if sym.Param("cut", 0) == 1 {
		q = q[:i+n]
	}
	send(c, q)
	sym.Cover("survived")
	alive(s)
}

// Names: requests with anything in the place of a name.
func Names() {
	s, c := bolt(true)
	n := sym.Choice("length", sym.Param("n", 3)+1)
	x := text("name", n)
	if n > 0 && sym.Choice("complete", 2) == 1 {
		x += ",o=b"
	}
	at := wire.Attr{Name: "sn", Vals: []string{"w"}}
	var q string
	switch sym.Choice("request", sym.Param("requests", 9)) {
	case 0:
		q = wire.Bind(x, "pw")
	case 1:
		q = wire.Search(x, sym.Choice("scope", 3), 0, false, wire.Present("sn"))
	case 2:
		q = wire.Add(x, at)
	case 3:
		q = wire.Modify(x, wire.Change{Op: 2, Attr: at})
	case 4:
		q = wire.ModifyDN(x, "cn=s", true)
	case 5:
		q = wire.ModifyDN("cn=r,o=b", x, sym.Choice("delete", 2) == 1)
	case 6:
		q = wire.Del(x)
	case 7:
		q = wire.PwModify(&x, nil, nil)
	case 8:
		q = wire.ModifyDNTo("cn=r,o=b", "cn=s", true, x)
	}
	wire.Quiet = true
	send(c, wire.Msg(2, q))
	wire.Quiet = false
	sym.Cover("survived")
	alive(s)
}

// Controls: requests with anything in the place of a control or its value.
func Controls() {
	s, c := bolt(true)
	types := []string{ldap.ControlTypePaging, ldap.ControlTypeBeheraPasswordPolicy, ldap.ControlTypeVChuPasswordMustChange,
		ldap.ControlTypeVChuPasswordWarning, ldap.ControlTypeManageDsaIT, ldap.ControlTypeSubtreeDelete, ldap.ControlTypeMicrosoftNotification,
		ldap.ControlTypeDirSync, ldap.ControlTypeSyncRequest, ldap.ControlTypeSyncState, ldap.ControlTypeSyncDone, ldap.ControlTypeSyncInfo,
		ldap.ControlTypeServerSideSorting, ldap.ControlTypeServerSideSortingResult, ldap.ControlTypeMicrosoftShowDeleted, ldap.ControlTypeWhoAmI, "1.2", ""}
	oid := wire.Octet(types[sym.Choice("type", len(types))])
	n := sym.Choice("length", sym.Param("n", 3)+1)
	v := sym.String("value", n)
	var ctl string
	switch sym.Choice("form", 8) {
	case 0:
		ctl = wire.Seq(oid)
	case 1:
		ctl = wire.Seq(oid, wire.Octet(v))
	case 2:
		ctl = wire.Seq(oid, wire.Bool(sym.Bool("critical")), wire.Octet(v))
	case 3:
		ctl = wire.Seq(oid, v)
	case 4:
		ctl = wire.Seq(oid, wire.Octet(wire.Seq(v)))
	case 5:
		ctl = wire.Seq(wire.TLV(sym.Byte("tag")&0xdf, v), oid)
	case 6:
		ctl = v
	case 7:
		ctl = wire.Seq(oid, wire.Octet(wire.Seq(wire.Int(1), wire.TLV(4, v))), wire.Octet(v))
	}
	q := []string{wire.Search("o=b", 2, 0, false, wire.Present("sn")), wire.Del("cn=x,o=b"), wire.Bind("cn=a,o=b", "x")}[sym.Choice("request", sym.Param("requests", 1))]
	wire.Quiet = true
	send(c, wire.Msg(2, q, ctl))
	wire.Quiet = false
	sym.Cover("survived")
	alive(s)
}

// filter is anything where a filter is expected.
func filter(d int) string {
	tag := 0xa0 + byte(sym.Choice("filter", 11))
	if k := sym.Param("only", 0); k != 0 {
		sym.Assume(tag == byte(k))
	}
	if tag == 0xaa {
		tag = sym.Byte("tag") & 0xdf
		return wire.TLV(tag, sym.String("data", sym.Choice("length", 3)))
	}
	if tag == 0xa7 {
		tag = 0x87
	}
	n := sym.Choice("parts", 4)
	if n == 3 {
		return wire.TLV(tag&0xdf, text("data", sym.Param("n", 2)))
	}
	s := ""
	for i := 0; i < n; i++ {
		switch k := sym.Choice("part", 4); {
		case k == 0 && d > 0:
			s += filter(d - 1)
		case k == 1:
			s += wire.TLV([]byte{4, 2, 0x30, 0x80}[sym.Choice("kind", 4)], "")
		case k == 2:
			s += wire.Octet(text("text", sym.Param("n", 2)))
		case k == 3:
			s += wire.Seq(wire.TLV(0x80|sym.Byte("piece")&3, text("text", 1)))
		default:
			sym.Stop()
		}
	}
	return wire.TLV(tag, s)
}

// Filters: searches with anything in the place of a filter.
func Filters() {
	s, c := bolt(true)
	wire.Quiet = true
	send(c, wire.Msg(2, wire.Search("o=b", 2, 0, false, filter(sym.Param("depth", 0)))))
	wire.Quiet = false
	sym.Cover("survived")
	alive(s)
}

// node is an element, or text that is itself an element.
type node struct {
	tag  byte
	data string
	kids []*node
}

func tree(s string) []*node {
	var r []*node
	for _, e := range wire.Parse(s) {
		n := &node{tag: e.Tag, data: e.Data}
		if e.Tag&0x20 != 0 || len(e.Data) > 2 && e.Data[0] == 0x30 && int(e.Data[1]) == len(e.Data)-2 {
			n.kids = tree(e.Data)
			n.data = ""
		}
		r = append(r, n)
	}
	return r
}

// enc encodes elements, with a change at the i-th of them.
func enc(ns []*node, i *int, change func(n *node, plain string) string) string {
	s := ""
	for _, n := range ns {
		*i--
		hit := *i == -1
		t := wire.TLV(n.tag, n.data+enc(n.kids, i, change))
		if hit {
			t = change(n, t)
		}
		s += t
	}
	return s
}

func size(ns []*node) int {
	k := 0
	for _, n := range ns {
		k += 1 + size(n.kids)
	}
	return k
}

// Shape: a request with an element removed, repeated, emptied, replaced or
// inserted.
func Shape() {
	s, c := bolt(true)
	ts := templates()
	if sym.Param("ldif", 0) == 1 {
		ts = []string{ts[0], ts[1], ts[10]}
	}
	q := ts[sym.Choice("request", len(ts))]
	ns := tree(q)
	i := sym.Choice("element", size(ns))
	other := func() string {
		t := sym.Byte("tag")
		sym.Assume(t&0x1f != 0x1f)
		return wire.TLV(t, sym.String("content", sym.Choice("length", sym.Param("n", 1)+1)))
	}
	q = enc(ns, &i, func(n *node, plain string) string {
		switch sym.Choice("change", 6) {
		case 0:
			return ""
		case 1:
			return plain + plain
		case 2:
			return wire.TLV(n.tag)
		case 3:
			return other()
		case 4:
			return other() + plain
		}
		return plain + other()
	})
	send(c, q)
	sym.Cover("survived")
	alive(s)
}

// Many: requests with many parts, one of which is arbitrary.
func Many() {
	s, c := bolt(true)
	n := []int{4, 7, 40}[sym.Choice("number", 3)]
	k := sym.Choice("position", 2) * (n - 1)
	v := sym.String("value", sym.Choice("length", sym.Param("n", 2)+1))
	rep := func(usual string) string { return strings.Repeat(usual, k) + v + strings.Repeat(usual, n-1-k) }
	q, ctl := wire.Search("o=b", 2, 0, false, wire.Present("sn")), ""
	switch sym.Choice("kind", 9) {
	case 0: // controls
		ctl = rep(wire.Seq(wire.Octet("1.2"), wire.Octet("x")))
	case 1:
		ctl = rep(wire.Seq(wire.Octet(ldap.ControlTypePaging), wire.Octet(wire.Seq(wire.Int(1), wire.Octet("")))))
	case 2: // levels
		f := wire.Eq("sn", v)
		for i := 0; i < n; i++ {
			f = wire.Not(wire.And(f))
		}
		q = wire.Search("o=b", 2, 0, false, f)
	case 3: // operands
		q = wire.Search("o=b", 2, 0, false, wire.TLV(0xa0+byte(sym.Choice("operator", 2)), rep(wire.Eq("sn", "x"))))
	case 4: // parts
		q = wire.Search("o=b", 2, 0, false, wire.Sub("sn", rep(wire.Any("x"))))
	case 5: // requested attributes
		q = wire.TLV(0x63, wire.Octet("o=b"), wire.TLV(10, "\x02"), wire.TLV(10, "\x00"), wire.Int(0), wire.Int(0), wire.Bool(false), wire.Present("sn"), wire.Seq(rep(wire.Octet("sn"))))
	case 6: // components
		q = wire.Search(rep("ou=x,")+",o=b", 2, 0, false, wire.Present("sn"))
	case 7: // attributes
		q = wire.TLV(0x68, wire.Octet("cn=q,o=b"), wire.Seq(rep(wire.Seq(wire.Octet("sn"), wire.TLV(0x31, wire.Octet("x"))))))
	case 8: // changes
		q = wire.TLV(0x66, wire.Octet("cn=a,o=b"), wire.Seq(rep(wire.Seq(wire.TLV(10, "\x02"), wire.Seq(wire.Octet("sn"), wire.TLV(0x31, wire.Octet("x")))))))
	}
	wire.Quiet = true
	if ctl == "" {
		send(c, wire.Msg(2, q))
	} else {
		send(c, wire.Msg(2, q, ctl))
	}
	wire.Quiet = false
	sym.Cover("survived")
	alive(s)
}
