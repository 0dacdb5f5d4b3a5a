package hbolt

import (
	"strings"

	"github.com/libregraph/idm/pkg/ldappassword"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// unchangedBut compares two dumps, leaving the password of one entry aside.
func unchangedBut(a, b []wire.Resp, dn string) bool {
	if len(a) != len(b) {
		return false
	}
	strip := func(rs []wire.Resp) []wire.Resp {
		r := make([]wire.Resp, len(rs))
		for i, x := range rs {
			if x.DN == dn {
				var as []wire.Attr
				for _, at := range x.Attrs {
					if !strings.EqualFold(at.Name, "userPassword") {
						as = append(as, at)
					}
				}
				x.Attrs = as
			}
			r[i] = x
		}
		return r
	}
	return app.Same(strip(a), strip(b))
}

func password(rs []wire.Resp, dn string) []string {
	var r []string
	for _, x := range rs {
		if x.DN == dn {
			for _, a := range x.Attrs {
				if strings.EqualFold(a.Name, "userPassword") {
					r = append(r, a.Vals...)
				}
			}
		}
	}
	return r
}

// PasswordChange: who can change which password, and what changes.
func PasswordChange() {
	wire.Quiet = true // stored hashes are salted
	ec := entry("cn=c,o=b", "pc")
	if sym.Choice("passwords", 2) == 1 {
		ec = entry("cn=c,o=b", "pc", "p"+sym.StringIn("second", 1, "pax"))
		ec.Attributes[1].Name = "USERpassword"
	}
	fill(entry(base), entry("cn=a,o=b", "pa"), ec, entry("cn=n,o=b"), entry("cn=r,o=b", "pr"), entry("cn=a,cn=a,o=b", "qa"))
	admin := []string{"", "cn=" + sym.StringIn("admin", 1, "aAcCx") + ",o=b"}[sym.Choice("administrator", 2)]
	s := app.Bolt(base, admin, true)
	rd := reader(s, "cn=r,o=b", "pr")
	before := dump(rd)
	c := s.Dial(app.Peer{"127.0.0.1:7"})

	// who
	me := ""
	switch sym.Choice("identity", 5) {
	case 0:
	case 1:
		sym.Assert(c.One(1, wire.Bind("", "")).Code == 0, "bind fails")
	case 2:
		sym.Assert(c.One(1, wire.Bind("cn=a,o=b", "no")).Code != 0, "bind succeeds")
	case 3:
		me = "cn=a,o=b"
		sym.Assert(c.One(1, wire.Bind("CN=A,o=b", "pa")).Code == 0, "bind fails")
	case 4:
		me = "cn=c,o=b"
		sym.Assert(c.One(1, wire.Bind("cn=a,o=b", "pa")).Code == 0, "bind fails")
		sym.Assert(c.One(1, wire.Bind(me, "pc")).Code == 0, "bind fails")
	}
	isAdmin := sym.And(me != "", admin != "", sym.FoldEq(admin, me))

	// what
	var id, old, pw *string
	target := me
	x := sym.StringIn("target", 1, letters)
	switch sym.Choice("target", 4) {
	case 0:
	case 1:
		v := "cn=" + x + ", O=b"
		id, target = &v, "cn="+sym.Lower(x)+",o=b"
	case 2:
		v := "cn=a,cn=" + x + ",o=b"
		id, target = &v, "cn=a,cn="+sym.Lower(x)+",o=b"
	case 3:
		v := []string{"o=b", "x", "u:a", "", "cn=a,o=c", ",", "cn=a,cn=a", "o=c"}[sym.Choice("other", 8)]
		id, target = &v, v
		if v == "" {
			target = me
		}
	}
	switch n := sym.Choice("old", 4); n {
	case 0:
	default:
		v := sym.StringIn("old", n-1, "pacqnx{")
		old = &v
	}
	npw := sym.Choice("new", 3) // none, given, given
	if npw > 0 {
		v := sym.String("new", npw)
		pw = &v
	}
	r := c.One(2, wire.PwModify(id, old, pw))
	after := dump(rd)

	who := ""
	for _, e := range before {
		if target == e.DN {
			who = e.DN
		}
	}
	ok := sym.And(me != "", who != "", sym.Or(isAdmin, who == me))
	match, first := true, true // a password, the first one
	if old != nil && *old != "" {
		match, first = false, false
		for i, v := range password(before, who) {
			match = sym.Or(match, v == *old)
			if i == 0 {
				first = match
			}
		}
	}
	sym.Assert(sym.Implies(r.Code == 0, sym.And(ok, match)), "password change accepted that must not be")
	sym.Assert(sym.Implies(sym.And(ok, first), r.Code == 0), "password change refused")
	sym.Assert(r.Tag == 0x78, "wrong response")
	sym.Observe("code", r.Code)
	if r.Code != 0 {
		sym.Assert(app.Same(before, after), "refused password change changes the directory")
		sym.Assert(!r.HasValue, "refused password change returns a password")
		sym.Cover("refused")
		return
	}
	sym.Assert(unchangedBut(before, after, who), "password change changes something else")
	p := password(after, who)
	sym.Assert(len(p) == 1, "not one password")
	now := ""
	if pw != nil {
		sym.Assert(!r.HasValue, "password returned that was not generated")
		now = *pw
		sym.Cover("changed")
	} else {
		v := wire.Parse(r.Value)
		sym.Assert(r.HasValue && len(v) == 1 && v[0].Tag == 0x30 && len(v[0].Kids) == 1 && v[0].Kids[0].Tag == 0x80, "generated password is not returned")
		now = v[0].Kids[0].Data
		sym.Assert(len(now) > 0, "empty password generated")
		sym.Assert(now[0] != '{', "hash returned")
		sym.Cover("generated")
	}
	m, err := ldappassword.Validate(now, p[0])
	sym.Assert(m && err == nil, "stored password does not match the new one")
	sym.Assert(sym.Or(p[0] != now, false), "password stored in clear text")
	d := s.Dial(nil)
	sym.Assert(d.One(3, wire.Bind(who, now)).Code == 0, "bind with the new password fails")
	for _, o := range password(before, who) {
		sym.Assert(sym.Or(o == now, d.One(4, wire.Bind(who, o)).Code != 0), "old password still works")
	}
	s.Stop()
}

// Generate: sequences of password changes with and without a new password.
func Generate() {
	wire.Quiet = true
	fill(entry(base), entry("cn=a,o=b", "pa"), entry("cn=c,o=b", "pc"), entry("cn=r,o=b", "pr"))
	s := app.Bolt(base, "cn=C,o=b", false)
	c := s.Dial(nil)
	me, pw := "cn=a,o=b", "pa"
	present := map[string]string{"cn=a,o=b": "pa", "cn=c,o=b": "pc"}
	if sym.Choice("identity", 2) == 1 {
		me, pw = "cn=c,o=b", "pc"
	}
	sym.Assert(c.One(1, wire.Bind(me, pw)).Code == 0, "bind fails")
	var olds []string
	k := sym.Param("steps", 2)
	for i := 0; i < k; i++ {
		var id, pw *string
		target := me
		switch sym.Choice("target", 3) {
		case 1:
			target = "cn=a,o=b"
			id = &target
		case 2:
			target = "cn=c,o=b"
			id = &target
		}
		given := ""
		switch n := sym.Choice("new", 5); n {
		case 0:
		case 1:
			pw = &given
		case 2, 3:
			given = sym.String("new", n-1)
			pw = &given
		case 4:
			given = "{ARGON2}" + sym.String("new", 1)
			pw = &given
		}
		var old *string
		if sym.Choice("old", 2) == 1 {
			o := present[target]
			old = &o
		}
		req := wire.PwModify(id, old, pw)
		if id == nil && pw == nil && old == nil && sym.Choice("body", 2) == 1 {
			req = wire.Extended(wire.PwModOID)
		}
		r := c.One(2, req)
		sym.Observe("code", r.Code)
		if me == "cn=a,o=b" && target != me {
			sym.Assert(r.Code != 0 && !r.HasValue, "password of somebody else changed")
			sym.Cover("refused")
			continue
		}
		sym.Assert(r.Code == 0, "password change refused")
		now := given
		if given == "" {
			v := wire.Parse(r.Value)
			sym.Assert(r.HasValue && len(v) == 1 && v[0].Tag == 0x30 && len(v[0].Kids) == 1 && v[0].Kids[0].Tag == 0x80, "generated password is not returned")
			now = v[0].Kids[0].Data
			sym.Assert(len(now) > 0, "empty password generated")
			sym.Cover("generated")
		} else {
			sym.Assert(!r.HasValue, "password returned that was not generated")
			sym.Cover("given")
		}
		d := s.Dial(nil)
		sym.Assert(d.One(3, wire.Bind(target, now)).Code == 0, "bind with the new password fails")
		p := password(dump(d), target)
		sym.Assert(len(p) == 1, "not one password")
		sym.Assert(len(p[0]) > 8 && p[0][:8] == "{ARGON2}", "password is not hashed")
		sym.Assert(now != p[0], "hash returned")
		for _, o := range olds {
			if o[0] == target[3] {
				sym.Assert(sym.Or(o[1:] == now, d.One(4, wire.Bind(target, o[1:])).Code != 0), "old password still works")
			}
		}
		present[target] = now
		olds = append(olds, target[3:4]+now)
	}
	s.Stop()
}
