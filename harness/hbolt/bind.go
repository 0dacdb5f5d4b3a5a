package hbolt

import (
	"net"
	"strconv"
	"strings"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const text = app.Text

// Bind: a bind succeeds with the right password only.
func Bind() {
	n := sym.Choice("stored length", sym.Param("n", 2)+1)
	pw := sym.StringIn("stored", n, text)
	kind := sym.Choice("kind", sym.Param("kinds", app.Kinds)+1)
	var e = entry("cn=a,o=b")
	ok := false
	bound := entry(base)
	if kind < app.Kinds {
		var s string
		s, ok = app.Stored(kind, pw)
		ok = sym.And(ok, n > 0)
		if sym.Choice("entry", 2) == 0 {
			e = entry("cn=a,o=b", s)
		} else {
			e = entry("cn=b,cn=a,o=b", s)
			e.Attributes[1].Name = []string{"userPassword", "UserPASSWORD"}[kind%2]
		}
	}
	if e.DN == "cn=a,o=b" {
		fill(bound, e)
	} else {
		fill(bound, entry("cn=a,o=b", "other"), e)
	}
	anon := sym.Choice("anonymous", 2) == 1
	s := app.Bolt(base, "cn=a,o=b", anon)
	c := s.Dial(app.Peer{"127.0.0.1:9"})
	m := sym.Choice("presented length", sym.Param("m", 2)+1)
	given := sym.StringIn("given", m, text)
	x := sym.StringIn("name", 1, letters)
	name := "cn=" + x + ",o=b"
	hit := sym.FoldEq(x, "a")
	if e.DN != "cn=a,o=b" {
		name = "Cn=" + x + ", CN=a,O=B"
		hit = sym.FoldEq(x, "b")
	}
	r := c.One(1, wire.Bind(name, given))
	want := sym.And(ok, hit, m > 0, given == pw)
	sym.Assert(sym.Implies(r.Code == 0, want), "bind accepted without the right password")
	sym.Assert(sym.Implies(want, r.Code == 0), "bind with the right password refused")
	if r.Code == 0 {
		sym.Cover("accepted " + strconv.Itoa(kind))
	} else {
		sym.Cover("refused " + strconv.Itoa(kind))
	}
	s.Stop()
}

// Odd: names that are no entry, and anonymous binds from anywhere.
func Odd() {
	fill(entry(base), entry("cn=a,o=b", "pa"), entry("cn=a,cn=a,o=b", "pb"))
	form := sym.Choice("name", 8)
	anon, addr, local, name := true, net.Addr(app.Peer{"127.0.0.1:9"}), true, ""
	if form == 7 {
		name = sym.String("free", sym.Param("free", 2))
		sym.Assume(name != "")
	} else {
		anon = sym.Choice("anonymous", 2) == 1
		addr, local = app.Somewhere()
		name = []string{"", base, "o=x", "cn=a", "cn=a,o=x", "cn=a,xo=b", "cn=a,cn=b,o=b"}[form]
	}
	s := app.Bolt(base, "cn=a,o=b", anon)
	c := s.Dial(addr)
	m := sym.Choice("presented length", 2)
	pw := sym.StringIn("given", m, text)
	r := c.One(1, wire.Bind(name, pw))
	want := sym.And(form == 0, m == 0, anon, local)
	sym.Assert(sym.Implies(r.Code == 0, want), "bind accepted that must not be")
	sym.Assert(sym.Implies(want, r.Code == 0), "anonymous bind refused")
	if r.Code == 0 {
		sym.Cover("anonymous")
	} else {
		sym.Cover("refused")
	}
	// the server still works
	d := s.Dial(nil)
	sym.Assert(d.One(2, wire.Bind("cn=a,o=b", "pa")).Code == 0, "bind refused")
	s.Stop()
}

// Long: long names and passwords, which differ at the end if at all.
func Long() {
	n := []int{8, 16, 31, 64, 72, 200}[sym.Choice("length", 6)]
	x := sym.StringIn("name", 1, letters)
	long := "cn=" + strings.Repeat("n", n)
	pad := strings.Repeat("p", n)
	pw := pad + sym.StringIn("stored", 1, text)
	kind := []int{0, 1}[sym.Choice("kind", 2)]
	stored, ok := app.Stored(kind, pw)
	sym.Assert(ok, "password is not hashed")
	fill(entry(base), entry("cn=a,o=b", "pa"), entry(long+"a,cn=a,o=b", stored), entry(long+"c,o=b", "pc"))
	s := app.Bolt(base, "cn=a,o=b", true)
	c := s.Dial(app.Peer{"127.0.0.1:9"})
	given := pad + sym.StringIn("given", sym.Choice("given length", 3), text)
	r := c.One(1, wire.Bind(long+x+",CN=a,O=b", given))
	want := sym.And(given == pw, sym.FoldEq(x, "a"))
	sym.Assert(sym.Iff(r.Code == 0, want), "wrong verdict on a password")
	if r.Code != 0 {
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	// it is not the administrator
	sym.Assert(c.One(2, wire.Add("cn=new,o=b", wire.Attr{Name: "sn", Vals: []string{"w"}})).Code != 0, "write by somebody else succeeds")
	who := []string{"cn=a,o=b", long + "a,cn=a,o=b", long + "b,o=b", long + "c,o=b"}[sym.Choice("whom", 4)]
	now := pad + sym.StringIn("new", 1, text)
	r = c.One(3, wire.PwModify(&who, nil, &now))
	sym.Assert(r.Code == 0 == (who == long+"a,cn=a,o=b"), "wrong answer to a password change")
	if r.Code == 0 {
		sym.Assert((c.One(4, wire.Bind(who, pw)).Code == 0) == (pw == now), "old password still works")
		sym.Assert(c.One(5, wire.Bind(who, now)).Code == 0, "bind with the new password fails")
		sym.Assert(c.One(6, wire.Bind(who, pad)).Code != 0, "bind accepted without the right password")
	} else {
		sym.Assert(c.One(8, wire.Bind(long+"c,o=b", "pc")).Code == 0, "refused password change changes the directory")
		sym.Assert(c.One(7, wire.Bind("cn=a,o=b", "pa")).Code == 0, "refused password change changes the directory")
	}
	s.Stop()
}
