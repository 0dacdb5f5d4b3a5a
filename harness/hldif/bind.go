// Package hldif: servers on LDIF files.
package hldif

import (
	"net"
	"strconv"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const base = "o=b"

// rec is a record of an LDIF file.
func rec(dn string, av ...string) string {
	s := "dn: " + dn + "\n"
	for i := 0; i < len(av); i += 2 {
		s += av[i] + ": " + av[i+1] + "\n"
	}
	return s + "\n"
}

// Bind: a bind succeeds with the right password only.
func Bind() {
	n := sym.Choice("stored length", sym.Param("n", 2)+1)
	pw := sym.StringIn("stored", n, app.Letters+"0{}$")
	for i := 1; i < n; i++ {
		sym.Assume(sym.Not(sym.And(pw[i-1] == '{', pw[i] == '{'))) // a template
	}
	kind := sym.Choice("kind", app.Kinds+1)
	x := sym.StringIn("entry", 1, app.Letters)
	ok := false
	av := []string{"sn", "v"}
	if kind < app.Kinds {
		var s string
		s, ok = app.Stored(kind, pw)
		if s == "" {
			sym.Stop() // not a line of LDIF
		}
		ok = sym.And(ok, n > 0)
		av = append(av, "USERPASSWORD", s)
	}
	second := ""
	if (kind < 2 || kind == app.Kinds) && sym.Choice("second", 2) == 1 {
		second = sym.StringIn("second", 1, app.Letters)
		av = append(av, "userPassword", second)
	}
	main := rec(base, "o", "b")
	config := ""
	where := kind % 3
	if kind == 0 || kind == app.Kinds {
		where = sym.Choice("where", 4)
	}
	switch where {
	case 0: // no configuration
		main += rec("cn="+x+",o=b", av...)
	case 1:
		main += rec("cn="+x+",o=b", av...)
		config = rec("cn=conf,o=b", "userPassword", "pc")
	case 2:
		main += rec("cn=conf,o=b", "userPassword", "pc")
		config = rec("cn="+x+",o=b", av...)
	case 3: // the configuration decides
		main += rec("cn=conf,o=b", "userPassword", "pc") + rec("CN="+x+",o=b", "userPassword", sym.StringIn("other", 1, app.Letters))
		config = rec("cn="+x+",o=b", av...)
	}
	s := app.LDIF(base, "", n != 1, main, config)
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	m := sym.Choice("presented length", sym.Param("m", 2)+1)
	given := sym.StringIn("given", m, app.Text)
	y := sym.StringIn("name", 1, app.Letters)
	r := c.One(1, wire.Bind("Cn="+y+",O=b", given))
	match := sym.And(ok, given == pw)
	if second != "" {
		match = sym.Or(match, given == second)
	}
	want := sym.And(match, sym.FoldEq(x, y), m > 0)
	sym.Assert(sym.Implies(r.Code == 0, want), "bind accepted without the right password")
	sym.Assert(sym.Implies(want, r.Code == 0), "bind with the right password refused")
	if r.Code == 0 {
		sym.Cover("accepted " + strconv.Itoa(where))
	} else {
		sym.Cover("refused " + strconv.Itoa(where))
	}
	d := s.Dial(nil)
	sym.Assert(d.One(2, wire.Bind([]string{"o=b", "CN=conf,O=b", "CN=conf,O=b", "CN=conf,O=b"}[where], "pc")).Code == 0 == (where > 0), "wrong answer to another bind")
	s.Stop()
}

// Odd: names that are no entry of the directory, and anonymous binds from
// anywhere.
func Odd() {
	main := rec(base, "o", "b") + rec("cn=a,o=b", "userPassword", "pa") + rec("cn=c,o=x", "userPassword", "pc") + rec("cn=d,xo=b", "userPassword", "pd")
	config := []string{"", rec("cn=e,xo=b", "userPassword", "pe") + rec("cn=e,o=b", "userPassword", "pf")}[sym.Choice("configuration", 2)]
	form := sym.Choice("name", 10)
	anon, addr, local, name := true, net.Addr(app.Peer{S: "127.0.0.1:9"}), true, ""
	if form == 9 {
		name = sym.String("free", sym.Param("free", 3))
		for i := 0; i < len(name); i++ {
			sym.Assume(name[i] < 0x80)
		}
	} else {
		anon = sym.Choice("anonymous", 2) == 1
		addr, local = app.Somewhere()
		name = []string{"", base, "o=x", "cn=a", "cn=a,o=x", "cn=c,o=x", "cn=d,xo=b", "cn=e,xo=b", "cn=b,o=b"}[form]
	}
	s := app.LDIF(base, "", anon, main, config)
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(addr)
	pw := ""
	if n := sym.Choice("presented length", 2); n == 1 {
		pw = "p" + sym.StringIn("given", 1, app.Letters)
	}
	r := c.One(1, wire.Bind(name, pw))
	want := sym.And(form == 0, pw == "", anon, local)
	sym.Assert(sym.Implies(r.Code == 0, want), "bind accepted that must not be")
	sym.Assert(sym.Implies(want, r.Code == 0), "anonymous bind refused")
	if r.Code == 0 {
		sym.Cover("anonymous")
	} else {
		sym.Cover("refused")
	}
	d := s.Dial(nil)
	sym.Assert(d.One(2, wire.Bind("cn=a,o=b", "pa")).Code == 0, "bind refused")
	s.Stop()
}
