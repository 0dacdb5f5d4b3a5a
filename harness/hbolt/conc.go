package hbolt

import (
	"strconv"
	"strings"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

func at(file string) *wire.Server {
	s := app.New(&server.Config{LDAPHandler: "boltdb", LDAPBaseDN: base, LDAPAdminDN: "cn=adm,o=b", BoltDBFile: sym.TempDir() + "/" + file})
	sym.Assert(s != nil, "server does not start")
	return s
}

// answer shows a response.
func answer(rs []wire.Resp) string {
	t := ""
	for _, r := range rs {
		t += "[" + strconv.Itoa(int(r.Tag)) + " " + strconv.Itoa(r.Code) + " " + r.DN
		for _, a := range r.Attrs {
			if a.Name != "userPassword" {
				t += " " + a.Name + "=" + strings.Join(a.Vals, "|")
			}
		}
		t += "]"
	}
	return t
}

// state shows the directory and the passwords that are valid.
func state(s *wire.Server, rd *wire.Conn) string {
	t := answer(dump(rd))
	c := s.Dial(nil)
	for i, p := range []string{"pu", "np", "nq"} {
		t += "/" + strconv.Itoa(c.One(byte(i+1), wire.Bind("cn=u,o=b", p)).Code)
	}
	return t
}

func request(tag, arg string, from int) (int, string) {
	k := from + sym.Choice(tag, 7-from)
	x := "cn=" + sym.StringIn(tag+".x", 1, letters) + ",o=b"
	switch k {
	case 0:
		return k, wire.Add(x, wire.Attr{Name: "sn", Vals: []string{arg}})
	case 1:
		return k, wire.Del(x)
	case 2:
		return k, wire.Modify(x, wire.Change{Op: 0, Attr: wire.Attr{Name: "sn", Vals: []string{arg}}})
	case 3:
		return k, wire.ModifyDN(x, "cn="+sym.StringIn(tag+".new", 1, letters), true)
	case 4:
		pw := "n" + arg
		return k, wire.PwModify(&x, nil, &pw)
	case 5:
		return k, wire.Bind("cn=u,o=b", "pu")
	}
	return k, wire.Search(base, 2, 0, false, wire.Not(wire.Eq("x", "y")))
}

// Concurrent: requests on two connections act like one after the other.
func Concurrent() {
	wire.Quiet = true
	sym.Sched(false)
	a, ra := request("first", "p", 0)
	_, rb := request("second", "q", a)
	reqs := []string{ra, rb}
	var want []string
	outcome := func(file string, order []int) string {
		fillAt(file, entry(base), entry("cn=adm,o=b", "pr"), entry("cn=u,o=b", "pu"))
		s := at(file)
		cs := []*wire.Conn{reader(s, "cn=adm,o=b", "pr"), reader(s, "cn=adm,o=b", "pr")}
		rd := reader(s, "cn=adm,o=b", "pr")
		t := make([]string, 2)
		if order == nil {
			sym.Drain()
			for i, c := range cs {
				c.Send(wire.Msg(byte(i+2), reqs[i]))
			}
			sym.Sched(true)
			for i, c := range cs {
				r, ok := c.Final()
				sym.Assert(ok, "request is not answered")
				t[i] = answer(r)
			}
			sym.Sched(false)
			sym.Drain()
		}
		for _, i := range order {
			r, ok := cs[i].Do(wire.Msg(byte(i+2), reqs[i]))
			sym.Assert(ok, "request is not answered")
			t[i] = answer(r)
		}
		w := state(s, rd)
		s.Stop()
		return w + "#" + strings.Join(t, "#")
	}
	for i, p := range [][]int{{0, 1}, {1, 0}} {
		want = append(want, outcome("order"+strconv.Itoa(i)+".db", p))
	}
	got := outcome("idm.db", nil)
	sym.Assert(sym.Or(got == want[0], got == want[1]), "requests do not act one after the other")
	sym.Cover("compared")
}
