package hldif

import (
	"context"
	"os"
	"syscall"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// version is one state of the files.
type version struct {
	value  string // of cn of every entry
	extra  bool   // whether there is a third entry
	pw     string // of the user in the directory
	config string // of the user in the configuration
}

func some(n string) version {
	return version{letter(n + " value"), sym.Choice(n+" extra", 2) == 1, letter(n + " password"), letter(n + " config")}
}

func (v version) main() string {
	s := rec(base, "o", "b", "cn", v.value) + rec("ou=a,o=b", "cn", v.value, "userPassword", v.pw)
	if v.extra {
		s += rec("ou=c,o=b", "cn", v.value)
	}
	return s
}

func (v version) conf() string { return rec("ou=f,o=b", "userPassword", v.config) }

// broken is a file that cannot be loaded; ok is false if it is missing.
func broken(n, good string) (s string, ok bool) {
	switch sym.Choice(n, 5) {
	case 0:
		return "", false
	case 1:
		return good + rec("OU=a,o=b", "cn", "x") + rec("ou=A,o=b", "cn", "x"), true
	case 2:
		return good + "cn: x\n", true
	case 3:
		return good + "\n\ndn: ou=d,o=b\ncn: {{ formatAsFileBase64 \"missing\" }}\n", true
	}
	return good + "\n\ndn: ou=d,o=b\n", true
}

// shows asserts that exactly v is served: main and configuration may be of
// different versions.
func shows(c *wire.Conn, v, conf version) {
	f := []string{wire.Present("cn"), wire.Not(wire.Eq("none", "none"))}[sym.Choice("filter", 2)]
	res, ok := c.Do(wire.Msg(2, wire.Search(base, 2, 0, false, f)))
	sym.Assert(ok && res[len(res)-1].Code == 0, "search fails")
	n := 2
	if v.extra {
		n++
	}
	sym.Assert(len(res)-1 == n, "wrong number of entries")
	for _, r := range res[:n] {
		for _, a := range r.Attrs {
			if a.Name == "cn" {
				sym.Assert(len(a.Vals) == 1 && a.Vals[0] == v.value, "wrong contents")
			}
		}
	}
	p := letter("try")
	sym.Assert((c.One(3, wire.Bind("ou=a,o=b", p)).Code == 0) == (p == v.pw), "wrong password")
	sym.Assert((c.One(4, wire.Bind("ou=f,o=b", p)).Code == 0) == (p == conf.config), "wrong password in the configuration")
}

// Reload: the files are taken over completely or not at all.
func Reload() {
	v := some("old")
	c := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	file, folder := "main.ldif", false
	if sym.Param("folder", 1) == 1 && sym.Choice("folder", 2) == 1 {
		file, folder = "folder/k.ldif", true
		c.LDIFMain = sym.TempDir() + "/folder"
		sym.Assert(os.Mkdir(c.LDIFMain, 0o700) == nil, "folder is not made")
		app.Write(file, v.main())
	} else {
		c.LDIFMain = app.Write(file, v.main())
	}
	c.LDIFConfig = app.Write("config.ldif", v.conf())
	s, h := app.Direct(c)
	sym.Assert(s != nil, "server does not start")
	con := s.Dial(app.Peer{S: "127.0.0.1:9"})
	for i := sym.Param("reloads", 2); i > 0; i-- {
		w := some("new")
		main, conf := w.main(), w.conf()
		mainThere, confThere, good := true, true, true
		k := 0
		if folder {
			k = []int{0, 4, 5}[sym.Choice("broken", 3)]
		} else if i > 1 {
			k = 4 * sym.Choice("broken", 2)
		} else {
			k = sym.Choice("broken", 4)
		}
		switch k {
		case 1:
			main, mainThere = broken("main", main)
			good = false
		case 2:
			conf, confThere = broken("config", conf)
			good = false
		case 3:
			main, mainThere = broken("main", main)
			conf, confThere = broken("config", conf)
			good = false
		case 4: // one way out of many
			main += "cn: x\n"
			good = false
		}
		if folder { // another file, before or after
			other := []string{"folder/a.ldif", "folder/z.ldif"}[sym.Choice("other", 2)]
			if k == 5 {
				app.Write(other, []string{"dn: ou=d,o=b\ncn: {{ formatAsFileBase64 \"missing\" }}\n", "dn: ou=d,o=b\n", "dn: ou=d,o=b\ncn: {{ nothing }}\n"}[sym.Choice("how", 3)])
				good = false
			} else {
				app.Write(other, "# remark\n")
			}
		}
		app.Write(file, main)
		app.Write("config.ldif", conf)
		if !mainThere {
			sym.Assert(os.Remove(c.LDIFMain) == nil, "cannot remove")
		}
		if !confThere {
			sym.Assert(os.Remove(c.LDIFConfig) == nil, "cannot remove")
		}
		err := h.Reload(context.Background())
		sym.Assert((err == nil) == good, "wrong outcome of the reload")
		if good {
			v = w
			sym.Cover("reloaded")
		} else {
			sym.Cover("refused")
		}
		shows(con, v, v)
	}
	s.Stop()
}

// Hangup: the signal makes a running server reload its files.
func Hangup() {
	v := some("old")
	s := app.LDIF(base, "", true, v.main(), v.conf())
	sym.Assert(s != nil, "server does not start")
	con := s.Dial(app.Peer{S: "127.0.0.1:9"})
	sym.Drain()
	for i := sym.Param("signals", 2); i > 0; i-- {
		w := some("new")
		main := w.main()
		if sym.Choice("broken", 2) == 1 {
			main += "cn: x\n"
			sym.Cover("broken")
		} else {
			v = w
			sym.Cover("good")
		}
		app.Write("main.ldif", main)
		app.Write("config.ldif", w.conf())
		sym.Assert(syscall.Kill(os.Getpid(), syscall.SIGHUP) == nil, "cannot send the signal")
		sym.Drain()
		shows(con, v, v)
	}
	s.Stop()
}

// ReloadMeanwhile: a search or bind during a reload sees the old or the new
// contents.
func ReloadMeanwhile() {
	wire.Quiet = true
	sym.Sched(false)
	v, w := version{"a", false, "p", "q"}, version{"b", true, "r", "s"}
	c := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	c.LDIFMain = app.Write("main.ldif", v.main())
	c.LDIFConfig = app.Write("config.ldif", v.conf())
	s, h := app.Direct(c)
	sym.Assert(s != nil, "server does not start")
	con := s.Dial(app.Peer{S: "127.0.0.1:9"})
	sym.Drain()
	good := sym.Choice("good", 2) == 1
	app.Write("config.ldif", w.conf())
	if good {
		app.Write("main.ldif", w.main())
	} else {
		app.Write("main.ldif", w.main()+rec("ou=a,o=b", "cn", "x"))
	}
	what := sym.Choice("request", 4)
	switch what {
	case 0:
		con.Send(wire.Msg(2, wire.Search(base, 2, 0, false, wire.Present("cn"))))
	case 1:
		con.Send(wire.Msg(2, wire.Search(base, 2, 0, false, wire.Not(wire.Eq("none", "none")))))
	case 2:
		con.Send(wire.Msg(2, wire.Bind("ou=a,o=b", "r")))
	case 3:
		con.Send(wire.Msg(2, wire.Bind("ou=f,o=b", "s")))
	}
	done := make(chan error, 1)
	sym.Sched(true)
	go func() { done <- h.Reload(context.Background()) }()
	res, ok := con.Final()
	err := <-done
	sym.Sched(false)
	sym.Drain()
	sym.Assert((err == nil) == good, "wrong outcome of the reload")
	sym.Assert(ok, "request is not answered")
	if what < 2 {
		x := v
		if len(res) == 4 {
			x = w
			sym.Cover("new")
		} else {
			sym.Cover("old")
		}
		sym.Assert(len(res) == 3 || len(res) == 4 && good, "wrong number of entries")
		for _, r := range res[:len(res)-1] {
			for _, a := range r.Attrs {
				sym.Assert(a.Name != "cn" || a.Vals[0] == x.value, "mixture of old and new contents")
			}
		}
	} else if res[0].Code == 0 {
		sym.Assert(good, "password of files that cannot be loaded")
		sym.Cover("new password")
	}
	if good {
		shows(con, w, w)
	} else {
		shows(con, v, v)
	}
	s.Stop()
}
