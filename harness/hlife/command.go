package hlife

import (
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/cmd/idmd/serve"
	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// request sends requests over a new connection and returns the responses.
func request(address string, k int, reqs ...string) (r []wire.Resp) {
	c, err := net.Dial("tcp", address)
	sym.Assert(err == nil, "server does not listen")
	defer c.Close()
	c.SetDeadline(time.Now().Add(5 * time.Second))
	for i, q := range reqs {
		_, err = c.Write([]byte(wire.Msg(byte(i+1), q)))
		sym.Assert(err == nil, "server does not read")
	}
	for len(r) < k {
		b := make([]byte, 2)
		_, err = io.ReadFull(c, b)
		sym.Assert(err == nil && b[1] < 0x80, "server does not answer")
		p := make([]byte, b[1])
		_, err = io.ReadFull(c, p)
		sym.Assert(err == nil, "server does not answer")
		r = append(r, wire.Decode(string(b)+string(p))...)
	}
	return r
}

// options of the command.
type options map[string]string

// give gives an option, by the environment if the command line does not.
func (o options) give(option, env, good, bad string) {
	switch sym.Choice(option, 3) {
	case 0:
		o[option] = good
		os.Unsetenv("IDMD_DEFAULT_" + env)
	case 1:
		os.Setenv("IDMD_DEFAULT_"+env, good)
	case 2:
		o[option] = good
		os.Setenv("IDMD_DEFAULT_"+env, bad)
	}
}

// run runs the command.
func (o options) run() chan struct{} {
	c := serve.CommandServe()
	for k, v := range o {
		sym.Assert(c.Flags().Set(k, v) == nil, "option is not known")
	}
	c.PreRun(c, nil)
	done := make(chan struct{})
	go func() {
		c.Run(c, nil)
		close(done)
	}()
	sym.Drain()
	return done
}

// reset makes the defaults those of the program.
func reset() {
	serve.DefaultLDAPBaseDN, serve.DefaultLDAPAdminDN, serve.DefaultLDAPSListenAddr = "", "", ""
	serve.DefaultTLSCertFile, serve.DefaultTLSKeyFile, serve.DefaultBoltDBFile = "", "", "idmbolt.db"
	serve.DefaultLDAPHandler, serve.DefaultLogLevel, serve.DefaultLDAPAllowLocalAnonymousBind = "ldif", "info", false
	serve.DefaultLDIFCompany, serve.DefaultLDIFMailDomain = "Default", ""
	for _, v := range []string{"LDAPS_LISTEN", "TLS_CERT_FILE", "TLS_KEY_FILE", "LDIF_TEMPLATE_COMPANY", "LDIF_TEMPLATE_MAIL_DOMAIN", "LDAP_ADMINDN", "LDIF_CONFIG_PATH", "BOLTDB_FILE"} {
		os.Unsetenv("IDMD_DEFAULT_" + v)
	}
}

// Serve: options of the command, or else the environment, configure the server.
func Serve() {
	wire.Quiet = true
	reset()
	address := free()
	letter := sym.StringIn("base", 1, app.Letters)
	dn := "dc=" + letter
	file := app.Write("main.ldif", "dn: "+dn+"\nobjectClass: top\no: {{.Company}}\nmail: m@{{.MailDomain}}\n")
	set := options{}
	set.give("ldap-listen", "LDAP_LISTEN", address, "127.0.0.1:1")
	set.give("ldap-base-dn", "LDAP_BASEDN", dn, "o=other")
	set.give("ldif-main", "LDIF_MAIN_PATH", file, file+"x")
	company, domain, enc := "Default", "", ""
	switch sym.Choice("more", 3) {
	case 1:
		company, domain = "Some Company", "mail.example"
		set.give("ldif-template-default-company", "LDIF_TEMPLATE_COMPANY", company, "Other")
		set.give("ldif-template-default-mail-domain", "LDIF_TEMPLATE_MAIL_DOMAIN", domain, "other.example")
	case 2:
		enc = free()
		set.give("ldaps-listen", "LDAPS_LISTEN", enc, "127.0.0.1:1")
		set.give("tls-cert-file", "TLS_CERT_FILE", app.Write("cert.pem", certPEM), "other")
		set.give("tls-key-file", "TLS_KEY_FILE", app.Write("key.pem", keyPEM), "other")
	}
	anonymous := sym.Choice("anonymous", 2) == 1
	if anonymous {
		set["ldap-allow-local-anonymous"] = "true"
	}
	done := set.run()
	if anonymous {
		r := request(address, 3, wire.Bind("", ""), wire.Search(dn, 2, 0, false, wire.Present("objectClass")))
		sym.Assert(r[0].Code == 0, "anonymous bind is refused")
		sym.Assert(sym.FoldEq(r[1].DN, dn) && r[2].Code == 0, "search does not find the entry")
		sym.Assert(len(r[1].Attrs) == 3, "wrong attributes")
		for _, a := range r[1].Attrs {
			sym.Assert(a.Name != "o" || a.Vals[0] == company, "wrong company")
			sym.Assert(a.Name != "mail" || domain == "" || a.Vals[0] == "m@"+domain, "wrong mail domain")
		}
		r = request(address, 2, wire.Bind("", ""), wire.Search("dc=none", 2, 0, false, wire.Present("objectClass")))
		sym.Assert(r[1].Code != 0, "search outside the base is answered")
		sym.Cover("anonymous")
	} else {
		r := request(address, 1, wire.Bind("", ""))
		sym.Assert(r[0].Code != 0, "anonymous bind is accepted")
		sym.Cover("not anonymous")
	}
	if enc != "" {
		sym.Assert(ask(enc, true), "server does not listen with encryption")
		sym.Cover("encrypted")
	}
	sym.Observe("running", true)
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-done
}

// Bound: the administrator, the database and the configuration file are the
// given ones.
func Bound() {
	wire.Quiet = true
	reset()
	address := free()
	set := options{"ldap-listen": address, "ldap-base-dn": "o=b"}
	user := "cn=" + sym.StringIn("user", 1, app.Letters) + ",o=b"
	admin := "cn=" + sym.StringIn("admin", 1, app.Letters) + ",o=b"
	pw := sym.StringIn("password", 1, app.Letters)
	given := sym.StringIn("given", 1, app.Letters)
	if sym.Choice("handler", 2) == 0 {
		file := sym.TempDir() + "/users.db"
		db := &ldbbolt.LdbBolt{}
		sym.Assert(db.Configure(app.Logger(), "o=b", file, nil) == nil && db.Initialize() == nil, "no database")
		for _, e := range []*ldap.Entry{
			ldap.NewEntry("o=b", map[string][]string{"o": {"b"}}),
			ldap.NewEntry(user, map[string][]string{"userPassword": {pw}}),
		} {
			sym.Assert(db.EntryPut(e) == nil, "no entry")
		}
		db.Close()
		set["ldap-handler"] = "boltdb"
		set.give("boltdb-file", "BOLTDB_FILE", file, file+"x")
		if sym.Choice("administrator", 2) == 1 {
			set.give("ldap-admin-dn", "LDAP_ADMINDN", admin, "cn=other,o=b")
		} else {
			admin = ""
		}
		done := set.run()
		r := request(address, 2, wire.Bind(user, given), wire.Add("cn=new,o=b", wire.Attr{Name: "sn", Vals: []string{"w"}}))
		sym.Assert(sym.Iff(r[0].Code == 0, given == pw), "bind is not decided by the database")
		sym.Assert(sym.Iff(r[1].Code == 0, sym.And(given == pw, sym.FoldEq(user, admin))), "write access of the administrator is wrong")
		sym.Observe("bind", r[0].Code)
		sym.Observe("add", r[1].Code)
		sym.Cover("database")
		syscall.Kill(os.Getpid(), syscall.SIGTERM)
		<-done
		return
	}
	set["ldif-main"] = app.Write("main.ldif", "dn: o=b\nobjectClass: top\n")
	set.give("ldif-config", "LDIF_CONFIG_PATH", app.Write("config.ldif", "dn: "+user+"\nobjectClass: top\nuserPassword: "+pw+"\n"), "other")
	done := set.run()
	r := request(address, 1, wire.Bind(user, given))
	sym.Assert(sym.Iff(r[0].Code == 0, given == pw), "bind is not decided by the configuration")
	sym.Observe("code", r[0].Code)
	sym.Cover("configuration")
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-done
}

// Refusals: a configuration that cannot work is refused with an error status.
func Refusals() {
	reset()
	c := serve.CommandServe()
	opt := func(name, value string) { sym.Assert(c.Flags().Set(name, value) == nil, "option is not known") }
	file := app.Write("main.ldif", "dn: dc=a\nobjectClass: top\n")
	opt("ldap-base-dn", "dc=a")
	opt("ldap-listen", free())
	switch sym.Choice("mistake", 7) {
	case 0: // handler
		h := sym.StringIn("handler", 4, app.Letters)
		sym.Assume(h != "ldif")
		opt("ldap-handler", h)
		opt("ldif-main", file)
	case 1:
		opt("ldif-main", file+"x")
	case 2:
		opt("ldif-main", app.Write("main.ldif", "dn: dc=a\nobjectClass\n"))
	case 3:
		opt("ldif-main", file)
		opt("ldif-config", file+"x")
	case 4: // certificates
		opt("ldif-main", file)
		opt("ldaps-listen", free())
		switch sym.Choice("given", 3) {
		case 1:
			opt("tls-cert-file", app.Write("cert.pem", certPEM))
		case 2:
			opt("tls-key-file", app.Write("key.pem", keyPEM))
		}
	case 5:
		opt("ldif-main", file)
		opt("ldaps-listen", free())
		opt("tls-cert-file", app.Write("cert.pem", certPEM))
		opt("tls-key-file", app.Write("key.pem", certPEM))
	case 6:
		opt("ldif-main", file)
		a, l := taken()
		defer l.Close()
		opt("ldap-listen", a)
	}
	code, exited := sym.Exits(func() { c.PreRun(c, nil) })
	if !exited {
		code, exited = sym.Exits(func() { c.Run(c, nil) })
	}
	sym.Assert(exited && code != 0, "server does not end with an error status")
	sym.Cover("refused")
}
