// Package hbolt: a complete server with the database back-end.
package hbolt

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const base = "o=b"
const letters = app.Letters

func path() string { return sym.TempDir() + "/idm.db" }

// fill creates the database.
func fill(es ...*ldap.Entry) { fillAt("idm.db", es...) }

func fillAt(file string, es ...*ldap.Entry) {
	db := &ldbbolt.LdbBolt{}
	sym.Assert(db.Configure(app.Logger(), base, sym.TempDir()+"/"+file, nil) == nil, "database does not open")
	sym.Assert(db.Initialize() == nil, "database does not initialise")
	for _, e := range es {
		sym.Assert(db.EntryPut(e) == nil, "entry is not stored")
	}
	db.Close()
}

func entry(dn string, pw ...string) *ldap.Entry {
	as := []*ldap.EntryAttribute{{Name: "sn", Values: []string{"v"}}}
	if len(pw) > 0 {
		as = append(as, &ldap.EntryAttribute{Name: "userPassword", Values: pw})
	}
	return &ldap.Entry{DN: dn, Attributes: as}
}

// dump is the directory as a reader sees it.
func dump(c *wire.Conn) []wire.Resp {
	r, ok := c.Do(wire.Msg(100, wire.Search(base, 2, 0, false, wire.Not(wire.Eq("x", "y")))))
	sym.Assert(ok && r[len(r)-1].Code == 0, "search fails")
	return r[:len(r)-1]
}

// reader is a connection that may search.
func reader(s *wire.Server, dn, pw string) *wire.Conn {
	c := s.Dial(nil)
	sym.Assert(c.One(1, wire.Bind(dn, pw)).Code == ldap.LDAPResultSuccess, "bind fails")
	return c
}

const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
