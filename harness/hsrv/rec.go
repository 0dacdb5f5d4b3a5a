// Package hsrv: the LDAP front-end (package ldapserver) driven by an
// independent client, with recording back-ends.
package hsrv

import (
	"errors"
	"net"

	"github.com/go-ldap/ldap/v3"
	"github.com/go-logr/logr"

	"github.com/libregraph/idm/pkg/ldapserver"
)

func init() { ldapserver.Logger(logr.Discard()) }

// call is what a back-end was asked.
type call struct {
	op    string
	bound string
	pw    string
	dn    string
	add   *ldap.AddRequest
	mod   *ldap.ModifyRequest
	ren   *ldap.ModifyDNRequest
	pwm   *ldap.PasswordModifyRequest
	srch  *ldap.SearchRequest
	conn  net.Conn
	which string
}

// rec is a back-end that records calls and answers as told.
type rec struct {
	name    string
	calls   []call
	code    func() ldapserver.LDAPResultCode
	fail    bool
	entries []*ldap.Entry
	res     *ldapserver.ServerSearchResult
	closed  chan string // identities of ended connections
}

func (r *rec) note(c call) (ldapserver.LDAPResultCode, error) {
	c.which = r.name
	r.calls = append(r.calls, c)
	var err error
	if r.fail {
		err = errors.New("told to fail")
	}
	if r.code == nil {
		return 0, err
	}
	return r.code(), err
}

func (r *rec) Add(b string, q *ldap.AddRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return r.note(call{op: "add", bound: b, add: q, dn: q.DN, conn: c})
}
func (r *rec) Bind(dn, pw string, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return r.note(call{op: "bind", dn: dn, pw: pw, conn: c})
}
func (r *rec) Delete(b string, q *ldap.DelRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return r.note(call{op: "delete", bound: b, dn: q.DN, conn: c})
}
func (r *rec) Modify(b string, q *ldap.ModifyRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return r.note(call{op: "modify", bound: b, mod: q, dn: q.DN, conn: c})
}
func (r *rec) ModifyDN(b string, q *ldap.ModifyDNRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return r.note(call{op: "rename", bound: b, ren: q, dn: q.DN, conn: c})
}
func (r *rec) ModifyPasswordExop(b string, q *ldap.PasswordModifyRequest, c net.Conn) (ldapserver.LDAPResultCode, error) {
	return r.note(call{op: "pwmod", bound: b, pwm: q, dn: q.UserIdentity, conn: c})
}
func (r *rec) Search(b string, q *ldap.SearchRequest, c net.Conn) (ldapserver.ServerSearchResult, error) {
	code, err := r.note(call{op: "search", bound: b, srch: q, dn: q.BaseDN, conn: c})
	if r.res != nil {
		res := *r.res
		res.ResultCode = code
		return res, err
	}
	return ldapserver.ServerSearchResult{Entries: r.entries, ResultCode: code}, err
}
func (r *rec) Close(b string, c net.Conn) error {
	if r.closed != nil {
		r.closed <- b
	}
	return nil
}

func (r *rec) last() call { return r.calls[len(r.calls)-1] }

func (r *rec) count() int { return len(r.calls) }

func serverFor(base string, r *rec) *ldapserver.Server {
	s := ldapserver.NewServer()
	register(s, base, r)
	return s
}

func register(s *ldapserver.Server, base string, r *rec) {
	s.AddFunc(base, r)
	s.BindFunc(base, r)
	s.DeleteFunc(base, r)
	s.ModifyFunc(base, r)
	s.ModifyDNFunc(base, r)
	s.PasswordExOpFunc(base, r)
	s.SearchFunc(base, r)
	s.CloseFunc(base, r)
}
