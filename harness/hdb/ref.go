// Package hdb: the bolt-backed database (package ldbbolt) against a reference
// directory.
package hdb

import (
	"github.com/go-ldap/ldap/v3"
	"github.com/sirupsen/logrus"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/sym"
)

const base = "o=b"

func quiet() *logrus.Logger {
	l := logrus.New()
	l.SetLevel(logrus.PanicLevel)
	return l
}

func open(path string) *ldbbolt.LdbBolt {
	db := &ldbbolt.LdbBolt{}
	err := db.Configure(quiet(), base, path, nil)
	sym.Assert(err == nil, "database does not open")
	err = db.Initialize()
	sym.Assert(err == nil, "database does not initialise")
	return db
}

func newDB() *ldbbolt.LdbBolt { return open(sym.TempDir() + "/idm.db") }

// attr is an attribute of the reference directory.
type attr struct {
	name string
	vals []string
}

// node is an entry of the reference directory. rdns are "type=value" strings,
// leaf first, compared ignoring case; the last one is the base.
type node struct {
	rdns  []string
	attrs []attr
}

type dir struct{ nodes []*node }

// same compares names (forks in the executor).
func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, sym.FoldEq(a[i], b[i]))
	}
	if eq {
		return true
	}
	return false
}

func (d *dir) find(r []string) *node {
	for _, n := range d.nodes {
		if same(n.rdns, r) {
			return n
		}
	}
	return nil
}

func (d *dir) children(n *node) []*node {
	var r []*node
	for _, x := range d.nodes {
		if len(x.rdns) == len(n.rdns)+1 && same(x.rdns[1:], n.rdns) {
			r = append(r, x)
		}
	}
	return r
}

// below returns n and everything under it.
func (d *dir) below(n *node) []*node {
	var r []*node
	for _, x := range d.nodes {
		if k := len(x.rdns) - len(n.rdns); k >= 0 && same(x.rdns[k:], n.rdns) {
			r = append(r, x)
		}
	}
	return r
}

func (d *dir) remove(n *node) {
	var r []*node
	for _, x := range d.nodes {
		if x != n {
			r = append(r, x)
		}
	}
	d.nodes = r
}

func join(rdns []string) string {
	s := ""
	for i, r := range rdns {
		if i > 0 {
			s += ","
		}
		s += r
	}
	return s
}

func parse(dn string) []string {
	p, err := ldap.ParseDN(dn)
	sym.Assert(err == nil, "returned entry has an invalid name")
	var r []string
	for _, rdn := range p.RDNs {
		s := ""
		for i, a := range rdn.Attributes {
			if i > 0 {
				s += "+"
			}
			s += a.Type + "=" + a.Value
		}
		r = append(r, s)
	}
	return r
}

// sameVals compares value lists as multisets, exactly, without forking.
func sameVals(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for _, x := range a {
		na, nb := 0, 0
		for _, y := range a {
			na += sym.Ite(x == y, 1, 0)
		}
		for _, y := range b {
			nb += sym.Ite(x == y, 1, 0)
		}
		ok = sym.And(ok, na == nb)
	}
	return ok
}

func sameAttrs(want []attr, got []*ldap.EntryAttribute) bool {
	n := 0
	for _, w := range want {
		if len(w.vals) > 0 {
			n++
		}
	}
	if n != len(got) {
		return false
	}
	ok := true
	for _, w := range want {
		if len(w.vals) == 0 {
			continue
		}
		has := false
		for _, g := range got {
			has = sym.Or(has, sym.And(sym.FoldEq(w.name, g.Name), sameVals(w.vals, g.Values)))
		}
		ok = sym.And(ok, has)
	}
	return ok
}

// sameT is same without forking.
func sameT(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, sym.FoldEq(a[i], b[i]))
	}
	return eq
}

// inScope says whether x is in scope of a search at base t.
func inScope(x, t []string, scope int) bool {
	k := len(x) - len(t)
	switch {
	case k < 0, scope == ldap.ScopeBaseObject && k != 0, scope == ldap.ScopeSingleLevel && k != 1:
		return false
	}
	return sameT(x[k:], t)
}

// expect checks that a search result is exactly the entries in scope.
func expect(got []*ldap.Entry, d *dir, t []string, scope int, what string) {
	names := make([][]string, len(got))
	known := make([]bool, len(got))
	for i, e := range got {
		names[i] = parse(e.DN)
	}
	once, right := true, true
	for _, w := range d.nodes {
		n := 0
		for i, e := range got {
			eq := sameT(names[i], w.rdns)
			n += sym.Ite(eq, 1, 0)
			known[i] = sym.Or(known[i], eq)
			right = sym.And(right, sym.Implies(eq, sameAttrs(w.attrs, e.Attributes)))
		}
		once = sym.And(once, n == sym.Ite(inScope(w.rdns, t, scope), 1, 0))
	}
	sym.Assert(once, what+": not exactly the entries in scope")
	sym.Assert(right, what+": wrong attributes")
	sym.Assert(sym.And(known...), what+": unexpected entry")
}

// audit compares every search of the database with the reference directory.
func audit(db *ldbbolt.LdbBolt, d *dir, what string) {
	for _, n := range d.nodes {
		dn := join(n.rdns)
		for scope := 0; scope < 3; scope++ {
			got, err := db.Search(dn, scope)
			sym.Assert(err == nil, what+": search fails")
			expect(got, d, n.rdns, scope, what+": "+[]string{"base", "one-level", "subtree"}[scope]+" search")
		}
	}
}

func entry(rdns []string, attrs []attr) *ldap.Entry {
	e := &ldap.Entry{DN: join(rdns)}
	for _, a := range attrs {
		e.Attributes = append(e.Attributes, ldap.NewEntryAttribute(a.name, append([]string{}, a.vals...)))
	}
	return e
}
