package hdb

import (
	"strings"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/cmd/idmd/boltdb/load"
	"github.com/libregraph/idm/zzverif/sym"
)

// wide is a directory with many siblings and a deep branch.
func wide(children, depth int) [][]string {
	r := [][]string{{base}}
	for i := 0; i < children; i++ {
		r = append(r, []string{"ou=" + letters[i:i+1], base})
	}
	p := r[len(r)-1]
	for i := 0; i < depth; i++ {
		p = append([]string{"ou=" + letters[i%3:i%3+1]}, p...)
		r = append(r, p)
	}
	return r
}

// Large: operations on a directory with many siblings and levels.
func Large() {
	db := newDB()
	d := build(db, wide(sym.Param("children", 7), sym.Param("depth", 5)))
	for i := sym.Param("ops", 2); i > 0; i-- {
		p := d.nodes[[]int{0, sym.Param("children", 7), len(d.nodes) - 1}[sym.Choice("parent", 3)]]
		r := append([]string{name("name")}, p.rdns...)
		switch sym.Choice("op", 3) {
		case 0:
			doAdd(db, d, r, "new")
		case 1:
			doDelete(db, d, r)
		case 2:
			doRename(db, d, r, "z", sym.Choice("delete old", 2) == 1)
		}
	}
	audit(db, d, "large")
	for scope := 0; scope < 3; scope++ {
		for _, n := range []*node{d.nodes[0], d.nodes[len(d.nodes)/2]} {
			got, err := db.Search(join(n.rdns), scope)
			sym.Assert(err == nil, "search of an existing entry fails")
			expect(got, d, n.rdns, scope, "search")
		}
	}
	db.Close()
}

// LargeModify: many changes to an entry with many attributes and values.
func LargeModify() {
	db := newDB()
	d := build(db, [][]string{{base}})
	rdns := []string{"c=n", base}
	many := attr{"d", nil}
	for i := sym.Param("values", 6); i > 0; i-- {
		many.vals = append(many.vals, letters[i-1:i])
	}
	at := []attr{{"c", []string{"n"}}, {"e", []string{"1", "2"}}, {"f", []string{"1"}}, {"g", []string{"1"}}, {"h", []string{"1"}}, many, {"i", []string{"1"}}, {"j", []string{"a"}}}
	sym.Assert(db.EntryPut(entry(rdns, at)) == nil, "adding a valid entry fails")
	one := func() change {
		return change{uint(sym.Choice("kind", 3)), []string{"d", "J", "x"}[sym.Choice("type", 3)], []string{sym.StringIn("value", 1, letters)}}
	}
	cs := []change{one(), {ldap.ReplaceAttribute, "E", []string{"3", "4", "5", "6"}}, {ldap.AddAttribute, "y", []string{"a", "b", "c", "d", "e"}}, one(), {ldap.AddAttribute, "e", []string{"7", "3"}}, {ldap.DeleteAttribute, "h", nil}}
	req := &ldap.ModifyRequest{DN: join(rdns)}
	for _, c := range cs {
		req.Changes = append(req.Changes, ldap.Change{Operation: c.op, Modification: ldap.PartialAttribute{Type: c.typ, Vals: append([]string{}, c.vals...)}})
	}
	err := db.EntryModify(req)
	want, ok := apply(at, []attr{{"c", []string{"n"}}}, cs)
	sym.Assert(err == nil && ok, "modify refused")
	d.nodes = append(d.nodes, &node{rdns, want})
	audit(db, d, "after modify")
	sym.Cover("accepted")
	db.Close()
}

// LargeExport: exporting and loading many entries with many and long values.
func LargeExport() {
	path, path2 := sym.TempDir()+"/idm.db", sym.TempDir()+"/two.db"
	db := open(path)
	d := build(db, wide(sym.Param("children", 7), sym.Param("depth", 5)))
	at := []attr{{"cn", []string{"a", "b", "c", "d", "e", "f"}}, {"description", []string{"x"}}, {"l", []string{"x"}}, {"mail", []string{"x"}}, {"sn", []string{"x"}}, {"zz", []string{"x"}}}
	i := sym.Choice("attribute", len(at))
	v := sym.String("value", 1)
	switch sym.Choice("form", 3) {
	case 1:
		v = strings.Repeat("v", 80) + v
	case 2:
		v += strings.Repeat("v", 300)
	}
	at[i].vals[sym.Choice("value", 2)*(len(at[i].vals)-1)] = v
	p := d.nodes[sym.Choice("parent", 2)*(len(d.nodes)-1)]
	sym.Assert(db.EntryPut(entry(append([]string{"c=x"}, p.rdns...), at)) == nil, "adding a valid entry fails")
	first, err := db.Search(base, 2)
	sym.Assert(err == nil, "search fails")
	db.Close()
	fn := exported(path)
	l, err := load.NewLDIFLoader("panic", path2, base)
	sym.Assert(err == nil, "loader is not made")
	sym.Assert(l.Load(fn) == nil, "exported directory cannot be loaded")
	db = open(path2)
	second, err := db.Search(base, 2)
	sym.Assert(err == nil, "search fails")
	sym.Assert(len(first) == len(second), "other number of entries")
	for _, e := range first {
		got, err := db.Search(e.DN, 0)
		sym.Assert(err == nil && len(got) == 1, "entry is missing after loading")
		var w []attr
		for _, a := range e.Attributes {
			w = append(w, attr{a.Name, a.Values})
		}
		sym.Assert(sameAttrs(w, got[0].Attributes), "entry differs after loading")
	}
	for _, e := range second {
		sym.Observe("entry", e.DN)
	}
	sym.Cover("loaded")
	db.Close()
}
