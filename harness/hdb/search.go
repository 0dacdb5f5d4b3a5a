package hdb

import (
	"github.com/libregraph/idm/zzverif/sym"
)

// anyCase is s in an arbitrary mixture of letter case.
func anyCase(tag, s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i : i+1]
		if s[i] >= 'a' && s[i] <= 'z' {
			up := string(rune(s[i] - 32))
			out += sym.StringIn(tag, 1, c+up)
		} else {
			out += c
		}
	}
	return out
}

// Search: scopes on every tree of n entries below the base.
func Search() {
	db := newDB()
	d := &dir{}
	n := sym.Param("n", 3)
	put := func(r []string) {
		at := []attr{{"description", []string{"d" + join(r)}}}
		sym.Assert(db.EntryPut(entry(r, at)) == nil, "adding a valid entry fails")
		d.nodes = append(d.nodes, &node{r, at})
	}
	put([]string{base})
	for i := 0; i < n; i++ {
		p := d.nodes[sym.Choice("parent", i+1)]
		nm := sym.StringIn("name", 1, letters)
		r := append([]string{"ou=" + nm}, p.rdns...)
		for _, c := range d.children(p) {
			sym.Assume(!sym.FoldEq(c.rdns[0], r[0]))
		}
		put(r)
	}
	scope := sym.Choice("scope", 3)
	t := sym.Choice("target", len(d.nodes)+2)
	if t >= len(d.nodes) {
		// a name that does not exist
		r := []string{"ou=" + sym.StringIn("missing", 1, letters), base}
		if t > len(d.nodes) {
			r = []string{r[0], d.nodes[len(d.nodes)-1].rdns[0], base}
		}
		sym.Assume(d.find(r) == nil)
		got, err := db.Search(join(r), scope)
		sym.Assert(err != nil, "search below a missing entry reports no error")
		sym.Assert(len(got) == 0, "search below a missing entry returns entries")
		sym.Cover("missing")
		db.Close()
		return
	}
	tn := d.nodes[t]
	dn := ""
	for i, r := range tn.rdns {
		if i > 0 {
			dn += ","
		}
		if i == len(tn.rdns)-1 {
			dn += anyCase("base", r)
			continue
		}
		v := sym.StringIn("search", 1, letters)
		sym.Assume(sym.FoldEq("ou="+v, r))
		dn += anyCase("type", "ou") + "=" + v
	}
	got, err := db.Search(dn, scope)
	sym.Assert(err == nil, "search of an existing entry fails")
	sym.Observe("entries", len(got))
	expect(got, d, tn.rdns, scope, "search")
	sym.Cover([]string{"base", "one", "sub"}[scope])
	db.Close()
}
