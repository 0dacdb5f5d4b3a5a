package hdb

import (
	"os"
	"strings"

	"github.com/libregraph/idm/cmd/idmd/boltdb/export"
	"github.com/libregraph/idm/cmd/idmd/boltdb/load"
	"github.com/libregraph/idm/zzverif/sym"
)

// exported runs the export command and returns the name of its output.
func exported(path string) string {
	fn := sym.TempDir() + "/out.ldif"
	f, err := os.Create(fn)
	sym.Assert(err == nil, "file is not created")
	x, err := export.NewLDIFExporter("panic", path, base)
	sym.Assert(err == nil, "exporter is not made")
	old := os.Stdout
	os.Stdout = f
	err = x.Export()
	os.Stdout = old
	f.Close()
	sym.Assert(err == nil, "export fails")
	return fn
}

// Export: an exported directory can be loaded again and is the same.
func Export() {
	path, path2 := sym.TempDir()+"/idm.db", sym.TempDir()+"/two.db"
	db := open(path)
	d := build(db, shapes[len(shapes)-1-sym.Choice("shape", sym.Param("shapes", len(shapes)-1))])
	var at []attr
	k := sym.Param("values", 2)
	v := sym.String("value", sym.Choice("length", sym.Param("n", 2)+1))
	if l := sym.Choice("long", 4); l > 0 {
		v = strings.Repeat("v", []int{0, 60, 61, 135}[l]) + v
	}
	vals, more := []string{v}, 0
	if k > 1 {
		more = sym.Choice("values", 4)
	}
	switch more {
	case 1:
		vals = append(vals, "w")
	case 2:
		vals = append(vals, "")
	}
	at = append(at, attr{"description", vals})
	if more < 3 {
		at = append(at, attr{"ou", []string{"x"}})
	}
	// a name with any characters
	rdn := "ou=x"
	switch sym.Choice("name", 4) {
	case 1:
		c := sym.String("name.c", 1)
		sym.Assume(sym.Not(strings.ContainsAny(c, "\\,+\"<>;=# ")))
		rdn = "ou=x" + c + "y"
	case 3:
		rdn = "ou=" + strings.Repeat("x", 150)
	case 2:
		rdn = "ou=x\\" + []string{",", "20", "c3\\a9", "0a", "\\", "+"}[sym.Choice("name.e", 6)]
	}
	r := append([]string{rdn}, d.nodes[len(d.nodes)-1-sym.Choice("parent", min(len(d.nodes), sym.Param("parents", 9)))].rdns...)
	sym.Assert(db.EntryPut(entry(r, at)) == nil, "adding a valid entry fails")
	first, err := db.Search(base, 2)
	sym.Assert(err == nil, "search fails")
	db.Close()

	fn := exported(path)
	l, err := load.NewLDIFLoader("panic", path2, base)
	sym.Assert(err == nil, "loader is not made")
	sym.Assert(l.Load(fn) == nil, "exported directory cannot be loaded")
	db = open(path2)
	second, err := db.Search(base, 2)
	sym.Assert(err == nil, "search fails")
	sym.Assert(len(first) == len(second), "other number of entries")
	for _, e := range first {
		got, err := db.Search(e.DN, 0)
		sym.Assert(err == nil && len(got) == 1, "entry is missing after loading")
		var w []attr
		for _, a := range e.Attributes {
			w = append(w, attr{a.Name, a.Values})
		}
		sym.Assert(sameAttrs(w, got[0].Attributes), "entry differs after loading")
	}
	for _, e := range second {
		sym.Observe("entry", e.DN)
	}
	sym.Cover("loaded")
	db.Close()
}
