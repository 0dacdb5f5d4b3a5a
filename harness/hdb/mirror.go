package hdb

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/sym"
)

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func name(tag string) string { return "ou=" + sym.StringIn(tag, 1, letters) }

// symName is a DN of depth 0..2 below the base, or one outside of it.
func symName(tag string) []string {
	switch sym.Choice(tag+".depth", 4) {
	case 0:
		return []string{name(tag + ".x"), base}
	case 1:
		return []string{name(tag + ".y"), name(tag + ".x"), base}
	case 2:
		return []string{[]string{base, "O=B"}[sym.Choice(tag+".b", 2)]}
	}
	return []string{name(tag + ".x"), "o=c"}
}

// shapes are the directories the operations start from.
var shapes = [][][]string{
	{},
	{{base}},
	{{base}, {"ou=a", base}},
	{{base}, {"ou=a", base}, {"ou=b", base}},
	{{base}, {"ou=a", base}, {"ou=b", "ou=a", base}},
	{{base}, {"ou=a", base}, {"ou=b", base}, {"ou=a", "ou=b", base}, {"ou=b", "ou=b", base}},
}

func attrsFor(rdns []string, v string) []attr {
	rdn := rdns[0]
	for i := 0; i < len(rdn); i++ {
		if rdn[i] == '=' {
			return []attr{{rdn[:i], []string{rdn[i+1:]}}, {"description", []string{v}}}
		}
	}
	return nil
}

func build(db *ldbbolt.LdbBolt, shape [][]string) *dir {
	d := &dir{}
	for _, r := range shape {
		at := attrsFor(r, "init")
		sym.Assert(db.EntryPut(entry(r, at)) == nil, "adding a valid entry fails")
		d.nodes = append(d.nodes, &node{r, at})
	}
	return d
}

func inBase(r []string) bool { return sym.FoldEq(r[len(r)-1], base) }

// fell reports that the storage failed; the operation must have failed as well.
func fell(err error) bool {
	if sym.Faulted() {
		sym.Assert(err != nil, "operation succeeds although the storage failed")
		return true
	}
	return false
}

// doAdd performs an add on both sides.
func doAdd(db *ldbbolt.LdbBolt, d *dir, r []string, v string) {
	at := attrsFor(r, v)
	err := db.EntryPut(entry(r, at))
	ok := false
	if inBase(r) && d.find(r) == nil {
		ok = len(r) == 1 || d.find(r[1:]) != nil
	}
	sym.Observe("add", err == nil)
	if fell(err) {
		return
	}
	sym.Assert(sym.Iff(err == nil, ok), "add: accepted or refused wrongly")
	if ok {
		sym.Cover("add ok")
		d.nodes = append(d.nodes, &node{r, at})
	} else {
		sym.Cover("add refused")
	}
}

func doDelete(db *ldbbolt.LdbBolt, d *dir, r []string) {
	err := db.EntryDelete(join(r))
	n := d.find(r)
	sym.Observe("delete", err == nil)
	if fell(err) {
		return
	}
	if n != nil && len(n.rdns) == 1 {
		// the base itself: deleting it is outside this check
		sym.Assume(err != nil)
		return
	}
	ok := n != nil && len(d.children(n)) == 0
	sym.Assert(sym.Iff(err == nil, ok), "delete: accepted or refused wrongly")
	if ok {
		sym.Cover("delete ok")
		d.remove(n)
	} else {
		sym.Cover("delete refused")
	}
}

func doModify(db *ldbbolt.LdbBolt, d *dir, r []string, v string) {
	req := &ldap.ModifyRequest{DN: join(r)}
	req.Replace("description", []string{v})
	err := db.EntryModify(req)
	n := d.find(r)
	sym.Observe("modify", err == nil)
	if fell(err) {
		return
	}
	sym.Assert(sym.Iff(err == nil, n != nil), "modify: accepted or refused wrongly")
	if n != nil {
		sym.Cover("modify ok")
		set := false
		at := append([]attr{}, n.attrs...)
		for i := range at {
			if at[i].name == "description" {
				at[i].vals = []string{v}
				set = true
			}
		}
		if !set {
			at = append(at, attr{"description", []string{v}})
		}
		n.attrs = at
	}
}

func doRename(db *ldbbolt.LdbBolt, d *dir, r []string, v string, del bool) {
	nr := append([]string{"ou=" + v}, r[1:]...)
	err := db.EntryModifyDN(&ldap.ModifyDNRequest{DN: join(r), NewRDN: "ou=" + v, DeleteOldRDN: del})
	n := d.find(r)
	sym.Observe("rename", err == nil)
	if fell(err) {
		return
	}
	if n != nil && len(n.rdns) == 1 {
		sym.Assert(err != nil, "rename: base entry renamed")
		return
	}
	ok := n != nil && len(d.children(n)) == 0 && d.find(nr) == nil
	sym.Assert(sym.Iff(err == nil, ok), "rename: accepted or refused wrongly")
	if ok {
		sym.Cover("rename ok")
		old := n.attrs
		n.rdns = nr
		n.attrs = nil
		for _, a := range old {
			if a.name != "ou" {
				n.attrs = append(n.attrs, a)
				continue
			}
			var vals []string
			for _, x := range a.vals {
				if !del || !sym.FoldEq(x, r[0][3:]) {
					vals = append(vals, x)
				}
			}
			have := false
			for _, x := range vals {
				if sym.FoldEq(x, v) {
					have = true
				}
			}
			if !have {
				vals = append(vals, v)
			}
			n.attrs = append(n.attrs, attr{"ou", vals})
		}
	} else {
		sym.Cover("rename refused")
	}
}

// Mirror: after every sequence of operations the database shows exactly what
// the reference directory shows.
func Mirror() {
	db := newDB()
	lo, hi := sym.Param("shape_lo", 0), sym.Param("shape_hi", len(shapes)-1)
	d := build(db, shapes[lo+sym.Choice("shape", hi-lo+1)])
	k := sym.Param("ops", 2)
	for i := 0; i < k; i++ {
		switch sym.Choice("op", 4) {
		case 0:
			doAdd(db, d, symName("add"), "v"+string(rune('0'+i)))
		case 1:
			doDelete(db, d, symName("del"))
		case 2:
			doModify(db, d, symName("mod"), "w"+string(rune('0'+i)))
		case 3:
			doRename(db, d, symName("ren"), sym.StringIn("newrdn", 1, letters), sym.Choice("delold", 2) == 1)
		}
	}
	audit(db, d, "after the operations")
	sym.Cover("audited")
	db.Close()
}
