package hdb

import (
	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/sym"
)

// doPassword changes a password on both sides.
func doPassword(db *ldbbolt.LdbBolt, d *dir, r []string, v string) {
	err := db.UpdatePassword(&ldap.PasswordModifyRequest{UserIdentity: join(r), NewPassword: v})
	n := d.find(r)
	sym.Observe("password", err == nil)
	if fell(err) {
		return
	}
	sym.Assert(sym.Iff(err == nil, n != nil), "password: accepted or refused wrongly")
	if n != nil {
		sym.Cover("password ok")
		at := []attr{}
		for _, a := range n.attrs {
			if a.name != "userPassword" {
				at = append(at, a)
			}
		}
		n.attrs = append(at, attr{"userPassword", []string{v}})
	}
}

// oneOp chooses an operation.
func oneOp() func(db *ldbbolt.LdbBolt, d *dir) {
	k := sym.Choice("op", 5)
	r := symName("target")
	v := ""
	del := false
	if k == 3 {
		v = sym.StringIn("newrdn", 1, letters)
		del = sym.Choice("delold", 2) == 1
	}
	return func(db *ldbbolt.LdbBolt, d *dir) {
		switch k {
		case 0:
			doAdd(db, d, r, "v")
		case 1:
			doDelete(db, d, r)
		case 2:
			doModify(db, d, r, "w")
		case 3:
			doRename(db, d, r, v, del)
		case 4:
			doPassword(db, d, r, "pw")
		}
	}
}

// shows reports whether the database shows exactly the directory.
func shows(db *ldbbolt.LdbBolt, d *dir) bool {
	if len(d.nodes) == 0 {
		_, err := db.Search(base, 2)
		return err != nil
	}
	ok := true
	for _, n := range d.nodes {
		for scope := 0; scope < 3; scope++ {
			got, err := db.Search(join(n.rdns), scope)
			if err != nil {
				return false
			}
			want := 0
			for _, w := range d.nodes {
				k := 0
				in := inScope(w.rdns, n.rdns, scope)
				want += sym.Ite(in, 1, 0)
				for _, e := range got {
					k += sym.Ite(sym.And(sameT(parse(e.DN), w.rdns), sameAttrs(w.attrs, e.Attributes)), 1, 0)
				}
				ok = sym.And(ok, k == sym.Ite(in, 1, 0))
			}
			ok = sym.And(ok, len(got) == want)
		}
	}
	return ok
}

func copyDir(d *dir) *dir {
	c := &dir{}
	for _, n := range d.nodes {
		c.nodes = append(c.nodes, &node{n.rdns, n.attrs})
	}
	return c
}

// Faults: an operation during which the storage fails or the process dies
// leaves the old state, or the new one if it was complete.
func Faults() {
	path := sym.TempDir() + "/idm.db"
	db := open(path)
	d := build(db, shapes[sym.Choice("shape", len(shapes))])
	op := oneOp()
	// what it would do
	twin := open(sym.TempDir() + "/twin.db")
	after := copyDir(d)
	for _, n := range d.nodes {
		sym.Assert(twin.EntryPut(entry(n.rdns, n.attrs)) == nil, "adding a valid entry fails")
	}
	op(twin, after)
	twin.Close()

	crashed := false
	sym.ArmFaults(true)
	func() {
		defer func() {
			if v := recover(); v != nil {
				if !sym.IsCrash(v) {
					panic(v)
				}
				crashed = true
			}
		}()
		op(db, copyDir(d))
	}()
	sym.ArmFaults(false)
	switch {
	case crashed:
		sym.Reopen(path)
		db = open(path)
		old, now := shows(db, d), shows(db, after)
		sym.Assert(sym.Or(old, now), "operation left halfway by a crash")
		sym.Cover("crashed")
	case sym.Faulted():
		sym.Assert(shows(db, d), "failed operation has an effect")
		sym.Cover("failed")
		if sym.Choice("reopen", 2) == 1 {
			db.Close()
			db = open(path)
			sym.Assert(shows(db, d), "failed operation has an effect after opening the database again")
		}
	default:
		sym.Assert(shows(db, after), "successful operation is not visible")
		sym.Cover("done")
		db.Close()
		db = open(path)
		sym.Assert(shows(db, after), "successful operation is not visible after opening the database again")
	}
	db.Close()
}
