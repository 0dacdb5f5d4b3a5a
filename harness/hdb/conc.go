package hdb

import (
	"strings"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/sym"
)

// oper is an operation with concrete arguments.
type oper struct {
	kind   int
	dn     string
	arg    string
	result string
}

// text shows entries.
func text(es []*ldap.Entry) string {
	t := ""
	for _, e := range es {
		t += " " + sym.Lower(e.DN) + "{"
		for _, a := range e.Attributes {
			t += a.Name + "=" + strings.Join(a.Values, "|") + ";"
		}
		t += "}"
	}
	return t
}

// run performs the operation and notes what it answers.
func (o *oper) run(db *ldbbolt.LdbBolt) {
	var err error
	o.result = ""
	switch o.kind {
	case 0:
		r := parse(o.dn)
		err = db.EntryPut(entry(r, attrsFor(r, o.arg)))
	case 1:
		err = db.EntryDelete(o.dn)
	case 2:
		req := &ldap.ModifyRequest{DN: o.dn}
		req.Add("member", []string{o.arg})
		err = db.EntryModify(req)
	case 3:
		err = db.EntryModifyDN(&ldap.ModifyDNRequest{DN: o.dn, NewRDN: "ou=" + o.arg, DeleteOldRDN: true})
	case 4:
		err = db.UpdatePassword(&ldap.PasswordModifyRequest{UserIdentity: o.dn, NewPassword: o.arg})
	case 5:
		var es []*ldap.Entry
		es, err = db.Search(o.dn, 2)
		o.result = text(es)
	}
	if err != nil {
		o.result = "refused"
	} else if o.kind != 5 {
		o.result = "done"
	}
}

func pick(tag, arg string, from int) *oper {
	o := &oper{kind: from + sym.Choice(tag, 6-from), arg: arg}
	if o.kind == 5 {
		o.dn = []string{base, "ou=a,o=b"}[sym.Choice(tag+".from", 2)]
		return o
	}
	o.dn = "ou=" + sym.StringIn(tag+".x", 1, letters) + []string{",o=b", ",ou=a,o=b"}[sym.Choice(tag+".depth", 2)]
	if o.kind == 3 {
		o.arg = sym.StringIn(tag+".new", 1, letters)
	}
	return o
}

func whole(db *ldbbolt.LdbBolt) string {
	t := ""
	for _, p := range []string{base, "ou=a,o=b"} {
		for s := 0; s < 3; s++ {
			es, err := db.Search(p, s)
			if err == nil {
				t += "/" + text(es)
			}
		}
	}
	return t
}

// outcome runs the operations in an order on a fresh database.
func outcome(file string, shape [][]string, ops []*oper, order []int) string {
	db := open(sym.TempDir() + "/" + file)
	build(db, shape)
	t := make([]string, len(ops))
	for _, x := range order {
		c := *ops[x]
		c.run(db)
		t[x] = c.result
	}
	w := whole(db)
	db.Close()
	return w + "#" + strings.Join(t, "#")
}

// Concurrent: operations at the same time act like one after the other.
func Concurrent() {
	sym.Sched(false)
	shape := [][][]string{
		{{base}, {"ou=a", base}},
		{{base}, {"ou=a", base}, {"ou=b", "ou=a", base}},
		{{base}, {"ou=a", base}, {"ou=c", base}},
		{{base}},
	}[sym.Choice("shape", sym.Param("shapes", 4))]
	a := pick("first", "p", 0)
	b := pick("second", "q", a.kind)
	ops := []*oper{a, b}
	orders := [][]int{{0, 1}, {1, 0}}
	if sym.Param("ops", 2) > 2 {
		ops = append(ops, &oper{kind: 5, dn: base})
		orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	var want []string
	for i, p := range orders {
		want = append(want, outcome("order"+string(rune('0'+i))+".db", shape, ops, p))
	}

	db := newDB()
	build(db, shape)
	done := make(chan struct{}, len(ops))
	sym.Sched(true)
	for _, o := range ops {
		go func(o *oper) {
			o.run(db)
			done <- struct{}{}
		}(o)
	}
	for range ops {
		<-done
	}
	sym.Sched(false)
	got := whole(db)
	for _, o := range ops {
		got += "#" + o.result
	}
	ok := false
	for _, w := range want {
		ok = sym.Or(ok, got == w)
	}
	sym.Assert(ok, "operations do not act one after the other")
	if a.result == "done" && b.result == "done" {
		sym.Cover("both done")
	}
	if a.kind == 0 && b.kind == 0 && a.result != b.result {
		sym.Cover("one of two")
	}
	db.Close()
}
