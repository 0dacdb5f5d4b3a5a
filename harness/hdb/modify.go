package hdb

import (
	"strings"

	"github.com/go-ldap/ldap/v3"

	"github.com/libregraph/idm/zzverif/sym"
)

type change struct {
	op   uint
	typ  string
	vals []string
}

func has(vals []string, v string) bool {
	for _, x := range vals {
		if sym.FoldEq(x, v) {
			return true
		}
	}
	return false
}

// apply is the reference meaning of a modify request. naming lists the
// attribute values that name the entry.
func apply(attrs []attr, naming []attr, cs []change) ([]attr, bool) {
	out := append([]attr{}, attrs...)
	for _, c := range cs {
		pos := -1
		var cur []string
		for i, a := range out {
			if sym.FoldEq(a.name, c.typ) {
				pos, cur = i, a.vals
				break
			}
		}
		var nv []string
		switch c.op {
		case ldap.AddAttribute:
			if len(c.vals) == 0 {
				return nil, false
			}
			nv = append(nv, cur...)
			for _, v := range c.vals {
				if !has(nv, v) {
					nv = append(nv, v)
				}
			}
		case ldap.DeleteAttribute:
			for _, v := range cur {
				if len(c.vals) > 0 && !has(c.vals, v) {
					nv = append(nv, v)
				}
			}
			for _, n := range naming {
				if sym.FoldEq(n.name, c.typ) && (len(c.vals) == 0 || has(c.vals, n.vals[0])) {
					return nil, false
				}
			}
		case ldap.ReplaceAttribute:
			nv = append(nv, c.vals...)
			for _, n := range naming {
				if sym.FoldEq(n.name, c.typ) && !has(c.vals, n.vals[0]) {
					return nil, false
				}
			}
		default:
			return nil, false
		}
		if pos >= 0 {
			out = append(append([]attr{}, out[:pos]...), append([]attr{{out[pos].name, nv}}, out[pos+1:]...)...)
		} else {
			out = append(out, attr{c.typ, nv})
		}
	}
	return out, true
}

func symChange(values, kinds int) change {
	c := change{typ: sym.StringIn("type", 1, "cCdDx")}
	c.op = uint(sym.Choice("kind", kinds))
	n := sym.Choice("values", values+1)
	for j := 0; j < n; j++ {
		c.vals = append(c.vals, sym.StringIn("value", 1, letters))
	}
	return c
}

// Modify: the effect of a modify request on a stored entry.
func Modify() {
	db := newDB()
	d := &dir{}
	sym.Assert(db.EntryPut(entry([]string{base}, attrsFor([]string{base}, "x"))) == nil, "adding the base fails")
	d.nodes = append(d.nodes, &node{[]string{base}, attrsFor([]string{base}, "x")})
	rv := sym.StringIn("rdn", 1, letters)
	rdns := []string{"c=" + rv, base}
	naming := []attr{{"c", []string{rv}}}
	at := []attr{{"c", []string{rv}}, {"e", []string{"kept"}}}
	if sym.Param("multi", 0) == 1 {
		r2 := sym.StringIn("rdn2", 1, letters)
		rdns[0] += "+D=" + r2
		naming = append(naming, attr{"d", []string{r2}})
		at = append(at, attr{"D", []string{r2}})
	} else {
		if sym.Choice("twonames", 2) == 1 {
			o := sym.StringIn("other", 1, letters)
			sym.Assume(!sym.FoldEq(o, rv))
			at[0].vals = append(at[0].vals, o)
		}
		if n := sym.Choice("olds", 3); n > 0 {
			dv := attr{"d", nil}
			for i := 0; i < n; i++ {
				dv.vals = append(dv.vals, sym.StringIn("old", 1, letters))
			}
			if n == 2 {
				sym.Assume(!sym.FoldEq(dv.vals[0], dv.vals[1]))
			}
			at = append(at, dv)
		}
	}
	e := entry(rdns, at)
	sym.Assert(db.EntryPut(e) == nil, "adding a valid entry fails")
	n := &node{rdns, at}
	d.nodes = append(d.nodes, n)

	req := &ldap.ModifyRequest{DN: join(rdns)}
	var cs []change
	k := sym.Param("changes", 1)
	for i := 0; i < k; i++ {
		c := symChange(sym.Param("values", 2), sym.Param("kinds", 4))
		cs = append(cs, c)
		req.Changes = append(req.Changes, ldap.Change{Operation: c.op, Modification: ldap.PartialAttribute{Type: c.typ, Vals: append([]string{}, c.vals...)}})
	}
	err := db.EntryModify(req)
	sym.Observe("modify", err == nil)
	want, ok := apply(at, naming, cs)
	sym.Assert(sym.Iff(err == nil, ok), "modify: accepted or refused wrongly")
	if ok {
		sym.Cover("accepted")
		n.attrs = want
	} else {
		sym.Cover("refused")
	}
	audit(db, d, "after modify")
	if ok && len(want) > 0 {
		got, _ := db.Search(join(rdns), ldap.ScopeBaseObject)
		for _, a := range got[0].Attributes {
			sym.Observe("attr", strings.Join(append([]string{a.Name}, a.Values...), "|"))
		}
	}
	db.Close()
}
