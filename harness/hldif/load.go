package hldif

import (
	"encoding/base64"
	"os"
	"strings"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const printable = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 :<#{}-_.,=+\\\"'/"

// line writes an attribute in one of the ways LDIF has for it, and what it
// stands for.
func line(n string) (string, string, string) {
	name := sym.StringIn("attribute", 1, "cC") + "n"
	switch sym.Choice(n+" form", sym.Param("forms", 6)) {
	case 0: // as it is
		v := text(n)
		if k := sym.Param("long", 0); k > 0 {
			v += strings.Repeat("x", k) + letter(n)
		}
		return name, name + ": " + v + "\n", v
	case 1: // encoded
		name = sym.StringIn("attribute", 1, "zZ") + "n"
		v := sym.String(n, 1+sym.Choice(n+" length", sym.Param("vlen", 2)))
		return name, name + ":: " + base64.StdEncoding.EncodeToString([]byte(v)) + "\n", v
	case 2: // folded, with or without blanks
		v := text(n)
		k := sym.Choice(n+" fold", len(v)+1)
		return name, name + ":" + v[:k] + "\n " + v[k:] + "\n", v
	case 3: // followed by a comment
		v := text(n)
		return name, name + ": " + v + "\n# " + letter("comment") + ": x\n", v
	case 4: // followed by a folded comment
		v := text(n)
		return name, name + ": " + v + "\n#x\n " + letter("comment") + ": x\n", v
	}
	v := text(n)
	return name, name + ":   " + v + "\r\n", v
}

// text is a value that needs no encoding.
func text(n string) string {
	v := sym.StringIn(n, 1+sym.Choice(n+" length", sym.Param("vlen", 2)), printable)
	sym.Assume(v[0] != ' ' && v[0] != ':' && v[0] != '<')
	sym.Assume(!strings.Contains(v, "{{"))
	return v
}

type record struct {
	dn string
	av [][2]string
}

// Load: what is in the files is what is served.
func Load() {
	file, more := "", ""
	if sym.Param("head", 1) == 1 {
		file = []string{"", "version: 1\n\n", "version: 1\n", "# remark\n\n\n"}[sym.Choice("head", 4)]
	}
	file += "dn: o=b\no: b\n\n"
	recs := []record{{"o=b", [][2]string{{"o", "b"}}}}
	n := 1 + sym.Choice("records", sym.Param("records", 2))
	dup := false
	for i := 0; i < n; i++ {
		x := record{dn: sym.StringIn("type", 1, "oO") + "u=" + letter("name") + ",o=b"}
		s := "dn: " + x.dn + "\n"
		if sym.Param("names", 1) == 1 && sym.Choice("encoded name", 2) == 1 {
			s = "dn:: " + base64.StdEncoding.EncodeToString([]byte(x.dn)) + "\n"
		}
		k := 1 + sym.Choice("attributes", sym.Param("attributes", 2))
		if sym.Param("secret", 1) == 1 && sym.Choice("secret only", 2) == 1 {
			s += "userPassword: x\n"
			k = 0
		}
		for ; k > 0; k-- {
			a, l, v := line("value")
			s += l
			x.av = append(x.av, [2]string{a, v})
		}
		for _, o := range recs {
			dup = sym.Or(dup, sym.FoldEq(o.dn, x.dn))
		}
		recs = append(recs, x)
		if i < n-1 {
			file += s + "\n"
		} else {
			more = s
		}
	}
	c := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	if sym.Choice("folder", 2) == 0 {
		c.LDIFMain = app.Write("main.ldif", file+more)
	} else {
		c.LDIFMain = sym.TempDir() + "/folder"
		sym.Assert(os.Mkdir(c.LDIFMain, 0o700) == nil, "folder is not made")
		if sym.Choice("unterminated", 2) == 1 {
			file = strings.TrimRight(file, "\n")
		}
		app.Write("folder/a.ldif", file)
		app.Write("folder/b.ldif", more)
		app.Write("folder/c.txt", rec("ou=unrelated,o=b", "cn", "x"))
	}
	s := app.New(c)
	if dup {
		sym.Assert(s == nil, "two records of one name are accepted")
		sym.Cover("duplicate")
		return
	}
	sym.Assert(s != nil, "server does not start")
	con := s.Dial(app.Peer{S: "127.0.0.1:9"})
	res, ok := con.Do(wire.Msg(2, wire.Search(base, 2, 0, false, wire.Not(wire.Eq("none", "none")))))
	sym.Assert(ok && res[len(res)-1].Code == 0, "search fails")
	sym.Assert(len(res)-1 == len(recs), "wrong number of entries")
	for _, x := range recs {
		// by its name in any letter case
		dn := x.dn
		res, ok := con.Do(wire.Msg(3, wire.Search(strings.ToUpper(dn), 0, 0, false, wire.Not(wire.Eq("none", "none")))))
		sym.Assert(ok && len(res) == 2 && res[1].Code == 0, "entry is not found by its name")
		sym.Assert(sym.FoldEq(res[0].DN, x.dn), "entry with wrong name")
		total := 0
		for _, a := range res[0].Attrs {
			total += len(a.Vals)
			for i, v := range a.Vals {
				hit := 0
				for _, w := range x.av {
					hit = sym.Ite(sym.And(w[0] == a.Name, w[1] == v), hit+1, hit)
				}
				// as often as it was recorded
				for j, u := range a.Vals {
					hit = sym.Ite(sym.And(j != i, u == v), hit-1, hit)
				}
				sym.Assert(hit == 1, "value was not recorded")
			}
		}
		sym.Assert(total == len(x.av), "values lost")
	}
	sym.Cover("served")
	s.Stop()
}
