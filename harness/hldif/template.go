package hldif

import (
	"os"
	"strconv"

	"github.com/libregraph/idm"
	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const word = "abcXYZ019 .=@-"

// settings of one file.
type settings struct {
	vals map[string]string
	last uint64
}

// action is one line of a template and the attribute it stands for.
func (t *settings) action(i int) (string, *[2]string, bool) {
	name := "a" + strconv.Itoa(i)
	keys := []string{"Company", "MailDomain", "BaseDN"}
	is := func(v string) *[2]string { return &[2]string{name, v} }
	switch sym.Choice("action", 9) {
	case 0:
		k := append(keys, "Extra")[sym.Choice("setting", 4)]
		return name + ": [{{." + k + "}}]\n", is("[" + t.vals[k] + "]"), true
	case 1:
		k := keys[sym.Choice("setting", 3)]
		v := sym.StringIn("value", sym.Choice("length", 3), word)
		t.vals[k] = v
		return name + ": [{{With" + k + " \"" + v + "\"}}]\n", is("[]"), true
	case 2:
		t.last++
		return name + ": {{AutoIncrement}}\n", is(strconv.FormatUint(t.last, 10)), true
	case 3:
		t.last = []uint64{7, 1000, 999999}[sym.Choice("number", 3)]
		n := strconv.FormatUint(t.last, 10)
		return name + ": {{ AutoIncrement " + n + " }}\n", is(n), true
	case 4:
		v := "a" + sym.StringIn("value", sym.Choice("length", 3), word)
		return name + ":: {{formatAsBase64 \"" + v + "\"}}\n", is(v), true
	case 5:
		k := keys[sym.Choice("setting", 3)]
		return name + ":: {{." + k + " | formatAsBase64}}\n", is(t.vals[k]), true
	case 6:
		v := sym.String("content", 1+sym.Choice("content length", 3))
		app.Write("folder/f"+name, v)
		return name + ":: {{formatAsFileBase64 \"f" + name + "\"}}\n", is(v), true
	case 7:
		return "# {{WithCompany \"n\"}}{{AutoIncrement}}{{WithBaseDN \"n\"}}\n", nil, true
	}
	return name + ": {{" + []string{"AsBase64 \"x\"", "formatAsFileBase64 \"none\"", "WithCompany", ".BaseDN \"x\""}[sym.Choice("wrong", 4)] + "}}\n", nil, false
}

// Template: actions of templates are replaced by what they stand for.
func Template() {
	c := &server.Config{LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	vals := map[string]string{"Company": "Default", "MailDomain": idm.DefaultMailDomain, "BaseDN": base, "Extra": letter("extra")}
	c.LDIFTemplateExtraVars = map[string]interface{}{"Extra": vals["Extra"]}
	if sym.Choice("company", 2) == 1 {
		c.LDIFDefaultCompany = sym.StringIn("company", 1, word)
		vals["Company"] = c.LDIFDefaultCompany
	}
	if sym.Choice("domain", 2) == 1 {
		c.LDIFDefaultMailDomain = sym.StringIn("domain", 1, word)
		vals["MailDomain"] = c.LDIFDefaultMailDomain
	}
	sym.Assert(os.Mkdir(sym.TempDir()+"/folder", 0o700) == nil, "folder is not made")
	var want []record
	valid := true
	for i := 0; i < sym.Param("files", 2); i++ {
		t := &settings{map[string]string{}, 1000}
		for k, v := range vals {
			t.vals[k] = v
		}
		x := record{dn: "ou=" + string(rune('a'+i)) + ",o=b"}
		s := "dn: ou=" + string(rune('a'+i)) + ",{{.BaseDN}}\no: [{{.Company}}]\n"
		x.av = append(x.av, [2]string{"o", "[" + t.vals["Company"] + "]"})
		for k := 0; k < sym.Param("actions", 2); k++ {
			if i > 0 && k > 0 {
				break
			}
			l, av, ok := t.action(2*i + k)
			s += l
			if av != nil && av[1] != "" {
				x.av = append(x.av, *av)
			} else if av != nil {
				sym.Assume(false)
			}
			valid = valid && ok
		}
		app.Write("folder/"+strconv.Itoa(i)+".ldif", s)
		want = append(want, x)
	}
	c.LDIFMain = sym.TempDir() + "/folder"
	s := app.New(c)
	if !valid {
		sym.Assert(s == nil, "template that can not be processed is accepted")
		sym.Cover("refused")
		return
	}
	sym.Assert(s != nil, "server does not start")
	con := s.Dial(app.Peer{S: "127.0.0.1:9"})
	for _, x := range want {
		res, ok := con.Do(wire.Msg(3, wire.Search(x.dn, 0, 0, false, wire.Not(wire.Eq("none", "none")))))
		sym.Assert(ok && len(res) == 2 && res[1].Code == 0, "entry is not found by its name")
		sym.Assert(len(res[0].Attrs) == len(x.av), "wrong number of attributes")
		for _, a := range res[0].Attrs {
			hit := false
			for _, w := range x.av {
				hit = sym.Or(hit, sym.And(len(a.Vals) == 1, w[0] == a.Name, w[1] == a.Vals[0]))
			}
			sym.Assert(hit, "value is another one")
		}
	}
	sym.Cover("served")
	s.Stop()
}
