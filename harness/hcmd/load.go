package hcmd

import (
	"os"
	"strings"

	"github.com/go-ldap/ldap/v3"
	"github.com/sirupsen/logrus"

	"github.com/libregraph/idm/cmd/idmd/boltdb"
	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/zzverif/sym"
)

// command runs the boltdb command with the arguments.
func command(args ...string) (out string, failed bool) {
	boltdb.BoltDBFile, boltdb.LDAPBaseDN, boltdb.LogLevel, boltdb.InputFile = "", "", "panic", ""
	fn := sym.TempDir() + "/out"
	f, err := os.Create(fn)
	sym.Assert(err == nil, "file is not created")
	old := os.Stdout
	os.Stdout = f
	c := boltdb.CommandBoltDB()
	c.SilenceUsage = true
	c.SetArgs(args)
	code, exited := sym.Exits(func() {
		if c.Execute() != nil {
			os.Exit(1)
		}
	})
	os.Stdout = old
	f.Close()
	b, err := os.ReadFile(fn)
	sym.Assert(err == nil, "file is not read")
	if exited {
		sym.Assert(code != 0, "command ends without error status")
	}
	return string(b), exited
}

func database(fn string) *ldbbolt.LdbBolt {
	l := logrus.New()
	l.SetLevel(logrus.PanicLevel)
	db := &ldbbolt.LdbBolt{}
	sym.Assert(db.Configure(l, "o=b", fn, nil) == nil, "database does not open")
	sym.Assert(db.Initialize() == nil, "database does not initialise")
	return db
}

type stored struct{ dn, v string }

// Load: the load command stores the entries of the file, or fails.
func Load() {
	fn := sym.TempDir() + "/db"
	in := sym.TempDir() + "/in.ldif"
	var have []stored
	find := func(dn string) bool {
		for _, s := range have {
			if sym.FoldEq(s.dn, dn) {
				return true
			}
		}
		return false
	}
	if sym.Choice("present", 2) == 1 {
		db := database(fn)
		for _, dn := range []string{"o=b", "ou=x,o=b"} {
			sym.Assert(db.EntryPut(ldap.NewEntry(dn, map[string][]string{"cn": {"old"}})) == nil, "adding a valid entry fails")
			have = append(have, stored{dn, "old"})
		}
		db.Close()
	}
	before := len(have)
	text := ""
	ok := true
	n := 1 + sym.Choice("records", sym.Param("records", 2))
	for i := 0; i < n; i++ {
		dn := "o=b"
		parent := ""
		switch sym.Choice("place", 4) {
		case 1:
			dn, parent = "ou="+sym.StringIn("name", 1, "xXy")+",o=b", "o=b"
		case 2:
			parent = "ou=" + sym.StringIn("name", 1, "xXy") + ",o=b"
			dn = "cn=c," + parent
		case 3:
			dn = "o=other"
			ok = false
		}
		v := "v" + sym.StringIn("value", sym.Choice("length", 2), "ab :#")
		text += "dn: " + dn + "\ncn: " + v + "\n\n"
		if ok {
			ok = !find(dn) && (parent == "" || find(parent))
		}
		if ok {
			have = append(have, stored{dn, v})
		}
	}
	switch sym.Choice("file", 4) {
	case 1:
		text += "dn: ou=z,o=b\nnothing\n\n"
		ok, have = false, have[:before]
	case 2:
		text = strings.TrimRight(text, "\n")
	case 3:
		in = sym.TempDir() + "/none"
		ok, have = false, have[:before]
	}
	if sym.TempDir()+"/none" != in {
		sym.Assert(os.WriteFile(in, []byte(text), 0o600) == nil, "file is not written")
	}
	_, failed := command("load", "--boltdb-file", fn, "--ldap-base-dn", "o=b", "--input-file", in)
	if !failed {
		sym.Observe("loaded", true)
	}
	sym.Assert(sym.Iff(failed, !ok), "load: fails or succeeds wrongly")
	db := database(fn)
	got, err := db.Search("o=b", 2)
	db.Close()
	sym.Assert(err == nil || len(have) == 0, "search fails")
	sym.Assert(len(got) == len(have), "wrong number of entries")
	for _, s := range have {
		hit := false
		for _, e := range got {
			hit = sym.Or(hit, sym.And(sym.FoldEq(e.DN, s.dn), len(e.Attributes) == 1 && len(e.Attributes[0].Values) == 1 && e.Attributes[0].Name == "cn" && e.Attributes[0].Values[0] == s.v))
		}
		sym.Assert(hit, "entry is not as it was in the file")
	}
	if failed {
		sym.Cover("refused")
	} else {
		sym.Cover("loaded")
	}
	if len(have) == 0 {
		return
	}
	out, failed := command("export", "--boltdb-file", fn, "--ldap-base-dn", "o=b")
	sym.Assert(!failed, "export fails")
	sym.Assert(strings.Count(out, "dn: ") == len(have), "not all entries are exported")
}

// LoadMany: files with many records.
func LoadMany() {
	fn, in := sym.TempDir()+"/db", sym.TempDir()+"/in.ldif"
	have := []stored{{"o=b", "v"}}
	n := 5 + sym.Choice("records", 5)
	k := sym.Choice("wrong", n+1) // at the end none
	for i := 1; i < n; i++ {
		p := have[0].dn
		if i > 4 {
			p = have[i-1].dn
		}
		have = append(have, stored{"ou=" + letters[i:i+1] + "," + p, "v" + sym.StringIn("value", 1, letters)})
	}
	text := ""
	for i, s := range have {
		if i == k {
			text += "dn: ou=z,ou=none,o=b\ncn: x\n\n"
		}
		text += "dn: " + s.dn + "\ncn: " + s.v + "\n\n"
	}
	sym.Assert(os.WriteFile(in, []byte(text), 0o600) == nil, "file is not written")
	_, failed := command("load", "--boltdb-file", fn, "--ldap-base-dn", "o=b", "--input-file", in)
	if k < n {
		sym.Assert(failed, "load: succeeds wrongly")
		sym.Cover("refused")
		return
	}
	sym.Assert(!failed, "load: fails")
	sym.Observe("loaded", true)
	db := database(fn)
	got, err := db.Search("o=b", 2)
	db.Close()
	sym.Assert(err == nil && len(got) == n, "wrong number of entries")
	for _, s := range have {
		hit := false
		for _, e := range got {
			hit = sym.Or(hit, sym.And(e.DN == s.dn, len(e.Attributes) == 1 && len(e.Attributes[0].Values) == 1 && e.Attributes[0].Values[0] == s.v))
		}
		sym.Assert(hit, "entry is not as it was in the file")
	}
	out, failed := command("export", "--boltdb-file", fn, "--ldap-base-dn", "o=b")
	sym.Assert(!failed, "export fails")
	sym.Assert(strings.Count(out, "dn: ") == n, "not all entries are exported")
	sym.Cover("loaded")
}
