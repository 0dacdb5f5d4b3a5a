// Package hcmd: the commands.
package hcmd

import (
	"os"
	"strings"

	"github.com/libregraph/idm/cmd/idmd/gen/newusers"
	"github.com/libregraph/idm/pkg/ldappassword"
	"github.com/libregraph/idm/zzverif/sym"
)

const (
	letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits  = "0123456789"
	strong  = "Xk9#vTq2$wLz8!"
)

// users runs the command on the list.
func users(list string) (out string, failed bool) {
	in := sym.TempDir() + "/list"
	sym.Assert(os.WriteFile(in, []byte(list), 0o600) == nil, "file is not written")
	fn := sym.TempDir() + "/out.ldif"
	f, err := os.Create(fn)
	sym.Assert(err == nil, "file is not created")
	old := os.Stdout
	os.Stdout = f
	c := newusers.CommandNewusers()
	code, exited := sym.Exits(func() { c.Run(c, []string{in}) })
	os.Stdout = old
	f.Close()
	b, err := os.ReadFile(fn)
	sym.Assert(err == nil, "file is not read")
	if exited {
		sym.Assert(code != 0, "command ends without error status")
	}
	return string(b), exited
}

// user is a line of the list.
type user struct {
	fields int
	name   string
	pw     string
	uid    string
	gid    string
	gecos  string
}

func (u *user) line() string {
	l := []string{u.name, u.pw, u.uid, u.gid, u.gecos, "/home", "/bin/sh", "more"}
	return strings.Join(l[:u.fields], ":")
}

func number(tag string, n int) string {
	switch sym.Choice(tag, 3) {
	case 1:
		return sym.StringIn(tag+".digits", 1+sym.Choice(tag+".n", n), digits)
	case 2:
		return "1001"
	}
	return ""
}

var odd = []string{"", "1001", "2000", "x", "1x"}

func numeric(s string) bool { return s != "x" && s != "1x" }

// value of an unsigned number, -1 for none.
func value(s string) int {
	if s == "" {
		return -1
	}
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// record is the attributes of an entry in the output.
type record map[string][]string

func records(out string) (rs []record) {
	var r record
	for _, l := range strings.Split(out, "\n") {
		switch {
		case l == "":
			r = nil
		case l[0] == '#':
		default:
			if r == nil {
				r = record{}
				rs = append(rs, r)
			}
			i := strings.IndexByte(l, ':')
			sym.Assert(i > 0, "output has a line without name")
			r[l[:i]] = append(r[l[:i]], strings.TrimLeft(l[i+1:], " "))
		}
	}
	return rs
}

func (r record) one(name string) string {
	sym.Assert(len(r[name]) == 1, "attribute "+name+" is missing or repeated")
	return r[name][0]
}

// NewUsers: one entry per line with what it says, or an error.
func NewUsers() {
	n := sym.Param("lines", 2)
	var us []*user
	list := ""
	bad := false
	what := sym.Choice("what", 3)
	k := sym.Param("n", 1)
	for i := 0; i < n; i++ {
		t := string(rune('0' + i))
		u := &user{fields: 7}
		u.name = sym.StringIn("name"+t, 1, letters)
		switch what {
		case 0: // malformed
			if i > 0 {
				u.uid = odd[sym.Choice("uid"+t, 5)]
				break
			}
			u.fields = 1 + sym.Choice("fields", 8)
			u.pw = []string{"", strong, "abc"}[sym.Choice("password"+t, 3)]
			u.uid = odd[sym.Choice("uid"+t, 5)]
			u.gid = odd[sym.Choice("gid"+t, 5)]
		case 1: // numbers
			u.uid = number("uid"+t, k)
			if i == 0 || k > 1 {
				u.gid = number("gid"+t, k)
			} else {
				u.gid = odd[sym.Choice("gid"+t, 3)]
			}
		case 2: // details
			u.pw = []string{"", strong + sym.StringIn("password"+t, 1, letters)}[sym.Choice("password"+t, 2)]
			u.gecos = []string{"", "F", "F L", "F L M,room,a@b.c,1"}[sym.Choice("gecos"+t, 4)]
		}
		bad = bad || u.fields < 7 || !numeric(u.uid) || !numeric(u.gid) || u.pw == "abc"
		list += []string{"", "\n", "# c:d\n", "  \n"}[sym.Choice("before"+t, 1+what/2*3)] + u.line() + "\n"
		us = append(us, u)
	}
	out, failed := users(list)
	if failed {
		sym.Assert(bad, "valid list is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(!bad, "malformed line is accepted")
	rs := records(out)
	sym.Assert(len(rs) == len(us), "other number of entries than lines")
	for i, u := range us {
		r := rs[i]
		sym.Assert(strings.HasPrefix(r.one("dn"), "uid="+u.name+","), "wrong name of the entry")
		sym.Assert(r.one("uid") == u.name, "wrong user name")
		un, gn := value(r.one("uidNumber")), value(r.one("gidNumber"))
		sym.Assert(sym.Or(u.uid == "", un == value(u.uid)), "wrong user number")
		sym.Assert(sym.Or(u.gid == "", gn == value(u.gid)), "wrong group number")
		for j, v := range us {
			if j != i {
				sym.Assert(sym.Or(u.uid != "", value(rs[j].one("uidNumber")) != un), "assigned user number is not unique")
				sym.Assert(sym.Or(u.gid != "", value(rs[j].one("gidNumber")) != gn), "assigned group number is not unique")
			}
			_ = v
		}
		switch u.gecos {
		case "":
			sym.Assert(r.one("cn") == u.name, "wrong full name")
		case "F":
			sym.Assert(r.one("cn") == "F", "wrong full name")
		case "F L":
			sym.Assert(r.one("cn") == "F L" && r.one("givenName") == "F" && r.one("sn") == "L", "wrong full name")
		default:
			sym.Assert(r.one("cn") == "F L M" && r.one("givenName") == "F" && r.one("sn") == "L M", "wrong full name")
			sym.Assert(r.one("mailAlternateAddress") == "a@b.c", "wrong mail address")
		}
		sym.Observe("numbers", r["uidNumber"][0]+" "+r["gidNumber"][0])
		p := r.one("userPassword")
		pw := u.name
		if u.pw != "" {
			sym.Assert(strings.HasPrefix(p, "{ARGON2}"), "password is not hashed")
			pw = u.pw
		}
		ok, err := ldappassword.Validate(pw, p)
		sym.Assert(ok && err == nil, "password is not that of the line")
	}
	sym.Cover("made")
}

// LongLine: a very long line is not silently dropped.
func LongLine() {
	long := "l::::" + strings.Repeat("x", 70000) + "::"
	u := sym.StringIn("name", 1, letters) + "::::::"
	list := []string{long + "\n" + u + "\n", u + "\n" + long + "\n", u + "\n" + long}[sym.Choice("order", 3)]
	out, failed := users(list)
	if !failed {
		rs := records(out)
		sym.Assert(len(rs) == 2, "line is dropped")
	}
	sym.Cover("handled")
}

// Many: a list of many users, one of which has arbitrary numbers.
func Many() {
	n := sym.Param("lines", 7)
	k := sym.Choice("line", n)
	list := ""
	for i := 0; i < n; i++ {
		u := &user{fields: 7, name: letters[i : i+1], pw: strong}
		if i == k {
			u.uid, u.gid = "100"+sym.StringIn("uid", 1, digits), "100"+sym.StringIn("gid", 1, digits)
		}
		list += u.line() + "\n"
	}
	out, failed := users(list)
	sym.Assert(!failed, "valid list is refused")
	rs := records(out)
	sym.Assert(len(rs) == n, "other number of entries than lines")
	for i, r := range rs {
		sym.Assert(r.one("uid") == letters[i:i+1], "wrong user name")
		for j := range rs[:i] {
			sym.Assert(rs[j].one("uidNumber") != r.one("uidNumber"), "assigned user number is not unique")
			sym.Assert(rs[j].one("gidNumber") != r.one("gidNumber"), "assigned group number is not unique")
		}
		sym.Observe("numbers", r.one("uidNumber")+" "+r.one("gidNumber"))
	}
	sym.Cover("made")
}
