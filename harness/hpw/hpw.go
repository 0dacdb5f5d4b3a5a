// Package hpw: password values.
package hpw

import (
	"crypto/sha1"
	"encoding/base64"
	"strconv"
	"strings"

	gocrypt "github.com/amoghe/go-crypt"

	"github.com/libregraph/idm/pkg/ldappassword"
	"github.com/libregraph/idm/zzverif/sym"
)

// ascii is any string of n 7 bit characters.
func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// Match: a value made from a password is matched by that password only.
func Match() {
	n := sym.Choice("length", sym.Param("n", 3)) + 1
	m := sym.Choice("given length", sym.Param("n", 3)+1)
	kind := sym.Choice("kind", 6)
	var pw, given, stored string
	if kind == 2 || kind == 3 || kind == 5 { // crypt knows 7 bit characters, none of them zero
		pw, given = ascii("password", n), ascii("given", m)
		for i := 0; i < n; i++ {
			sym.Assume(pw[i] != 0)
		}
	} else {
		pw, given = sym.String("password", n), sym.String("given", m)
	}
	if p := sym.Param("pad", 0); p > 0 && kind != 2 { // DES looks at 8 characters
		pad := strings.Repeat("p", p)
		pw, given, n, m = pad+pw, pad+given, n+p, m+p
	}
	var err error
	switch kind {
	case 0:
		stored = pw
		for i := 1; i < n; i++ {
			sym.Assume(sym.Not(sym.And(pw[0] == '{', pw[i] == '}')))
		}
		if n == 1 {
			stored, err = ldappassword.Hash(pw, []string{"", "{CLEARTEXT}"}[sym.Choice("clear", 2)])
		}
	case 1:
		stored, err = ldappassword.Hash(pw, "{ARGON2}")
		sym.Assert(len(stored) > 20 && stored[:8] == "{ARGON2}", "password is not hashed")
		if sym.Choice("case", 2) == 1 {
			stored = "{argon2}" + stored[8:]
		}
	case 2, 3:
		salt := sym.StringIn("salt", 2, "ab./09ZX")
		if kind == 3 {
			salt = []string{"$1$", "$5$", "$6$", "$5$rounds=1000$", "$6$rounds=1001$"}[sym.Choice("method", 5)] + salt + "$"
		}
		stored, err = gocrypt.Crypt(pw, salt)
		stored = []string{"{CRYPT}", "{crypt}", "{Crypt}"}[sym.Choice("case", 3)] + stored
	case 4:
		salt := sym.String("salt", 4)
		h := sha1.Sum([]byte(pw + salt))
		stored = []string{"{SSHA}", "{ssha}"}[sym.Choice("case", 2)] + base64.StdEncoding.EncodeToString(append(h[:], salt...))
	case 5: // other schemes
		stored = []string{"{SHA}", "{MD5}", "{CLEARTEXT}", "{}", "{SSHA256}", "{CRYPT }", "{x"}[sym.Choice("scheme", 7)] + pw
		if stored[0:2] == "{x" {
			stored += "}"
		}
	}
	sym.Assert(err == nil, "password is not hashed")
	ok, err := ldappassword.Validate(given, stored)
	sym.Assert(ok == (err == nil), "mismatch is no error")
	sym.Observe("ok", ok)
	if kind == 5 {
		sym.Assert(!ok, "unknown scheme accepted")
		sym.Cover("unknown scheme")
		return
	}
	sym.Assert(ok == (n == m && given == pw), "wrong verdict on a password")
	if ok {
		sym.Cover("match " + strconv.Itoa(kind))
	} else {
		sym.Cover("mismatch " + strconv.Itoa(kind))
	}
}

// Malformed: values that are made from no password are matched by none.
func Malformed() {
	n := sym.Choice("length", sym.Param("n", 3)+1)
	m := sym.Choice("given length", 3)
	rest := sym.String("rest", n)
	given := ascii("given", m)
	kind := sym.Choice("kind", 8)
	stored := []string{"", "{CRYPT}", "{SSHA}", "{ARGON2}", "{CRYPT}$6$", "{SSHA}AAA=", "{ARGON2}$argon2id$", "{SSHA}AAAAAAAAAAAAAAAA"}[kind] + rest
	if kind == 0 && n > 0 {
		return // a plain value
	}
	ok, err := ldappassword.Validate(given, stored)
	sym.Assert(!ok, "malformed value accepted")
	sym.Assert(err != nil, "malformed value is no error")
	sym.Cover("malformed " + strconv.Itoa(kind))
	sym.Observe("refused", true)
}

// Parameters: argon2 values with any parameters.
func Parameters() {
	digit := func(name string) string { return sym.StringIn(name, 1, "0123456789") }
	m := []string{"64", "0", "65536", "x", ""}[sym.Choice("memory", 5)]
	key := []string{"", "A", "AA", "RdescudvJCsgt3ub+b+dWRWJTmaaJObG", "="}[sym.Choice("key", 5)]
	salt := []string{"c29tZXNhbHQ", "", "A"}[sym.Choice("salt", 3)]
	given := ascii("given", sym.Choice("given length", 3))
	stored := "{ARGON2}$argon2" + []string{"id", "i"}[sym.Choice("variant", 2)] + "$v=1" + digit("version") + "$m=" + m + ",t=" + digit("time") + ",p=" + digit("threads") + "$" + salt + "$" + key
	ok, err := ldappassword.Validate(given, stored)
	sym.Assert(ok == (err == nil), "mismatch is no error")
	sym.Assert(!ok || key == "AA", "malformed value accepted") // one byte of hash may match
	sym.Cover("refused")
	if key != "AA" {
		sym.Observe("ok", ok)
	}
}
