package app

import (
	"crypto/sha1"
	"encoding/base64"
	"net"

	gocrypt "github.com/amoghe/go-crypt"

	"github.com/libregraph/idm/pkg/ldappassword"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const Letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const Text = Letters + "0123456789{}$ "

// Peer is the address of a client.
type Peer struct{ S string }

func (p Peer) Network() string { return "tcp" }
func (p Peer) String() string  { return p.S }

// Somewhere is a client address; local says whether it is on the same host.
func Somewhere() (net.Addr, bool) {
	i := sym.Choice("client", 10)
	return Peer{[]string{"127.0.0.1:1000", "127.8.0.9:1000", "[::1]:1000",
		"192.0.2.1:1000", "[2001:db8::1]:1000", "10.127.0.1:1000", "[fe80::1%eth0]:1000", "@",
		"169.254.0.1:1000", "[fc00::1]:1000"}[i]}, i < 3
}

// Same compares search results.
func Same(a, b []wire.Resp) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if len(a[i].Attrs) != len(b[i].Attrs) {
			return false
		}
		ok = sym.And(ok, a[i].DN == b[i].DN)
		for j, x := range a[i].Attrs {
			y := b[i].Attrs[j]
			if len(x.Vals) != len(y.Vals) {
				return false
			}
			ok = sym.And(ok, x.Name == y.Name)
			for k := range x.Vals {
				ok = sym.And(ok, x.Vals[k] == y.Vals[k])
			}
		}
	}
	return ok
}

// Stored makes a stored password value of some kind from pw, and tells whether
// verification against it can succeed at all.
func Stored(kind int, pw string) (string, bool) {
	switch kind {
	case 0: // plain; not if it looks like a scheme
		isScheme := false
		for i := 1; i < len(pw); i++ {
			isScheme = sym.Or(isScheme, sym.And(pw[0] == '{', pw[i] == '}'))
		}
		return pw, sym.And(len(pw) > 0, sym.Not(isScheme))
	case 1:
		h, err := ldappassword.Hash(pw, "{ARGON2}")
		sym.Assert(err == nil, "password is not hashed")
		return h, true
	case 2:
		h, err := gocrypt.Crypt(pw, "ab")
		sym.Assert(err == nil, "crypt fails")
		return []string{"{CRYPT}", "{crypt}"}[sym.Choice("scheme", 2)] + h, true
	case 3:
		h := sha1.Sum([]byte(pw + "salt"))
		return []string{"{SSHA}", "{sShA}"}[sym.Choice("scheme", 2)] + base64.StdEncoding.EncodeToString(append(h[:], "salt"...)), true
	case 4:
		h, err := gocrypt.Crypt(pw, "$6$salty$")
		sym.Assert(err == nil, "crypt fails")
		return "{CRYPT}" + h, true
	}
	return []string{"", "{CRYPT}", "{CRYPT}a", "{CRYPT}$6$", "{SSHA}", "{SSHA}AAAA", "{SSHA}A", "{ARGON2}", "{ARGON2}$argon2id$", "{MD5}" + pw, "{SSHA", "{" + pw + "}" + pw}[kind-5], false
}

// Kinds is the number of kinds of stored values.
const Kinds = 5 + 11
