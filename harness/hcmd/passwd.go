package hcmd

import (
	"os"
	"strings"

	"github.com/libregraph/idm/cmd/idmd/gen/passwd"
	"github.com/libregraph/idm/pkg/ldappassword"
	"github.com/libregraph/idm/zzverif/sym"
)

// option of the command.
type option struct{ name, value string }

// hash runs the command.
func hash(options ...option) (out string, failed bool) {
	passwd.DefaultPasswordScheme, passwd.OmitTrailingNewline, passwd.DefaultMinPasswordStrength = "{ARGON2}", false, 3
	fn := sym.TempDir() + "/out"
	f, err := os.Create(fn)
	sym.Assert(err == nil, "file is not created")
	old := os.Stdout
	os.Stdout = f
	c := passwd.CommandPasswd()
	for _, o := range options {
		sym.Assert(c.Flags().Set(o.name, o.value) == nil, "option is not known")
	}
	code, exited := sym.Exits(func() { c.Run(c, nil) })
	os.Stdout = old
	f.Close()
	b, err := os.ReadFile(fn)
	sym.Assert(err == nil, "file is not read")
	if exited {
		sym.Assert(code != 0, "command ends without error status")
	}
	return string(b), exited
}

// Passwd: the value printed is one of the given secret.
func Passwd() {
	n := sym.Param("n", 2)
	long := sym.Choice("long", 2) == 1
	secret := sym.String("secret", sym.Choice("length", n+1))
	for i := 1; i < len(secret) && !long; i++ { // would name a scheme
		sym.Assume(sym.Not(sym.And(secret[0] == '{', secret[i] == '}')))
	}
	min := sym.Choice("least strength", 2) * 3
	if long {
		secret = strong + secret
	}
	scheme := []string{"{ARGON2}", "{CLEARTEXT}", "", "{SSHA}", "{argon2}"}[sym.Choice("scheme", 5)]
	way := sym.Choice("way", 2)
	omit := sym.Choice("newline", 2) == 1
	opts := []option{{"password-scheme", scheme}, {"min-password-strength", []string{"0", "", "", "3"}[min]}}
	if omit {
		opts = append(opts, option{"omit-newline", "true"})
	}
	if way == 0 {
		opts = append(opts, option{"secret", secret})
	} else {
		fn := sym.TempDir() + "/secret"
		sym.Assert(os.WriteFile(fn, []byte(secret), 0o600) == nil, "file is not written")
		opts = append(opts, option{"secret-file", fn})
	}
	out, failed := hash(opts...)
	known := scheme != "{SSHA}" && scheme != "{argon2}"
	if failed {
		sym.Assert(out == "", "value is printed though the command failed")
		sym.Assert(!known || strings.TrimSpace(secret) == "" || !long && min > 0, "secret is refused")
		sym.Cover("refused")
		return
	}
	if min == 0 { // estimates of strength differ
		sym.Observe("accepted", true)
	}
	sym.Assert(known, "unknown scheme is accepted")
	sym.Assert(strings.TrimSpace(secret) != "", "empty secret is accepted")
	sym.Assert(long || min == 0, "weak secret is accepted")
	value := out
	if !omit {
		sym.Assert(strings.HasSuffix(out, "\n"), "no newline")
		value = out[:len(out)-1]
	}
	if scheme == "{ARGON2}" {
		sym.Assert(strings.HasPrefix(value, "{ARGON2}$argon2id$"), "secret is not hashed")
		sym.Cover("hashed")
	} else {
		sym.Assert(value == secret, "value is not the secret")
		sym.Cover("clear")
	}
	ok, err := ldappassword.Validate(secret, value)
	sym.Assert(ok && err == nil, "value is not one of the secret")
}

// PasswdSources: there is one source of the secret, and it must be readable.
func PasswdSources() {
	var opts []option
	bad := false
	k := 0
	if sym.Choice("secret", 2) == 1 {
		opts = append(opts, option{"secret", strong})
		k++
	}
	switch sym.Choice("file", 3) {
	case 1:
		fn := sym.TempDir() + "/secret"
		sym.Assert(os.WriteFile(fn, []byte(strong), 0o600) == nil, "file is not written")
		opts = append(opts, option{"secret-file", fn})
		k++
	case 2:
		opts = append(opts, option{"secret-file", sym.TempDir() + "/none"})
		bad = true
		k++
	}
	generate := sym.Choice("generate", 2) == 1
	if generate {
		opts = append(opts, option{"generate", "true"})
		k++
	}
	out, failed := hash(opts...)
	if failed {
		sym.Assert(k != 1 || bad, "secret is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(k <= 1, "several secrets are accepted")
	sym.Assert(!bad, "unreadable file is accepted")
	if generate {
		sym.Assert(len(out) == 13, "generated secret has another length")
		sym.Cover("generated")
	} else if k == 0 {
		ok, err := ldappassword.Validate("Entered#Secret9!", out[strings.IndexByte(out, '{'):len(out)-1])
		sym.Assert(ok && err == nil, "value is not one of the entered secret")
		sym.Cover("entered")
	}
}
