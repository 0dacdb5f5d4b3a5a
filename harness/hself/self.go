// Package hself compares the executor's library functions with plain ones.
package hself

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/libregraph/idm/zzverif/sym"
)

func has(set string, c byte) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = sym.Or(r, set[i] == c)
	}
	return r
}

func trim(s, set string, left, right bool) string {
	for left && len(s) > 0 && has(set, s[0]) {
		s = s[1:]
	}
	for right && len(s) > 0 && has(set, s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func index(s, x string) int {
	for i := 0; i+len(x) <= len(s); i++ {
		if s[i:i+len(x)] == x {
			return i
		}
	}
	return -1
}

func low(s string, ascii bool) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func eq(a, b any, what string) { sym.Assert(sym.DeepEqual(a, b), what) }

// Strings: functions on strings of any bytes.
func Strings() {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	s := sym.String("s", n)
	switch sym.Choice("fn", 19) {
	case 0:
		eq(strings.TrimLeft(s, " \t@"), trim(s, " \t@", true, false), "TrimLeft")
	case 1:
		eq(strings.TrimRight(s, "\r\n"), trim(s, "\r\n", false, true), "TrimRight")
	case 2:
		eq(strings.Trim(s, "x"), trim(s, "x", true, true), "Trim")
	case 3:
		eq(string(bytes.TrimRight([]byte(s), "\r\n")), trim(s, "\r\n", false, true), "bytes.TrimRight")
	case 4:
		eq(strings.Index(s, "ab"), index(s, "ab"), "Index")
	case 5:
		eq(strings.IndexByte(s, 'a'), index(s, "a"), "IndexByte")
	case 6:
		r := -1
		for i := 0; i < n; i++ {
			if has("ab,", s[i]) {
				r = i
				break
			}
		}
		eq(strings.IndexAny(s, "ab,"), r, "IndexAny")
	case 7:
		var want []string
		t := ""
		for i := 0; i < n; i++ {
			if s[i] == ':' {
				want = append(want, t)
				t = ""
			} else {
				t += s[i : i+1]
			}
		}
		want = append(want, t)
		eq(strings.Split(s, ":"), want, "Split")
	case 8:
		k := true
		for i := 0; i < n; i++ {
			k = sym.And(k, s[i] < 0x80)
		}
		if k {
			eq(strings.ToLower(s), low(s, true), "ToLower")
			eq(string(bytes.ToLower([]byte(s))), low(s, true), "bytes.ToLower")
			eq(strings.EqualFold(s, "aB:"), low(s, true) == "ab:", "EqualFold")
			t := strings.ToUpper(s)
			eq(low(t, true), low(s, true), "ToUpper")
			for i := 0; i < n; i++ {
				sym.Assert(sym.Not(sym.And(t[i] >= 'a', t[i] <= 'z')), "ToUpper leaves small letters")
			}
		}
	case 9:
		d, err := base64.StdEncoding.DecodeString(base64.StdEncoding.EncodeToString([]byte(s)))
		sym.Assert(err == nil && string(d) == s, "base64")
	case 10:
		eq(strings.Contains(s, "::"), index(s, "::") >= 0, "Contains")
		eq(strings.HasPrefix(s, "ab"), n >= 2 && s[:2] == "ab", "HasPrefix")
		eq(strings.HasSuffix(s, "ab"), n >= 2 && s[n-2:] == "ab", "HasSuffix")
	case 11:
		eq(strings.Compare(s, "ab"), bytes.Compare([]byte(s), []byte("ab")), "Compare")
		eq(strings.Compare(s, "ab") < 0, s < "ab", "Compare")
		eq(bytes.Equal([]byte(s), []byte("ab")), s == "ab", "bytes.Equal")
	case 12:
		// decoding and encoding of runes
		t := ""
		i := 0
		for i < n {
			r, w := utf8.DecodeRuneInString(s[i:])
			if r == utf8.RuneError && w == 1 {
				t += s[i : i+1]
			} else {
				t += string(r)
			}
			i += w
		}
		eq(t, s, "runes")
	case 13:
		bad := false
		for i, r := range s {
			if r == utf8.RuneError && !strings.HasPrefix(s[i:], "\xef\xbf\xbd") {
				bad = true
			}
		}
		eq(utf8.ValidString(s), !bad, "ValidString")
	case 14:
		v, err := strconv.ParseInt(s, 10, 64)
		if err == nil {
			sym.Assert(n > 0, "ParseInt of nothing")
			t := strings.TrimLeft(s, "+-0")
			if t == "" {
				sym.Assert(v == 0, "ParseInt")
			} else if s[0] == '-' {
				sym.Assert(strconv.FormatInt(v, 10) == "-"+t, "ParseInt")
			} else {
				sym.Assert(fmt.Sprint(v) == t, "ParseInt")
			}
		} else {
			num := n > 0
			for i := 0; i < n; i++ {
				num = sym.And(num, has("0123456789", s[i]))
			}
			sym.Assert(!num, "ParseInt refuses a number")
		}
	case 15:
		eq(fmt.Sprintf("<%s|%v|%x>", s, s, s), "<"+s+"|"+s+"|"+hex(s)+">", "Sprintf")
	case 16:
		eq(strings.Join(strings.SplitN(s, ",", 2), ","), s, "SplitN")
		eq(strings.ReplaceAll(s, "a", "bb"), repl(s), "ReplaceAll")
	case 17:
		f := strings.Fields(s)
		want := trim(s, " \t\n\v\f\r", true, true)
		if len(f) == 0 {
			k := true
			for i := 0; i < n; i++ {
				k = sym.And(k, sym.Or(s[i] >= 0x80, has(" \t\n\v\f\r", s[i])))
			}
			sym.Assert(k, "Fields")
		} else {
			sym.Assert(strings.HasPrefix(want, f[0]) || s[0] >= 0x80 || n > 1 && s[1] >= 0x80, "Fields")
		}
		k := true
		for i := 0; i < n; i++ {
			k = sym.And(k, s[i] < 0x80)
		}
		if k {
			eq(strings.TrimSpace(s), want, "TrimSpace")
		}
	case 18:
		t, err := strconv.Unquote(strconv.Quote(s))
		sym.Assert(err == nil && t == s, "Quote")
	}
	sym.Cover("compared")
}

func repl(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == 'a' {
			r += "bb"
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

func hex(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		r += "0123456789abcdef"[s[i]>>4:][:1] + "0123456789abcdef"[s[i]&15:][:1]
	}
	return r
}
