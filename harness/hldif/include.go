package hldif

import (
	"encoding/base64"
	"os"
	"strings"

	"github.com/libregraph/idm/server/handler/ldif"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
)

// including returns the template function that includes files of the folder
// of the LDIF.
func including(main string) func(string) (string, error) {
	o := &ldif.Options{BaseDN: base}
	_, err := ldif.NewLDIFHandler(app.Logger(), main, o)
	sym.Assert(err == nil, "handler refuses its files")
	return ldif.TemplateFuncs(map[string]interface{}{}, o)["formatAsFileBase64"].(func(string) (string, error))
}

func mkdir(name string) {
	sym.Assert(os.Mkdir(sym.TempDir()+"/"+name, 0o700) == nil, "folder is not made")
}

// resolve is the place a path leads to, as the list of its components.
func resolve(at []string, path string) []string {
	at = append([]string(nil), at...)
	if strings.HasPrefix(path, "/") {
		at = nil
	}
	for len(path) > 0 {
		i := 0
		for i < len(path) && path[i] != '/' {
			i++
		}
		c := path[:i]
		if i < len(path) {
			i++
		}
		path = path[i:]
		switch {
		case c == "" || c == ".":
		case c == "..":
			if len(at) > 0 {
				at = at[:len(at)-1]
			}
		default:
			at = append(at, c)
		}
	}
	return at
}

// Include: only files below the folder of the LDIF are included.
func Include() {
	top := sym.TempDir()
	for _, d := range []string{"b", "b/b", "ba"} {
		mkdir(d)
	}
	app.Write("b/main.ldif", rec(base, "o", "b"))
	app.Write("b/a", "one")
	app.Write("b/b/a", "two")
	app.Write("ba/a", "secret")
	app.Write("a", "secret")
	main := "/b"
	if sym.Choice("file", 2) == 1 {
		main = "/b/main.ldif"
	}
	f := including(top + main)
	prefix := []string{"", top + "/b", top + "/", "../", strings.Repeat("b/../", 12), top + "/b/" + strings.Repeat("./", 25)}[sym.Choice("prefix", sym.Param("prefixes", 4))]
	path := prefix + sym.StringIn("path", sym.Choice("length", sym.Param("n", 5)+1), "ab./")
	got, err := f(path)
	sym.Observe("included", got)
	sym.Observe("failed", err != nil)
	at := resolve(resolve(nil, top+"/b"), path)
	want := ""
	k := len(resolve(nil, top))
	inside := len(at) > k+1
	if inside {
		for i, c := range resolve(nil, top+"/b") {
			if at[i] != c {
				inside = false
			}
		}
	}
	if inside {
		switch rest := at[k+1:]; {
		case len(rest) == 1 && rest[0] == "a":
			want = "b25l"
		case len(rest) == 2 && rest[0] == "b" && rest[1] == "a":
			want = "dHdv"
		}
	}
	if want == "" {
		sym.Assert(err != nil, "file outside of the folder is included")
		if inside {
			sym.Cover("missing")
		} else {
			sym.Cover("outside")
		}
		return
	}
	sym.Assert(err == nil && got == want, "file in the folder is not included")
	sym.Cover("included")
}

// Content: files are included completely.
func Content() {
	mkdir("b")
	app.Write("b/main.ldif", rec(base, "o", "b"))
	v := sym.String("content", sym.Choice("length", sym.Param("n", 4)+1))
	over := false
	if k := sym.Param("large", 0); k > 0 {
		v = strings.Repeat("x", k-3) + v
		over = len(v) > 1024*1024
	}
	app.Write("b/a", v)
	got, err := including(sym.TempDir() + "/b/main.ldif")("a")
	sym.Observe("failed", err != nil)
	if over {
		sym.Assert(err != nil, "file over the limit is included")
		sym.Cover("over")
		return
	}
	sym.Assert(err == nil, "file is not included")
	b, err := base64.StdEncoding.DecodeString(got)
	sym.Assert(err == nil && string(b) == v, "file is not included completely")
	sym.Cover("complete")
}
