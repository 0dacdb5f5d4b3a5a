package hldif

import (
	"time"

	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// page asks for a page; the cookie is "" after the last one.
func page(c *wire.Conn, size int, cookie string, filter string) ([]wire.Resp, string) {
	ctl := wire.Seq(wire.Octet("1.2.840.113556.1.4.319"), wire.Octet(wire.Seq(wire.Int(size), wire.Octet(cookie))))
	res, ok := c.Do(wire.Msg(2, wire.Search("o=b", 2, 0, false, filter), ctl))
	sym.Assert(ok, "page is not answered")
	for _, r := range res {
		sym.Observe("page", r.DN)
		sym.Observe("code", r.Code)
	}
	last := res[len(res)-1]
	next := ""
	for _, x := range last.Controls {
		if len(x.Kids) == 2 && x.Kids[0].Data == "1.2.840.113556.1.4.319" {
			v := wire.Parse(x.Kids[1].Data)
			sym.Assert(len(v) == 1 && len(v[0].Kids) == 2, "malformed control in the response")
			next = v[0].Kids[1].Data
		}
	}
	return res, next
}

// Paging: all matching entries come exactly once, however the client pages,
// and wrong requests in between change nothing.
func Paging() {
	wire.Quiet = true
	main := "dn: o=b\no: b\n\n"
	n := sym.Choice("entries", sym.Param("n", 3)+1)
	var want []bool
	var names []string
	for i := 0; i < n; i++ {
		v := sym.StringIn("value", 1, "mx")
		names = append(names, "ou="+string(rune('a'+i))+",o=b")
		want = append(want, v == "m")
		main += "dn: " + names[i] + "\ncn: " + v + "\nzz: " + v + "\n\n"
	}
	s := app.LDIF(base, "", true, main, "")
	sym.Assert(s != nil, "server does not start")
	c := s.Dial(app.Peer{S: "127.0.0.1:9"})
	filter := []string{wire.Eq("cn", "m"), wire.Eq("zz", "m")}[sym.Choice("filter", 2)]
	size := 1 + sym.Choice("size", n+1)
	at, turns := sym.Choice("turn", sym.Param("turns", 2)), 0
	seen := make([]int, n)
	cookie := ""
	for {
		if turns == at {
			switch sym.Choice("detour", 5+sym.Param("idle", 0)) {
			case 1: // a cookie nobody gave out
				res, next := page(c, size, sym.StringIn("cookie", 1, "aZ"), filter)
				sym.Assert(len(res) == 1 && res[0].Code != 0 && next == "", "unknown cookie is accepted")
				sym.Cover("unknown cookie")
			case 2: // the end
				if cookie != "" {
					res, next := page(c, 0, cookie, filter)
					sym.Assert(len(res) == 1 && next == "", "abandoning a search delivers something")
					res, next = page(c, size, cookie, filter)
					sym.Assert(len(res) == 1 && res[0].Code != 0 && next == "", "abandoned search goes on")
					sym.Cover("abandoned")
					s.Stop()
					return
				}
			case 3: // another search
				res, _ := page(c, 1, "", wire.Eq("cn", "m"))
				sym.Assert(res[len(res)-1].Code == 0, "second search fails")
				sym.Cover("another search")
			case 4: // on another connection
				c = s.Dial(app.Peer{S: "127.0.0.1:9"})
			case 5: // much later
				if cookie != "" {
					time.Sleep(61 * time.Second)
					res, next := page(c, size, cookie, filter)
					sym.Assert(len(res) == 1 && res[0].Code != 0 && next == "", "forgotten search goes on")
					sym.Cover("forgotten")
					s.Stop()
					return
				}
			}
		}
		res, next := page(c, size, cookie, filter)
		sym.Assert(res[len(res)-1].Code == 0, "page fails")
		sym.Assert(len(res)-1 <= size, "page is too large")
		for _, r := range res[:len(res)-1] {
			hit := false
			for i, d := range names {
				if r.DN == d {
					seen[i]++
					hit = true
				}
			}
			sym.Assert(hit, "unknown entry")
		}
		turns++
		if next == "" {
			if cookie != "" {
				res, next := page(c, size, cookie, filter)
				sym.Assert(len(res) == 1 && res[0].Code != 0 && next == "", "finished search goes on")
				sym.Cover("several pages")
			}
			break
		}
		cookie = next
		sym.Assert(turns <= n+1, "paging does not end")
	}
	for i, w := range want {
		sym.Assert(seen[i] == sym.Ite(w, 1, 0), "entry not delivered exactly once")
	}
	sym.Cover("finished")
	s.Stop()
}
