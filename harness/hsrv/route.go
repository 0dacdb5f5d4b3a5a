package hsrv

import (
	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// symName is a name of up to n components, most specific first.
func symName(tag string, n int) []string {
	k := sym.Choice(tag+" depth", n+1)
	var r []string
	for i := 0; i < k; i++ {
		l := 1
		if sym.Param("long", 1) == 1 {
			l = 1 + sym.Choice(tag+" type length", 2)
		}
		v := ""
		switch sym.Choice(tag+" form", sym.Param("forms", 1)) {
		case 0:
			v = sym.StringIn(tag+" type", l, letters) + "=" + name(tag+" value")
		case 1: // several parts
			v = "x=" + name(tag+" value") + "+y=" + name(tag+" value")
		case 2: // escaped separator
			v = "x=" + name(tag+" value") + "\\,y=" + name(tag+" value")
		}
		r = append(r, v)
	}
	return r
}

func join(rdns []string) string {
	s := ""
	for i, r := range rdns {
		if i > 0 {
			s += ","
		}
		s += r
	}
	return s
}

// spread is join, with or without blanks.
func spread(rdns []string) string {
	if len(rdns) < 2 || sym.Param("forms", 1) == 1 || sym.Choice("blanks", 2) == 0 {
		return join(rdns)
	}
	s := rdns[0]
	for _, r := range rdns[1:] {
		s += ", " + r
	}
	return s
}

// below: suffix contains dn.
func below(dn, suffix []string) bool {
	if len(suffix) > len(dn) {
		return false
	}
	ok := true
	for i := range suffix {
		ok = sym.And(ok, sym.FoldEq(dn[len(dn)-len(suffix)+i], suffix[i]))
	}
	return ok
}

// Route: requests go to the handler with the longest suffix containing the name.
func Route() {
	k := sym.Param("handlers", 2)
	s := ldapserver.NewServer()
	var names [][]string
	var recs []*rec
	for i := 0; i < k; i++ {
		n := symName("suffix", sym.Param("depth", 2))
		for _, o := range names {
			if len(o) == len(n) {
				sym.Assume(sym.Not(below(o, n)))
			}
		}
		r := &rec{}
		register(s, spread(n), r)
		names = append(names, n)
		recs = append(recs, r)
	}
	s.BindFunc("zzz=q", &rec{}) // for identities
	dn := symName("target", sym.Param("target", 2))
	text := spread(dn)
	// which handler is expected
	best := -1
	bestLen := 0
	for i, n := range names {
		hit := below(dn, n)
		bestLen, best = sym.Ite(sym.And(hit, sym.Or(best < 0, len(n) > bestLen)), len(n), bestLen),
			sym.Ite(sym.And(hit, sym.Or(best < 0, len(n) > bestLen)), i, best)
	}
	srv := wire.Start(s)
	c := srv.Dial(nil)
	var op string
	kind := 3
	if sym.Param("ops", 7) > 1 {
		kind = sym.Choice("kind", 7)
	}
	if kind != 0 {
		sym.Assert(c.One(1, wire.Bind("zzz=q", "pw")).Code == 0, "bind fails")
	}
	pw := "x"
	switch kind {
	case 0:
		op = wire.Bind(text, "pw")
	case 1:
		op = wire.Add(text)
	case 2:
		op = wire.Modify(text)
	case 3:
		op = wire.Del(text)
	case 4:
		op = wire.ModifyDN(text, "cn=y", true)
	case 5:
		op = wire.Search(text, 0, 0, false, wire.Present("cn"))
	case 6:
		if len(dn) == 0 {
			sym.Stop() // means the own entry
		}
		op = wire.PwModify(&text, nil, &pw)
	}
	res, ok := c.Do(wire.Msg(2, op))
	sym.Assert(ok && len(res) == 1, "request is not answered")
	none := true
	for i, r := range recs {
		sym.Assert(len(r.calls) <= 1, "handler called twice")
		sym.Assert(sym.Iff(len(r.calls) == 1, best == i), "request is handled by the wrong handler")
		if len(r.calls) == 1 {
			none = false
			sym.Cover("routed")
			if len(names[i]) > 0 && len(dn) > len(names[i]) {
				sym.Cover("routed below a suffix")
			}
		}
	}
	if none {
		if kind != 5 {
			sym.Assert(res[0].Code != 0, "unhandled request succeeds")
		}
		sym.Cover("no handler")
	}
	srv.Stop()
}
