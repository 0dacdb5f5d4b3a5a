package hsrv

import (
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// el is an element under construction.
type el struct {
	tag  byte
	data string
	kids []*el
	// optional: the element may be missing; last: further elements may follow
	optional, list bool
}

func (e *el) enc() string {
	s := e.data
	for _, k := range e.kids {
		s += k.enc()
	}
	return wire.TLV(e.tag, s)
}

func prim(tag byte, data string) *el   { return &el{tag: tag, data: data} }
func cons(tag byte, kids ...*el) *el   { return &el{tag: tag, kids: kids} }
func listOf(tag byte, kids ...*el) *el { return &el{tag: tag, kids: kids, list: true} }

// nodes lists an element and everything below it.
func (e *el) nodes() []*el {
	r := []*el{e}
	for _, k := range e.kids {
		r = append(r, k.nodes()...)
	}
	return r
}

func requests() []*el {
	attr := func(n, v string) *el {
		return cons(0x30, prim(4, n), listOf(0x31, prim(4, v)))
	}
	return []*el{
		cons(0x68, prim(4, "cn=x,o=b"), listOf(0x30, attr("cn", "x"))),
		cons(0x66, prim(4, "cn=x,o=b"), listOf(0x30, cons(0x30, prim(10, "\x02"), attr("cn", "x")))),
		prim(0x4a, "cn=x,o=b"),
		cons(0x6c, prim(4, "cn=x,o=b"), prim(4, "cn=y"), prim(1, "\xff")),
		cons(0x63, prim(4, "o=b"), prim(10, "\x02"), prim(10, "\x00"), prim(2, "\x00"), prim(2, "\x00"), prim(1, "\x00"), prim(0x87, "cn"), listOf(0x30, prim(4, "cn"))),
		cons(0x60, prim(2, "\x03"), prim(4, "cn=x,o=b"), prim(0x80, "pw")),
	}
}

// Malformed: a request with a missing, additional or wrongly typed part, or
// with an invalid name, never reaches a back-end and is not answered with success.
func Malformed() {
	r, srv, c := start()
	n := r.count()
	q := requests()[sym.Choice("request", 6)]
	ns := q.nodes()
	e := ns[sym.Choice("part", len(ns))]
	switch sym.Choice("mutation", 4) {
	case 0: // drop the last part
		if len(e.kids) == 0 || e.list {
			sym.Stop()
		}
		i := sym.Choice("which", len(e.kids))
		if e.tag == 0x30 && len(e.kids) == 2 && i == 1 && q.tag == 0x66 {
			sym.Stop() // types without values are tolerated in modify requests
		}
		e.kids = append(append([]*el{}, e.kids[:i]...), e.kids[i+1:]...)
	case 1: // one part too many
		if len(e.kids) == 0 || e.list {
			sym.Stop()
		}
		if q.tag == 0x6c {
			e.kids = append(e.kids, prim(0x80, "o=b"))
		}
		e.kids = append(e.kids, prim(4, "cn"))
	case 2: // another type
		if e == q || e.tag >= 0x80 {
			sym.Stop()
		}
		t := sym.Choice("type", 6)
		m := []*el{prim(2, "\x07"), prim(1, "\xff"), prim(4, "7"), cons(0x30, prim(4, "x")), prim(5, ""), cons(0x31)}[t]
		if q.tag == 0x63 && (e == q.kids[5] || e == q.kids[7]) {
			sym.Stop() // tolerated: taken as false and as no attributes
		}
		if m.tag == e.tag || m.tag == 2 && e.tag == 10 {
			sym.Stop()
		}
		*e = *m
	case 3: // not a name
		if q.kids == nil {
			q.data = sym.StringIn("junk", 3, letters)
		} else if q.tag == 0x6c || q.tag == 0x68 || q.tag == 0x66 {
			q.kids[0].data = sym.StringIn("junk", 3, letters)
		} else {
			sym.Stop()
		}
	}
	res, ok := c.Do(wire.Msg(2, q.enc()))
	sym.Assert(r.count() == n, "malformed request reaches the back-end")
	if ok {
		sym.Assert(len(res) == 1 && res[0].Code != 0, "malformed request answered with success")
		sym.Cover("refused")
	} else {
		sym.Cover("closed")
	}
	srv.Stop()
}

// MalformedChange: the body of a password change that is cut off, not a
// sequence or has parts that do not belong there.
func MalformedChange() {
	r, srv, c := start()
	n := r.count()
	id, old, pw := sym.String("id", 1), sym.String("old", 1), sym.String("new", 1)
	body := wire.Seq(wire.TLV(0x80, id), wire.TLV(0x81, old), wire.TLV(0x82, pw))
	switch sym.Choice("mutation", 4) {
	case 0: // cut off
		body = body[:sym.Choice("length", len(body)-1)+1]
	case 1: // not a sequence
		b := sym.Byte("tag")
		sym.Assume(b != 0x30)
		body = string([]byte{b}) + body[1:]
	case 2: // one part too many
		body = wire.Seq(wire.TLV(0x80, id), wire.TLV(0x81, old), wire.TLV(0x82, pw), wire.TLV(0x83, pw))
	case 3: // a part of another kind
		b := sym.Byte("tag")
		sym.Assume(sym.And(b&0x1f != 0x1f, b != 0x80, b != 0x81, b != 0x82, b != 0xa0, b != 0xa1, b != 0xa2))
		body = wire.Seq(wire.TLV(0x80, id), string([]byte{b})+wire.TLV(0x81, old)[1:], wire.TLV(0x82, pw))
	}
	res, ok := c.Do(wire.Msg(2, wire.ExtendedVal(wire.PwModOID, body)))
	sym.Assert(r.count() == n, "malformed request reaches the back-end")
	if ok {
		sym.Assert(len(res) == 1 && res[0].Code != 0, "malformed request answered with success")
		sym.Cover("refused")
	}
	srv.Stop()
}
