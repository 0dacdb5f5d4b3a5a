// Package wire is a minimal independent LDAP client for harnesses: it encodes
// requests, decodes responses and drives a real server over in-memory
// connections.
package wire

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/zzverif/sym"
)

// ---- encoding

// TLV encodes one element.
func TLV(tag byte, parts ...string) string {
	c := ""
	for _, p := range parts {
		c += p
	}
	n := len(c)
	switch {
	case n < 128:
		return string([]byte{tag, byte(n)}) + c
	case n < 256:
		return string([]byte{tag, 0x81, byte(n)}) + c
	}
	return string([]byte{tag, 0x82, byte(n >> 8), byte(n)}) + c
}

func Octet(s string) string      { return TLV(0x04, s) }
func Seq(parts ...string) string { return TLV(0x30, parts...) }
func Set(parts ...string) string { return TLV(0x31, parts...) }
func Enum(n int) string          { return TLV(0x0a, string([]byte{byte(n)})) }
func Int(n int) string {
	if n < 128 {
		return TLV(0x02, string([]byte{byte(n)}))
	}
	if n < 32768 {
		return TLV(0x02, string([]byte{byte(n >> 8), byte(n)}))
	}
	return TLV(0x02, string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}))
}

func Bool(b bool) string { return TLV(0x01, string([]byte{byte(sym.Ite(b, 255, 0))})) }

// Msg is an LDAP message; id below 128.
func Msg(id byte, op string, controls ...string) string {
	m := TLV(0x02, string([]byte{id})) + op
	if len(controls) > 0 {
		m += TLV(0xa0, controls...)
	}
	return TLV(0x30, m)
}

type Attr struct {
	Name string
	Vals []string
}

func (a Attr) enc() string {
	v := ""
	for _, x := range a.Vals {
		v += Octet(x)
	}
	return Seq(Octet(a.Name), Set(v))
}

type Change struct {
	Op int
	Attr
}

func Bind(dn, pw string) string { return TLV(0x60, Int(3), Octet(dn), TLV(0x80, pw)) }
func Unbind() string            { return TLV(0x42) }
func Del(dn string) string      { return TLV(0x4a, dn) }

func Add(dn string, attrs ...Attr) string {
	l := ""
	for _, a := range attrs {
		l += a.enc()
	}
	return TLV(0x68, Octet(dn), Seq(l))
}

func Modify(dn string, cs ...Change) string {
	l := ""
	for _, c := range cs {
		l += Seq(Enum(c.Op), c.Attr.enc())
	}
	return TLV(0x66, Octet(dn), Seq(l))
}

func ModifyDN(dn, rdn string, del bool) string {
	return TLV(0x6c, Octet(dn), Octet(rdn), Bool(del))
}

func ModifyDNTo(dn, rdn string, del bool, sup string) string {
	return TLV(0x6c, Octet(dn), Octet(rdn), Bool(del), TLV(0x80, sup))
}

func Search(base string, scope, size int, types bool, filter string, attrs ...string) string {
	l := ""
	for _, a := range attrs {
		l += Octet(a)
	}
	return TLV(0x63, Octet(base), Enum(scope), Enum(0), Int(size), Int(0), Bool(types), filter, Seq(l))
}

const PwModOID = "1.3.6.1.4.1.4203.1.11.1"

func Extended(oid string) string { return TLV(0x77, TLV(0x80, oid)) }

func ExtendedVal(oid, val string) string { return TLV(0x77, TLV(0x80, oid), TLV(0x81, val)) }

// PwModify: absent parts are given as nil.
func PwModify(id, old, pw *string) string {
	v := ""
	for i, p := range []*string{id, old, pw} {
		if p != nil {
			v += TLV(0x80+byte(i), *p)
		}
	}
	return ExtendedVal(PwModOID, Seq(v))
}

func Eq(a, v string) string            { return TLV(0xa3, Octet(a), Octet(v)) }
func Present(a string) string          { return TLV(0x87, a) }
func And(f ...string) string           { return TLV(0xa0, f...) }
func Or(f ...string) string            { return TLV(0xa1, f...) }
func Not(f string) string              { return TLV(0xa2, f) }
func Sub(a string, p ...string) string { return TLV(0xa4, Octet(a), Seq(p...)) }
func Initial(s string) string          { return TLV(0x80, s) }
func Any(s string) string              { return TLV(0x81, s) }
func Final(s string) string            { return TLV(0x82, s) }

// ---- decoding

// El is a decoded element.
type El struct {
	Tag  byte
	Data string
	Kids []El
}

// Parse decodes elements up to the given depth of constructed ones.
func Parse(s string) []El {
	var r []El
	for len(s) > 0 {
		sym.Assert(len(s) >= 2, "response is not valid BER")
		e := El{Tag: s[0]}
		n, k := int(s[1]), 2
		if n >= 0x80 {
			k += n & 0x7f
			n = 0
			for i := 2; i < k; i++ {
				n = n<<8 | int(s[i])
			}
		}
		sym.Assert(len(s) >= k+n, "response is not valid BER")
		e.Data = s[k : k+n]
		if e.Tag&0x20 != 0 {
			e.Kids = Parse(e.Data)
		}
		r = append(r, e)
		s = s[k+n:]
	}
	return r
}

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n<<8 | int(s[i])
	}
	return n
}

// Resp is a decoded response message.
type Resp struct {
	ID       int
	Tag      byte
	Code     int
	Matched  string
	Msg      string
	DN       string
	Attrs    []Attr
	Value    string // extended response value
	HasValue bool
	Controls []El
}

func Decode(s string) []Resp {
	var r []Resp
	for _, m := range Parse(s) {
		sym.Assert(m.Tag == 0x30 && len(m.Kids) >= 2 && len(m.Kids) <= 3 && m.Kids[0].Tag == 0x02, "response is not an LDAP message")
		op := m.Kids[1]
		x := Resp{ID: num(m.Kids[0].Data), Tag: op.Tag, Code: -1}
		if op.Tag == 0x64 {
			sym.Assert(len(op.Kids) == 2, "malformed search entry")
			x.DN = op.Kids[0].Data
			for _, a := range op.Kids[1].Kids {
				sym.Assert(len(a.Kids) == 2 && a.Kids[1].Tag == 0x31, "malformed search entry")
				at := Attr{Name: a.Kids[0].Data}
				for _, v := range a.Kids[1].Kids {
					at.Vals = append(at.Vals, v.Data)
				}
				x.Attrs = append(x.Attrs, at)
			}
		} else {
			sym.Assert(len(op.Kids) >= 3 && op.Kids[0].Tag == 0x0a, "malformed response")
			x.Code = num(op.Kids[0].Data)
			x.Matched = op.Kids[1].Data
			x.Msg = op.Kids[2].Data
			for _, k := range op.Kids[3:] {
				if k.Tag&^0x20 == 0x8b {
					x.Value, x.HasValue = k.Data, true
				}
			}
		}
		if len(m.Kids) == 3 {
			x.Controls = m.Kids[2].Kids
		}
		r = append(r, x)
	}
	return r
}

// ---- connections

type addr struct{ s string }

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return a.s }

// Conn is the server's end of an in-memory connection.
type Conn struct {
	reqs   chan string
	buf    string
	resp   chan string
	closed chan struct{}
	once   sync.Once
	remote net.Addr
	Fail   bool // writes fail
}

func NewConn(remote net.Addr) *Conn {
	if remote == nil {
		remote = addr{"192.0.2.1:1234"}
	}
	return &Conn{reqs: make(chan string, 16), resp: make(chan string, 256), closed: make(chan struct{}), remote: remote}
}

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for c.buf == "" {
		select {
		case s, ok := <-c.reqs:
			if !ok {
				return 0, io.EOF
			}
			c.buf = s
		case <-c.closed:
			return 0, io.EOF
		}
	}
	n := copy(p, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.Fail {
		return 0, errors.New("broken pipe")
	}
	c.resp <- string(p)
	return len(p), nil
}

func (c *Conn) Close() error                       { c.once.Do(func() { close(c.closed) }); return nil }
func (c *Conn) LocalAddr() net.Addr                { return addr{"192.0.2.2:389"} }
func (c *Conn) RemoteAddr() net.Addr               { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Send hands bytes to the server.
func (c *Conn) Send(s string) { c.reqs <- s }

// Hangup ends the client's side.
func (c *Conn) Hangup() { close(c.reqs) }

// Quiet suppresses the comparison of responses with native runs, for tests
// whose responses depend on random numbers or scheduling.
var Quiet bool

// next is the next response; ok is false when the server closed.
func (c *Conn) next() (string, bool) {
	s, ok := c.next1()
	if !Quiet {
		sym.Observe("response", s)
	}
	return s, ok
}

func (c *Conn) next1() (string, bool) {
	select {
	case s := <-c.resp:
		return s, true
	default:
	}
	select {
	case s := <-c.resp:
		return s, true
	case <-c.closed:
		select {
		case s := <-c.resp:
			return s, true
		default:
		}
		return "", false
	}
}

// Final reads responses up to a final one (not a search entry).
func (c *Conn) Final() ([]Resp, bool) {
	var r []Resp
	for {
		s, ok := c.next()
		if !ok {
			return r, false
		}
		for _, x := range Decode(s) {
			r = append(r, x)
			if x.Tag != 0x64 && x.Tag != 0x73 {
				return r, true
			}
		}
	}
}

// Do sends one request and returns its responses.
func (c *Conn) Do(s string) ([]Resp, bool) {
	c.Send(s)
	return c.Final()
}

// One sends a request and expects exactly one response of the given type and id.
func (c *Conn) One(id byte, op string) Resp {
	r, ok := c.Do(Msg(id, op))
	sym.Assert(ok && len(r) == 1, "request is not answered")
	return r[0]
}

// WaitClosed waits until the server has closed the connection and returns
// what else it sent.
func (c *Conn) WaitClosed() []Resp {
	var r []Resp
	for {
		s, ok := c.next()
		if !ok {
			return r
		}
		r = append(r, Decode(s)...)
	}
}

// Rest returns responses that are already there.
func (c *Conn) Rest() []Resp {
	var r []Resp
	for {
		select {
		case s := <-c.resp:
			r = append(r, Decode(s)...)
		default:
			return r
		}
	}
}

// Listener hands connections to a server.
type Listener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errors.New("use of closed network connection")
	}
}
func (l *Listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *Listener) Addr() net.Addr { return addr{"192.0.2.2:389"} }

// Server is a running server.
type Server struct {
	S       *ldapserver.Server
	l       *Listener
	stopped chan struct{}
}

func Start(s *ldapserver.Server) *Server {
	r := &Server{S: s, l: &Listener{ch: make(chan net.Conn), done: make(chan struct{})}, stopped: make(chan struct{})}
	go func() {
		err := s.Serve(r.l)
		sym.Assert(err == nil, "Serve fails")
		close(r.stopped)
	}()
	return r
}

// Dial opens a connection.
func (s *Server) Dial(remote net.Addr) *Conn {
	c := NewConn(remote)
	s.l.ch <- c
	return c
}

func (s *Server) Stop() {
	close(s.S.Quit)
	<-s.stopped
}
