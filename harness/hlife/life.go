// Package hlife: starting, running and stopping a server.
package hlife

import (
	"context"
	"crypto/tls"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/libregraph/idm/pkg/ldapserver"
	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

const base = "dc=x"

// free is an address nobody listens on; taken one somebody does.
func free() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	sym.Assert(err == nil, "no address")
	defer l.Close()
	return l.Addr().String()
}

func taken() (string, net.Listener) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	sym.Assert(err == nil, "no address")
	return l.Addr().String(), l
}

// ask tells whether a request to the address is answered.
func ask(address string, enc bool) bool {
	var c net.Conn
	var err error
	if enc {
		c, err = (&tls.Dialer{Config: &tls.Config{InsecureSkipVerify: true}}).Dial("tcp", address)
	} else {
		c, err = net.Dial("tcp", address)
	}
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(5 * time.Second))
	if _, err := c.Write([]byte(wire.Msg(1, wire.Bind("", "")))); err != nil {
		return false
	}
	b := make([]byte, 64)
	n, err := c.Read(b)
	return err == nil && n >= 2 && b[0] == 0x30
}

// place is a listener's address: none, free or taken.
func place(tag string) (address string, ok bool, l net.Listener) {
	switch sym.Choice(tag, 3) {
	case 1:
		return free(), true, nil
	case 2:
		address, l = taken()
		return address, false, l
	}
	return "", true, nil
}

// Life: a server listens where it is told to or fails; signals end it or make
// it reload.
func Life() {
	wire.Quiet = true
	c := &server.Config{Logger: app.Logger(), LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	switch sym.Choice("handler", 2) {
	case 0:
		c.LDIFMain = app.Write("main.ldif", "dn: cn=a,dc=x\nobjectClass: top\n")
	case 1:
		c.LDAPHandler = "boltdb"
		c.BoltDBFile = sym.TempDir() + "/idm.db"
	}
	var ok1, ok2 bool
	var l1, l2 net.Listener
	c.LDAPListenAddr, ok1, l1 = place("plain")
	c.LDAPSListenAddr, ok2, l2 = place("encrypted")
	cert, key := certPEM, keyPEM
	if c.LDAPSListenAddr != "" {
		c.TLSCertFile, c.TLSKeyFile = sym.TempDir()+"/cert.pem", sym.TempDir()+"/key.pem"
		switch sym.Choice("certificate", 4) {
		case 1:
			cert, ok2 = "", false
		case 2:
			key, ok2 = "", false
		case 3:
			cert, key, ok2 = key, cert, false
		}
		if cert != "" {
			app.Write("cert.pem", cert)
		}
		if key != "" {
			app.Write("key.pem", key)
		}
	}
	s, err := server.NewServer(c)
	sym.Assert(err == nil, "server is not made")
	done := make(chan error)
	go func() { done <- s.Serve(context.Background()) }()
	sym.Drain()
	if ok1 && ok2 {
		for i := sym.Choice("hangups", 3); i >= 0; i-- {
			sym.Assert(c.LDAPListenAddr == "" || ask(c.LDAPListenAddr, false), "request is not answered")
			sym.Assert(c.LDAPSListenAddr == "" || ask(c.LDAPSListenAddr, true), "encrypted request is not answered")
			sym.Assert(c.LDAPSListenAddr == "" || !ask(c.LDAPSListenAddr, false), "unencrypted request is answered")
			if i > 0 {
				syscall.Kill(os.Getpid(), syscall.SIGHUP)
				sym.Drain()
			}
		}
		select {
		case <-done:
			sym.Assert(false, "server ends by itself")
		default:
		}
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[sym.Choice("signal", 2)]
		syscall.Kill(os.Getpid(), sig)
		err := <-done
		sym.Assert(err == nil, "server ends with an error")
		sym.Cover("ended")
	} else {
		err := <-done
		sym.Assert(err != nil, "server ends without error")
		sym.Cover("not started")
	}
	sym.Observe("error", err != nil)
	if l1 == nil && c.LDAPListenAddr != "" {
		_, err := net.Dial("tcp", c.LDAPListenAddr)
		sym.Assert(err != nil, "ended server listens")
	}
	if l2 == nil && c.LDAPSListenAddr != "" {
		_, err := net.Dial("tcp", c.LDAPSListenAddr)
		sym.Assert(err != nil, "ended server listens with encryption")
	}
	if l1 != nil {
		l1.Close()
	}
	if l2 != nil {
		l2.Close()
	}
}

// Signals: of several signals none gets lost, whenever they arrive.
func Signals() {
	wire.Quiet = true
	sym.Sched(false)
	c := &server.Config{Logger: app.Logger(), LDAPHandler: "ldif", LDAPBaseDN: base, LDAPAllowLocalAnonymousBind: true}
	c.LDIFMain = app.Write("main.ldif", "dn: cn=a,dc=x\nobjectClass: top\n")
	c.LDAPListenAddr = free()
	s, err := server.NewServer(c)
	sym.Assert(err == nil, "server is not made")
	done := make(chan error, 1)
	go func() { done <- s.Serve(context.Background()) }()
	sym.Drain()
	sym.Sched(true)
	if sym.Choice("request", sym.Param("request", 1)+1) == 1 {
		go ask(c.LDAPListenAddr, false)
	}
	for i := sym.Choice("hangups", sym.Param("hangups", 2)+1); i > 0; i-- {
		syscall.Kill(os.Getpid(), syscall.SIGHUP)
	}
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	err = <-done
	sym.Assert(err == nil, "server ends with an error")
	_, err = net.Dial("tcp", c.LDAPListenAddr)
	sym.Assert(err != nil, "ended server listens")
	sym.Cover("ended")
}

// unsteady is a listener that fails now and then.
type unsteady struct {
	ch   chan net.Conn
	done chan struct{}
	fail chan struct{}
}

type failure struct{}

func (failure) Error() string   { return "too many open files" }
func (failure) Timeout() bool   { return false }
func (failure) Temporary() bool { return true }

func (l *unsteady) Accept() (net.Conn, error) {
	err := &net.OpError{Op: "accept", Net: "tcp", Err: failure{}}
	select {
	case <-l.fail:
		return nil, err
	default:
	}
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.fail:
		return nil, err
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}
func (l *unsteady) Close() error   { close(l.done); return nil }
func (l *unsteady) Addr() net.Addr { return app.Peer{S: "127.0.0.1:1"} }

// Accepting: a connection that cannot be accepted does not keep the server
// from accepting later ones.
func Accepting() {
	s := ldapserver.NewServer()
	l := &unsteady{ch: make(chan net.Conn), done: make(chan struct{}), fail: make(chan struct{}, 4)}
	stopped := make(chan error)
	fail := func(tag string) {
		for i := sym.Choice(tag, 3); i > 0; i-- {
			l.fail <- struct{}{}
			sym.Cover("failed")
		}
	}
	fail("errors first")
	go func() { stopped <- s.Serve(l) }()
	for i := 0; i < 2; i++ {
		c := wire.NewConn(app.Peer{S: "127.0.0.1:2"})
		select {
		case l.ch <- c:
		case <-time.After(4 * time.Second):
			sym.Assert(false, "connections are not accepted any more")
		}
		fail("errors")
		_, ok := c.Do(wire.Msg(1, wire.Bind("", "")))
		sym.Assert(ok, "no answer")
		sym.Cover("answered")
	}
	close(s.Quit)
	sym.Assert(<-stopped == nil, "server ends with an error")
}
