// Package app runs a complete server as the serve command does, over in-memory
// connections.
package app

import (
	"context"
	"os"

	"github.com/sirupsen/logrus"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/server/handler"
	"github.com/libregraph/idm/zzverif/sym"
	"github.com/libregraph/idm/zzverif/wire"
)

// Logger discards everything.
func Logger() *logrus.Logger {
	l := logrus.New()
	l.SetLevel(logrus.PanicLevel)
	return l
}

// New makes and starts a server; nil if it refuses the configuration.
func New(c *server.Config) *wire.Server {
	c.Logger = Logger()
	ready := make(chan struct{})
	c.OnReady = func(*server.Server) { close(ready) }
	s, err := server.NewServer(c)
	if err != nil {
		return nil
	}
	go s.Serve(context.Background())
	<-ready
	return wire.Start(s.LDAPServer)
}

// Direct makes a server like New, with the handler at hand.
func Direct(c *server.Config) (*wire.Server, handler.Handler) {
	c.Logger = Logger()
	s, err := server.NewServer(c)
	if err != nil {
		return nil, nil
	}
	h := s.LDAPHandler.WithContext(context.Background())
	s.LDAPServer.AddFunc("", h)
	s.LDAPServer.BindFunc("", h)
	s.LDAPServer.DeleteFunc("", h)
	s.LDAPServer.ModifyFunc("", h)
	s.LDAPServer.ModifyDNFunc("", h)
	s.LDAPServer.PasswordExOpFunc("", h)
	s.LDAPServer.SearchFunc("", h)
	s.LDAPServer.CloseFunc("", h)
	return wire.Start(s.LDAPServer), h
}

// Bolt starts a server on a new database.
func Bolt(base, admin string, anonymous bool) *wire.Server {
	s := New(&server.Config{
		LDAPHandler:                 "boltdb",
		LDAPBaseDN:                  base,
		LDAPAdminDN:                 admin,
		LDAPAllowLocalAnonymousBind: anonymous,
		BoltDBFile:                  sym.TempDir() + "/idm.db",
	})
	sym.Assert(s != nil, "server does not start")
	return s
}

// Write makes a file in the temporary folder and returns its name.
func Write(name, content string) string {
	fn := sym.TempDir() + "/" + name
	sym.Assert(os.WriteFile(fn, []byte(content), 0o600) == nil, "file is not written")
	return fn
}

// LDIF starts a server on LDIF files, without configuration if that is empty;
// nil if it refuses to start.
func LDIF(base, admin string, anonymous bool, main, config string) *wire.Server {
	c := &server.Config{
		LDAPHandler:                 "ldif",
		LDAPBaseDN:                  base,
		LDAPAdminDN:                 admin,
		LDAPAllowLocalAnonymousBind: anonymous,
		LDIFMain:                    Write("main.ldif", main),
	}
	if config != "" {
		c.LDIFConfig = Write("config.ldif", config)
	}
	return New(c)
}
