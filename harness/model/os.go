package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/libregraph/idm/zzverif/sym"
)

// A file system of files and folders without links and permissions.

type node struct {
	name string
	dir  bool
	data []byte
}

func (n *node) Name() string       { return filepath.Base(n.name) }
func (n *node) Size() int64        { return int64(len(n.data)) }
func (n *node) ModTime() time.Time { return time.Time{} }
func (n *node) IsDir() bool        { return n.dir }
func (n *node) Sys() any           { return nil }
func (n *node) Mode() fs.FileMode {
	if n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

type openFile struct {
	n      *node
	off    int
	closed bool
	write  bool
}

var nodes []*node

var opened = map[*os.File]*openFile{}

func pathErr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func lookup(name string) (*node, error) {
	for i := 0; i < len(name); i++ {
		if name[i] == 0 {
			return nil, syscall.EINVAL
		}
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	name = filepath.Clean(name)
	for _, n := range nodes {
		if n.name == name {
			return n, nil
		}
	}
	if name == "/" || name == sym.TempDir() {
		return &node{name: name, dir: true}, nil
	}
	return nil, syscall.ENOENT
}

//verif:model os.Stat
func osStat(name string) (fs.FileInfo, error) {
	n, err := lookup(name)
	if err != nil {
		return nil, pathErr("stat", name, err)
	}
	return n, nil
}

//verif:model os.Lstat
func osLstat(name string) (fs.FileInfo, error) { return osStat(name) }

//verif:model os.Open
func osOpen(name string) (*os.File, error) {
	n, err := lookup(name)
	if err != nil {
		return nil, pathErr("open", name, err)
	}
	f := &os.File{}
	opened[f] = &openFile{n: n}
	return f, nil
}

//verif:model os.OpenFile
func osOpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	n, err := lookup(name)
	switch {
	case err == nil && flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL:
		return nil, pathErr("open", name, syscall.EEXIST)
	case err == nil && n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0:
		return nil, pathErr("open", name, syscall.EISDIR)
	case err == syscall.ENOENT && flag&os.O_CREATE != 0:
		n = &node{name: filepath.Clean(name)}
		nodes = append(nodes, n)
	case err != nil:
		return nil, pathErr("open", name, err)
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := &os.File{}
	o := &openFile{n: n, write: flag&(os.O_WRONLY|os.O_RDWR) != 0}
	if flag&os.O_APPEND != 0 {
		o.off = len(n.data)
	}
	opened[f] = o
	return f, nil
}

//verif:model os.Create
func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//verif:model (*os.File).Read
func fileRead(f *os.File, p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	o := opened[f]
	switch {
	case o == nil: // standard input
		return 0, io.EOF
	case o.closed:
		return 0, pathErr("read", o.n.name, os.ErrClosed)
	case o.n.dir:
		return 0, pathErr("read", o.n.name, syscall.EISDIR)
	case len(p) == 0:
		return 0, nil
	case o.off >= len(o.n.data):
		return 0, io.EOF
	}
	k := copy(p, o.n.data[o.off:])
	o.off += k
	return k, nil
}

//verif:model (*os.File).Write
func fileWrite(f *os.File, p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	o := opened[f]
	switch {
	case o == nil: // standard output
		return len(p), nil
	case o.closed:
		return 0, pathErr("write", o.n.name, os.ErrClosed)
	case !o.write:
		return 0, pathErr("write", o.n.name, syscall.EBADF)
	}
	for len(o.n.data) < o.off+len(p) {
		o.n.data = append(o.n.data, 0)
	}
	copy(o.n.data[o.off:], p)
	o.off += len(p)
	return len(p), nil
}

//verif:model (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//verif:model (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (n int64, err error) {
	buf := make([]byte, 32*1024)
	for {
		k, err := fileRead(f, buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

//verif:model (*os.File).Close
func fileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	o := opened[f]
	if o == nil {
		return nil
	}
	if o.closed {
		return pathErr("close", o.n.name, os.ErrClosed)
	}
	o.closed = true
	return nil
}

//verif:model (*os.File).Stat
func fileStat(f *os.File) (fs.FileInfo, error) {
	o := opened[f]
	if o == nil {
		return nil, os.ErrInvalid
	}
	return o.n, nil
}

//verif:model os.ReadFile
func osReadFile(name string) ([]byte, error) {
	n, err := lookup(name)
	if err != nil {
		return nil, pathErr("open", name, err)
	}
	if n.dir {
		return nil, pathErr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, n.data...), nil
}

//verif:model os.WriteFile
func osWriteFile(name string, data []byte, perm fs.FileMode) error {
	n, err := lookup(name)
	if err == nil && n.dir {
		return pathErr("open", name, syscall.EISDIR)
	}
	if err != nil {
		n = &node{name: filepath.Clean(name)}
		nodes = append(nodes, n)
	}
	n.data = append([]byte{}, data...)
	return nil
}

//verif:model os.Remove
func osRemove(name string) error {
	n, err := lookup(name)
	if err != nil {
		return pathErr("remove", name, err)
	}
	for i, m := range nodes {
		if m == n {
			nodes = append(append([]*node{}, nodes[:i]...), nodes[i+1:]...)
			break
		}
	}
	return nil
}

//verif:model os.MkdirAll
func osMkdirAll(name string, perm fs.FileMode) error {
	n, err := lookup(name)
	if err == nil {
		if !n.dir {
			return pathErr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	nodes = append(nodes, &node{name: filepath.Clean(name), dir: true})
	return nil
}

//verif:model os.Mkdir
func osMkdir(name string, perm fs.FileMode) error {
	if _, err := lookup(name); err == nil {
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	return osMkdirAll(name, perm)
}

//verif:model os.Getwd
func osGetwd() (string, error) { return sym.TempDir(), nil }

// Patterns in the last component only.
//
//verif:model path/filepath.Glob
func glob(pattern string) ([]string, error) {
	dir, pat := filepath.Split(pattern)
	if dir == "" {
		sym.Abandon("Glob without folder")
	}
	dir = filepath.Clean(dir)
	var names []string
	for _, n := range nodes {
		if filepath.Dir(n.name) != dir {
			continue
		}
		b := filepath.Base(n.name)
		ok, err := filepath.Match(pat, b)
		if err != nil {
			return nil, errors.New("syntax error in pattern")
		}
		if ok {
			names = append(names, n.name)
		}
	}
	for i := 1; i < len(names); i++ {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
	return names, nil
}

//verif:model os.Exit
func osExit(code int) {
	if sym.Catch {
		panic(sym.ExitCode(code))
	}
	sym.Died(code)
}
