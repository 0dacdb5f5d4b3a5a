package model

import (
	"bytes"
	"errors"
	"os"

	bolt "go.etcd.io/bbolt"
	berr "go.etcd.io/bbolt/errors"

	"github.com/libregraph/idm/zzverif/sym"
)

// In-memory bbolt: serialised writers, snapshot readers, all-or-nothing
// commits. Parameters: faults = number of API calls that may fail, crash = the
// process may stop right after a commit, batch behaves like update.

type kv struct {
	k, v []byte
	sub  *bkt
}

type bkt struct {
	kvs    []*kv
	seq    uint64
	sorted bool
}

func (b *bkt) clone() *bkt {
	n := &bkt{seq: b.seq, sorted: b.sorted}
	for _, e := range b.kvs {
		c := &kv{k: e.k}
		if e.sub != nil {
			c.sub = e.sub.clone()
		} else {
			c.v = append([]byte{}, e.v...)
		}
		n.kvs = append(n.kvs, c)
	}
	return n
}

func (b *bkt) find(k []byte) *kv {
	for _, e := range b.kvs {
		if bytes.Equal(e.k, k) {
			return e
		}
	}
	return nil
}

func (b *bkt) sort() {
	if b.sorted {
		return
	}
	for i := 1; i < len(b.kvs); i++ {
		for j := i; j > 0 && bytes.Compare(b.kvs[j].k, b.kvs[j-1].k) < 0; j-- {
			b.kvs[j], b.kvs[j-1] = b.kvs[j-1], b.kvs[j]
		}
	}
	b.sorted = true
}

type file struct {
	root   *bkt
	locked bool // opened read-write
	ro     int
}

type dbState struct {
	f      *file
	path   string
	ro     bool
	open   bool
	writer chan struct{}
	txs    int
}

type txState struct {
	db       *bolt.DB
	s        *dbState
	root     *bkt
	writable bool
	managed  bool
	done     bool
	onCommit []func()
	top      *bolt.Bucket
}

type bState struct {
	tx  *bolt.Tx
	t   *txState
	b   *bkt
	sub map[*bkt]*bolt.Bucket
}

type cState struct {
	b   *bState
	bk  *bolt.Bucket
	pos int
}

var (
	files   = map[string]*file{}
	dbs     = map[*bolt.DB]*dbState{}
	txs     = map[*bolt.Tx]*txState{}
	bkts    = map[*bolt.Bucket]*bState{}
	curs    = map[*bolt.Cursor]*cState{}
	faults  int
	armed   bool
	Crashed bool
	Commits int
	Faulted bool
)

// ErrInjected is the error returned by an injected fault.
var ErrInjected = errors.New("injected storage fault")

// Crash is the panic value of an injected crash.
type Crash struct{}

func init() { sym.RegisterFaults(arm, func() bool { return Faulted }, isCrash, reopen) }

func arm(on bool) { armed = on }

func isCrash(v any) bool { _, ok := v.(Crash); return ok }

// reopen makes the file look as after the death of the process.
func reopen(path string) {
	if f := files[path]; f != nil {
		f.locked = false
		f.ro = 0
	}
}

func fault(name string) bool {
	if !armed || faults >= sym.Param("faults", 0) {
		return false
	}
	if sym.Choice("fault:"+name, 2) == 1 {
		faults++
		Faulted = true
		return true
	}
	return false
}

//verif:model go.etcd.io/bbolt.Open
func Open(path string, mode os.FileMode, options *bolt.Options) (*bolt.DB, error) {
	f := files[path]
	ro := options != nil && options.ReadOnly
	if f == nil {
		if ro {
			return nil, errors.New("open " + path + ": no such file or directory")
		}
		f = &file{root: &bkt{}}
		files[path] = f
	}
	if f.locked || (!ro && f.ro > 0) {
		return nil, berr.ErrTimeout
	}
	if ro {
		f.ro++
	} else {
		f.locked = true
	}
	db := &bolt.DB{}
	dbs[db] = &dbState{f: f, path: path, ro: ro, open: true, writer: make(chan struct{}, 1)}
	return db, nil
}

//verif:model (*go.etcd.io/bbolt.DB).Path
func DBPath(db *bolt.DB) string { return dbs[db].path }

//verif:model (*go.etcd.io/bbolt.DB).IsReadOnly
func DBIsReadOnly(db *bolt.DB) bool { return dbs[db].ro }

//verif:model (*go.etcd.io/bbolt.DB).Sync
func DBSync(db *bolt.DB) error { return nil }

//verif:model (*go.etcd.io/bbolt.DB).Stats
func DBStats(db *bolt.DB) bolt.Stats { return bolt.Stats{} }

//verif:model (*go.etcd.io/bbolt.DB).Close
func DBClose(db *bolt.DB) error {
	s := dbs[db]
	if !s.open {
		return nil
	}
	s.writer <- struct{}{} // waits for the writer
	s.open = false
	<-s.writer
	if s.ro {
		s.f.ro--
	} else {
		s.f.locked = false
	}
	return nil
}

//verif:model (*go.etcd.io/bbolt.DB).Begin
func DBBegin(db *bolt.DB, writable bool) (*bolt.Tx, error) {
	s := dbs[db]
	if !s.open {
		return nil, berr.ErrDatabaseNotOpen
	}
	if writable {
		if s.ro {
			return nil, berr.ErrDatabaseReadOnly
		}
		if fault("begin") {
			return nil, ErrInjected
		}
		s.writer <- struct{}{}
		if !s.open {
			<-s.writer
			return nil, berr.ErrDatabaseNotOpen
		}
	} else {
		sym.Yield()
	}
	tx := &bolt.Tx{}
	t := &txState{db: db, s: s, writable: writable}
	if writable {
		t.root = s.f.root.clone()
	} else {
		t.root = s.f.root
	}
	txs[tx] = t
	t.top = newBucket(tx, t, t.root)
	return tx, nil
}

func newBucket(tx *bolt.Tx, t *txState, b *bkt) *bolt.Bucket {
	bk := &bolt.Bucket{}
	bkts[bk] = &bState{tx: tx, t: t, b: b, sub: map[*bkt]*bolt.Bucket{}}
	return bk
}

func finish(t *txState) {
	t.done = true
	if t.writable {
		<-t.s.writer
	}
}

func commit(t *txState) error {
	if t.done {
		return berr.ErrTxClosed
	}
	if !t.writable {
		return berr.ErrTxNotWritable
	}
	if fault("commit") {
		finish(t)
		return ErrInjected
	}
	t.s.f.root = t.root.clone()
	Commits++
	finish(t)
	for _, f := range t.onCommit {
		f()
	}
	if armed && sym.Param("crash", 0) > 0 && !Crashed && sym.Choice("crash", 2) == 1 {
		Crashed = true
		panic(Crash{})
	}
	return nil
}

//verif:model (*go.etcd.io/bbolt.Tx).Commit
func TxCommit(tx *bolt.Tx) error {
	t := txs[tx]
	if t.managed {
		panic("managed tx commit not allowed")
	}
	return commit(t)
}

//verif:model (*go.etcd.io/bbolt.Tx).Rollback
func TxRollback(tx *bolt.Tx) error {
	t := txs[tx]
	if t.managed {
		panic("managed tx rollback not allowed")
	}
	if t.done {
		return berr.ErrTxClosed
	}
	finish(t)
	return nil
}

//verif:model (*go.etcd.io/bbolt.DB).Update
func DBUpdate(db *bolt.DB, fn func(*bolt.Tx) error) error {
	tx, err := DBBegin(db, true)
	if err != nil {
		return err
	}
	t := txs[tx]
	defer func() {
		if !t.done {
			finish(t)
		}
	}()
	t.managed = true
	err = fn(tx)
	t.managed = false
	if err != nil {
		finish(t)
		return err
	}
	return commit(t)
}

//verif:model (*go.etcd.io/bbolt.DB).Batch
func DBBatch(db *bolt.DB, fn func(*bolt.Tx) error) error { return DBUpdate(db, fn) }

//verif:model (*go.etcd.io/bbolt.DB).View
func DBView(db *bolt.DB, fn func(*bolt.Tx) error) error {
	tx, err := DBBegin(db, false)
	if err != nil {
		return err
	}
	t := txs[tx]
	defer func() { t.done = true }()
	t.managed = true
	return fn(tx)
}

//verif:model (*go.etcd.io/bbolt.Tx).DB
func TxDB(tx *bolt.Tx) *bolt.DB { return txs[tx].db }

//verif:model (*go.etcd.io/bbolt.Tx).ID
func TxID(tx *bolt.Tx) int { return 1 }

//verif:model (*go.etcd.io/bbolt.Tx).Writable
func TxWritable(tx *bolt.Tx) bool { return txs[tx].writable }

//verif:model (*go.etcd.io/bbolt.Tx).OnCommit
func TxOnCommit(tx *bolt.Tx, fn func()) { txs[tx].onCommit = append(txs[tx].onCommit, fn) }

//verif:model (*go.etcd.io/bbolt.Tx).Bucket
func TxBucket(tx *bolt.Tx, name []byte) *bolt.Bucket { return BBucket(txs[tx].top, name) }

//verif:model (*go.etcd.io/bbolt.Tx).CreateBucket
func TxCreateBucket(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	return BCreateBucket(txs[tx].top, name)
}

//verif:model (*go.etcd.io/bbolt.Tx).CreateBucketIfNotExists
func TxCreateBucketIfNotExists(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	return BCreateBucketIfNotExists(txs[tx].top, name)
}

//verif:model (*go.etcd.io/bbolt.Tx).DeleteBucket
func TxDeleteBucket(tx *bolt.Tx, name []byte) error { return BDeleteBucket(txs[tx].top, name) }

//verif:model (*go.etcd.io/bbolt.Tx).Cursor
func TxCursor(tx *bolt.Tx) *bolt.Cursor { return BCursor(txs[tx].top) }

//verif:model (*go.etcd.io/bbolt.Tx).ForEach
func TxForEach(tx *bolt.Tx, fn func(name []byte, b *bolt.Bucket) error) error {
	top := txs[tx].top
	return BForEach(top, func(k, v []byte) error { return fn(k, BBucket(top, k)) })
}

func state(b *bolt.Bucket) *bState {
	if b == nil {
		panic(sym.RuntimeError{Msg: "runtime error: invalid memory address or nil pointer dereference"})
	}
	return bkts[b]
}

//verif:model (*go.etcd.io/bbolt.Bucket).Tx
func BTx(b *bolt.Bucket) *bolt.Tx { return state(b).tx }

//verif:model (*go.etcd.io/bbolt.Bucket).Writable
func BWritable(b *bolt.Bucket) bool { return state(b).t.writable }

//verif:model (*go.etcd.io/bbolt.Bucket).Bucket
func BBucket(b *bolt.Bucket, name []byte) *bolt.Bucket {
	s := state(b)
	if s.t.done {
		panic(sym.RuntimeError{Msg: "runtime error: tx closed"})
	}
	e := s.b.find(name)
	if e == nil || e.sub == nil {
		return nil
	}
	if x := s.sub[e.sub]; x != nil {
		return x
	}
	x := newBucket(s.tx, s.t, e.sub)
	s.sub[e.sub] = x
	return x
}

func (s *bState) check() error {
	if s.t.done {
		return berr.ErrTxClosed
	}
	if !s.t.writable {
		return berr.ErrTxNotWritable
	}
	return nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).CreateBucket
func BCreateBucket(b *bolt.Bucket, name []byte) (*bolt.Bucket, error) {
	s := state(b)
	if err := s.check(); err != nil {
		return nil, err
	}
	if len(name) == 0 {
		return nil, berr.ErrBucketNameRequired
	}
	if e := s.b.find(name); e != nil {
		if e.sub != nil {
			return nil, berr.ErrBucketExists
		}
		return nil, berr.ErrIncompatibleValue
	}
	if fault("createbucket") {
		return nil, ErrInjected
	}
	s.b.kvs = append(s.b.kvs, &kv{k: append([]byte{}, name...), sub: &bkt{}})
	s.b.sorted = false
	return BBucket(b, name), nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).CreateBucketIfNotExists
func BCreateBucketIfNotExists(b *bolt.Bucket, name []byte) (*bolt.Bucket, error) {
	s := state(b)
	if err := s.check(); err != nil {
		return nil, err
	}
	if e := s.b.find(name); e != nil && e.sub != nil {
		return BBucket(b, name), nil
	}
	return BCreateBucket(b, name)
}

//verif:model (*go.etcd.io/bbolt.Bucket).DeleteBucket
func BDeleteBucket(b *bolt.Bucket, name []byte) error {
	s := state(b)
	if err := s.check(); err != nil {
		return err
	}
	e := s.b.find(name)
	if e == nil {
		return berr.ErrBucketNotFound
	}
	if e.sub == nil {
		return berr.ErrIncompatibleValue
	}
	if fault("deletebucket") {
		return ErrInjected
	}
	s.b.del(e)
	return nil
}

func (b *bkt) del(e *kv) {
	n := b.kvs[:0:0]
	for _, x := range b.kvs {
		if x != e {
			n = append(n, x)
		}
	}
	b.kvs = n
}

//verif:model (*go.etcd.io/bbolt.Bucket).Get
func BGet(b *bolt.Bucket, key []byte) []byte {
	e := state(b).b.find(key)
	if e == nil || e.sub != nil {
		return nil
	}
	return append(make([]byte, 0, len(e.v)), e.v...)
}

//verif:model (*go.etcd.io/bbolt.Bucket).Put
func BPut(b *bolt.Bucket, key []byte, value []byte) error {
	s := state(b)
	if err := s.check(); err != nil {
		return err
	}
	if len(key) == 0 {
		return berr.ErrKeyRequired
	}
	if len(key) > bolt.MaxKeySize {
		return berr.ErrKeyTooLarge
	}
	if fault("put") {
		return ErrInjected
	}
	e := s.b.find(key)
	if e != nil {
		if e.sub != nil {
			return berr.ErrIncompatibleValue
		}
		e.v = value
		return nil
	}
	s.b.kvs = append(s.b.kvs, &kv{k: append([]byte{}, key...), v: value})
	s.b.sorted = false
	return nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).Delete
func BDelete(b *bolt.Bucket, key []byte) error {
	s := state(b)
	if err := s.check(); err != nil {
		return err
	}
	if fault("delete") {
		return ErrInjected
	}
	e := s.b.find(key)
	if e == nil {
		return nil
	}
	if e.sub != nil {
		return berr.ErrIncompatibleValue
	}
	s.b.del(e)
	return nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).Sequence
func BSequence(b *bolt.Bucket) uint64 { return state(b).b.seq }

//verif:model (*go.etcd.io/bbolt.Bucket).SetSequence
func BSetSequence(b *bolt.Bucket, v uint64) error {
	s := state(b)
	if err := s.check(); err != nil {
		return err
	}
	s.b.seq = v
	return nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).NextSequence
func BNextSequence(b *bolt.Bucket) (uint64, error) {
	s := state(b)
	if err := s.check(); err != nil {
		return 0, err
	}
	if fault("nextsequence") {
		return 0, ErrInjected
	}
	s.b.seq++
	return s.b.seq, nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).Stats
func BStats(b *bolt.Bucket) bolt.BucketStats { return bolt.BucketStats{KeyN: len(state(b).b.kvs)} }

//verif:model (*go.etcd.io/bbolt.Bucket).ForEach
func BForEach(b *bolt.Bucket, fn func(k, v []byte) error) error {
	s := state(b)
	if s.t.done {
		return berr.ErrTxClosed
	}
	s.b.sort()
	for _, e := range append([]*kv{}, s.b.kvs...) {
		v := e.v
		if e.sub != nil {
			v = nil
		}
		if err := fn(e.k, v); err != nil {
			return err
		}
	}
	return nil
}

//verif:model (*go.etcd.io/bbolt.Bucket).ForEachBucket
func BForEachBucket(b *bolt.Bucket, fn func(k []byte) error) error {
	return BForEach(b, func(k, v []byte) error {
		if v == nil {
			return fn(k)
		}
		return nil
	})
}

//verif:model (*go.etcd.io/bbolt.Bucket).Cursor
func BCursor(b *bolt.Bucket) *bolt.Cursor {
	c := &bolt.Cursor{}
	s := state(b)
	curs[c] = &cState{b: s, bk: b, pos: -1}
	return c
}

func (c *cState) at() ([]byte, []byte) {
	if c.pos < 0 || c.pos >= len(c.b.b.kvs) {
		return nil, nil
	}
	e := c.b.b.kvs[c.pos]
	if e.sub != nil {
		return e.k, nil
	}
	return e.k, e.v
}

//verif:model (*go.etcd.io/bbolt.Cursor).Bucket
func CBucket(c *bolt.Cursor) *bolt.Bucket { return curs[c].bk }

//verif:model (*go.etcd.io/bbolt.Cursor).First
func CFirst(c *bolt.Cursor) ([]byte, []byte) {
	s := curs[c]
	s.b.b.sort()
	s.pos = 0
	return s.at()
}

//verif:model (*go.etcd.io/bbolt.Cursor).Last
func CLast(c *bolt.Cursor) ([]byte, []byte) {
	s := curs[c]
	s.b.b.sort()
	s.pos = len(s.b.b.kvs) - 1
	return s.at()
}

//verif:model (*go.etcd.io/bbolt.Cursor).Next
func CNext(c *bolt.Cursor) ([]byte, []byte) {
	s := curs[c]
	s.b.b.sort()
	if s.pos < len(s.b.b.kvs) {
		s.pos++
	}
	return s.at()
}

//verif:model (*go.etcd.io/bbolt.Cursor).Prev
func CPrev(c *bolt.Cursor) ([]byte, []byte) {
	s := curs[c]
	s.b.b.sort()
	if s.pos >= 0 {
		s.pos--
	}
	return s.at()
}

//verif:model (*go.etcd.io/bbolt.Cursor).Seek
func CSeek(c *bolt.Cursor, seek []byte) ([]byte, []byte) {
	s := curs[c]
	s.b.b.sort()
	s.pos = 0
	for s.pos < len(s.b.b.kvs) && bytes.Compare(s.b.b.kvs[s.pos].k, seek) < 0 {
		s.pos++
	}
	return s.at()
}

//verif:model (*go.etcd.io/bbolt.Cursor).Delete
func CDelete(c *bolt.Cursor) error {
	s := curs[c]
	if err := s.b.check(); err != nil {
		return err
	}
	k, _ := s.at()
	if k == nil {
		return nil
	}
	return BDelete(s.bk, k)
}
