// Package vsql wraps the sqlite driver: every statement is an event that a
// check can observe, fail, snapshot before, or schedule around.
package vsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsync"
	_ "modernc.org/sqlite"
)

// Event describes one storage action about to happen.
type Event struct {
	Kind string // exec, query, next, begin, commit
	SQL  string
	Write bool
}

// Hook runs before each event; a non-nil error fails the event.
type Hook func(Event) error

var (
	hook   atomic.Pointer[Hook]
	regMu  sync.Mutex
	regged = map[string]string{}
)

// SetHook installs h (nil removes it).
func SetHook(h Hook) {
	if h == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&h)
}

// ErrInjected is the storage error checks inject.
var ErrInjected = errors.New("disk I/O error (10) [injected]")

// Open stands in for sql.Open.
func Open(name, dsn string) (*sql.DB, error) {
	if !strings.HasPrefix(name, "sqlite") {
		return sql.Open(name, dsn)
	}
	regMu.Lock()
	w, ok := regged[name]
	if !ok {
		db, err := sql.Open(name, ":memory:")
		if err != nil {
			regMu.Unlock()
			return nil, err
		}
		d := db.Driver()
		db.Close()
		w = name + "-vmc"
		sql.Register(w, &drv{d})
		regged[name] = w
	}
	regMu.Unlock()
	return sql.Open(w, dsn)
}

type drv struct{ d driver.Driver }

func (d *drv) Open(dsn string) (driver.Conn, error) {
	c, err := d.d.Open(dsn)
	if err != nil {
		return nil, err
	}
	w := &conn{c: c, base: c.(baseConn)}
	return w, nil
}

type baseConn interface {
	driver.Conn
	driver.ExecerContext
	driver.QueryerContext
	driver.ConnBeginTx
	driver.ConnPrepareContext
	driver.Pinger
	driver.SessionResetter
	driver.Validator
}

type conn struct {
	c       driver.Conn
	base    baseConn
	busyms  int64
	checked bool
	inTx    bool
}

func isWrite(q string) bool {
	s := strings.ToUpper(strings.TrimSpace(q))
	for _, p := range []string{"SELECT", "PRAGMA", "WITH", "EXPLAIN"} {
		if strings.HasPrefix(s, p) {
			return false
		}
	}
	return true
}

func (c *conn) before(kind, q string) error {
	if vsync.Active() {
		c.takeBusy()
		vsync.Point("sql " + kind + " " + short(q))
	}
	if h := hook.Load(); h != nil {
		return (*h)(Event{kind, q, isWrite(q)})
	}
	return nil
}

func short(q string) string {
	q = strings.Join(strings.Fields(q), " ")
	if len(q) > 60 {
		q = q[:60]
	}
	return q
}

// takeBusy moves the connection's busy waiting into the scheduler.
func (c *conn) takeBusy() {
	if c.checked {
		return
	}
	c.checked = true
	rows, err := c.base.QueryContext(context.Background(), "PRAGMA busy_timeout", nil)
	if err == nil {
		dest := make([]driver.Value, len(rows.Columns()))
		if rows.Next(dest) == nil && len(dest) > 0 {
			if v, ok := dest[0].(int64); ok {
				c.busyms = v
			}
		}
		rows.Close()
	}
	if c.busyms > 0 {
		c.base.ExecContext(context.Background(), "PRAGMA busy_timeout=0", nil)
	}
}

type coder interface{ Code() int }

func busy(err error) (bool, bool) {
	var e coder
	if err == nil || !errors.As(err, &e) {
		return false, false
	}
	code := e.Code()
	if code&0xff == 5 || code&0xff == 6 {
		return true, code == 517 // BUSY_SNAPSHOT is never waited for
	}
	return false, false
}

func retry[T any](c *conn, op string, f func() (T, error)) (T, error) {
	for {
		r, err := f()
		if !vsync.Active() {
			return r, err
		}
		vsync.Progress0(err == nil)
		b, snap := busy(err)
		if !b || snap || c.busyms <= 0 {
			return r, err
		}
		if !vsync.WaitProgress("busy " + op) {
			return r, err
		}
	}
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if err := c.before("exec", q); err != nil {
		return nil, err
	}
	return retry(c, "exec", func() (driver.Result, error) { return c.base.ExecContext(ctx, q, a) })
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	if err := c.before("query", q); err != nil {
		return nil, err
	}
	r, err := retry(c, "query", func() (driver.Rows, error) { return c.base.QueryContext(ctx, q, a) })
	return wrapRows(r, err, q)
}

// rows makes fetching a row of a read query an event too.
type rows struct {
	driver.Rows
	q string
}

func wrapRows(r driver.Rows, err error, q string) (driver.Rows, error) {
	if err != nil || hook.Load() == nil || isWrite(q) {
		return r, err
	}
	return &rows{r, q}, nil
}

func (r *rows) Next(dest []driver.Value) error {
	if h := hook.Load(); h != nil {
		if err := (*h)(Event{"next", r.q, false}); err != nil {
			return err
		}
	}
	return r.Rows.Next(dest)
}


func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	s, err := c.base.PrepareContext(ctx, q)
	if err != nil {
		return nil, err
	}
	return &stmt{s: s, c: c, q: q}, nil
}
func (c *conn) Prepare(q string) (driver.Stmt, error) { return c.PrepareContext(context.Background(), q) }

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.before("begin", "BEGIN"); err != nil {
		return nil, err
	}
	t, err := retry(c, "begin", func() (driver.Tx, error) { return c.base.BeginTx(ctx, o) })
	if err != nil {
		return nil, err
	}
	return &tx{t, c}, nil
}
func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }
func (c *conn) Close() error {
	err := c.c.Close()
	if vsync.Active() {
		vsync.Progress()
	}
	return err
}
func (c *conn) Ping(ctx context.Context) error         { return c.base.Ping(ctx) }
func (c *conn) ResetSession(ctx context.Context) error { return c.base.ResetSession(ctx) }
func (c *conn) IsValid() bool                          { return c.base.IsValid() }

// Raw gives access to driver specific interfaces (backup and the like).
func (c *conn) Raw() any { return c.c }

type tx struct {
	t driver.Tx
	c *conn
}

func (t *tx) Commit() error {
	if err := t.c.before("commit", "COMMIT"); err != nil {
		t.t.Rollback() // a failed commit leaves nothing behind
		return err
	}
	_, err := retry(t.c, "commit", func() (int, error) { return 0, t.t.Commit() })
	return err
}

func (t *tx) Rollback() error {
	if vsync.Active() {
		vsync.Point("sql rollback")
	}
	err := t.t.Rollback()
	if vsync.Active() {
		vsync.Progress()
	}
	return err
}

type stmt struct {
	s driver.Stmt
	c *conn
	q string
}

func (s *stmt) Close() error  { return s.s.Close() }
func (s *stmt) NumInput() int { return s.s.NumInput() }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	if err := s.c.before("exec", s.q); err != nil {
		return nil, err
	}
	return retry(s.c, "exec", func() (driver.Result, error) { return s.s.Exec(a) })
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) {
	if err := s.c.before("query", s.q); err != nil {
		return nil, err
	}
	r, err := retry(s.c, "query", func() (driver.Rows, error) { return s.s.Query(a) })
	return wrapRows(r, err, s.q)
}
func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	if x, ok := s.s.(driver.StmtExecContext); ok {
		if err := s.c.before("exec", s.q); err != nil {
			return nil, err
		}
		return retry(s.c, "exec", func() (driver.Result, error) { return x.ExecContext(ctx, a) })
	}
	v := make([]driver.Value, len(a))
	for i := range a {
		v[i] = a[i].Value
	}
	return s.Exec(v)
}
func (s *stmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	if x, ok := s.s.(driver.StmtQueryContext); ok {
		if err := s.c.before("query", s.q); err != nil {
			return nil, err
		}
		r, err := retry(s.c, "query", func() (driver.Rows, error) { return x.QueryContext(ctx, a) })
		return wrapRows(r, err, s.q)
	}
	v := make([]driver.Value, len(a))
	for i := range a {
		v[i] = a[i].Value
	}
	return s.Query(v)
}
