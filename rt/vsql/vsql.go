// Package vsql opens databases in a scratch directory, with scripted faults.
package vsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"path/filepath"
	"strings"
	"sync"
)

// Dir is the scratch directory.
var Dir string

// FailAt is the 0-based index of the statement (exec, begin, commit) to fail; -1 for none.
var (
	FailAt = -1
	FailOp string
	mu     sync.Mutex
	counts = map[string]int{}
	Hits   int
	conns  int
)

// ErrInjected is the injected failure.
var ErrInjected = errors.New("injected fault: database or disk is full")

// Reset prepares a run.
func Reset(op string, at int) {
	mu.Lock()
	defer mu.Unlock()

	FailOp, FailAt, Hits = op, at, 0
	counts = map[string]int{}
	conns = 0
}

// Conns counts the connections that are open.
func Conns() int {
	mu.Lock()
	defer mu.Unlock()

	return conns
}

// Counts returns statement counts.
func Counts() map[string]int {
	mu.Lock()
	defer mu.Unlock()

	r := map[string]int{}
	for k, v := range counts {
		r[k] = v
	}

	return r
}

func fault(op string) error {
	mu.Lock()
	defer mu.Unlock()

	n := counts[op]
	counts[op]++

	if FailOp == op && FailAt == n {
		Hits++
		return ErrInjected
	}

	return nil
}

// Path maps a database file name to the scratch directory.
func Path(fn string) string {
	fn = strings.TrimPrefix(fn, "file:")
	if i := strings.Index(fn, "?"); i >= 0 {
		fn = fn[:i]
	}

	return filepath.Join(Dir, filepath.Base(fn))
}

var (
	reg  sync.Once
	real driver.Driver
)

// Open replaces sql.Open.
func Open(name, dsn string) (*sql.DB, error) {
	reg.Do(func() {
		db, err := sql.Open(name, ":memory:")
		if err != nil {
			return
		}

		real = db.Driver()
		_ = db.Close()
		sql.Register("vsqlite", drv{})
	})

	if real == nil {
		return nil, errors.New("no driver " + name)
	}

	if err := fault("open"); err != nil {
		return nil, err
	}

	return sql.Open("vsqlite", Path(dsn))
}

type drv struct{}

func (drv) Open(name string) (driver.Conn, error) {
	if err := fault("connect"); err != nil {
		return nil, err
	}

	c, err := real.Open(name)
	if err != nil {
		return nil, err
	}

	if e, ok := c.(driver.ExecerContext); ok {
		// Scratch data needs no durability.
		_, _ = e.ExecContext(context.Background(), "pragma synchronous=off;", nil)
	}

	mu.Lock()
	conns++
	mu.Unlock()

	return &conn{c}, nil
}

type conn struct{ c driver.Conn }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return c.c.Prepare(q) }

func (c *conn) Close() error {
	mu.Lock()
	conns--
	mu.Unlock()

	if err := fault("close"); err != nil {
		_ = c.c.Close()
		return err
	}

	return c.c.Close()
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := fault("begin"); err != nil {
		return nil, err
	}

	var (
		t   driver.Tx
		err error
	)

	if b, ok := c.c.(driver.ConnBeginTx); ok {
		t, err = b.BeginTx(ctx, o)
	} else {
		t, err = c.c.Begin() //nolint:staticcheck
	}

	if err != nil {
		return nil, err
	}

	return &tx{t}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if err := fault("exec"); err != nil {
		return nil, err
	}

	return c.c.(driver.ExecerContext).ExecContext(ctx, q, a)
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	return c.c.(driver.QueryerContext).QueryContext(ctx, q, a)
}

type tx struct{ t driver.Tx }

func (t *tx) Commit() error {
	if err := fault("commit"); err != nil {
		_ = t.t.Rollback()
		return err
	}

	return t.t.Commit()
}

func (t *tx) Rollback() error { return t.t.Rollback() }
