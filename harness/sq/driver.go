// Package sq is a database/sql driver over the system's SQLite, written for
// observation: it records every statement that reaches the database and can
// make the k-th one fail.
package sq

/*
#cgo LDFLAGS: -lsqlite3
#include <sqlite3.h>
#include <stdlib.h>
// looking for equal constants is quadratic in the size of a statement
static void dont_factor(sqlite3 *db) { sqlite3_test_control(15, db, 0x00000008u); }
static int bind_text(sqlite3_stmt *s, int i, const char *p, int n) { return sqlite3_bind_text(s, i, n ? p : "", n, SQLITE_TRANSIENT); }
static int bind_blob(sqlite3_stmt *s, int i, const void *p, int n) { return n ? sqlite3_bind_blob(s, i, p, n, SQLITE_TRANSIENT) : sqlite3_bind_zeroblob(s, i, 0); }
*/
import "C"

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"
	"unsafe"
)

// Stmt is one statement the database was given.
type Stmt struct {
	SQL  string
	Args int
	Err  error
}

// Spy watches and disturbs one database.
type Spy struct {
	mu     sync.Mutex
	Stmts  []Stmt
	Writes int   // statements other than queries so far
	FailAt int   // the write that fails, counting from 1; 0 for none
	Fail   error // with this error
	InTx   bool
	// On is told the number of every write before it happens
	On func(n int)
	// CountTx makes begin and commit count as writes that can fail
	CountTx bool
}

// Reset forgets what was recorded and arms a fault.
func (s *Spy) Reset(failAt int, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Stmts, s.Writes, s.FailAt, s.Fail, s.On = nil, 0, failAt, err, nil
}

func (s *Spy) write(q string, args int) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Writes++
	if s.On != nil {
		s.On(s.Writes)
	}
	var err error
	if s.Writes == s.FailAt {
		err = s.Fail
	}
	s.Stmts = append(s.Stmts, Stmt{q, args, err})
	return err
}

// Snapshot copies the record.
func (s *Spy) Snapshot() []Stmt {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Stmt(nil), s.Stmts...)
}

// Open opens a private in-memory database.
func Open(spy *Spy) *sql.DB {
	db := sql.OpenDB(connector{spy})
	db.SetMaxOpenConns(1)
	return db
}

type connector struct{ spy *Spy }

func (c connector) Connect(context.Context) (driver.Conn, error) {
	var db *C.sqlite3
	name := C.CString(":memory:")
	defer C.free(unsafe.Pointer(name))
	if rc := C.sqlite3_open(name, &db); rc != C.SQLITE_OK {
		return nil, fmt.Errorf("sqlite3_open: %d", rc)
	}
	C.dont_factor(db)
	return &conn{db, c.spy}, nil
}
func (c connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("use sq.Open") }

type conn struct {
	db  *C.sqlite3
	spy *Spy
}

func (c *conn) err() error { return errors.New(C.GoString(C.sqlite3_errmsg(c.db))) }

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	cs := C.CString(q)
	defer C.free(unsafe.Pointer(cs))
	var st *C.sqlite3_stmt
	if rc := C.sqlite3_prepare_v2(c.db, cs, C.int(len(q)), &st, nil); rc != C.SQLITE_OK {
		return nil, c.err()
	}
	return &stmt{c, st, q}, nil
}
func (c *conn) Close() error { C.sqlite3_close_v2(c.db); return nil }

func (c *conn) exec(q string) error {
	s, err := c.Prepare(q)
	if err != nil {
		return err
	}
	defer s.Close()
	_, err = s.(*stmt).run(nil)
	return err
}

func (c *conn) Begin() (driver.Tx, error) {
	if c.spy.CountTx {
		if err := c.spy.write("BEGIN", 0); err != nil {
			return nil, err
		}
	}
	if err := c.exec("BEGIN"); err != nil {
		return nil, err
	}
	return tx{c}, nil
}

type tx struct{ c *conn }

func (t tx) Commit() error {
	if t.c.spy.CountTx {
		if err := t.c.spy.write("COMMIT", 0); err != nil {
			t.c.exec("ROLLBACK")
			return err
		}
	}
	return t.c.exec("COMMIT")
}
func (t tx) Rollback() error { return t.c.exec("ROLLBACK") }

// ResetSession and IsValid keep the one connection alive.
func (c *conn) ResetSession(context.Context) error { return nil }
func (c *conn) IsValid() bool                      { return true }

type stmt struct {
	c *conn
	s *C.sqlite3_stmt
	q string
}

func (s *stmt) Close() error {
	if s.s != nil {
		C.sqlite3_finalize(s.s)
		s.s = nil
	}
	return nil
}
func (s *stmt) NumInput() int { return int(C.sqlite3_bind_parameter_count(s.s)) }

func (s *stmt) bind(args []driver.Value) error {
	C.sqlite3_reset(s.s)
	C.sqlite3_clear_bindings(s.s)
	for i, a := range args {
		n := C.int(i + 1)
		var rc C.int
		switch v := a.(type) {
		case nil:
			rc = C.sqlite3_bind_null(s.s, n)
		case int64:
			rc = C.sqlite3_bind_int64(s.s, n, C.sqlite3_int64(v))
		case float64:
			rc = C.sqlite3_bind_double(s.s, n, C.double(v))
		case bool:
			b := 0
			if v {
				b = 1
			}
			rc = C.sqlite3_bind_int64(s.s, n, C.sqlite3_int64(b))
		case string:
			p := unsafe.StringData(v)
			rc = C.bind_text(s.s, n, (*C.char)(unsafe.Pointer(p)), C.int(len(v)))
		case []byte:
			rc = C.bind_blob(s.s, n, unsafe.Pointer(unsafe.SliceData(v)), C.int(len(v)))
		case time.Time:
			t := v.UTC().Format(time.RFC3339Nano)
			rc = C.bind_text(s.s, n, (*C.char)(unsafe.Pointer(unsafe.StringData(t))), C.int(len(t)))
		default:
			return fmt.Errorf("cannot bind %T", a)
		}
		if rc != C.SQLITE_OK {
			return s.c.err()
		}
	}
	return nil
}

func (s *stmt) run(args []driver.Value) (driver.Result, error) {
	if err := s.bind(args); err != nil {
		return nil, err
	}
	for {
		rc := C.sqlite3_step(s.s)
		if rc == C.SQLITE_ROW {
			continue
		}
		if rc != C.SQLITE_DONE {
			err := s.c.err()
			C.sqlite3_reset(s.s)
			return nil, err
		}
		break
	}
	return result{int64(C.sqlite3_last_insert_rowid(s.c.db)), int64(C.sqlite3_changes(s.c.db))}, nil
}

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	if err := s.c.spy.write(s.q, len(args)); err != nil {
		return nil, err
	}
	return s.run(args)
}

func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	if err := s.bind(args); err != nil {
		return nil, err
	}
	return &rows{s}, nil
}

type result struct{ id, n int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

type rows struct{ s *stmt }

func (r *rows) Columns() []string {
	n := int(C.sqlite3_column_count(r.s.s))
	out := make([]string, n)
	for i := range out {
		out[i] = C.GoString(C.sqlite3_column_name(r.s.s, C.int(i)))
	}
	return out
}
func (r *rows) Close() error { C.sqlite3_reset(r.s.s); return nil }
func (r *rows) Next(dest []driver.Value) error {
	switch rc := C.sqlite3_step(r.s.s); rc {
	case C.SQLITE_DONE:
		return io.EOF
	case C.SQLITE_ROW:
	default:
		return r.s.c.err()
	}
	for i := range dest {
		n := C.int(i)
		switch C.sqlite3_column_type(r.s.s, n) {
		case C.SQLITE_INTEGER:
			dest[i] = int64(C.sqlite3_column_int64(r.s.s, n))
		case C.SQLITE_FLOAT:
			dest[i] = float64(C.sqlite3_column_double(r.s.s, n))
		case C.SQLITE_NULL:
			dest[i] = nil
		case C.SQLITE_BLOB:
			dest[i] = C.GoBytes(C.sqlite3_column_blob(r.s.s, n), C.sqlite3_column_bytes(r.s.s, n))
		default:
			dest[i] = C.GoStringN((*C.char)(unsafe.Pointer(C.sqlite3_column_text(r.s.s, n))), C.sqlite3_column_bytes(r.s.s, n))
		}
	}
	return nil
}
