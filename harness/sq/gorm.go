package sq

import (
	"context"
	"database/sql"
	"fmt"
	"strings"

	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
	"verif/harness/mon"
)

type dialector struct{ db *sql.DB }

func (dialector) Name() string { return "sqlite" }
func (d dialector) Initialize(db *gorm.DB) error {
	db.ConnPool = d.db
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{})
	return nil
}
func (dialector) Migrator(*gorm.DB) gorm.Migrator                     { return nil }
func (dialector) DataTypeOf(*schema.Field) string                     { return "" }
func (dialector) DefaultValueOf(*schema.Field) clause.Expression      { return clause.Expr{SQL: "NULL"} }
func (dialector) BindVarTo(w clause.Writer, _ *gorm.Statement, _ any) { w.WriteByte('?') }
func (dialector) QuoteTo(w clause.Writer, s string) {
	w.WriteString("`" + strings.ReplaceAll(s, ".", "`.`") + "`")
}
func (dialector) Explain(sql string, vars ...any) string { return sql }

// DB is a gorm handle on a watched database.
type DB struct {
	*gorm.DB
	Spy *Spy
	sql *sql.DB
}

// New opens a database with the given DDL.
func New(c *mon.C, ddl ...string) *DB {
	spy := &Spy{}
	s := Open(spy)
	for _, d := range ddl {
		if _, err := s.Exec(d); err != nil {
			panic(err)
		}
	}
	g, err := gorm.Open(dialector{s}, &gorm.Config{Logger: logger.Discard})
	if err != nil {
		panic(err)
	}
	spy.Reset(0, nil)
	return &DB{DB: g, Spy: spy, sql: s}
}

// Varied is New with a handle of one of the kinds users have.
func Varied(c *mon.C, ddl ...string) *DB {
	d := New(c, ddl...)
	kind := c.IntN(8)
	switch kind {
	case 0, 1: // another configuration
		g, err := gorm.Open(dialector{d.sql}, &gorm.Config{Logger: logger.Discard, PrepareStmt: kind == 0, SkipDefaultTransaction: c.IntN(2) == 0, QueryFields: true})
		if err != nil {
			panic(err)
		}
		d.DB = g
	case 2:
		d.DB = d.DB.Session(&gorm.Session{SkipDefaultTransaction: true})
	case 3:
		d.DB = d.DB.Session(&gorm.Session{PrepareStmt: true, NewDB: true})
	case 4:
		d.DB = d.DB.WithContext(context.Background())
	case 5: // a handle that served others before
		d.DB = d.DB.Session(&gorm.Session{})
		d.DB.Exec("select 1")
		d.DB.Table("sqlite_master").Where("name = ?", "x").Find(&[]map[string]any{})
	}
	c.Log("handle of kind %d", kind)
	d.Spy.Reset(0, nil)
	return d
}

func (d *DB) Close() { d.sql.Close() }

// Row is the content of one row by column.
type Row map[string]any

// Dump reads a whole table, keyed by id.
func (d *DB) Dump(table string) (map[int64]Row, int) {
	rs, err := d.sql.Query("select * from " + table)
	if err != nil {
		panic(err)
	}
	return Read(rs)
}

// Read reads and closes rs, keyed by id.
func Read(rs *sql.Rows) (map[int64]Row, int) {
	defer rs.Close()
	cols, _ := rs.Columns()
	out := map[int64]Row{}
	n := 0
	for rs.Next() {
		vals := make([]any, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rs.Scan(ptrs...); err != nil {
			panic(err)
		}
		r := Row{}
		for i, c := range cols {
			r[c] = vals[i]
		}
		id, _ := r["id"].(int64)
		out[id] = r
		n++
	}
	if rs.Err() != nil {
		panic(rs.Err())
	}
	return out, n
}

// Exec runs a statement past the watcher.
func (d *DB) Raw(q string, args ...any) {
	if _, err := d.sql.Exec(q, args...); err != nil {
		panic(err)
	}
}

// Same compares two rows and names a difference.
func Same(got, want Row) string {
	diff := ""
	note := func(k string) {
		if d := fmt.Sprintf("column %s is %T %.80v, want %T %.80v", k, got[k], got[k], want[k], want[k]); diff == "" || d < diff {
			diff = d
		}
	}
	for k, w := range want {
		if g, ok := got[k]; !ok || !equal(g, w) {
			note(k)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			note(k)
		}
	}
	return diff
}

func equal(a, b any) bool {
	x, ok := a.([]byte)
	y, ok2 := b.([]byte)
	if ok || ok2 {
		return ok && ok2 && string(x) == string(y)
	}
	return a == b
}

// Tables compares a table with what it should hold.
func Tables(c *mon.C, what string, got, want map[int64]Row) {
	if len(got) != len(want) {
		c.Fail("%s: %d rows, want %d", what, len(got), len(want))
	}
	for id, w := range want {
		g, ok := got[id]
		if !ok {
			c.Fail("%s: row %d is missing", what, id)
			return
		}
		if d := Same(g, w); d != "" {
			c.Fail("%s: row %d: %s", what, id, d)
			return
		}
	}
}
