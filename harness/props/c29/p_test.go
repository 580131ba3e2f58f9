package c29

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"verif/harness/mon"
	"verif/harness/sq"
)

type rec struct {
	ID   int64 `gorm:"column:id" json:"id"`
	Name string
	A    int64
}

func seedRows(db *sq.DB, n int) {
	db.Raw("begin")
	for i := 1; i <= n; i++ {
		db.Raw("insert into t (id, name, a, b) values (?, ?, ?, ?)", i, fmt.Sprint("old", i), i, -i)
	}
	db.Raw("commit")
	db.Spy.Reset(0, nil)
}

var faults = []string{"connection refused", "Error 1213: Deadlock found when trying to get lock", "Error 1062: Duplicate entry '7' for key 'PRIMARY'", "Error 1062 (23000): Duplicate entry 'a-b' for key 't.udx_name'", "invalid connection", "%s %d %!v", "Data too long for column 'name'", "duplicate key value violates unique constraint"}

// call is one function under a fault; n scales its statements.
type call struct {
	name  string
	batch bool // the batch insert functions
	stmts func(n int) int
	do    func(db *gorm.DB, n int) error
}

func records(from, n int) []any {
	out := make([]any, n)
	for i := range out {
		out[i] = map[string]any{"id": from + i, "name": fmt.Sprint("new", from+i), "a": i}
	}
	return out
}

const extra = 37

var ddl = func() string {
	s := "create table t (id integer primary key, name text, a integer, b integer"
	for i := 0; i < extra; i++ {
		s += fmt.Sprintf(", x%d integer", i)
	}
	return s + ")"
}()

func wide(from, n int) []any {
	out := records(from, n)
	for i, r := range out {
		for k := 0; k < extra; k++ {
			r.(map[string]any)[fmt.Sprint("x", k)] = i + k
		}
	}
	return out
}

func updates(n int) map[int64]map[string]any {
	out := map[int64]map[string]any{}
	for i := 1; i <= n; i++ {
		out[int64(i)] = map[string]any{"name": fmt.Sprint("upd", i), "a": 1000 + i}
	}
	return out
}

func one(int) int { return 1 }

var calls = []call{
	{"InsertToTable", false, one, func(db *gorm.DB, n int) error {
		rs := []rec{{100001, "x", 1}, {100002, "y", 2}}
		return gorm_tools.InsertToTable("t", &rs, db)
	}},
	{"DelByTableNameAndId", false, one, func(db *gorm.DB, n int) error {
		return gorm_tools.DelByTableNameAndId("t", []int64{1, 3}, db)
	}},
	{"UpdateByTableNameAndId", false, one, func(db *gorm.DB, n int) error {
		return gorm_tools.UpdateByTableNameAndId("t", 2, map[string]any{"name": "z"}, db)
	}},
	{"UpdateByTableNameAndIds", false, one, func(db *gorm.DB, n int) error {
		return gorm_tools.UpdateByTableNameAndIds("t", []int64{2, 3}, map[string]any{"name": "z"}, db)
	}},
	{"UpdateByTableNameAndWhere", false, one, func(db *gorm.DB, n int) error {
		return gorm_tools.UpdateByTableNameAndWhere("t", map[string]any{"a": 1}, map[string]any{"name": "z"}, db)
	}},
	{"SoftDelByTableNameAndId", false, one, func(db *gorm.DB, n int) error {
		return gorm_tools.SoftDelByTableNameAndId("s", 2, db)
	}},
	{"BatchInsertTableRecords", true, one, func(db *gorm.DB, n int) error {
		return gorm_tools.BatchInsertTableRecords(db, "t", records(200001, 1+n%50)...)
	}},
	{"SplitInsertTableRecords", true, nil, func(db *gorm.DB, n int) error {
		return gorm_tools.SplitInsertTableRecords(db, "t", wide(200001, n)...)
	}},
	{"BatchUpdateTableFieldWithoutVersionByID", false, one, func(db *gorm.DB, n int) error {
		return gorm_tools.BatchUpdateTableFieldWithoutVersionByID(db, "t", updates(1+n%50))
	}},
	{"SplitUpdateTableFieldWithoutVersionByID", false, nil, func(db *gorm.DB, n int) error {
		return gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db, "t", updates(n))
	}},
}

func TestProp(t *testing.T) {
	mon.Run(t, "C29", "every writing function is run with the k-th statement (or begin, or commit) failing, on its own and inside a caller's transaction; the error, the statements sent afterwards and the whole table are judged; non-trivial = a fault was hit", func(m *mon.M) {
		m.Cases("kth", m.N(160), func(c *mon.C) {
			cl := calls[c.Idx%len(calls)]
			n := 1 + c.IntN(60)
			rows := 60
			if cl.stmts == nil { // several statements
				n = 501 + c.IntN(1600)
				if cl.batch {
					n = 65000/(3+extra) + 1 + c.IntN(2500)
					if c.Idx/len(calls)%3 > 0 {
						n = 1 + c.IntN(100)
					}
				}
				rows = 2200
			}
			db := sq.Varied(c, ddl, "create table s (id integer primary key, updated_at integer, deleted_at integer)")
			defer db.Close()
			seedRows(db, rows)
			db.Raw("insert into s values (2, 1, 0)")
			old, _ := db.Dump("t")
			oldS, _ := db.Dump("s")

			// how many statements does it take
			db.Spy.CountTx = true
			db.Spy.Reset(0, nil)
			tx := db.DB.Begin()
			if err := cl.do(tx, n); err != nil {
				c.Fail("%s failed without a fault: %v", cl.name, err)
			}
			whole, _ := dump(tx, db)
			tx.Rollback()
			total := 0
			for _, s := range db.Spy.Snapshot() {
				if s.SQL != "BEGIN" && s.SQL != "COMMIT" {
					total++
				}
			}
			msg := faults[c.IntN(len(faults))]
			fault := errors.New(msg)
			k := 1 + c.IntN(total)
			if c.IntN(2) == 0 {
				k = total
			}
			inTx := c.IntN(3) == 0
			judge := func(err error, what string) {
				c.Check(err != nil, "%s: no error", what)
				if cl.batch && strings.Contains(msg, "Duplicate entry") {
					c.Check(err.Error() == "duplicate record exists", "%s: error %q", what, err)
				} else {
					c.Check(strings.Contains(err.Error(), msg), "%s: error %q does not tell the cause", what, err)
					c.Check(!strings.Contains(err.Error(), "duplicate record exists"), "%s: error %q", what, err)
				}
				c.Nontrivial()
				c.M.Count("faults_hit", 1)
			}
			if inTx {
				// with the transaction its users are told to bring, it is all or nothing
				db.Spy.Reset(k+1, fault) // the begin counts
				var err error
				db.DB.Transaction(func(tx *gorm.DB) error {
					err = cl.do(tx, n)
					return err
				})
				what := fmt.Sprintf("%s in a transaction, statement %d of %d failing with %q", cl.name, k, total, msg)
				c.Log("%s: %v", what, err)
				judge(err, what)
				got, _ := db.Dump("t")
				sq.Tables(c, what, got, old)
				got, _ = db.Dump("s")
				sq.Tables(c, what, got, oldS)
				return
			}
			// on its own; begin and commit can fail as well
			db.Spy.CountTx = c.IntN(2) == 0
			db.Spy.Reset(0, nil)
			at := k
			if db.Spy.CountTx && c.IntN(2) == 0 {
				at = 1 + c.IntN(total+2)
			}
			db.Spy.Reset(at, fault)
			err := cl.do(db.DB, n)
			st := db.Spy.Snapshot()
			what := fmt.Sprintf("%s, write %d failing with %q", cl.name, at, msg)
			c.Log("%s: %d statements, %v", what, len(st), err)
			if len(st) < at { // there was no such write
				c.Check(err == nil, "%s, which was never reached: %v", what, err)
				return
			}
			judge(err, what)
			c.Check(len(st) == at, "%s: %d statements were sent", what, len(st))
			// each row is as it was or as the whole call would leave it, and no
			// more rows changed than the statements before the fault account for
			got, _ := db.Dump("t")
			changed, wanted := 0, 0
			for id, w := range whole {
				if sq.Same(old[id], w) != "" {
					wanted++
				}
				g := got[id]
				if sq.Same(g, w) != "" && !(g == nil && old[id] == nil) {
					if sq.Same(g, old[id]) != "" {
						c.Fail("%s: row %d is neither as before nor as wanted: %s", what, id, sq.Same(g, w))
					}
				}
				if sq.Same(g, old[id]) != "" {
					changed++
				}
			}
			for id := range got {
				c.Check(old[id] != nil || whole[id] != nil, "%s: row %d appeared", what, id)
			}
			for id, o := range old {
				if whole[id] == nil { // to be deleted
					wanted++
				} else {
					c.Check(got[id] != nil, "%s: row %d disappeared", what, id)
				}
				if got[id] == nil || sq.Same(got[id], o) != "" && whole[id] == nil {
					changed++
				}
			}
			c.M.Peak("rows_changed_before_the_fault", changed)
			if total == 1 {
				c.Check(changed == 0, "%s: %d rows changed", what, changed)
			} else {
				c.Check(at == 1 && changed == 0 || at > 1 && changed < wanted, "%s: %d of %d rows changed", what, changed, wanted)
			}
			gotS, _ := db.Dump("s")
			if total == 1 {
				sq.Tables(c, what, gotS, oldS)
			}
			// and the connection is usable
			db.Spy.CountTx = false
			db.Spy.Reset(0, nil)
			err = gorm_tools.UpdateByTableNameAndId("t", 5, map[string]any{"b": 77}, db.DB)
			got, _ = db.Dump("t")
			c.Check(err == nil && got[5]["b"] == int64(77), "after %s the database refuses an update: %v", what, err)
		})
		m.Cases("chunks", m.N(40), func(c *mon.C) {
			// the first chunks fail, the later ones never go out
			db := sq.Varied(c, ddl)
			defer db.Close()
			seedRows(db, 5)
			old, _ := db.Dump("t")
			insert := c.Idx%2 == 0
			msg := faults[c.Idx/2%len(faults)]
			at := 1
			if c.IntN(8) == 0 {
				at = 2
			}
			db.Spy.Reset(at, errors.New(msg))
			var err error
			what := ""
			if insert {
				rs := wide(1000, (at+1)*65000/(3+extra)+c.IntN(500))
				what = fmt.Sprintf("a split insert of %d records", len(rs))
				err = gorm_tools.SplitInsertTableRecords(db.DB, "t", rs...)
			} else {
				us := updates((at+1)*500 + c.IntN(500))
				what = fmt.Sprintf("a split update of %d rows", len(us))
				err = gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.DB, "t", us)
			}
			st := db.Spy.Snapshot()
			c.Log("%s, statement %d failing with %q: %d sent, %v", what, at, msg, len(st), err)
			c.Nontrivial()
			c.M.Count("faults_hit", 1)
			c.Check(err != nil, "%s, statement %d failing with %q: no error", what, at, msg)
			c.Check(len(st) == at, "%s, statement %d failing with %q: %d statements were sent", what, at, msg, len(st))
			if insert && strings.Contains(msg, "Duplicate entry") {
				c.Check(err.Error() == "duplicate record exists", "%s failing with %q: error %q", what, msg, err)
			} else {
				c.Check(strings.Contains(err.Error(), msg), "%s failing with %q: error %q does not tell the cause", what, msg, err)
			}
			if at == 1 {
				got, _ := db.Dump("t")
				sq.Tables(c, what+" failing at once", got, old)
			}
		})
		m.Cases("given up", m.N(80), func(c *mon.C) {
			// the handle is of no use any more: its context is cancelled, now or
			// at some statement, its transaction is over, or it holds an error
			cl := calls[c.Idx%len(calls)]
			n, rows := 1+c.IntN(60), 60
			if cl.stmts == nil {
				n, rows = 1001+c.IntN(1000), 2200
				if cl.batch {
					n = 65000/(3+extra)*2 + 1 + c.IntN(2500)
				}
			}
			db := sq.Varied(c, ddl, "create table s (id integer primary key, updated_at integer, deleted_at integer)")
			defer db.Close()
			seedRows(db, rows)
			db.Raw("insert into s values (2, 1, 0)")
			old, _ := db.Dump("t")
			oldS, _ := db.Dump("s")
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var h *gorm.DB
			why, cause := "", error(context.Canceled)
			kind := c.Idx / len(calls) % 4
			if kind == 3 && cl.stmts != nil {
				kind = c.IntN(3)
			}
			switch kind {
			case 0:
				why = "with a cancelled context"
				h = db.DB.WithContext(ctx)
				cancel()
			case 1:
				why, cause = "in a transaction that is over", sql.ErrTxDone
				h = db.DB.Begin()
				if c.IntN(2) == 0 {
					h.Commit()
				} else {
					h.Rollback()
				}
			case 2:
				why = "in a transaction whose context is cancelled"
				h = db.DB.WithContext(ctx).Begin()
				cancel()
				// database/sql rolls back by itself, a moment later
				for until := time.Now().Add(10 * time.Second); time.Now().Before(until); time.Sleep(time.Millisecond) {
					if _, err := h.Statement.ConnPool.ExecContext(context.Background(), "select 1"); err == sql.ErrTxDone {
						break
					}
				}
				cause = nil // cancelled or over
			case 3:
				why = "with its context cancelled at its first statement"
				h = db.DB.WithContext(ctx)
			}
			db.Spy.Reset(0, nil)
			if kind == 3 {
				db.Spy.On = func(n int) {
					if n == 1 {
						cancel()
					}
				}
			}
			err := cl.do(h, n)
			st := db.Spy.Snapshot()
			what := cl.name + " " + why
			c.Log("%s: %d statements, %v", what, len(st), err)
			c.Nontrivial()
			c.M.Count("given_up", 1)
			c.Check(err != nil, "%s: no error", what)
			if cause != nil {
				c.Check(strings.Contains(err.Error(), cause.Error()), "%s: error %q", what, err)
			}
			most := 0
			if kind == 3 {
				most = 1
			}
			c.Check(len(st) <= most, "%s: %d statements were sent", what, len(st))
			if kind < 3 {
				got, _ := db.Dump("t")
				sq.Tables(c, what, got, old)
				got, _ = db.Dump("s")
				sq.Tables(c, what, got, oldS)
			}
		})
		m.Cases("ignored", m.N(30), func(c *mon.C) {
			// the database accepts the statement and does nothing
			db := sq.Varied(c, ddl)
			defer db.Close()
			db.Raw("create trigger g before insert on t begin select raise(ignore); end")
			n := 1 + c.IntN(20)
			var err error
			if c.Idx%2 == 0 {
				err = gorm_tools.BatchInsertTableRecords(db.DB, "t", records(1, n)...)
			} else {
				err = gorm_tools.SplitInsertTableRecords(db.DB, "t", records(1, n)...)
			}
			_, rows := db.Dump("t")
			c.Log("%d records swallowed by the database: %v", n, err)
			c.Nontrivial()
			c.Check(rows == 0, "the trigger did not work")
			c.Check(err != nil, "%d records inserted, no row written, no error", n)
		})
		m.Cases("reject", m.N(60), func(c *mon.C) {
			// what cannot be stored: an error, and nothing stored
			db := sq.Varied(c, ddl, "create unique index u on t (name)")
			defer db.Close()
			seedRows(db, 10)
			old, _ := db.Dump("t")
			n := 2 + c.IntN(20)
			rs := records(100, n)
			at := c.IntN(n)
			why := ""
			switch c.Idx % 5 {
			case 0:
				why = "a key already there"
				rs[at].(map[string]any)["id"] = 1 + c.IntN(10)
			case 1:
				why = "a unique name already there"
				rs[at].(map[string]any)["name"] = "old4"
			case 2:
				why = "a column the table has not"
				rs[at].(map[string]any)["zz"] = 1
			case 3:
				why = "a value JSON cannot express"
				rs[at] = map[string]any{"id": 5000, "name": func() {}}
			default:
				why = "a record that is no object"
				rs[at] = []any{1, "a", []int{1}, 2.5, true}[c.IntN(5)]
			}
			var err error
			if c.IntN(2) == 0 {
				err = gorm_tools.BatchInsertTableRecords(db.DB, "t", rs...)
			} else {
				err = gorm_tools.SplitInsertTableRecords(db.DB, "t", rs...)
			}
			c.Log("%d records, number %d with %s: %v", n, at, why, err)
			c.Nontrivial()
			c.Check(err != nil, "%d records, number %d with %s: no error", n, at, why)
			got, _ := db.Dump("t")
			sq.Tables(c, fmt.Sprintf("%d records, number %d with %s", n, at, why), got, old)
		})
	})
}

// dump reads t through an open transaction.
func dump(tx *gorm.DB, db *sq.DB) (map[int64]sq.Row, int) {
	rs, err := tx.Raw("select * from t").Rows()
	if err != nil {
		panic(err)
	}
	return sq.Read(rs)
}
