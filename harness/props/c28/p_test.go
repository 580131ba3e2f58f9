package c28

import (
	"context"
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"verif/harness/mon"
	"verif/harness/sq"
)

const ddl = "create table %s (id integer primary key, created_at integer, updated_at integer, deleted_at integer default 0, name text, score real, kind integer)"

// Rec is a record as users declare them.
type Rec struct {
	gorm_tools.BaseModel
	Name  string   `json:"name"`
	Score *float64 `json:"score"`
	Kind  int64    `json:"kind"`
}

// Plain carries no base model.
type Plain struct {
	ID   int64 `gorm:"column:id"`
	Name string
	Kind int64
}

var texts = []string{"x", "", "O'Brien", `"q"`, "50% ?", "张三", "a');drop table t;--", "null", "\\", "%"}

func text(c *mon.C) string {
	if c.IntN(3) == 0 {
		return fmt.Sprint("n", c.IntN(5))
	}
	if c.IntN(2) == 0 {
		return mon.Pick(c.Rand, sq.Texts...)
	}
	return texts[c.IntN(len(texts))]
}

type world struct {
	c    *mon.C
	db   *sq.DB
	want map[int64]sq.Row // the table worked on
	side map[int64]sq.Row // its neighbour, never touched
	max  int64
}

// call calls a helper the ways users do: at once, in a transaction, through a
// handle with a context, the table named plainly or not.
func (w *world) call(f func(table string, h *gorm.DB) error) error {
	table := mon.Pick(w.c.Rand, "t", "t", "main.t", "`t`")
	switch w.c.IntN(4) {
	case 0:
		return w.db.DB.Transaction(func(tx *gorm.DB) error { return f(table, tx) })
	case 1:
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		return f(table, w.db.DB.WithContext(ctx))
	}
	return f(table, w.db.DB)
}

// clock says whether got is a time of this call.
func clock(got any, from, to time.Time) bool {
	v, ok := got.(int64)
	return ok && v >= from.Unix() && v <= to.Unix()
}

// settle replaces times set by the call with what they should be, once checked.
func (w *world) settle(what string, id int64, cols []string, from, to time.Time, got map[int64]sq.Row) {
	for _, col := range cols {
		g := got[id][col]
		w.c.Check(clock(g, from, to), "%s: row %d: %s is %v, the call ran at %d..%d", what, id, col, g, from.Unix(), to.Unix())
		w.want[id][col] = g
	}
}

func (w *world) ids(n int) []int64 {
	var out []int64
	if n > 2 && w.c.IntN(3) == 0 {
		// as many as the span they lie in, but with gaps and repetitions
		lo := w.some()
		out = append(out, lo, lo+int64(n)-1)
		for len(out) < n {
			out = append(out, out[w.c.IntN(len(out))])
			if w.c.IntN(3) == 0 {
				out[len(out)-1] = lo + int64(w.c.IntN(n))
			}
		}
		w.c.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out
	}
	for i := 0; i < n; i++ {
		switch w.c.IntN(12) {
		case 2:
			out = append(out, mon.Pick[int64](w.c.Rand, 0, math.MaxInt64, math.MinInt64, 1<<53+1))
		case 0, 3:
			out = append(out, w.max+1+int64(w.c.IntN(50))) // missing
		case 1, 4:
			out = append(out, -int64(w.c.IntN(50)))
		default:
			out = append(out, w.some())
		}
	}
	return out
}

func (w *world) some() int64 {
	if len(w.want) == 0 {
		return 7
	}
	var best int64
	k := w.c.IntN(len(w.want))
	keys := make([]int64, 0, len(w.want))
	for id := range w.want {
		keys = append(keys, id)
	}
	// in a fixed order, so that a case replays
	for i := range keys {
		for j := i + 1; j < len(keys); j++ {
			if keys[j] < keys[i] {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	best = keys[k]
	return best
}

func (w *world) updates() (map[string]any, sq.Row) {
	c := w.c
	u, r := map[string]any{}, sq.Row{}
	if c.IntN(2) == 0 {
		s := text(c)
		u["name"], r["name"] = s, s
		if c.IntN(5) == 0 {
			u["name"], r["name"] = nil, nil
		}
	}
	if c.IntN(3) == 0 {
		f := float64(c.IntN(1000)) / 4
		u["score"], r["score"] = f, f
	}
	if c.IntN(2) == 0 {
		n := c.IntN(6)
		u["kind"], r["kind"] = n, int64(n)
	}
	return u, r
}

func TestProp(t *testing.T) {
	mon.Run(t, "C28", "seeded histories of inserts, targeted updates, deletes and soft deletes on a real SQL engine with a neighbour table, both tables read back whole after every call and compared; non-trivial = a call changed some rows and left others", func(m *mon.M) {
		m.Cases("long lists", m.N(12), func(c *mon.C) {
			db := sq.Varied(c, "create table w (id integer primary key, a integer, updated_at integer)")
			defer db.Close()
			n := 1000 + c.IntN(4000)
			want := map[int64]int64{}
			for lo := 0; lo < n; lo += 400 {
				q, args := "insert into w (id, a) values (?, ?)", []any{}
				for i := lo; i < min(n, lo+400); i++ {
					if i > lo {
						q += ", (?, ?)"
					}
					args = append(args, i*3, i)
					want[int64(i*3)] = int64(i)
				}
				db.Raw(q, args...)
			}
			check := func(what string) {
				got, rows := db.Dump("w")
				c.Check(rows == len(want), "%s: %d rows, want %d", what, rows, len(want))
				for id, a := range want {
					c.Check(got[id] != nil && got[id]["a"] == a, "%s: row %d is %v, want a = %d", what, id, got[id], a)
				}
			}
			for s := int64(1); s <= 3; s++ {
				var ids []int64
				for _, i := range c.Perm(n)[:mon.Pick(c.Rand, 1, 499, 500, 501, 999, 1000, c.IntN(n+1), n)] {
					ids = append(ids, int64(i*3))
				}
				what := fmt.Sprintf("updating %d of %d rows", len(ids), n)
				var err error
				if s < 3 {
					err = gorm_tools.UpdateByTableNameAndIds("w", ids, map[string]any{"a": -s}, db.DB)
				} else {
					what = fmt.Sprintf("deleting %d of %d rows", len(ids), n)
					err = gorm_tools.DelByTableNameAndId("w", ids, db.DB)
				}
				c.Log("%s: %v", what, err)
				c.Check(err == nil, "%s: %v", what, err)
				for _, id := range ids {
					if _, ok := want[id]; ok && s < 3 {
						want[id] = -s
					} else {
						delete(want, id)
					}
				}
				check(what)
			}
			c.M.Count("calls", 3)
			c.Nontrivial()
		})
		m.Cases("history", m.N(500), func(c *mon.C) {
			db := sq.Varied(c, fmt.Sprintf(ddl, "t"), fmt.Sprintf(ddl, "side"))
			defer db.Close()
			w := &world{c: c, db: db, want: map[int64]sq.Row{}, side: map[int64]sq.Row{}}
			for i := int64(1); i <= 5; i++ {
				db.Raw("insert into side (id, name, kind) values (?, ?, ?)", i, "side", i)
				w.side[i] = sq.Row{"id": i, "created_at": nil, "updated_at": nil, "deleted_at": int64(0), "name": "side", "score": nil, "kind": i}
			}
			for s, steps := 0, mon.Pick(c.Rand, 5, 15, 40); s < steps; s++ {
				before := len(w.want)
				from := time.Now()
				touched := 0
				what := ""
				o := c.IntN(14)
				if s < 3 {
					o = c.IntN(4)
				}
				switch {
				case o < 4:
					what = w.insert()
				case o == 4:
					ids := w.ids(mon.Pick(c.Rand, 0, 1, 2, 3, 8, 8, c.IntN(2500)))
					what = fmt.Sprint("delete ", ids)
					handed := slices.Clone(ids)
					err := w.call(func(t string, h *gorm.DB) error { return gorm_tools.DelByTableNameAndId(t, ids, h) })
					c.Check(reflect.DeepEqual(ids, handed), "the caller's ids are not as they were")
					c.Check(err == nil, "%s: %v", what, err)
					for _, id := range ids {
						delete(w.want, id)
					}
					touched = before - len(w.want)
				case o == 5 || o == 6:
					id := w.ids(1)[0]
					u, r := w.updates()
					what = fmt.Sprint("update ", id, " ", u)
					err := w.call(func(t string, h *gorm.DB) error { return gorm_tools.UpdateByTableNameAndId(t, id, u, h) })
					c.Check(err == nil, "%s: %v", what, err)
					touched = w.apply([]int64{id}, r)
				case o == 7:
					ids := w.ids(mon.Pick(c.Rand, 0, 1, 2, 3, 8, 8, c.IntN(2500)))
					u, r := w.updates()
					what = fmt.Sprint("update ", ids, " ", u)
					handed, set := slices.Clone(ids), maps.Clone(u)
					err := w.call(func(t string, h *gorm.DB) error { return gorm_tools.UpdateByTableNameAndIds(t, ids, u, h) })
					c.Check(reflect.DeepEqual(ids, handed) && reflect.DeepEqual(u, set), "the caller's ids and values are not as they were")
					c.Check(err == nil, "%s: %v", what, err)
					touched = w.apply(ids, r)
				case o == 8 || o == 9:
					what, touched = w.where()
				case o == 10: // a row with times of its own
					id := w.some()
					old := mon.Pick[any](c.Rand, nil, int64(0), int64(5), int64(1600000000), int64(1)<<40, int64(-1))
					what = fmt.Sprint("row ", id, " has the times ", old)
					db.Raw("update t set created_at=?, updated_at=?, deleted_at=? where id=?", old, old, old, id)
					if r := w.want[id]; r != nil {
						r["created_at"], r["updated_at"], r["deleted_at"] = old, old, old
					}
				case o == 11: // a row with an id no sequence gives
					id := mon.Pick[int64](c.Rand, 0, 0, -1, -7, math.MinInt64, 1<<53+1, 1<<53)
					what = fmt.Sprint("a row with id ", id)
					if w.want[id] == nil {
						db.Raw("insert into t (id, name, kind) values (?, ?, ?)", id, "odd", 3)
						w.want[id] = sq.Row{"id": id, "created_at": nil, "updated_at": nil, "deleted_at": int64(0), "name": "odd", "score": nil, "kind": int64(3)}
						c.M.Count("odd_ids", 1)
					}
				case o == 12:
					what, touched = w.rename()
				default:
					id := w.ids(1)[0]
					what = fmt.Sprint("soft delete ", id)
					err := w.call(func(t string, h *gorm.DB) error { return gorm_tools.SoftDelByTableNameAndId(t, id, h) })
					c.Check(err == nil, "%s: %v", what, err)
					if w.want[id] != nil {
						got, _ := db.Dump("t")
						w.settle(what, id, []string{"updated_at", "deleted_at"}, from, time.Now(), got)
						touched = 1
						c.M.Count("soft_deletes", 1)
					}
				}
				c.Log("%s", what)
				if touched > 0 && touched < before {
					c.Nontrivial()
				}
				c.M.Count("calls", 1)
				got, n := db.Dump("t")
				c.Check(n == len(got), "%s: ids are not unique any more", what)
				sq.Tables(c, what, got, w.want)
				got, _ = db.Dump("side")
				sq.Tables(c, what+" (another table)", got, w.side)
				if c.Failed() {
					return
				}
			}
		})
	})
}

func (w *world) apply(ids []int64, r sq.Row) int {
	n := 0
	done := map[int64]bool{}
	for _, id := range ids {
		if w.want[id] != nil && !done[id] && len(r) > 0 {
			done[id] = true
			n++
			for k, v := range r {
				w.want[id][k] = v
			}
		}
	}
	return n
}

func (w *world) insert() string {
	c := w.c
	from := time.Now()
	n := mon.Pick(c.Rand, 1, 1, 2, 5, 20)
	fresh := func(i int) int64 { w.max += 1 + int64(c.IntN(3)); return w.max }
	var err error
	var rows []sq.Row
	stamped := false
	kind := c.IntN(5)
	what := fmt.Sprintf("insert %d of kind %d", n, kind)
	twice := w.some()
	up := false // the engine counts on from the greatest id, also from a negative one
	for id := range w.want {
		up = up || id > 0
	}
	clash := c.IntN(8) == 0 && w.want[twice] != nil && twice != 0 // a primary key already there; zero asks for a new one
	at := c.IntN(n)
	id := func(i int) int64 {
		if clash && i == at {
			return twice
		}
		return fresh(i)
	}
	switch kind {
	case 0, 1: // slice of records, by value or by pointer
		var rs []Rec
		var ps []*Rec
		for i := 0; i < n; i++ {
			r := Rec{Name: text(c), Kind: int64(c.IntN(6))}
			r.Id = id(i)
			row := sq.Row{"id": r.Id, "deleted_at": int64(0), "name": r.Name, "score": nil, "kind": r.Kind}
			if c.IntN(2) == 0 {
				f := float64(c.IntN(100)) / 2
				r.Score = &f
				row["score"] = f
			}
			rs = append(rs, r)
			ps = append(ps, &r)
			rows = append(rows, row)
		}
		stamped = true
		if kind == 0 {
			err = w.call(func(t string, h *gorm.DB) error { return gorm_tools.InsertToTable(t, &rs, h) })
		} else {
			err = w.call(func(t string, h *gorm.DB) error { return gorm_tools.InsertToTable(t, ps, h) })
		}
	case 2: // one record, its id given by the database
		r := Rec{Name: text(c), Kind: int64(c.IntN(6))}
		own := c.IntN(2) == 0 || clash || !up
		if own {
			at = 0
			r.Id = id(0)
		}
		err = w.call(func(t string, h *gorm.DB) error { return gorm_tools.InsertToTable(t, &r, h) })
		if !own && err == nil {
			c.Check(r.Id > 0 && w.want[r.Id] == nil, "%s: the record got id %d", what, r.Id)
			w.max = max(w.max, r.Id)
		}
		rows = append(rows, sq.Row{"id": r.Id, "deleted_at": int64(0), "name": r.Name, "score": nil, "kind": r.Kind})
		stamped = true
	case 3:
		var rs []Plain
		for i := 0; i < n; i++ {
			r := Plain{ID: id(i), Name: text(c), Kind: int64(c.IntN(6))}
			rs = append(rs, r)
			rows = append(rows, sq.Row{"id": r.ID, "created_at": nil, "updated_at": nil, "deleted_at": int64(0), "name": r.Name, "score": nil, "kind": r.Kind})
		}
		err = w.call(func(t string, h *gorm.DB) error { return gorm_tools.InsertToTable(t, rs, h) })
	default:
		var rs []map[string]any
		for i := 0; i < n; i++ {
			k, s, kd := id(i), text(c), c.IntN(6)
			rs = append(rs, map[string]any{"id": k, "name": s, "kind": kd})
			rows = append(rows, sq.Row{"id": k, "created_at": nil, "updated_at": nil, "deleted_at": int64(0), "name": s, "score": nil, "kind": int64(kd)})
		}
		if n == 1 {
			err = w.call(func(t string, h *gorm.DB) error { return gorm_tools.InsertToTable(t, rs[0], h) })
		} else {
			err = w.call(func(t string, h *gorm.DB) error { return gorm_tools.InsertToTable(t, rs, h) })
		}
	}
	if clash {
		c.Check(err != nil, "%s: a primary key twice and no error", what)
		w.c.M.Count("clashes", 1)
		return what + " with a clash"
	}
	c.Check(err == nil, "%s: %v", what, err)
	got, _ := w.db.Dump("t")
	for _, r := range rows {
		i := r["id"].(int64)
		w.want[i] = r
		if stamped {
			w.settle(what, i, []string{"created_at", "updated_at"}, from, time.Now(), got)
		}
	}
	return what
}

func (w *world) where() (string, int) {
	c := w.c
	cond := map[string]any{}
	var test []func(sq.Row) bool
	k := c.IntN(4)
	if k == 1 || k == 3 {
		n := int64(c.IntN(6))
		cond["kind"] = n
		test = append(test, func(r sq.Row) bool { return r["kind"] == n })
	}
	if k == 2 || k == 3 {
		switch c.IntN(4) {
		case 3:
			cond["name"] = []string{}
			test = append(test, func(r sq.Row) bool { return false })
		case 0:
			s := text(c)
			cond["name"] = s
			test = append(test, func(r sq.Row) bool { return r["name"] == s })
		case 1:
			s := []string{text(c), text(c)}
			cond["name"] = s
			test = append(test, func(r sq.Row) bool { return r["name"] == s[0] || r["name"] == s[1] })
		default:
			cond["name"] = nil
			test = append(test, func(r sq.Row) bool { return r["name"] == nil })
		}
	}
	u, r := w.updates()
	if len(u) == 0 {
		u["kind"], r["kind"] = 3, int64(3)
	}
	if len(cond) == 0 && c.IntN(2) == 0 {
		cond = nil
	}
	what := fmt.Sprint("update where ", cond, " ", u)
	asked, set := maps.Clone(cond), maps.Clone(u)
	err := w.call(func(t string, h *gorm.DB) error { return gorm_tools.UpdateByTableNameAndWhere(t, cond, u, h) })
	c.Check(reflect.DeepEqual(cond, asked) && reflect.DeepEqual(u, set), "the caller's condition and values are not as they were")
	if len(cond) == 0 {
		c.Check(err != nil, "%s: no condition and no error", what)
		c.M.Count("refused_without_condition", 1)
		return what, 0
	}
	c.Check(err == nil, "%s: %v", what, err)
	n := 0
	for id, row := range w.want {
		ok := true
		for _, t := range test {
			ok = ok && t(row)
		}
		if ok {
			n += w.apply([]int64{id}, r)
		}
	}
	c.M.Count("updates_by_condition", 1)
	return what, n
}

// rename gives one row another id.
func (w *world) rename() (string, int) {
	c := w.c
	from, to := w.some(), w.max+1+int64(c.IntN(3))
	row := w.want[from]
	taken := false
	if c.IntN(4) == 0 {
		to = w.some() // may be there already
		taken = to != from && w.want[to] != nil
	}
	u, r := w.updates()
	u["id"] = to
	if c.IntN(4) == 0 {
		u, r = map[string]any{"id": to}, sq.Row{}
	}
	if c.IntN(6) == 0 {
		u["id"] = int(to)
	}
	set := maps.Clone(u)
	how := c.IntN(3)
	what := fmt.Sprintf("give row %d (of %v) the values %v, way %d", from, row, u, how)
	err := w.call(func(t string, h *gorm.DB) error {
		switch how {
		case 0:
			return gorm_tools.UpdateByTableNameAndId(t, from, u, h)
		case 1:
			return gorm_tools.UpdateByTableNameAndIds(t, []int64{from, from}, u, h)
		}
		return gorm_tools.UpdateByTableNameAndWhere(t, map[string]any{"id": from}, u, h)
	})
	c.Check(reflect.DeepEqual(u, set), "the caller's values are not as they were")
	if row == nil {
		c.Check(err == nil, "%s: %v", what, err)
		return what, 0
	}
	if taken {
		c.Check(err != nil, "%s: two rows of one id and no error", what)
		return what, 0
	}
	c.Check(err == nil, "%s: %v", what, err)
	delete(w.want, from)
	for k, v := range r {
		row[k] = v
	}
	row["id"] = to
	w.want[to] = row
	w.max = max(w.max, to)
	c.M.Count("ids_changed", 1)
	return what, 1
}
