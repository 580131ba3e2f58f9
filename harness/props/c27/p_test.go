package c27

import (
	"database/sql"
	"fmt"
	"maps"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"verif/harness/mon"
	"verif/harness/sq"
)

var texts = []string{"x", "", "O'Brien", `"q"`, "50% ?", "张三", "a,b);drop table t;--", "case when", "end", "null"}

func value(c *mon.C, kind int) (in, out any) {
	if c.IntN(8) == 0 {
		return nil, nil
	}
	switch kind % 3 {
	case 0:
		v := int64(c.Uint64())
		switch c.IntN(8) {
		case 3:
			return &v, v
		case 4:
			return sql.NullInt64{Int64: v, Valid: v%2 == 0}, map[bool]any{true: v}[v%2 == 0]
		case 5:
			return v%2 == 0, map[bool]int64{true: 1}[v%2 == 0]
		case 6:
			return (*int64)(nil), nil
		case 7: // computed by the engine
			a := int64(int32(v))
			return gorm.Expr("? + 3", a), a + 3
		case 0:
			return int(v), v
		case 1:
			return int32(v), int64(int32(v))
		case 2:
			v = mon.Pick[int64](c.Rand, 0, math.MaxInt64, math.MinInt64, -1)
		}
		return v, v
	case 1:
		f := float64(c.IntN(1<<20)-1<<19) / 8
		switch c.IntN(4) {
		case 0:
			return float32(f), f
		case 1:
			return &f, f
		}
		return f, f
	}
	s := texts[c.IntN(len(texts))]
	switch c.IntN(4) {
	case 0, 1:
		s = fmt.Sprint("v", c.Uint32())
	case 2:
		s = mon.Pick(c.Rand, sq.Texts...)
	}
	switch c.IntN(6) {
	case 0:
		return &s, s
	case 1:
		return sql.NullString{String: s, Valid: true}, s
	case 2:
		return []byte(s + "!"), []byte(s + "!")
	}
	return s, s
}

var types = []string{"integer", "real", "text"}

func TestProp(t *testing.T) {
	mon.Run(t, "C27", "seeded batch updates on a real SQL engine (listed ids, missing ids, other rows beside, values of several types, unequal field sets), the table read back whole and compared; non-trivial = at least two rows changed to different values with other rows beside, or unequal fields refused", func(m *mon.M) {
		body := func(c *mon.C, rows, cols, listed int, split, odds bool) {
			def := "create table t (id integer primary key"
			for i := 0; i < cols; i++ {
				def += fmt.Sprintf(", c%d %s", i, types[i%3])
			}
			db := sq.Varied(c, def+")", strings.Replace(def, "table t", "table side", 1)+")")
			defer db.Close()
			db.Raw("insert into side (id, c0) values (1, 7), (2, 8)")
			sideWant, _ := db.Dump("side")
			table := mon.Pick(c.Rand, "t", "t", "main.t", "`t`")
			want := map[int64]sq.Row{}
			var ids []int64
			seen := map[int64]bool{}
			db.Raw("begin")
			for len(ids) < rows+listed {
				id := int64(c.IntN(rows*20 + listed*2 + 20))
				if c.IntN(6) == 0 {
					id = int64(c.Uint64())
				}
				if seen[id] {
					continue
				}
				seen[id] = true
				ids = append(ids, id)
				if len(want) < rows { // the rest do not exist
					db.Raw("insert into t (id) values (?)", id)
					w := sq.Row{"id": id}
					for i := 0; i < cols; i++ {
						v := any(int64(len(want)))
						if i%3 == 1 {
							v = float64(len(want))
						} else if i%3 == 2 {
							v = fmt.Sprint("old", len(want))
						}
						w[fmt.Sprint("c", i)] = v
					}
					want[id] = w
				}
			}
			for id, w := range want {
				q, args := "update t set id=id", []any{}
				for i := 0; i < cols; i++ {
					q += fmt.Sprintf(", c%d=?", i)
					args = append(args, w[fmt.Sprint("c", i)])
				}
				db.Raw(q+" where id=?", append(args, id)...)
			}
			db.Raw("commit")
			// the fields updated: any nonempty subset
			var fields []int
			for i := 0; i < cols; i++ {
				if cols > 20 || c.IntN(3) > 0 {
					fields = append(fields, i)
				}
			}
			if len(fields) == 0 {
				fields = []int{c.IntN(cols)}
			}
			// some fields say the same, or nearly the same, in every record
			few := map[int][][2]any{}
			for _, f := range fields {
				if c.IntN(4) > 0 {
					continue
				}
				for n := 1 + c.IntN(2); n > 0; n-- {
					in, out := value(c, f)
					few[f] = append(few[f], [2]any{in, out})
				}
				switch c.IntN(4) {
				case 0:
					few[f] = append(few[f], [2]any{nil, nil})
				case 1:
					if f%3 == 2 {
						few[f] = [][2]any{{nil, nil}, {"<nil>", "<nil>"}}
					}
				}
			}
			value := func(c *mon.C, f int) (in, out any) {
				if few[f] != nil {
					v := few[f][c.IntN(len(few[f]))]
					return v[0], v[1]
				}
				return value(c, f)
			}
			upd := map[int64]map[string]any{}
			exist := 0
			bad := (odds || c.IntN(4) == 0) && listed > 1
			odd := c.IntN(listed)
			how := "equal"
			c.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
			next := map[int64]sq.Row{}
			for n, id := range ids[:listed] {
				u := map[string]any{}
				w := sq.Row{}
				for k, v := range want[id] {
					w[k] = v
				}
				for _, f := range fields {
					in, out := value(c, f)
					u[fmt.Sprint("c", f)] = in
					w[fmt.Sprint("c", f)] = out
				}
				if bad && n == odd {
					switch k := c.IntN(3); {
					case k == 0 && len(fields) < cols:
						how = "one has more"
						for i := 0; i < cols; i++ {
							if _, ok := u[fmt.Sprint("c", i)]; !ok {
								u[fmt.Sprint("c", i)], w[fmt.Sprint("c", i)] = value(c, i)
								break
							}
						}
					case k == 1 && len(fields) > 1 || len(fields) == cols && len(fields) > 1:
						how = "one has fewer"
						delete(u, fmt.Sprint("c", fields[0]))
						w[fmt.Sprint("c", fields[0])] = want[id][fmt.Sprint("c", fields[0])]
					case len(fields) < cols:
						how = "one has others"
						for i := 0; i < cols; i++ {
							if _, ok := u[fmt.Sprint("c", i)]; !ok {
								u[fmt.Sprint("c", i)], w[fmt.Sprint("c", i)] = value(c, i)
								break
							}
						}
						delete(u, fmt.Sprint("c", fields[0]))
						w[fmt.Sprint("c", fields[0])] = want[id][fmt.Sprint("c", fields[0])]
					}
				}
				upd[id] = u
				if want[id] != nil {
					exist++
					next[id] = w
				}
			}
			db.Spy.Reset(0, nil)
			handed := maps.Clone(upd)
			for id, u := range upd {
				handed[id] = maps.Clone(u)
			}
			var err error
			if split {
				err = gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.DB, table, upd)
			} else {
				err = gorm_tools.BatchUpdateTableFieldWithoutVersionByID(db.DB, table, upd)
			}
			c.Check(reflect.DeepEqual(upd, handed), "the caller's records are not as they were")
			sideGot, _ := db.Dump("side")
			sq.Tables(c, "after the update, another table", sideGot, sideWant)
			st := db.Spy.Snapshot()
			most := 0
			for _, s := range st {
				most = max(most, s.Args)
			}
			c.Log("%d rows of %d columns, %d ids listed (%d exist), %d fields, %s, split=%v: %d statements, at most %d placeholders, %v", rows, cols, listed, exist, len(fields), how, split, len(st), most, err)
			c.M.Count("rows_listed", listed)
			c.M.Count("statements", len(st))
			c.M.Peak("most_placeholders", most)
			if split {
				c.Check(most <= 65535, "%d ids, %d fields: a statement has %d placeholders", listed, len(fields), most)
			}
			got, n := db.Dump("t")
			c.Check(n == rows, "%d rows became %d", rows, n)
			if how != "equal" {
				c.M.Count("unequal_fields", 1)
				c.Nontrivial()
				if !split {
					c.Check(err != nil, "%d updates of which %s fields than the others: no error", listed, how)
					sq.Tables(c, "after refused updates", got, want)
					return
				}
				if err != nil {
					// every row is whole: as it was or as it should become
					for id, w := range want {
						if next[id] == nil || sq.Same(got[id], w) == "" {
							next[id] = w
						}
					}
					sq.Tables(c, "after partly refused updates", got, next)
					return
				}
			} else {
				c.Check(err == nil, "updating %d ids, %d fields failed: %v", listed, len(fields), err)
			}
			if exist > 1 && exist < rows {
				c.Nontrivial()
			}
			for id, w := range next {
				want[id] = w
			}
			sq.Tables(c, "after the update", got, want)
		}
		m.Cases("batch", m.N(600), func(c *mon.C) {
			body(c, 1+c.IntN(30), 1+c.IntN(6), 1+c.IntN(20), c.IntN(2) == 0, false)
		})
		m.Cases("split", m.N(12), func(c *mon.C) {
			body(c, 1+c.IntN(1700), 1+c.IntN(3), mon.Pick(c.Rand, 499, 500, 501, 999, 1000, 1001, 1+c.IntN(1600)), true, false)
		})
		m.Cases("odd one out", m.N(24), func(c *mon.C) { // one of many with other fields
			body(c, 1+c.IntN(700), 2+c.IntN(3), 50+c.IntN(550), false, true)
		})
		m.Cases("wide", m.N(3), func(c *mon.C) {
			body(c, 100+c.IntN(300), mon.Pick(c.Rand, 66, 68, 75, 120), mon.Pick(c.Rand, 499, 500, 520), true, false)
		})
		m.Cases("none", 4, func(c *mon.C) {
			db := sq.Varied(c, "create table t (id integer primary key, a text)")
			defer db.Close()
			db.Raw("insert into t values (1, 'x'), (2, 'y')")
			db.Spy.Reset(0, nil)
			var in map[int64]map[string]any
			if c.Idx%2 == 0 {
				in = map[int64]map[string]any{}
			}
			var err error
			if c.Idx < 2 {
				err = gorm_tools.BatchUpdateTableFieldWithoutVersionByID(db.DB, "t", in)
			} else {
				err = gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.DB, "t", in)
			}
			c.Check(err == nil && len(db.Spy.Snapshot()) == 0, "updating nothing: %v, %d statements", err, len(db.Spy.Snapshot()))
		})
	})
}
