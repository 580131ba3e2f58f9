package c26

import (
	"encoding/json"
	"fmt"
	"maps"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"verif/harness/mon"
	"verif/harness/sq"
)

// rec leaves out empty fields, as real records do.
type rec struct {
	Id    int64    `json:"id,string"`
	Name  string   `json:"name,omitempty"`
	Score *float64 `json:"score,omitempty"`
	Count int64    `json:"count,omitempty"`
	Big   uint64   `json:"big"`
	OK    bool     `json:"ok,omitempty"`
	Note  *string  `json:"note"`
	Order string   `json:"order,omitempty"` // a reserved word
	Skip  string   `json:"-"`
}

const ddl = "create table t (id integer primary key, name text, score real, count integer, big integer, ok integer, note text, `order` text)"

func (r rec) row() sq.Row {
	w := sq.Row{"id": r.Id, "name": nil, "score": nil, "count": nil, "big": int64(r.Big), "ok": nil, "note": nil, "order": nil}
	if r.Name != "" {
		w["name"] = r.Name
	}
	if r.Score != nil {
		w["score"] = *r.Score
	}
	if r.Count != 0 {
		w["count"] = r.Count
	}
	if r.OK {
		w["ok"] = int64(1)
	}
	if r.Note != nil {
		w["note"] = *r.Note
	}
	if r.Order != "" {
		w["order"] = r.Order
	}
	return w
}

var texts = []string{"x", "O'Brien", `"quoted"`, "50% ?", "张三", "back`tick", "a,b);drop table t;--", "line\nbreak", "null", "NULL", "<b>&amp;", "0", "1e3", "emoji 😀", "{\"a\":1}"}

func text(c *mon.C) string {
	if c.IntN(3) == 0 {
		return fmt.Sprint("n", c.Uint32())
	}
	if c.IntN(2) == 0 {
		return mon.Pick(c.Rand, sq.Texts...)
	}
	return texts[c.IntN(len(texts))]
}

func gen(c *mon.C, id int64, fill int) rec {
	r := rec{Id: id, Big: c.Uint64() >> 1, Skip: "never"}
	if c.IntN(4) == 0 {
		r.Big = mon.Pick[uint64](c.Rand, 0, 1<<53+1, 1<<63-1, 1<<53-1)
	}
	if c.IntN(4) < fill {
		r.Name = text(c)
	}
	if c.IntN(4) < fill {
		f := float64(c.IntN(1<<20)-1<<19) / 8
		r.Score = &f
	}
	if c.IntN(4) < fill {
		r.Count = int64(c.Uint64())
	}
	r.OK = c.IntN(4) < fill
	if c.IntN(4) < fill {
		s := text(c)
		if c.IntN(5) == 0 {
			s = ""
		}
		r.Note = &s
	}
	if c.IntN(4) < fill {
		r.Order = text(c)
	}
	return r
}

func ids(c *mon.C) func() int64 {
	seen := map[int64]bool{}
	return func() int64 {
		for {
			id := int64(c.IntN(1 << 20))
			if c.IntN(6) == 0 {
				id = int64(c.Uint64())
			}
			if !seen[id] {
				seen[id] = true
				return id
			}
		}
	}
}

func insert(split bool) func(*gorm.DB, string, ...any) error {
	if split {
		return gorm_tools.SplitInsertTableRecords
	}
	return gorm_tools.BatchInsertTableRecords
}

func TestProp(t *testing.T) {
	mon.Run(t, "C26", "seeded batches of records with optional fields inserted into a real SQL engine beside existing rows, the table read back whole and compared; non-trivial = records of one batch had different fields, or the batch took several statements", func(m *mon.M) {
		m.Cases("structs", m.N(500), func(c *mon.C) {
			db := sq.Varied(c, ddl)
			defer db.Close()
			next := ids(c)
			want := map[int64]sq.Row{}
			batches := 1 + c.IntN(4)
			for b := 0; b < batches && !c.Failed(); b++ {
				n := mon.Pick(c.Rand, 0, 1, 2, 3, c.IntN(30), c.IntN(200))
				fill := mon.Pick(c.Rand, 0, 1, 2, 3, 4)
				var in []any
				shapes := map[string]bool{}
				for i := 0; i < n; i++ {
					r := gen(c, next(), fill)
					want[r.Id] = r.row()
					if c.IntN(2) == 0 {
						in = append(in, r)
					} else {
						in = append(in, &r)
					}
					shapes[fmt.Sprint(r.Name != "", r.Score != nil, r.Count != 0, r.OK, r.Note != nil, r.Order != "")] = true
				}
				split := c.IntN(2) == 0
				db.Spy.Reset(0, nil)
				handed := append([]any(nil), in...)
				table := mon.Pick(c.Rand, "t", "t", "main.t", "`t`")
				err := insert(split)(db.DB, table, in...)
				c.Check(reflect.DeepEqual(in, handed), "the caller's records are not as they were")
				c.Log("%d records of %d shapes, split=%v: %v", n, len(shapes), split, err)
				c.Check(err == nil, "inserting %d records failed: %v", n, err)
				c.M.Count("records", n)
				if len(shapes) > 1 {
					c.Nontrivial()
				}
				st := db.Spy.Snapshot()
				c.Check((len(st) > 0) == (n > 0), "%d records made %d statements", n, len(st))
				got, rows := db.Dump("t")
				c.Check(rows == len(want), "after inserting %d records there are %d rows, want %d", n, rows, len(want))
				sq.Tables(c, "after an insert", got, want)
			}
		})
		m.Cases("maps", m.N(200), func(c *mon.C) {
			// any mix of columns, up to very wide tables
			cols := mon.Pick(c.Rand, 1, 2, 5, 20)
			n := 1 + c.IntN(120)
			def := "create table w (id integer primary key"
			defaults := c.IntN(3) == 0
			empty := -1 // a column that is nil wherever it is named
			if c.IntN(3) == 0 {
				empty = c.IntN(cols)
			}
			for i := 0; i < cols; i++ {
				def += fmt.Sprintf(", c%d text", i)
				if defaults {
					def += " default 'none'"
				}
			}
			db := sq.Varied(c, def+")")
			defer db.Close()
			want := map[int64]sq.Row{}
			var in []any
			p := c.IntN(4)
			for i := 0; i < n; i++ {
				r := map[string]any{"id": i + 1}
				w := sq.Row{"id": int64(i + 1)}
				for k := 0; k < cols; k++ {
					col := fmt.Sprint("c", k)
					w[col] = nil
					if defaults || k == empty || c.IntN(20) == 0 { // nil is a value, too
						r[col] = nil
					}
					if k != empty && c.IntN(4) <= p {
						s := text(c)
						r[col], w[col] = s, s
					}
				}
				in = append(in, r)
				want[int64(i+1)] = w
			}
			split := c.IntN(2) == 0
			handed := make([]any, len(in))
			for i, r := range in {
				handed[i] = maps.Clone(r.(map[string]any))
			}
			err := insert(split)(db.DB, "w", in...)
			c.Check(reflect.DeepEqual(in, handed), "the caller's records are not as they were")
			c.Log("%d maps over %d columns, split=%v: %v", n, cols, split, err)
			c.Check(err == nil, "inserting failed: %v", err)
			c.Nontrivial()
			c.M.Count("records", n)
			got, _ := db.Dump("w")
			sq.Tables(c, "after an insert of maps", got, want)
		})
		m.Cases("nested", m.N(150), func(c *mon.C) {
			// lists and objects are one value each, whatever is in them
			type deep struct {
				Id   int64          `json:"id"`
				Tags []string       `json:"tags"`
				Attr map[string]any `json:"attr,omitempty"`
				Pos  *[2]int64      `json:"pos"`
				In   struct {
					K any `json:"k"`
				} `json:"in"`
				Name string `json:"name"`
			}
			db := sq.Varied(c, "create table w (id integer primary key, tags text, attr text, pos text, `in` text, name text)")
			defer db.Close()
			var any1 func(depth int) any
			any1 = func(depth int) any {
				switch k := c.IntN(8); {
				case k == 0:
					return nil
				case k == 1:
					return text(c)
				case k == 2:
					return float64(c.IntN(1000)) / 8
				case k == 3:
					return c.IntN(2) == 0
				case k < 6 && depth > 0:
					l := []any{}
					for n := c.IntN(4); n > 0; n-- {
						l = append(l, any1(depth-1))
					}
					return l
				case depth > 0:
					o := map[string]any{}
					for n := c.IntN(4); n > 0; n-- {
						o[text(c)] = any1(depth - 1)
					}
					return o
				}
				return float64(0)
			}
			back := func(v any) any { // as JSON has it
				b, err := json.Marshal(v)
				c.Check(err == nil, "harness: %v", err)
				var out any
				c.Check(json.Unmarshal(b, &out) == nil, "harness: %s", b)
				return out
			}
			var in, handed []any
			var recs []deep
			for n := 1 + c.IntN(mon.Pick(c.Rand, 1, 4, 30)); n > 0; n-- {
				r := deep{Id: int64(len(in) + 1), Name: text(c)}
				if c.IntN(4) > 0 {
					r.Tags = []string{}
					for k := c.IntN(4); k > 0; k-- {
						r.Tags = append(r.Tags, text(c))
					}
				}
				if c.IntN(2) == 0 {
					r.Attr = map[string]any{}
					for k := 1 + c.IntN(3); k > 0; k-- {
						r.Attr[text(c)] = any1(2)
					}
				}
				if c.IntN(2) == 0 {
					r.Pos = &[2]int64{int64(c.IntN(100)), -5}
				}
				r.In.K = any1(2)
				recs = append(recs, r)
				in = append(in, r)
				handed = append(handed, r)
			}
			split := c.IntN(2) == 0
			err := insert(split)(db.DB, "w", in...)
			c.Log("%d records with lists and objects, split=%v: %v", len(in), split, err)
			c.Check(err == nil, "inserting records with lists and objects failed: %v", err)
			c.Check(reflect.DeepEqual(in, handed), "the caller's records are not as they were")
			c.Nontrivial()
			c.M.Count("nested_records", len(in))
			got, _ := db.Dump("w")
			c.Check(len(got) == len(recs), "%d rows for %d records", len(got), len(recs))
			for _, r := range recs {
				w := got[r.Id]
				c.Check(w != nil && w["name"] == any(r.Name), "row %d: %v", r.Id, w)
				for col, v := range map[string]any{"tags": r.Tags, "attr": r.Attr, "pos": r.Pos, "in": r.In} {
					want := back(v)
					if want == nil {
						c.Check(w[col] == nil, "row %d: column %s is %v, want NULL", r.Id, col, w[col])
						continue
					}
					s, ok := w[col].(string)
					var have any
					c.Check(ok && json.Unmarshal([]byte(s), &have) == nil && reflect.DeepEqual(have, want), "row %d: column %s is %v, want %v", r.Id, col, w[col], want)
				}
			}
		})
		m.Cases("repeated", m.N(150), func(c *mon.C) {
			// records that say the same are as many rows
			db := sq.Varied(c, "create table w (id integer primary key, a text, b integer)")
			defer db.Close()
			want := map[string]int{}
			total := 0
			order := []string{""}
			for b := 1 + c.IntN(3); b > 0; b-- {
				var in []any
				for n := c.IntN(40); n > 0; n-- {
					r := map[string]any{}
					w := [2]any{nil, nil}
					if c.IntN(4) > 0 {
						s := mon.Pick(c.Rand, "x", "y", "")
						r["a"], w[0] = s, s
					}
					if c.IntN(3) > 0 || len(r) == 0 {
						k := int64(c.IntN(2))
						r["b"], w[1] = k, k
					}
					for k := 1 + c.IntN(3)*c.IntN(2); k > 0; k-- {
						in = append(in, r)
						want[fmt.Sprintf("%v %v", w[0], w[1])]++
						order = append(order, fmt.Sprintf("%v %v", w[0], w[1]))
						total++
					}
				}
				split := c.IntN(2) == 0
				err := insert(split)(db.DB, "w", in...)
				c.Log("%d records, split=%v: %v", len(in), split, err)
				c.Check(err == nil, "inserting failed: %v", err)
				c.M.Count("records", len(in))
			}
			rows, n := db.Dump("w")
			c.Check(n == total, "%d records are %d rows", total, n)
			got := map[string]int{}
			for id, r := range rows {
				s := fmt.Sprintf("%v %v", r["a"], r["b"])
				got[s]++
				c.Check(id > 0 && id < int64(len(order)) && order[id] == s, "row %d is %q, the records are, in order, %v", id, s, order[1:])
			}
			c.Check(reflect.DeepEqual(got, want), "records of these contents (and numbers of times) %v are rows of these %v", want, got)
			if len(want) < total {
				c.Nontrivial()
			}
		})
		m.Cases("late fields", m.N(6), func(c *mon.C) {
			// long batches in which a field comes up late, or once
			db := sq.Varied(c, "create table w (id integer primary key, a text, b text, c text, d text)")
			defer db.Close()
			n := 300 + c.IntN(3200)
			var in []any
			want := map[int64]sq.Row{}
			once := map[int]string{n - 1 - c.IntN(3): "b", c.IntN(n): "c", n / 2: "d"}
			for i := 0; i < n; i++ {
				r := map[string]any{"id": i}
				w := sq.Row{"id": int64(i), "a": nil, "b": nil, "c": nil, "d": nil}
				if i%3 > 0 {
					s := fmt.Sprint(i)
					r["a"], w["a"] = s, s
				}
				if f := once[i]; f != "" {
					r[f], w[f] = f, f
				}
				in = append(in, r)
				want[int64(i)] = w
			}
			split := c.IntN(2) == 0
			err := insert(split)(db.DB, "w", in...)
			c.Log("%d maps, split=%v: %v", n, split, err)
			c.Check(err == nil, "inserting failed: %v", err)
			c.Nontrivial()
			c.M.Count("records", n)
			got, _ := db.Dump("w")
			sq.Tables(c, "after an insert of maps", got, want)
		})
		m.Cases("split", m.N(7), func(c *mon.C) {
			// enough placeholders for several statements
			cols := mon.Pick(c.Rand, 1, 6, 60, 600, 1500)
			n := mon.Pick(c.Rand, 65000/(cols+1), 65000/(cols+1)+1, 2*65000/(cols+1), 65535/(cols+1)+2, 65000/(cols+1)+c.IntN(140000/(cols+1)))
			late := c.IntN(2) == 0          // the first record knows only its id
			given := late || c.IntN(2) == 0 // else the engine numbers them as they come
			def := "create table w (id integer primary key"
			for i := 0; i < cols; i++ {
				def += fmt.Sprintf(", c%d integer", i)
			}
			db := sq.Varied(c, def+")")
			defer db.Close()
			in := make([]any, n)
			for i := range in {
				r := map[string]any{}
				if given {
					r["id"] = i + 1
				}
				if !(late && i == 0) {
					for k := 0; k < cols; k++ {
						r[fmt.Sprint("c", k)] = i*7 + k
					}
				}
				in[i] = r
			}
			err := gorm_tools.SplitInsertTableRecords(db.DB, "w", in...)
			st := db.Spy.Snapshot()
			most := 0
			for _, s := range st {
				most = max(most, s.Args)
			}
			c.Log("%d records over %d columns, short first record %v: %d statements, at most %d placeholders, %v", n, cols+1, late, len(st), most, err)
			c.Check(err == nil, "inserting failed: %v", err)
			c.Check(most <= 65535, "%d records over %d columns: a statement has %d placeholders", n, cols+1, most)
			c.M.Count("records", n)
			c.M.Count("statements", len(st))
			c.M.Peak("most_placeholders", most)
			if len(st) > 1 {
				c.Nontrivial()
			}
			got, rows := db.Dump("w")
			c.Check(rows == n && len(got) == n, "%d rows, want %d", rows, n)
			for i := 0; i < n; i++ {
				g := got[int64(i+1)]
				c.Check(g != nil, "row %d is missing", i+1)
				for k := 0; k < cols; k++ {
					v := g[fmt.Sprint("c", k)]
					if late && i == 0 {
						c.Check(v == nil, "row 1 column c%d = %v, want NULL", k, v)
					} else {
						c.Check(v == int64(i*7+k), "row %d column c%d = %v, want %d", i+1, k, v, i*7+k)
					}
				}
			}
		})
		m.Cases("bad records", m.N(40), func(c *mon.C) {
			// one that cannot be stored, anywhere in the batch: an error and nothing written
			db := sq.Varied(c, "create table w (id integer primary key, a text, v real)")
			defer db.Close()
			n := 1 + c.IntN(20)
			if c.Idx%5 == 0 { // more than one statement holds
				n = 65000/3 + c.IntN(5000)
			}
			at := mon.Pick(c.Rand, 0, n-1, c.IntN(n))
			bad := mon.Pick[any](c.Rand, math.NaN(), math.Inf(1), func() {}, make(chan int), map[bool]int{true: 1})
			in := make([]any, n)
			for i := range in {
				r := map[string]any{"id": i + 1, "a": "x", "v": float64(i)}
				if i == at {
					r["v"] = bad
				}
				in[i] = r
			}
			whole := mon.Pick[any](c.Rand, nil, nil, 5, "text", []int{1, 2}, true)
			if whole != nil {
				in[at] = whole
			}
			split := n > 1000 || c.IntN(2) == 0
			err := insert(split)(db.DB, "w", in...)
			c.Log("%d records, record %d bad (%T, %T), split=%v: %v", n, at, bad, whole, split, err)
			c.Check(err != nil, "record %d of %d cannot be stored (%T, %T) and there is no error", at, n, bad, whole)
			_, rows := db.Dump("w")
			c.Check(rows == 0, "record %d of %d cannot be stored (%T, %T), the insert failed and %d rows are written", at, n, bad, whole, rows)
			c.M.Count("bad_batches", 1)
			c.Nontrivial()
		})
		m.Cases("wide", 1, func(c *mon.C) {
			// one record wider than a statement may be: an answer, not a hang
			db := sq.Varied(c, "create table w (id integer primary key)")
			defer db.Close()
			r := map[string]any{}
			for i := 0; i < 65001; i++ {
				r[fmt.Sprint("c", i)] = i
			}
			err := gorm_tools.SplitInsertTableRecords(db.DB, "w", r, r)
			c.Log("a record of 65001 columns: error=%v", err != nil)
			c.Check(err != nil, "a record of 65001 columns went into a table of one")
		})
		// texts of many kilobytes beside numbers that need every digit
		m.Cases("long texts", m.N(12), func(c *mon.C) {
			db := sq.Varied(c, ddl)
			defer db.Close()
			next := ids(c)
			want := map[int64]sq.Row{}
			var in []any
			total := 0
			for i, n := 0, 1+c.IntN(6); i < n; i++ {
				r := gen(c, next(), 4)
				r.Big = mon.Pick[uint64](c.Rand, 1<<53+1, 1<<63-1, 1<<62+1)
				s := strings.Repeat(mon.Pick(c.Rand, "x", "张", "\"", "\\", "<", "\n", text(c)), mon.Pick(c.Rand, 1, 4000, 40000, 70000, 700000))
				r.Note = &s
				total += len(s)
				want[r.Id] = r.row()
				in = append(in, r)
			}
			split := c.IntN(2) == 0
			err := insert(split)(db.DB, "t", in...)
			c.Log("%d records, %d bytes of text, split=%v: %v", len(in), total, split, err)
			c.Check(err == nil, "inserting %d records with %d bytes of text failed: %v", len(in), total, err)
			c.Nontrivial()
			c.M.Count("records", len(in))
			c.M.Peak("most_text", total)
			got, _ := db.Dump("t")
			sq.Tables(c, "after an insert of long texts", got, want)
		})
	})
}
