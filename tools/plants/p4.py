GO="gorm_tools/gorm.go"; UP="gorm_tools/update.go"
def G(body, imports=()):
    return 'package gorm_tools\n\nimport (\n\t"context"\n\t"database/sql"\n\t"errors"\n\t"testing"\n\n\t"gorm.io/gorm"\n\t"gorm.io/gorm/logger"\n\t"gorm.io/gorm/utils/tests"\n'+"".join('\t"%s"\n'%i for i in imports)+""")

// pool is a connection that records what it is sent.
type pool struct {
	sql  []string
	args [][]interface{}
	fail func(n int) error
	rows int64
}

func (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) {
	return nil, errors.New("not here")
}
func (p *pool) ExecContext(_ context.Context, q string, args ...interface{}) (sql.Result, error) {
	p.sql = append(p.sql, q)
	p.args = append(p.args, args)
	if p.fail != nil {
		if err := p.fail(len(p.sql)); err != nil {
			return nil, err
		}
	}
	return result(p.rows), nil
}
func (p *pool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) {
	return nil, errors.New("not here")
}
func (p *pool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }

type result int64

func (r result) LastInsertId() (int64, error) { return 0, nil }
func (r result) RowsAffected() (int64, error) { return int64(r), nil }

func open(t *testing.T) (*gorm.DB, *pool) {
	p := &pool{rows: 1}
	db, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{ConnPool: p, SkipDefaultTransaction: true, Logger: logger.Discard})
	if err != nil {
		t.Fatal(err)
	}
	return db, p
}

func TestPlantedDemo(t *testing.T) {
	db, p := open(t)
"""+body+"\n}\n"
PLANTS=[
dict(id="c26-even-chunks", property="C26", pkg="gorm_tools",
 needs="more records than fit one statement, not a multiple of the number of statements", breaks="records are cut into equal chunks and the remainder is lost",
 edits=[(GO,"	for len(records) != 0 {\n		insertLen := len(records)\n		if len(records) > maxInsertLen {\n			insertLen = maxInsertLen\n		}\n","	chunks := (len(records) + maxInsertLen - 1) / maxInsertLen\n	for insertLen := len(records) / chunks; chunks > 0; chunks-- {\n")],
 test=G("""
	var in []interface{}
	for i := 0; i < 65001; i++ {
		in = append(in, map[string]interface{}{"id": i})
	}
	if err := SplitInsertTableRecords(db, "t", in...); err != nil { t.Fatal(err) }
	n := 0
	for _, a := range p.args { n += len(a) }
	if n != 65001 { t.Fatal(n) }
""")),
dict(id="c26-last-value", property="C26", pkg="gorm_tools",
 needs="a record that lacks a field which an earlier record has", breaks="a field a record lacks gets the value of the record before instead of NULL",
 edits=[(GO,"	for _, item := range recordMap {\n		valueItem := make([]interface{}, 0, len(item))\n		for _, name := range fieldName {\n			valueItem = append(valueItem, item[name])\n		}\n","	last := make(map[string]interface{}, len(fieldName))\n	for _, item := range recordMap {\n		valueItem := make([]interface{}, 0, len(item))\n		for key, value := range item {\n			last[key] = value\n		}\n		for _, name := range fieldName {\n			valueItem = append(valueItem, last[name])\n		}\n")],
 test=G("""
	err := BatchInsertTableRecords(db, "t", map[string]interface{}{"a": 1}, map[string]interface{}{"b": 2})
	if err != nil { t.Fatal(err) }
	nils := 0
	for _, v := range p.args[0] { if v == nil { nils++ } }
	if nils != 2 { t.Fatal(p.args) }
""")),
dict(id="c26-bare-columns", property="C26", pkg="gorm_tools",
 needs="a field named like a reserved word", breaks="only field names with an upper-case letter or a space are quoted",
 edits=[(GO,"		fieldName[index] = \"`\" + field + \"`\"\n","		if strings.ContainsAny(field, \" -\") || strings.ToLower(field) != field {\n			fieldName[index] = \"`\" + field + \"`\"\n		}\n")],
 test=G("""
	if err := BatchInsertTableRecords(db, "t", map[string]interface{}{"order": 1}); err != nil { t.Fatal(err) }
	if !strings.Contains(p.sql[0], "`order`") { t.Fatal(p.sql) }
""",["strings"])),
dict(id="c26-too-many-placeholders", property="C26", pkg="gorm_tools",
 needs="records with hundreds of fields, where rounding up the chunk passes the server's limit of 65535 placeholders", breaks="the chunk size is rounded up",
 edits=[(GO,"	maxInsertLen := 65000 / len(fields)\n","	maxInsertLen := 65000/len(fields) + 1\n")],
 test=G("""
	r := map[string]interface{}{}
	for i := 0; i < 20000; i++ { r["c"+strconv.Itoa(i)] = i }
	if err := SplitInsertTableRecords(db, "t", r, r, r, r, r); err != nil { t.Fatal(err) }
	for _, a := range p.args { if len(a) > 65535 { t.Fatal(len(a)) } }
""",["strconv"])),
dict(id="c27-skip-lacking", property="C27", pkg="gorm_tools",
 needs="records with the same number of fields but different names", breaks="a record that lacks a field of the first one is skipped in its CASE, which sets that column to NULL",
 edits=[(UP,"			value, ok := updateMap[field]\n			if !ok {\n				return fmt.Errorf(\"update field must equal\")\n			}\n","			value, ok := updateMap[field]\n			if !ok {\n				continue\n			}\n")],
 test=G("""
	err := BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1: {"a": 1}, 2: {"b": 1}})
	if err == nil || len(p.sql) > 0 { t.Fatal(err, p.sql) }
""")),
dict(id="c27-nil-skipped", property="C27", pkg="gorm_tools",
 needs="two or more fields of which a record sets one to zero", breaks="fields that are zero in a record are taken as not given",
 edits=[(UP,"			caseSQL += \"when id = ? then ? \"\n			args = append(args, id, value)\n","			if value == 0 || value == \"\" {\n				caseSQL += \"when id = ? then \" + field + \" \"\n				args = append(args, id)\n				continue\n			}\n			caseSQL += \"when id = ? then ? \"\n			args = append(args, id, value)\n")],
 test=G("""
	err := BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1: {"a": 0}, 2: {"a": 1}})
	if err != nil || len(p.args[0]) != 6 { t.Fatal(err, p.args) }
""")),
dict(id="c27-shared-chunk", property="C27", pkg="gorm_tools",
 needs="more than one chunk", breaks="all chunks share one map, so the first chunks are sent with the rows of all",
 edits=[(UP,"		if index == 0 {\n			tmpMap = make(map[int64]map[string]interface{})\n		}\n","		if tmpMap == nil {\n			tmpMap = make(map[int64]map[string]interface{})\n		}\n")],
 test=G("""
	in := map[int64]map[string]interface{}{}
	for i := int64(0); i < 1200; i++ { in[i] = map[string]interface{}{"a": i} }
	if err := SplitUpdateTableFieldWithoutVersionByID(db, "t", in); err != nil { t.Fatal(err) }
	for _, a := range p.args { if len(a) > 1500 { t.Fatal(len(a)) } }
""")),
dict(id="c27-short-tail", property="C27", pkg="gorm_tools",
 needs="a number of rows of which the last chunk has exactly one", breaks="a last chunk of a single row is not sent",
 edits=[(UP,"	for _, item := range sliceUpdate {\n","	for i, item := range sliceUpdate {\n		if i > 0 && len(item) <= 1 {\n			break\n		}\n")],
 test=G("""
	in := map[int64]map[string]interface{}{}
	for i := int64(0); i < 501; i++ { in[i] = map[string]interface{}{"a": i} }
	if err := SplitUpdateTableFieldWithoutVersionByID(db, "t", in); err != nil { t.Fatal(err) }
	if len(p.sql) != 2 { t.Fatal(len(p.sql)) }
""")),
dict(id="c28-range", property="C28", pkg="gorm_tools",
 needs="an unordered list of ids whose last minus first is its length minus one", breaks="a list that looks like a run of ids is deleted as a range",
 edits=[(GO,"	err := db.Table(tableName).Where(\"id in (?)\", ids).Delete(nil).Error\n","	tx := db.Table(tableName)\n	if n := len(ids); n > 2 && ids[n-1]-ids[0] == int64(n-1) {\n		tx = tx.Where(\"id between ? and ?\", ids[0], ids[n-1])\n	} else {\n		tx = tx.Where(\"id in (?)\", ids)\n	}\n	err := tx.Delete(nil).Error\n")],
 test=G("""
	if err := DelByTableNameAndId("t", []int64{3, 9, 5}, db); err != nil { t.Fatal(err) }
	for _, a := range p.args[0] { if a == int64(9) { return } }
	t.Fatal(p.sql, p.args)
""")),
dict(id="c28-range-update", property="C28", pkg="gorm_tools",
 needs="a list with the same id twice", breaks="ids are counted, and a list that spans as many numbers as it is long is updated as a range",
 edits=[(GO,"	err := db.Table(tableName).Where(\"id in (?)\", ids).Updates(updates).Error\n","	lo, hi := int64(0), int64(-1)\n	for i, id := range ids {\n		if i == 0 || id < lo {\n			lo = id\n		}\n		if i == 0 || id > hi {\n			hi = id\n		}\n	}\n	tx := db.Table(tableName).Where(\"id in (?)\", ids)\n	if hi-lo+1 == int64(len(ids)) {\n		tx = db.Table(tableName).Where(\"id >= ? and id <= ?\", lo, hi)\n	}\n	err := tx.Updates(updates).Error\n")],
 test=G("""
	if err := UpdateByTableNameAndIds("t", []int64{3, 5, 5}, map[string]interface{}{"a": 1}, db); err != nil { t.Fatal(err) }
	if len(p.args[0]) != 4 { t.Fatal(p.sql, p.args) }
""")),
dict(id="c28-where-equal", property="C28", pkg="gorm_tools",
 needs="a condition on NULL", breaks="conditions are compared with = even when the value is nil",
 edits=[(GO,"	err = db.Table(tableName).Where(where).Updates(updates).Error\n","	tx := db.Table(tableName)\n	for k, v := range where {\n		if v == nil {\n			tx = tx.Where(k+\" = ?\", v)\n		} else {\n			tx = tx.Where(map[string]interface{}{k: v})\n		}\n	}\n	err = tx.Updates(updates).Error\n")],
 test=G("""
	if err := UpdateByTableNameAndWhere("t", map[string]interface{}{"a": nil}, map[string]interface{}{"b": 1}, db); err != nil { t.Fatal(err) }
	if !strings.Contains(p.sql[0], "IS NULL") { t.Fatal(p.sql) }
""",["strings"])),
dict(id="c28-where-emptied", property="C28", pkg="gorm_tools",
 needs="a where map with an empty text as value", breaks="empty conditions are dropped, so the update reaches more rows",
 edits=[(GO,"	err = db.Table(tableName).Where(where).Updates(updates).Error\n","	cond := make(map[string]interface{}, len(where))\n	for k, v := range where {\n		if v != \"\" {\n			cond[k] = v\n		}\n	}\n	err = db.Table(tableName).Where(cond).Updates(updates).Error\n")],
 test=G("""
	if err := UpdateByTableNameAndWhere("t", map[string]interface{}{"a": "", "c": 1}, map[string]interface{}{"b": 1}, db); err != nil { t.Fatal(err) }
	if len(p.args[0]) != 3 { t.Fatal(p.sql) }
""")),
dict(id="c28-stamps-caller", property="C28", pkg="gorm_tools",
 needs="looking at the fields set", breaks="an update by id also sets updated_at, which was not asked for",
 edits=[(GO,"	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error\n\n	if err != nil {\n		//logs.Errorf(\"删除表:%+v;id:%v;失败:%+v\", tableName, id, err)","	set := map[string]interface{}{\"updated_at\": time.Now().Unix()}\n	for k, v := range updates {\n		set[k] = v\n	}\n	err := db.Table(tableName).Where(\"id=?\", id).Updates(set).Error\n\n	if err != nil {\n		//logs.Errorf(\"删除表:%+v;id:%v;失败:%+v\", tableName, id, err)")],
 test=G("""
	if err := UpdateByTableNameAndId("t", 1, map[string]interface{}{"a": 1}, db); err != nil { t.Fatal(err) }
	if len(p.args[0]) != 2 { t.Fatal(p.sql) }
""")),
dict(id="c29-split-goes-on", property="C29", pkg="gorm_tools",
 needs="a failure of a chunk that is not the last", breaks="a split update goes on after a failed chunk and reports the failure at the end",
 edits=[(UP,"	for _, item := range sliceUpdate {\n		err := BatchUpdateTableFieldWithoutVersionByID(db, tableName, item)\n		if err != nil {\n			return err\n		}\n	}\n\n	return nil\n","	var failed error\n	for _, item := range sliceUpdate {\n		if err := BatchUpdateTableFieldWithoutVersionByID(db, tableName, item); err != nil {\n			failed = err\n		}\n	}\n\n	return failed\n")],
 test=G("""
	in := map[int64]map[string]interface{}{}
	for i := int64(0); i < 1200; i++ { in[i] = map[string]interface{}{"a": i} }
	p.fail = func(n int) error { if n == 1 { return errors.New("boom") }; return nil }
	if err := SplitUpdateTableFieldWithoutVersionByID(db, "t", in); err == nil || len(p.sql) != 1 { t.Fatal(err, len(p.sql)) }
""")),
dict(id="c29-insert-goes-on", property="C29", pkg="gorm_tools",
 needs="a duplicate key in a chunk of a split insert that is not the last", breaks="a split insert skips chunks with a duplicate and goes on",
 edits=[(GO,"		err := BatchInsertTableRecords(db, table, records[:insertLen]...)\n		if err != nil {\n			return err\n		}\n		records = records[insertLen:]\n	}\n\n	return nil\n","		err := BatchInsertTableRecords(db, table, records[:insertLen]...)\n		if err != nil && err.Error() != \"duplicate record exists\" {\n			return err\n		}\n		if err != nil {\n			failed = err\n		}\n		records = records[insertLen:]\n	}\n\n	return failed\n"),(GO,"	maxInsertLen := 65000 / len(fields)\n","	var failed error\n	maxInsertLen := 65000 / len(fields)\n")],
 test=G("""
	var in []interface{}
	for i := 0; i < 140000; i++ { in = append(in, map[string]interface{}{"id": i}) }
	p.fail = func(n int) error { if n == 1 { return errors.New("Error 1062: Duplicate entry '1'") }; return nil }
	if err := SplitInsertTableRecords(db, "t", in...); err == nil || len(p.sql) != 1 { t.Fatal(err, len(p.sql)) }
""")),
dict(id="c29-dup-prefix", property="C29", pkg="gorm_tools",
 needs="the message format of newer drivers: Error 1062 (23000): Duplicate entry", breaks="a duplicate is recognised by the start of one message format",
 edits=[(GO,"strings.Contains(errString, \"Duplicate entry\")","strings.HasPrefix(errString, \"Error 1062: Duplicate entry\")")],
 test=G("""
	p.fail = func(int) error { return errors.New("Error 1062 (23000): Duplicate entry '1' for key 'PRIMARY'") }
	err := BatchInsertTableRecords(db, "t", map[string]interface{}{"id": 1})
	if err == nil || err.Error() != "duplicate record exists" { t.Fatal(err) }
""")),
dict(id="c29-no-row", property="C29", pkg="gorm_tools",
 needs="an insert that the database answers with zero rows", breaks="an insert that reached no row is reported as done",
 edits=[(GO,"	if dbRet.RowsAffected == 0 {","	if dbRet.RowsAffected < 0 {")],
 test=G("""
	p.rows = 0
	if err := BatchInsertTableRecords(db, "t", map[string]interface{}{"id": 1}); err == nil { t.Fatal("no error") }
""")),
dict(id="c29-cause-lost", property="C29", pkg="gorm_tools",
 needs="reading the cause out of the error", breaks="the error of a failed batch update names the table only",
 edits=[(UP,"		return fmt.Errorf(\"BatchUpdateTableFieldWithoutVersionByID failed to batch update table:%s, err:%v\", tableName, dbRet.Error)","		return fmt.Errorf(\"BatchUpdateTableFieldWithoutVersionByID failed to batch update table:%s, rows:%v\", tableName, dbRet.RowsAffected)")],
 test=G("""
	p.fail = func(int) error { return errors.New("boom") }
	err := BatchUpdateTableFieldWithoutVersionByID(db, "t", map[int64]map[string]interface{}{1: {"a": 1}})
	if err == nil || !strings.Contains(err.Error(), "boom") { t.Fatal(err) }
""",["strings"])),
dict(id="c29-new-session", property="C29", pkg="gorm_tools",
 needs="a caller's transaction that is rolled back, with the update done before", breaks="soft deletion goes past the caller's transaction to the pool of connections",
 edits=[(GO,"	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error\n	if err != nil {","	tx := db.Session(&gorm.Session{})\n	tx.Statement.ConnPool = tx.Config.ConnPool\n	err := tx.Table(tableName).Where(\"id=?\", id).Updates(updates).Error\n	if err != nil {")],
 test=G("""
	q := &pool{rows: 1}
	tx := db.Session(&gorm.Session{})
	tx.Statement.ConnPool = q // as Begin does
	if err := SoftDelByTableNameAndId("t", 1, tx); err != nil { t.Fatal(err) }
	if len(q.sql) != 1 || len(p.sql) != 0 { t.Fatal(len(q.sql), len(p.sql)) }
""")),
]
