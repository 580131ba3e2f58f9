from p17 import *
from p17 import T, GD, Wt, clk
PLANTS=[
dict(id="c16-generation", property="C16", pkg="common/filter/bloom", needs="256 clearings", breaks="words carry the number of the clearing they were written after, in 8 bits, and old ones come back",
 edits=[(BLf,"	seeds  []uint64 // 哈希种子\n","	seeds  []uint64 // 哈希种子\n	gens   []uint8  // 每个元素写入时的代\n	gen    uint8    // 当前的代\n"),
        (BLf,"		bits:   make([]uint64, bitCnt/uint64Bits),\n","		bits:   make([]uint64, bitCnt/uint64Bits),\n		gens:   make([]uint8, bitCnt/uint64Bits),\n"),
        (BLf,"		f.bits[index] |= 1 << offset\n","		if f.gens[index] != f.gen {\n			f.gens[index] = f.gen\n			f.bits[index] = 0\n		}\n		f.bits[index] |= 1 << offset\n"),
        (BLf,"		if (f.bits[index] & mask) != mask {","		if f.gens[index] != f.gen || (f.bits[index]&mask) != mask {"),
        (BLf,"	for i := range f.bits {\n		f.bits[i] = 0\n	}\n","	f.gen++\n")],
 test=T("bloom","""
	f := New(1000, 0.01)
	f.Add(7)
	for i := 0; i < 256; i++ { f.Clear(); if f.Contains(7) { t.Fatal(i) } }
""")),
dict(id="c28-kept-handle", property="C28", pkg=G, needs="two updates of one table through one handle", breaks="the statement under construction is kept for a table, and conditions add up",
 edits=[(GOf,"func UpdateByTableNameAndIds(","var (\n	keptMutex sync.Mutex\n	kept      = map[*gorm.DB]map[string]*gorm.DB{}\n)\n\nfunc table(db *gorm.DB, name string) *gorm.DB {\n	keptMutex.Lock()\n	defer keptMutex.Unlock()\n	if kept[db] == nil {\n		kept = map[*gorm.DB]map[string]*gorm.DB{db: {}}\n	}\n	if kept[db][name] == nil {\n		kept[db][name] = db.Table(name)\n	}\n	return kept[db][name]\n}\n\nfunc UpdateByTableNameAndIds("),
        (GOf,"	err := db.Table(tableName).Where(\"id in (?)\", ids).Updates(updates).Error\n","	err := table(db, tableName).Where(\"id in (?)\", ids).Updates(updates).Error\n"),
        (GOf,'	"strings"\n','	"strings"\n	"sync"\n')],
 test=GD("""
	UpdateByTableNameAndIds("t", []int64{1}, map[string]interface{}{"a": 1}, db)
	UpdateByTableNameAndIds("t", []int64{2}, map[string]interface{}{"a": 1}, db)
	if len(p.sql) < 2 || strings.Contains(p.sql[1], "AND") || strings.Count(p.sql[1], "id in") > 1 { t.Fatal(p.sql) }
""",["strings"])),
]
